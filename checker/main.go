package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Config is one build configuration of the repository.
type Config struct {
	Arch string
	Tags string
}

func (c Config) String() string {
	if c.Tags == "" {
		return c.Arch
	}
	return c.Arch + "," + c.Tags
}

func parseConfig(s string) Config {
	a, t, _ := strings.Cut(s, ",")
	return Config{a, t}
}

// Job is a unit of work: a harness or an analysis in one configuration.
type Job struct {
	Kind string // harness | analysis
	Name string // pkgdir.func or analysis name
	Cfg  Config
}

var verifDir = "/verif"

func main() {
	prop := flag.String("prop", "", "property to decide")
	tier := flag.String("tier", "quick", "")
	only := flag.String("harness", "", "development: run matching harnesses")
	ana := flag.String("analysis", "", "development: run one analysis")
	cfgs := flag.String("config", "amd64", "development: configuration")
	worker := flag.Bool("worker", false, "")
	prof := flag.String("prof", "", "")
	list := flag.Bool("list", false, "")
	flag.StringVar(&repoDir, "repo", "/repo", "repository to analyse")
	flag.StringVar(&verifDir, "verif", "/verif", "")
	flag.Parse()
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	switch {
	case *worker:
		runWorker(*prop, parseConfig(*cfgs), flag.Args())
	case *list:
		for _, h := range embeddedHarnesses() {
			fmt.Println(h)
		}
	case *only != "":
		dev(*only, parseConfig(*cfgs))
	case *ana != "":
		for _, r := range analyses[*ana](parseConfig(*cfgs)) {
			show(r)
		}
	case *prop != "":
		os.Exit(decide(*prop, *tier))
	default:
		fmt.Println("usage: nobscheck -prop Cxx")
		os.Exit(2)
	}
}

func show(r *Result) {
	ok := 0
	for _, o := range r.Obls {
		if o.OK {
			ok++
		}
	}
	fmt.Printf("%s [%s]: %d/%d obligations, %d functions, %d instrs, %d terms, %.1fs\n", r.Harness, r.Config, ok, len(r.Obls), len(r.Funcs), r.Steps, len(tab), r.WallS)
	if os.Getenv("WORK") != "" {
		println("wordWork", wordWork)
	}
	for i, f := range r.failures() {
		if len(f.Text) > 900 {
			f.Text = f.Text[:300]
		}
		if i == 6 {
			fmt.Println("   ...")
			break
		}
		fmt.Println("   ", f.Key, "|", f.Text)
	}
}

func dev(re string, cfg Config) {
	rx := regexp.MustCompile(re)
	t := time.Now()
	props := map[string]bool{}
	for _, h := range embeddedHarnesses() {
		if rx.MatchString(h) {
			props[harnessProp(h)] = true
		}
	}
	only := ""
	if len(props) == 1 {
		for k := range props {
			only = k
		}
	}
	p, err := load(cfg, only, "./...", "mkem")
	if err != nil || len(p.errs) > 0 {
		fmt.Println(err, strings.Join(p.errs, "\n"))
		os.Exit(1)
	}
	p.buildSSA()
	fmt.Println("load", time.Since(t), p.dropped)
	for _, h := range p.harnesses() {
		if rx.MatchString(h.name()) {
			resetTerms()
			show(p.run(h))
		}
	}
}

var funcRe = regexp.MustCompile(`(?m)^func (verif(C\d\d)\w*)\(\)`)

// embeddedHarnesses lists pkgdir.func of every harness in the checker.
func embeddedHarnesses() []string {
	var out []string
	for _, f := range harnessFiles() {
		for _, m := range funcRe.FindAllStringSubmatch(string(f.src), -1) {
			out = append(out, f.dir+"."+m[1])
		}
	}
	sort.Strings(out)
	return slices.Compact(out)
}

func harnessProp(h string) string {
	i := strings.LastIndex(h, ".verif")
	return h[i+6 : i+9]
}

// configs gives the build configurations in which a property is decided.
func configs(prop, tier string) []Config {
	c := []Config{{"amd64", ""}, {"amd64", "noasm"}}
	if prop == "C27" { // the longest ones first
		c = append([]Config{{"arm64", ""}}, c...)
	}
	if prop == "C30" {
		c = append(c, Config{"arm64", ""})
	}
	if prop == "C28" || prop == "C31" { // field operations are uninterpreted
		c = c[:1]
	}
	if tier == "thorough" {
		if prop != "C27" && prop != "C30" && prop != "C28" && prop != "C31" {
			c = append(c, Config{"arm64", ""})
		}
		c = append(c, Config{"riscv64", ""})
	}
	return c
}

func decide(prop, tier string) int {
	t0 := time.Now()
	var jobs []Job
	for _, l := range append(append([]lemma{}, lemmas[prop]...), lemma{prop: prop}) {
		for _, cfg := range configs(l.prop, tier) {
			for _, h := range embeddedHarnesses() {
				if strings.Contains(h, "Deep") && tier != "thorough" {
					continue
				}
				if harnessProp(h) == l.prop && strings.HasPrefix(h, l.part) {
					jobs = append(jobs, Job{"harness", h, cfg})
				}
			}
		}
	}
	for _, a := range propAnalyses[prop] {
		for _, cfg := range analysisConfigs(a, tier) {
			jobs = append(jobs, Job{"analysis", a, cfg})
		}
	}
	results := runJobs(prop, jobs, 780*time.Second)
	return report(prop, tier, jobs, results, t0)
}

// runJobs distributes the jobs over worker processes.
func runJobs(prop string, jobs []Job, limit time.Duration) []*Result {
	type batch struct {
		cfg   Config
		names []string
	}
	nw := min(runtime.NumCPU(), 8)
	byCfg := map[Config][]string{}
	var order []Config
	for _, j := range jobs {
		if _, ok := byCfg[j.Cfg]; !ok {
			order = append(order, j.Cfg)
		}
		byCfg[j.Cfg] = append(byCfg[j.Cfg], j.Kind+":"+j.Name)
	}
	var bs []batch
	for _, c := range order {
		n := byCfg[c]
		k := max(1, nw/max(1, len(order)))
		k = min(k, len(n))
		parts := make([][]string, k)
		for i, x := range n {
			parts[i%k] = append(parts[i%k], x)
		}
		for _, p := range parts {
			bs = append(bs, batch{c, p})
		}
	}
	self, _ := os.Executable()
	deadline := time.Now().Add(limit)
	var mu sync.Mutex
	var out []*Result
	var wg sync.WaitGroup
	sem := make(chan bool, nw)
	// Once a violation is established the rest of the analysis gets a short
	// time to add to the report and is given up then.
	kn := known(prop)
	grace := 15 * time.Second
	stop := make(chan bool)
	violated := false
	establish := func(r *Result) { // mu is held
		for _, f := range r.failures() {
			if _, ok := kn[f.Key]; !ok && !violated {
				violated = true
				time.AfterFunc(grace, func() { close(stop) })
			}
		}
	}
	for _, b := range bs {
		wg.Add(1)
		go func(b batch) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			todo := b.names
			for len(todo) > 0 {
				args := append([]string{"-worker", "-prop", prop, "-repo", repoDir, "-config", b.cfg.String()}, todo...)
				cmd := exec.Command(self, args...)
				cmd.Stderr = os.Stderr
				pipe, err := cmd.StdoutPipe()
				if err == nil {
					err = cmd.Start()
				}
				if err != nil {
					mu.Lock()
					out = append(out, &Result{Harness: strings.Join(todo, " "), Config: b.cfg.String(), Crash: "worker did not start: " + err.Error()})
					mu.Unlock()
					return
				}
				timer := time.AfterFunc(time.Until(deadline), func() { cmd.Process.Kill() })
				ended := make(chan bool)
				go func() {
					select {
					case <-stop:
						cmd.Process.Kill()
					case <-ended:
					}
				}()
				sc := bufio.NewScanner(pipe)
				sc.Buffer(make([]byte, 1<<20), 1<<28)
				done := map[string]bool{}
				for sc.Scan() {
					var r Result
					if json.Unmarshal(sc.Bytes(), &r) == nil && r.Job != "" {
						mu.Lock()
						out = append(out, &r)
						establish(&r)
						mu.Unlock()
						done[r.Job] = true
					}
				}
				cmd.Wait()
				timer.Stop()
				close(ended)
				if os.Getenv("NC_RSS") != "" {
					fmt.Fprintln(os.Stderr, b.cfg, cmd.ProcessState.SysUsage().(*syscall.Rusage).Maxrss>>10, "MB", todo)
				}
				var rest []string
				for _, x := range todo {
					if !done[x] {
						rest = append(rest, x)
					}
				}
				if len(rest) == 0 {
					return
				}
				given := false
				select {
				case <-stop:
					given = true
				default:
				}
				if given {
					for _, x := range rest {
						mu.Lock()
						out = append(out, &Result{Job: x, Harness: strings.SplitN(x, ":", 2)[1], Config: b.cfg.String(), Skipped: "given up because a violation was found elsewhere"})
						mu.Unlock()
					}
					return
				}
				// the first unfinished job is the one that ended the worker
				why := "the analysis of this entry point did not finish (worker ended)"
				if time.Now().After(deadline) {
					why = "the analysis of this entry point did not finish in time"
					for _, x := range rest {
						mu.Lock()
						out = append(out, &Result{Job: x, Harness: strings.SplitN(x, ":", 2)[1], Config: b.cfg.String(), Crash: why})
						mu.Unlock()
					}
					return
				}
				mu.Lock()
				out = append(out, &Result{Job: rest[0], Harness: strings.SplitN(rest[0], ":", 2)[1], Config: b.cfg.String(), Crash: why})
				establish(out[len(out)-1])
				mu.Unlock()
				todo = rest[1:]
			}
		}(b)
	}
	wg.Wait()
	sort.Slice(out, func(i, j int) bool {
		if out[i].Harness != out[j].Harness {
			return out[i].Harness < out[j].Harness
		}
		return out[i].Config < out[j].Config
	})
	return out
}

// overBudget is set when the analysis of an entry point uses more memory than
// a worker may; the interpreter then stops it.
var overBudget atomic.Bool

const workerMB = 3700

func watchMemory() {
	var m runtime.MemStats
	for {
		time.Sleep(500 * time.Millisecond)
		runtime.ReadMemStats(&m)
		if m.HeapAlloc>>20 > workerMB {
			runtime.GC()
			runtime.ReadMemStats(&m)
			overBudget.Store(m.HeapAlloc>>20 > workerMB)
		}
	}
}

func runWorker(prop string, cfg Config, names []string) {
	debug.SetMemoryLimit(workerMB << 20)
	go watchMemory()
	w := bufio.NewWriter(os.Stdout)
	emit := func(job string, r *Result) {
		r.Job = job
		r.Config = cfg.String()
		b, _ := json.Marshal(r)
		w.Write(b)
		w.WriteString("\n")
		w.Flush()
	}
	var p *Program
	var byName map[string]Harness
	for _, n := range names {
		kind, name, _ := strings.Cut(n, ":")
		if kind == "analysis" {
			rs := analyses[name](cfg)
			for _, r := range rs[1:] {
				emit(n+"+", r)
			}
			emit(n, rs[0])
			continue
		}
		if p == nil {
			var err error
			p, err = load(cfg, prop, "./...", "mkem")
			if err == nil && len(p.errs) > 0 {
				err = fmt.Errorf("%s", strings.Join(p.errs, "; "))
			}
			if err != nil {
				p = &Program{loadErr: "the source does not type-check: " + err.Error()}
			} else {
				p.buildSSA()
				byName = map[string]Harness{}
				for _, h := range p.harnesses() {
					byName[h.name()] = h
				}
			}
		}
		h, ok := byName[name]
		switch {
		case p.loadErr != "":
			emit(n, &Result{Harness: name, Crash: p.loadErr})
		case !ok && len(p.dropped) > 0:
			emit(n, &Result{Harness: name, Skipped: p.skipReason(name)})
		case !ok:
			emit(n, &Result{Harness: name, Crash: "entry point missing: its package is not part of the build"})
		default:
			resetTerms()
			r := p.run(h)
			if overBudget.Load() {
				resetTerms()
				runtime.GC()
				overBudget.Store(false)
			}
			emit(n, r)
		}
	}
}
