package main

import (
	"fmt"
	"os"
	"regexp"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var harnessRe = regexp.MustCompile(`^verif(C\d\d)`)

// Harness is one analysis entry point.
type Harness struct {
	fn   *ssa.Function
	prop string
	pkg  string
}

func (p *Program) harnesses() []Harness {
	var hs []Harness
	for path, q := range p.byPath {
		if !isModPkg(path) {
			continue
		}
		sp := p.prog.Package(q.Types)
		if sp == nil {
			continue
		}
		for n, m := range sp.Members {
			f, ok := m.(*ssa.Function)
			if !ok {
				continue
			}
			if g := harnessRe.FindStringSubmatch(n); g != nil && len(f.Params) == 0 {
				hs = append(hs, Harness{f, g[1], path})
			}
		}
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].fn.String() < hs[j].fn.String() })
	return hs
}

func (h Harness) name() string {
	d := strings.TrimPrefix(h.pkg, modulePath+"/")
	if d == "mkem" || strings.HasPrefix(d, "mkem/") {
		d = "kem/" + d
	}
	return d + "." + h.fn.Name()
}

// Result of analysing one harness.
type Result struct {
	Job       string         `json:"job"`
	Harness   string         `json:"harness"`
	Config    string         `json:"config"`
	Obls      []Obligation   `json:"obligations"`
	Notes     []string       `json:"notes"`
	Panics    []string       `json:"panics"`
	Funcs     []string       `json:"functions"`
	CallSites int            `json:"call_sites"`
	Steps     int            `json:"instructions"`
	Prims     map[string]int `json:"summaries"`
	Covers    []string       `json:"covers"`
	WallS     float64        `json:"wall_s"`
	Crash     string         `json:"crash,omitempty"`
	Skipped   string         `json:"skipped,omitempty"`
	Unreached []string       `json:"unreached,omitempty"`
	Asserts   []string       `json:"asserts,omitempty"` // assertion sites in the functions interpreted
	Hit       []string       `json:"hit,omitempty"`     // those reached
}

func (p *Program) initState(in *Interp) *State {
	st := &State{tok: newTok(), pc: True}
	var paths []string
	for path := range p.byPath {
		if isModPkg(path) {
			paths = append(paths, path)
		}
	}
	sort.Strings(paths)
	for _, path := range paths {
		sp := p.prog.Package(p.byPath[path].Types)
		if sp == nil {
			continue
		}
		var names []string
		for n, m := range sp.Members {
			if _, ok := m.(*ssa.Global); ok {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		for _, n := range names {
			o := in.global(sp.Members[n].(*ssa.Global))
			st.mut(o)
		}
	}
	for _, path := range paths {
		sp := p.prog.Package(p.byPath[path].Types)
		if sp == nil || sp.Pkg.Name() == "main" {
			continue
		}
		if f := sp.Func("init"); f != nil {
			_, s2 := in.callFn(st, f, nil, nil)
			if s2 == nil {
				in.imprecise("package initialisation of " + path + " does not return")
				continue
			}
			st = s2
		}
	}
	in.initMark = len(in.objs)
	return st
}

func (p *Program) run(h Harness) (res *Result) {
	t0 := time.Now()
	res = &Result{Harness: h.name(), Config: p.cfg.String()}
	in := NewInterp(p.prog)
	in.prg = p
	numMode = false
	wordMode = false
	in.harness = h.name()
	if os.Getenv("NOCATCH") == "" {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(csStop); ok {
					res.finish(in, t0)
					return
				}
				if _, ok := r.(ctStop); ok {
					in.ctReport()
					res.finish(in, t0)
					return
				}
				res.Crash = fmt.Sprintf("analysis stopped: %v at %s in %v", r, relPos(in.fset.Position(in.curPos)), in.curFn)
				res.finish(in, t0)
			}
		}()
	}
	st := p.initState(in)
	in.panics = nil
	in.curPos = h.fn.Pos()
	_, end := in.callFn(st, h.fn, nil, nil)
	in.ctReport()
	if end == nil || end.pc == False {
		res.Crash = "the harness never reaches its end"
	}
	for _, pn := range in.panics {
		if pn.st.pc != False {
			fn := ""
			if pn.fn != nil {
				fn = pn.fn.String()
			}
			res.Panics = append(res.Panics, fmt.Sprintf("%s at %s in %s when %s", pn.msg, relPos(in.fset.Position(pn.pos)), fn, tstr(pn.st.pc, 5)))
		}
	}
	res.finish(in, t0)
	return res
}

func (res *Result) finish(in *Interp, t0 time.Time) {
	res.Obls = in.obls
	res.Notes = in.notes
	for f := range in.fnSeen {
		if f.Pkg != nil && isModPkg(f.Pkg.Pkg.Path()) && !strings.Contains(in.fset.Position(f.Pos()).Filename, "zz_verif_") {
			res.Funcs = append(res.Funcs, f.String())
		}
	}
	sort.Strings(res.Funcs)
	for f := range in.fnSeen {
		if !strings.Contains(in.fset.Position(f.Pos()).Filename, "zz_verif_") {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && g.String() == rtPath+".Assert" {
						res.Asserts = append(res.Asserts, relPos(in.fset.Position(ins.Pos())))
					}
				}
			}
		}
	}
	for k := range in.assertHit {
		res.Hit = append(res.Hit, k)
	}
	res.CallSites = in.callSites
	res.Steps = in.steps
	res.Prims = in.primCalls
	for c := range in.covers {
		res.Covers = append(res.Covers, c)
	}
	res.WallS = time.Since(t0).Seconds()
}

// failures lists what was not discharged.
func (res *Result) failures() []Failure {
	var out []Failure
	add := func(k, t string) {
		if len(t) > 900 {
			t = t[:500] + " ... " + t[len(t)-300:]
		}
		out = append(out, Failure{res.Harness + "/" + k, t})
	}
	for _, n := range res.Notes {
		add("undecided", "not decided: "+n)
	}
	for _, n := range res.Panics {
		add("panic", "unexpected panic: "+n)
	}
	if res.Crash != "" {
		add("stopped", res.Crash)
	}
	for _, o := range res.Obls {
		if !o.OK {
			add(o.Name, fmt.Sprintf("%s (%s): %s", o.Name, o.Where, o.Detail))
		}
	}
	for _, n := range res.Unreached {
		add("unreached", "obligation never reached: "+n)
	}
	if len(res.Obls) == 0 && res.Crash == "" && res.Skipped == "" {
		add("vacuous", "no obligation was reached")
	}
	return out
}
