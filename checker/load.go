package main

import (
	"embed"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

//go:embed all:harness
var harnessFS embed.FS

var repoDir = "/repo"

const modulePath = "github.com/henrydcase/nobs"

type Program struct {
	pkgs              []*packages.Package
	prog              *ssa.Program
	byPath            map[string]*packages.Package
	errs              []string
	cfg               Config
	loadErr           string
	srcErr            bool // some error lies in the repository's own files
	badFiles, dropped map[string]string
	asmCache          map[string]*asmData
}

// workDir is a scratch directory with the go.work joining both modules of the repository.
func workDir() (string, error) {
	d, err := os.MkdirTemp("", "nobscheck")
	if err != nil {
		return "", err
	}
	w := fmt.Sprintf("go 1.21\n\nuse %s\nuse %s/kem/mkem\n", repoDir, repoDir)
	if err := os.WriteFile(d+"/go.work", []byte(w), 0o644); err != nil {
		return "", err
	}
	if b, err := os.ReadFile("/opt/vp/go.work.sum"); err == nil {
		os.WriteFile(d+"/go.work.sum", b, 0o644)
	}
	return d, nil
}

var harnessFileRe = regexp.MustCompile(`^(c\d\d)_`)

// A harness in a directory PRIME is used for each of the three SIDH primes.
var primes = []string{"p434", "p503", "p751"}

// harnessFile is one embedded file as it is laid over the repository.
type harnessFile struct {
	dir, base string
	src       []byte
}

func harnessFiles() []harnessFile {
	var out []harnessFile
	fs.WalkDir(harnessFS, "harness", func(p string, e fs.DirEntry, err error) error {
		if err != nil || e.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		b, _ := harnessFS.ReadFile(p)
		rel := strings.TrimPrefix(p, "harness/")
		dir, base := filepath.Dir(rel), filepath.Base(rel)
		if !strings.Contains(dir, "PRIME") {
			out = append(out, harnessFile{dir, base, b})
			return nil
		}
		for _, q := range primes {
			r := strings.NewReplacer("PRIMEU", strings.ToUpper(q), "PRIME", q)
			out = append(out, harnessFile{r.Replace(dir), base, []byte(r.Replace(string(b)))})
		}
		return nil
	})
	return out
}

// load type-checks the packages given by patterns together with the harness
// files of prop ("" for all, "-" for none). Harness files that do not fit the
// names the source uses are left out and recorded.
func load(cf Config, prop string, patterns ...string) (*Program, error) {
	dropped := map[string]string{}
	for {
		p, err := loadOnce(cf, prop, dropped, patterns...)
		if err != nil || len(p.errs) == 0 || p.srcErr {
			return p, err
		}
		n := len(dropped)
		for f, e := range p.badFiles {
			dropped[f] = e
		}
		if len(dropped) == n {
			return p, nil
		}
	}
}

func loadOnce(cf Config, prop string, dropped map[string]string, patterns ...string) (*Program, error) {
	d, err := workDir()
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(d)
	overlay := map[string][]byte{}
	if prop != "-" {
		for _, f := range harnessFiles() {
			base := f.base
			if m := harnessFileRe.FindStringSubmatch(base); m != nil && prop != "" && m[1] != strings.ToLower(prop) && !slices.ContainsFunc(lemmas[prop], func(l lemma) bool { return l.prop == strings.ToUpper(m[1]) }) {
				continue
			}
			if f.dir != "verifrt" {
				base = "zz_verif_" + base
				if _, err := os.Stat(filepath.Join(repoDir, f.dir)); err != nil {
					continue
				}
			}
			path := filepath.Join(repoDir, f.dir, base)
			if dropped[path] == "" {
				overlay[path] = f.src
			}
		}
	}
	env := append(os.Environ(), "GOWORK="+d+"/go.work", "GOPROXY=off", "GOFLAGS=", "GOTOOLCHAIN=local", "GO111MODULE=on",
		"GOOS=linux", "GOARCH="+cf.Arch, "CGO_ENABLED=0")
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax, Dir: repoDir, Env: env, Overlay: overlay, Fset: token.NewFileSet(),
		ParseFile: func(fset *token.FileSet, name string, src []byte) (*ast.File, error) {
			return parser.ParseFile(fset, name, src, parser.SkipObjectResolution|parser.ParseComments)
		},
	}
	if cf.Tags != "" {
		cfg.BuildFlags = []string{"-tags=" + cf.Tags}
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	p := &Program{pkgs: pkgs, byPath: map[string]*packages.Package{}, cfg: cf, badFiles: map[string]string{}, dropped: dropped}
	packages.Visit(pkgs, nil, func(q *packages.Package) {
		p.byPath[q.PkgPath] = q
		if isModPkg(q.PkgPath) {
			for _, e := range q.Errors {
				p.errs = append(p.errs, fmt.Sprintf("%s: %s", q.PkgPath, e))
				f, _, _ := strings.Cut(e.Pos, ":")
				if _, ok := overlay[f]; ok && !strings.Contains(f, "verifrt") {
					p.badFiles[f] = e.Msg
				} else {
					p.srcErr = true
				}
			}
		}
	})
	sort.Strings(p.errs)
	return p, nil
}

func isModPkg(path string) bool {
	return path == "mkem" || strings.HasPrefix(path, "mkem/") || strings.HasPrefix(path, modulePath)
}

func (p *Program) buildSSA() {
	prog, _ := ssautil.AllPackages(p.pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.prog = prog
}

// skipReason says why the entry point called name could not be attached to the source.
func (p *Program) skipReason(name string) string {
	var fs []string
	for f, e := range p.dropped {
		fs = append(fs, relPath(f)+": "+e)
	}
	sort.Strings(fs)
	return "entry point does not fit the internal names of this tree: " + strings.Join(fs, "; ")
}

func relPath(f string) string { return strings.TrimPrefix(f, repoDir+"/") }
