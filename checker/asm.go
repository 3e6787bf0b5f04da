package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// Assembly front end. The Go assembler expands macros and resolves branch
// targets; its listing (go tool asm -S) is parsed into instructions. Nothing
// is executed.

type asmKind int

const (
	aImm asmKind = iota
	aReg
	aMem   // off(base)(index*scale)
	aSym   // sym+off(SB)
	aArg   // name+off(FP)
	aLabel // branch target
	aPair  // (R1, R2)
	aShift // R1>>n, R1<<n
	aSymAddr
	aOther
)

type asmOp struct {
	kind  asmKind
	imm   uint64
	reg   string
	reg2  string
	index string
	scale int
	off   int64
	sym   string
	name  string
	shift string
	text  string
}

type asmInst struct {
	pc   int
	op   string
	args []asmOp
	line string
	text string
	next int // index of the branch target, or -1
}

type asmFunc struct {
	name     string
	pkg      string
	arch     string
	file     string
	frame    int // locals, as declared (incl. saved BP on amd64)
	argSize  int // -1 if not declared
	argsKnow bool
	flags    string
	insts    []asmInst
	prologue int // number of leading instructions generated by the assembler
}

type asmData struct {
	funcs map[string]*asmFunc
	data  map[string][]byte
}

var asmLineRe = regexp.MustCompile(`^\t0x[0-9a-f]+ (\d+) \(([^)]*)\)\t([^\t]+)(?:\t(.*))?$`)
var asmHeadRe = regexp.MustCompile(`^(\S+) STEXT (.*)$`)
var asmRodataRe = regexp.MustCompile(`^(\S+) S\w*DATA`)
var asmHexRe = regexp.MustCompile(`^\t0x[0-9a-f]{4} ((?:[0-9a-f]{2} ?)+)`)

// assemble parses one assembly file for the given architecture.
func assemble(arch, pkg, file string) (*asmData, error) {
	tmp, err := os.MkdirTemp("", "nobsasm")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	out, _ := exec.Command("go", "env", "GOROOT").Output()
	goroot := strings.TrimSpace(string(out))
	cmd := exec.Command("go", "tool", "asm", "-p", "x", "-S", "-I", filepath.Join(goroot, "pkg/include"), "-I", filepath.Dir(file),
		"-D", "GOOS_linux", "-D", "GOARCH_"+arch, "-o", tmp+"/o.o", file)
	cmd.Env = append(os.Environ(), "GOARCH="+arch, "GOOS=linux", "GOTOOLCHAIN=local", "GOFLAGS=")
	cmd.Dir = tmp
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if err := cmd.Run(); err != nil {
		return nil, fmt.Errorf("%s does not assemble for %s: %v: %s", relPath(file), arch, err, strings.TrimSpace(se.String()))
	}
	d := &asmData{funcs: map[string]*asmFunc{}, data: map[string][]byte{}}
	var f *asmFunc
	var ro string
	base := filepath.Base(file)
	for _, l := range strings.Split(so.String(), "\n") {
		if m := asmHeadRe.FindStringSubmatch(l); m != nil {
			f = &asmFunc{name: strings.TrimPrefix(m[1], "x."), pkg: pkg, arch: arch, file: file, flags: m[2], argSize: -1}
			d.funcs[f.name] = f
			ro = ""
			continue
		}
		if m := asmRodataRe.FindStringSubmatch(l); m != nil {
			ro = strings.TrimPrefix(m[1], "x.")
			f = nil
			continue
		}
		if m := asmLineRe.FindStringSubmatch(l); m != nil && f != nil {
			pc, _ := strconv.Atoi(m[1])
			op := strings.TrimSpace(m[3])
			ln := m[2]
			if i := strings.LastIndex(ln, ":"); i >= 0 {
				ln = base + ln[i:]
			}
			switch op {
			case "TEXT":
				parts := strings.Split(m[4], ", ")
				last := strings.TrimPrefix(parts[len(parts)-1], "$")
				neg := strings.HasPrefix(last, "-")
				fr, as, ok := strings.Cut(strings.TrimPrefix(last, "-"), "-")
				f.frame, _ = strconv.Atoi(fr)
				if neg {
					f.frame = -f.frame
				}
				if ok {
					f.argSize, _ = strconv.Atoi(as)
				}
				f.flags = strings.Join(parts[1:], " ")
				continue
			case "FUNCDATA", "PCDATA":
				continue
			}
			in := asmInst{pc: pc, op: op, line: ln, text: op + " " + m[4], next: -1}
			for _, a := range splitArgs(m[4]) {
				in.args = append(in.args, parseAsmOp(a, arch))
			}
			f.insts = append(f.insts, in)
			continue
		}
		if m := asmHexRe.FindStringSubmatch(l); m != nil && ro != "" {
			for _, h := range strings.Fields(m[1]) {
				b, _ := strconv.ParseUint(h, 16, 8)
				d.data[ro] = append(d.data[ro], byte(b))
			}
		}
	}
	for _, f := range d.funcs {
		idx := map[int]int{}
		for i := len(f.insts) - 1; i >= 0; i-- {
			idx[f.insts[i].pc] = i
		}
		for i := range f.insts {
			in := &f.insts[i]
			if !isBranch(in.op) {
				continue
			}
			a := &in.args[len(in.args)-1]
			if n, err := strconv.Atoi(a.text); err == nil {
				if t, ok := idx[n]; ok {
					a.kind = aLabel
					in.next = t
				}
			}
		}
		f.prologue = prologueLen(f)
	}
	return d, nil
}

// prologueLen counts the leading instructions generated for stack growth and
// frame set-up; they carry the line of the TEXT directive.
func prologueLen(f *asmFunc) int {
	if len(f.insts) == 0 || f.arch != "amd64" || strings.Contains(f.flags, "NOFRAME") {
		return 0
	}
	l := f.insts[0].line
	n := 0
	for n < len(f.insts) && f.insts[n].line == l {
		n++
	}
	if f.insts[0].op != "PUSHQ" && f.insts[0].op != "MOVQ" {
		return 0
	}
	return n
}

func isBranch(op string) bool {
	if strings.HasPrefix(op, "J") {
		return true
	}
	switch op {
	case "B", "BEQ", "BNE", "BLT", "BGT", "BLE", "BGE", "BLO", "BHI", "BLS", "BHS", "BCS", "BCC", "BMI", "BPL", "BVS", "BVC", "CBZ", "CBNZ", "CBZW", "CBNZW", "TBZ", "TBNZ":
		return true
	}
	return false
}

func isUncond(op string) bool { return op == "JMP" || op == "B" }

func splitArgs(s string) []string {
	var out []string
	depth := 0
	cur := ""
	for _, c := range s {
		switch c {
		case '(', '[':
			depth++
		case ')', ']':
			depth--
		}
		if c == ',' && depth == 0 {
			out = append(out, strings.TrimSpace(cur))
			cur = ""
			continue
		}
		cur += string(c)
	}
	if strings.TrimSpace(cur) != "" {
		out = append(out, strings.TrimSpace(cur))
	}
	return out
}

var (
	opPairRe = regexp.MustCompile(`^\((\w+), (\w+)\)$`)
	opMemRe  = regexp.MustCompile(`^(-?\d*)\((\w+)\)(?:\((\w+)\*(\d+)\))?$`)
	opSymRe  = regexp.MustCompile(`^([^()\s$]+?)(<>)?([+-]\d+)?\((SB|FP|SP)\)$`)
	opShRe   = regexp.MustCompile(`^(\w+)(>>|<<|->|@>)(\w+)$`)
	opRegRe  = regexp.MustCompile(`^[A-Z][A-Z0-9]*(\.[A-Z0-9]+)?(\[\d+\])?$`)
)

func parseAsmOp(s, arch string) asmOp {
	o := asmOp{text: s}
	if strings.HasPrefix(s, "$") {
		t := s[1:]
		if v, err := strconv.ParseInt(t, 0, 64); err == nil {
			o.kind, o.imm = aImm, uint64(v)
			return o
		}
		if v, err := strconv.ParseUint(t, 0, 64); err == nil {
			o.kind, o.imm = aImm, v
			return o
		}
		if m := opSymRe.FindStringSubmatch(t); m != nil {
			o.kind, o.sym = aSymAddr, strings.TrimPrefix(m[1], "x.")
			o.off, _ = strconv.ParseInt(m[3], 10, 64)
			return o
		}
		o.kind = aOther
		return o
	}
	if m := opPairRe.FindStringSubmatch(s); m != nil {
		o.kind, o.reg, o.reg2 = aPair, m[1], m[2]
		return o
	}
	if m := opMemRe.FindStringSubmatch(s); m != nil {
		o.kind, o.reg, o.index = aMem, m[2], m[3]
		o.off, _ = strconv.ParseInt(m[1], 10, 64)
		o.scale, _ = strconv.Atoi(m[4])
		return o
	}
	if m := opSymRe.FindStringSubmatch(s); m != nil {
		o.off, _ = strconv.ParseInt(m[3], 10, 64)
		switch m[4] {
		case "SB":
			o.kind, o.sym = aSym, strings.TrimPrefix(m[1], "x.")+m[2]
		case "FP":
			o.kind, o.name = aArg, m[1]
		default:
			if m[1] != "" {
				o.kind, o.reg, o.name = aMem, "SP", m[1]
			}
		}
		return o
	}
	if m := opShRe.FindStringSubmatch(s); m != nil {
		o.kind, o.reg, o.shift = aShift, m[1], m[2]
		n, _ := strconv.Atoi(m[3])
		o.off = int64(n)
		return o
	}
	if opRegRe.MatchString(s) {
		o.kind, o.reg = aReg, s
		if i := strings.Index(s, "."); i >= 0 && arch == "arm64" {
			o.reg = s[:i]
		}
		return o
	}
	o.kind = aOther
	return o
}

// asmFiles lists the assembly files of the loaded configuration: package path -> files.
func (p *Program) asmFiles() map[string][]string {
	out := map[string][]string{}
	for path, q := range p.byPath {
		if !isModPkg(path) {
			continue
		}
		for _, f := range q.OtherFiles {
			if strings.HasSuffix(f, ".s") {
				out[path] = append(out[path], f)
			}
		}
		sort.Strings(out[path])
	}
	return out
}

// loadAsm assembles every file of the configuration.
func (p *Program) loadAsm() (map[string]*asmData, error) {
	out := map[string]*asmData{}
	for path, fs := range p.asmFiles() {
		m := &asmData{funcs: map[string]*asmFunc{}, data: map[string][]byte{}}
		for _, f := range fs {
			d, err := assemble(p.cfg.Arch, path, f)
			if err != nil {
				return nil, err
			}
			for k, v := range d.funcs {
				m.funcs[k] = v
			}
			for k, v := range d.data {
				m.data[k] = v
			}
		}
		out[path] = m
	}
	return out, nil
}

func (f *asmFunc) where(i int) string {
	return relPath(filepath.Dir(f.file)) + "/" + f.insts[i].line
}

func (f *asmFunc) String() string {
	return strings.TrimPrefix(f.pkg, modulePath+"/") + "." + f.name + " (" + f.arch + " assembly)"
}

// succs gives the successor instruction indices.
func (f *asmFunc) succs(i int) []int {
	in := f.insts[i]
	switch {
	case in.op == "RET" || in.op == "UNDEF":
		return nil
	case isBranch(in.op) && isUncond(in.op):
		if in.next < 0 {
			return nil
		}
		return []int{in.next}
	case isBranch(in.op):
		s := []int{}
		if i+1 < len(f.insts) {
			s = append(s, i+1)
		}
		if in.next >= 0 {
			s = append(s, in.next)
		}
		return s
	}
	if i+1 < len(f.insts) {
		return []int{i + 1}
	}
	return nil
}
