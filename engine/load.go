package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Harness is one symbolic check: a Go function in an overlay file of the package under test.
type Harness struct {
	name     string
	prop     string
	file     string // in /verif/harness
	pkgDir   string // relative to the module
	module   string // module directory relative to /repo ("" or "nurbs")
	fn       *ssa.Function
	maxSteps int
	ieee     bool
	probes   int64
	pins     int64
	relerr   bool // value-dependent error bounds in comparisons
	mapAny   bool // failing replays are repeated because map iteration order matters
	tiers    string
	split    int
	bounds   string
	big      int // seconds for one hard query
	// results
	stat HStat
}

type directive struct {
	prop string
	kv   map[string]string
	doc  string
}

var dirRe = regexp.MustCompile(`(?m)^//verif:check\s+(\S+)(.*)$`)

// scanHarnesses lists the harness functions for a property (or all).
func scanHarnesses(root, prop string) []*Harness {
	var out []*Harness
	files, _ := filepath.Glob(filepath.Join(root, "harness", "*", "*.go"))
	more, _ := filepath.Glob(filepath.Join(root, "harness", "*", "*", "*.go"))
	files = append(files, more...)
	sort.Strings(files)
	for _, f := range files {
		if strings.Contains(f, "/verifsym/") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		if !strings.Contains(string(src), "//verif:check") {
			continue
		}
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, src, parser.ParseComments)
		if err != nil {
			fmt.Fprintln(os.Stderr, "harness does not parse:", err)
			continue
		}
		rel, _ := filepath.Rel(filepath.Join(root, "harness"), filepath.Dir(f))
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Doc == nil || fd.Recv != nil {
				continue
			}
			for _, c := range fd.Doc.List {
				m := dirRe.FindStringSubmatch(c.Text)
				if m == nil {
					continue
				}
				if prop != "" && m[1] != prop {
					continue
				}
				h := &Harness{name: fd.Name.Name, prop: m[1], file: f, pkgDir: rel, maxSteps: 3000000, tiers: "both", big: 20}
				if rel == "nurbs" || strings.HasPrefix(rel, "nurbs/") {
					h.module = "nurbs"
					h.pkgDir = strings.TrimPrefix(strings.TrimPrefix(rel, "nurbs"), "/")
				} else if rel == "root" {
					h.pkgDir = ""
				}
				for _, kv := range strings.Fields(m[2]) {
					k, v := kv, ""
					if i := strings.IndexByte(kv, '='); i >= 0 {
						k, v = kv[:i], kv[i+1:]
					}
					switch k {
					case "ieee":
						h.ieee = true
					case "relerr":
						h.relerr = true
					case "anyorder":
						h.mapAny = true
					case "steps":
						h.maxSteps, _ = strconv.Atoi(v)
					case "tier":
						h.tiers = v
					case "big":
						h.big, _ = strconv.Atoi(v)
					}
				}
				var b []string
				for _, l := range strings.Split(fd.Doc.Text(), "\n") {
					if l = strings.TrimSpace(l); l != "" {
						b = append(b, l)
					}
				}
				h.bounds = strings.Join(b, " ")
				out = append(out, h)
			}
		}
	}
	return out
}

// Module is one loaded Go module of the repository with the harness overlay.
type Module struct {
	dir     string // absolute
	rel     string
	path    string // module path
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package
	overlay map[string]string // target path -> source file
	dropped []string
	modfile string
	mainOK  bool
}

func mapKeys(m map[string]string) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

func goEnv(modfile string) []string {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOWORK=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GOTOOLCHAIN=") || strings.HasPrefix(e, "GOAMD64=") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=mod -modfile="+modfile, "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local", "GONOSUMDB=*", "GONOSUMCHECK=1", "GOFLAGS_EXTRA=", "GOAMD64=v1")
}

// loadModule type-checks the module with the harness files of hs and builds SSA.
func loadModule(verif, repo, rel, work string, hs []*Harness) (*Module, error) {
	m := &Module{dir: filepath.Join(repo, rel), rel: rel, pkgs: map[string]*ssa.Package{}, overlay: map[string]string{}}
	mod, err := os.ReadFile(filepath.Join(m.dir, "go.mod"))
	if err != nil {
		return nil, err
	}
	for _, l := range strings.Split(string(mod), "\n") {
		if strings.HasPrefix(l, "module ") {
			m.path = strings.TrimSpace(strings.TrimPrefix(l, "module "))
		}
	}
	tag := "root"
	if rel != "" {
		tag = strings.ReplaceAll(rel, "/", "_")
	}
	wd := filepath.Join(work, tag)
	if err := os.MkdirAll(wd, 0o755); err != nil {
		return nil, err
	}
	m.modfile = filepath.Join(wd, "go.mod")
	if err := os.WriteFile(m.modfile, mod, 0o644); err != nil {
		return nil, err
	}
	if sum, err := os.ReadFile(filepath.Join(m.dir, "go.sum")); err == nil {
		os.WriteFile(filepath.Join(wd, "go.sum"), sum, 0o644)
	}
	// overlay: library, harness files and their helpers
	lib := filepath.Join(verif, "harness", "verifsym", "verifsym.go")
	m.overlay[filepath.Join(m.dir, "verifsym", "verifsym.go")] = lib
	want := map[string]bool{}
	for _, h := range hs {
		want[h.file] = true
	}
	pkgset := map[string]bool{}
	for _, h := range hs {
		pkgset[h.pkgDir] = true
		// shared helper files of the same directory (files without checks)
		fs, _ := filepath.Glob(filepath.Join(filepath.Dir(h.file), "*.go"))
		for _, f := range fs {
			src, _ := os.ReadFile(f)
			if want[f] || !strings.Contains(string(src), "//verif:check") {
				m.overlay[filepath.Join(m.dir, h.pkgDir, "zz_verif_"+filepath.Base(f))] = f
			}
		}
	}
	patterns := []string{"./verifsym"}
	for d := range pkgset {
		patterns = append(patterns, "./"+d)
	}
	sort.Strings(patterns)
	for try := 0; ; try++ {
		ov := map[string][]byte{}
		for dst, src := range m.overlay {
			b, err := os.ReadFile(src)
			if err != nil {
				return nil, err
			}
			s := string(b)
			if m.path != "geGoMetry" {
				s = strings.ReplaceAll(s, "\"geGoMetry/verifsym\"", strconv.Quote(m.path+"/verifsym"))
			}
			ov[dst] = []byte(s)
		}
		cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: m.dir, Overlay: ov, Env: goEnv(m.modfile)}
		pkgs, err := packages.Load(cfg, patterns...)
		if err != nil {
			return nil, err
		}
		bad := map[string]string{}
		var other []string
		packages.Visit(pkgs, nil, func(p *packages.Package) {
			for _, e := range p.Errors {
				hit := ""
				for dst := range m.overlay {
					if strings.HasPrefix(e.Pos, dst+":") {
						hit = dst
					}
				}
				if hit != "" {
					bad[hit] = e.Msg
				} else {
					other = append(other, e.Error())
				}
			}
		})
		if len(bad) > 0 && try < 12 {
			for dst, msg := range bad {
				m.dropped = append(m.dropped, filepath.Base(m.overlay[dst])+": "+msg)
				delete(m.overlay, dst)
			}
			continue
		}
		if len(other) > 0 {
			return nil, fmt.Errorf("the code under test does not type-check: %s", other[0])
		}
		prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
		prog.Build()
		m.prog = prog
		for _, p := range prog.AllPackages() {
			m.pkgs[p.Pkg.Path()] = p
		}
		break
	}
	for _, h := range hs {
		pp := m.path
		if h.pkgDir != "" {
			pp += "/" + h.pkgDir
		}
		if p := m.pkgs[pp]; p != nil {
			if _, ok := m.overlay[filepath.Join(m.dir, h.pkgDir, "zz_verif_"+filepath.Base(h.file))]; ok {
				h.fn = p.Func(h.name)
			}
		}
	}
	return m, nil
}

// overlayFile writes the overlay (with the replay main program) for the go command.
func (m *Module) overlayFile(work string, hs []*Harness) (string, error) {
	tag := "root"
	if m.rel != "" {
		tag = strings.ReplaceAll(m.rel, "/", "_")
	}
	wd := filepath.Join(work, tag)
	rep := map[string]string{}
	i := 0
	for _, dst := range mapKeys(m.overlay) {
		src := m.overlay[dst]
		if m.path != "geGoMetry" {
			b, err := os.ReadFile(src)
			if err != nil {
				return "", err
			}
			s := strings.ReplaceAll(string(b), "\"geGoMetry/verifsym\"", strconv.Quote(m.path+"/verifsym"))
			src = filepath.Join(wd, fmt.Sprintf("h%d.go", i))
			i++
			if err := os.WriteFile(src, []byte(s), 0o644); err != nil {
				return "", err
			}
		}
		rep[dst] = src
	}
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\tvs \"" + m.path + "/verifsym\"\n")
	alias := map[string]string{}
	n := 0
	for _, h := range hs {
		if h.fn == nil || h.module != m.rel {
			continue
		}
		if _, ok := alias[h.pkgDir]; !ok {
			alias[h.pkgDir] = fmt.Sprintf("p%d", n)
			pp := m.path
			if h.pkgDir != "" {
				pp += "/" + h.pkgDir
			}
			sb.WriteString(fmt.Sprintf("\tp%d %q\n", n, pp))
			n++
		}
	}
	sb.WriteString(")\n\nfunc init() {\n\trun = vs.Run0\n")
	for _, h := range hs {
		if h.fn == nil || h.module != m.rel {
			continue
		}
		sb.WriteString(fmt.Sprintf("\ttable[%q] = %s.%s\n", h.name, alias[h.pkgDir], h.name))
	}
	sb.WriteString("}\n")
	reg := filepath.Join(wd, "registry.go")
	if err := os.WriteFile(reg, []byte(sb.String()), 0o644); err != nil {
		return "", err
	}
	mainGo := filepath.Join(wd, "main.go")
	if err := os.WriteFile(mainGo, []byte(replayMain), 0o644); err != nil {
		return "", err
	}
	rep[filepath.Join(m.dir, "verifmain", "registry.go")] = reg
	rep[filepath.Join(m.dir, "verifmain", "main.go")] = mainGo
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": rep}, "", " ")
	of := filepath.Join(wd, "overlay.json")
	return of, os.WriteFile(of, b, 0o644)
}

// replayMain serves replay requests, one JSON object per line.
const replayMain = `package main

import (
	"bufio"
	"encoding/json"
	"os"
	"runtime/debug"
	"syscall"
)

var table = map[string]func(){}
var run func(f func(), in map[string]string, t int, dir string) interface{}

type request struct {
	H   string            ` + "`json:\"h\"`" + `
	In  map[string]string ` + "`json:\"in\"`" + `
	T   int               ` + "`json:\"t\"`" + `
	Dir string            ` + "`json:\"dir\"`" + `
}

func main() {
	debug.SetMaxStack(256 << 20)
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30})
	out := os.Stdout // stays referenced: a collected os.File closes its descriptor
	if null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	enc := json.NewEncoder(out)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var rq request
		if json.Unmarshal(line, &rq) != nil {
			return
		}
		f := table[rq.H]
		if f == nil {
			enc.Encode(map[string]interface{}{"nofunc": true})
			continue
		}
		enc.Encode(run(f, rq.In, rq.T, rq.Dir))
	}
}
`

func posOf(prog *ssa.Program, p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	ps := prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", ps.Filename, ps.Line)
}

var _ = types.Universe
