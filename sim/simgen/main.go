// Command simgen turns /repo's current working tree into a simulatable build:
// it writes an overlay (for `go build -overlay`) in which every package of the
// repository has yield points between statements, simulated sync and
// sync/atomic packages and simulated channel/goroutine operations, and in which
// the Go runtime's own random choices (map order, select order, equal-time
// timers) come from a seeded stream.  Nothing in /repo is modified.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const modPath = "github.com/lightstep/otel-launcher-go"
const simBase = "lightstep/sdk/metric/zzsim"

var (
	repo    = flag.String("repo", "/repo", "repository root")
	verif   = flag.String("sim", "/verif/sim", "sim sources root")
	out     = flag.String("out", "", "output directory")
	goroot  = flag.String("goroot", "", "GOROOT of the toolchain used")
	modc    = flag.String("modcache", "/root/go/pkg/mod", "GOMODCACHE")
	harness = flag.String("harness", "core", "harness directory name(s), comma separated")
	deps    = flag.String("deps", "", "module dirs to copy and instrument: modpath@ver,...")
	lvl     = flag.Int("level", 2, "2: split read-modify-write statements, 1: yield between statements, 0: only synchronisation")
	stubs   = flag.String("stubs", "", "modpath=dir replacements (dir relative to -sim)")
)

type site struct {
	File string `json:"f"`
	Line int    `json:"l"`
}

var sites []site
var replace = map[string]string{}

func main() {
	flag.Parse()
	if *out == "" || *goroot == "" {
		fatal("need -out and -goroot")
	}
	sites = append(sites, site{"?", 0})
	must(os.MkdirAll(*out, 0o755))

	// 1. Every package of the repository.
	var dirs []string
	must(filepath.WalkDir(*repo, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() {
			n := d.Name()
			rel, _ := filepath.Rel(*repo, p)
			if p != *repo && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "examples" || n == "tools" || n == "vendor") {
				return filepath.SkipDir
			}
			if rel == simBase {
				return filepath.SkipDir
			}
			dirs = append(dirs, p)
		}
		return nil
	}))
	sort.Strings(dirs)
	for _, d := range dirs {
		rel, _ := filepath.Rel(*repo, d)
		instrumentDir(d, rel, filepath.Join(*out, "repo", rel), func(src, dst string) { replace[src] = dst })
	}

	// 2. Simulator packages and harness, as virtual packages of the module.
	for _, p := range []string{"simrt", "simsync", "simatomic", "simh"} {
		addVirtual(filepath.Join(*verif, "rt", p), filepath.Join(*repo, simBase, p))
	}
	for _, h := range strings.Split(*harness, ",") {
		if h != "" {
			addVirtual(filepath.Join(*verif, "harness", h), filepath.Join(*repo, simBase, h))
		}
	}

	// 3. Runtime.
	patchRuntime()
	hookSources()

	// 4. Module file, instrumented dependencies and stubs.
	gm, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	must(err)
	gs, err := os.ReadFile(filepath.Join(*repo, "go.sum"))
	must(err)
	mod := string(gm)
	mod += hookGopsutil(mod)
	for _, d := range strings.Split(*deps, ",") {
		if d == "" {
			continue
		}
		d, only, _ := strings.Cut(d, "#") // instrument only this subdirectory
		mp, ver := findVersion(mod, d)
		src := filepath.Join(*modc, escape(mp)+"@"+ver)
		dst := filepath.Join(*out, "deps", strings.ReplaceAll(mp, "/", "_"))
		copyTree(src, dst)
		must(filepath.WalkDir(dst, func(p string, e fs.DirEntry, err error) error {
			if err != nil {
				return err
			}
			if e.IsDir() {
				rel, _ := filepath.Rel(dst, p)
				if only == "" || rel == only || strings.HasPrefix(rel, only+"/") {
					instrumentDir(p, mp+"/"+rel, p, nil)
				}
			}
			return nil
		}))
		mod += fmt.Sprintf("\nreplace %s => %s\n", mp, dst)
	}
	for _, s := range strings.Split(*stubs, ",") {
		if s == "" {
			continue
		}
		kv := strings.SplitN(s, "=", 2)
		mod += fmt.Sprintf("\nreplace %s => %s\n", kv[0], filepath.Join(*verif, kv[1]))
	}
	must(os.WriteFile(filepath.Join(*out, "go.mod"), []byte(mod), 0o644))
	must(os.WriteFile(filepath.Join(*out, "go.sum"), gs, 0o644))

	b, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	must(os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644))
	b, _ = json.Marshal(sites)
	must(os.WriteFile(filepath.Join(*out, "sites.json"), b, 0o644))
	fmt.Printf("simgen: %d files replaced, %d yield sites\n", len(replace), len(sites)-1)
}

func findVersion(mod, path string) (string, string) {
	for _, l := range strings.Split(mod, "\n") {
		f := strings.Fields(strings.TrimPrefix(strings.TrimSpace(l), "require "))
		if len(f) >= 2 && f[0] == path {
			return path, f[1]
		}
	}
	fatal("module " + path + " not in go.mod")
	return "", ""
}

func escape(p string) string {
	var b strings.Builder
	for _, r := range p {
		if r >= 'A' && r <= 'Z' {
			b.WriteByte('!')
			b.WriteRune(r + 32)
		} else {
			b.WriteRune(r)
		}
	}
	return b.String()
}

func copyTree(src, dst string) {
	must(filepath.WalkDir(src, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if d.IsDir() {
			return os.MkdirAll(filepath.Join(dst, rel), 0o755)
		}
		if strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(dst, rel), b, 0o644)
	}))
}

func addVirtual(src, dst string) {
	ents, err := os.ReadDir(src)
	must(err)
	for _, e := range ents {
		if !e.IsDir() && (strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), ".s")) {
			replace[filepath.Join(dst, e.Name())] = filepath.Join(src, e.Name())
		}
	}
}

func patchRuntime() {
	type pt struct{ file, old, new string }
	pts := []pt{
		{"runtime/runtime2.go", "\tlabels          unsafe.Pointer // profiler labels\n", "\tlabels          unsafe.Pointer // profiler labels\n\tsimid, simchild uint64\n"},
		{"runtime/proc.go", "\tnewg.parentGoid = callergp.goid\n", "\tnewg.parentGoid = callergp.goid\n\tnewg.simid, newg.simchild = callergp.simchild, 0\n\tcallergp.simchild = 0\n"},
		{"runtime/proc.go", "const randomizeScheduler = raceenabled", "const randomizeScheduler = false"},
		{"runtime/select.go", "j := cheaprandn(uint32(norder + 1))", "j := simrandn(uint32(norder + 1))"},
		{"runtime/time.go", "t.rand = cheaprand()", "t.rand = uint32(simRand() >> 32)"},
		{"runtime/rand.go", "\tmp := getg().m\n\tc := &mp.chacha8\n", "\tif simRandOn {\n\t\treturn simRand()\n\t}\n\tmp := getg().m\n\tc := &mp.chacha8\n"},
		{"runtime/alg.go", "hashkey[i] = uintptr(bootstrapRand())", "hashkey[i] = uintptr(0x9e3779b97f4a7c15 * uint64(i+1))"},
		{"runtime/alg.go", "key[i] = bootstrapRand()", "key[i] = 0x9e3779b97f4a7c15 * uint64(i+3)"},
	}
	bodies := map[string]string{}
	for _, p := range pts {
		b, ok := bodies[p.file]
		if !ok {
			raw, err := os.ReadFile(filepath.Join(*goroot, "src", p.file))
			must(err)
			b = string(raw)
		}
		if strings.Count(b, p.old) != 1 {
			fatal(fmt.Sprintf("runtime patch anchor not unique in %s: %q", p.file, p.old))
		}
		bodies[p.file] = strings.Replace(b, p.old, p.new, 1)
	}
	bodies["runtime/zz_sim.go"] = `package runtime

import _ "unsafe"

var simRandState [2]uint64
// simRandOn is true from program start on: map seeds of package-level maps
// are fixed as well.
var simRandOn = true

// simRand is a splitmix64 stream: one for the goroutines of the simulation
// bubble, reseeded for every run, one for everything else.
//
//go:nosplit
func simRand() uint64 {
	i := 0
	if gp := getg(); gp != nil && gp.m != nil && gp.m.curg != nil && gp.m.curg.bubble != nil {
		i = 1
	}
	simRandState[i] += 0x9e3779b97f4a7c15
	z := simRandState[i]
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:nosplit
func simrandn(n uint32) uint32 { return uint32((uint64(uint32(simRand()>>32)) * uint64(n)) >> 32) }

//go:nosplit
func SimSeed(s uint64) { simRandState[1] = s }

//go:nosplit
func SimRandState() uint64 { return simRandState[1] }

//go:nosplit
func SimID() uint64 { return getg().simid }

//go:nosplit
func SimSetID(v uint64) { getg().simid = v }

//go:nosplit
func SimSetChild(v uint64) { getg().simchild = v }

//go:nosplit
func SimInBubble() bool { return getg().bubble != nil }
`
	for f, b := range bodies {
		dst := filepath.Join(*out, "goroot", f)
		must(os.MkdirAll(filepath.Dir(dst), 0o755))
		must(os.WriteFile(dst, []byte(b), 0o644))
		replace[filepath.Join(*goroot, "src", f)] = dst
	}
}

// hookSources adds hooks to what the built-in instrumentation reads: the Go
// runtime's metrics, getrusage and gopsutil. Without a hook set they read the
// real system.
func hookSources() {
	src := filepath.Join(*goroot, "src")
	hook(filepath.Join(src, "runtime/metrics/sample.go"), "func Read(m []Sample) {\n", "\tif SimRead != nil {\n\t\tSimRead(m)\n\t\treturn\n\t}\n")
	hook(filepath.Join(src, "runtime/metrics/description.go"), "func All() []Description {\n", "\tif SimAll != nil {\n\t\treturn SimAll()\n\t}\n")
	addSource(filepath.Join(src, "runtime/metrics/zz_sim.go"), `package metrics

var SimRead func([]Sample)
var SimAll func() []Description

func SimValue(k ValueKind, bits uint64) Value { return Value{kind: k, scalar: bits} }
`)
	hook(filepath.Join(src, "syscall/zsyscall_linux_amd64.go"), "func Getrusage(who int, rusage *Rusage) (err error) {\n", "\tif SimGetrusage != nil {\n\t\treturn SimGetrusage(who, rusage)\n\t}\n")
	addSource(filepath.Join(src, "syscall/zz_sim.go"), "package syscall\n\nvar SimGetrusage func(who int, rusage *Rusage) error\n")

}

const gopsutil = "github.com/shirou/gopsutil/v3"

// hookGopsutil adds the hooks to a copy of the module.
func hookGopsutil(mod string) string {
	if !strings.Contains(mod, gopsutil+" ") {
		return ""
	}
	_, ver := findVersion(mod, gopsutil)
	dir := filepath.Join(*out, "deps", "gopsutil")
	copyTree(filepath.Join(*modc, gopsutil+"@"+ver), dir)
	for _, h := range [][5]string{
		{"cpu", "TimesWithContext", "ctx context.Context, percpu bool", "[]TimesStat", "ctx, percpu"},
		{"mem", "VirtualMemoryWithContext", "ctx context.Context", "*VirtualMemoryStat", "ctx"},
		{"net", "IOCountersWithContext", "ctx context.Context, pernic bool", "[]IOCountersStat", "ctx, pernic"},
	} {
		f := filepath.Join(dir, h[0], h[0]+"_linux.go")
		must(os.WriteFile(f, []byte(hooked(f, "func "+h[1]+"("+h[2]+") ("+h[3]+", error) {\n", "\tif SimHook != nil {\n\t\treturn SimHook("+h[4]+")\n\t}\n")), 0o644))
		must(os.WriteFile(filepath.Join(dir, h[0], "zz_sim.go"), []byte("package "+h[0]+"\n\nimport \"context\"\n\nvar SimHook func("+h[2]+") ("+h[3]+", error)\n"), 0o644))
	}
	return fmt.Sprintf("\nreplace %s => %s\n", gopsutil, dir)
}

// hook inserts code after the only occurrence of an anchor.
func hook(file, anchor, code string) { addSource(file, hooked(file, anchor, code)) }

func hooked(file, anchor, code string) string {
	raw, err := os.ReadFile(file)
	must(err)
	if strings.Count(string(raw), anchor) != 1 {
		fatal(fmt.Sprintf("hook anchor not unique in %s: %q", file, anchor))
	}
	return strings.Replace(string(raw), anchor, anchor+code, 1)
}

func addSource(file, body string) {
	dst := filepath.Join(*out, "src", strings.ReplaceAll(strings.TrimPrefix(file, "/"), "/", "_"))
	must(os.MkdirAll(filepath.Dir(dst), 0o755))
	must(os.WriteFile(dst, []byte(body), 0o644))
	replace[file] = dst
}

func instrumentDir(dir, rel, outDir string, reg func(src, dst string)) {
	ents, err := os.ReadDir(dir)
	must(err)
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		src := filepath.Join(dir, n)
		raw, err := os.ReadFile(src)
		must(err)
		res, changed := instrument(filepath.Join(rel, n), raw)
		if !changed {
			continue
		}
		must(os.MkdirAll(outDir, 0o755))
		dst := filepath.Join(outDir, n)
		must(os.WriteFile(dst, res, 0o644))
		if reg != nil {
			reg(src, dst)
		}
	}
}

type edit struct {
	pos, end int
	text     string
	seq      int
}

type rewriter struct {
	fset  *token.FileSet
	file  *ast.File
	src   []byte
	name  string
	base  int
	edits []edit
	pkgs  map[string]bool // imported package identifiers
	used  bool
	tmp   int
}

func (r *rewriter) off(p token.Pos) int { return r.fset.Position(p).Offset }
func (r *rewriter) ins(p token.Pos, s string) {
	r.used = true
	r.edits = append(r.edits, edit{r.off(p), r.off(p), s, len(r.edits)})
}
func (r *rewriter) repl(p, e token.Pos, s string) {
	r.used = true
	r.edits = append(r.edits, edit{r.off(p), r.off(e), s, len(r.edits)})
}
func (r *rewriter) text(n ast.Node) string { return string(r.src[r.off(n.Pos()):r.off(n.End())]) }

func (r *rewriter) y(n ast.Node) string {
	sites = append(sites, site{r.name, r.fset.Position(n.Pos()).Line})
	return "__simrt.Y(" + strconv.Itoa(len(sites)-1) + "); "
}

func instrument(name string, src []byte) ([]byte, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		fatal("parse " + name + ": " + err.Error())
	}
	if f.Name.Name == "main" {
		return nil, false
	}
	r := &rewriter{fset: fset, file: f, src: src, name: name, pkgs: map[string]bool{}}
	keep := map[string]string{}
	importNames := map[string]string{} // local name -> path
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		local := filepath.Base(p)
		if im.Name != nil {
			local = im.Name.Name
		}
		r.pkgs[local] = true
		importNames[local] = p
		var np string
		switch p {
		case "C":
			return nil, false
		case "sync":
			np = "simsync"
		case "sync/atomic":
			np = "simatomic"
		}
		if np != "" {
			nm := ""
			if im.Name == nil {
				nm = local + " "
			}
			r.repl(im.Path.Pos(), im.Path.End(), nm+strconv.Quote(modPath+"/"+simBase+"/"+np))
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if ok {
			if fd.Body != nil {
				r.block(fd.Body.List)
				r.exprs(fd.Body, importNames, keep)
			}
			continue
		}
		if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.VAR {
			ast.Inspect(gd, func(n ast.Node) bool {
				if fl, ok := n.(*ast.FuncLit); ok {
					r.block(fl.Body.List)
					r.exprs(fl.Body, importNames, keep)
					return false
				}
				return true
			})
		}
	}
	if !r.used {
		return nil, false
	}
	r.ins(f.Name.End(), "; import __simrt "+strconv.Quote(modPath+"/"+simBase+"/simrt")+"; ")
	sort.SliceStable(r.edits, func(i, j int) bool {
		if r.edits[i].pos != r.edits[j].pos {
			return r.edits[i].pos < r.edits[j].pos
		}
		return r.edits[i].seq < r.edits[j].seq
	})
	var b strings.Builder
	last := 0
	for _, e := range r.edits {
		if e.pos < last {
			fatal(fmt.Sprintf("%s: overlapping edits at %d (%q)", name, e.pos, e.text))
		}
		b.Write(src[last:e.pos])
		b.WriteString(e.text)
		last = e.end
	}
	b.Write(src[last:])
	b.WriteString("\nvar _ = __simrt.Y\n")
	for _, v := range keep {
		b.WriteString("var _ = " + v + "\n")
	}
	return []byte(b.String()), true
}

// block inserts yields before every statement of a list.  Nested lists are
// found through ast.Inspect.
func (r *rewriter) block(list []ast.Stmt) {
	for _, s := range list {
		r.stmt(s)
	}
}

func (r *rewriter) stmt(s ast.Stmt) {
	switch t := s.(type) {
	case *ast.EmptyStmt:
		return
	case *ast.CaseClause:
		for _, e := range t.List {
			r.nestedSelf(e)
		}
		r.block(t.Body)
		return
	case *ast.CommClause:
		if t.Comm != nil {
			r.nested(t.Comm)
		}
		if len(t.Body) == 0 {
			r.ins(t.Colon+1, " "+r.y(t))
		}
		r.block(t.Body)
		return
	}
	inner := s
	for {
		if l, ok := inner.(*ast.LabeledStmt); ok {
			inner = l.Stmt
			continue
		}
		break
	}
	switch t := inner.(type) {
	case *ast.DeclStmt:
		// var/const/type declarations: no yield (initialisers are usually local).
		r.nested(t)
		return
	case *ast.BranchStmt:
		return
	}
	if *lvl >= 2 && inner == s && r.split(s) {
		return
	}
	if *lvl >= 1 {
		r.ins(s.Pos(), r.y(s))
	}
	if g, ok := inner.(*ast.GoStmt); ok {
		r.ins(g.Pos(), "__simrt.PreGo(); ")
	}
	if c, ok := inner.(*ast.SendStmt); ok {
		r.nested(c)
		r.ins(c.End(), "; "+r.y(c))
		return
	}
	r.nested(inner)
}

// nested visits statement lists below n.
func (r *rewriter) nested(n ast.Node) {
	if b, ok := n.(*ast.BlockStmt); ok {
		r.block(b.List)
		return
	}
	ast.Inspect(n, func(c ast.Node) bool {
		if c == n {
			return true
		}
		switch t := c.(type) {
		case *ast.BlockStmt:
			r.block(t.List)
			return false
		}
		return true
	})
}

func wrapExpr(e ast.Expr) ast.Node { return &ast.ParenExpr{X: e, Lparen: e.Pos(), Rparen: e.End()} }

func hasCallOrFunc(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(c ast.Node) bool {
		switch t := c.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			found = true
		case *ast.UnaryExpr:
			if t.Op == token.ARROW {
				found = true
			}
		}
		return !found
	})
	return found
}

// shared reports whether e may denote memory visible to other goroutines.
func (r *rewriter) shared(e ast.Expr) bool {
	switch t := e.(type) {
	case *ast.ParenExpr:
		return r.shared(t.X)
	case *ast.SelectorExpr:
		return !hasCallOrFunc(e)
	case *ast.StarExpr:
		return !hasCallOrFunc(e)
	case *ast.IndexExpr:
		return !hasCallOrFunc(e)
	case *ast.Ident:
		if t.Name == "_" {
			return false
		}
		if t.Obj == nil {
			return true // another file of the package
		}
		if t.Obj.Kind != ast.Var {
			return false
		}
		if vs, ok := t.Obj.Decl.(*ast.ValueSpec); ok {
			for _, d := range r.file.Decls {
				if gd, ok := d.(*ast.GenDecl); ok {
					for _, sp := range gd.Specs {
						if sp == ast.Spec(vs) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return false
}

// typedRHS reports whether e certainly has a typed, non-constant value.
func (r *rewriter) typedRHS(e ast.Expr) bool {
	switch t := e.(type) {
	case *ast.ParenExpr:
		return r.typedRHS(t.X)
	case *ast.SelectorExpr:
		if id, ok := t.X.(*ast.Ident); ok && id.Obj == nil && r.pkgs[id.Name] {
			return false
		}
		return true
	case *ast.StarExpr, *ast.IndexExpr, *ast.SliceExpr:
		return true
	case *ast.CompositeLit:
		return true
	case *ast.CallExpr:
		if id, ok := t.Fun.(*ast.Ident); ok {
			switch id.Name {
			case "len", "cap", "real", "imag", "complex", "min", "max":
				return false
			}
		}
		return true
	}
	return false
}

// split rewrites read-modify-write statements on shared memory so that another
// goroutine can run between the read and the write.
func (r *rewriter) split(s ast.Stmt) bool {
	switch t := s.(type) {
	case *ast.IncDecStmt:
		if !r.shared(t.X) {
			return false
		}
		op := "+"
		if t.Tok == token.DEC {
			op = "-"
		}
		x := r.text(t.X)
		r.repl(t.Pos(), t.End(), r.y(t)+"{ __simt := "+x+"; "+r.y(t)+x+" = __simt "+op+" 1 }")
		return true
	case *ast.AssignStmt:
		if len(t.Lhs) == 1 && len(t.Rhs) == 1 {
			if !r.shared(t.Lhs[0]) {
				return false
			}
			if t.Tok != token.ASSIGN && t.Tok != token.DEFINE {
				x := r.text(t.Lhs[0])
				op := strings.TrimSuffix(t.Tok.String(), "=")
				r.ins(t.Pos(), r.y(t)+"{ __simt := "+x+"; "+r.y(t))
				r.repl(t.TokPos, t.TokPos+token.Pos(len(t.Tok.String())), "= __simt "+op+" (")
				r.nestedSelf(t.Rhs[0])
				r.ins(t.End(), ") }")
				return true
			}
			if t.Tok != token.ASSIGN {
				return false
			}
			lhs := r.text(t.Lhs[0])
			rhs := t.Rhs[0]
			selfBin := false
			if be, ok := rhs.(*ast.BinaryExpr); ok {
				switch be.Op {
				case token.ADD, token.SUB, token.MUL, token.QUO, token.OR, token.AND, token.XOR:
					selfBin = r.text(be.X) == lhs || r.text(be.Y) == lhs
				}
			}
			if !selfBin && !r.typedRHS(rhs) {
				return false
			}
			r.repl(t.Pos(), rhs.Pos(), r.y(t)+"{ __simt := ")
			r.nestedSelf(rhs)
			r.ins(t.End(), "; "+r.y(t)+lhs+" = __simt }")
			return true
		}
		if len(t.Lhs) == 2 && len(t.Rhs) == 2 && t.Tok == token.ASSIGN {
			for i := range t.Lhs {
				if !r.shared(t.Lhs[i]) || !r.typedRHS(t.Rhs[i]) || hasCallOrFunc(t.Rhs[i]) {
					return false
				}
			}
			r.repl(t.Pos(), t.End(), r.y(t)+"{ __simt, __simu := "+r.text(t.Rhs[0])+", "+r.text(t.Rhs[1])+"; "+r.y(t)+r.text(t.Lhs[0])+", "+r.text(t.Lhs[1])+" = __simt, __simu }")
			return true
		}
	}
	return false
}

func (r *rewriter) nestedSelf(e ast.Expr) { r.nested(wrapExpr(e)) }

// exprs rewrites receive expressions and runtime/time calls.
func (r *rewriter) exprs(n ast.Node, imports map[string]string, keep map[string]string) {
	inComm := map[ast.Node]bool{}
	two := map[ast.Node]bool{}
	covered := func(p token.Pos) bool { // inside a wholesale replacement?
		o := r.off(p)
		for _, e := range r.edits {
			if e.end > e.pos && o >= e.pos && o < e.end {
				return true
			}
		}
		return false
	}
	ast.Inspect(n, func(c ast.Node) bool {
		switch t := c.(type) {
		case *ast.CommClause:
			if t.Comm != nil {
				switch s := t.Comm.(type) {
				case *ast.ExprStmt:
					inComm[s.X] = true
				case *ast.AssignStmt:
					inComm[s.Rhs[0]] = true
				}
			}
		case *ast.AssignStmt:
			if len(t.Lhs) == 2 && len(t.Rhs) == 1 {
				two[t.Rhs[0]] = true
			}
		case *ast.ValueSpec:
			if len(t.Names) == 2 && len(t.Values) == 1 {
				two[t.Values[0]] = true
			}
		case *ast.UnaryExpr:
			if t.Op == token.ARROW && !inComm[t] && !covered(t.Pos()) {
				fn := "__simrt.Recv("
				if two[t] {
					fn = "__simrt.Recv2("
				}
				r.repl(t.OpPos, t.OpPos+2, fn)
				r.ins(t.End(), ")")
			}
		case *ast.SelectorExpr:
			id, ok := t.X.(*ast.Ident)
			if !ok || id.Obj != nil || covered(t.Pos()) {
				return true
			}
			full := imports[id.Name] + "." + t.Sel.Name
			switch full {
			case "runtime.Gosched":
				keep[full] = id.Name + "." + t.Sel.Name
				r.repl(t.Pos(), t.End(), "__simrt.Gosched")
			case "time.Sleep":
				keep[full] = id.Name + "." + t.Sel.Name
				r.repl(t.Pos(), t.End(), "__simrt.Sleep")
			}
		}
		return true
	})
}

func must(err error) {
	if err != nil {
		fatal(err.Error())
	}
}

func fatal(s string) {
	fmt.Fprintln(os.Stderr, "simgen: "+s)
	os.Exit(2)
}
