// Command instrument rewrites the working tree of the system under test so
// that every source of nondeterminism it uses goes through the simulator:
// goroutines, channels, select, hash-map iteration, locks, files, working
// directory, clock, randomness.  Nothing is written to the repository: the
// rewritten files are stored in an output directory and given to the go
// command as an overlay (go build -overlay).
//
// Rewriting is a set of in-place textual edits driven by the type-checked AST,
// and never adds or removes a line, so positions in stack traces stay those of
// the original sources.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const modPath = "github.com/bytesparadise/libasciidoc"
const simBase = modPath + "/verifsim"

type listPkg struct {
	Dir        string
	ImportPath string
	Name       string
	Export     string
	GoFiles    []string
	Standard   bool
	DepOnly    bool
	Module     *struct{ Path string }
	Error      *struct{ Err string }
}

// packages whose import is redirected to a simulated version
var subst = map[string]string{
	"os":            "simos",
	"time":          "simtime",
	"sync":          "simsync",
	"path/filepath": "simfilepath",
	"io/ioutil":     "simioutil",
	"math/rand":     "simrand",
	"runtime":       "simruntime",
	"fmt":           "simfmt",
	"io":            "simio",
	"context":       "simcontext",
}

func die(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "instrument: "+format+"\n", args...)
	os.Exit(2)
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	out := flag.String("out", "", "output directory")
	simsrc := flag.String("sim", "/verif/sim", "simulator sources (mounted as verifsim/)")
	flag.Parse()
	if *out == "" {
		die("-out is required")
	}
	must(os.MkdirAll(*out, 0o755))

	// Go language of the overlaid files is 1.21 (generics) whatever go.mod says
	cmd := exec.Command("go", "list", "-e", "-export", "-deps", "-json=Dir,ImportPath,Name,Export,GoFiles,Standard,DepOnly,Module,Error", ".", "./cmd/libasciidoc", "os", "time", "sync", "path/filepath", "io/ioutil", "math/rand", "runtime", "fmt", "io", "context")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	exports := map[string]string{}
	var pkgs []*listPkg
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		if p.Error != nil {
			die("package %s: %s", p.ImportPath, p.Error.Err)
		}
		exports[p.ImportPath] = p.Export
		if !p.Standard && p.Module != nil && p.Module.Path == modPath {
			pp := p
			pkgs = append(pkgs, &pp)
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e, ok := exports[path]
		if !ok || e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})

	overlay := map[string]string{}
	stats := map[string]int{}
	for _, p := range pkgs {
		files := make([]*ast.File, 0, len(p.GoFiles))
		srcs := make([][]byte, 0, len(p.GoFiles))
		for _, name := range p.GoFiles {
			path := filepath.Join(p.Dir, name)
			src, err := os.ReadFile(path)
			must(err)
			f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
			if err != nil {
				die("%v", err)
			}
			files = append(files, f)
			srcs = append(srcs, src)
		}
		info := &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{},
			Uses:  map[*ast.Ident]types.Object{},
			Defs:  map[*ast.Ident]types.Object{},
		}
		conf := types.Config{Importer: imp, FakeImportC: true}
		if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
			die("type check %s: %v", p.ImportPath, err)
		}
		isMain := p.Name == "main"
		for i, f := range files {
			r := &rewriter{fset: fset, file: f, src: srcs[i], info: info, stats: stats, base: fset.File(f.Pos()).Base(), isMain: isMain, fine: len(srcs[i]) < 500000}
			text := r.rewriteFile()
			rel, err := filepath.Rel(*repo, filepath.Join(p.Dir, p.GoFiles[i]))
			must(err)
			target := filepath.Join(*repo, rel)
			if isMain {
				// a copy of the command, as an importable package
				target = filepath.Join(*repo, "verifsim", "cli", p.GoFiles[i])
				rel = filepath.Join("verifsim", "cli", p.GoFiles[i])
			}
			dst := filepath.Join(*out, "src", rel)
			must(os.MkdirAll(filepath.Dir(dst), 0o755))
			must(os.WriteFile(dst, []byte(text), 0o644))
			overlay[target] = dst
		}
	}
	// the simulator itself
	err = filepath.Walk(*simsrc, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(path, ".go") {
			return nil
		}
		rel, err := filepath.Rel(*simsrc, path)
		if err != nil {
			return err
		}
		overlay[filepath.Join(*repo, "verifsim", rel)] = path
		return nil
	})
	must(err)
	// pass-through declarations for the simulated packages
	for real, sim := range subst {
		pkg, err := imp.Import(real)
		if err != nil {
			die("import %s: %v", real, err)
		}
		have := declared(filepath.Join(*simsrc, sim))
		text := passthrough(pkg, real, sim, have)
		dst := filepath.Join(*out, "src", "verifsim", sim, "zz_passthrough.go")
		must(os.MkdirAll(filepath.Dir(dst), 0o755))
		must(os.WriteFile(dst, []byte(text), 0o644))
		overlay[filepath.Join(*repo, "verifsim", sim, "zz_passthrough.go")] = dst
	}
	ob, err := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	must(err)
	must(os.WriteFile(filepath.Join(*out, "overlay.json"), ob, 0o644))
	sb, _ := json.Marshal(stats)
	must(os.WriteFile(filepath.Join(*out, "stats.json"), sb, 0o644))
}

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

// declared returns the package-level names declared by the hand-written part of a simulated package
func declared(dir string) map[string]bool {
	res := map[string]bool{}
	fset := token.NewFileSet()
	entries, err := os.ReadDir(dir)
	if err != nil {
		return res
	}
	for _, e := range entries {
		if !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		f, err := parser.ParseFile(fset, filepath.Join(dir, e.Name()), nil, 0)
		must(err)
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					res[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						res[s.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range s.Names {
							res[n.Name] = true
						}
					}
				}
			}
		}
	}
	return res
}

// functions of package os that neither touch the outside world nor depend on it in a way that matters here
var osPure = map[string]bool{
	"IsExist": true, "IsNotExist": true, "IsPermission": true, "IsTimeout": true, "IsPathSeparator": true,
	"NewSyscallError": true, "Getpid": true, "Getppid": true, "Getuid": true, "Getgid": true, "Geteuid": true, "Getegid": true,
	"Getpagesize": true, "Expand": true, "SameFile": true, "Hostname": true,
}

func passthrough(pkg *types.Package, real, sim string, have map[string]bool) string {
	var b strings.Builder
	names := pkg.Scope().Names()
	used, unsup := false, false
	for _, n := range names {
		o := pkg.Scope().Lookup(n)
		if !o.Exported() || have[n] {
			continue
		}
		switch o := o.(type) {
		case *types.Const:
			fmt.Fprintf(&b, "const %s = real.%s\n", n, n)
			used = true
		case *types.TypeName:
			if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "type %s = real.%s\n", n, n)
			used = true
		case *types.Var:
			fmt.Fprintf(&b, "var %s = real.%s\n", n, n)
			used = true
		case *types.Func:
			sig := o.Type().(*types.Signature)
			if sig.TypeParams().Len() > 0 {
				continue
			}
			if real == "os" && !osPure[n] {
				// not simulated: a call would reach the real system, refuse it loudly
				fmt.Fprintf(&b, "func %s%s { sim.Unsupported(\"os.%s\"); return }\n", n, stubSig(sig), n)
				unsup = true
				continue
			}
			fmt.Fprintf(&b, "var %s = real.%s\n", n, n)
			used = true
		}
	}
	head := fmt.Sprintf("//go:build go1.21\n\npackage %s\n\n", sim)
	if used {
		head += fmt.Sprintf("import real %q\n", real)
	}
	if unsup {
		head += fmt.Sprintf("import sim %q\n", simBase+"/sim")
		for _, p := range []string{"io/fs", "time", "syscall"} {
			base := p[strings.LastIndex(p, "/")+1:]
			if strings.Contains(b.String(), base+".") {
				head += fmt.Sprintf("import %q\n", p)
			}
		}
	}
	return head + b.String()
}

func stubSig(sig *types.Signature) string {
	q := func(p *types.Package) string {
		if p.Path() == "os" {
			return ""
		}
		return p.Name()
	}
	var ps, rs []string
	for i := 0; i < sig.Params().Len(); i++ {
		t := types.TypeString(sig.Params().At(i).Type(), q)
		if sig.Variadic() && i == sig.Params().Len()-1 {
			t = "..." + strings.TrimPrefix(t, "[]")
		}
		ps = append(ps, fmt.Sprintf("a%d %s", i, t))
	}
	for i := 0; i < sig.Results().Len(); i++ {
		rs = append(rs, fmt.Sprintf("r%d %s", i, types.TypeString(sig.Results().At(i).Type(), q)))
	}
	return fmt.Sprintf("(%s) (%s)", strings.Join(ps, ", "), strings.Join(rs, ", "))
}

type edit struct {
	pos, end int
	gen      func() string
	order    int
	open     int // closing insertion: offset of the construct it closes, otherwise -1
}

type rewriter struct {
	fset   *token.FileSet
	file   *ast.File
	src    []byte
	base   int
	info   *types.Info
	edits  []edit
	stats  map[string]int
	isMain bool
	needOs bool
	fine   bool // a yield point before every statement
	seq    int
	labels map[*ast.SelectStmt]*ast.LabeledStmt
}

func (r *rewriter) off(p token.Pos) int { return int(p) - r.base }

func (r *rewriter) add(pos, end token.Pos, gen func() string) {
	r.seq++
	r.edits = append(r.edits, edit{r.off(pos), r.off(end), gen, r.seq, -1})
}

// closing inserts text at pos, which ends the construct that starts at open
func (r *rewriter) closing(open, pos token.Pos, text string) {
	r.seq++
	r.edits = append(r.edits, edit{r.off(pos), r.off(pos), func() string { return text }, r.seq, r.off(open)})
}
func (r *rewriter) insert(pos token.Pos, text string) {
	r.add(pos, pos, func() string { return text })
}

// text renders the source range with all edits strictly inside it applied
func (r *rewriter) text(from, to token.Pos) string { return r.render(r.off(from), r.off(to), nil) }

func (r *rewriter) render(from, to int, skip *edit) string {
	// edits are sorted by (pos, -len): outermost first
	var b strings.Builder
	cur := from
	i := sort.Search(len(r.edits), func(i int) bool { return r.edits[i].pos >= from })
	for ; i < len(r.edits); i++ {
		e := &r.edits[i]
		if e.pos > to || (e.pos == to && e.end > e.pos) {
			break
		}
		if e.pos < cur || e.end > to {
			continue // nested in an edit already rendered, or not inside
		}
		if skip != nil && e == skip {
			continue
		}
		if e.end == e.pos {
			if e.open >= 0 && e.open < from {
				continue // closes something that starts before the range
			}
			if e.pos == to && to != from && e.open < 0 {
				continue // opens something that starts after the range
			}
		}
		b.Write(r.src[cur:e.pos])
		b.WriteString(e.gen())
		cur = e.end
	}
	b.Write(r.src[cur:to])
	return b.String()
}

func (r *rewriter) tmp(prefix string) string {
	r.seq++
	return prefix + strconv.Itoa(r.seq) + "__"
}

func (r *rewriter) rewriteFile() string {
	f := r.file
	// header
	nl := "//go:build go1.21\n\n"
	for _, imp := range f.Imports {
		path, _ := strconv.Unquote(imp.Path.Value)
		if s, ok := subst[path]; ok {
			newPath := strconv.Quote(simBase + "/" + s)
			if imp.Name == nil {
				name := path[strings.LastIndex(path, "/")+1:]
				newPath = name + " " + newPath
			}
			r.add(imp.Path.Pos(), imp.Path.End(), func() string { return newPath })
			r.stats["import:"+path]++
		}
	}
	if r.isMain {
		r.add(f.Name.Pos(), f.Name.End(), func() string { return "cli; import sim__ \"" + simBase + "/sim\"" })
	} else {
		r.insert(f.Name.End(), "; import sim__ \""+simBase+"/sim\"")
	}
	r.walk()
	if r.needOs {
		r.insert(f.Name.End(), "; import simos__ \""+simBase+"/simos\"")
	}
	sort.SliceStable(r.edits, func(i, j int) bool {
		a, b := r.edits[i], r.edits[j]
		if a.pos != b.pos {
			return a.pos < b.pos
		}
		// what ends here comes before what starts here, the innermost first
		if (a.open >= 0) != (b.open >= 0) {
			return a.open >= 0
		}
		if a.open >= 0 && a.open != b.open {
			return a.open > b.open
		}
		la, lb := a.end-a.pos, b.end-b.pos
		// insertions at the same position come first, then the outermost edit
		if (la == 0) != (lb == 0) {
			return la == 0
		}
		if la != lb {
			return la > lb
		}
		return a.order < b.order
	})
	return nl + "//line " + r.fset.File(f.Pos()).Name() + ":1\n" + r.render(0, len(r.src), nil) + "\nvar _ = sim__.Y\n"
}

func (r *rewriter) typeOf(e ast.Expr) types.Type {
	if t, ok := r.info.Types[e]; ok {
		return t.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	return nil
}

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func (r *rewriter) isBuiltin(e ast.Expr, name string) bool {
	id, ok := e.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = r.info.Uses[id].(*types.Builtin)
	return ok
}

// where a command writes when nothing else was set
var stdWriters = map[string]string{"OutOrStdout": "StdoutOf", "OutOrStderr": "StderrOf", "ErrOrStderr": "StderrOf"}

// usesPackageVar: the statement itself (not its nested blocks or function
// literals) reads or writes a package-level variable of the module
func (r *rewriter) usesPackageVar(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(n ast.Node) bool {
		if found {
			return false
		}
		switch n := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit, *ast.CaseClause, *ast.CommClause:
			return false
		case *ast.Ident:
			if v, ok := r.info.Uses[n].(*types.Var); ok && !v.IsField() && v.Pkg() != nil &&
				strings.HasPrefix(v.Pkg().Path(), modPath) && v.Parent() == v.Pkg().Scope() {
				found = true
			}
		}
		return !found
	})
	return found
}

func (r *rewriter) stmtList(list []ast.Stmt) {
	for _, s := range list {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.LabeledStmt, *ast.CaseClause, *ast.CommClause:
			continue
		}
		if r.usesPackageVar(s) {
			r.insert(s.Pos(), "sim__.YV(); ")
			r.stats["yield:pkgvar"]++
		} else if r.fine {
			r.insert(s.Pos(), "sim__.Y(); ")
			r.stats["yield:stmt"]++
		}
	}
}

func (r *rewriter) body(b *ast.BlockStmt, kind string) {
	if b == nil {
		return
	}
	r.insert(b.Lbrace+1, " sim__.Y(); ")
	r.stats["yield:"+kind]++
}

func (r *rewriter) walk() {
	inSelect := map[ast.Node]bool{}
	ast.Inspect(r.file, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			if n.Body != nil {
				r.body(n.Body, "func")
			}
		case *ast.FuncLit:
			r.body(n.Body, "func")
		case *ast.BlockStmt:
			r.stmtList(n.List)
		case *ast.CaseClause:
			r.stmtList(n.Body)
		case *ast.CommClause:
			r.stmtList(n.Body)
		case *ast.ForStmt:
			r.body(n.Body, "loop")
		case *ast.RangeStmt:
			t := r.typeOf(n.X)
			switch {
			case isChan(t):
				r.rangeChan(n)
			case isMap(t):
				r.rangeMap(n)
			default:
				r.body(n.Body, "loop")
			}
		case *ast.GoStmt:
			r.goStmt(n)
		case *ast.SendStmt:
			if !inSelect[n] {
				r.stats["chan:send"]++
				r.insert(n.Pos(), "sim__.ChanS(")
				r.add(n.Chan.End(), n.Value.Pos(), func() string { return ").Send(" })
				r.closing(n.Pos(), n.End(), ")")
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW && !inSelect[n] {
				r.stats["chan:recv"]++
				r.add(n.OpPos, n.OpPos+2, func() string { return "sim__.Recv(" })
				r.closing(n.Pos(), n.End(), ")")
			}
		case *ast.AssignStmt:
			// v, ok := <-ch
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				if u := unparenRecv(n.Rhs[0]); u != nil && !inSelect[u] {
					inSelect[u] = true
					r.stats["chan:recv"]++
					r.add(u.OpPos, u.OpPos+2, func() string { return "sim__.Recv2(" })
					r.closing(u.Pos(), u.End(), ")")
				}
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				if u := unparenRecv(n.Values[0]); u != nil && !inSelect[u] {
					inSelect[u] = true
					r.add(u.OpPos, u.OpPos+2, func() string { return "sim__.Recv2(" })
					r.closing(u.Pos(), u.End(), ")")
				}
			}
		case *ast.LabeledStmt:
			if s, ok := n.Stmt.(*ast.SelectStmt); ok {
				if r.labels == nil {
					r.labels = map[*ast.SelectStmt]*ast.LabeledStmt{}
				}
				r.labels[s] = n
			}
		case *ast.SelectStmt:
			r.selectStmt(n, inSelect)
		case *ast.CallExpr:
			if r.isBuiltin(n.Fun, "close") && len(n.Args) == 1 {
				r.stats["chan:close"]++
				r.add(n.Fun.Pos(), n.Fun.End(), func() string { return "sim__.Close" })
			}
			if sel, ok := n.Fun.(*ast.SelectorExpr); ok && len(n.Args) == 0 {
				if out := stdWriters[sel.Sel.Name]; out != "" && strings.HasSuffix(fmt.Sprint(r.typeOf(sel.X)), "spf13/cobra.Command") {
					n, sel := n, sel
					r.stats["cobra:std"]++
					r.needOs = true
					r.add(n.Pos(), n.End(), func() string { return "simos__." + out + "(" + r.text(sel.X.Pos(), sel.X.End()) + ")" })
				}
			}
			if (r.isBuiltin(n.Fun, "len")) && len(n.Args) == 1 && isChan(r.typeOf(n.Args[0])) {
				r.add(n.Fun.Pos(), n.Fun.End(), func() string { return "sim__.Len" })
			}
		}
		return true
	})
}

func unparenRecv(e ast.Expr) *ast.UnaryExpr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

// hasCall tells if evaluating an expression may have side effects
func hasCall(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr:
			found = true
		case *ast.UnaryExpr:
			found = found || n.Op == token.ARROW
		}
		return !found
	})
	return found
}

func blank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

// newlines keeps the number of lines of a replaced range
func (r *rewriter) newlines(from, to token.Pos) string {
	return strings.Repeat("\n", bytes.Count(r.src[r.off(from):r.off(to)], []byte("\n")))
}

func (r *rewriter) rangeMap(n *ast.RangeStmt) {
	r.stats["map:range"]++
	it := r.tmp("it")
	head := func() string {
		x := r.text(n.X.Pos(), n.X.End())
		k, v := "", ""
		if !blank(n.Key) {
			k = r.text(n.Key.Pos(), n.Key.End())
		}
		if !blank(n.Value) {
			v = r.text(n.Value.Pos(), n.Value.End())
		}
		if n.Tok == token.DEFINE {
			switch {
			case k != "" && v != "":
				return fmt.Sprintf("for %s, %s, %s := sim__.MapKV(%s); %s.Next(&%s, &%s); {", it, k, v, x, it, k, v)
			case k != "":
				return fmt.Sprintf("for %s, %s := sim__.MapK(%s); %s.Next(&%s, nil); {", it, k, x, it, k)
			case v != "":
				return fmt.Sprintf("for %s, %s := sim__.MapV(%s); %s.Next(nil, &%s); {", it, v, x, it, v)
			}
			return fmt.Sprintf("for %s := sim__.Map0(%s); %s.Next(nil, nil); {", it, x, it)
		}
		ka, va := "nil", "nil"
		if k != "" {
			ka = "&" + k
		}
		if v != "" {
			va = "&" + v
		}
		return fmt.Sprintf("for %s := sim__.Map0(%s); %s.Next(%s, %s); {", it, x, it, ka, va)
	}
	r.add(n.For, n.Body.Lbrace+1, func() string { return head() + " sim__.Y(); " + r.newlines(n.For, n.Body.Lbrace) })
}

func (r *rewriter) rangeChan(n *ast.RangeStmt) {
	r.stats["chan:range"]++
	ch, ok := r.tmp("ch"), r.tmp("ok")
	r.add(n.For, n.Body.Lbrace+1, func() string {
		x := r.text(n.X.Pos(), n.X.End())
		var s string
		if blank(n.Key) {
			s = fmt.Sprintf("for %s := (%s); ; { _, %s := sim__.Recv2(%s); if !%s { break };", ch, x, ok, ch, ok)
		} else {
			k := r.text(n.Key.Pos(), n.Key.End())
			if n.Tok == token.DEFINE {
				s = fmt.Sprintf("for %s, %s := sim__.RangeInit(%s); ; { var %s bool; if %s, %s = sim__.Recv2(%s); !%s { break };", ch, k, x, ok, k, ok, ch, ok)
			} else {
				v := r.tmp("v")
				s = fmt.Sprintf("for %s := (%s); ; { %s, %s := sim__.Recv2(%s); if !%s { break }; %s = %s;", ch, x, v, ok, ch, ok, k, v)
			}
		}
		return s + r.newlines(n.For, n.Body.Lbrace)
	})
}

func (r *rewriter) goStmt(n *ast.GoStmt) {
	r.stats["go"]++
	c := n.Call
	if lit, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 && (lit.Type.Results == nil || len(lit.Type.Results.List) == 0) {
		r.add(n.Go, lit.Pos(), func() string { return "sim__.Go(" })
		r.add(lit.End(), c.End(), func() string { return ")" })
		return
	}
	r.add(n.Pos(), n.End(), func() string {
		var lhs, rhs, args []string
		fn := r.tmp("f")
		lhs = append(lhs, fn)
		rhs = append(rhs, r.text(c.Fun.Pos(), c.Fun.End()))
		for i, a := range c.Args {
			tv := r.info.Types[a]
			if tv.Value != nil && tv.Value.Kind() != constant.Unknown || tv.IsNil() {
				args = append(args, r.text(a.Pos(), a.End()))
				continue
			}
			t := r.tmp("a")
			lhs = append(lhs, t)
			rhs = append(rhs, r.text(a.Pos(), a.End()))
			if c.Ellipsis.IsValid() && i == len(c.Args)-1 {
				t += "..."
			}
			args = append(args, t)
		}
		if id, ok := c.Fun.(*ast.Ident); ok {
			if _, isB := r.info.Uses[id].(*types.Builtin); isB {
				return fmt.Sprintf("sim__.Go(func() { %s })", r.text(c.Pos(), c.End()))
			}
		}
		return fmt.Sprintf("{ %s := %s; sim__.Go(func() { %s(%s) }) }", strings.Join(lhs, ", "), strings.Join(rhs, ", "), fn, strings.Join(args, ", "))
	})
}

func (r *rewriter) selectStmt(n *ast.SelectStmt, inSelect map[ast.Node]bool) {
	r.stats["chan:select"]++
	sel := r.tmp("sel")
	hasDefault := false
	type cs struct {
		cc    *ast.CommClause
		index int
	}
	var cases []cs
	idx := 0
	hoisted := map[ast.Expr]string{} // channels which must not be evaluated twice
	var order []ast.Expr
	for _, s := range n.Body.List {
		cc := s.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = true
			cases = append(cases, cs{cc, -1})
			continue
		}
		switch c := cc.Comm.(type) {
		case *ast.SendStmt:
			inSelect[c] = true
		case *ast.ExprStmt:
			if u := unparenRecv(c.X); u != nil {
				inSelect[u] = true
			}
		case *ast.AssignStmt:
			if u := unparenRecv(c.Rhs[0]); u != nil {
				inSelect[u] = true
				if hasCall(u.X) {
					hoisted[u.X] = r.tmp("ch")
					order = append(order, u.X)
				}
			}
		}
		cases = append(cases, cs{cc, idx})
		idx++
	}
	channel := func(e ast.Expr) string {
		if h := hoisted[e]; h != "" {
			return h
		}
		return r.text(e.Pos(), e.End())
	}
	pre := func() string {
		res := ""
		for _, e := range order {
			res += fmt.Sprintf("{ %s := %s; ", hoisted[e], r.text(e.Pos(), e.End()))
		}
		return res
	}
	if l := r.labels[n]; l != nil {
		if len(order) > 0 {
			r.add(l.Pos(), l.Pos(), pre)
		}
		pre = func() string { return "" }
	}
	if len(order) > 0 {
		r.closing(n.Pos(), n.End(), strings.Repeat("}", len(order)))
	}
	// head
	r.add(n.Select, n.Body.Lbrace+1, func() string {
		var args []string
		for _, c := range cases {
			if c.cc.Comm == nil {
				continue
			}
			switch s := c.cc.Comm.(type) {
			case *ast.SendStmt:
				args = append(args, fmt.Sprintf("sim__.ChanS(%s).Case(%s)", r.text(s.Chan.Pos(), s.Chan.End()), r.text(s.Value.Pos(), s.Value.End())))
			case *ast.ExprStmt:
				u := unparenRecv(s.X)
				args = append(args, fmt.Sprintf("sim__.RecvCase(%s)", r.text(u.X.Pos(), u.X.End())))
			case *ast.AssignStmt:
				u := unparenRecv(s.Rhs[0])
				args = append(args, fmt.Sprintf("sim__.RecvCase(%s)", channel(u.X)))
			}
		}
		head := pre() + fmt.Sprintf("switch %s := sim__.Select(%v, []sim__.SelCase{%s}); %s.I {", sel, hasDefault, strings.Join(args, ", "), sel)
		if len(cases) == 0 {
			head += " default: panic(\"unreachable\")"
		}
		return head + r.newlines(n.Select, n.Body.Lbrace)
	})
	for _, c := range cases {
		c := c
		if c.index < 0 {
			r.add(c.cc.Case, c.cc.Colon+1, func() string { return "default:" })
			continue
		}
		label := fmt.Sprintf("case %d:", c.index)
		if !hasDefault && c.index == idx-1 {
			label = "default:" // so that a select which is a terminating statement becomes a switch which is one
		}
		r.add(c.cc.Case, c.cc.Colon+1, func() string {
			head := label
			if s, ok := c.cc.Comm.(*ast.AssignStmt); ok {
				u := unparenRecv(s.Rhs[0])
				var lhs []string
				for _, l := range s.Lhs {
					lhs = append(lhs, r.text(l.Pos(), l.End()))
				}
				ch := channel(u.X)
				if len(lhs) == 1 {
					head = fmt.Sprintf("%s %s %s sim__.SelRecv(%s, %s);", label, lhs[0], s.Tok, sel, ch)
				} else {
					head = fmt.Sprintf("%s %s, %s %s sim__.SelRecv2(%s, %s);", label, lhs[0], lhs[1], s.Tok, sel, ch)
				}
			}
			return head + r.newlines(c.cc.Case, c.cc.Colon)
		})
	}
}
