// Package instr rewrites the sources of the library under test into a build
// overlay in which every source of nondeterminism goes through the simulator.
// It works on syntax and types only and never on names of the library, so it
// follows any change of the code.
package instr

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
)

// Site is one yield point.
type Site struct {
	Pos    string `json:"p"` // file:line, relative to the module
	Func   string `json:"f"`
	Shared bool   `json:"s,omitempty"` // touches a package variable or a field of a receiver
	Write  bool   `json:"w,omitempty"` // executed for its effect on a package variable, or right after such a statement
	Store  bool   `json:"v,omitempty"` // between the evaluation of a value and its store
}

// Report says what was instrumented.
type Report struct {
	Packages    []string       `json:"packages"`
	Uninstr     []string       `json:"uninstrumented"`
	Sites       int            `json:"sites"`
	SharedSites int            `json:"shared_sites"`
	Seams       map[string]int `json:"seams"`       // rewritten constructs
	Unsupported []string       `json:"unsupported"` // constructs left alone that can be nondeterministic
}

// Config of an instrumentation.
type Config struct {
	Repo    string   // module root
	Env     []string // environment for the go command
	ModFlag string   // -modfile=...
	Out     string   // output directory for rewritten files
	RTPath  string   // import path of the runtime
	Sync    string   // import path of the sync replacement
	Rand    string
	First   uint32 // first site number
	Skip    map[string]bool
	Tags    string
}

type pkgInfo struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	CgoFiles   []string
	Export     string
	Standard   bool
	DepOnly    bool
	ImportMap  map[string]string
	Module     *struct {
		Path, GoVersion, Dir string
		Main                 bool
	}
	Error *struct{ Err string }
}

type edit struct {
	lo, hi int
	text   func() string
	ord    int
}

type fileRW struct {
	in      *inst
	pkg     *pkgInfo
	fset    *token.FileSet
	file    *ast.File
	src     []byte
	base    int
	edits   []edit
	info    *types.Info
	tpkg    *types.Package
	used    bool
	sites   []Site // collected, numbered later
	fn      string
	recv    map[types.Object]bool
	rel     string
	rangeFn bool // package may use range over func
	generic bool
	keep    map[string]string
	handled map[ast.Node]bool
	hasSync bool
	selN    int
	seams   map[string]int
	unsup   []string
	baseID  uint32
}

type inst struct {
	cfg Config
}

// ExtPkg is a package of another module; it is copied and the copy used.
type ExtPkg struct{ Module, ModDir, Dir, ImportPath string }

// Instrument rewrites all packages and returns the overlay replacements, the
// site table (indexed from cfg.First) and a report.
func Instrument(cfg Config) (map[string]string, []Site, *Report, []ExtPkg, error) {
	args := []string{"list", "-deps", "-export", "-json=ImportPath,Dir,Name,GoFiles,CgoFiles,Export,Standard,ImportMap,Module,Error"}
	if cfg.Tags != "" {
		args = append(args, "-tags", cfg.Tags)
	}
	args = append(args, ".")
	cmd := exec.Command("go", args...)
	cmd.Dir = cfg.Repo
	cmd.Env = cfg.Env
	var errb bytes.Buffer
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if err != nil {
		return nil, nil, nil, nil, fmt.Errorf("go list: %v\n%s", err, errb.String())
	}
	var pkgs []*pkgInfo
	byPath := map[string]*pkgInfo{}
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		p := &pkgInfo{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			return nil, nil, nil, nil, err
		}
		if p.Error != nil {
			return nil, nil, nil, nil, fmt.Errorf("%s: %s", p.ImportPath, p.Error.Err)
		}
		pkgs = append(pkgs, p)
		byPath[p.ImportPath] = p
	}

	rep := &Report{Seams: map[string]int{}}
	var todo []*pkgInfo
	var ext []ExtPkg
	for _, p := range pkgs {
		if p.Standard || p.Module == nil {
			continue
		}
		if !p.Module.Main {
			ext = append(ext, ExtPkg{p.Module.Path, p.Module.Dir, p.Dir, p.ImportPath})
		}
		if cfg.Skip[p.ImportPath] || len(p.CgoFiles) > 0 {
			rep.Uninstr = append(rep.Uninstr, p.ImportPath)
			continue
		}
		todo = append(todo, p)
		rep.Packages = append(rep.Packages, p.ImportPath)
	}

	results := make([][]*fileRW, len(todo))
	errs := make([]error, len(todo))
	sem := make(chan struct{}, runtime.NumCPU())
	var wg sync.WaitGroup
	in := &inst{cfg}
	for i, p := range todo {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			results[i], errs[i] = in.pkg(p, byPath)
		}()
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return nil, nil, nil, nil, e
		}
	}

	// Number the sites and write the files.
	overlay := map[string]string{}
	var sites []Site
	nf := 0
	for _, fs := range results {
		for _, f := range fs {
			f.baseID = cfg.First + uint32(len(sites))
			sites = append(sites, f.sites...)
			for k, v := range f.seams {
				rep.Seams[k] += v
			}
			rep.Unsupported = append(rep.Unsupported, f.unsup...)
			if len(f.edits) == 0 {
				continue
			}
			dst := filepath.Join(cfg.Out, fmt.Sprintf("%04d_%s", nf, filepath.Base(f.rel)))
			nf++
			if err := os.WriteFile(dst, f.render(), 0o644); err != nil {
				return nil, nil, nil, nil, err
			}
			overlay[f.fset.Position(f.file.Pos()).Filename] = dst
		}
	}
	for _, s := range sites {
		if s.Shared {
			rep.SharedSites++
		}
	}
	rep.Sites = len(sites)
	return overlay, sites, rep, ext, nil
}

func goAtLeast(v string, minor int) bool {
	var a, b int
	fmt.Sscanf(v, "%d.%d", &a, &b)
	return a > 1 || b >= minor
}

func (in *inst) pkg(p *pkgInfo, byPath map[string]*pkgInfo) ([]*fileRW, error) {
	fset := token.NewFileSet()
	var files []*ast.File
	var srcs [][]byte
	for _, f := range p.GoFiles {
		path := filepath.Join(p.Dir, f)
		src, err := os.ReadFile(path)
		if err != nil {
			return nil, err
		}
		af, err := parser.ParseFile(fset, path, src, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		files = append(files, af)
		srcs = append(srcs, src)
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		if m, ok := p.ImportMap[path]; ok {
			path = m
		}
		d := byPath[path]
		if d == nil || d.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(d.Export)
	})
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{},
		Uses:  map[*ast.Ident]types.Object{},
		Defs:  map[*ast.Ident]types.Object{},
	}
	conf := types.Config{Importer: imp, Sizes: types.SizesFor("gc", runtime.GOARCH)}
	if p.Module.GoVersion != "" {
		conf.GoVersion = "go" + p.Module.GoVersion
	}
	tp, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		return nil, fmt.Errorf("type check %s: %w", p.ImportPath, err)
	}
	var out []*fileRW
	for i, af := range files {
		rel, err := filepath.Rel(in.cfg.Repo, filepath.Join(p.Dir, p.GoFiles[i]))
		if err != nil || strings.HasPrefix(rel, "..") {
			rel = p.ImportPath + "/" + p.GoFiles[i]
		}
		f := &fileRW{in: in, pkg: p, fset: fset, file: af, src: srcs[i], info: info, tpkg: tp,
			base: fset.File(af.Pos()).Base(), rel: rel, keep: map[string]string{},
			rangeFn: p.Module.GoVersion == "" || goAtLeast(p.Module.GoVersion, 23),
			generic: p.Module.GoVersion == "" || goAtLeast(p.Module.GoVersion, 18),
			seams:   map[string]int{}, handled: map[ast.Node]bool{}, recv: map[types.Object]bool{}}
		f.run()
		out = append(out, f)
	}
	return out, nil
}

func (f *fileRW) off(p token.Pos) int { return int(p) - f.base }

func (f *fileRW) put(lo, hi int, text func() string) {
	f.edits = append(f.edits, edit{lo, hi, text, len(f.edits)})
	f.used = true
}

func (f *fileRW) ins(p token.Pos, s string) {
	o := f.off(p)
	f.put(o, o, func() string { return s })
}

func (f *fileRW) repl(lo, hi token.Pos, s string) {
	f.put(f.off(lo), f.off(hi), func() string { return s })
}

// apply returns the source between lo and hi with all edits inside applied.
// Edits nested in a larger replacement are skipped (the replacement's text
// function calls apply for the parts it keeps).
func (f *fileRW) apply(lo, hi int, self int) string {
	var b strings.Builder
	pos := lo
	for i := range f.edits {
		e := &f.edits[i]
		if e.ord == self || e.lo < pos || e.lo < lo || e.hi > hi {
			continue
		}
		if e.lo == hi && e.hi == hi && hi != len(f.src) {
			continue // an insertion right behind the range belongs outside
		}
		b.Write(f.src[pos:e.lo])
		b.WriteString(e.text())
		pos = e.hi
	}
	b.Write(f.src[pos:hi])
	return b.String()
}

func (f *fileRW) render() []byte {
	// At the same offset: earlier created edits first, replacements last.
	sort.SliceStable(f.edits, func(i, j int) bool {
		a, b := f.edits[i], f.edits[j]
		if a.lo != b.lo {
			return a.lo < b.lo
		}
		az, bz := a.hi == a.lo, b.hi == b.lo
		if az != bz {
			return az
		}
		if !az && a.hi != b.hi {
			return a.hi > b.hi
		}
		return a.ord < b.ord
	})
	s := f.apply(0, len(f.src), -1)
	keys := make([]string, 0, len(f.keep))
	for k := range f.keep {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		s += "\n" + f.keep[k]
	}
	return []byte(s + "\n")
}

func (f *fileRW) site(n ast.Node, store bool) func() string {
	pos := f.fset.Position(n.Pos())
	s := Site{Pos: fmt.Sprintf("%s:%d", f.rel, pos.Line), Func: f.fn, Store: store}
	s.Shared = store || f.shared(n)
	s.Write = f.writes(n)
	f.sites = append(f.sites, s)
	i := len(f.sites) - 1
	return func() string { return fmt.Sprint(int(f.baseID) + i) }
}

// shared reports whether the statement itself (not the blocks nested in it)
// mentions a package level variable or selects something from a receiver.
func (f *fileRW) shared(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.BlockStmt, *ast.FuncLit, *ast.CaseClause, *ast.CommClause:
			return x == n
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok && f.recv[f.info.Uses[id]] {
				found = true
			}
		case *ast.Ident:
			if v, ok := f.info.Uses[x].(*types.Var); ok && !v.IsField() && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
				found = true
			}
		}
		return !found
	})
	return found
}

// guarded reports whether values of a type are meant to be used by several
// goroutines: it is a structure with something from package sync in it.
func guarded(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	for i := 0; ok && i < s.NumFields(); i++ {
		if n, ok := s.Field(i).Type().(*types.Named); ok && n.Obj().Pkg() != nil {
			switch n.Obj().Pkg().Path() {
			case "sync", "sync/atomic":
				return true
			}
		}
	}
	return false
}

// writes reports whether the statement is executed for its effect on a package
// variable or something reached from one: an assignment, or a call whose
// result is not used.
func (f *fileRW) writes(n ast.Node) bool {
	var rooted func(e ast.Expr) bool
	rooted = func(e ast.Expr) bool {
		switch e := ast.Unparen(e).(type) {
		case *ast.Ident:
			v, ok := f.info.Uses[e].(*types.Var)
			return ok && !v.IsField() && v.Pkg() != nil && (v.Parent() == v.Pkg().Scope() || f.recv[v] && guarded(v.Type()))
		case *ast.SelectorExpr:
			if id, ok := e.X.(*ast.Ident); ok {
				if _, ok := f.info.Uses[id].(*types.PkgName); ok {
					return rooted(e.Sel)
				}
			}
			return rooted(e.X)
		case *ast.IndexExpr:
			return rooted(e.X)
		case *ast.StarExpr:
			return rooted(e.X)
		case *ast.SliceExpr:
			return rooted(e.X)
		case *ast.CallExpr: // pool.Get().(*T), table.row(i).set(x)
			if s, ok := e.Fun.(*ast.SelectorExpr); ok {
				return rooted(s.X)
			}
		case *ast.TypeAssertExpr:
			return rooted(e.X)
		}
		return false
	}
	any := func(l []ast.Expr) bool {
		for _, e := range l {
			if rooted(e) {
				return true
			}
		}
		return false
	}
	switch n := n.(type) {
	case *ast.AssignStmt:
		return n.Tok != token.DEFINE && any(n.Lhs)
	case *ast.IncDecStmt:
		return rooted(n.X)
	case *ast.ExprStmt:
		if c, ok := n.X.(*ast.CallExpr); ok {
			if s, ok := c.Fun.(*ast.SelectorExpr); ok && rooted(s.X) {
				switch s.Sel.Name {
				case "Lock", "RLock", "Unlock", "RUnlock":
					return false
				}
				return true
			}
			if id, ok := c.Fun.(*ast.Ident); ok {
				if _, ok := f.info.Uses[id].(*types.Builtin); ok {
					return any(c.Args)
				}
			}
		}
	}
	return false
}

func (f *fileRW) run() {
	// imports
	for _, im := range f.file.Imports {
		switch im.Path.Value {
		case `"sync"`:
			if im.Name == nil {
				f.repl(im.Path.Pos(), im.Path.End(), fmt.Sprintf("sync %q", f.in.cfg.Sync))
			} else if im.Name.Name != "." && im.Name.Name != "_" {
				f.repl(im.Path.Pos(), im.Path.End(), fmt.Sprintf("%q", f.in.cfg.Sync))
			}
			f.seams["sync"]++
		case `"math/rand"`, `"math/rand/v2"`:
			path := f.in.cfg.Rand
			if strings.HasSuffix(im.Path.Value, `v2"`) {
				path += "2"
			}
			if im.Name == nil {
				f.repl(im.Path.Pos(), im.Path.End(), fmt.Sprintf("rand %q", path))
			} else if im.Name.Name != "_" {
				f.repl(im.Path.Pos(), im.Path.End(), fmt.Sprintf("%q", path))
			}
			f.seams["math/rand"]++
		case `"crypto/rand"`, `"context"`, `"os"`, `"net"`, `"os/exec"`, `"hash/maphash"`, `"unique"`, `"weak"`:
			f.unsup = append(f.unsup, fmt.Sprintf("%s imports %s", f.rel, im.Path.Value))
		}
	}
	for _, d := range f.file.Decls {
		f.fn = ""
		f.recv = map[types.Object]bool{}
		if fd, ok := d.(*ast.FuncDecl); ok {
			f.fn = fd.Name.Name
			if fd.Recv != nil && len(fd.Recv.List) == 1 {
				f.fn = types.ExprString(fd.Recv.List[0].Type) + "." + f.fn
				for _, id := range fd.Recv.List[0].Names {
					if o := f.info.Defs[id]; o != nil {
						f.recv[o] = true
					}
				}
			}
			if fd.Body == nil {
				continue
			}
		}
		f.walk(d)
	}
	if !f.used {
		f.edits = nil
		return
	}
	f.ins(f.file.Name.End(), fmt.Sprintf("; import zzrt %q", f.in.cfg.RTPath))
	f.keep["zzrt"] = "var _ = zzrt.Y"
}

func (f *fileRW) yields(list []ast.Stmt) {
	after := false
	for _, s := range list {
		switch s.(type) {
		case *ast.EmptyStmt:
			continue
		case *ast.CaseClause, *ast.CommClause:
			continue
		}
		id := f.site(s, false)
		w := &f.sites[len(f.sites)-1].Write
		after, *w = *w, *w || after
		o := f.off(s.Pos())
		f.put(o, o, func() string { return "zzrt.Y(" + id() + "); " })
	}
}

func coreType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if tp, ok := t.(*types.TypeParam); ok {
		var u types.Type
		it, ok := tp.Constraint().Underlying().(*types.Interface)
		if !ok {
			return nil
		}
		for i := 0; i < it.NumEmbeddeds(); i++ {
			e := it.EmbeddedType(i)
			if un, ok := e.(*types.Union); ok {
				for j := 0; j < un.Len(); j++ {
					x := un.Term(j).Type().Underlying()
					if u != nil && !types.Identical(u, x) {
						return nil
					}
					u = x
				}
			} else {
				u = coreType(e)
			}
		}
		return u
	}
	return t.Underlying()
}

func (f *fileRW) pkgName(e ast.Expr, path string) (string, bool) {
	id, ok := e.(*ast.Ident)
	if !ok {
		return "", false
	}
	pn, ok := f.info.Uses[id].(*types.PkgName)
	if !ok || pn.Imported().Path() != path {
		return "", false
	}
	return id.Name, true
}

var timeFuncs = map[string]bool{"Now": true, "Since": true, "Until": true, "Sleep": true, "After": true, "Tick": true}

func (f *fileRW) walk(root ast.Node) {
	ast.Inspect(root, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			if n != nil {
				f.yields(n.List)
				if len(n.List) == 0 && n.Lbrace.IsValid() && !f.handled[n] {
					id := f.site(n, false)
					o := f.off(n.Lbrace) + 1
					f.put(o, o, func() string { return "zzrt.Y(" + id() + ");" })
				}
			}
		case *ast.CaseClause:
			f.yields(n.Body)
		case *ast.CommClause:
			f.yields(n.Body)
		case *ast.SelectorExpr:
			if name, ok := f.pkgName(n.X, "time"); ok {
				if timeFuncs[n.Sel.Name] {
					f.repl(n.X.Pos(), n.X.End(), "zzrt")
					f.keep["time "+name] = fmt.Sprintf("var _ %s.Duration", name)
					f.seams["time."+n.Sel.Name]++
				} else if n.Sel.Name == "NewTimer" || n.Sel.Name == "NewTicker" || n.Sel.Name == "AfterFunc" {
					f.unsup = append(f.unsup, fmt.Sprintf("%s uses time.%s", f.rel, n.Sel.Name))
				}
			}
			if name, ok := f.pkgName(n.X, "maps"); ok && f.rangeFn {
				switch n.Sel.Name {
				case "Keys", "Values", "All":
					f.repl(n.X.Pos(), n.Sel.End(), "zzrt.Maps"+n.Sel.Name)
					f.keep["maps "+name] = fmt.Sprintf("var _ = %s.Clone[map[int]int]", name)
					f.seams["maps."+n.Sel.Name]++
				}
			}
		case *ast.RangeStmt:
			f.rangeStmt(n)
		case *ast.AssignStmt:
			f.assign(n)
		case *ast.GoStmt:
			f.goStmt(n)
		case *ast.SwitchStmt:
			f.handled[n.Body] = true
		case *ast.TypeSwitchStmt:
			f.handled[n.Body] = true
		case *ast.SendStmt:
			if f.handled[n] {
				break
			}
			f.seams["channel send"]++
			f.ins(n.Chan.Pos(), "zzrt.Send(")
			f.repl(n.Arrow, n.Arrow+2, ")(")
			f.ins(n.Value.End(), ")")
		case *ast.UnaryExpr:
			if n.Op == token.ARROW && !f.handled[n] {
				f.recv1(n, "zzrt.Recv(")
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				if u, ok := ast.Unparen(n.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					f.recv1(u, "zzrt.Recv2(")
				}
			}
		case *ast.SelectStmt:
			f.selectStmt(n)
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "close" {
				if _, ok := f.info.Uses[id].(*types.Builtin); ok {
					f.seams["channel close"]++
					f.repl(id.Pos(), id.End(), "zzrt.Close")
				}
			}
		}
		return true
	})
}

func (f *fileRW) recv1(u *ast.UnaryExpr, with string) {
	if f.handled[u] {
		return
	}
	f.handled[u] = true
	f.seams["channel receive"]++
	f.repl(u.OpPos, u.OpPos+2, with)
	f.ins(u.End(), ")")
}

func (f *fileRW) rangeStmt(n *ast.RangeStmt) {
	t := coreType(f.info.TypeOf(n.X))
	switch t.(type) {
	case *types.Map:
		if !f.rangeFn {
			f.unsup = append(f.unsup, fmt.Sprintf("%s:%d ranges over a map in a module with an old go version", f.rel, f.fset.Position(n.Pos()).Line))
			return
		}
		f.seams["map range"]++
		id := f.site(n, false)
		o := f.off(n.X.Pos())
		f.put(o, o, func() string { return "zzrt.MapIter(" + id() + "," })
		f.ins(n.X.End(), ")")
	case *types.Chan:
		if !f.rangeFn {
			return
		}
		f.seams["channel range"]++
		f.ins(n.X.Pos(), "zzrt.RangeChan(")
		f.ins(n.X.End(), ")")
	}
}

func (f *fileRW) assign(n *ast.AssignStmt) {
	if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
		if u, ok := ast.Unparen(n.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			f.recv1(u, "zzrt.Recv2(")
		}
		return
	}
	if !f.generic || n.Tok != token.ASSIGN || len(n.Lhs) != 1 || len(n.Rhs) != 1 {
		return
	}
	interesting := false
	switch l := ast.Unparen(n.Lhs[0]).(type) {
	case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
		interesting = true
	case *ast.Ident:
		if v, ok := f.info.Uses[l].(*types.Var); ok && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
			interesting = true
		}
	}
	if !interesting {
		return
	}
	r := n.Rhs[0]
	switch x := ast.Unparen(r).(type) {
	case *ast.CallExpr, *ast.SelectorExpr, *ast.IndexExpr, *ast.CompositeLit, *ast.StarExpr, *ast.SliceExpr:
	case *ast.Ident:
		if _, ok := f.info.Uses[x].(*types.Var); !ok {
			return
		}
	case *ast.UnaryExpr:
		if x.Op != token.AND {
			return
		}
	default:
		return
	}
	tv := f.info.Types[r]
	lt := f.info.TypeOf(n.Lhs[0])
	if tv.Value != nil || tv.IsNil() || tv.Type == nil || lt == nil || !types.Identical(tv.Type, lt) {
		return
	}
	if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		return
	}
	if _, ok := tv.Type.(*types.Tuple); ok {
		return
	}
	// a comparison result or shift may be untyped inside; calls and the other
	// forms admitted above are not
	id := f.site(n, true)
	o := f.off(r.Pos())
	f.put(o, o, func() string { return "zzrt.V(" + id() + "," })
	f.ins(r.End(), ")")
}

func (f *fileRW) goStmt(n *ast.GoStmt) {
	f.seams["go"]++
	c := n.Call
	if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		_ = fl
		f.repl(n.Go, n.Go+2, "zzrt.Go(")
		f.repl(c.Lparen, c.Rparen+1, ")")
		return
	}
	if id, ok := ast.Unparen(c.Fun).(*ast.Ident); ok {
		if _, ok := f.info.Uses[id].(*types.Builtin); ok {
			f.repl(n.Go, n.Go+2, "zzrt.Go(func(){")
			f.ins(c.End(), "})")
			return
		}
	}
	f.repl(n.Go, n.Go+2, "{zzf := ")
	f.repl(c.Lparen, c.Lparen+1, ";")
	var names []string
	for i, a := range c.Args {
		tv := f.info.Types[a]
		name := fmt.Sprintf("zza%d", i)
		switch {
		case tv.IsNil():
			f.repl(a.Pos(), a.End(), "")
			name = "nil"
		case tv.Value != nil:
			f.ins(a.Pos(), "const "+name+" = ")
		default:
			f.ins(a.Pos(), name+" := ")
		}
		names = append(names, name)
		if i+1 < len(c.Args) {
			// the comma between the arguments
			lo := f.off(a.End())
			k := bytes.IndexByte(f.src[lo:], ',')
			f.put(lo+k, lo+k+1, func() string { return ";" })
		}
	}
	dots := ""
	if c.Ellipsis.IsValid() {
		dots = "..."
		f.repl(c.Ellipsis, c.Ellipsis+3, "")
	}
	f.repl(c.Rparen, c.Rparen+1, ";zzrt.Go(func(){zzf("+strings.Join(names, ",")+dots+")})}")
}

func (f *fileRW) selectStmt(n *ast.SelectStmt) {
	f.handled[n.Body] = true
	if len(n.Body.List) == 0 {
		f.unsup = append(f.unsup, f.rel+": empty select")
		return
	}
	f.seams["select"]++
	k := f.selN
	f.selN++
	hasDef := false
	type cs struct {
		name string
		send *ast.SendStmt
		recv *ast.UnaryExpr
	}
	var cases []cs
	i := 0
	for _, s := range n.Body.List {
		cc := s.(*ast.CommClause)
		colon := cc.Colon
		switch c := cc.Comm.(type) {
		case nil:
			hasDef = true
		case *ast.SendStmt:
			f.handled[c] = true
			cases = append(cases, cs{name: fmt.Sprintf("zzc%d_%d", k, i), send: c})
			idx := i
			f.put(f.off(cc.Case), f.off(colon), func() string { return fmt.Sprintf("case %d", idx) })
			i++
		case *ast.ExprStmt:
			u := ast.Unparen(c.X).(*ast.UnaryExpr)
			f.handled[u] = true
			cases = append(cases, cs{name: fmt.Sprintf("zzc%d_%d", k, i), recv: u})
			idx := i
			f.put(f.off(cc.Case), f.off(colon), func() string { return fmt.Sprintf("case %d", idx) })
			i++
		case *ast.AssignStmt:
			u := ast.Unparen(c.Rhs[0]).(*ast.UnaryExpr)
			f.handled[u] = true
			name := fmt.Sprintf("zzc%d_%d", k, i)
			cases = append(cases, cs{name: name, recv: u})
			idx := i
			rhs := name + ".V"
			if len(c.Lhs) == 2 {
				rhs += ", " + name + ".OK"
			}
			lo, hi := f.off(c.Lhs[0].Pos()), f.off(c.Lhs[len(c.Lhs)-1].End())
			tok := c.Tok.String()
			ord := len(f.edits)
			f.put(f.off(cc.Case), f.off(colon)+1, func() string {
				return fmt.Sprintf("case %d: %s %s %s;", idx, f.apply(lo, hi, ord), tok, rhs)
			})
			i++
		}
	}
	ord := len(f.edits)
	f.put(f.off(n.Select), f.off(n.Body.Lbrace), func() string {
		var l, r []string
		for _, c := range cases {
			l = append(l, c.name)
			if c.send != nil {
				r = append(r, fmt.Sprintf("zzrt.CS(%s)(%s)",
					f.apply(f.off(c.send.Chan.Pos()), f.off(c.send.Chan.End()), ord),
					f.apply(f.off(c.send.Value.Pos()), f.off(c.send.Value.End()), ord)))
			} else {
				r = append(r, fmt.Sprintf("zzrt.CR(%s)", f.apply(f.off(c.recv.X.Pos()), f.off(c.recv.X.End()), ord)))
			}
		}
		h := ""
		if len(l) > 0 {
			h = strings.Join(l, ",") + " := " + strings.Join(r, ",") + "; "
			l = append([]string{fmt.Sprint(hasDef)}, l...)
		} else {
			l = []string{fmt.Sprint(hasDef)}
		}
		return "switch " + h + "zzrt.Select(" + strings.Join(l, ", ") + ") "
	})
	if !hasDef {
		f.ins(n.Body.Rbrace, "\ndefault: panic(\"unreachable\")\n")
	}
}
