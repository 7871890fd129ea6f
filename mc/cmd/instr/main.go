// instr rewrites the packages of a Go module for exploration under vsched and writes an overlay for
// go build. Mode "mem" puts a scheduling point at every access to memory reached through a pointer, a
// slice or a package variable; mode "stmt" puts one before every statement. Both replace sync and
// sync/atomic with the shims. Mode "order" only lets the explorer decide the order in which maps are walked.
//
//	instr -root DIR -module PATH -out DIR pkg=mode...
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

var (
	rootDir = flag.String("root", "/repo", "module directory")
	module  = flag.String("module", "github.com/VolantMQ/vlapi", "module path")
	outDir  = flag.String("out", "", "output directory")
)

func die(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+format+"\n", a...)
	os.Exit(1)
}

// loader type-checks the module's packages from source.
type loader struct {
	fset *token.FileSet
	std  types.Importer
	pkgs map[string]*types.Package
}

func (l *loader) files(dir string) ([]*ast.File, []string, error) {
	bp, err := build.ImportDir(dir, 0)
	if err != nil {
		return nil, nil, err
	}
	var fs []*ast.File
	var names []string
	for _, n := range bp.GoFiles {
		full := filepath.Join(dir, n)
		f, err := parser.ParseFile(l.fset, full, nil, parser.ParseComments)
		if err != nil {
			return nil, nil, err
		}
		fs, names = append(fs, f), append(names, full)
	}
	return fs, names, nil
}

func (l *loader) Import(path string) (*types.Package, error) {
	if p := l.pkgs[path]; p != nil {
		return p, nil
	}
	if path == *module || strings.HasPrefix(path, *module+"/") {
		fs, _, err := l.files(filepath.Join(*rootDir, strings.TrimPrefix(path, *module)))
		if err != nil {
			return nil, err
		}
		p, err := (&types.Config{Importer: l, Error: func(error) {}}).Check(path, l.fset, fs, nil)
		if p != nil {
			l.pkgs[path] = p
			return p, nil
		}
		return nil, err
	}
	p, err := l.std.Import(path)
	if err == nil {
		l.pkgs[path] = p
		return p, nil
	}
	// an unknown package: types of its values stay unknown
	p = types.NewPackage(path, filepath.Base(path))
	p.MarkComplete()
	l.pkgs[path] = p
	return p, nil
}

const vpkg = "vsched_"

func call(fn string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(vpkg), Sel: ast.NewIdent(fn)}, Args: args}
}

func point() ast.Stmt { return &ast.ExprStmt{X: call("P")} }

type rewriter struct {
	info *types.Info
	mem  bool
}

// shared tells whether e denotes memory another thread may reach.
func (w *rewriter) shared(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return w.shared(x.X)
	case *ast.Ident:
		v, ok := w.info.Uses[x].(*types.Var)
		return ok && !v.IsField() && v.Parent() != nil && v.Pkg() != nil && v.Parent() == v.Pkg().Scope()
	case *ast.StarExpr:
		tv, ok := w.info.Types[x.X]
		return ok && tv.IsValue()
	case *ast.SelectorExpr:
		sel := w.info.Selections[x]
		if sel == nil {
			v, ok := w.info.Uses[x.Sel].(*types.Var) // variable of another package
			return ok && !v.IsField()
		}
		if sel.Kind() != types.FieldVal {
			return false
		}
		return sel.Indirect() || isPtr(w.info.TypeOf(x.X)) || w.shared(x.X)
	case *ast.IndexExpr:
		t := w.info.TypeOf(x.X)
		if t == nil {
			return false
		}
		switch u := t.Underlying().(type) {
		case *types.Slice:
			return true
		case *types.Pointer:
			_, arr := u.Elem().Underlying().(*types.Array)
			return arr
		case *types.Array:
			return w.shared(x.X)
		}
	}
	return false
}

func isPtr(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// value wraps loads inside an expression evaluated for its value.
func (w *rewriter) value(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case nil:
		return nil
	case *ast.ParenExpr:
		x.X = w.value(x.X)
	case *ast.Ident, *ast.SelectorExpr, *ast.StarExpr, *ast.IndexExpr:
		tv, ok := w.info.Types[e]
		sh := ok && tv.IsValue() && tv.Addressable() && w.shared(e)
		w.place(e)
		if sh {
			return call("Ld", &ast.UnaryExpr{Op: token.AND, X: e})
		}
	case *ast.UnaryExpr:
		if x.Op == token.AND {
			if _, lit := x.X.(*ast.CompositeLit); lit {
				x.X = w.value(x.X)
			} else {
				w.place(x.X)
			}
		} else {
			x.X = w.value(x.X)
		}
	case *ast.BinaryExpr:
		x.X, x.Y = w.value(x.X), w.value(x.Y)
	case *ast.CallExpr:
		if tv, ok := w.info.Types[x.Fun]; ok && tv.IsType() {
			// conversion
		} else if tv.IsBuiltin() {
			if id, ok := ast.Unparen(x.Fun).(*ast.Ident); ok && (id.Name == "new" || id.Name == "make" || id.Name == "len" || id.Name == "cap") {
				if id.Name == "make" {
					for i := 1; i < len(x.Args); i++ {
						x.Args[i] = w.value(x.Args[i])
					}
				}
				return x
			}
		} else if s, ok := ast.Unparen(x.Fun).(*ast.SelectorExpr); ok {
			w.receiver(s)
		} else if _, lit := x.Fun.(*ast.FuncLit); lit {
			w.value(x.Fun)
		}
		for i := range x.Args {
			x.Args[i] = w.value(x.Args[i])
		}
	case *ast.CompositeLit:
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				kv.Value = w.value(kv.Value)
			} else {
				x.Elts[i] = w.value(el)
			}
		}
	case *ast.FuncLit:
		w.block(x.Body)
	case *ast.SliceExpr:
		if t := w.info.TypeOf(x.X); t != nil {
			if _, arr := t.Underlying().(*types.Array); arr {
				w.place(x.X)
			} else {
				x.X = w.value(x.X)
			}
		}
		x.Low, x.High, x.Max = w.opt(x.Low), w.opt(x.High), w.opt(x.Max)
	case *ast.TypeAssertExpr:
		x.X = w.value(x.X)
	}
	return e
}

func (w *rewriter) opt(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	return w.value(e)
}

// receiver treats X of X.method: a pointer held in shared memory is loaded, a value stays in place.
func (w *rewriter) receiver(s *ast.SelectorExpr) {
	if w.info.Selections[s] == nil {
		return // package-qualified
	}
	if isPtr(w.info.TypeOf(s.X)) {
		s.X = w.value(s.X)
	} else {
		w.place(s.X)
	}
}

// place wraps the loads needed to compute the address of e, not the load of e.
func (w *rewriter) place(e ast.Expr) {
	switch x := e.(type) {
	case *ast.ParenExpr:
		w.place(x.X)
	case *ast.SelectorExpr:
		if w.info.Selections[x] == nil {
			return
		}
		if isPtr(w.info.TypeOf(x.X)) {
			x.X = w.value(x.X)
		} else {
			w.place(x.X)
		}
	case *ast.StarExpr:
		x.X = w.value(x.X)
	case *ast.IndexExpr:
		t := w.info.TypeOf(x.X)
		if t == nil {
			return
		}
		if _, sig := t.Underlying().(*types.Signature); sig {
			return
		}
		if _, arr := t.Underlying().(*types.Array); arr {
			w.place(x.X)
		} else {
			x.X = w.value(x.X)
		}
		x.Index = w.value(x.Index)
	case *ast.CallExpr, *ast.FuncLit, *ast.CompositeLit, *ast.SliceExpr, *ast.TypeAssertExpr, *ast.BinaryExpr, *ast.UnaryExpr:
		w.value(e)
	}
}

func (w *rewriter) addressable(e ast.Expr) bool {
	tv, ok := w.info.Types[e]
	return ok && tv.Addressable()
}

var opOf = map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM,
	token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}

func amp(e ast.Expr) ast.Expr { return &ast.UnaryExpr{Op: token.AND, X: e} }

// clone copies an address expression; nil when it is not plain.
func clone(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.Ident:
		return ast.NewIdent(x.Name)
	case *ast.ParenExpr:
		if y := clone(x.X); y != nil {
			return &ast.ParenExpr{X: y}
		}
	case *ast.SelectorExpr:
		if y := clone(x.X); y != nil {
			return &ast.SelectorExpr{X: y, Sel: ast.NewIdent(x.Sel.Name)}
		}
	case *ast.StarExpr:
		if y := clone(x.X); y != nil {
			return &ast.StarExpr{X: y}
		}
	}
	return nil
}

func (w *rewriter) simple(s ast.Stmt) ast.Stmt {
	if !w.mem {
		return s
	}
	switch x := s.(type) {
	case *ast.AssignStmt:
		if len(x.Lhs) == 1 && len(x.Rhs) == 1 && x.Tok != token.DEFINE && w.shared(x.Lhs[0]) && w.addressable(x.Lhs[0]) {
			l := x.Lhs[0]
			if x.Tok == token.ASSIGN {
				w.place(l)
				return &ast.ExprStmt{X: call("Store", amp(l), w.value(x.Rhs[0]))}
			}
			if l2 := clone(l); l2 != nil {
				rhs := &ast.BinaryExpr{X: call("Ld", amp(l)), Op: opOf[x.Tok], Y: &ast.ParenExpr{X: w.value(x.Rhs[0])}}
				return &ast.ExprStmt{X: call("Store", amp(l2), rhs)}
			}
		}
		for i := range x.Rhs {
			x.Rhs[i] = w.value(x.Rhs[i])
		}
		if x.Tok != token.DEFINE {
			for _, l := range x.Lhs {
				w.place(l)
			}
		}
	case *ast.IncDecStmt:
		if w.shared(x.X) && w.addressable(x.X) {
			if l2 := clone(x.X); l2 != nil {
				op := token.ADD
				if x.Tok == token.DEC {
					op = token.SUB
				}
				return &ast.ExprStmt{X: call("Store", amp(l2), &ast.BinaryExpr{X: call("Ld", amp(x.X)), Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}})}
			}
		}
	case *ast.ExprStmt:
		x.X = w.value(x.X)
	case *ast.SendStmt:
		x.Chan, x.Value = w.value(x.Chan), w.value(x.Value)
	case *ast.DeferStmt:
		w.value(x.Call)
	case *ast.GoStmt:
		w.value(x.Call)
	case *ast.ReturnStmt:
		for i := range x.Results {
			x.Results[i] = w.value(x.Results[i])
		}
	case *ast.DeclStmt:
		if g, ok := x.Decl.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				if v, ok := sp.(*ast.ValueSpec); ok && g.Tok == token.VAR {
					for i := range v.Values {
						v.Values[i] = w.value(v.Values[i])
					}
				}
			}
		}
	}
	return s
}

func (w *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case *ast.BlockStmt:
		w.block(x)
	case *ast.LabeledStmt:
		x.Stmt = w.stmt(x.Stmt)
	case *ast.IfStmt:
		if x.Init != nil {
			x.Init = w.simple(x.Init)
		}
		if w.mem {
			x.Cond = w.value(x.Cond)
		}
		w.block(x.Body)
		if x.Else != nil {
			x.Else = w.stmt(x.Else)
		}
	case *ast.ForStmt:
		if x.Init != nil {
			x.Init = w.simple(x.Init)
		}
		if w.mem {
			x.Cond = w.opt(x.Cond)
		}
		if x.Post != nil {
			x.Post = w.simple(x.Post)
		}
		w.block(x.Body)
	case *ast.RangeStmt:
		if w.mem {
			if t := w.info.TypeOf(x.X); t != nil {
				if _, arr := t.Underlying().(*types.Array); !arr {
					x.X = w.value(x.X)
				}
			}
		}
		w.block(x.Body)
	case *ast.SwitchStmt:
		if x.Init != nil {
			x.Init = w.simple(x.Init)
		}
		if w.mem {
			x.Tag = w.opt(x.Tag)
		}
		w.block(x.Body)
	case *ast.TypeSwitchStmt:
		if x.Init != nil {
			x.Init = w.simple(x.Init)
		}
		w.block(x.Body)
	case *ast.SelectStmt:
		w.block(x.Body)
	default:
		if !w.mem {
			w.lits(s)
		}
		return w.simple(s)
	}
	return s
}

// lits instruments function literals inside a simple statement (stmt mode).
func (w *rewriter) lits(s ast.Node) {
	ast.Inspect(s, func(n ast.Node) bool {
		if f, ok := n.(*ast.FuncLit); ok {
			w.block(f.Body)
			return false
		}
		return true
	})
}

func (w *rewriter) list(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		switch x := s.(type) {
		case *ast.CaseClause:
			if w.mem {
				for i := range x.List {
					if tv, ok := w.info.Types[x.List[i]]; ok && tv.IsValue() {
						x.List[i] = w.value(x.List[i])
					}
				}
			}
			x.Body = w.list(x.Body)
			out = append(out, x)
			continue
		case *ast.CommClause:
			x.Body = w.list(x.Body)
			out = append(out, x)
			continue
		}
		if !w.mem {
			if d, ok := s.(*ast.DeclStmt); !ok || d.Decl.(*ast.GenDecl).Tok == token.VAR {
				out = append(out, point())
			}
		}
		out = append(out, w.stmt(s))
	}
	return out
}

func (w *rewriter) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = w.list(b.List)
	}
}

// Library calls that look at every byte of their text arguments, by package.
var wholeScan = map[string]map[string]bool{
	"unicode/utf8": set("Valid ValidString RuneCount RuneCountInString"),
	"bytes":        set("Count Split SplitN SplitAfter SplitAfterN Fields FieldsFunc Replace ReplaceAll ToUpper ToLower ToTitle Title Map Repeat ToValidUTF8 Runes Clone Write WriteString"),
	"strings":      set("Count Split SplitN SplitAfter SplitAfterN Fields FieldsFunc Replace ReplaceAll ToUpper ToLower ToTitle Title Map Repeat ToValidUTF8 Clone Write WriteString"),
	"regexp":       nil,
	"fmt":          nil,
	"hash":         nil,
	"crypto":       nil,
	"encoding":     nil,
	"io":           set("WriteString"),
}

// Library calls that look at their first argument until they find the second one, with the call telling where.
var seek = map[string]string{"Index": "Index", "Contains": "Index", "IndexByte": "IndexByte", "IndexRune": "IndexRune", "ContainsRune": "IndexRune", "IndexAny": "IndexAny", "ContainsAny": "IndexAny"}

func set(s string) map[string]bool {
	m := map[string]bool{}
	for _, f := range strings.Fields(s) {
		m[f] = true
	}
	return m
}

func isText(t types.Type) bool {
	if t == nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.String
	case *types.Slice:
		b, ok := types.Unalias(u.Elem()).(*types.Basic)
		return ok && b.Kind() == types.Byte
	}
	return false
}

// costs makes the work hidden in library calls count: every text handed to a call that reads all of it counts
// with its length, searches with the distance to what they find, copies with what they copy.
func (w *rewriter) costs(body *ast.BlockStmt) {
	done := map[ast.Node]bool{}
	weigh := func(x *ast.CallExpr) {
		for i, a := range x.Args {
			if tv, ok := w.info.Types[a]; ok && tv.IsValue() && tv.Value == nil && isText(tv.Type) {
				x.Args[i] = call("W", a)
			}
		}
	}
	ast.Inspect(body, func(n ast.Node) bool {
		x, ok := n.(*ast.CallExpr)
		if !ok || done[x] {
			return true
		}
		done[x] = true
		fun := ast.Unparen(x.Fun)
		if tv, ok := w.info.Types[fun]; ok && tv.IsType() {
			if isText(tv.Type) {
				weigh(x) // conversions between strings and bytes copy
			}
			return true
		}
		var id *ast.Ident
		sel, _ := fun.(*ast.SelectorExpr)
		if sel != nil {
			id = sel.Sel
		} else if id, ok = fun.(*ast.Ident); !ok {
			return true
		}
		switch obj := w.info.Uses[id].(type) {
		case *types.Builtin:
			switch obj.Name() {
			case "copy":
				inner := *x
				done[&inner] = true
				x.Fun, x.Args, x.Ellipsis = call("N").Fun, []ast.Expr{&inner}, token.NoPos
			case "append":
				if x.Ellipsis != token.NoPos {
					weigh(x)
					if c, ok := x.Args[0].(*ast.CallExpr); ok && len(c.Args) == 1 { // only what is appended
						if s, ok := c.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "W" {
							x.Args[0] = c.Args[0]
						}
					}
				}
			}
		case *types.Func:
			if obj.Pkg() == nil {
				return true
			}
			path, name := obj.Pkg().Path(), obj.Name()
			if path == "encoding/binary" || path == *module || strings.HasPrefix(path, *module+"/") {
				return true
			}
			if i := strings.IndexByte(path, '/'); i > 0 && path != "unicode/utf8" {
				path = path[:i]
			}
			sig, _ := obj.Type().(*types.Signature)
			if path == "bytes" || path == "strings" {
				if sig != nil && sig.Recv() == nil && len(x.Args) == 2 && sel != nil {
					if by, ok := seek[name]; ok {
						x.Args = []ast.Expr{sel, &ast.SelectorExpr{X: sel.X, Sel: ast.NewIdent(by)}, x.Args[0], x.Args[1]}
						x.Fun = call("Seek").Fun
						return true
					}
					if name == "Equal" {
						x.Args = []ast.Expr{sel, x.Args[0], x.Args[1]}
						x.Fun = call("Same").Fun
						return true
					}
				}
			}
			if fs, ok := wholeScan[path]; ok && (fs == nil || fs[name]) {
				weigh(x)
			}
		}
		return true
	})
}

// orders lets vsched decide the order of every walk over a map.
func (w *rewriter) orders(f *ast.File) bool {
	any := false
	ast.Inspect(f, func(n ast.Node) bool {
		if x, ok := n.(*ast.RangeStmt); ok {
			if t := w.info.TypeOf(x.X); t != nil {
				if _, ok := t.Underlying().(*types.Map); ok {
					x.X = call("Order", x.X)
					any = true
				}
			}
		}
		return true
	})
	return any
}

func imports(f *ast.File) {
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		to, name := "", ""
		switch p {
		case "sync":
			to, name = "verifmc/vsched/vsync", "sync"
		case "sync/atomic":
			to, name = "verifmc/vsched/vatomic", "atomic"
		default:
			continue
		}
		if im.Name == nil {
			im.Name = ast.NewIdent(name)
		}
		im.Path.Value = strconv.Quote(to)
		im.EndPos = 0
	}
}

func main() {
	flag.Parse()
	l := &loader{fset: token.NewFileSet(), pkgs: map[string]*types.Package{}}
	l.std = importer.ForCompiler(l.fset, "source", nil)
	overlay := map[string]string{}
	for _, arg := range flag.Args() {
		pkg, mode, _ := strings.Cut(arg, "=")
		dir := filepath.Join(*rootDir, pkg)
		fs, names, err := l.files(dir)
		if err != nil {
			die("%s: %v", pkg, err)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
		if mode == "stmt" || mode == "order" {
			// what cannot be resolved is not weighed
			_, _ = (&types.Config{Importer: l, Error: func(error) {}}).Check(*module+"/"+pkg, l.fset, fs, info)
		}
		if mode == "mem" {
			if _, err := (&types.Config{Importer: l}).Check(*module+"/"+pkg, l.fset, fs, info); err != nil {
				die("%s: %v", pkg, err)
			}
		}
		w := &rewriter{info: info, mem: mode == "mem"}
		for i, f := range fs {
			uses := false
			if mode == "order" {
				if uses = w.orders(f); !uses {
					continue
				}
			} else {
				imports(f)
			}
			for _, d := range f.Decls {
				if fn, ok := d.(*ast.FuncDecl); ok && fn.Body != nil && mode != "shim" && mode != "order" {
					if mode == "stmt" {
						w.costs(fn.Body)
					}
					w.block(fn.Body)
					uses = true
				}
			}
			// comments would be printed at wrong places between generated nodes
			var keep []*ast.CommentGroup
			for _, c := range f.Comments {
				if c.Pos() < f.Package {
					keep = append(keep, c)
				}
			}
			f.Comments = keep
			var sb strings.Builder
			if err := format.Node(&sb, l.fset, f); err != nil {
				die("%s: %v", names[i], err)
			}
			src := sb.String()
			if uses && mode != "shim" {
				// the import goes right behind the package clause
				k := strings.Index(src, "\npackage ")
				if strings.HasPrefix(src, "package ") {
					k = 0
				} else {
					k++
				}
				e := k + strings.IndexByte(src[k:], '\n') + 1
				// generated code uses generics (and walks through functions) whatever version the module declares
				if g := strings.Index(src[:k], "//go:build "); g >= 0 {
					n := g + strings.IndexByte(src[g:], '\n')
					src = src[:g] + "//go:build (" + src[g+11:n] + ") && go1.23" + src[n:]
					e += len("() && go1.23")
				} else {
					src = "//go:build go1.23\n\n" + src
					e += len("//go:build go1.23\n\n")
				}
				src = src[:e] + "\nimport " + vpkg + " \"verifmc/vsched\"\n" + src[e:] + "\nvar _ = " + vpkg + ".P\n"
			}
			out := filepath.Join(*outDir, pkg, filepath.Base(names[i]))
			if err := os.MkdirAll(filepath.Dir(out), 0o755); err != nil {
				die("%v", err)
			}
			if err := os.WriteFile(out, []byte(src), 0o644); err != nil {
				die("%v", err)
			}
			overlay[names[i]] = out
		}
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*outDir, "overlay.json"), b, 0o644); err != nil {
		die("%v", err)
	}
}
