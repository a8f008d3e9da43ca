// leakinstr makes a copy of the library in which every block entered, every
// index, slice bound, map key and comparison of arrays is reported to package
// vleak, and calls of functions known to take variable time report what they
// are given.
//
//	leakinstr -repo /repo -out DIR -tags forcegeneric -vleak vleak.go.txt
//
// With -sched it makes a copy in which a goroutine may be made to wait at every
// statement that uses a variable of the package or something of sync or
// sync/atomic, after it, and at the beginning of every function.
package main

import (
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const module = "github.com/bwesterb/go-ristretto"

var (
	repo, out string
	ctx       build.Context
	fset      = token.NewFileSet()
	std       types.Importer
	pkgs      = map[string]*types.Package{}
	site      int
	sites     []string
	sched     bool
)

type edit struct {
	at    int
	open  bool
	width int // extent of the node, to nest edits at the same place
	text  string
}

func die(a ...interface{}) {
	fmt.Fprintln(os.Stderr, a...)
	os.Exit(3)
}

type imp struct{}

func (imp) Import(path string) (*types.Package, error) {
	if path == module || strings.HasPrefix(path, module+"/") {
		return load(path), nil
	}
	return std.Import(path)
}

func load(path string) *types.Package {
	if p, ok := pkgs[path]; ok {
		return p
	}
	rel := strings.TrimPrefix(strings.TrimPrefix(path, module), "/")
	dir := filepath.Join(repo, rel)
	bp, err := ctx.ImportDir(dir, 0)
	if err != nil {
		die(err)
	}
	var files []*ast.File
	for _, f := range bp.GoFiles {
		a, err := parser.ParseFile(fset, filepath.Join(dir, f), nil, parser.ParseComments)
		if err != nil {
			die(err)
		}
		files = append(files, a)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Instances: map[*ast.Ident]types.Instance{}}
	conf := types.Config{Importer: imp{}, Error: func(error) {}}
	p, err := conf.Check(path, fset, files, info)
	if err != nil {
		die("type check", path, err)
	}
	pkgs[path] = p
	odir := filepath.Join(out, rel)
	os.MkdirAll(odir, 0o755)
	for k, f := range bp.GoFiles {
		src, _ := os.ReadFile(filepath.Join(dir, f))
		ins := instrument
		if sched {
			ins = points
		}
		os.WriteFile(filepath.Join(odir, f), ins(files[k], src, info), 0o644)
	}
	for _, f := range append(append([]string{}, bp.SFiles...), bp.HFiles...) {
		src, _ := os.ReadFile(filepath.Join(dir, f))
		os.WriteFile(filepath.Join(odir, f), src, 0o644)
	}
	for _, f := range bp.EmbedPatterns {
		die("embedded files are not supported:", f)
	}
	return p
}

// functions that are not written to take constant time, by the beginnings of
// their names; those that only copy, join or wrap are not among them
var variable = map[string][]string{
	"bytes": {"Equal", "Compare", "Index", "LastIndex", "Contains", "Count", "HasPrefix", "HasSuffix", "Trim", "Split", "Fields", "Cut",
		"Replace", "Map", "To", "Title", "Runes"},
	"math/big": {""}, "strconv": {""}, "sort": {""}, "reflect": {"DeepEqual"},
	"slices": {"Equal", "Compare", "Index", "Contains", "Sort", "BinarySearch", "Max", "Min", "Compact", "IsSorted"},
	"cmp":    {"Compare", "Less"},
	"maps":   {"Equal"},
}

func takesVariableTime(fn *types.Func) bool {
	if fn.Pkg() == nil {
		return false
	}
	path := fn.Pkg().Path()
	if path == "strings" {
		path = "bytes"
	}
	if path == "bytes" && fn.Type().(*types.Signature).Recv() != nil {
		return false
	}
	for _, p := range variable[path] {
		if strings.HasPrefix(fn.Name(), p) {
			return true
		}
	}
	return false
}

func instrument(f *ast.File, src []byte, info *types.Info) []byte {
	var eds []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	next := func(n ast.Node) int {
		site++
		p := fset.Position(n.Pos())
		sites = append(sites, fmt.Sprintf("%d %s:%d:%d", site, filepath.Base(p.Filename), p.Line, p.Column))
		return site
	}
	wrap := func(n ast.Expr, open, close string) {
		a, b := off(n.Pos()), off(n.End())
		eds = append(eds, edit{a, true, b - a, open}, edit{b, false, b - a, close})
	}
	constant := func(e ast.Expr) bool { return e == nil || info.Types[e].Value != nil }
	block := func(b *ast.BlockStmt) {
		if b != nil {
			eds = append(eds, edit{off(b.Lbrace) + 1, true, 0, fmt.Sprintf(" vleak.S(%d); ", next(b))})
		}
	}
	isInt := func(e ast.Expr) bool {
		t := info.Types[e].Type
		if t == nil {
			return false
		}
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0
	}
	used := false
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			if n.Tok == token.CONST || n.Tok == token.TYPE || n.Tok == token.IMPORT {
				return false
			}
		case *ast.FuncDecl:
			block(n.Body)
		case *ast.FuncLit:
			block(n.Body)
		case *ast.IfStmt:
			block(n.Body)
			if b, ok := n.Else.(*ast.BlockStmt); ok {
				block(b)
			}
		case *ast.ForStmt:
			block(n.Body)
		case *ast.RangeStmt:
			block(n.Body)
		case *ast.CaseClause:
			eds = append(eds, edit{off(n.Colon) + 1, true, 0, fmt.Sprintf(" vleak.S(%d); ", next(n))})
		case *ast.CommClause:
			eds = append(eds, edit{off(n.Colon) + 1, true, 0, fmt.Sprintf(" vleak.S(%d); ", next(n))})
		case *ast.IndexExpr:
			tv, ok := info.Types[n.X]
			if !ok || tv.IsType() || tv.Type == nil {
				break
			}
			t := tv.Type.Underlying()
			if _, ok := t.(*types.Signature); ok {
				break
			}
			if _, ok := t.(*types.Map); ok {
				wrap(n.Index, fmt.Sprintf("vleak.K(%d, ", next(n)), ")")
				break
			}
			if !constant(n.Index) && isInt(n.Index) {
				wrap(n.Index, fmt.Sprintf("vleak.I(%d, ", next(n)), ")")
			}
		case *ast.SliceExpr:
			for _, e := range []ast.Expr{n.Low, n.High, n.Max} {
				if e != nil && !constant(e) && isInt(e) {
					wrap(e, fmt.Sprintf("vleak.I(%d, ", next(e)), ")")
				}
			}
		case *ast.BinaryExpr:
			if constant(n) {
				return false
			}
			switch n.Op {
			case token.LAND, token.LOR:
				wrap(n.Y, fmt.Sprintf("func() bool { vleak.S(%d); return bool(", next(n)), ") }()")
			case token.EQL, token.NEQ:
				tx, ty := info.Types[n.X], info.Types[n.Y]
				if tx.Type == nil || ty.Type == nil || !types.Identical(tx.Type, ty.Type) && ty.Value == nil && tx.Value == nil {
					break
				}
				fn := ""
				switch u := tx.Type.Underlying().(type) {
				case *types.Array, *types.Struct:
					fn = "Eq"
				case *types.Basic:
					if u.Info()&types.IsString != 0 {
						fn = "EqS"
					}
				}
				if fn == "" {
					break
				}
				neg := ""
				if n.Op == token.NEQ {
					neg = "!"
				}
				wrap(n, fmt.Sprintf("%svleak.%s(%d, ", neg, fn, next(n)), ")")
				a := off(n.OpPos)
				eds = append(eds, edit{a, false, -1, "\x00,"}) // takes the place of the operator
			}
		case *ast.CallExpr:
			call(n, info, next, wrap)
		}
		return true
	})
	used = len(eds) > 0
	sort.SliceStable(eds, func(i, j int) bool {
		x, y := eds[i], eds[j]
		if x.at != y.at {
			return x.at < y.at
		}
		if x.open != y.open {
			return !x.open
		}
		if x.open {
			return x.width > y.width
		}
		return x.width < y.width
	})
	var b strings.Builder
	pos := 0
	for _, e := range eds {
		b.Write(src[pos:e.at])
		pos = e.at
		if e.text == "\x00," {
			b.WriteString(",")
			pos += 2
			continue
		}
		b.WriteString(e.text)
	}
	b.Write(src[pos:])
	s := b.String()
	if used {
		k := off(f.Name.End())
		s2 := s[:k] + "; import vleak \"" + module + "/vleak\"" + s[k:]
		s = s2
	}
	return []byte(s)
}

// points inserts the places at which a goroutine may be made to wait.
func points(f *ast.File, src []byte, info *types.Info) []byte {
	at := map[int]string{}
	clauses := map[*ast.BlockStmt]bool{} // bodies that hold clauses, not statements
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	shares := func(s ast.Node) bool { // does it use something that goroutines share?
		found := false
		ast.Inspect(s, func(n ast.Node) bool {
			if found {
				return false
			}
			switch n := n.(type) {
			case *ast.FuncLit:
				return false
			case *ast.BlockStmt:
				return n == s
			case *ast.Ident:
				if v, ok := info.Uses[n].(*types.Var); ok && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
					found = true
				}
				if o := info.Uses[n]; o != nil && o.Pkg() != nil {
					switch o.Pkg().Path() {
					case "sync", "sync/atomic", "internal/sync":
						found = true
					}
				}
			}
			return true
		})
		return found
	}
	list := func(l []ast.Stmt) {
		before := false
		for _, s := range l {
			x := shares(s)
			if x || before {
				p := fset.Position(s.Pos())
				site++
				sites = append(sites, fmt.Sprintf("%d %s:%d:%d", site, filepath.Base(p.Filename), p.Line, p.Column))
				at[p.Offset] += fmt.Sprintf("vsched.Point(%d); ", site)
			}
			before = x
		}
	}
	entry := func(b *ast.BlockStmt) {
		if b != nil {
			at[off(b.Lbrace)+1] += " vsched.Point(0); "
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			entry(n.Body)
		case *ast.FuncLit:
			entry(n.Body)
		case *ast.BlockStmt:
			if !clauses[n] {
				list(n.List)
			}
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		case *ast.SwitchStmt:
			clauses[n.Body] = true
		case *ast.TypeSwitchStmt:
			clauses[n.Body] = true
		case *ast.SelectStmt:
			clauses[n.Body] = true
		}
		return true
	})
	if len(at) == 0 {
		return src
	}
	k := off(f.Name.End())
	at[k] += "; import vsched \"" + module + "/vsched\""
	var places []int
	for p := range at {
		places = append(places, p)
	}
	sort.Ints(places)
	var b strings.Builder
	pos := 0
	for _, p := range places {
		b.Write(src[pos:p])
		b.WriteString(at[p])
		pos = p
	}
	b.Write(src[pos:])
	return []byte(b.String())
}

// call reports the arguments of functions that take variable time.
func call(n *ast.CallExpr, info *types.Info, next func(ast.Node) int, wrap func(ast.Expr, string, string)) {
	f := n.Fun
	switch x := f.(type) { // instances written out
	case *ast.IndexExpr:
		f = x.X
	case *ast.IndexListExpr:
		f = x.X
	}
	sel, ok := f.(*ast.SelectorExpr)
	if !ok {
		return
	}
	obj := info.Uses[sel.Sel]
	fn, ok := obj.(*types.Func)
	if !ok || !takesVariableTime(fn) {
		return
	}
	if fn.Pkg().Path() == "bytes" && (fn.Name() == "Equal" || fn.Name() == "Compare") && len(n.Args) == 2 {
		wrap(n.Args[1], fmt.Sprintf("vleak.BEq(%d, %s, ", next(n), exprText(n.Args[0])), ")")
		return
	}
	if s, ok := info.Selections[sel]; ok { // a method
		t := s.Recv()
		if _, ok := t.(*types.Pointer); ok {
			wrap(sel.X, fmt.Sprintf("vleak.V(%d, ", next(n)), ")")
		} else if info.Types[sel.X].Addressable() {
			wrap(sel.X, fmt.Sprintf("vleak.V(%d, &", next(n)), ")")
		}
	}
	if n.Ellipsis != token.NoPos {
		return
	}
	for _, a := range n.Args {
		tv := info.Types[a]
		if tv.Value != nil || tv.IsNil() || tv.Type == nil {
			continue
		}
		if _, ok := tv.Type.Underlying().(*types.Signature); ok {
			continue
		}
		if _, ok := tv.Type.(*types.Tuple); ok {
			continue
		}
		wrap(a, fmt.Sprintf("vleak.V(%d, ", next(n)), ")")
	}
}

func exprText(e ast.Expr) string {
	p, q := fset.Position(e.Pos()), fset.Position(e.End())
	src, _ := os.ReadFile(p.Filename)
	return string(src[p.Offset:q.Offset])
}

func main() {
	tags := flag.String("tags", "", "build tags")
	vleak := flag.String("vleak", "", "source of package vleak (with -sched: vsched)")
	flag.BoolVar(&sched, "sched", false, "insert places to wait")
	flag.StringVar(&repo, "repo", "/repo", "the library")
	flag.StringVar(&out, "out", "", "directory of the copy")
	flag.Parse()
	ctx = build.Default
	ctx.CgoEnabled = false
	if *tags != "" {
		ctx.BuildTags = strings.Split(*tags, ",")
	}
	std = importer.ForCompiler(fset, "source", nil)
	name := "vleak"
	if sched {
		name = "vsched"
	}
	os.MkdirAll(filepath.Join(out, name), 0o755)
	b, err := os.ReadFile(*vleak)
	if err != nil {
		die(err)
	}
	os.WriteFile(filepath.Join(out, name, name+".go"), b, 0o644)
	os.WriteFile(filepath.Join(out, "go.mod"), []byte("module "+module+"\n\ngo 1.21\n"), 0o644)
	load(module)
	load(module + "/edwards25519")
	os.WriteFile(filepath.Join(out, "SITES"), []byte(strings.Join(sites, "\n")+"\n"), 0o644)
}
