package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"path/filepath"
	"strings"
)

// Statements that only use variables no other thread can reach need no scheduling point: handing
// over there is equivalent to handing over at the next statement that has one. Treating too much
// as private only merges schedules (and the race detector still sees every access).

var universe = map[string]bool{}

func init() {
	for _, s := range strings.Fields("_ true false nil iota bool byte rune string error any int int8 int16 int32 int64 uint uint8 uint16 uint32 uint64 uintptr float32 float64 complex64 complex128 append cap len make new copy delete min max clear real imag complex") {
		universe[s] = true
	}
}

var basic = map[string]bool{}

func init() {
	for _, s := range strings.Fields("bool byte rune string int int8 int16 int32 int64 uint uint8 uint16 uint32 uint64 uintptr float32 float64") {
		basic[s] = true
	}
}

type analysis struct {
	std    map[string]bool // names of imported standard packages
	shared map[*ast.Object]bool
	local  map[*ast.Object]bool
	pkg    map[string]bool      // constants and types of the package
	slot   map[*ast.Object]bool // variables of a function, parameters included
	capt   map[*ast.Object]bool // captured by a function literal
}

func analyse(f *ast.File, pkg map[string]bool) *analysis {
	a := &analysis{pkg: pkg, std: map[string]bool{}, shared: map[*ast.Object]bool{}, local: map[*ast.Object]bool{}, slot: map[*ast.Object]bool{}, capt: map[*ast.Object]bool{}}
	for _, im := range f.Imports {
		p := strings.Trim(im.Path.Value, `"`)
		first, _, _ := strings.Cut(p, "/")
		if strings.Contains(first, ".") {
			continue
		}
		n := p[strings.LastIndex(p, "/")+1:]
		if im.Name != nil {
			n = im.Name.Name
		}
		if p == "sync" || p == "sync/atomic" || p == "unsafe" {
			continue
		}
		a.std[n] = true
	}
	// declared in functions
	var decl func(n ast.Node)
	decl = func(n ast.Node) {
		ast.Inspect(n, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.AssignStmt:
				if x.Tok == token.DEFINE {
					for _, l := range x.Lhs {
						if id, ok := l.(*ast.Ident); ok && id.Obj != nil {
							a.local[id.Obj] = true
						}
					}
				}
			case *ast.ValueSpec:
				for _, id := range x.Names {
					if id.Obj != nil {
						a.local[id.Obj] = true
					}
				}
			case *ast.RangeStmt:
				for _, e := range []ast.Expr{x.Key, x.Value} {
					if id, ok := e.(*ast.Ident); ok && id.Obj != nil && x.Tok == token.DEFINE {
						a.local[id.Obj] = true
					}
				}
			}
			return true
		})
	}
	params := func(ft *ast.FuncType) {
		for _, fl := range []*ast.FieldList{ft.Params, ft.Results} {
			if fl == nil {
				continue
			}
			for _, p := range fl.List {
				id, ok := p.Type.(*ast.Ident)
				for _, n := range p.Names {
					if n.Obj != nil {
						a.slot[n.Obj] = true
					}
					if n.Obj != nil && ok && basic[id.Name] {
						a.local[n.Obj] = true
					}
				}
			}
		}
	}
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
			decl(fd.Body)
			params(fd.Type)
			if fd.Recv != nil {
				for _, p := range fd.Recv.List {
					for _, n := range p.Names {
						if n.Obj != nil {
							a.slot[n.Obj] = true
						}
					}
				}
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				if u, ok := n.(*ast.UnaryExpr); ok && u.Op == token.AND {
					if id := root(u.X); id != nil && id.Obj != nil {
						a.capt[id.Obj] = true
					}
				}
				return true
			})
			// used in a function literal that does not declare it
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				fl, ok := n.(*ast.FuncLit)
				if !ok {
					return true
				}
				params(fl.Type)
				ast.Inspect(fl, func(n ast.Node) bool {
					if id, ok := n.(*ast.Ident); ok && id.Obj != nil && id.Obj.Kind == ast.Var {
						if p := id.Obj.Pos(); p < fl.Pos() || p >= fl.End() {
							a.shared[id.Obj] = true
							a.capt[id.Obj] = true
						}
					}
					return true
				})
				return true
			})
		}
	}
	mark := func(e ast.Expr) bool {
		id := root(e)
		if id == nil || id.Obj == nil || a.shared[id.Obj] || !a.local[id.Obj] {
			return false
		}
		a.shared[id.Obj] = true
		return true
	}
	for changed := true; changed; {
		changed = false
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.AssignStmt:
				all := true
				for _, e := range x.Rhs {
					all = all && a.priv(e)
				}
				for i, l := range x.Lhs {
					ok := all
					if len(x.Lhs) == len(x.Rhs) {
						ok = a.priv(x.Rhs[i])
					}
					if !ok && mark(l) {
						changed = true
					}
				}
			case *ast.ValueSpec:
				for _, e := range x.Values {
					if !a.priv(e) {
						for _, id := range x.Names {
							if mark(id) {
								changed = true
							}
						}
					}
				}
			case *ast.RangeStmt:
				if !a.priv(x.X) {
					for _, e := range []ast.Expr{x.Key, x.Value} {
						if e != nil && mark(e) {
							changed = true
						}
					}
				}
			case *ast.CallExpr:
				if s, ok := x.Fun.(*ast.SelectorExpr); ok {
					for _, arg := range x.Args {
						if !a.priv(arg) && mark(s.X) {
							changed = true
						}
					}
				}
			}
			return true
		})
	}
	return a
}

func root(e ast.Expr) *ast.Ident {
	for {
		switch x := e.(type) {
		case *ast.Ident:
			return x
		case *ast.SelectorExpr:
			e = x.X
		case *ast.IndexExpr:
			e = x.X
		case *ast.SliceExpr:
			e = x.X
		case *ast.StarExpr:
			e = x.X
		case *ast.ParenExpr:
			e = x.X
		case *ast.UnaryExpr:
			e = x.X
		default:
			return nil
		}
	}
}

// priv reports whether evaluating the node touches private variables only.
func (a *analysis) priv(n ast.Node) bool {
	if n == nil {
		return true
	}
	ok := true
	var walk func(n ast.Node) bool
	walk = func(n ast.Node) bool {
		if !ok {
			return false
		}
		switch x := n.(type) {
		case *ast.FuncLit:
			ok = false
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				ok = false
			}
		case *ast.SelectorExpr:
			ast.Inspect(x.X, walk)
			return false
		case *ast.KeyValueExpr:
			if _, isId := x.Key.(*ast.Ident); !isId {
				ast.Inspect(x.Key, walk)
			}
			ast.Inspect(x.Value, walk)
			return false
		case *ast.Ident:
			switch {
			case x.Obj == nil:
				ok = universe[x.Name] || a.std[x.Name] || a.pkg[x.Name]
			case x.Obj.Kind == ast.Con || x.Obj.Kind == ast.Typ:
			case x.Obj.Kind == ast.Var:
				ok = a.local[x.Obj] && !a.shared[x.Obj]
			default:
				ok = false
			}
		}
		return ok
	}
	ast.Inspect(n, walk)
	return ok
}

// bare reports whether the expression only reads function variables themselves, not what they refer to.
func (a *analysis) bare(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		if x.Obj != nil && x.Obj.Kind == ast.Var {
			return (a.slot[x.Obj] || a.local[x.Obj]) && !a.capt[x.Obj]
		}
		return a.priv(x)
	case *ast.ParenExpr:
		return a.bare(x.X)
	case *ast.UnaryExpr:
		return x.Op != token.ARROW && x.Op != token.AND && a.bare(x.X)
	case *ast.BinaryExpr:
		return a.bare(x.X) && a.bare(x.Y)
	case *ast.CallExpr:
		if id, ok := x.Fun.(*ast.Ident); ok && id.Obj == nil && (id.Name == "len" || id.Name == "cap" || basic[id.Name]) && len(x.Args) == 1 {
			return a.bare(x.Args[0])
		}
	}
	return a.priv(e)
}

func (a *analysis) bares(es []ast.Expr) bool {
	for _, e := range es {
		if !a.bare(e) {
			return false
		}
	}
	return true
}

// privStmt looks at what is evaluated before the first nested statement.
func (a *analysis) privStmt(s ast.Stmt) bool {
	isNil := func(e ast.Expr) bool { return e == nil }
	switch x := s.(type) {
	case *ast.AssignStmt:
		return a.bares(x.Lhs) && a.bares(x.Rhs)
	case *ast.ReturnStmt:
		return a.bares(x.Results)
	case *ast.IncDecStmt:
		return a.bare(x.X)
	case *ast.ExprStmt, *ast.DeclStmt:
		return a.priv(s)
	case *ast.BranchStmt, *ast.BlockStmt:
		return true
	case *ast.IfStmt:
		if x.Init != nil && !a.privStmt(x.Init) || !a.bare(x.Cond) {
			return false
		}
		if e, ok := x.Else.(*ast.IfStmt); ok {
			return a.privStmt(e)
		}
		return true
	case *ast.ForStmt:
		if isNil(x.Cond) {
			return true
		}
		return (x.Init == nil || a.privStmt(x.Init)) && a.bare(x.Cond) && (x.Post == nil || a.privStmt(x.Post))
	case *ast.RangeStmt:
		return a.priv(x.X)
	case *ast.SwitchStmt:
		if x.Init != nil && !a.privStmt(x.Init) || x.Tag != nil && !a.bare(x.Tag) {
			return false
		}
		for _, c := range x.Body.List {
			for _, e := range c.(*ast.CaseClause).List {
				if !a.bare(e) {
					return false
				}
			}
		}
		return true
	}
	return false
}

var pkgNames = map[string]map[string]bool{}

// constsAndTypes lists the package-level constants and types of a directory's files.
func constsAndTypes(dir string) map[string]bool {
	if m, ok := pkgNames[dir]; ok {
		return m
	}
	m := map[string]bool{}
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, fn := range files {
		f, err := parser.ParseFile(token.NewFileSet(), fn, nil, 0)
		if err != nil {
			continue
		}
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok {
				continue
			}
			for _, sp := range g.Specs {
				switch x := sp.(type) {
				case *ast.TypeSpec:
					m[x.Name.Name] = true
				case *ast.ValueSpec:
					if g.Tok == token.CONST {
						for _, n := range x.Names {
							m[n.Name] = true
						}
					}
				}
			}
		}
	}
	pkgNames[dir] = m
	return m
}
