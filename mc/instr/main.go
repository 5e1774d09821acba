// instr REPO OUT: writes instrumented copies of REPO's non-test Go files and an overlay for go build.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const pkg = "vsched__"

// all puts a scheduling point before every statement, also those that touch private variables only
var all = os.Getenv("MC_ALLPOINTS") != ""

var shims = map[string]bool{"Mutex": true, "RWMutex": true, "Once": true, "Map": true, "Pool": true, "OnceFunc": true, "OnceValue": true, "OnceValues": true}

type edit struct {
	at, end int
	text    string
}

func main() {
	repo, out := os.Args[1], os.Args[2]
	must(os.MkdirAll(out, 0o755))
	overlay := map[string]string{}
	points := 0
	must(filepath.WalkDir(repo, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, p)
		if d.IsDir() {
			b := d.Name()
			if rel != "." && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor" || b == "examples") {
				return filepath.SkipDir
			}
			if rel != "." {
				if _, err := os.Stat(filepath.Join(p, "go.mod")); err == nil {
					return filepath.SkipDir
				}
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		res, n, err := instrument(p, src)
		if err != nil {
			return err
		}
		if res == nil {
			return nil
		}
		points += n
		f := filepath.Join(out, strconv.Itoa(len(overlay))+"_"+filepath.Base(p))
		overlay[p] = f
		return os.WriteFile(f, res, 0o644)
	}))
	b, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	must(os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644))
	fmt.Printf("instrumented %d files, %d scheduling points\n", len(overlay), points)
}

func must(err error) {
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
}

func instrument(name string, src []byte) ([]byte, int, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, 0, err
	}
	if f.Name.Name == "main" {
		return nil, 0, nil
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var edits []edit
	add := func(p token.Pos, t string) { edits = append(edits, edit{off(p), off(p), t}) }
	n := 0
	syncName := ""
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` {
			syncName = "sync"
			if im.Name != nil {
				syncName = im.Name.Name
			}
		}
	}
	usedSync := false
	an := analyse(f, constsAndTypes(filepath.Dir(name)))
	list := func(ss []ast.Stmt, entry bool) {
		for i, st := range ss {
			switch st.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			if entry && i == 0 {
				add(st.Pos(), pkg+".Y(); ")
				n++
				continue
			}
			if !all && an.privStmt(st) {
				continue
			}
			add(st.Pos(), pkg+".F(); ")
			n++
		}
	}
	bodies := map[*ast.BlockStmt]bool{}
	comm, pair := map[ast.Node]bool{}, map[*ast.UnaryExpr]bool{}
	paired := func(l int, rhs []ast.Expr) {
		if l == 2 && len(rhs) == 1 {
			if u, ok := ast.Unparen(rhs[0]).(*ast.UnaryExpr); ok {
				pair[u] = true
			}
		}
	}
	ast.Inspect(f, func(nd ast.Node) bool {
		switch x := nd.(type) {
		case *ast.FuncDecl:
			if x.Body != nil {
				bodies[x.Body] = true
			}
		case *ast.FuncLit:
			bodies[x.Body] = true
		case *ast.BlockStmt:
			list(x.List, bodies[x])
		case *ast.CaseClause:
			list(x.Body, false)
		case *ast.CommClause:
			list(x.Body, false)
			switch c := x.Comm.(type) {
			case *ast.SendStmt:
				comm[c] = true
			case *ast.ExprStmt:
				comm[ast.Unparen(c.X)] = true
			case *ast.AssignStmt:
				comm[ast.Unparen(c.Rhs[0])] = true
			}
			if x.Comm != nil {
				add(x.Colon+1, " "+pkg+".Moved(); ")
			}
		case *ast.AssignStmt:
			paired(len(x.Lhs), x.Rhs)
		case *ast.ValueSpec:
			paired(len(x.Names), x.Values)
		case *ast.SendStmt:
			if !comm[x] {
				add(x.Pos(), pkg+".Send(")
				edits = append(edits, edit{off(x.Chan.End()), off(x.Value.Pos()), ")("})
				add(x.End(), ")")
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && !comm[x] {
				f := ".Recv("
				if pair[x] {
					f = ".Recv2("
				}
				edits = append(edits, edit{off(x.Pos()), off(x.X.Pos()), pkg + f})
				add(x.End(), ")")
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "close" && id.Obj == nil && len(x.Args) == 1 {
				edits = append(edits, edit{off(id.Pos()), off(id.End()), pkg + ".Close"})
			}
		case *ast.ForStmt:
			if x.Cond == nil || !an.bare(x.Cond) || x.Post != nil && !an.privStmt(x.Post) {
				add(x.Body.Rbrace, "; "+pkg+".F(); ")
			}
		case *ast.GoStmt:
			if fl, ok := x.Call.Fun.(*ast.FuncLit); ok && len(x.Call.Args) == 0 {
				edits = append(edits, edit{off(x.Go), off(fl.Pos()), pkg + ".Go("})
				edits = append(edits, edit{off(fl.End()), off(x.Call.End()), ")"})
			} else if id, ok := x.Call.Fun.(*ast.Ident); !ok || id.Obj != nil || !universe[id.Name] && id.Name != "close" && id.Name != "panic" && id.Name != "print" && id.Name != "println" && id.Name != "recover" {
				name := ".GoCall("
				if x.Call.Ellipsis.IsValid() {
					name = ".GoSpread("
					edits = append(edits, edit{off(x.Call.Ellipsis), off(x.Call.Ellipsis) + 3, ""})
				}
				edits = append(edits, edit{off(x.Go), off(x.Call.Fun.Pos()), pkg + name})
				t := ""
				if len(x.Call.Args) > 0 {
					t = ", "
				}
				edits = append(edits, edit{off(x.Call.Fun.End()), off(x.Call.Lparen) + 1, t})
			}
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok && syncName != "" && id.Name == syncName && id.Obj == nil {
				if shims[x.Sel.Name] {
					edits = append(edits, edit{off(id.Pos()), off(id.End()), pkg})
					usedSync = true
				}
			}
		}
		return true
	})
	if len(edits) == 0 {
		return nil, 0, nil
	}
	add(f.Name.End(), "; import "+pkg+` "gofremc/vsched"`)
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].at < edits[j].at })
	var out bytes.Buffer
	pos := 0
	for _, e := range edits {
		if e.at < pos {
			continue
		}
		out.Write(src[pos:e.at])
		out.WriteString(e.text)
		pos = e.end
	}
	out.Write(src[pos:])
	if usedSync {
		fmt.Fprintf(&out, "\nvar _ %s.Locker\n", syncName)
	}
	return out.Bytes(), n, nil
}
