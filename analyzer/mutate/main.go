// mutate DIR list | mutate DIR apply N: enumerate small semantic changes of the module's non-test sources.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

var info *types.Info
var fset *token.FileSet
var want = -1
var count int
var desc, file string

// do: is this the change to make?
func do(n ast.Node, f string, a ...any) bool {
	k := count
	count++
	p := fset.Position(n.Pos())
	d := fmt.Sprintf("%d\t%s:%d\t%s", k, p.Filename, p.Line, fmt.Sprintf(f, a...))
	if want < 0 {
		fmt.Println(d)
		return false
	}
	if k == want {
		desc, file = d, p.Filename
		return true
	}
	return false
}

func str(n ast.Node) string {
	var b bytes.Buffer
	format.Node(&b, fset, n)
	s := strings.Join(strings.Fields(b.String()), " ")
	if len(s) > 110 {
		s = s[:110]
	}
	return s
}

func noise(n ast.Node) bool {
	s := str(n)
	return strings.HasPrefix(s, "fmt.Print") || strings.HasPrefix(s, "log.Print") || strings.Contains(s, "Total_traffic") || strings.Contains(s, "Counter") || strings.Contains(s, "onverge") || strings.Contains(s, "Timerlist") || strings.Contains(s, "time.Sleep")
}

func mutate(f *ast.File) {
	astutil.Apply(f, func(c *astutil.Cursor) bool {
		switch x := c.Node().(type) {
		case *ast.CallExpr:
			if s, ok := x.Fun.(*ast.SelectorExpr); ok {
				if i, ok := s.X.(*ast.Ident); ok && (i.Name == "fmt" || i.Name == "log") && strings.HasPrefix(s.Sel.Name, "Print") {
					return false
				}
			}
		case *ast.GenDecl:
			if x.Tok == token.IMPORT || x.Tok == token.TYPE {
				return false
			}
		}
		return true
	}, func(c *astutil.Cursor) bool {
		n := c.Node()
		if s, ok := n.(ast.Stmt); ok && c.Index() >= 0 && !noise(s) {
			switch x := s.(type) {
			case *ast.ExprStmt:
				if do(n, "delete %s", str(n)) {
					c.Delete()
					return true
				}
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE && do(n, "delete %s", str(n)) {
					c.Delete()
					return true
				}
			case *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt:
				if do(n, "delete %s", str(n)) {
					c.Delete()
					return true
				}
			case *ast.BranchStmt:
				if (x.Tok == token.CONTINUE || x.Tok == token.BREAK) && do(n, "delete %s", str(n)) {
					c.Delete()
					return true
				}
			case *ast.ReturnStmt:
				if len(x.Results) == 0 && do(n, "delete return") {
					c.Delete()
					return true
				}
			case *ast.IfStmt:
				if x.Else == nil && do(n, "delete if %s {...}", str(x.Cond)) {
					c.Delete()
					return true
				}
			}
		}
		switch x := n.(type) {
		case *ast.IfStmt:
			if !noise(x.Cond) {
				if do(n, "negate %s", str(x.Cond)) {
					x.Cond = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: x.Cond}}
				}
				if x.Else != nil && do(n, "always %s", str(x.Cond)) {
					x.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: x.Cond}, Op: token.LOR, Y: ast.NewIdent("true")}
				}
			}
		case *ast.BinaryExpr:
			switch x.Op {
			case token.LAND, token.LOR:
				o := token.LAND
				if x.Op == token.LAND {
					o = token.LOR
				}
				if do(n, "%s instead of %s in %s", o, x.Op, str(n)) {
					x.Op = o
				}
				if do(n, "only left of %s", str(n)) {
					c.Replace(x.X)
				}
				if do(n, "only right of %s", str(n)) {
					c.Replace(x.Y)
				}
			case token.LSS:
				if do(n, "<= in %s", str(n)) {
					x.Op = token.LEQ
				}
			case token.LEQ:
				if do(n, "< in %s", str(n)) {
					x.Op = token.LSS
				}
			case token.GTR:
				if do(n, ">= in %s", str(n)) {
					x.Op = token.GEQ
				}
			case token.GEQ:
				if do(n, "> in %s", str(n)) {
					x.Op = token.GTR
				}
			case token.EQL:
				if _, ok := c.Parent().(*ast.IfStmt); !ok {
					if do(n, "!= in %s", str(n)) {
						x.Op = token.NEQ
					}
				}
			case token.NEQ:
				if _, ok := c.Parent().(*ast.IfStmt); !ok {
					if do(n, "== in %s", str(n)) {
						x.Op = token.EQL
					}
				}
			case token.ADD:
				if t := info.TypeOf(x); t != nil && types.Identical(t.Underlying(), types.Typ[types.String]) && !noise(x) {
					if do(n, "drop right of %s", str(n)) {
						c.Replace(x.X)
					}
				}
			}
		case *ast.SelectorExpr:
			if i, ok := x.X.(*ast.Ident); ok && i.Name == "definition" {
				names := []string{"STH_INIT", "REV_INIT", "ACC_INIT", "CON_INIT", "STH_FRAG", "REV_FRAG", "ACC_FRAG", "STH_FULL", "REV_FULL", "ACC_FULL"}
				for k, m := range names {
					if x.Sel.Name == m {
						r := names[(k+1)%len(names)]
						if do(n, "%s instead of %s", r, m) {
							x.Sel = ast.NewIdent(r)
						}
						break
					}
				}
			}
			// another field of the same type
			if sel := info.Selections[x]; sel != nil && sel.Kind() == types.FieldVal {
				if st, ok := deref(sel.Recv()).Underlying().(*types.Struct); ok {
					for k := 0; k < st.NumFields(); k++ {
						g := st.Field(k)
						if g.Name() != x.Sel.Name && types.Identical(g.Type(), sel.Type()) && (g.Exported() || g.Pkg() == nil) {
							if do(n, "field %s instead of %s", g.Name(), str(n)) {
								x.Sel = ast.NewIdent(g.Name())
							}
							break
						}
					}
				}
			}
			if x.Sel.Name == "Lock" && do(n, "RLock? %s", str(n)) {
				x.Sel = ast.NewIdent("RLock")
			}
		case *ast.IndexExpr:
			if l, ok := x.Index.(*ast.BasicLit); ok && l.Kind == token.INT {
				v, _ := strconv.Atoi(l.Value)
				nv := v + 1
				if v > 0 {
					nv = v - 1
				}
				if do(n, "index %d in %s", nv, str(n)) {
					l.Value = strconv.Itoa(nv)
				}
			}
		case *ast.BasicLit:
			if _, ok := c.Parent().(*ast.IndexExpr); ok {
				return true
			}
			if x.Kind == token.INT {
				if v, err := strconv.Atoi(x.Value); err == nil && v < 100000 {
					if do(n, "%d instead of %d in %s", v+1, v, str(c.Parent())) {
						x.Value = strconv.Itoa(v + 1)
					}
				}
			}
			if x.Kind == token.STRING && len(x.Value) > 3 {
				if _, ok := c.Parent().(*ast.ImportSpec); !ok {
					if _, ok := c.Parent().(*ast.Field); !ok && !strings.HasPrefix(x.Value, "`") {
						if do(n, "string changed %s", x.Value) {
							x.Value = x.Value[:len(x.Value)-1] + "x\""
						}
					}
				}
			}
		case *ast.Ident:
			if (x.Name == "true" || x.Name == "false") && info.Uses[x] != nil {
				if do(n, "not %s in %s", x.Name, str(c.Parent())) {
					if x.Name == "true" {
						x.Name = "false"
					} else {
						x.Name = "true"
					}
				}
			}
		case *ast.CallExpr:
			if len(x.Args) >= 2 && x.Ellipsis == token.NoPos {
				for k := 0; k+1 < len(x.Args); k++ {
					a, b := info.TypeOf(x.Args[k]), info.TypeOf(x.Args[k+1])
					if a != nil && b != nil && types.Identical(a, b) {
						if do(n, "swap arguments %d of %s", k, str(n)) {
							x.Args[k], x.Args[k+1] = x.Args[k+1], x.Args[k]
						}
					}
				}
			}
		}
		return true
	})
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func main() {
	dir := os.Args[1]
	if os.Args[2] == "apply" {
		want, _ = strconv.Atoi(os.Args[3])
	}
	ps, err := packages.Load(&packages.Config{Mode: packages.LoadAllSyntax, Dir: dir}, "./...")
	if err != nil {
		panic(err)
	}
	for _, p := range ps {
		b := filepath.Base(p.PkgPath)
		switch b {
		case "gossiper", "monitor", "client", "CA", "Logger", "crypto", "definition", "util", "Gen":
		default:
			continue
		}
		info, fset = p.TypesInfo, p.Fset
		for i, f := range p.Syntax {
			if strings.HasSuffix(p.CompiledGoFiles[i], "IPmapping.go") {
				continue
			}
			mutate(f)
			if file != "" {
				f.Comments = nil
				o, err := os.Create(file)
				if err != nil {
					panic(err)
				}
				format.Node(o, fset, f)
				o.Close()
				fmt.Println(desc)
				return
			}
		}
	}
}
