// refac DIR MODE...: rewrite every non-test source file of the module in DIR by behaviour-preserving
// transformations. Used to look for false alarms: checks have to stay quiet on the result.
package main

import (
	"fmt"
	"go/ast"
	"go/format"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

var info *types.Info
var pkg *types.Package
var n int
var fset *token.FileSet

func id(s string) *ast.Ident { return ast.NewIdent(s) }
func fresh(p string) string  { n++; return fmt.Sprintf("%sZ%d", p, n) }

func not(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.UnaryExpr:
		if x.Op == token.NOT {
			return x.X
		}
	case *ast.BinaryExpr:
		m := map[token.Token]token.Token{token.EQL: token.NEQ, token.NEQ: token.EQL}
		if o, ok := m[x.Op]; ok {
			return &ast.BinaryExpr{X: x.X, Op: o, Y: x.Y}
		}
	}
	return &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: e}}
}

func hasBreak(n ast.Node) bool {
	r := false
	ast.Inspect(n, func(x ast.Node) bool {
		switch y := x.(type) {
		case *ast.BranchStmt:
			if y.Tok == token.BREAK || y.Tok == token.FALLTHROUGH || y.Tok == token.GOTO {
				r = true
			}
		}
		return true
	})
	return r
}
func hasTok(n ast.Node, t token.Token) bool {
	r := false
	ast.Inspect(n, func(x ast.Node) bool {
		if y, ok := x.(*ast.BranchStmt); ok && y.Tok == t {
			r = true
		}
		return true
	})
	return r
}

// swap if/else
func swapIf(f ast.Node) {
	astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
		s, ok := c.Node().(*ast.IfStmt)
		if !ok || s.Else == nil {
			return true
		}
		var e *ast.BlockStmt
		switch x := s.Else.(type) {
		case *ast.BlockStmt:
			e = x
		default:
			e = &ast.BlockStmt{List: []ast.Stmt{x}}
		}
		s.Cond = not(s.Cond)
		s.Body, s.Else = e, s.Body
		return true
	})
}

// condition into a variable
func hoistCond(f ast.Node) {
	astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
		s, ok := c.Node().(*ast.IfStmt)
		if !ok || s.Init != nil || c.Index() < 0 {
			return true
		}
		if _, ok := s.Cond.(*ast.Ident); ok {
			return true
		}
		v := fresh("cond")
		c.InsertBefore(&ast.AssignStmt{Lhs: []ast.Expr{id(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{s.Cond}})
		s.Cond = id(v)
		return true
	})
}

// init statement of an if to a block of its own
func splitInit(f ast.Node) {
	astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
		s, ok := c.Node().(*ast.IfStmt)
		if !ok || s.Init == nil {
			return true
		}
		i := s.Init
		s.Init = nil
		c.Replace(&ast.BlockStmt{List: []ast.Stmt{i, s}})
		return true
	})
}

// range over a slice by index
func indexLoop(f ast.Node) {
	astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
		s, ok := c.Node().(*ast.RangeStmt)
		if !ok || s.Tok == token.ASSIGN || s.Key == nil {
			return true
		}
		t := info.TypeOf(s.X)
		if t == nil {
			return true
		}
		if _, ok := t.Underlying().(*types.Slice); !ok {
			return true
		}
		if _, ok := c.Parent().(*ast.LabeledStmt); ok || c.Index() < 0 {
			return true
		}
		xs, k := fresh("list"), fresh("i")
		var pre []ast.Stmt
		if x, ok := s.Key.(*ast.Ident); ok && x.Name != "_" {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id(x.Name)}, Tok: token.DEFINE, Rhs: []ast.Expr{id(k)}})
		}
		if x, ok := s.Value.(*ast.Ident); ok && x.Name != "_" {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id(x.Name)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: id(xs), Index: id(k)}}})
		}
		s.Body.List = append(pre, s.Body.List...)
		c.InsertBefore(&ast.AssignStmt{Lhs: []ast.Expr{id(xs)}, Tok: token.DEFINE, Rhs: []ast.Expr{s.X}})
		c.Replace(&ast.ForStmt{
			Init: &ast.AssignStmt{Lhs: []ast.Expr{id(k)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "0"}}},
			Cond: &ast.BinaryExpr{X: id(k), Op: token.LSS, Y: &ast.CallExpr{Fun: id("len"), Args: []ast.Expr{id(xs)}}},
			Post: &ast.IncDecStmt{X: id(k), Tok: token.INC}, Body: s.Body})
		return true
	})
}

// range over map[k]v: only keys, value by lookup
func keyLoop(f ast.Node) {
	astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
		s, ok := c.Node().(*ast.RangeStmt)
		if !ok || s.Tok == token.ASSIGN || s.Key == nil || s.Value == nil {
			return true
		}
		t := info.TypeOf(s.X)
		if t == nil {
			return true
		}
		if _, ok := t.Underlying().(*types.Map); !ok {
			return true
		}
		if _, ok := c.Parent().(*ast.LabeledStmt); ok || c.Index() < 0 {
			return true
		}
		xs := fresh("table")
		x, _ := s.Key.(*ast.Ident)
		if x.Name == "_" {
			x = id(fresh("key"))
			s.Key = x
		}
		if v, ok := s.Value.(*ast.Ident); ok && v.Name != "_" {
			s.Body.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id(v.Name)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: id(xs), Index: id(x.Name)}}}}, s.Body.List...)
		}
		c.InsertBefore(&ast.AssignStmt{Lhs: []ast.Expr{id(xs)}, Tok: token.DEFINE, Rhs: []ast.Expr{s.X}})
		s.X = id(xs)
		s.Value = nil
		return true
	})
}

// value switch to if chain
func switchIf(f ast.Node) {
	astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
		s, ok := c.Node().(*ast.SwitchStmt)
		if !ok || s.Init != nil || hasBreak(s) || c.Index() < 0 {
			return true
		}
		var tag ast.Expr
		var out []ast.Stmt
		if s.Tag != nil {
			v := fresh("tag")
			out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{id(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{s.Tag}})
			tag = id(v)
		}
		var def *ast.BlockStmt
		var cs []*ast.IfStmt
		for _, x := range s.Body.List {
			cc := x.(*ast.CaseClause)
			b := &ast.BlockStmt{List: cc.Body}
			if cc.List == nil {
				def = b
				continue
			}
			var cond ast.Expr
			for _, e := range cc.List {
				var q ast.Expr = e
				if tag != nil {
					q = &ast.BinaryExpr{X: tag, Op: token.EQL, Y: e}
				}
				if cond == nil {
					cond = q
				} else {
					cond = &ast.BinaryExpr{X: cond, Op: token.LOR, Y: q}
				}
			}
			cs = append(cs, &ast.IfStmt{Cond: cond, Body: b})
		}
		if len(cs) == 0 {
			return true
		}
		for i := 0; i+1 < len(cs); i++ {
			cs[i].Else = cs[i+1]
		}
		if def != nil {
			cs[len(cs)-1].Else = def
		}
		out = append(out, cs[0])
		c.Replace(&ast.BlockStmt{List: out})
		return true
	})
}

// guard clauses to nesting: if c { ...; return }; rest  =>  if c {...;return} else { rest }
func nestRest(f ast.Node) {
	astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
		b, ok := c.Node().(*ast.BlockStmt)
		if !ok {
			return true
		}
		fn, ok := c.Parent().(*ast.FuncDecl)
		if !ok {
			return true
		}
		if hasTok(b, token.GOTO) {
			return true
		}
		res := fn.Type.Results != nil && len(fn.Type.Results.List) > 0
		b.List = nest(b.List, res)
		return true
	})
}
func nest(l []ast.Stmt, res bool) []ast.Stmt {
	for i, s := range l {
		f, ok := s.(*ast.IfStmt)
		if !ok || f.Else != nil || len(f.Body.List) == 0 || i+1 == len(l) {
			continue
		}
		if _, ok := f.Body.List[len(f.Body.List)-1].(*ast.ReturnStmt); !ok {
			continue
		}
		rest := nest(l[i+1:], res)
		if !res {
			f.Body.List = f.Body.List[:len(f.Body.List)-1]
		}
		f.Else = &ast.BlockStmt{List: rest}
		return l[:i+1]
	}
	return l
}

// a == b to b == a, a < b to b > a
func flip(f ast.Node) {
	m := map[token.Token]token.Token{token.EQL: token.EQL, token.NEQ: token.NEQ, token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}
	astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
		if b, ok := c.Node().(*ast.BinaryExpr); ok {
			if o, ok := m[b.Op]; ok {
				if !calls(b.X) || !calls(b.Y) {
					b.X, b.Y, b.Op = b.Y, b.X, o
				}
			}
		}
		return true
	})
}
func calls(e ast.Node) bool {
	r := false
	ast.Inspect(e, func(x ast.Node) bool {
		if _, ok := x.(*ast.CallExpr); ok {
			r = true
		}
		return true
	})
	return r
}

// function F(a) R {body} => F(a) R { return F_impl(a) }
func wrap(f *ast.File) {
	var add []ast.Decl
	for _, d := range f.Decls {
		fn, ok := d.(*ast.FuncDecl)
		if !ok || fn.Body == nil || fn.Name.Name == "init" || fn.Name.Name == "main" || fn.Name.Name == "_" {
			continue
		}
		if fn.Type.TypeParams != nil {
			continue
		}
		good := true
		var args []ast.Expr
		ell := token.NoPos
		for _, p := range fn.Type.Params.List {
			if len(p.Names) == 0 {
				good = false
			}
			for _, m := range p.Names {
				if m.Name == "_" {
					good = false
				}
				args = append(args, id(m.Name))
			}
			if _, ok := p.Type.(*ast.Ellipsis); ok {
				ell = 1
			}
		}
		if fn.Recv != nil && (len(fn.Recv.List[0].Names) == 0 || fn.Recv.List[0].Names[0].Name == "_") {
			good = false
		}
		if !good || ell != token.NoPos {
			continue
		}
		name := fn.Name.Name + "Impl"
		g := &ast.FuncDecl{Recv: fn.Recv, Name: id(name), Type: fn.Type, Body: fn.Body}
		add = append(add, g)
		var fun ast.Expr = id(name)
		if fn.Recv != nil {
			fun = &ast.SelectorExpr{X: id(fn.Recv.List[0].Names[0].Name), Sel: id(name)}
		}
		call := &ast.CallExpr{Fun: fun, Args: args}
		if fn.Type.Results != nil && len(fn.Type.Results.List) > 0 {
			fn.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{call}}}}
		} else {
			fn.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}
		}
	}
	f.Decls = append(f.Decls, add...)
}

func isCall(e ast.Expr) bool {
	c, ok := e.(*ast.CallExpr)
	if !ok {
		return false
	}
	if tv, ok := info.Types[c.Fun]; ok && (tv.IsType() || tv.IsBuiltin()) {
		return false
	}
	t := info.TypeOf(c)
	if t == nil {
		return false
	}
	if _, ok := t.(*types.Tuple); ok {
		return false
	}
	return true
}

// arguments of calls and operands into variables
func temps(f ast.Node) {
	astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
		if c.Index() < 0 {
			return true
		}
		if _, ok := c.Parent().(*ast.BlockStmt); !ok {
			if _, ok := c.Parent().(*ast.CaseClause); !ok {
				return true
			}
		}
		var call *ast.CallExpr
		switch s := c.Node().(type) {
		case *ast.ExprStmt:
			call, _ = s.X.(*ast.CallExpr)
		case *ast.AssignStmt:
			if len(s.Rhs) == 1 {
				call, _ = s.Rhs[0].(*ast.CallExpr)
			}
		case *ast.ReturnStmt:
			for i, e := range s.Results {
				if isCall(e) && len(s.Results) == 1 {
					v := fresh("res")
					c.InsertBefore(&ast.AssignStmt{Lhs: []ast.Expr{id(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
					s.Results[i] = id(v)
				}
			}
			return true
		}
		if call == nil {
			return true
		}
		if tv, ok := info.Types[call.Fun]; ok && (tv.IsType() || tv.IsBuiltin()) {
			return true
		}
		nc := 0
		for _, a := range call.Args {
			if calls(a) {
				nc++
			}
		}
		if nc != 1 {
			return true
		}
		for i, a := range call.Args {
			if isCall(a) {
				v := fresh("arg")
				c.InsertBefore(&ast.AssignStmt{Lhs: []ast.Expr{id(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
				call.Args[i] = id(v)
			}
		}
		return true
	})
}

// x.A.B.C on pointers: local variable for x.A at the top of the function (x a pointer parameter, A a pointer field never assigned in the function)
func alias(f ast.Node) {
	for _, d := range f.(*ast.File).Decls {
		fn, ok := d.(*ast.FuncDecl)
		if !ok || fn.Body == nil {
			continue
		}
		params := map[types.Object]bool{}
		fl := append([]*ast.Field{}, fn.Type.Params.List...)
		if fn.Recv != nil {
			fl = append(fl, fn.Recv.List...)
		}
		for _, p := range fl {
			for _, m := range p.Names {
				if o := info.Defs[m]; o != nil {
					if _, ok := o.Type().Underlying().(*types.Pointer); ok {
						params[o] = true
					}
				}
			}
		}
		key := func(e ast.Expr) string {
			s, ok := e.(*ast.SelectorExpr)
			if !ok {
				return ""
			}
			x, ok := s.X.(*ast.Ident)
			if !ok || !params[info.Uses[x]] {
				return ""
			}
			if sel := info.Selections[s]; sel == nil || sel.Kind() != types.FieldVal {
				return ""
			}
			if t := info.TypeOf(s); t != nil {
				if _, ok := t.Underlying().(*types.Pointer); ok {
					return x.Name + "." + s.Sel.Name
				}
			}
			return ""
		}
		bad := map[string]bool{}
		count := map[string]int{}
		first := map[string]ast.Expr{}
		ast.Inspect(fn.Body, func(x ast.Node) bool {
			switch y := x.(type) {
			case *ast.AssignStmt:
				for _, l := range y.Lhs {
					if k := key(l); k != "" {
						bad[k] = true
					}
					if i, ok := l.(*ast.Ident); ok {
						for p := range params {
							if p.Name() == i.Name {
								for k := range count {
									bad[k] = true
								}
							}
						}
					}
				}
			case *ast.UnaryExpr:
				if k := key(y.X); k != "" && y.Op == token.AND {
					bad[k] = true
				}
			case *ast.SelectorExpr:
				if k := key(y); k != "" {
					count[k]++
					if first[k] == nil {
						first[k] = &ast.SelectorExpr{X: id(y.X.(*ast.Ident).Name), Sel: id(y.Sel.Name)}
					}
				}
			}
			return true
		})
		// fields set by callees (set-up functions): skip Client
		names := map[string]string{}
		for k, c := range count {
			if c >= 2 && !bad[k] && !strings.HasSuffix(k, ".Client") {
				names[k] = fresh(k[strings.Index(k, ".")+1:])
			}
		}
		if len(names) == 0 {
			continue
		}
		astutil.Apply(fn.Body, nil, func(c *astutil.Cursor) bool {
			if e, ok := c.Node().(ast.Expr); ok {
				if k := key(e); names[k] != "" {
					c.Replace(id(names[k]))
				}
			}
			return true
		})
		var pre []ast.Stmt
		for k, v := range names {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{first[k]}})
		}
		fn.Body.List = append(pre, fn.Body.List...)
	}
}

// && and || to nested ifs (no else): if a && b {X} => if a { if b {X} }
func splitAnd(f ast.Node) {
	astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
		s, ok := c.Node().(*ast.IfStmt)
		if !ok || s.Else != nil {
			return true
		}
		for {
			b, ok := s.Cond.(*ast.BinaryExpr)
			if !ok || b.Op != token.LAND {
				return true
			}
			s.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.IfStmt{Cond: b.Y, Body: s.Body}}}
			s.Cond = b.X
		}
	})
}

// critical sections in a closure with deferred unlock:  x.Lock(); A; x.Unlock() (A: no return/branch/definition used later)
func closureLock(f ast.Node) {
	astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
		b, ok := c.Node().(*ast.BlockStmt)
		if !ok {
			return true
		}
		for i := 0; i < len(b.List); i++ {
			r, k := lockCall(b.List[i])
			if k != "Lock" && k != "RLock" {
				continue
			}
			for j := i + 1; j < len(b.List); j++ {
				r2, k2 := lockCall(b.List[j])
				if r2 == r && (k2 == "Unlock" || k2 == "RUnlock") {
					good := true
					for _, s := range b.List[i+1 : j] {
						ast.Inspect(s, func(x ast.Node) bool {
							switch y := x.(type) {
							case *ast.ReturnStmt, *ast.BranchStmt, *ast.DeferStmt, *ast.DeclStmt:
								good = false
							case *ast.AssignStmt:
								if y.Tok == token.DEFINE {
									good = false
								}
							case *ast.FuncLit:
								return false
							}
							return true
						})
					}
					if good {
						body := append([]ast.Stmt{b.List[i], &ast.DeferStmt{Call: b.List[j].(*ast.ExprStmt).X.(*ast.CallExpr)}}, b.List[i+1:j]...)
						st := &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}}}}
						l := append([]ast.Stmt{}, b.List[:i]...)
						l = append(l, st)
						b.List = append(l, b.List[j+1:]...)
					}
					break
				}
			}
		}
		return true
	})
}
func lockCall(s ast.Stmt) (string, string) {
	e, ok := s.(*ast.ExprStmt)
	if !ok {
		return "", ""
	}
	c, ok := e.X.(*ast.CallExpr)
	if !ok {
		return "", ""
	}
	x, ok := c.Fun.(*ast.SelectorExpr)
	if !ok {
		return "", ""
	}
	return types.ExprString(x.X), x.Sel.Name
}

// every if body (without control flow and definitions visible outside) becomes a helper closure
func closureIf(f ast.Node) {
	astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
		var b *ast.BlockStmt
		switch s := c.Node().(type) {
		case *ast.IfStmt:
			b = s.Body
		default:
			return true
		}
		good := len(b.List) > 0
		for _, s := range b.List {
			ast.Inspect(s, func(x ast.Node) bool {
				switch x.(type) {
				case *ast.ReturnStmt, *ast.BranchStmt, *ast.DeferStmt:
					good = false
				case *ast.FuncLit:
					return false
				}
				return true
			})
		}
		if good {
			v := fresh("step")
			st := b.List
			b.List = []ast.Stmt{
				&ast.AssignStmt{Lhs: []ast.Expr{id(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: st}}}},
				&ast.ExprStmt{X: &ast.CallExpr{Fun: id(v)}}}
		}
		return true
	})
}

// string concatenation a + b + c of idents/selectors to strings.Join? uses fmt-free helper: keep operands order
func joinConcat(f *ast.File) {
	used := false
	depth := map[ast.Node]bool{}
	astutil.Apply(f, func(c *astutil.Cursor) bool {
		if _, ok := c.Node().(*ast.GenDecl); ok {
			if _, top := c.Parent().(*ast.File); top {
				return false
			}
		}
		b, ok := c.Node().(*ast.BinaryExpr)
		if !ok || b.Op != token.ADD || depth[b] {
			return true
		}
		t := info.TypeOf(b)
		if t == nil {
			return true
		}
		if tv := info.Types[b]; tv.Value != nil {
			return true
		}
		bt, ok := t.(*types.Basic)
		if !ok || bt.Kind() != types.String {
			return true
		}
		var ops []ast.Expr
		var flat func(e ast.Expr)
		flat = func(e ast.Expr) {
			if x, ok := e.(*ast.BinaryExpr); ok && x.Op == token.ADD {
				flat(x.X)
				flat(x.Y)
				return
			}
			ops = append(ops, e)
		}
		flat(b)
		used = true
		c.Replace(&ast.CallExpr{Fun: &ast.SelectorExpr{X: id("strings"), Sel: id("Join")}, Args: []ast.Expr{
			&ast.CompositeLit{Type: &ast.ArrayType{Elt: id("string")}, Elts: ops}, &ast.BasicLit{Kind: token.STRING, Value: `""`}}})
		return false
	}, nil)
	if used {
		has := false
		for _, i := range f.Imports {
			if i.Path.Value == `"strings"` {
				has = true
			}
		}
		if !has {
			astutil.AddImport(fset, f, "strings")
		}
	}
}

// string concatenation a + b + c to fmt.Sprintf("%s%s%s", a, b, c)
func sprintfConcat(f *ast.File) {
	used := false
	astutil.Apply(f, func(c *astutil.Cursor) bool {
		if _, ok := c.Node().(*ast.GenDecl); ok {
			if _, top := c.Parent().(*ast.File); top {
				return false
			}
		}
		b, ok := c.Node().(*ast.BinaryExpr)
		if !ok || b.Op != token.ADD {
			return true
		}
		t := info.TypeOf(b)
		if t == nil {
			return true
		}
		if tv := info.Types[b]; tv.Value != nil {
			return true
		}
		bt, ok := t.(*types.Basic)
		if !ok || bt.Kind() != types.String {
			return true
		}
		var ops []ast.Expr
		var flat func(e ast.Expr)
		flat = func(e ast.Expr) {
			if x, ok := e.(*ast.BinaryExpr); ok && x.Op == token.ADD {
				flat(x.X)
				flat(x.Y)
				return
			}
			ops = append(ops, e)
		}
		flat(b)
		used = true
		args := []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"` + strings.Repeat("%s", len(ops)) + `"`}}
		c.Replace(&ast.CallExpr{Fun: &ast.SelectorExpr{X: id("fmt"), Sel: id("Sprintf")}, Args: append(args, ops...)})
		return false
	}, nil)
	if used {
		has := false
		for _, i := range f.Imports {
			if i.Path.Value == `"fmt"` {
				has = true
			}
		}
		if !has {
			astutil.AddImport(fset, f, "fmt")
		}
	}
}

// free local variables of a region; ok is false if one is assigned, its address taken, or its type cannot be written here
func free(f *ast.File, region []ast.Node) (names []string, typs []string, ok bool) {
	ok = true
	imports := map[string]string{}
	for _, i := range f.Imports {
		p := strings.Trim(i.Path.Value, `"`)
		if i.Name != nil {
			imports[p] = i.Name.Name
		} else {
			imports[p] = ""
		}
	}
	inside := map[types.Object]bool{}
	for _, r := range region {
		ast.Inspect(r, func(x ast.Node) bool {
			if i, q := x.(*ast.Ident); q {
				if o := info.Defs[i]; o != nil {
					inside[o] = true
				}
			}
			if c, q := x.(*ast.CaseClause); q {
				if o := info.Implicits[c]; o != nil {
					inside[o] = true
				}
			}
			return true
		})
	}
	seen := map[types.Object]bool{}
	local := func(i *ast.Ident) *types.Var {
		o, q := info.Uses[i].(*types.Var)
		if !q || o.IsField() || inside[o] || o.Parent() == nil || o.Parent() == pkg.Scope() || o.Pkg() != pkg {
			return nil
		}
		return o
	}
	root := func(e ast.Expr) *ast.Ident {
		for {
			switch x := e.(type) {
			case *ast.Ident:
				return x
			case *ast.SelectorExpr:
				if t := info.TypeOf(x.X); t != nil {
					if _, p := t.Underlying().(*types.Pointer); p {
						return nil
					}
				}
				e = x.X
			case *ast.IndexExpr:
				if t := info.TypeOf(x.X); t != nil {
					if _, p := t.Underlying().(*types.Array); !p {
						return nil
					}
				}
				e = x.X
			case *ast.ParenExpr:
				e = x.X
			default:
				return nil
			}
		}
	}
	bad := func(e ast.Expr) {
		if i := root(e); i != nil && i.Name != "_" && local(i) != nil {
			ok = false
		}
	}
	for _, r := range region {
		ast.Inspect(r, func(x ast.Node) bool {
			switch y := x.(type) {
			case *ast.Ident:
				if info.Uses[y] == nil && info.Defs[y] == nil && y.Name != "_" {
					ok = false // introduced by an earlier rewriting
				}
				if o := local(y); o != nil && !seen[o] {
					seen[o] = true
					t := types.TypeString(o.Type(), func(p *types.Package) string {
						if p == pkg {
							return ""
						}
						n, q := imports[p.Path()]
						if !q {
							ok = false
						}
						if n == "" {
							n = p.Name()
						}
						return n
					})
					names, typs = append(names, o.Name()), append(typs, t)
				}
			case *ast.AssignStmt:
				for _, l := range y.Lhs {
					bad(l)
				}
			case *ast.IncDecStmt:
				bad(y.X)
			case *ast.UnaryExpr:
				if y.Op == token.AND {
					bad(y.X)
				}
			case *ast.SelectorExpr:
				// method with pointer receiver on an addressable local takes its address
				if sel := info.Selections[y]; sel != nil && sel.Kind() == types.MethodVal {
					if sg, q := sel.Obj().Type().(*types.Signature); q && sg.Recv() != nil {
						if _, p := sg.Recv().Type().(*types.Pointer); p {
							if t := info.TypeOf(y.X); t != nil {
								if _, p := t.Underlying().(*types.Pointer); !p {
									bad(y.X)
								}
							}
						}
					}
				}
			case *ast.RangeStmt:
				if y.Tok == token.ASSIGN {
					ok = false
				}
			case *ast.FuncLit:
				ok = false
			}
			return true
		})
	}
	for _, t := range typs {
		if strings.Contains(t, "sync.") && !strings.HasPrefix(t, "*") {
			ok = false
		}
	}
	return
}

func helper(f *ast.File, base string, region []ast.Node, body []ast.Stmt, result string) *ast.CallExpr {
	names, typs, ok := free(f, region)
	if !ok {
		return nil
	}
	var ps []*ast.Field
	var args []ast.Expr
	for i, m := range names {
		ps = append(ps, &ast.Field{Names: []*ast.Ident{id(m)}, Type: id(typs[i])})
		args = append(args, id(m))
	}
	ft := &ast.FuncType{Params: &ast.FieldList{List: ps}}
	if result != "" {
		ft.Results = &ast.FieldList{List: []*ast.Field{{Type: id(result)}}}
	}
	name := fresh(base)
	f.Decls = append(f.Decls, &ast.FuncDecl{Name: id(name), Type: ft, Body: &ast.BlockStmt{List: body}})
	return &ast.CallExpr{Fun: id(name), Args: args}
}

func eachFunc(f *ast.File, g func(fn *ast.FuncDecl)) {
	for _, d := range append([]ast.Decl{}, f.Decls...) {
		if fn, ok := d.(*ast.FuncDecl); ok && fn.Body != nil && fn.Type.TypeParams == nil {
			g(fn)
		}
	}
}

// conditions into boolean helpers
func helperCond(f *ast.File) {
	eachFunc(f, func(fn *ast.FuncDecl) {
		astutil.Apply(fn.Body, nil, func(c *astutil.Cursor) bool {
			s, ok := c.Node().(*ast.IfStmt)
			if !ok {
				return true
			}
			if _, ok := s.Cond.(*ast.Ident); ok {
				return true
			}
			if call := helper(f, "check", []ast.Node{s.Cond}, []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{s.Cond}}}, "bool"); call != nil {
				s.Cond = call
			}
			return true
		})
	})
}

func leaves(l []ast.Stmt) bool {
	r := false
	for _, s := range l {
		ast.Inspect(s, func(x ast.Node) bool {
			switch x.(type) {
			case *ast.ReturnStmt, *ast.BranchStmt, *ast.DeferStmt:
				r = true
			}
			return true
		})
	}
	return r
}

// bodies of if, case and loops into helper functions
func helperBody(f *ast.File, loops bool) {
	eachFunc(f, func(fn *ast.FuncDecl) {
		astutil.Apply(fn.Body, nil, func(c *astutil.Cursor) bool {
			var l *[]ast.Stmt
			switch s := c.Node().(type) {
			case *ast.IfStmt:
				if !loops {
					l = &s.Body.List
				}
			case *ast.CaseClause:
				if !loops {
					l = &s.Body
				}
			case *ast.RangeStmt:
				if loops {
					l = &s.Body.List
				}
			case *ast.ForStmt:
				if loops {
					l = &s.Body.List
				}
			}
			if l == nil || len(*l) == 0 || leaves(*l) {
				return true
			}
			var reg []ast.Node
			for _, s := range *l {
				reg = append(reg, s)
			}
			if call := helper(f, "step", reg, *l, ""); call != nil {
				*l = []ast.Stmt{&ast.ExprStmt{X: call}}
			}
			return true
		})
	})
}

func main() {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: os.Args[1], Tests: false}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		panic(err)
	}
	for _, p := range ps {
		info, pkg, fset = p.TypesInfo, p.Types, p.Fset
		for i, f := range p.Syntax {
			name := p.CompiledGoFiles[i]
			for _, m := range os.Args[2:] {
				switch m {
				case "swap":
					swapIf(f)
				case "hoist":
					hoistCond(f)
				case "init":
					splitInit(f)
				case "index":
					indexLoop(f)
				case "key":
					keyLoop(f)
				case "switch":
					switchIf(f)
				case "nest":
					nestRest(f)
				case "flip":
					flip(f)
				case "wrap":
					wrap(f)
				case "temps":
					temps(f)
				case "alias":
					alias(f)
				case "and":
					splitAnd(f)
				case "lock":
					closureLock(f)
				case "closure":
					closureIf(f)
				case "join":
					joinConcat(f)
				case "hcond":
					helperCond(f)
				case "hbody":
					helperBody(f, false)
				case "hloop":
					helperBody(f, true)
				case "sprintf":
					sprintfConcat(f)
				default:
					panic(m)
				}
			}
			f.Comments = nil
			ast.Inspect(f, func(x ast.Node) bool {
				switch y := x.(type) {
				case *ast.FuncDecl:
					y.Doc = nil
				case *ast.GenDecl:
					y.Doc = nil
				case *ast.Field:
					y.Doc, y.Comment = nil, nil
				case *ast.ValueSpec:
					y.Doc, y.Comment = nil, nil
				}
				return true
			})
			o, err := os.Create(name)
			if err != nil {
				panic(err)
			}
			if err := format.Node(o, p.Fset, f); err != nil {
				fmt.Println(name, err)
			}
			o.Close()
		}
	}
}
