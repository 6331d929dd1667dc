package main

// Loading and resolving the program under analysis.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/jik18001/CTngV2"

var repoDirs = []string{"CA", "Gen", "Logger", "client", "crypto", "definition", "gossiper", "monitor", "util"}

type Prog struct {
	dir   string
	fset  *token.FileSet
	prog  *ssa.Program
	pkgs  map[string]*ssa.Package
	lpkgs map[string]*packages.Package
	ginit map[string]*Term
	nfn   int
}

func loadProg(dir string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo,
		Dir:  dir,
		Env:  append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local"),
	}
	var pats []string
	for _, d := range repoDirs {
		pats = append(pats, "./"+d)
	}
	lp, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	p := &Prog{dir: dir, pkgs: map[string]*ssa.Package{}, lpkgs: map[string]*packages.Package{}}
	for _, x := range lp {
		if len(x.Errors) > 0 {
			return nil, fmt.Errorf("%s: %v", x.PkgPath, x.Errors[0])
		}
		p.lpkgs[strings.TrimPrefix(x.PkgPath, modPath+"/")] = x
		p.fset = x.Fset
	}
	prog, sp := ssautil.Packages(lp, ssa.InstantiateGenerics)
	prog.Build()
	p.prog = prog
	for i, x := range sp {
		if x == nil {
			return nil, fmt.Errorf("no SSA for %s", lp[i].PkgPath)
		}
		p.pkgs[strings.TrimPrefix(lp[i].PkgPath, modPath+"/")] = x
	}
	for _, d := range repoDirs {
		if p.pkgs[d] == nil {
			return nil, fmt.Errorf("package %s not loaded", d)
		}
	}
	p.initGlobals()
	return p, nil
}

// allFuncs: every source function of the repository
func (p *Prog) allFuncs() []*ssa.Function {
	var r []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		r = append(r, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, d := range repoDirs {
		pk := p.pkgs[d]
		for _, k := range sortedKeys(pk.Members) {
			switch m := pk.Members[k].(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := p.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := p.prog.MethodValue(ms.At(i))
						if f != nil && f.Synthetic == "" {
							add(f)
						}
					}
				}
			}
		}
	}
	return r
}

// initGlobals: package variables assigned exactly once, with a constant, in the initialiser
func (p *Prog) initGlobals() {
	p.ginit = map[string]*Term{}
	bad := map[string]bool{}
	for _, d := range repoDirs {
		pk := p.pkgs[d]
		fs := append(p.allFuncsOf(pk), pk.Func("init"))
		for _, f := range fs {
			if f == nil {
				continue
			}
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					st, ok := i.(*ssa.Store)
					if !ok {
						continue
					}
					g, ok := st.Addr.(*ssa.Global)
					if !ok {
						continue
					}
					n := g.RelString(nil)
					c, isC := st.Val.(*ssa.Const)
					if _, had := p.ginit[n]; had || !isC || f.Name() != "init" {
						bad[n] = true
						continue
					}
					p.ginit[n] = constTerm(c)
				}
			}
		}
	}
	for n := range bad {
		delete(p.ginit, n)
	}
	p.initTables(bad)
}

// initTables: package-level lists and maps filled with constants or functions by the initialiser
// and never written to afterwards
func (p *Prog) initTables(bad map[string]bool) {
	type def struct {
		g *ssa.Global
		v ssa.Value
	}
	defs := map[string]*def{}
	count := map[string]int{}
	mutated := map[string]bool{}
	for _, d := range repoDirs {
		pk := p.pkgs[d]
		for _, f := range append(p.allFuncsOf(pk), pk.Func("init")) {
			if f == nil {
				continue
			}
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					switch x := i.(type) {
					case *ssa.Store:
						if g, ok := x.Addr.(*ssa.Global); ok {
							n := g.RelString(nil)
							count[n]++
							if f.Name() == "init" && f.Synthetic != "" {
								defs[n] = &def{g, x.Val}
							}
						}
					case *ssa.UnOp:
						if g, ok := x.X.(*ssa.Global); ok && written(x, 0) {
							mutated[g.RelString(nil)] = true
						}
					}
					// the address of the variable itself used for anything but loads and stores
					for _, o := range i.Operands(nil) {
						g, ok := (*o).(*ssa.Global)
						if !ok {
							continue
						}
						switch x := i.(type) {
						case *ssa.UnOp:
						case *ssa.Store:
							if x.Val == ssa.Value(g) {
								mutated[g.RelString(nil)] = true
							}
						case *ssa.IndexAddr:
							if written(x, 0) {
								mutated[g.RelString(nil)] = true
							}
						default:
							mutated[g.RelString(nil)] = true
						}
					}
				}
			}
		}
	}
	for n, d := range defs {
		if count[n] != 1 || mutated[n] {
			continue
		}
		switch v := d.v.(type) {
		case *ssa.MakeMap:
			t := mk(OZero, "map:"+typeKey(v.Type()), 0, v.Type())
			ok := true
			for _, r := range *v.Referrers() {
				switch u := r.(type) {
				case *ssa.MapUpdate:
					k, val := p.tableVal(u.Key), p.tableVal(u.Value)
					if k == nil || val == nil || k.Op != OConst {
						ok = false
						break
					}
					t = mk(OMapUpd, "", 0, v.Type(), t, k, val)
				case *ssa.Store, *ssa.DebugRef:
				default:
					ok = false
				}
			}
			if ok {
				id := "global:" + n + "{}"
				a := mk(OAddr, id, -1, v.Type())
				objTab[id] = &Obj{T: v.Type()}
				p.ginit[n] = a
				p.ginit[n+"{}"] = t
			}
		case *ssa.Slice:
			al, ok := v.X.(*ssa.Alloc)
			if !ok || v.Low != nil || v.High != nil {
				continue
			}
			arr := p.tableArr(al)
			if arr == nil {
				continue
			}
			id := "global:" + n + "[]"
			a := mk(OAddr, id, -1, al.Type())
			objTab[id] = &Obj{T: derefType(al.Type())}
			p.ginit[n] = mk(OSlice, "", 0, v.Type(), a, tNone, tNone)
			p.ginit[n+"[]"] = arr
		}
	}
}

// written: the list or map v is changed somewhere through this value
func written(v ssa.Value, d int) bool {
	if v.Referrers() == nil || d > 4 {
		return false
	}
	for _, r := range *v.Referrers() {
		switch u := r.(type) {
		case *ssa.MapUpdate:
			if u.Map == v {
				return true
			}
		case *ssa.Store:
			if u.Addr == v || u.Val == v {
				return true
			}
		case *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Slice, *ssa.Phi:
			if written(u.(ssa.Value), d+1) {
				return true
			}
		case *ssa.Call:
			if b, ok := u.Call.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear" || b.Name() == "append" || b.Name() == "copy") {
				return true
			}
		}
	}
	return false
}

func (p *Prog) tableVal(v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return constTerm(x)
	case *ssa.Function:
		return fnTerm(x)
	case *ssa.ChangeType:
		return p.tableVal(x.X)
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok {
			return p.tableRec(al)
		}
	}
	return nil
}

// tableArr: elements of an array literal
func (p *Prog) tableArr(al *ssa.Alloc) *Term {
	at, ok := derefType(al.Type()).Underlying().(*types.Array)
	if !ok || at.Len() > maxArr {
		return nil
	}
	es := make([]*Term, at.Len())
	for i := range es {
		es[i] = zeroOf(at.Elem())
	}
	for _, r := range *al.Referrers() {
		switch u := r.(type) {
		case *ssa.IndexAddr:
			c, ok := u.Index.(*ssa.Const)
			if !ok {
				return nil
			}
			k := int(c.Int64())
			var t *Term
			for _, q := range *u.Referrers() {
				switch w := q.(type) {
				case *ssa.Store:
					t = p.tableVal(w.Val)
				case *ssa.FieldAddr:
					t = p.tableRec(u)
				case *ssa.DebugRef:
				default:
					return nil
				}
			}
			if t == nil {
				return nil
			}
			es[k] = t
		case *ssa.Slice, *ssa.DebugRef:
		default:
			return nil
		}
	}
	return mk(OArr, "", 0, derefType(al.Type()), es...)
}

// tableRec: fields of a struct literal built in place
func (p *Prog) tableRec(a ssa.Value) *Term {
	t := derefType(a.Type())
	st := structOf(t)
	if st == nil {
		return nil
	}
	rec := zeroOf(t)
	for _, r := range *a.Referrers() {
		switch u := r.(type) {
		case *ssa.FieldAddr:
			for _, q := range *u.Referrers() {
				w, ok := q.(*ssa.Store)
				if !ok {
					return nil
				}
				v := p.tableVal(w.Val)
				if v == nil {
					return nil
				}
				rec = setField(rec, u.Field, v, t)
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return nil
		}
	}
	return rec
}

func (p *Prog) allFuncsOf(pk *ssa.Package) []*ssa.Function {
	var r []*ssa.Function
	for _, f := range p.allFuncs() {
		if f.Pkg == pk {
			r = append(r, f)
		}
	}
	return r
}

func (p *Prog) globalInit(n string) *Term { return p.ginit[n] }

func (p *Prog) method(t types.Type, m *types.Func) *ssa.Function {
	sel := p.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return p.prog.MethodValue(sel)
}

// fn finds pkg.Name or pkg.Type.Method
func (p *Prog) fn(pkg, name string) *ssa.Function {
	pk := p.pkgs[pkg]
	if pk == nil {
		return nil
	}
	if i := strings.IndexByte(name, '.'); i >= 0 {
		t := pk.Type(name[:i])
		if t == nil {
			return nil
		}
		for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
			if sel := p.prog.MethodSets.MethodSet(tt).Lookup(pk.Pkg, name[i+1:]); sel != nil {
				f := p.prog.MethodValue(sel)
				if f != nil && f.Synthetic == "" {
					return f
				}
			}
		}
		return nil
	}
	return pk.Func(name)
}

func (p *Prog) typ(pkg, name string) types.Type {
	pk := p.pkgs[pkg]
	if pk == nil || pk.Type(name) == nil {
		return nil
	}
	return pk.Type(name).Type()
}

func (p *Prog) pos(i ssa.Instruction) string {
	if i == nil {
		return "?"
	}
	ps := i.Pos()
	if !ps.IsValid() {
		// nearest instruction with a position
		if b := i.Block(); b != nil {
			for _, x := range b.Instrs {
				if x.Pos().IsValid() {
					ps = x.Pos()
				}
			}
		}
	}
	if !ps.IsValid() && i.Parent() != nil {
		ps = i.Parent().Pos()
	}
	po := p.fset.Position(ps)
	return strings.TrimPrefix(po.Filename, p.dir+"/") + ":" + itoa(po.Line)
}
