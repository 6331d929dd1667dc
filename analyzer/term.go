package main

// Value-numbering domain: every abstract value is a hash-consed term, so two program points compute
// "the same value" exactly when they get the same term (global value numbering).

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Op uint8

const (
	OConst    Op = iota // S: kind-tagged constant
	OZero               // zero value of aggregate type T
	OSym                // named unknown
	OField              // A[0].N
	OIndex              // A[0][A[1]]
	ORec                // struct value, A = fields
	OArr                // array value, A = elements
	OUpd                // A[0] with element A[1] replaced by A[2]
	OMakeArr            // backing array of make([]T, n): A[0]=len, all elements zero
	OAddr               // address of abstract object S
	OFieldPtr           // &A[0]->N
	OIndexPtr           // &A[0][A[1]]
	ODeref              // initial content of the object an opaque pointer points to
	OSlice              // A[0][A[1]:A[2]] ; A[1],A[2] may be nil-terms
	ORef                // snapshot of pointee (argument of an external call)
	OCall               // external call S(A...) instance N
	OExtract            // N-th result of A[0]
	OOut                // what call A[0] wrote through its N-th argument
	OLookup             // A[0][A[1]] of a map, instance N
	OLookupOk           // presence of A[1] in map A[0], instance N
	OBin                // S operator
	ONot
	OUn
	OConcat
	OLen
	OConv
	OTAssert
	OTOk
	OIface
	OClos // S function key, A = bindings
	OFunc
	OAppend // A[0] base, A[1:] appended elements (OSpread for slices)
	OSpread
	OTok    // loop token
	OMapKey // key of the current entry of a map iteration; A[0]=map, A[1]=token
	OMapVal
	OMapUpd // map content: A[0] with A[1]->A[2]
	OMapDel
	OBuf   // content of a strings.Builder / bytes.Buffer: A[0] = text
	OErr   // some non-nil error
	OState // opaque state of an external object after S(A[0]=old, args...)
)

type Term struct {
	ID   int
	Op   Op
	S    string
	N    int
	A    []*Term
	T    types.Type
	fn   *ssa.Function // OClos, OFunc
	site ssa.Instruction
	sig  *types.Signature
}

var (
	termTab  = map[string]*Term{}
	termList []*Term
)

func mk(op Op, s string, n int, t types.Type, a ...*Term) *Term {
	var b strings.Builder
	b.Grow(32 + len(s))
	b.WriteByte(byte(op) + 1)
	b.WriteString(strconv.Itoa(n))
	b.WriteByte(0)
	b.WriteString(s)
	for _, x := range a {
		b.WriteByte(1)
		b.WriteString(strconv.Itoa(x.ID))
	}
	k := b.String()
	if r, ok := termTab[k]; ok {
		return r
	}
	r := &Term{ID: len(termList), Op: op, S: s, N: n, A: append([]*Term(nil), a...), T: t}
	termTab[k] = r
	termList = append(termList, r)
	return r
}

var (
	tNil   = mk(OConst, "nil", 0, nil)
	tTrue  = mk(OConst, "b:true", 0, types.Typ[types.Bool])
	tFalse = mk(OConst, "b:false", 0, types.Typ[types.Bool])
	tErr   = mk(OErr, "", 0, nil)
	tNone  = mk(OConst, "none", 0, nil) // absent slice bound
)

func tStr(s string) *Term { return mk(OConst, "s:"+s, 0, types.Typ[types.String]) }
func tInt(i int64) *Term {
	return mk(OConst, "i:"+strconv.FormatInt(i, 10), 0, types.Typ[types.Int])
}
func tBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func tSym(name string, t types.Type) *Term { return mk(OSym, name, 0, t) }

func (t *Term) isConst() bool { return t.Op == OConst }
func (t *Term) strVal() (string, bool) {
	if t.Op == OConst && strings.HasPrefix(t.S, "s:") {
		return t.S[2:], true
	}
	return "", false
}
func (t *Term) intVal() (int64, bool) {
	if t.Op == OConst && strings.HasPrefix(t.S, "i:") {
		v, err := strconv.ParseInt(t.S[2:], 10, 64)
		return v, err == nil
	}
	return 0, false
}

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zeroOf(c.Type())
	}
	switch c.Value.Kind() {
	case constant.String:
		return mk(OConst, "s:"+constant.StringVal(c.Value), 0, c.Type())
	case constant.Bool:
		return tBool(constant.BoolVal(c.Value))
	case constant.Int:
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return mk(OConst, "f:"+c.Value.ExactString(), 0, c.Type())
		}
		return mk(OConst, "i:"+c.Value.ExactString(), 0, c.Type())
	}
	return mk(OConst, "f:"+c.Value.ExactString(), 0, c.Type())
}

func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return tStr("")
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsInteger != 0:
			return tInt(0)
		case u.Info()&types.IsFloat != 0:
			return mk(OConst, "f:0", 0, t)
		}
		return tNil
	case *types.Struct, *types.Array:
		return mk(OZero, typeKey(t), 0, t)
	}
	return tNil
}

func typeKey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

func shortType(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func derefType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return a.Elem()
		}
	case *types.Basic:
		return types.Typ[types.Byte]
	}
	return nil
}

func fieldType(t types.Type, n int) types.Type {
	if s := structOf(t); s != nil && n < s.NumFields() {
		return s.Field(n).Type()
	}
	return nil
}

func fieldName(t types.Type, n int) string {
	if s := structOf(t); s != nil && n < s.NumFields() {
		return s.Field(n).Name()
	}
	return strconv.Itoa(n)
}

// ---- smart constructors ----

func mkField(x *Term, n int, st types.Type) *Term {
	switch x.Op {
	case ORec:
		if n >= 0 && n < len(x.A) {
			return x.A[n]
		}
	case OZero:
		if ft := fieldType(x.T, n); ft != nil {
			return zeroOf(ft)
		}
	}
	if st == nil {
		st = x.T
	}
	return mk(OField, "", n, fieldType(st, n), x)
}

func setField(x *Term, n int, v *Term, st types.Type) *Term {
	s := structOf(st)
	if s == nil {
		return mk(OUpd, "f", n, st, x, tInt(int64(n)), v)
	}
	fs := make([]*Term, s.NumFields())
	for i := range fs {
		if i == n {
			fs[i] = v
		} else {
			fs[i] = mkField(x, i, st)
		}
	}
	return mkRec(fs, st)
}

func mkRec(fs []*Term, st types.Type) *Term {
	s := structOf(st)
	if len(fs) > 0 {
		// eta
		var base *Term
		ok := true
		for i, f := range fs {
			if f.Op != OField || f.N != i || (base != nil && f.A[0] != base) {
				ok = false
				break
			}
			base = f.A[0]
		}
		if ok && base.T != nil && structOf(base.T) != nil && structOf(base.T).NumFields() == len(fs) {
			return base
		}
		z := s != nil
		for i, f := range fs {
			if s == nil || f != zeroOf(s.Field(i).Type()) {
				z = false
				break
			}
		}
		if z {
			return zeroOf(st)
		}
	}
	return mk(ORec, typeKey(st), 0, st, fs...)
}

const maxArr = 64

func mkIndex(x, i *Term, et types.Type) *Term {
	if iv, ok := i.intVal(); ok {
		switch x.Op {
		case OArr:
			if iv >= 0 && int(iv) < len(x.A) {
				return x.A[iv]
			}
		}
	}
	switch x.Op {
	case OZero:
		if e := elemType(x.T); e != nil {
			return zeroOf(e)
		}
	case OMakeArr:
		if e := elemType(x.T); e != nil {
			return zeroOf(e)
		}
	case OUpd:
		if x.S == "" {
			if x.A[1] == i {
				return x.A[2]
			}
			if x.A[1].isConst() && i.isConst() {
				return mkIndex(x.A[0], i, et)
			}
		}
	}
	if et == nil {
		et = elemType(x.T)
	}
	return mk(OIndex, "", 0, et, x, i)
}

func setIndex(x, i, v *Term, at types.Type) *Term {
	if iv, ok := i.intVal(); ok {
		if a, ok := at.Underlying().(*types.Array); ok && a.Len() <= maxArr {
			es := make([]*Term, a.Len())
			for j := range es {
				if int64(j) == iv {
					es[j] = v
				} else {
					es[j] = mkIndex(x, tInt(int64(j)), a.Elem())
				}
			}
			return mkArr(es, at)
		}
	}
	if x.Op == OUpd && x.S == "" && x.A[1] == i {
		x = x.A[0]
	}
	return mk(OUpd, "", 0, at, x, i, v)
}

func mkArr(es []*Term, at types.Type) *Term {
	var base *Term
	ok := len(es) > 0
	for i, f := range es {
		if f.Op != OIndex || f.A[1] != tInt(int64(i)) || (base != nil && f.A[0] != base) {
			ok = false
			break
		}
		base = f.A[0]
	}
	if ok && base.T != nil && types.Identical(base.T.Underlying(), at.Underlying()) {
		return base
	}
	z := true
	et := elemType(at)
	for _, f := range es {
		if et == nil || f != zeroOf(et) {
			z = false
			break
		}
	}
	if z && et != nil {
		return zeroOf(at)
	}
	return mk(OArr, typeKey(at), 0, at, es...)
}

func mkNot(x *Term) *Term {
	switch {
	case x == tTrue:
		return tFalse
	case x == tFalse:
		return tTrue
	case x.Op == ONot:
		return x.A[0]
	}
	return mk(ONot, "", 0, types.Typ[types.Bool], x)
}

func mkConcat(xs ...*Term) *Term {
	var fl []*Term
	for _, x := range xs {
		if x.Op == OConcat {
			fl = append(fl, x.A...)
		} else {
			fl = append(fl, x)
		}
	}
	var out []*Term
	for _, x := range fl {
		if s, ok := x.strVal(); ok {
			if s == "" {
				continue
			}
			if len(out) > 0 {
				if p, ok2 := out[len(out)-1].strVal(); ok2 {
					out[len(out)-1] = tStr(p + s)
					continue
				}
			}
		}
		if x == tNil { // nil []byte
			continue
		}
		out = append(out, x)
	}
	switch len(out) {
	case 0:
		return tStr("")
	case 1:
		return out[0]
	}
	return mk(OConcat, "", 0, types.Typ[types.String], out...)
}

// linear form x + c
func splitAdd(x *Term) (*Term, int64) {
	if x.Op == OBin && x.S == "+" {
		if c, ok := x.A[1].intVal(); ok {
			return x.A[0], c
		}
	}
	if c, ok := x.intVal(); ok {
		return nil, c
	}
	return x, 0
}

func isIntT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isSigned(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func addConst(x *Term, c int64) *Term {
	b, c0 := splitAdd(x)
	if b == nil {
		return tInt(c0 + c)
	}
	if c0+c == 0 {
		return b
	}
	return mk(OBin, "+", 0, b.T, b, tInt(c0+c))
}

func isStrT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// isSort: a library function that only reorders a slice
func isSort(n string) bool {
	return strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "slices.Sort") || strings.HasPrefix(n, "slices.Reverse")
}

func mkLen(x *Term) *Term {
	if x.Op == OState && isSort(x.S) {
		return mkLen(x.A[0])
	}
	if s, ok := x.strVal(); ok {
		return tInt(int64(len(s)))
	}
	switch x.Op {
	case OConst:
		if x == tNil {
			return tInt(0)
		}
	case OZero, OArr:
		if a, ok := x.T.Underlying().(*types.Array); ok {
			return tInt(a.Len())
		}
	case OMakeArr:
		return x.A[0]
	case OUpd:
		return mkLen(x.A[0])
	case OSlice:
		if x.S == "" && x.A[1] == tNone && x.A[2] == tNone && x.A[0].Op == OAddr {
			if o := objTab[x.A[0].S]; o != nil {
				if o.len != nil {
					return o.len
				}
				if a, ok := o.T.Underlying().(*types.Array); ok {
					return tInt(a.Len())
				}
			}
		}
	case OAppend:
		n := int64(0)
		base := mkLen(x.A[0])
		all := true
		for _, e := range x.A[1:] {
			if e.Op == OSpread {
				all = false
				break
			}
			n++
		}
		if all {
			return addConst(base, n)
		}
	case ORef:
		return mkLen(x.A[0])
	}
	return mk(OLen, "", 0, types.Typ[types.Int], x)
}

// nonNil: the term certainly is not nil
func nonNil(x *Term) bool {
	switch x.Op {
	case OAddr, OFieldPtr, OIndexPtr, OErr, OIface, OClos, OFunc, OAppend, OMakeArr, OBuf:
		return true
	case OConst:
		return x != tNil
	case OCall:
		return nonNilCalls[x.S]
	}
	return false
}

var nonNilCalls = map[string]bool{
	"bytes.NewBuffer": true, "bytes.NewReader": true, "bytes.NewBufferString": true, "strings.NewReader": true,
	"encoding/json.NewDecoder": true, "encoding/json.NewEncoder": true, "github.com/gorilla/mux.NewRouter": true,
	"github.com/bits-and-blooms/bitset.New": true, "(*github.com/bits-and-blooms/bitset.BitSet).Clone": true,
	"(*github.com/bits-and-blooms/bitset.BitSet).Union": true, "(*github.com/bits-and-blooms/bitset.BitSet).SymmetricDifference": true,
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a == tTrue {
		return b
	}
	if b == tTrue {
		return a
	}
	if a == tFalse {
		return mkNot(b)
	}
	if b == tFalse {
		return mkNot(a)
	}
	if a.isConst() && b.isConst() {
		return tFalse
	}
	if (a == tNil && nonNil(b)) || (b == tNil && nonNil(a)) {
		return tFalse
	}
	if a.Op == OIface && b.Op == OIface {
		if a.S != b.S {
			return tFalse
		}
		return mkEq(a.A[0], b.A[0])
	}
	// distinct allocations
	if a.Op == OAddr && b.Op == OAddr {
		return tFalse
	}
	// string/slice emptiness
	if b.Op == OLen {
		a, b = b, a
	}
	if a.Op == OLen && b == tInt(0) {
		if isStrT(a.A[0].T) {
			return mkEq(a.A[0], tStr(""))
		}
	}
	// concat with a non-empty constant part never equals ""
	for k := 0; k < 2; k++ {
		if a.Op == OConcat && b == tStr("") {
			for _, x := range a.A {
				if x.isConst() {
					return tFalse
				}
			}
		}
		a, b = b, a
	}
	// integer offsets
	ax, ac := splitAdd(a)
	bx, bc := splitAdd(b)
	if ac != 0 || bc != 0 {
		if ax == bx {
			return tBool(ac == bc)
		}
		if ax != nil && bx == nil {
			a, b = ax, tInt(bc-ac)
		} else if bx != nil && ax == nil {
			a, b = bx, tInt(ac-bc)
		} else if ax.ID < bx.ID {
			a, b = ax, addConst(bx, bc-ac)
		} else {
			a, b = bx, addConst(ax, ac-bc)
		}
	}
	// x - y == c
	for k := 0; k < 2; k++ {
		if a.Op == OBin && a.S == "-" && isIntT(a.T) {
			if c, ok := b.intVal(); ok {
				return mkEq(a.A[0], addConst(a.A[1], c))
			}
		}
		a, b = b, a
	}
	// struct / array equality against a record: componentwise only when both are explicit
	if (a.Op == ORec && b.Op == ORec || a.Op == OArr && b.Op == OArr) && len(a.A) == len(b.A) {
		diff := -1
		n := 0
		for i := range a.A {
			if a.A[i] != b.A[i] {
				if mkEq(a.A[i], b.A[i]) == tFalse {
					return tFalse
				}
				diff = i
				n++
			}
		}
		if n == 1 {
			return mkEq(a.A[diff], b.A[diff])
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk(OBin, "==", 0, types.Typ[types.Bool], a, b)
}

func isLenLike(x *Term) bool {
	if x.Op == OLen {
		return true
	}
	return false
}

func mkLt(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	if as, ok := a.strVal(); ok {
		if bs, ok2 := b.strVal(); ok2 {
			return tBool(as < bs)
		}
	}
	if isIntLike(a) && isIntLike(b) {
		ax, ac := splitAdd(a)
		bx, bc := splitAdd(b)
		if ax == bx {
			return tBool(ac < bc)
		}
		d := bc - ac // ax < bx + d
		switch {
		case ax == nil: // 0 < bx + d  <=> -d < bx
			if isLenLike(bx) && -d < 0 {
				return tTrue
			}
			if isLenLike(bx) && d == 0 {
				return mkNot(mkEq(bx, tInt(0)))
			}
			if bx.Op == OBin && bx.S == "-" && isSigned(bx.T) { // -d < x - y (no overflow)
				return mkLt(addConst(bx.A[1], -d), bx.A[0])
			}
			return mk(OBin, "<", 0, types.Typ[types.Bool], tInt(-d), bx)
		case bx == nil: // ax < d
			if isLenLike(ax) && d <= 0 {
				return tFalse
			}
			if isLenLike(ax) && d == 1 {
				return mkEq(ax, tInt(0))
			}
			// ax < d  <=> not (d-1 < ax)
			return mkNot(mkLt(tInt(d-1), ax))
		case d == 1: // ax <= bx
			return mkNot(mkLt(bx, ax))
		default:
			return mk(OBin, "<", 0, types.Typ[types.Bool], ax, addConst(bx, d))
		}
	}
	return mk(OBin, "<", 0, types.Typ[types.Bool], a, b)
}

func isIntLike(t *Term) bool {
	if _, ok := t.intVal(); ok {
		return true
	}
	return isIntT(t.T) || t.Op == OLen
}

// atom splits a boolean term into atom and polarity
func atom(c *Term) (*Term, bool) {
	pol := true
	for c.Op == ONot {
		c = c.A[0]
		pol = !pol
	}
	return c, pol
}

// ---- traversal ----

func walk(t *Term, f func(*Term) bool) { walkSeen(t, f, map[*Term]bool{}) }
func walkSeen(t *Term, f func(*Term) bool, seen map[*Term]bool) {
	if t == nil || seen[t] {
		return
	}
	seen[t] = true
	if !f(t) {
		return
	}
	for _, a := range t.A {
		walkSeen(a, f, seen)
	}
}

func contains(t, sub *Term) bool {
	r := false
	walk(t, func(x *Term) bool {
		if x == sub {
			r = true
		}
		return !r
	})
	return r
}

// rewrite applies f bottom-up, rebuilding with smart constructors
func rewrite(t *Term, f func(*Term) *Term, memo map[*Term]*Term) *Term {
	if r, ok := memo[t]; ok {
		return r
	}
	memo[t] = t
	r := t
	if len(t.A) > 0 {
		ch := false
		na := make([]*Term, len(t.A))
		for i, a := range t.A {
			if (t.Op == OOut || t.Op == OState) && a.Op == OCall {
				// what a call wrote depends on its arguments, not on its result: equal results do not make equal effects
				na[i] = rewriteArgs(a, f, memo)
			} else {
				na[i] = rewrite(a, f, memo)
			}
			if na[i] != a {
				ch = true
			}
		}
		if ch {
			r = rebuild(t, na)
		}
	}
	if x := f(r); x != nil {
		r = x
	}
	memo[t] = r
	return r
}

func rewriteArgs(t *Term, f func(*Term) *Term, memo map[*Term]*Term) *Term {
	ch := false
	na := make([]*Term, len(t.A))
	for i, a := range t.A {
		na[i] = rewrite(a, f, memo)
		if na[i] != a {
			ch = true
		}
	}
	if !ch {
		return t
	}
	return rebuild(t, na)
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case OField:
		r := mkField(a[0], t.N, nil)
		if r.T == nil {
			r.T = t.T
		}
		return r
	case OIndex:
		return mkIndex(a[0], a[1], t.T)
	case ORec:
		return mkRec(a, t.T)
	case OArr:
		return mkArr(a, t.T)
	case ONot:
		return mkNot(a[0])
	case OConcat:
		return mkConcat(a...)
	case OLen:
		return mkLen(a[0])
	case OBin:
		return mkBin(t.S, a[0], a[1], t.T)
	case OExtract:
		return mkExtract(a[0], t.N, t.T)
	}
	r := mk(t.Op, t.S, t.N, t.T, a...)
	if r.fn == nil {
		r.fn = t.fn
	}
	if r.site == nil {
		r.site = t.site
	}
	if r.sig == nil {
		r.sig = t.sig
	}
	return r
}

func mkExtract(c *Term, n int, t types.Type) *Term {
	if c.Op == ORec && c.S == "tuple" {
		return c.A[n]
	}
	return mk(OExtract, "", n, t, c)
}

func mkTuple(a ...*Term) *Term { return mk(ORec, "tuple", 0, nil, a...) }

func mkBin(op string, a, b *Term, t types.Type) *Term {
	switch op {
	case "==":
		return mkEq(a, b)
	case "!=":
		return mkNot(mkEq(a, b))
	case "<":
		return mkLt(a, b)
	case ">":
		return mkLt(b, a)
	case "<=":
		return mkNot(mkLt(b, a))
	case ">=":
		return mkNot(mkLt(a, b))
	case "+":
		if isStrT(t) || isStrT(a.T) {
			return mkConcat(a, b)
		}
		if c, ok := b.intVal(); ok {
			return addConst(a, c)
		}
		if c, ok := a.intVal(); ok {
			return addConst(b, c)
		}
		if isIntT(t) {
			ax, ac := splitAdd(a)
			bx, bc := splitAdd(b)
			if ax.ID > bx.ID {
				ax, bx = bx, ax
			}
			return addConst(mk(OBin, "+", 0, t, ax, bx), ac+bc)
		}
	case "-":
		if c, ok := b.intVal(); ok {
			return addConst(a, -c)
		}
		if a == b && isIntT(t) {
			return tInt(0)
		}
	case "*", "/", "%":
		if x, ok := a.intVal(); ok {
			if y, ok2 := b.intVal(); ok2 {
				switch {
				case op == "*":
					return tInt(x * y)
				case y != 0 && op == "/":
					return tInt(x / y)
				case y != 0:
					return tInt(x % y)
				}
			}
		}
	}
	return mk(OBin, op, 0, t, a, b)
}

// ---- printing ----

func (t *Term) String() string { return pp(t, 0) }

func pp(t *Term, d int) string {
	if t == nil {
		return "<nil>"
	}
	if d > 7 {
		return "…"
	}
	list := func(a []*Term) string {
		var s []string
		for _, x := range a {
			s = append(s, pp(x, d+1))
		}
		return strings.Join(s, ", ")
	}
	switch t.Op {
	case OConst:
		if s, ok := t.strVal(); ok {
			return strconv.Quote(s)
		}
		if i := strings.IndexByte(t.S, ':'); i > 0 {
			return t.S[i+1:]
		}
		return t.S
	case OZero:
		return shortType(t.T) + "{}"
	case OSym:
		return t.S
	case OField:
		x := t.A[0]
		if x.Op == ODeref {
			return pp(x.A[0], d) + "." + fieldName(x.T, t.N)
		}
		return pp(x, d) + "." + fieldName(x.T, t.N)
	case OIndex:
		return pp(t.A[0], d+1) + "[" + pp(t.A[1], d+1) + "]"
	case ORec:
		if d > 4 {
			return shortType(t.T) + "{…}"
		}
		return shortType(t.T) + "{" + list(t.A) + "}"
	case OArr:
		return "[" + list(t.A) + "]"
	case OUpd:
		return pp(t.A[0], d+1) + "{[" + pp(t.A[1], d+1) + "]=" + pp(t.A[2], d+1) + "}"
	case OAddr:
		return "&" + t.S
	case OFieldPtr:
		return "&" + pp(t.A[0], d+1) + "." + fieldName(derefType(t.A[0].T), t.N)
	case OIndexPtr:
		return "&" + pp(t.A[0], d+1) + "[" + pp(t.A[1], d+1) + "]"
	case ODeref:
		return "*" + pp(t.A[0], d+1)
	case OSlice:
		l, h := "", ""
		if t.A[1] != tNone {
			l = pp(t.A[1], d+1)
		}
		if t.A[2] != tNone {
			h = pp(t.A[2], d+1)
		}
		return pp(t.A[0], d+1) + "[" + l + ":" + h + "]"
	case ORef:
		return "ref " + pp(t.A[0], d+1)
	case OCall:
		s := t.S
		if i := strings.LastIndex(s, "/"); i >= 0 {
			s = s[i+1:]
		}
		if t.N != 0 {
			s += fmt.Sprintf("#%d", t.N)
		}
		return s + "(" + list(t.A) + ")"
	case OExtract:
		return pp(t.A[0], d) + "·" + strconv.Itoa(t.N)
	case OOut:
		return "out" + strconv.Itoa(t.N) + "(" + pp(t.A[0], d+1) + ")"
	case OLookup:
		return pp(t.A[0], d+1) + "[" + pp(t.A[1], d+1) + "]"
	case OLookupOk:
		return "has(" + pp(t.A[0], d+1) + "," + pp(t.A[1], d+1) + ")"
	case OBin:
		return "(" + pp(t.A[0], d+1) + t.S + pp(t.A[1], d+1) + ")"
	case ONot:
		return "!" + pp(t.A[0], d+1)
	case OConcat:
		var s []string
		for _, x := range t.A {
			s = append(s, pp(x, d+1))
		}
		return strings.Join(s, "‖")
	case OLen:
		return "len(" + pp(t.A[0], d+1) + ")"
	case OTok:
		return "loop:" + t.S
	case OMapKey:
		return "key(" + pp(t.A[0], d+1) + ")"
	case OMapVal:
		return "val(" + pp(t.A[0], d+1) + ")"
	case OErr:
		return "error"
	case OIface:
		return pp(t.A[0], d)
	case OClos, OFunc:
		return "func " + t.S
	case OAppend:
		return "append(" + list(t.A) + ")"
	}
	return fmt.Sprintf("op%d:%s(%s)", t.Op, t.S, list(t.A))
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// resetTerms starts a fresh universe of terms (one per check)
func resetTerms() {
	keep := []*Term{tNil, tTrue, tFalse, tErr, tNone}
	termTab = map[string]*Term{}
	termList = nil
	objTab = map[string]*Obj{}
	funcInfos = map[*ssa.Function]*FuncInfo{}
	for _, k := range keep {
		k.ID = len(termList)
		termList = append(termList, k)
		b := string([]byte{byte(k.Op) + 1}) + strconv.Itoa(k.N) + "\x00" + k.S
		termTab[b] = k
	}
}
