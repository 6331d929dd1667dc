package main

// Abstract state: value numbers of live SSA values, abstract memory, path facts, held locks, typestate marks.

import (
	"go/types"
	"sort"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

func itoa(i int) string { return strconv.Itoa(i) }

type Obj struct {
	thread string
	T      types.Type
	len    *Term
	loc    string // allocation position, for reports
	site   ssa.Instruction
}

var objTab = map[string]*Obj{}

func mix(a, b int) uint64 {
	x := uint64(a)*0x9E3779B97F4A7C15 ^ (uint64(b)+0x7F4A7C15)*0xC2B2AE3D27D4EB4F
	x ^= x >> 29
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 32
	return x
}

// ---- facts ----

type Facts struct {
	at   map[*Term]bool
	ca   map[*Term]bool
	rep  map[*Term]*Term
	memo map[*Term]*Term
	hash uint64
}

func newFacts() *Facts {
	return &Facts{at: map[*Term]bool{}, ca: map[*Term]bool{}, rep: map[*Term]*Term{}, memo: map[*Term]*Term{}}
}

func (f *Facts) canon(t *Term) *Term {
	if len(f.rep) == 0 {
		return t
	}
	return rewrite(t, func(x *Term) *Term {
		n := 0
		for {
			r, ok := f.rep[x]
			if !ok || n > 20 {
				return x
			}
			x = r
			n++
		}
	}, f.memo)
}

func boolHash(a *Term, p bool) uint64 {
	if p {
		return mix(a.ID, 1)
	}
	return mix(a.ID, 2)
}

// decide returns (value, known)
func (f *Facts) decide(c *Term) (bool, bool) {
	c = f.canon(c)
	a, pol := atom(c)
	if a == tTrue {
		return pol, true
	}
	if a == tFalse {
		return !pol, true
	}
	if v, ok := f.ca[a]; ok {
		return v == pol, true
	}
	if v, ok := f.derive(a); ok {
		return v == pol, true
	}
	return false, false
}

// derive: a few consequences of recorded facts
func (f *Facts) derive(a *Term) (bool, bool) {
	if a.Op == OBin && a.S == "<" {
		x, y := a.A[0], a.A[1]
		// x<y follows from !(y<x) and x!=y ; !(x<y) from y<x or x==y
		if v, ok := f.ca[mk(OBin, "<", 0, types.Typ[types.Bool], y, x)]; ok {
			if v {
				return false, true
			}
			e, _ := atom(mkEq(x, y))
			if ev, ok := f.ca[e]; ok && !ev {
				return true, true
			}
		}
		// constant bounds
		if yc, ok := y.intVal(); ok {
			_ = yc
		}
		if xc, ok := x.intVal(); ok { // xc < y
			for k, v := range f.ca {
				if k.Op == OBin && k.S == "<" && k.A[1] == y {
					if kc, ok := k.A[0].intVal(); ok {
						if v && kc >= xc {
							return true, true
						}
						if !v && kc <= xc {
							return false, true
						}
					}
				}
				if !v && k.Op == OBin && k.S == "==" {
					// y != xc+1 .. not enough
				}
			}
		}
	}
	if a.Op == OBin && a.S == "==" {
		x, y := a.A[0], a.A[1]
		if isIntLike(x) && isIntLike(y) {
			for k := 0; k < 2; k++ {
				l, _ := atom(mkLt(x, y))
				if v, ok := f.ca[l]; ok {
					_, pol := atom(mkLt(x, y))
					if v == pol && l != tTrue && l != tFalse {
						return false, true
					}
				}
				x, y = y, x
			}
		}
	}
	return false, false
}

func better(a, b *Term) bool { // a is the better representative
	ca, cb := a.isConst(), b.isConst()
	if ca != cb {
		return ca
	}
	za, zb := a.Op == OZero, b.Op == OZero
	if za != zb {
		return za
	}
	return a.ID < b.ID
}

// with returns the facts extended by c==v, or nil if contradictory
func (f *Facts) with(c *Term, v bool) *Facts {
	if known, ok := f.decide(c); ok {
		if known != v {
			return nil
		}
		return f
	}
	a, pol := atom(c)
	if !pol {
		v = !v
	}
	if a == tTrue || a == tFalse {
		if (a == tTrue) == v {
			return f
		}
		return nil
	}
	n := &Facts{at: make(map[*Term]bool, len(f.at)+1), hash: f.hash ^ boolHash(a, v)}
	for k, p := range f.at {
		n.at[k] = p
	}
	n.at[a] = v
	ok := n.close(f, a, v)
	if !ok {
		return nil
	}
	return n
}

// close recomputes rep and canonical atoms; prev may be used when only one atom was added
func (f *Facts) close(prev *Facts, a *Term, v bool) bool {
	ca, pol := prev.canonAtom(a)
	if !pol {
		v = !v
	}
	if ca == tTrue || ca == tFalse {
		f.ca, f.rep, f.memo = prev.ca, prev.rep, prev.memo
		return (ca == tTrue) == v
	}
	newRep := (*Term)(nil)
	var to *Term
	if ca.Op == OBin && ca.S == "==" && v {
		x, y := ca.A[0], ca.A[1]
		if better(x, y) {
			x, y = y, x
		}
		if !contains(y, x) {
			newRep, to = x, y
		} else if !contains(x, y) {
			newRep, to = y, x
		}
	} else if ca.Op != OBin { // boolean value itself
		newRep, to = ca, tBool(v)
	}
	if newRep == nil {
		f.rep, f.memo = prev.rep, prev.memo
		f.ca = make(map[*Term]bool, len(prev.ca)+1)
		for k, p := range prev.ca {
			f.ca[k] = p
		}
		f.ca[ca] = v
		return true
	}
	f.rep = make(map[*Term]*Term, len(prev.rep)+1)
	for k, r := range prev.rep {
		f.rep[k] = r
	}
	f.rep[newRep] = to
	// terms known to equal something keep doing so under their new name
	sub := map[*Term]*Term{}
	for k, r := range prev.rep {
		if k == newRep || len(k.A) == 0 || !contains(k, newRep) {
			continue
		}
		k2 := rewriteArgs(k, func(x *Term) *Term {
			if x == newRep {
				return to
			}
			return x
		}, sub)
		if k2 == k || k2 == r {
			continue
		}
		if r2, ok := f.rep[k2]; ok {
			if r != r2 && r.isConst() && r2.isConst() {
				return false
			}
			continue
		}
		if !contains(r, k2) {
			f.rep[k2] = r
		}
	}
	f.memo = map[*Term]*Term{}
	f.ca = make(map[*Term]bool, len(prev.ca)+1)
	f.ca[ca] = v
	for k, p := range prev.ca {
		c, pl := f.canonAtom(k)
		if !pl {
			p = !p
		}
		if c == tTrue || c == tFalse {
			if (c == tTrue) != p {
				return false
			}
			continue
		}
		if o, ok := f.ca[c]; ok && o != p {
			return false
		}
		f.ca[c] = p
	}
	return true
}

func (f *Facts) canonAtom(a *Term) (*Term, bool) { return atom(f.canon(a)) }

func factsOf(at map[*Term]bool) *Facts {
	f := newFacts()
	var ks []*Term
	for k := range at {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].ID < ks[j].ID })
	for _, k := range ks {
		if g := f.with(k, at[k]); g != nil {
			f = g
		}
	}
	return f
}

func interFacts(a, b *Facts) *Facts {
	if a == b {
		return a
	}
	if subset(a, b) {
		return a
	}
	if subset(b, a) {
		return b
	}
	m := map[*Term]bool{}
	for k, p := range a.at {
		if q, ok := b.at[k]; ok && p == q {
			m[k] = p
		} else if v, ok := b.decide(k); ok && v == p {
			m[k] = p
		}
	}
	for k, p := range b.at {
		if _, ok := m[k]; ok {
			continue
		}
		if v, ok := a.decide(k); ok && v == p {
			m[k] = p
		}
	}
	return factsOf(m)
}

// subset: every fact of a is a fact of b
func subset(a, b *Facts) bool {
	if len(a.at) > len(b.at) {
		return false
	}
	for k, p := range a.at {
		if q, ok := b.at[k]; !ok || q != p {
			return false
		}
	}
	return true
}

// complement: same facts except one atom with opposite polarity
func complement(a, b *Facts) (*Term, bool) {
	if len(a.at) != len(b.at) {
		return nil, false
	}
	var d *Term
	for k, p := range a.at {
		q, ok := b.at[k]
		if !ok {
			return nil, false
		}
		if p != q {
			if d != nil {
				return nil, false
			}
			d = k
		}
	}
	return d, d != nil
}

// ---- state ----

type Lock struct {
	name  string
	write bool
	sec   string
}

type Mark struct {
	K string
	T *Term
}

type lkRec struct {
	m, k, val, ok *Term
	secs          []string
}

type ForAll struct {
	loop  string
	facts *Facts // facts common to all completed iterations
	marks []Mark
	key   uint64
}

type deferRec struct {
	site *ssa.Defer
	call *callee
	args []*Term
}

type Trace struct {
	prev  *Trace
	instr ssa.Instruction
	taken bool
}

type State struct {
	env     []*Term
	mem     map[*Term]*Term
	memHash uint64
	memOwn  bool
	facts   *Facts
	locks   []Lock
	marks   []Mark // must
	obls    []Mark // may
	lk      []lkRec
	foralls []*ForAll
	defers  []deferRec
	gen     int
	fork    int
	trace   *Trace
	dead    bool
	pred    *ssa.BasicBlock
}

func (s *State) clone() *State {
	n := *s
	s.memOwn = false
	n.memOwn = false
	n.env = append([]*Term(nil), s.env...)
	return &n
}

func (s *State) setMem(k, v *Term) {
	if old, ok := s.mem[k]; ok {
		if old == v {
			return
		}
		s.own()
		s.memHash ^= mix(k.ID, old.ID)
	} else {
		s.own()
	}
	s.mem[k] = v
	s.memHash ^= mix(k.ID, v.ID)
}

func (s *State) delMem(k *Term) {
	if old, ok := s.mem[k]; ok {
		s.own()
		s.memHash ^= mix(k.ID, old.ID)
		delete(s.mem, k)
	}
}

func (s *State) own() {
	if s.memOwn {
		return
	}
	m := make(map[*Term]*Term, len(s.mem)+4)
	for k, v := range s.mem {
		m[k] = v
	}
	s.mem = m
	s.memOwn = true
}

func (s *State) canon(t *Term) *Term { return s.facts.canon(t) }
func (s *State) known(c *Term) bool {
	v, ok := s.facts.decide(c)
	return ok && v
}

// assume returns false when the state becomes infeasible
func (s *State) assume(c *Term, v bool) bool {
	f := s.facts.with(c, v)
	if f == nil {
		return false
	}
	s.facts = f
	return true
}

func (s *State) mark(k string, t *Term) {
	for _, m := range s.marks {
		if m.K == k && m.T == t {
			return
		}
	}
	n := append(append([]Mark(nil), s.marks...), Mark{k, t})
	sortMarks(n)
	s.marks = n
}

func (s *State) unmark(f func(Mark) bool) {
	var n []Mark
	for _, m := range s.marks {
		if !f(m) {
			n = append(n, m)
		}
	}
	s.marks = n
}

func sortMarks(n []Mark) {
	sort.Slice(n, func(i, j int) bool {
		if n[i].K != n[j].K {
			return n[i].K < n[j].K
		}
		return tid(n[i].T) < tid(n[j].T)
	})
}

func tid(t *Term) int {
	if t == nil {
		return -1
	}
	return t.ID
}

func (s *State) marked(k string) []*Term {
	var r []*Term
	for _, m := range s.marks {
		if m.K == k {
			r = append(r, m.T)
		}
	}
	return r
}

func (s *State) hasMark(k string, t *Term) bool {
	t = s.canon(t)
	for _, m := range s.marks {
		if m.K == k && s.canon(m.T) == t {
			return true
		}
	}
	return false
}

func (s *State) oblige(k string, t *Term) {
	for _, m := range s.obls {
		if m.K == k && m.T == t {
			return
		}
	}
	n := append(append([]Mark(nil), s.obls...), Mark{k, t})
	sortMarks(n)
	s.obls = n
}

func (s *State) discharge(f func(Mark) bool) {
	var n []Mark
	for _, m := range s.obls {
		if !f(m) {
			n = append(n, m)
		}
	}
	s.obls = n
}

func strHash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// sig: everything except facts
func (s *State) sig(live []int) uint64 {
	h := s.memHash
	if live == nil {
		for i, t := range s.env {
			if t != nil {
				h ^= mix(i+1000003, t.ID)
			}
		}
	} else {
		for _, i := range live {
			if t := s.env[i]; t != nil {
				h ^= mix(i+1000003, t.ID)
			}
		}
	}
	for i, l := range s.locks {
		h ^= strHash(l.name+l.sec) * uint64(2*i+3)
	}
	for _, m := range s.marks {
		h ^= strHash(m.K) * uint64(2*tid(m.T)+5)
	}
	for _, m := range s.obls {
		h ^= strHash(m.K) * uint64(2*tid(m.T)+77777)
	}
	for _, r := range s.lk {
		h ^= mix(r.m.ID, r.k.ID) ^ mix(r.val.ID, r.ok.ID+13)
		for _, x := range r.secs {
			h ^= strHash(x) * 31
		}
	}
	for i, d := range s.defers {
		h ^= mix(i, int(strHash(d.call.key())&0xffffff))
		for j, a := range d.args {
			h ^= mix(a.ID, j+i*10)
		}
	}
	for _, f := range s.foralls {
		h ^= f.key
	}
	h ^= uint64(s.gen+1) * 0x9E3779B97F4A7C15
	return h
}

func interForalls(a, b []*ForAll) []*ForAll {
	var r []*ForAll
	for _, x := range a {
		for _, y := range b {
			if x.key == y.key {
				r = append(r, x)
				break
			}
		}
	}
	return r
}

const capStates = 40

// reduce removes duplicates, merges complementary states and enforces the partition cap
func (in *Interp) reduce(states []*State, live []int, what string) []*State {
	if len(states) <= 1 {
		return states
	}
	type grp struct{ ss []*State }
	order := []uint64{}
	groups := map[uint64]*grp{}
	for _, s := range states {
		if s.dead {
			continue
		}
		k := s.sig(live)
		if in.pin != nil {
			for a, p := range s.facts.at {
				if in.pin(a) {
					k ^= boolHash(a, p)
				}
			}
		}
		g := groups[k]
		if g == nil {
			g = &grp{}
			groups[k] = g
			order = append(order, k)
		}
		g.ss = append(g.ss, s)
	}
	total := 0
	for _, k := range order {
		g := groups[k]
		g.ss = mergeGroup(g.ss)
		total += len(g.ss)
	}
	if total > in.cap {
		in.stat["forced-merge"]++
		// merge inside the groups by intersection, largest group first, the most similar neighbours first
		byLen := append([]uint64(nil), order...)
		sort.SliceStable(byLen, func(i, j int) bool { return len(groups[byLen[i]].ss) > len(groups[byLen[j]].ss) })
		for _, k := range byLen {
			g := groups[k]
			for len(g.ss) > 1 && total > in.cap {
				bi, bj, best := 0, 1, -1<<30
				lim := len(g.ss)
				for i := 0; i < lim; i++ {
					for j := i + 1; j < lim && j < i+8; j++ {
						if d := -diffFacts(g.ss[i].facts, g.ss[j].facts); d > best {
							bi, bj, best = i, j, d
						}
					}
				}
				a, b := g.ss[bi], g.ss[bj]
				n := *a
				n.memOwn = false
				a.memOwn = false
				n.facts = interFacts(a.facts, b.facts)
				ns := append([]*State(nil), g.ss[:bi]...)
				ns = append(ns, &n)
				ns = append(ns, g.ss[bi+1:bj]...)
				g.ss = append(ns, g.ss[bj+1:]...)
				total--
			}
		}
	}
	var out []*State
	for _, k := range order {
		out = append(out, groups[k].ss...)
	}
	if len(out) > 4*in.cap {
		in.stat["joined"]++
		if in.debug {
			println("JOIN", what, len(out))
		}
		out = in.joinAll(out, live, what)
	}
	return out
}

// diffFacts: number of facts the two do not share
func diffFacts(a, b *Facts) int {
	n := len(a.at) + len(b.at)
	for k, p := range a.at {
		if q, ok := b.at[k]; ok && p == q {
			n -= 2
		}
	}
	return n
}

func mergeGroup(ss []*State) []*State {
	for {
		changed := false
	outer:
		for i := 0; i < len(ss); i++ {
			for j := i + 1; j < len(ss); j++ {
				a, b := ss[i], ss[j]
				if subset(a.facts, b.facts) {
					ss = append(ss[:j:j], ss[j+1:]...)
					changed = true
					break outer
				}
				if subset(b.facts, a.facts) {
					ss = append(ss[:i:i], ss[i+1:]...)
					changed = true
					break outer
				}
				if d, ok := complement(a.facts, b.facts); ok {
					m := map[*Term]bool{}
					for k, p := range a.facts.at {
						if k != d {
							m[k] = p
						}
					}
					n := *a
					a.memOwn = false
					n.memOwn = false
					n.facts = factsOf(m)
					ns := append([]*State(nil), ss[:i]...)
					ns = append(ns, &n)
					ns = append(ns, ss[i+1:j]...)
					ns = append(ns, ss[j+1:]...)
					ss = ns
					changed = true
					break outer
				}
			}
		}
		if !changed {
			return ss
		}
	}
}

// joinAll: pointwise join of states with equal locks, marks, obligations and defers (used only above the hard cap)
func (in *Interp) joinAll(ss []*State, live []int, what string) []*State {
	type key struct{ l, m string }
	groups := map[string][]*State{}
	var order []string
	for _, s := range ss {
		k := ""
		for _, l := range s.locks {
			k += l.name + l.sec + ";"
		}
		k += "|"
		for _, m := range s.marks {
			k += m.K + ":" + itoa(tid(m.T)) + ";"
		}
		k += "|"
		for _, m := range s.obls {
			k += m.K + ":" + itoa(tid(m.T)) + ";"
		}
		if in.pin != nil {
			h := uint64(0)
			for a, p := range s.facts.at {
				if in.pin(a) {
					h ^= boolHash(a, p)
				}
			}
			k += "|" + strconv.FormatUint(h, 36)
		}
		k += "|" + itoa(s.gen) + "|"
		for _, d := range s.defers {
			k += d.call.key() + ";"
		}
		if _, ok := groups[k]; !ok {
			order = append(order, k)
		}
		groups[k] = append(groups[k], s)
	}
	var out []*State
	for _, k := range order {
		g := groups[k]
		r := g[0].clone()
		for _, s := range g[1:] {
			r.facts = interFacts(r.facts, s.facts)
			r.foralls = interForalls(r.foralls, s.foralls)
			for i := range r.env {
				if r.env[i] != s.env[i] {
					if r.env[i] == nil || s.env[i] == nil {
						r.env[i] = nil
						continue
					}
					r.env[i] = tSym("join:"+what+":"+itoa(i), r.env[i].T)
				}
			}
			for m, v := range r.mem {
				if w, ok := s.mem[m]; !ok || w != v {
					r.setMem(m, tSym("joinmem:"+what+":"+itoa(m.ID), v.T))
				}
			}
			for m, v := range s.mem {
				if _, ok := r.mem[m]; !ok {
					r.setMem(m, tSym("joinmem:"+what+":"+itoa(m.ID), v.T))
				}
			}
			var lk []lkRec
			for _, x := range r.lk {
				for _, y := range s.lk {
					if x.m == y.m && x.k == y.k && x.val == y.val && x.ok == y.ok {
						lk = append(lk, x)
						break
					}
				}
			}
			r.lk = lk
		}
		out = append(out, r)
	}
	return out
}
