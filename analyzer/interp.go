package main

// Path-sensitive, context-sensitive abstract interpretation of the SSA form.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callee struct {
	fn    *ssa.Function
	binds []*Term
	name  string // external / builtin
	sig   *types.Signature
	iface bool
}

func (c *callee) key() string {
	if c.fn != nil {
		return c.fn.RelString(nil)
	}
	return c.name
}

type Exit struct {
	s   *State
	ret *Term
}

type LoopTok struct {
	tok   *Term
	inits []*Term
	backs []BackVal
	exits []*Facts // what is known when the loop head leaves the loop
}

type BackVal struct {
	val   *Term
	facts *Facts
	marks []Mark
}

type Event struct {
	Kind  string // call, ret, load, store, lookup, mapupd, mapdel, maprange, maplen, lock, unlock, spawn, terminate, exit
	Fn    *ssa.Function
	Instr ssa.Instruction
	S     *State
	Name  string  // callee
	Args  []*Term // raw argument terms
	Snap  []*Term // snapshot arguments
	Addr  *Term
	Val   *Term
	Key   *Term
	Ok    *Term
	Mode  string
	Sec   string
	Truth bool
	All   *ForAll
}

type Interp struct {
	prog        *Prog
	mute        int
	obs         []func(in *Interp, e *Event)
	opaque      map[string]bool
	stat        map[string]int
	ctxTab      map[string]int
	ctxName     []string
	ctx         int
	stack       []*ssa.Function
	thread      []string // thread stack
	threadID    string
	instTab     map[string]int
	loops       map[string]*LoopTok
	spawned     map[string][]Mark
	lkGen       map[*Term]int // generation of a lookup
	lkSite      map[*Term]ssa.Instruction
	lkHeld      map[*Term][]string
	modelFn     map[string]func(in *Interp, c *callee, args []*Term, s *State, site ssa.Instruction) []Exit
	noSpawn     bool
	siteSpawn   bool   // analyse a thread once per place it is started from
	threadKey   string // the chain of spawns that leads to the current thread
	threadMulti bool   // several instances of the current thread may run at once
	loopDepth   int    // loops around the current call in this thread
	cap         int
	pin         func(*Term) bool // facts whose loss in a merge is not acceptable
	keepFact    func(*Term) bool
	analysed    map[*ssa.Function]bool
	steps       int
	maxSteps    int
	debug       bool
	incomplete  string
}

func newInterp(p *Prog) *Interp {
	return &Interp{prog: p, cap: capStates, opaque: map[string]bool{}, stat: map[string]int{}, ctxTab: map[string]int{}, ctxName: []string{"root"},
		instTab: map[string]int{}, loops: map[string]*LoopTok{}, spawned: map[string][]Mark{}, lkGen: map[*Term]int{}, lkSite: map[*Term]ssa.Instruction{}, lkHeld: map[*Term][]string{},
		modelFn: map[string]func(in *Interp, c *callee, args []*Term, s *State, site ssa.Instruction) []Exit{}, analysed: map[*ssa.Function]bool{}, maxSteps: 30000000, debug: os.Getenv("CTNG_DEBUG") != ""}
}

func (in *Interp) subctx(tag string) int {
	k := itoa(in.ctx) + "/" + tag
	if c, ok := in.ctxTab[k]; ok {
		return c
	}
	c := len(in.ctxName)
	in.ctxTab[k] = c
	in.ctxName = append(in.ctxName, k)
	return c
}

func siteKey(i ssa.Instruction) string {
	if i == nil || i.Parent() == nil {
		return "?"
	}
	b := i.Block()
	for n, x := range b.Instrs {
		if x == i {
			return i.Parent().RelString(nil) + ":" + itoa(b.Index) + "." + itoa(n)
		}
	}
	return i.Parent().RelString(nil)
}

func (in *Interp) inst(i ssa.Instruction) int {
	k := siteKey(i) + "#" + itoa(in.ctx)
	if n, ok := in.instTab[k]; ok {
		return n
	}
	n := len(in.instTab) + 1
	in.instTab[k] = n
	return n
}

func (in *Interp) emit(e *Event) {
	if e.S.dead {
		return
	}
	for _, o := range in.obs {
		o(in, e)
	}
}

func newState() *State {
	return &State{mem: map[*Term]*Term{}, memOwn: true, facts: newFacts()}
}

// ---- function execution ----

func (in *Interp) call(fn *ssa.Function, args, binds []*Term, s *State, site ssa.Instruction, tag string) []Exit {
	depth := 0
	for _, f := range in.stack {
		if f == fn {
			depth++
		}
	}
	if depth > 4 || len(in.stack) > 60 {
		in.stat["recursion-cut"]++
		in.note("recursion limit reached in " + fn.RelString(nil))
		return nil
	}
	in.steps++
	if in.steps > in.maxSteps {
		in.note("step limit reached")
		return nil
	}
	in.analysed[fn] = true
	fi := infoOf(fn)
	saveCtx := in.ctx
	in.ctx = in.subctx(tag)
	in.stack = append(in.stack, fn)
	saveEnv, saveDef := s.env, s.defers
	s.env = make([]*Term, fi.nvals)
	s.defers = nil
	for i, p := range fn.Params {
		if i < len(args) {
			s.env[fi.idx[p]] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			s.env[fi.idx[p]] = binds[i]
		}
	}
	fr := &frame{fn: fn, fi: fi}
	myctx := in.ctx
	in.runRegion(fr, nil, fn.Blocks[0], []*State{s})
	in.stack = in.stack[:len(in.stack)-1]
	in.ctx = saveCtx
	// group exits by return value
	byRet := map[*Term][]*State{}
	var order []*Term
	for _, x := range fr.exits {
		x.s.env = saveEnv
		x.s.defers = saveDef
		in.gc(x.s, x.ret, myctx)
		if _, ok := byRet[x.ret]; !ok {
			order = append(order, x.ret)
		}
		byRet[x.ret] = append(byRet[x.ret], x.s)
	}
	var out []Exit
	for _, r := range order {
		for _, t := range in.reduce(byRet[r], []int{}, "ret:"+fn.RelString(nil)+itoa(in.ctx)) {
			if t.env == nil && saveEnv != nil {
				t.env = saveEnv
			}
			out = append(out, Exit{t, r})
		}
	}
	// each exit needs its own env slice
	for i := range out {
		out[i].s.env = append([]*Term(nil), saveEnv...)
		out[i].s.defers = saveDef
	}
	return out
}

func (in *Interp) note(m string) {
	if in.incomplete == "" {
		in.incomplete = m
	}
}

// gc drops objects allocated in this call (or deeper) that are no longer reachable
func (in *Interp) gc(s *State, ret *Term, ctx int) {
	pre := ctx
	var cand map[*Term]bool
	for k := range s.mem {
		if k.Op == OAddr && k.N >= pre && in.ctxUnder(k.N, ctx) {
			if cand == nil {
				cand = map[*Term]bool{}
			}
			cand[k] = true
		}
	}
	if cand == nil {
		return
	}
	reach := map[*Term]bool{}
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		walkSeen(t, func(x *Term) bool {
			if cand[x] && !reach[x] {
				reach[x] = true
				if c, ok := s.mem[x]; ok {
					visit(c)
				}
			}
			return true
		}, seen)
	}
	if ret != nil {
		visit(ret)
	}
	for k, v := range s.mem {
		if !cand[k] {
			visit(k)
			visit(v)
		}
	}
	for _, m := range s.marks {
		if m.T != nil {
			visit(m.T)
		}
	}
	for k := range cand {
		if !reach[k] {
			s.delMem(k)
		}
	}
}

func (in *Interp) ctxUnder(c, anc int) bool {
	for c != anc {
		if c <= 0 || c < anc {
			return false
		}
		n := in.ctxName[c]
		i := strings.IndexByte(n, '/')
		if i < 0 {
			return false
		}
		p := 0
		fmt.Sscanf(n[:i], "%d", &p)
		c = p
	}
	return true
}

type frame struct {
	fn    *ssa.Function
	fi    *FuncInfo
	exits []Exit
}

type edgeState struct {
	from, to *ssa.BasicBlock
	s        *State
}

func predIndex(from, to *ssa.BasicBlock) int {
	for i, p := range to.Preds {
		if p == from {
			return i
		}
	}
	return -1
}

// traverse assigns the phis of to
func (in *Interp) traverse(fr *frame, e edgeState) {
	pi := predIndex(e.from, e.to)
	var vals []*Term
	var idx []int
	for _, i := range e.to.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, in.val(fr, e.s, ph.Edges[pi]))
		idx = append(idx, fr.fi.idx[ph])
	}
	for i, k := range idx {
		e.s.env[k] = vals[i]
	}
}

// runRegion executes the blocks of loop L (nil: whole function) from start; returns back-edge and exit-edge states
func (in *Interp) runRegion(fr *frame, L *Loop, start *ssa.BasicBlock, states []*State) (backs []edgeState, exits []edgeState) {
	pending := map[*ssa.BasicBlock][]*State{start: states}
	dist := func(es []edgeState) {
		for _, e := range es {
			if e.s.dead {
				continue
			}
			switch {
			case L != nil && e.to == L.header:
				backs = append(backs, e)
			case L != nil && !L.body[e.to]:
				exits = append(exits, e)
			default:
				in.traverse(fr, e)
				pending[e.to] = append(pending[e.to], e.s)
			}
		}
	}
	for p := fr.fi.pos[start]; p < len(fr.fi.rpo); p++ {
		b := fr.fi.rpo[p]
		ss := pending[b]
		if len(ss) == 0 {
			continue
		}
		delete(pending, b)
		ss = in.reduce(ss, fr.fi.livein[b], fr.fn.RelString(nil)+":"+itoa(b.Index)+"#"+itoa(in.ctx))
		if M := fr.fi.loops[b]; M != nil && M != L {
			dist(in.execLoop(fr, M, ss))
			continue
		}
		dist(in.execBlock(fr, b, ss))
	}
	return
}

// execBlock runs the instructions of a block
func (in *Interp) execBlock(fr *frame, b *ssa.BasicBlock, ss []*State) []edgeState {
	cur := ss
	for _, i := range b.Instrs {
		switch x := i.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			var out []edgeState
			for _, s := range cur {
				out = append(out, edgeState{b, b.Succs[0], s})
			}
			return out
		case *ssa.If:
			var out []edgeState
			for _, s := range cur {
				out = append(out, in.branch(fr, b, x, s)...)
			}
			return out
		case *ssa.Return:
			for _, s := range cur {
				var r *Term
				switch len(x.Results) {
				case 0:
				case 1:
					r = in.val(fr, s, x.Results[0])
				default:
					var rs []*Term
					for _, v := range x.Results {
						rs = append(rs, in.val(fr, s, v))
					}
					r = mkTuple(rs...)
				}
				fr.exits = append(fr.exits, Exit{s, r})
			}
			return nil
		case *ssa.Panic:
			for _, s := range cur {
				in.emit(&Event{Kind: "terminate", Name: "panic", Fn: fr.fn, Instr: x, S: s, Args: []*Term{in.val(fr, s, x.X)}})
			}
			return nil
		}
		var next []*State
		for _, s := range cur {
			next = append(next, in.exec(fr, i, s)...)
		}
		cur = next
		if len(cur) == 0 {
			return nil
		}
		if len(cur) > in.cap {
			cur = in.reduce(cur, nil, fr.fn.RelString(nil)+":i"+itoa(b.Index)+"#"+itoa(in.ctx))
		}
	}
	return nil
}

func (in *Interp) branch(fr *frame, b *ssa.BasicBlock, x *ssa.If, s *State) []edgeState {
	c := in.val(fr, s, x.Cond)
	if v, ok := s.facts.decide(c); ok {
		in.fact(fr, x, s, c, v)
		if v {
			return []edgeState{{b, b.Succs[0], s}}
		}
		return []edgeState{{b, b.Succs[1], s}}
	}
	t := s.clone()
	var out []edgeState
	if in.assumeCond(s, c, true) {
		s.trace = &Trace{s.trace, x, true}
		in.fact(fr, x, s, c, true)
		out = append(out, edgeState{b, b.Succs[0], s})
	}
	if in.assumeCond(t, c, false) {
		t.trace = &Trace{t.trace, x, false}
		in.fact(fr, x, t, c, false)
		out = append(out, edgeState{b, b.Succs[1], t})
	}
	return out
}

// fact reports the outcome of a branch: Key is the atom, Truth its value on this edge
func (in *Interp) fact(fr *frame, x ssa.Instruction, s *State, c *Term, v bool) {
	a, pol := atom(c)
	if a == tTrue || a == tFalse {
		return
	}
	e := &Event{Kind: "fact", Fn: fr.fn, Instr: x, S: s, Key: a, Truth: v == pol}
	for _, o := range in.obs {
		o(in, e)
	}
}

// assumeCond adds the fact and, for boolean loop tokens, what the loop tells about it
func (in *Interp) assumeCond(s *State, c *Term, v bool) bool {
	if !s.assume(c, v) {
		return false
	}
	a, pol := atom(c)
	if !pol {
		v = !v
	}
	in.tokenFacts(s, a, v)
	return true
}

// tokenFacts: a is a boolean accumulator of a finished loop; record what its value says about the iterations
func (in *Interp) tokenFacts(s *State, a *Term, v bool) {
	if a.Op != OTok {
		return
	}
	lt := in.loops[a.S]
	if lt == nil || len(lt.backs) == 0 {
		return
	}
	initSame := true
	for _, i := range lt.inits {
		if i != tBool(!v) {
			initSame = false
		}
	}
	if initSame {
		// value differs from the initial one: some iteration changed it
		var f *Facts
		for _, b := range lt.backs {
			if b.val == a || b.val == tBool(!v) {
				continue
			}
			if f == nil {
				f = b.facts
			} else {
				f = interFacts(f, b.facts)
			}
		}
		if f != nil {
			s.addForAll(&ForAll{loop: "exists:" + a.S, facts: f})
		}
		return
	}
	allInit := true
	for _, i := range lt.inits {
		if i != tBool(v) {
			allInit = false
		}
	}
	if allInit {
		// still the initial value: every iteration left it alone, unless some iteration resets it
		var f *Facts
		for _, b := range lt.backs {
			if b.val == tBool(v) {
				return // can be reset
			}
			if b.val != a {
				continue
			}
			if f == nil {
				f = b.facts
			} else {
				f = interFacts(f, b.facts)
			}
		}
		if f != nil {
			in.finished(s, &ForAll{loop: "all:" + a.S, facts: f})
		}
	}
}

// finished records a completed loop and tells the rules
func (in *Interp) finished(s *State, f *ForAll) {
	s.addForAll(f)
	in.emit(&Event{Kind: "forall", S: s, All: f})
}

func (s *State) addForAll(f *ForAll) {
	h := strHash(f.loop) ^ f.facts.hash
	for _, m := range f.marks {
		h ^= strHash(m.K) * uint64(2*tid(m.T)+5)
	}
	f.key = h
	for _, g := range s.foralls {
		if g.key == h {
			return
		}
	}
	n := append(append([]*ForAll(nil), s.foralls...), f)
	sort.Slice(n, func(i, j int) bool { return n[i].key < n[j].key })
	s.foralls = n
}

// ---- loops ----

const maxPeel = 20

func headerExit(L *Loop) (*ssa.If, bool) {
	h := L.header
	x, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return nil, false
	}
	return x, !L.body[h.Succs[0]] || !L.body[h.Succs[1]]
}

func (in *Interp) execLoop(fr *frame, L *Loop, ss []*State) []edgeState {
	in.loopDepth++
	defer func() { in.loopDepth-- }()
	var out []edgeState
	work := ss
	type item struct {
		s *State
		n int
	}
	var items []item
	for _, s := range work {
		items = append(items, item{s, 0})
	}
	var abs []*State
	for len(items) > 0 {
		it := items[0]
		items = items[1:]
		x, isExit := headerExit(L)
		decided := false
		if isExit && it.n < maxPeel && len(items) < 200 {
			in.mute++
			t := it.s.clone()
			es := in.execBlock(fr, L.header, []*State{t})
			in.mute--
			if len(es) == 1 && es[0].s.facts == it.s.facts {
				decided = true
			} else if len(es) == 1 {
				// decided through a call or nothing was assumed at the branch
				decided = es[0].s.trace == it.s.trace
			}
		}
		_ = x
		if !decided {
			abs = append(abs, it.s)
			continue
		}
		save := in.ctx
		in.ctx = in.subctx("peel:" + L.key + ":" + itoa(it.n))
		backs, exits := in.runRegion(fr, L, L.header, []*State{it.s})
		in.ctx = save
		out = append(out, exits...)
		var bs []*State
		for _, e := range backs {
			in.traverse(fr, e)
			bs = append(bs, e.s)
		}
		bs = in.reduce(bs, fr.fi.livein[L.header], "peel:"+L.key+itoa(in.ctx))
		for _, s := range bs {
			items = append(items, item{s, it.n + 1})
		}
	}
	abs = in.reduce(abs, fr.fi.livein[L.header], "loop:"+L.key+itoa(in.ctx))
	for _, s := range abs {
		out = append(out, in.absLoop(fr, L, s)...)
	}
	return out
}

type memPath struct {
	root *Term
	path string
}

func (in *Interp) absLoop(fr *frame, L *Loop, s *State) []edgeState {
	lkey := L.key + "#" + itoa(in.ctx)
	tokPhi := map[int]bool{}
	tokMem := map[memPath]types.Type{}
	var obls []Mark
	lkDrop := map[string]bool{}
	markDrop := map[Mark]bool{}
	gen := s.gen
	var phis []*ssa.Phi
	for _, i := range L.header.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
	}
	// a range-over-map loop re-executes Next: its iterator is a token through OMapKey
	mkHeader := func() *State {
		h := s.clone()
		for _, ph := range phis {
			k := fr.fi.idx[ph]
			if tokPhi[k] {
				h.env[k] = in.tok(lkey+":"+phiName(ph), ph.Type())
			}
		}
		var ps []memPath
		for p := range tokMem {
			ps = append(ps, p)
		}
		sort.Slice(ps, func(i, j int) bool {
			if ps[i].root.ID != ps[j].root.ID {
				return ps[i].root.ID < ps[j].root.ID
			}
			return ps[i].path < ps[j].path
		})
		for _, p := range ps {
			c, ok := h.mem[p.root]
			if !ok {
				c = in.defaultContent(p.root)
			}
			h.setMem(p.root, setPath(c, p.path, in.tok(lkey+":mem"+itoa(p.root.ID)+p.path, tokMem[p])))
		}
		for _, o := range obls {
			h.oblige(o.K, o.T)
		}
		h.unmark(func(m Mark) bool { return markDrop[m] })
		var lk []lkRec
		for _, r := range h.lk {
			if !lkDrop[lkKey(r)] {
				lk = append(lk, r)
			}
		}
		h.lk = lk
		h.gen = gen
		return h
	}
	var h *State
	for round := 0; ; round++ {
		h = mkHeader()
		h0 := h.clone()
		in.mute++
		saveExits := fr.exits
		backs, _ := in.runRegion(fr, L, L.header, []*State{h})
		fr.exits = saveExits
		in.mute--
		changed := false
		for _, e := range backs {
			in.traverse(fr, e)
			for _, ph := range phis {
				k := fr.fi.idx[ph]
				if !tokPhi[k] && e.s.canon(e.s.env[k]) != e.s.canon(h0.env[k]) {
					tokPhi[k] = true
					changed = true
				}
			}
			for m, v := range e.s.mem {
				w, ok := h0.mem[m]
				if !ok {
					if m.Op == OAddr && in.ctxUnder(m.N, in.ctx) && !in.liveAlloc(h0, m) {
						continue // allocated inside the iteration
					}
					w = in.defaultContent(m)
				}
				if v != w {
					diffPath(w, v, "", func(p string, t types.Type) {
						mp := memPath{m, p}
						if _, ok := tokMem[mp]; !ok {
							// an enclosing path already tokenised?
							for q := range tokMem {
								if q.root == m && strings.HasPrefix(p, q.path) {
									return
								}
							}
							tokMem[mp] = t
							changed = true
						}
					})
				}
			}
			for _, o := range e.s.obls {
				have := false
				for _, q := range h0.obls {
					if q == o {
						have = true
					}
				}
				if !have {
					obls = append(obls, o)
					changed = true
				}
			}
			for _, m := range h0.marks {
				if !e.s.hasMark(m.K, m.T) && !markDrop[m] {
					markDrop[m] = true
					changed = true
				}
			}
			for _, r := range h0.lk {
				found := false
				for _, q := range e.s.lk {
					if q.m == r.m && q.k == r.k && q.val == r.val && q.ok == r.ok {
						found = true
					}
				}
				if !found && !lkDrop[lkKey(r)] {
					lkDrop[lkKey(r)] = true
					changed = true
				}
			}
			if e.s.gen > h0.gen && gen == s.gen {
				gen = e.s.gen
				changed = true
			}
		}
		if !changed {
			break
		}
		if round > 12 {
			in.note("loop " + lkey + " did not stabilise")
			break
		}
	}
	// final run with events
	h = mkHeader()
	h0 := h.clone()
	backs, exits := in.runRegion(fr, L, L.header, []*State{h})
	var common *Facts
	var marks []Mark
	nb := 0
	if in.mute == 0 {
		for _, ph := range phis {
			k := fr.fi.idx[ph]
			if tokPhi[k] {
				lt := in.loopTok(h0.env[k])
				lt.addInit(s.env[k])
			}
		}
		for p := range tokMem {
			t := in.tok(lkey+":mem"+itoa(p.root.ID)+p.path, tokMem[p])
			c, ok := s.mem[p.root]
			if !ok {
				c = in.defaultContent(p.root)
			}
			in.loopTok(t).addInit(getPath(c, p.path))
		}
	}
	for _, e := range backs {
		in.traverse(fr, e)
		if !sameLocks(e.s.locks, h0.locks) {
			in.emit(&Event{Kind: "looplock", Fn: fr.fn, Instr: L.header.Instrs[0], S: e.s})
		}
		df := minusFacts(e.s.facts, h0.facts)
		if nb == 0 {
			common = df
			marks = minusMarks(e.s.marks, h0.marks)
		} else {
			common = interFacts(common, df)
			marks = interMarks(marks, minusMarks(e.s.marks, h0.marks))
		}
		nb++
		if in.mute == 0 {
			for _, ph := range phis {
				k := fr.fi.idx[ph]
				if tokPhi[k] {
					lt := in.loopTok(h0.env[k])
					lt.backs = append(lt.backs, BackVal{e.s.canonKeep(e.s.env[k], h0.env[k]), df, minusMarks(e.s.marks, h0.marks)})
				}
			}
			for p := range tokMem {
				t := in.tok(lkey+":mem"+itoa(p.root.ID)+p.path, tokMem[p])
				c, ok := e.s.mem[p.root]
				if !ok {
					c = in.defaultContent(p.root)
				}
				lt := in.loopTok(t)
				lt.backs = append(lt.backs, BackVal{getPath(c, p.path), df, minusMarks(e.s.marks, h0.marks)})
			}
		}
	}
	for _, e := range exits {
		if e.from == L.header && nb > 0 {
			if in.mute == 0 {
				for _, ph := range phis {
					if k := fr.fi.idx[ph]; tokPhi[k] {
						lt := in.loopTok(h0.env[k])
						lt.exits = append(lt.exits, e.s.facts)
					}
				}
				for p := range tokMem {
					lt := in.loopTok(in.tok(lkey+":mem"+itoa(p.root.ID)+p.path, tokMem[p]))
					lt.exits = append(lt.exits, e.s.facts)
				}
			}
			in.finished(e.s, &ForAll{loop: lkey, facts: common, marks: marks})
		}
	}
	return exits
}

// canonKeep canonicalises a back-edge value but keeps the loop token itself recognisable
func (s *State) canonKeep(v, tok *Term) *Term {
	if v == tok {
		return v
	}
	return v
}

func (lt *LoopTok) addInit(t *Term) {
	for _, i := range lt.inits {
		if i == t {
			return
		}
	}
	lt.inits = append(lt.inits, t)
}

func (in *Interp) loopTok(t *Term) *LoopTok {
	lt := in.loops[t.S]
	if lt == nil {
		lt = &LoopTok{tok: t}
		in.loops[t.S] = lt
	}
	return lt
}

func (in *Interp) liveAlloc(h *State, m *Term) bool {
	for _, t := range h.env {
		if t != nil && contains(t, m) {
			return true
		}
	}
	return false
}

func lkKey(r lkRec) string {
	return itoa(r.m.ID) + "," + itoa(r.k.ID) + "," + itoa(r.val.ID) + "," + itoa(r.ok.ID)
}

func sameLocks(a, b []Lock) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].name != b[i].name || a[i].write != b[i].write {
			return false
		}
	}
	return true
}

func minusFacts(a, b *Facts) *Facts {
	m := map[*Term]bool{}
	for k, p := range a.at {
		if q, ok := b.at[k]; ok && q == p {
			continue
		}
		m[k] = p
	}
	return factsOf(m)
}

func minusMarks(a, b []Mark) []Mark {
	var r []Mark
	for _, x := range a {
		f := false
		for _, y := range b {
			if x == y {
				f = true
			}
		}
		if !f {
			r = append(r, x)
		}
	}
	return r
}

func interMarks(a, b []Mark) []Mark {
	var r []Mark
	for _, x := range a {
		for _, y := range b {
			if x == y {
				r = append(r, x)
				break
			}
		}
	}
	return r
}

func phiName(ph *ssa.Phi) string {
	n := ph.Comment
	if n == "" {
		n = "phi"
	}
	return n + "." + ph.Name()
}

func (in *Interp) tok(name string, t types.Type) *Term { return mk(OTok, name, 0, t) }

// diffPath reports the record paths at which two contents differ
func diffPath(a, b *Term, p string, f func(string, types.Type)) {
	if a == b {
		return
	}
	t := b.T
	if t == nil {
		t = a.T
	}
	if st := structOf(t); st != nil && (b.Op == ORec || b.Op == OZero) && b.S != "tuple" {
		for i := 0; i < st.NumFields(); i++ {
			diffPath(mkField(a, i, t), mkField(b, i, t), p+"."+itoa(i), f)
		}
		return
	}
	f(p, t)
}

func setPath(c *Term, p string, v *Term) *Term {
	if p == "" {
		return v
	}
	n := 0
	rest := ""
	fmt.Sscanf(p[1:], "%d", &n)
	if i := strings.IndexByte(p[1:], '.'); i >= 0 {
		rest = p[1+i:]
	}
	return setField(c, n, setPath(mkField(c, n, c.T), rest, v), c.T)
}

func getPath(c *Term, p string) *Term {
	for p != "" {
		n := 0
		fmt.Sscanf(p[1:], "%d", &n)
		rest := ""
		if i := strings.IndexByte(p[1:], '.'); i >= 0 {
			rest = p[1+i:]
		}
		c = mkField(c, n, c.T)
		p = rest
	}
	return c
}

// ---- values ----

func (in *Interp) val(fr *frame, s *State, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return constTerm(x)
	case *ssa.Global:
		return in.globalAddr(x)
	case *ssa.Function:
		return fnTerm(x)
	case *ssa.Builtin:
		return mk(OFunc, "builtin:"+x.Name(), 0, x.Type())
	}
	k, ok := fr.fi.idx[v]
	if !ok {
		return tSym("unk:"+v.Name(), v.Type())
	}
	t := s.env[k]
	if t == nil {
		// value not computed on this path (joined away)
		return tSym("undef:"+fr.fn.RelString(nil)+":"+v.Name()+"#"+itoa(in.ctx), v.Type())
	}
	return t
}

func fnTerm(x *ssa.Function) *Term {
	t := mk(OFunc, x.RelString(nil), 0, x.Type())
	t.fn = x
	return t
}

func (in *Interp) globalAddr(g *ssa.Global) *Term {
	id := "global:" + g.RelString(nil)
	t := mk(OAddr, id, -1, g.Type())
	if objTab[id] == nil {
		objTab[id] = &Obj{T: derefType(g.Type())}
	}
	return t
}

func (in *Interp) alloc(site ssa.Instruction, t types.Type, suffix string) *Term {
	id := siteKey(site) + suffix + "#" + itoa(in.ctx)
	a := mk(OAddr, id, in.ctx, types.NewPointer(t))
	if objTab[id] == nil {
		objTab[id] = &Obj{T: t, loc: in.prog.pos(site), thread: in.threadKey, site: site}
	}
	return a
}

func (in *Interp) defaultContent(p *Term) *Term {
	if p.Op == OAddr {
		if strings.HasPrefix(p.S, "global:") {
			if c := in.prog.globalInit(p.S[7:]); c != nil {
				return c
			}
		}
		var t types.Type
		if o := objTab[p.S]; o != nil {
			t = o.T
		}
		return mk(ODeref, "", 0, t, p)
	}
	if p.T != nil {
		if _, ok := p.T.Underlying().(*types.Slice); ok {
			return p
		}
	}
	t := derefType(p.T)
	return mk(ODeref, "", 0, t, p)
}

func (in *Interp) load(s *State, a *Term) *Term {
	switch a.Op {
	case OFieldPtr:
		b := in.load(s, a.A[0])
		return mkField(b, a.N, derefType(a.A[0].T))
	case OIndexPtr:
		return in.loadIdx(s, a.A[0], a.A[1], derefType(a.T))
	}
	if c, ok := s.mem[a]; ok {
		return c
	}
	if len(s.facts.rep) > 0 && a.Op != OAddr {
		if b := s.canon(a); b != a && b != tNil {
			return in.load(s, b)
		}
	}
	return in.defaultContent(a)
}

func isPtrToArray(t types.Type) bool {
	if t == nil {
		return false
	}
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = p.Elem().Underlying().(*types.Array)
	return ok
}

func addIdx(a, b *Term) *Term {
	if a == tNone {
		return b
	}
	return mkBin("+", a, b, types.Typ[types.Int])
}

func (in *Interp) loadIdx(s *State, base, i *Term, et types.Type) *Term {
	if isPtrToArray(base.T) {
		return mkIndex(in.load(s, base), i, et)
	}
	if c, ok := s.mem[base]; ok {
		return mkIndex(c, i, et)
	}
	switch base.Op {
	case OSlice:
		j := addIdx(base.A[1], i)
		if base.A[0].Op == OAddr && !isPtrToArray(base.A[0].T) {
			return mkIndex(in.load(s, base.A[0]), j, et)
		}
		return in.loadIdx(s, base.A[0], j, et)
	case OAppend:
		if iv, ok := i.intVal(); ok {
			n0, ok0 := mkLen(base.A[0]).intVal()
			if ok0 {
				if iv < n0 {
					return in.loadIdx(s, base.A[0], i, et)
				}
				k := iv - n0
				for _, e := range base.A[1:] {
					if e.Op == OSpread {
						break
					}
					if k == 0 {
						return e
					}
					k--
				}
			}
		}
	}
	return mkIndex(base, i, et)
}

func (in *Interp) store(s *State, a, v *Term) {
	switch a.Op {
	case OFieldPtr:
		b := in.load(s, a.A[0])
		in.store(s, a.A[0], setField(b, a.N, v, derefType(a.A[0].T)))
		return
	case OIndexPtr:
		base, i := a.A[0], a.A[1]
		for base.Op == OSlice {
			if _, ok := s.mem[base]; ok {
				break
			}
			i = addIdx(base.A[1], i)
			base = base.A[0]
			if base.Op == OAddr || base.Op == OFieldPtr || base.Op == OIndexPtr {
				break
			}
		}
		if base.Op == OAddr || base.Op == OFieldPtr || base.Op == OIndexPtr || isPtrToArray(base.T) {
			c := in.load(s, base)
			t := c.T
			if d := derefType(base.T); d != nil {
				if _, ok := d.Underlying().(*types.Array); ok {
					t = d
				}
			}
			if t == nil {
				t = types.NewSlice(types.Typ[types.Int])
			}
			in.store(s, base, setIndex(c, i, v, t))
			return
		}
		c, ok := s.mem[base]
		if !ok {
			c = base
		}
		t := base.T
		if t == nil {
			t = types.NewSlice(types.Typ[types.Int])
		}
		s.setMem(base, setIndex(c, i, v, t))
		return
	}
	if len(s.facts.rep) > 0 && a.Op != OAddr {
		if b := s.canon(a); b != a && b != tNil {
			a = b
		}
	}
	s.setMem(a, v)
}

// sliceVal: the immutable value of a slice term at this point
func (in *Interp) sliceVal(s *State, t *Term) *Term {
	if c, ok := s.mem[t]; ok && t.Op != OAddr {
		return c
	}
	if t.Op == OSlice && t.A[1] == tNone && t.A[2] == tNone {
		b := t.A[0]
		if b.Op == OAddr || b.Op == OFieldPtr || b.Op == OIndexPtr {
			return in.load(s, b)
		}
		return in.sliceVal(s, b)
	}
	if t.Op == OSlice && (t.A[1] != tNone || t.A[2] != tNone) {
		b := t.A[0]
		if b.Op == OAddr || b.Op == OFieldPtr {
			b = in.load(s, b)
		} else {
			b = in.sliceVal(s, b)
		}
		lo, okl := int64(0), true
		if t.A[1] != tNone {
			lo, okl = t.A[1].intVal()
		}
		var hi int64
		okh := false
		if t.A[2] != tNone {
			hi, okh = t.A[2].intVal()
		}
		if b.Op == OArr && okl {
			if t.A[2] == tNone {
				hi, okh = int64(len(b.A)), true
			}
			if okh && lo <= hi && int(hi) <= len(b.A) {
				return mk(OAppend, "", 0, t.T, append([]*Term{tNil}, b.A[lo:hi]...)...)
			}
		}
		return mk(OSlice, "", 0, t.T, b, t.A[1], t.A[2])
	}
	return t
}

// sliceElems: the elements of a slice when all are known
func (in *Interp) sliceElems(s *State, t *Term) ([]*Term, bool) {
	v := in.sliceVal(s, t)
	switch v.Op {
	case OArr:
		return v.A, true
	case OZero:
		if a, ok := v.T.Underlying().(*types.Array); ok && a.Len() <= maxArr {
			var r []*Term
			for i := int64(0); i < a.Len(); i++ {
				r = append(r, zeroOf(a.Elem()))
			}
			return r, true
		}
	case OMakeArr:
		if v.A[0] == tInt(0) {
			return nil, true
		}
	case OConst:
		if v == tNil {
			return nil, true
		}
	case OAppend:
		base, ok := in.sliceElems(s, v.A[0])
		if !ok {
			return nil, false
		}
		r := append([]*Term(nil), base...)
		for _, e := range v.A[1:] {
			if e.Op == OSpread {
				return nil, false
			}
			r = append(r, e)
		}
		return r, true
	}
	if v.T != nil {
		if a, ok := v.T.Underlying().(*types.Array); ok && a.Len() <= maxArr {
			var r []*Term
			for i := int64(0); i < a.Len(); i++ {
				r = append(r, mkIndex(v, tInt(i), a.Elem()))
			}
			return r, true
		}
	}
	return nil, false
}

func isByteSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := sl.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

func (in *Interp) appendVal(s *State, base, more *Term, t types.Type) *Term {
	bv := in.sliceVal(s, base)
	if isByteSlice(t) {
		if es, ok := in.sliceElems(s, bv); ok && len(es) == 0 {
			bv = tNil
		}
		if es, ok := in.sliceElems(s, more); ok && len(es) > 0 && len(es) <= 8 && !isStrT(more.T) {
			// single bytes
			b := bv
			for _, e := range es {
				b = mkConcat(b, mk(OConv, "byte", 0, types.Typ[types.String], e))
			}
			return b
		}
		return mkConcat(bv, in.sliceVal(s, more))
	}
	var parts []*Term
	b0 := bv
	switch {
	case bv.Op == OArr:
		b0 = tNil
		parts = append(parts, bv.A...)
	case bv.Op == OMakeArr && bv.A[0] == tInt(0):
		b0 = tNil
	case bv.Op == OAppend:
		b0 = bv.A[0]
		parts = append(parts, bv.A[1:]...)
	case bv.Op == OZero:
		if es, ok := in.sliceElems(s, bv); ok {
			b0 = tNil
			parts = append(parts, es...)
		}
	}
	if es, ok := in.sliceElems(s, more); ok {
		parts = append(parts, es...)
	} else {
		mv := in.sliceVal(s, more)
		if mv.Op == OAppend && mv.A[0] == tNil {
			parts = append(parts, mv.A[1:]...)
		} else {
			parts = append(parts, mk(OSpread, "", 0, mv.T, mv))
		}
	}
	if len(parts) == 0 {
		return base
	}
	return mk(OAppend, "", 0, t, append([]*Term{b0}, parts...)...)
}

// snap: value of t with the content of local objects made explicit
func (in *Interp) snap(s *State, t *Term) *Term { return in.snapD(s, t, 0, map[*Term]bool{}) }

func (in *Interp) snapD(s *State, t *Term, d int, seen map[*Term]bool) *Term {
	if t == nil || d > 10 {
		return t
	}
	switch t.Op {
	case OIface:
		return in.snapD(s, t.A[0], d, seen)
	case OAddr:
		if seen[t] || strings.HasPrefix(t.S, "global:") {
			return t
		}
		c, ok := s.mem[t]
		if !ok {
			return t
		}
		seen[t] = true
		r := mk(ORef, "", 0, t.T, in.snapD(s, c, d+1, seen))
		delete(seen, t)
		return r
	case OFieldPtr, OIndexPtr:
		root := t
		for root.Op == OFieldPtr || root.Op == OIndexPtr {
			root = root.A[0]
		}
		if _, ok := s.mem[root]; ok && (root.Op == OAddr) {
			return mk(ORef, "", 0, t.T, in.snapD(s, in.load(s, t), d+1, seen))
		}
		return t
	case OSlice:
		v := in.sliceVal(s, t)
		if v != t {
			return in.snapD(s, v, d+1, seen)
		}
		return t
	case OConst, OSym, OTok, OZero, OErr, OFunc:
		return t
	case OCall:
		if c, ok := s.mem[t]; ok {
			return mk(OState, "content", 0, t.T, t, c)
		}
		return t
	}
	if t.T != nil {
		if _, ok := t.T.Underlying().(*types.Slice); ok {
			if c, ok := s.mem[t]; ok && c != t {
				return in.snapD(s, c, d+1, seen)
			}
		}
	}
	if len(t.A) == 0 {
		return t
	}
	switch t.Op {
	case ORec, OArr, OAppend, OSpread, OUpd, OMapUpd, OMapDel, OConcat, OBuf:
		ch := false
		na := make([]*Term, len(t.A))
		for i, a := range t.A {
			na[i] = in.snapD(s, a, d+1, seen)
			if na[i] != a {
				ch = true
			}
		}
		if ch {
			return rebuild(t, na)
		}
	}
	return t
}

// ---- instructions ----

func one(s *State) []*State { return []*State{s} }

func (in *Interp) exec(fr *frame, i ssa.Instruction, s *State) []*State {
	set := func(v ssa.Value, t *Term) []*State {
		s.env[fr.fi.idx[v]] = t
		return one(s)
	}
	switch x := i.(type) {
	case *ssa.Alloc:
		t := derefType(x.Type())
		a := in.alloc(x, t, "")
		s.setMem(a, zeroOf(t))
		return set(x, a)
	case *ssa.BinOp:
		return set(x, in.binop(x, in.val(fr, s, x.X), in.val(fr, s, x.Y), s))
	case *ssa.UnOp:
		v := in.val(fr, s, x.X)
		switch x.Op {
		case token.MUL:
			if s.canon(v) == tNil {
				in.emit(&Event{Kind: "nilderef", Fn: fr.fn, Instr: x, S: s, Addr: v})
				s.dead = true
				return nil
			}
			in.emit(&Event{Kind: "load", Fn: fr.fn, Instr: x, S: s, Addr: v})
			return set(x, in.load(s, v))
		case token.NOT:
			return set(x, mkNot(v))
		case token.ARROW:
			r := mk(OCall, "chan.recv", in.inst(x), x.Type(), v)
			if x.CommaOk {
				return set(x, mk(OCall, "chan.recv2", in.inst(x), x.Type(), v))
			}
			return set(x, r)
		case token.SUB:
			if c, ok := v.intVal(); ok {
				return set(x, tInt(-c))
			}
		}
		return set(x, mk(OUn, x.Op.String(), 0, x.Type(), v))
	case *ssa.FieldAddr:
		b := in.val(fr, s, x.X)
		if s.canon(b) == tNil {
			in.emit(&Event{Kind: "nilderef", Fn: fr.fn, Instr: x, S: s, Addr: b})
			return nil
		}
		in.emit(&Event{Kind: "deref", Fn: fr.fn, Instr: x, S: s, Addr: b})
		return set(x, mk(OFieldPtr, "", x.Field, x.Type(), b))
	case *ssa.IndexAddr:
		b := in.val(fr, s, x.X)
		if !isPtrToArray(b.T) && !isPtrToArray(x.X.Type()) {
			in.emit(&Event{Kind: "index", Fn: fr.fn, Instr: x, S: s, Addr: b, Key: in.val(fr, s, x.Index)})
		}
		return set(x, mk(OIndexPtr, "", 0, x.Type(), b, in.val(fr, s, x.Index)))
	case *ssa.Field:
		return set(x, mkField(in.val(fr, s, x.X), x.Field, x.X.Type()))
	case *ssa.Index:
		return set(x, mkIndex(in.val(fr, s, x.X), in.val(fr, s, x.Index), x.Type()))
	case *ssa.Store:
		a := in.val(fr, s, x.Addr)
		v := in.val(fr, s, x.Val)
		if s.canon(a) == tNil {
			in.emit(&Event{Kind: "nilderef", Fn: fr.fn, Instr: x, S: s, Addr: a})
			return nil
		}
		in.emit(&Event{Kind: "store", Fn: fr.fn, Instr: x, S: s, Addr: a, Val: v})
		in.store(s, a, v)
		return one(s)
	case *ssa.ChangeType:
		return set(x, in.val(fr, s, x.X))
	case *ssa.ChangeInterface:
		return set(x, in.val(fr, s, x.X))
	case *ssa.MultiConvert:
		return set(x, in.val(fr, s, x.X))
	case *ssa.Convert:
		return set(x, in.convert(in.val(fr, s, x.X), x.X.Type(), x.Type(), s))
	case *ssa.SliceToArrayPointer:
		return set(x, mk(OConv, "s2a", 0, x.Type(), in.val(fr, s, x.X)))
	case *ssa.MakeInterface:
		v := in.val(fr, s, x.X)
		return set(x, mk(OIface, typeKey(x.X.Type()), 0, x.X.Type(), v))
	case *ssa.TypeAssert:
		return in.typeAssert(fr, x, s)
	case *ssa.Extract:
		return set(x, in.extract(in.val(fr, s, x.Tuple), x.Index, x.Type()))
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, in.val(fr, s, b))
		}
		t := mk(OClos, fn.RelString(nil), 0, x.Type(), bs...)
		t.fn = fn
		return set(x, t)
	case *ssa.MakeMap:
		a := in.alloc(x, x.Type(), "")
		a.T = x.Type()
		s.setMem(a, mk(OZero, "map:"+typeKey(x.Type()), 0, x.Type()))
		return set(x, a)
	case *ssa.MakeSlice:
		n := in.val(fr, s, x.Len)
		a := in.alloc(x, x.Type(), "")
		objTab[a.S].len = n
		s.setMem(a, mk(OMakeArr, typeKey(x.Type()), 0, x.Type(), n))
		return set(x, mk(OSlice, "", 0, x.Type(), a, tNone, tNone))
	case *ssa.MakeChan:
		return set(x, mk(OAddr, "chan:"+siteKey(x)+"#"+itoa(in.ctx), in.ctx, x.Type()))
	case *ssa.Slice:
		b := in.val(fr, s, x.X)
		lo, hi := tNone, tNone
		if x.Low != nil {
			lo = in.val(fr, s, x.Low)
			if lo == tInt(0) {
				lo = tNone
			}
		}
		if x.High != nil {
			hi = in.val(fr, s, x.High)
		}
		if lo == tNone && hi == tNone && !isPtrToArray(x.X.Type()) {
			return set(x, b)
		}
		if hi != tNone && lo == tNone && !isPtrToArray(x.X.Type()) && s.canon(hi) == s.canon(mkLen(b)) {
			return set(x, b)
		}
		if bs, ok := b.strVal(); ok {
			l, h := int64(0), int64(len(bs))
			ok1, ok2 := true, true
			if lo != tNone {
				l, ok1 = lo.intVal()
			}
			if hi != tNone {
				h, ok2 = hi.intVal()
			}
			if ok1 && ok2 && l >= 0 && l <= h && int(h) <= len(bs) {
				return set(x, tStr(bs[l:h]))
			}
		}
		if !isPtrToArray(x.X.Type()) {
			in.emit(&Event{Kind: "slice", Fn: fr.fn, Instr: x, S: s, Addr: b, Key: lo, Val: hi})
		}
		return set(x, mk(OSlice, "", 0, x.Type(), b, lo, hi))
	case *ssa.Lookup:
		return in.lookup(fr, x, s)
	case *ssa.MapUpdate:
		in.mapUpdate(fr, x, in.val(fr, s, x.Map), in.val(fr, s, x.Key), in.val(fr, s, x.Value), s)
		return one(s)
	case *ssa.Range:
		m := in.val(fr, s, x.X)
		in.emit(&Event{Kind: "maprange", Fn: fr.fn, Instr: x, S: s, Addr: m})
		it := mk(OCall, "range", 0, nil, m)
		for _, r := range *x.Referrers() {
			if n, ok := r.(*ssa.Next); ok {
				s.delMem(iterPos(n, it))
			}
		}
		return set(x, it)
	case *ssa.Next:
		return in.next(fr, x, s)
	case *ssa.Call:
		return in.doCall(fr, x, s)
	case *ssa.Go:
		c, args := in.resolve(fr, x.Common(), s)
		in.spawn(fr, x, c, args, s, "go")
		return one(s)
	case *ssa.Defer:
		c, args := in.resolve(fr, x.Common(), s)
		s.defers = append(append([]deferRec(nil), s.defers...), deferRec{x, c, args})
		return one(s)
	case *ssa.RunDefers:
		ds := s.defers
		s.defers = nil
		cur := one(s)
		for k := len(ds) - 1; k >= 0; k-- {
			var next []*State
			for _, t := range cur {
				for _, e := range in.invoke(fr, ds[k].site, ds[k].call, ds[k].args, t, true) {
					next = append(next, e.s)
				}
			}
			cur = next
		}
		return cur
	case *ssa.Send:
		return one(s)
	case *ssa.Select:
		return set(x, mk(OCall, "select", in.inst(x), x.Type()))
	}
	if v, ok := i.(ssa.Value); ok {
		in.stat["unmodelled:"+fmt.Sprintf("%T", i)]++
		return set(v, mk(OCall, fmt.Sprintf("unmodelled:%T", i), in.inst(i), v.Type()))
	}
	return one(s)
}

func (in *Interp) extract(c *Term, n int, t types.Type) *Term { return mkExtract(c, n, t) }

func (in *Interp) binop(x *ssa.BinOp, a, b *Term, s *State) *Term {
	return mkBin(x.Op.String(), a, b, x.Type())
}

func (in *Interp) convert(v *Term, from, to types.Type, s *State) *Term {
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 {
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0 {
			return mk(OConv, "rune", 0, to, v)
		}
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0 || fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0 {
			return mk(OConv, tb.Name(), 0, to, v)
		}
	}
	if ok2 && tb.Info()&types.IsString != 0 {
		return in.sliceVal(s, v)
	}
	return v
}

func (in *Interp) typeAssert(fr *frame, x *ssa.TypeAssert, s *State) []*State {
	v := in.val(fr, s, x.X)
	k := fr.fi.idx[x]
	cv := s.canon(v)
	if v.Op == OIface {
		cv = v
	}
	if cv.Op == OIface {
		match := false
		if types.IsInterface(x.AssertedType) {
			match = types.Implements(cv.T, x.AssertedType.Underlying().(*types.Interface))
			if match {
				if x.CommaOk {
					s.env[k] = mkTuple(cv, tTrue)
				} else {
					s.env[k] = cv
				}
				return one(s)
			}
		} else {
			match = cv.S == typeKey(x.AssertedType)
		}
		if match {
			if x.CommaOk {
				s.env[k] = mkTuple(cv.A[0], tTrue)
			} else {
				s.env[k] = cv.A[0]
			}
			return one(s)
		}
		if x.CommaOk {
			s.env[k] = mkTuple(zeroOf(x.AssertedType), tFalse)
			return one(s)
		}
		in.emit(&Event{Kind: "terminate", Name: "panic", Fn: fr.fn, Instr: x, S: s})
		return nil
	}
	val := mk(OTAssert, typeKey(x.AssertedType), 0, x.AssertedType, v)
	if x.CommaOk {
		s.env[k] = mkTuple(val, mk(OTOk, typeKey(x.AssertedType), 0, types.Typ[types.Bool], v))
	} else {
		in.emit(&Event{Kind: "assertpanic", Fn: fr.fn, Instr: x, S: s, Addr: v})
		s.env[k] = val
	}
	return one(s)
}

// ---- maps ----

func (in *Interp) isLocalMap(s *State, m *Term) bool {
	if m.Op != OAddr {
		return false
	}
	return in.mapContent(s, m) != nil
}

func (in *Interp) mapContent(s *State, m *Term) *Term {
	if c, ok := s.mem[m]; ok {
		return c
	}
	if strings.HasPrefix(m.S, "global:") && strings.HasSuffix(m.S, "{}") {
		return in.prog.globalInit(m.S[7:])
	}
	return nil
}

// tableEntries: keys and values, in order of insertion, of a map with known distinct constant keys
func tableEntries(c *Term) (ks, vs []*Term, ok bool) {
	var rk, rv []*Term
	seen := map[*Term]bool{}
	for c.Op == OMapUpd {
		if c.A[1].Op != OConst {
			return nil, nil, false
		}
		if !seen[c.A[1]] {
			seen[c.A[1]] = true
			rk, rv = append(rk, c.A[1]), append(rv, c.A[2])
		}
		c = c.A[0]
	}
	if c.Op != OZero || len(rk) == 0 || len(rk) > 16 {
		return nil, nil, false
	}
	for i := len(rk) - 1; i >= 0; i-- {
		ks, vs = append(ks, rk[i]), append(vs, rv[i])
	}
	return ks, vs, true
}

// localLookup walks an update chain
func localLookup(s *State, c, k *Term, et types.Type) (val, ok *Term) {
	for {
		switch c.Op {
		case OZero:
			return zeroOf(et), tFalse
		case OMapUpd:
			e, known := s.facts.decide(mkEq(c.A[1], k))
			if known && e {
				return c.A[2], tTrue
			}
			if known && !e {
				c = c.A[0]
				continue
			}
		case OMapDel:
			e, known := s.facts.decide(mkEq(c.A[1], k))
			if known && e {
				return zeroOf(et), tFalse
			}
			if known && !e {
				c = c.A[0]
				continue
			}
		}
		return mk(OLookup, "", 0, et, c, k), mk(OLookupOk, "", 0, types.Typ[types.Bool], c, k)
	}
}

func (in *Interp) immutableMap(m *Term) bool {
	imm := false
	walk(m, func(x *Term) bool {
		if x.T != nil {
			n := typeKey(x.T)
			if strings.Contains(n, "crypto.CryptoConfig") || strings.Contains(n, "_config") || strings.Contains(n, "_Config") {
				imm = true
			}
		}
		return !imm
	})
	if m.Op == OOut || m.Op == OTAssert {
		return true
	}
	root := m
	for root.Op == OField || root.Op == OIndex {
		root = root.A[0]
	}
	if root.Op == OOut || root.Op == OExtract || root.Op == OCall {
		return true
	}
	return imm
}

func (s *State) held() []string {
	var r []string
	for _, l := range s.locks {
		r = append(r, l.sec)
	}
	return r
}

func (in *Interp) mapGet(site ssa.Instruction, m, k *Term, et types.Type, s *State) (val, ok *Term) {
	if in.isLocalMap(s, m) {
		return localLookup(s, in.mapContent(s, m), k, et)
	}
	cm, ck := s.canon(m), s.canon(k)
	if cm == tNil {
		return zeroOf(et), tFalse
	}
	for _, r := range s.lk {
		if s.canon(r.m) == cm && s.canon(r.k) == ck {
			return r.val, r.ok
		}
	}
	inst := 0
	if !in.immutableMap(m) {
		inst = in.inst(site)
	}
	val = mk(OLookup, "", inst, et, m, k)
	ok = mk(OLookupOk, "", inst, types.Typ[types.Bool], m, k)
	in.lkGen[ok], in.lkGen[val] = s.gen, s.gen
	in.lkSite[ok], in.lkSite[val] = site, site
	in.lkHeld[ok], in.lkHeld[val] = s.held(), s.held()
	if inst != 0 && len(s.locks) > 0 {
		s.lk = append(append([]lkRec(nil), s.lk...), lkRec{m, k, val, ok, s.held()})
	}
	return
}

func (in *Interp) lookup(fr *frame, x *ssa.Lookup, s *State) []*State {
	m, k := in.val(fr, s, x.X), in.val(fr, s, x.Index)
	idx := fr.fi.idx[x]
	if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
		in.emit(&Event{Kind: "index", Fn: fr.fn, Instr: x, S: s, Addr: m, Key: k})
		s.env[idx] = mkIndex(m, k, x.Type())
		return one(s)
	}
	et := x.X.Type().Underlying().(*types.Map).Elem()
	if in.isLocalMap(s, m) {
		if ks, vs, ok := tableEntries(in.mapContent(s, m)); ok && s.canon(k).Op != OConst {
			// a table of known entries: one case per key
			var out []*State
			fork := func(t *State, val, ok *Term) {
				in.emit(&Event{Kind: "lookup", Fn: fr.fn, Instr: x, S: t, Addr: m, Key: k, Val: val, Ok: ok})
				if x.CommaOk {
					t.env[idx] = mkTuple(val, ok)
				} else {
					t.env[idx] = val
				}
				out = append(out, t)
			}
			rest := s
			for i := range ks {
				c := mkEq(ks[i], k)
				if v, known := rest.facts.decide(c); known {
					if v {
						fork(rest, vs[i], tTrue)
						return out
					}
					continue
				}
				t := rest.clone()
				if t.assume(c, true) {
					fork(t, vs[i], tTrue)
				}
				if !rest.assume(c, false) {
					return out
				}
			}
			fork(rest, zeroOf(et), tFalse)
			return out
		}
	}
	val, ok := in.mapGet(x, m, k, et, s)
	in.emit(&Event{Kind: "lookup", Fn: fr.fn, Instr: x, S: s, Addr: m, Key: k, Val: val, Ok: ok})
	if x.CommaOk {
		s.env[idx] = mkTuple(val, ok)
	} else {
		s.env[idx] = val
	}
	return one(s)
}

func (in *Interp) mapUpdate(fr *frame, site ssa.Instruction, m, k, v *Term, s *State) {
	in.emit(&Event{Kind: "mapupd", Fn: fr.fn, Instr: site, S: s, Addr: m, Key: k, Val: v})
	if in.isLocalMap(s, m) {
		s.setMem(m, mk(OMapUpd, "", 0, m.T, in.mapContent(s, m), k, v))
		return
	}
	in.updRecs(s, m, k, v, tTrue)
}

func (in *Interp) updRecs(s *State, m, k, v, ok *Term) {
	cm := s.canon(m)
	var n []lkRec
	for _, r := range s.lk {
		if s.canon(r.m) == cm {
			if e, kn := s.facts.decide(mkEq(r.k, k)); !(kn && !e) {
				continue
			}
		}
		n = append(n, r)
	}
	if len(s.locks) > 0 {
		n = append(n, lkRec{m, k, v, ok, s.held()})
	}
	s.lk = n
}

func iterPos(x *ssa.Next, it *Term) *Term { return mk(OCall, "iterpos:"+siteKey(x), 0, nil, it) }

func (in *Interp) next(fr *frame, x *ssa.Next, s *State) []*State {
	it := in.val(fr, s, x.Iter)
	idx := fr.fi.idx[x]
	if x.IsString {
		s.env[idx] = mk(OCall, "next", in.inst(x), x.Type(), it)
		return one(s)
	}
	m := it
	if it.Op == OCall && it.S == "range" {
		m = it.A[0]
	}
	kt, vt := types.Type(nil), types.Type(nil)
	if rg, ok := x.Iter.(*ssa.Range); ok {
		if mp, ok := rg.X.Type().Underlying().(*types.Map); ok {
			kt, vt = mp.Key(), mp.Elem()
		}
	}
	if in.isLocalMap(s, m) {
		c := in.mapContent(s, m)
		if c.Op == OZero {
			s.env[idx] = mkTuple(tFalse, zeroOf(kt), zeroOf(vt))
			return one(s)
		}
		if ks, vs, ok := tableEntries(c); ok && len(ks) < maxPeel {
			// a table of known entries is walked entry by entry
			pos := iterPos(x, it)
			n, known := int64(0), true
			if p, ok := s.mem[pos]; ok {
				n, known = p.intVal()
			}
			if known {
				if int(n) < len(ks) {
					s.setMem(pos, tInt(n+1))
					s.env[idx] = mkTuple(tTrue, ks[n], vs[n])
				} else {
					s.delMem(pos)
					s.env[idx] = mkTuple(tFalse, zeroOf(kt), zeroOf(vt))
				}
				return one(s)
			}
		}
		n := in.inst(x)
		k := mk(OMapKey, "", n, kt, c)
		s.env[idx] = mkTuple(mk(OCall, "next.ok", n, types.Typ[types.Bool], c), k, mk(OMapVal, "", n, vt, c))
		return one(s)
	}
	n := in.inst(x)
	k := mk(OMapKey, "", n, kt, m)
	v := mk(OLookup, "", n, vt, m, k)
	ok := mk(OLookupOk, "", n, types.Typ[types.Bool], m, k)
	in.lkGen[v] = s.gen
	in.lkHeld[v] = s.held()
	more := mk(OCall, "next.ok", n, types.Typ[types.Bool], m)
	if len(s.locks) > 0 {
		var nl []lkRec
		for _, r := range s.lk {
			if r.k != k {
				nl = append(nl, r)
			}
		}
		s.lk = append(nl, lkRec{m, k, v, ok, s.held()})
	}
	in.emit(&Event{Kind: "mapnext", Fn: fr.fn, Instr: x, S: s, Addr: m, Key: k, Val: v})
	s.env[idx] = mkTuple(more, k, v)
	return one(s)
}
