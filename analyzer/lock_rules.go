package main

// Rules about locks: P13-P15 (a common lock protects every shared collection), P16 (pairing and order).

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type access struct {
	loc    string
	write  bool
	prefix bool // everything below loc
	held   map[string]bool
	thread string
	name   string
	multi  bool
	instr  ssa.Instruction
	path   []string
}

type lockset struct {
	c     *C
	in    *Interp
	roots map[*Term]bool
	pub   map[*Term]string // local object -> shared location it was published at
	pubBy map[*Term]string
	acc   map[string]*access
}

// shared: the name of a shared location, "" for anything local to a thread
func (l *lockset) shared(s *State, t *Term) string {
	for _, m := range s.marks {
		if m.K == "detached" && m.T == t {
			return ""
		}
	}
	switch t.Op {
	case OSym:
		if l.roots[t] {
			return pathOf(t)
		}
	case ODeref, OSlice, OUpd, OMapUpd, OMapDel, OAppend:
		return l.shared(s, t.A[0])
	case OState:
		if len(t.A) > 0 {
			return l.shared(s, t.A[0])
		}
	case OField:
		if p := l.shared(s, t.A[0]); p != "" {
			return p + "." + fieldName(t.A[0].T, t.N)
		}
	case OFieldPtr:
		if p := l.shared(s, t.A[0]); p != "" {
			return p + "." + fieldName(derefType(t.A[0].T), t.N)
		}
	case OIndex, OIndexPtr, OLookup, OMapVal:
		if p := l.shared(s, t.A[0]); p != "" {
			return p + "[]"
		}
	case OAddr:
		if strings.HasPrefix(t.S, "global:") {
			return t.S
		}
		if p, ok := l.pub[t]; ok {
			if o := objTab[t.S]; o != nil && o.thread != l.in.threadKey && l.pubBy[t] != l.in.threadKey {
				return p
			}
			for _, o := range s.obls {
				if o.K == "published" && o.T == t {
					return p
				}
			}
		}
	}
	return ""
}

// collection: a location whose concurrent use needs a lock
func collection(t types.Type) bool {
	if t == nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Map, *types.Slice:
		return true
	case *types.Pointer:
		if n, ok := u.Elem().(*types.Named); ok && n.Obj().Pkg() != nil {
			p := n.Obj().Pkg().Path()
			return !strings.HasPrefix(p, "sync") && p != "net/http" && p != "crypto/rsa"
		}
		return true
	}
	return false
}

func (l *lockset) add(e *Event, loc string, write, prefix bool) {
	if loc == "" || l.c.muted() {
		return
	}
	in := l.in
	if in.threadKey == "" && !in.threadMulti {
		started := false
		for _, o := range e.S.obls {
			if o.K == "started" {
				started = true
			}
		}
		if !started {
			return
		}
	}
	held := map[string]bool{}
	var hs []string
	for _, k := range e.S.locks {
		if k.write || !write {
			held[k.name] = true
			hs = append(hs, k.name)
		}
	}
	sort.Strings(hs)
	k := loc + "|" + in.threadKey + "|" + siteKey(e.Instr) + "|" + strings.Join(hs, ",")
	if write {
		k += "|w"
	}
	if prefix {
		k += "|p"
	}
	l.c.oblig()
	if l.acc[k] != nil {
		return
	}
	a := &access{loc: loc, write: write, prefix: prefix, held: held, thread: in.threadKey, name: in.threadID, multi: in.threadMulti, instr: e.Instr}
	var st []string
	for _, f := range in.stack {
		st = append(st, shortFn(f))
	}
	a.path = []string{"thread: " + in.threadID, "call path: " + strings.Join(st, " -> "), "locks held: " + strings.Join(hs, ", ")}
	l.acc[k] = a
}

func (l *lockset) event(e *Event) {
	s := e.S
	switch e.Kind {
	case "spawn":
		s.oblige("started", tNil)
	case "load":
		// reading a header (map, slice, pointer) held in a shared structure
		t := derefType(e.Addr.T)
		if e.Addr.Op == OFieldPtr || e.Addr.Op == OAddr || e.Addr.Op == OField || e.Addr.Op == OLookup || e.Addr.Op == ODeref {
			if collection(t) {
				l.add(e, l.shared(s, e.Addr), false, false)
			}
		}
		if e.Addr.Op == OIndexPtr {
			if p := l.shared(s, e.Addr.A[0]); p != "" {
				l.add(e, p+"[]", false, false)
			}
		}
	case "store":
		if e.Addr.Op == OIndexPtr {
			if p := l.shared(s, e.Addr.A[0]); p != "" {
				l.add(e, p+"[]", true, false)
			}
		} else if p := l.shared(s, e.Addr); p != "" {
			if collection(derefType(e.Addr.T)) {
				l.add(e, p, true, false)
			} else if st := structOf(derefType(e.Addr.T)); st != nil {
				for i := 0; i < st.NumFields(); i++ {
					if collection(st.Field(i).Type()) {
						l.add(e, p+"."+st.Field(i).Name(), true, false)
					}
				}
			}
			l.publish(e, e.Val, p, 0)
			// the old object is taken out under a lock: from now on only this thread has it
			if _, ok := derefType(e.Addr.T).Underlying().(*types.Pointer); ok {
				for _, k := range s.locks {
					if k.write {
						if old := l.in.load(s, e.Addr); old != nil && old != e.Val && l.shared(s, old) == p {
							s.mark("detached", old)
						}
						break
					}
				}
			}
		}
	case "lookup", "maprange", "mapnext", "maplen":
		l.add(e, l.shared(s, e.Addr), false, false)
	case "mapupd":
		if p := l.shared(s, e.Addr); p != "" {
			l.add(e, p, true, false)
			l.publish(e, e.Val, p+"[]", 0)
		}
	case "mapdel", "mapclear":
		l.add(e, l.shared(s, e.Addr), true, false)
	case "call":
		for i, a := range e.Args {
			r := a
			for r.Op == OIface {
				r = r.A[0]
			}
			if r.T == nil || !collection(r.T) {
				continue
			}
			p := l.shared(s, r)
			if p == "" {
				continue
			}
			_, isPtr := r.T.Underlying().(*types.Pointer)
			switch {
			case isPtr && namedOutside(r.T):
				recv := i == 0 && strings.HasPrefix(e.Name, "(*")
				l.add(e, p+".*", recv && !nonMutating(e.Name) || !recv && replacing(e.Name), false)
			case strings.HasPrefix(e.Name, "encoding/json.Marshal") || strings.HasSuffix(e.Name, "Encoder).Encode") || strings.HasPrefix(e.Name, "fmt."):
				l.add(e, p, false, true)
			case strings.HasPrefix(e.Name, "sort.") || strings.HasPrefix(e.Name, "slices.Sort"):
				l.add(e, p+"[]", true, false)
			case replacing(e.Name) && !nonMutating(e.Name):
				l.add(e, p, true, false)
			default:
				l.add(e, p, false, false)
			}
		}
	}
}

// namedOutside: pointer to a type of a library (its fields are not visible here)
func namedOutside(t types.Type) bool {
	d := derefType(t)
	if n, ok := d.(*types.Named); ok && n.Obj().Pkg() != nil {
		return !strings.HasPrefix(n.Obj().Pkg().Path(), "github.com/jik18001/")
	}
	return false
}

func (l *lockset) publish(e *Event, v *Term, p string, d int) {
	if d > 3 || v == nil {
		return
	}
	switch v.Op {
	case OAddr:
		if strings.HasPrefix(v.S, "global:") {
			return
		}
		if l.pub[v] == "" {
			l.pub[v] = p
			l.pubBy[v] = l.in.threadKey
		}
		e.S.oblige("published", v)
		if ct, ok := e.S.mem[v]; ok && ct.Op == ORec {
			st := structOf(ct.T)
			for i, x := range ct.A {
				if st != nil && i < st.NumFields() {
					l.publish(e, x, p+"."+st.Field(i).Name(), d+1)
				}
			}
		}
	case OIface, ORef, OSlice:
		l.publish(e, v.A[0], p, d+1)
	case ORec:
		st := structOf(v.T)
		for i, x := range v.A {
			if st != nil && i < st.NumFields() {
				l.publish(e, x, p+"."+st.Field(i).Name(), d+1)
			}
		}
	}
}

func (l *lockset) report(who string, min int) {
	kind := "shared collection of the running " + who
	c := l.c
	by := map[string][]*access{}
	for _, k := range sortedKeys(l.acc) {
		a := l.acc[k]
		if !a.prefix {
			by[a.loc] = append(by[a.loc], a)
		}
	}
	for _, k := range sortedKeys(l.acc) {
		if a := l.acc[k]; a.prefix {
			for loc := range by {
				if loc == a.loc || strings.HasPrefix(loc, a.loc+".") || strings.HasPrefix(loc, a.loc+"[") {
					by[loc] = append(by[loc], a)
				}
			}
		}
	}
	for _, loc := range sortedKeys(by) {
		as := by[loc]
		conflict := false
		for _, w := range as {
			if !w.write {
				continue
			}
			for _, a := range as {
				if a.thread != w.thread || a.multi || w.multi {
					conflict = true
				}
			}
		}
		if !conflict {
			continue
		}
		c.site(kind, loc)
		var common map[string]bool
		votes := map[string]int{}
		for _, a := range as {
			n := map[string]bool{}
			for h := range a.held {
				votes[h]++
				if common == nil || common[h] {
					n[h] = true
				}
			}
			common = n
		}
		if len(common) > 0 {
			continue
		}
		// the lock most accesses agree on; report those without it
		best := ""
		for _, h := range sortedKeys(votes) {
			if best == "" || votes[h] > votes[best] {
				best = h
			}
		}
		for _, a := range as {
			if best != "" && a.held[best] {
				continue
			}
			what := "read"
			if a.write {
				what = "modified"
			}
			v := c.failAt("lockset", loc+" "+what, a.instr, "shared collection %s is %s without the lock %s that guards its other uses", loc, what, orNone(best))
			if v != nil {
				v.path = a.path
				for _, w := range as {
					if w.write && w != a {
						v.path = append(v.path, "concurrent modification: "+c.p.pos(w.instr)+" in thread "+w.name)
						break
					}
				}
			}
		}
	}
	c.need(kind, min)
}

func orNone(s string) string {
	if s == "" {
		return "(there is none)"
	}
	return s
}

func (c *C) failAt(rule, construct string, instr ssa.Instruction, format string, a ...any) *Viol {
	n := len(c.viols)
	old := c.in
	c.in = nil
	c.fail(rule, construct, instr, nil, format, a...)
	c.in = old
	if len(c.viols) == n {
		return nil
	}
	return c.viols[rule+"|"+shortFn(instr.Parent())+"|"+construct]
}

// servers: the long-running entry points
var servers = map[string][2]string{
	"gossiper": {"gossiper", "StartGossiperServer"}, "monitor": {"monitor", "StartMonitorServer"}, "CA": {"CA", "StartCA"}, "Logger": {"Logger", "StartLogger"},
}

// serverRun interprets a server from its entry point, all its threads included
func (c *C) serverRun(in *Interp, name string) *Term {
	e := servers[name]
	f := c.p.fn(e[0], e[1])
	if f == nil {
		c.missing(e[0] + "." + e[1])
		return nil
	}
	opaqueVerify(in)
	ctx := tSym("c:"+name, f.Params[0].Type())
	c.run(in, f, []*Term{ctx}, newState())
	return ctx
}

func (c *C) newLockset() *lockset {
	l := &lockset{c: c, roots: map[*Term]bool{}, pub: map[*Term]string{}, pubBy: map[*Term]string{}, acc: map[string]*access{}}
	return l
}

func (c *C) lockServer(name string, min int) {
	l := c.newLockset()
	in := c.interp(l.event)
	l.in = in
	in.siteSpawn = true
	in.cap = 6
	f := c.p.fn(servers[name][0], servers[name][1])
	if f != nil {
		l.roots[tSym("c:"+name, f.Params[0].Type())] = true
	}
	c.serverRun(in, name)
	l.report(name, min)
}

const lockRule = "lockset: over all threads reachable from the entry point, the locks held at every access to a shared map, slice, pool or bitset that some thread modifies after start-up have a common element, held exclusively at modifications"

func p13(c *C) {
	c.rules = append(c.rules, lockRule)
	c.lockServer("gossiper", 8)
}

func p14(c *C) {
	c.rules = append(c.rules, lockRule)
	c.lockServer("monitor", 6)
}

// clientOps: the operations of a client that may overlap
func (c *C) clientOps() []*ssa.Function {
	var cand []*ssa.Function
	for _, f := range c.p.allFuncsOf(c.p.pkgs["client"]) {
		if f.Object() == nil || !f.Object().Exported() || f.Synthetic != "" || f.Parent() != nil || installsLocks(f) {
			continue
		}
		for _, p := range f.Params {
			if isNamed(p.Type(), "ClientContext") {
				cand = append(cand, f)
				break
			}
		}
	}
	// steps of other operations are analysed in their callers' context
	called := map[*ssa.Function]bool{}
	for _, f := range c.p.allFuncsOf(c.p.pkgs["client"]) {
		if installsLocks(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if x, ok := i.(ssa.CallInstruction); ok {
					if g := x.Common().StaticCallee(); g != nil && g != f {
						called[g] = true
					}
				}
			}
		}
	}
	var r []*ssa.Function
	for _, f := range cand {
		if !called[f] {
			r = append(r, f)
		}
	}
	return r
}

// installsLocks: the function sets up a context (it installs its locks); it runs before the context is shared
func installsLocks(f *ssa.Function) bool {
	return installsIn(f, 0)
}

func installsIn(f *ssa.Function, depth int) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if x, ok := i.(*ssa.Call); ok && depth < 3 {
				if g := x.Call.StaticCallee(); g != nil && g.Pkg != nil && g.Pkg == f.Pkg && g != f && installsIn(g, depth+1) {
					return true
				}
			}
			if st, ok := i.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && isLockType(derefType(fa.Type())) {
					if _, local := fa.X.(*ssa.Alloc); !local {
						return true
					}
				}
			}
		}
	}
	return false
}

func isLockType(t types.Type) bool {
	d := derefType(t)
	if d == nil {
		return false
	}
	s := typeKey(d)
	return s == "sync.Mutex" || s == "sync.RWMutex"
}

func (c *C) runOp(in *Interp, f *ssa.Function, ctx func(types.Type) *Term) {
	var args []*Term
	for i, p := range f.Params {
		if isNamed(p.Type(), "ClientContext") && ctx != nil {
			args = append(args, ctx(p.Type()))
			continue
		}
		args = append(args, tSym("arg"+itoa(i)+":"+shortFn(f), p.Type()))
	}
	in.threadKey = "op:" + shortFn(f)
	in.threadMulti = true
	opaqueVerify(in)
	c.run(in, f, args, newState())
	in.threadKey, in.threadMulti = "", false
}

func p15(c *C) {
	c.rules = append(c.rules, lockRule, "client operations (exported functions on a ClientContext) count as threads that may overlap")
	c.lockServer("CA", 4)
	c.lockServer("Logger", 2)
	l := c.newLockset()
	in := c.interp(l.event)
	l.in = in
	in.siteSpawn = true
	in.cap = 6
	for _, f := range c.clientOps() {
		c.site("client operation", shortFn(f))
		c.runOp(in, f, func(t types.Type) *Term {
			x := tSym("ctx", t)
			l.roots[x] = true
			return x
		})
	}
	l.report("client", 3)
}

// ---- P16 ----

type lockOrder struct {
	from, to string
	instr    ssa.Instruction
	path     []string
}

func p16(c *C) {
	c.rules = append(c.rules, "typestate of every lock on every path of every thread and client operation: no lock held at the end, none acquired while held, none released while not held, none left in a different state by a loop iteration",
		"the graph of nested acquisitions (held -> acquired) over all threads is acyclic")
	edges := map[string]*lockOrder{}
	ev := func(e *Event) {
		s := e.S
		switch e.Kind {
		case "lock":
			c.oblig()
			c.site("acquisition", siteKey(e.Instr)+" "+e.Name)
			for _, l := range s.locks {
				if l.name == e.Name {
					c.fail("double-acquire", e.Name, e.Instr, s, "lock %s is acquired while this thread already holds it", e.Name)
					continue
				}
				if strings.HasPrefix(l.name, "local:") || strings.HasPrefix(e.Name, "local:") || c.muted() {
					continue
				}
				k := l.name + " -> " + e.Name
				if edges[k] == nil {
					var st []string
					for _, f := range c.in.stack {
						st = append(st, shortFn(f))
					}
					edges[k] = &lockOrder{l.name, e.Name, e.Instr, []string{"thread: " + c.in.threadID, "call path: " + strings.Join(st, " -> ")}}
				}
			}
		case "badunlock":
			c.fail("bad-release", e.Name, e.Instr, s, "lock %s is released (%s) while it is not held that way", e.Name, e.Mode)
		case "looplock":
			c.fail("loop-lock", "loop", e.Instr, s, "an iteration of this loop ends with other locks held than it began with")
		case "exit":
			c.oblig()
			c.site("thread end", e.Mode+":"+e.Name)
			for _, l := range s.locks {
				if strings.HasPrefix(e.Name, "sync.") {
					continue
				}
				v := e.Instr
				if e.Fn != nil && len(e.Fn.Blocks) > 0 {
					v = e.Fn.Blocks[0].Instrs[0]
				}
				c.fail("leak", l.name+" "+secFn(l.sec), v, s, "thread ends still holding lock %s (acquired in %s)", l.name, secFn(l.sec))
			}
		case "call":
			// a deadlock with oneself: waiting for the HTTP server forever is the only blocking call allowed under a lock
			if strings.HasSuffix(e.Name, "ListenAndServe") {
				for _, l := range s.locks {
					c.fail("leak", l.name, e.Instr, s, "the server starts to serve while holding %s", l.name)
				}
			}
		}
	}
	seen := map[*ssa.Function]bool{}
	for _, n := range sortedKeys(servers) {
		in := c.interp(ev)
		in.cap = 12
		c.serverRun(in, n)
		for f := range in.analysed {
			seen[f] = true
		}
	}
	for _, f := range c.clientOps() {
		if seen[f] {
			continue
		}
		in := c.interp(ev)
		in.cap = 12
		c.runOp(in, f, nil)
		for f := range in.analysed {
			seen[f] = true
		}
	}
	// exported operations that take locks but are not used by a server: they have to leave them as they found them
	for _, pk := range sortedKeys(c.p.pkgs) {
		for _, f := range c.p.allFuncsOf(c.p.pkgs[pk]) {
			if seen[f] || f.Parent() != nil || f.Synthetic != "" || len(f.Blocks) == 0 || f.Object() == nil || !f.Object().Exported() || !takesLock(f) {
				continue
			}
			in := c.interp(ev)
			in.cap = 12
			c.runOp(in, f, nil)
			for f := range in.analysed {
				seen[f] = true
			}
		}
	}
	adj := map[string][]string{}
	for _, k := range sortedKeys(edges) {
		c.inst["nesting"] = setAdd(c.inst["nesting"], k)
		adj[edges[k].from] = append(adj[edges[k].from], edges[k].to)
	}
	for _, k := range sortedKeys(edges) {
		o := edges[k]
		if p := reach(adj, o.to, o.from); p != nil {
			if v := c.failAt("lock-order", k, o.instr, "lock %s is acquired while holding %s, but elsewhere they are nested the other way round: %s", o.to, o.from, strings.Join(p, " -> ")); v != nil {
				v.path = o.path
				if b := edges[p[0]+" -> "+p[1]]; b != nil {
					v.path = append(v.path, "the other way round at "+c.p.pos(b.instr)+" "+strings.Join(b.path, "; "))
				}
			}
		}
	}
	c.need("acquisition", 60)
	c.need("thread end", 20)
}

func setAdd(m map[string]bool, k string) map[string]bool {
	if m == nil {
		m = map[string]bool{}
	}
	m[k] = true
	return m
}

func secFn(sec string) string {
	if i := strings.LastIndex(sec, "/"); i >= 0 {
		sec = sec[i+1:]
	}
	if i := strings.LastIndex(sec, ":"); i >= 0 {
		sec = sec[:i]
	}
	return sec
}

func reach(adj map[string][]string, from, to string) []string {
	prev := map[string]string{from: ""}
	q := []string{from}
	for len(q) > 0 {
		x := q[0]
		q = q[1:]
		if x == to {
			var r []string
			for x != "" {
				r = append([]string{x}, r...)
				x = prev[x]
			}
			return r
		}
		for _, y := range adj[x] {
			if _, ok := prev[y]; !ok {
				prev[y] = x
				q = append(q, y)
			}
		}
	}
	return nil
}

func takesLock(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(ssa.CallInstruction); ok {
				if cf := c.Common().StaticCallee(); cf != nil && lockRe.MatchString(cf.RelString(nil)) {
					return true
				}
			}
		}
	}
	return false
}

func init() {
	checks["P13"] = p13
	checks["P14"] = p14
	checks["P15"] = p15
	checks["P16"] = p16
}
