package main

// Calls: resolution, inlining, threads, and models of library functions.

import (
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (in *Interp) resolve(fr *frame, c *ssa.CallCommon, s *State) (*callee, []*Term) {
	var args []*Term
	if c.IsInvoke() {
		recv := in.val(fr, s, c.Value)
		for _, a := range c.Args {
			args = append(args, in.val(fr, s, a))
		}
		rv := recv
		if rv.Op != OIface {
			rv = s.canon(recv)
		}
		if rv.Op == OIface {
			if fn := in.prog.method(rv.T, c.Method); fn != nil {
				r := rv.A[0]
				if len(fn.Blocks) > 0 {
					return &callee{fn: fn, sig: fn.Signature}, append([]*Term{r}, args...)
				}
				return &callee{name: fn.RelString(nil), sig: c.Signature(), iface: true}, append([]*Term{r}, args...)
			}
		}
		return &callee{name: "(" + typeKey(c.Value.Type()) + ")." + c.Method.Name(), sig: c.Signature(), iface: true}, append([]*Term{recv}, args...)
	}
	for _, a := range c.Args {
		args = append(args, in.val(fr, s, a))
	}
	switch f := c.Value.(type) {
	case *ssa.Builtin:
		return &callee{name: "builtin:" + f.Name(), sig: c.Signature()}, args
	case *ssa.Function:
		return in.fnCallee(f, nil), args
	}
	fv := in.val(fr, s, c.Value)
	if fv.Op != OClos && fv.Op != OFunc {
		fv = s.canon(fv)
	}
	if fv.Op == OClos || fv.Op == OFunc {
		if fv.fn != nil {
			return in.fnCallee(fv.fn, fv.A), args
		}
	}
	return &callee{name: "dynamic:" + shortType(c.Value.Type()), sig: c.Signature()}, append([]*Term{fv}, args...)
}

func (in *Interp) fnCallee(f *ssa.Function, binds []*Term) *callee {
	if len(f.Blocks) == 0 || in.opaque[f.RelString(nil)] {
		return &callee{name: f.RelString(nil), sig: f.Signature}
	}
	return &callee{fn: f, binds: binds, sig: f.Signature}
}

func (in *Interp) doCall(fr *frame, x *ssa.Call, s *State) []*State {
	c, args := in.resolve(fr, x.Common(), s)
	k := fr.fi.idx[x]
	var out []*State
	for _, e := range in.invoke(fr, x, c, args, s, false) {
		if e.s.dead {
			continue
		}
		if e.ret == nil {
			e.ret = tNil
		}
		e.s.env[k] = e.ret
		out = append(out, e.s)
	}
	return out
}

func (in *Interp) invoke(fr *frame, site ssa.Instruction, c *callee, args []*Term, s *State, deferred bool) []Exit {
	if c.fn != nil {
		key := c.fn.RelString(nil)
		if m := in.modelFn[key]; m != nil {
			return m(in, c, args, s, site)
		}
		in.emit(&Event{Kind: "enter", Fn: fr.fn, Instr: site, S: s, Name: key, Args: args})
		tag := siteKey(site)
		if deferred {
			tag += "!d"
		}
		es := in.call(c.fn, args, c.binds, s, site, tag)
		for _, e := range es {
			in.emit(&Event{Kind: "leave", Fn: fr.fn, Instr: site, S: e.s, Name: key, Args: args, Val: e.ret})
		}
		return es
	}
	if strings.HasPrefix(c.name, "builtin:") {
		return in.builtin(fr, site, c, args, s)
	}
	return in.extern(fr, site, c, args, s)
}

func (in *Interp) builtin(fr *frame, site ssa.Instruction, c *callee, args []*Term, s *State) []Exit {
	var rt types.Type
	if v, ok := site.(ssa.Value); ok {
		rt = v.Type()
	}
	switch c.name[8:] {
	case "len":
		a := args[0]
		if a.T != nil {
			if _, ok := a.T.Underlying().(*types.Map); ok {
				in.emit(&Event{Kind: "maplen", Fn: fr.fn, Instr: site, S: s, Addr: a})
				if in.isLocalMap(s, a) {
					return []Exit{{s, mkMapLen(s, in.mapContent(s, a))}}
				}
				return []Exit{{s, mk(OLen, "", in.inst(site), types.Typ[types.Int], a)}}
			}
		}
		v := in.sliceVal(s, a)
		if v.Op == OCall || v.T == nil {
			v = a
		}
		return []Exit{{s, mkLen(v)}}
	case "cap":
		return []Exit{{s, mk(OCall, "cap", 0, rt, args[0])}}
	case "append":
		if len(args) == 1 {
			return []Exit{{s, args[0]}}
		}
		in.emit(&Event{Kind: "append", Fn: fr.fn, Instr: site, S: s, Addr: args[0], Val: args[1]})
		return []Exit{{s, in.appendVal(s, args[0], args[1], rt)}}
	case "copy":
		d := args[0]
		src := in.sliceVal(s, args[1])
		in.emit(&Event{Kind: "copy", Fn: fr.fn, Instr: site, S: s, Addr: d, Val: src})
		if d.Op == OSlice && d.A[1] == tNone && d.A[2] == tNone && d.A[0].Op == OAddr {
			old := in.load(s, d.A[0])
			if s.canon(mkLen(d)) == s.canon(mkLen(args[1])) || s.canon(mkLen(d)) == s.canon(mkLen(src)) {
				in.store(s, d.A[0], src)
			} else {
				in.store(s, d.A[0], mk(OState, "copy", 0, old.T, old, src))
			}
		} else {
			in.havocSlice(s, d, mk(OState, "copy", 0, d.T, in.sliceVal(s, d), src))
		}
		return []Exit{{s, mk(OCall, "copied", in.inst(site), types.Typ[types.Int], src)}}
	case "delete":
		m, k := args[0], args[1]
		in.emit(&Event{Kind: "mapdel", Fn: fr.fn, Instr: site, S: s, Addr: m, Key: k})
		if in.isLocalMap(s, m) {
			s.setMem(m, mk(OMapDel, "", 0, m.T, in.mapContent(s, m), k))
		} else {
			et := elemType(m.T)
			z := tNil
			if et != nil {
				z = zeroOf(et)
			}
			in.updRecs(s, m, k, z, tFalse)
		}
		return []Exit{{s, nil}}
	case "clear":
		in.emit(&Event{Kind: "mapclear", Fn: fr.fn, Instr: site, S: s, Addr: args[0]})
		if in.isLocalMap(s, args[0]) {
			s.setMem(args[0], mk(OZero, "map:"+typeKey(args[0].T), 0, args[0].T))
		}
		return []Exit{{s, nil}}
	case "panic":
		in.emit(&Event{Kind: "terminate", Name: "panic", Fn: fr.fn, Instr: site, S: s})
		return nil
	case "recover":
		return []Exit{{s, tNil}}
	case "min", "max":
		return []Exit{{s, mk(OCall, c.name[8:], 0, rt, args...)}}
	}
	return []Exit{{s, mk(OCall, c.name, in.inst(site), rt, args...)}}
}

func mkMapLen(s *State, c *Term) *Term {
	if c.Op == OZero {
		return tInt(0)
	}
	return mk(OLen, "", 0, types.Typ[types.Int], c)
}

func (in *Interp) havocSlice(s *State, d, v *Term) {
	base := d
	for base.Op == OSlice {
		if base.A[0].Op == OAddr || base.A[0].Op == OFieldPtr {
			in.store(s, base.A[0], v)
			return
		}
		base = base.A[0]
	}
	s.setMem(base, v)
}

// ---- threads ----

func (in *Interp) spawn(fr *frame, site ssa.Instruction, c *callee, args []*Term, s *State, how string) {
	in.emit(&Event{Kind: "spawn", Fn: fr.fn, Instr: site, S: s, Name: c.key(), Args: args, Mode: how})
	if c.fn == nil {
		if strings.HasPrefix(c.name, "dynamic:") {
			in.stat["dynamic-spawn"]++
			return
		}
		// go of a library function: run its model
		t := s.clone()
		t.locks, t.lk = nil, nil
		t.gen++
		in.invoke(fr, site, c, args, t, false)
		return
	}
	if in.noSpawn {
		return
	}
	tid := c.fn.RelString(nil)
	for _, x := range in.thread {
		if x == tid {
			in.stat["self-spawn"]++
			return
		}
	}
	t := s.clone()
	t.locks, t.lk, t.defers = nil, nil, nil
	t.gen++
	// variables of an enclosing loop shared with the new thread change under its feet
	in.unstable(fr, site, c, args, t)
	if how == "handler" {
		t.facts = newFacts()
		t.marks, t.obls, t.foralls = nil, nil, nil
	}
	if how != "handler" {
		t.facts = in.projectFacts(t.facts)
	}
	k := tid + "|" + how + "|"
	for _, a := range args {
		k += itoa(in.snap(t, a).ID) + ","
	}
	k += "|"
	for _, a := range c.binds {
		k += itoa(in.snap(t, a).ID) + ","
	}
	k += "|" + strconv.FormatUint(t.sigThread(), 36) + "|" + strconv.FormatUint(t.facts.hash, 36) + "|" + itoa(t.gen)
	if in.siteSpawn {
		k += "|" + siteKey(site) + "|" + in.threadKey
	}
	after, ok := in.spawned[k]
	if !ok && in.mute > 0 {
		after, ok = in.spawned["m"+k]
	}
	if ok {
		if how != "handler" {
			for _, m := range after {
				s.mark(m.K, m.T)
			}
		}
		in.emit(&Event{Kind: "spawned", Fn: fr.fn, Instr: site, S: s, Name: c.key(), Args: args, Mode: how})
		return
	}
	saveThread, saveID, saveStack := in.thread, in.threadID, in.stack
	saveKey, saveMulti, saveLoop := in.threadKey, in.threadMulti, in.loopDepth
	defer func() { in.threadKey, in.threadMulti, in.loopDepth = saveKey, saveMulti, saveLoop }()
	stack := []*ssa.Function{fr.fn}
	if !in.threadMulti {
		stack = append(stack, in.stack...)
	}
	if !(how == "timer" && reschedules(c.fn, stack)) {
		in.threadKey = how + ":" + tid + "@" + siteKey(site)
	}
	if how == "handler" || fr.fi.inner[site.Block()] != nil || in.loopDepth > 0 {
		in.threadMulti = true
	}
	in.loopDepth = 0
	in.thread = append(append([]string(nil), in.thread...), tid)
	in.threadID = how + ":" + shortFn(c.fn)
	if how == "handler" {
		if f := handlerTarget(t, c, args); f != "" {
			in.threadID = "handler:" + f
		}
	} else if strings.HasPrefix(saveID, "handler:") || strings.Contains(saveID, "<handler:") {
		in.threadID += " <" + saveID
	}
	t.obls = nil
	in.stack = nil
	marksBefore := t.marks
	es := in.call(c.fn, args, c.binds, t, site, "spawn:"+siteKey(site))
	after = nil
	for i, e := range es {
		in.emit(&Event{Kind: "exit", Fn: c.fn, Instr: site, S: e.s, Name: tid, Mode: how})
		d := minusMarks(e.s.marks, marksBefore)
		if i == 0 {
			after = d
		} else {
			after = interMarks(after, d)
		}
	}
	for i := range after {
		if !strings.HasPrefix(after[i].K, "async:") {
			after[i].K = "async:" + after[i].K
		}
	}
	in.thread, in.threadID, in.stack = saveThread, saveID, saveStack
	if in.mute > 0 {
		in.spawned["m"+k] = after
	} else {
		in.spawned[k] = after
	}
	in.stat["threads"]++
	if how != "handler" {
		for _, m := range after {
			s.mark(m.K, m.T)
		}
	}
	in.emit(&Event{Kind: "spawned", Fn: fr.fn, Instr: site, S: s, Name: c.key(), Args: args, Mode: how})
}

// projectFacts keeps what still says something about values in another thread: facts about loop positions and about
// earlier reads of shared maps are dropped, unless a rule asks for them
func (in *Interp) projectFacts(f *Facts) *Facts {
	m := map[*Term]bool{}
	drop := false
	for a, p := range f.at {
		keep := true
		if in.keepFact == nil || !in.keepFact(a) {
			walk(a, func(x *Term) bool {
				if x.Op == OTok || (x.N != 0 && (x.Op == OLookup || x.Op == OLookupOk || x.Op == OLen)) {
					keep = false
				}
				return keep
			})
		}
		if keep {
			m[a] = p
		} else {
			drop = true
		}
	}
	if !drop {
		return f
	}
	return factsOf(m)
}

func (s *State) sigThread() uint64 {
	h := uint64(0)
	for _, m := range s.marks {
		h ^= strHash(m.K) * uint64(2*tid(m.T)+5)
	}
	return h
}

func shortFn(f *ssa.Function) string {
	n := f.RelString(nil)
	if i := strings.LastIndex(n, "/"); i >= 0 {
		n = n[i+1:]
	}
	return strings.TrimSuffix(n, ")")
}

// reschedules: a timer function that runs its own scheduler again is the next round of the same periodic task
func reschedules(f *ssa.Function, stack []*ssa.Function) bool {
	on := map[*ssa.Function]bool{}
	for _, g := range stack {
		on[g] = true
	}
	seen := map[*ssa.Function]bool{}
	var reach func(f *ssa.Function, depth int) bool
	reach = func(f *ssa.Function, depth int) bool {
		if on[f] {
			return true
		}
		if seen[f] || depth > 3 {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(*ssa.Call); ok && c.Call.StaticCallee() != nil && reach(c.Call.StaticCallee(), depth+1) {
					return true
				}
			}
		}
		return false
	}
	return reach(f, 0)
}

func handlerTarget(s *State, c *callee, args []*Term) string {
	for _, b := range c.binds {
		if b.Op == OAddr {
			if x, ok := s.mem[b]; ok {
				b = x
			}
		}
		if b.Op == OFunc && b.fn != nil {
			return shortFn(b.fn)
		}
		if b.Op == OClos && b.fn != nil {
			return shortFn(b.fn)
		}
	}
	return ""
}

// unstable replaces, in the new thread, captured cells that the spawning loop keeps modifying
func (in *Interp) unstable(fr *frame, site ssa.Instruction, c *callee, args []*Term, t *State) {
	if len(c.binds) == 0 {
		return
	}
	L := fr.fi.inner[site.Block()]
	if L == nil {
		return
	}
	// cells stored to inside the loop (outside the closure)
	for b := range L.body {
		for _, i := range b.Instrs {
			st, ok := i.(*ssa.Store)
			if !ok {
				continue
			}
			al, ok := st.Addr.(*ssa.Alloc)
			if !ok {
				continue
			}
			// allocated inside the loop: fresh per iteration, unless stored again after the spawn
			if L.body[al.Block()] {
				continue
			}
			at := t.env[fr.fi.idx[al]]
			if at == nil {
				continue
			}
			for _, bd := range c.binds {
				if bd == at {
					ty := derefType(al.Type())
					t.setMem(at, tSym("unstable:"+al.Comment+"@"+siteKey(site)+"#"+itoa(in.ctx), ty))
				}
			}
		}
	}
}

// ---- library models ----

var lockRe = regexp.MustCompile(`^\(\*sync\.(RW)?Mutex\)\.(R?Lock|R?Unlock|TryLock|TryRLock)$`)

var pureRe = regexp.MustCompile(`^(strings|strconv|bytes|encoding/hex|encoding/base64|math|unicode|path|path/filepath|crypto/sha256|crypto/md5|crypto/sha1|hash|reflect|encoding/json\.Marshal|encoding/json\.Unmarshal|encoding/json\.MarshalIndent|crypto/x509\.Parse|encoding/asn1|fmt\.Sprint|crypto/rsa\.Verify|encoding/pem|slices|maps|net/url|net|errors|sort)(\.|$)`)

var purePrefixes = []string{"encoding/json.Marshal", "encoding/json.Unmarshal", "crypto/x509.Parse", "crypto/x509.Marshal", "fmt.Sprint", "crypto/rsa.Verify",
	"(github.com/herumi/bls-go-binary/bls.", "(*github.com/herumi/bls-go-binary/bls.", "github.com/herumi/bls-go-binary/bls.",
	"(*github.com/bits-and-blooms/bitset.BitSet).", "(time.Time).", "(time.Duration).", "(*crypto/x509.Certificate).", "github.com/txaty/go-merkletree.Verify", "github.com/bits-and-blooms/bitset.",
	"(encoding/pem", "(*math/big.Int).", "time.Duration", "reflect.", "(reflect.", "(error).Error", "(crypto/x509/pkix", "(*crypto/rsa.PrivateKey).Public", "regexp."}

var impure = map[string]bool{
	"(*github.com/herumi/bls-go-binary/bls.SecretKey).SetByCSPRNG": true, "crypto/rsa.GenerateKey": true, "strings.NewReader": true, "bytes.NewReader": true,
}

func isPure(n string) bool {
	if impure[n] {
		return false
	}
	if i := strings.LastIndex(n, "."); i > 0 && !strings.HasPrefix(n, "(") {
		if pureRe.MatchString(n[:i]) {
			return true
		}
	}
	for _, p := range purePrefixes {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

func lastName(n string) string {
	if i := strings.LastIndex(n, "."); i >= 0 {
		return n[i+1:]
	}
	return n
}

// nonMutating: the callee does not write through its pointer arguments
func nonMutating(n string) bool {
	for _, p := range []string{"encoding/json.Marshal", "fmt.", "log.", "crypto/rsa.", "errors.", "reflect.", "net/http.", "(*net/http.", "crypto/x509.", "os.", "time.", "sync.", "(*sync.", "github.com/txaty/go-merkletree.", "(*github.com/txaty/go-merkletree.", "strings.", "strconv.", "encoding/pem."} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	l := lastName(n)
	for _, p := range []string{"Get", "Is", "Serialize", "String", "Verify", "Len", "Sign", "Test", "Marshal", "Equal", "Hash", "Union", "Intersection", "SymmetricDifference", "Difference", "Clone", "Bytes", "Count", "Any", "None", "All", "Encode", "Write", "FastAggregateVerify", "Close", "Header", "Error", "Public", "Next", "Dump", "DumpAsBits"} {
		if strings.HasPrefix(l, p) {
			return true
		}
	}
	return false
}

// replacing: the callee overwrites its receiver / target completely
func replacing(n string) bool {
	if strings.Contains(n, "bitset.BitSet)") {
		return strings.HasSuffix(n, "UnmarshalBinary") || strings.HasSuffix(n, "UnmarshalJSON") || strings.HasSuffix(n, "ReadFrom")
	}
	l := lastName(n)
	for _, p := range []string{"Unmarshal", "Deserialize", "Decode", "Set", "Read", "Init"} {
		if strings.HasPrefix(l, p) {
			return true
		}
	}
	return false
}

func resultType(c *callee) types.Type {
	if c.sig == nil {
		return nil
	}
	r := c.sig.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return r.At(0).Type()
	}
	return r
}

func (in *Interp) lockName(s *State, m *Term) string {
	m = s.canon(m)
	if n := pathOf(m); n != "" {
		return n
	}
	return "local:" + m.String()
}

// pathOf names a location relative to the context it belongs to
func pathOf(t *Term) string {
	switch t.Op {
	case OSym:
		if t.T != nil {
			tt := t.T
			if d := derefType(tt); d != nil {
				tt = d
			}
			if n, ok := tt.(*types.Named); ok {
				return n.Obj().Name()
			}
		}
		return t.S
	case ODeref:
		return pathOf(t.A[0])
	case OField:
		p := pathOf(t.A[0])
		if p == "" {
			return ""
		}
		return p + "." + fieldName(t.A[0].T, t.N)
	case OFieldPtr:
		p := pathOf(t.A[0])
		if p == "" {
			return ""
		}
		return p + "." + fieldName(derefType(t.A[0].T), t.N)
	case OIndex, OIndexPtr, OLookup:
		p := pathOf(t.A[0])
		if p == "" {
			return ""
		}
		return p + "[]"
	case OAddr:
		if strings.HasPrefix(t.S, "global:") {
			return t.S
		}
	case OSlice:
		return pathOf(t.A[0])
	case OUpd, OMapUpd, OMapDel, OAppend:
		return pathOf(t.A[0])
	}
	return ""
}

func (in *Interp) lockOp(fr *frame, site ssa.Instruction, n string, m *Term, s *State) []Exit {
	op := lockRe.FindStringSubmatch(n)[2]
	name := in.lockName(s, m)
	switch op {
	case "Lock", "RLock":
		in.emit(&Event{Kind: "lock", Fn: fr.fn, Instr: site, S: s, Name: name, Mode: op, Addr: m})
		sec := siteKey(site) + "#" + itoa(in.ctx)
		s.locks = append(append([]Lock(nil), s.locks...), Lock{name, op == "Lock", sec})
		return []Exit{{s, nil}}
	case "TryLock", "TryRLock":
		t := s.clone()
		sec := siteKey(site) + "#" + itoa(in.ctx)
		s.locks = append(append([]Lock(nil), s.locks...), Lock{name, op == "TryLock", sec})
		return []Exit{{s, tTrue}, {t, tFalse}}
	}
	// unlock
	k := -1
	for i := len(s.locks) - 1; i >= 0; i-- {
		if s.locks[i].name == name && s.locks[i].write == (op == "Unlock") {
			k = i
			break
		}
	}
	if k < 0 {
		in.emit(&Event{Kind: "badunlock", Fn: fr.fn, Instr: site, S: s, Name: name, Mode: op})
		return []Exit{{s, nil}}
	}
	sec := s.locks[k].sec
	in.emit(&Event{Kind: "unlock", Fn: fr.fn, Instr: site, S: s, Name: name, Mode: op, Sec: sec})
	s.locks = append(append([]Lock(nil), s.locks[:k]...), s.locks[k+1:]...)
	var lk []lkRec
	for _, r := range s.lk {
		var ss []string
		for _, x := range r.secs {
			if x != sec {
				ss = append(ss, x)
			}
		}
		if len(ss) > 0 {
			r.secs = ss
			lk = append(lk, r)
		}
	}
	s.lk = lk
	return []Exit{{s, nil}}
}

var terminators = map[string]bool{"os.Exit": true, "log.Fatal": true, "log.Fatalf": true, "log.Fatalln": true, "log.Panic": true, "log.Panicf": true, "log.Panicln": true,
	"(*log.Logger).Fatal": true, "(*log.Logger).Fatalf": true, "(*log.Logger).Fatalln": true, "(*log.Logger).Panic": true, "(*log.Logger).Panicf": true, "syscall.Exit": true, "runtime.Goexit": true}

func (in *Interp) extern(fr *frame, site ssa.Instruction, c *callee, args []*Term, s *State) []Exit {
	n := c.name
	rt := resultType(c)
	if lockRe.MatchString(n) {
		return in.lockOp(fr, site, n, args[0], s)
	}
	snaps := make([]*Term, len(args))
	for i, a := range args {
		snaps[i] = in.snap(s, a)
	}
	ret := func(t *Term) []Exit { return []Exit{{s, t}} }
	if terminators[n] {
		in.emit(&Event{Kind: "terminate", Name: n, Fn: fr.fn, Instr: site, S: s, Args: args, Snap: snaps})
		return nil
	}
	ev := &Event{Kind: "call", Fn: fr.fn, Instr: site, S: s, Name: n, Args: args, Snap: snaps}
	if out, ok := in.model(fr, site, c, args, snaps, s, ev); ok {
		return out
	}
	// variadic arguments are passed as the elements of a local array
	var ca []*Term
	for _, a := range snaps {
		ca = append(ca, a)
	}
	repl := replacing(n)
	recvIdx := -1
	if strings.HasPrefix(n, "(*") || c.iface {
		recvIdx = 0
	}
	if repl && recvIdx == 0 && len(ca) > 1 && args[0].Op == OAddr && !c.iface {
		ca = ca[1:]
	} else if repl && recvIdx < 0 && len(ca) > 0 {
		// plain functions such as json.Unmarshal(data, &v): the old content of the target does not matter
		for i, a := range args {
			r := a
			if r.Op == OIface {
				r = r.A[0]
			}
			if (r.Op == OAddr || r.Op == OFieldPtr) && i > 0 {
				ca[i] = tSym("target:"+shortType(r.T), r.T)
			}
		}
	}
	inst := 0
	if !isPure(n) && !in.opaque[n] {
		inst = in.inst(site)
	}
	ct := mk(OCall, n, inst, rt, ca...)
	ct.sig = c.sig
	if ct.site == nil {
		ct.site = site
	}
	ev.Val = ct
	in.emit(ev)
	if s.dead {
		return nil
	}
	if !nonMutating(n) && !in.opaque[n] {
		for i, a := range args {
			r := a
			if r.Op == OIface {
				r = r.A[0]
			}
			if r.Op == OAddr && strings.HasPrefix(r.S, "global:") {
				continue
			}
			if r.Op == OAddr || ((r.Op == OFieldPtr || r.Op == OIndexPtr) && rootIsLocal(r)) {
				if r.T != nil {
					if _, isMap := r.T.Underlying().(*types.Map); isMap {
						continue
					}
				}
				et := derefType(r.T)
				if repl || i != recvIdx {
					in.store(s, r, mk(OOut, "", i, et, ct))
				} else {
					in.store(s, r, mk(OState, n, 0, et, in.load(s, r), ct))
				}
			}
			if r.Op == OSlice && (strings.HasPrefix(lastName(n), "Read") || lastName(n) == "Decode" && i == 0) && isByteSlice(r.T) {
				in.havocSlice(s, r, mk(OOut, "", i, r.T, ct))
			}
		}
	}
	return ret(ct)
}

func rootIsLocal(r *Term) bool {
	for r.Op == OFieldPtr || r.Op == OIndexPtr {
		r = r.A[0]
	}
	return r.Op == OAddr && !strings.HasPrefix(r.S, "global:")
}

var verbRe = regexp.MustCompile(`%[-+# 0]*[0-9]*(\.[0-9]+)?[a-zA-Z%]`)

func (in *Interp) sprintf(s *State, format string, args []*Term) *Term {
	var parts []*Term
	last := 0
	ai := 0
	for _, loc := range verbRe.FindAllStringIndex(format, -1) {
		parts = append(parts, tStr(format[last:loc[0]]))
		v := format[loc[0]:loc[1]]
		last = loc[1]
		if v == "%%" {
			parts = append(parts, tStr("%"))
			continue
		}
		if ai >= len(args) {
			break
		}
		a := args[ai]
		raw := a
		ai++
		if raw.Op == OIface {
			a = raw.A[0]
		}
		isStr := false
		if raw.Op == OIface && raw.T != nil {
			if b, ok := raw.T.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				isStr = true
			}
			if isByteSlice(raw.T) && v == "%s" {
				isStr = true
			}
			if ms := in.prog.prog.MethodSets.MethodSet(raw.T); ms.Lookup(nil, "String") != nil || ms.Lookup(nil, "Error") != nil {
				isStr = false
			}
		}
		if (v == "%s" || v == "%v") && isStr {
			parts = append(parts, a)
			continue
		}
		parts = append(parts, mk(OCall, "fmt.Sprintf:"+v, 0, types.Typ[types.String], in.snap(s, a)))
	}
	parts = append(parts, tStr(format[last:]))
	return mkConcat(parts...)
}

func bufKey(a *Term) *Term {
	if a.Op == OIface {
		a = a.A[0]
	}
	return a
}

func (in *Interp) bufText(s *State, a *Term) (*Term, bool) {
	a = bufKey(a)
	c, ok := s.mem[a]
	if !ok && a.Op == OFieldPtr {
		c = in.load(s, a)
		ok = true
	}
	if !ok {
		if a.Op == OCall && isHashNew(a.S) {
			return tStr(""), true
		}
		return nil, false
	}
	switch c.Op {
	case OZero:
		return tStr(""), true
	case OBuf:
		return c.A[0], true
	}
	return nil, false
}

func isHashNew(n string) bool {
	return strings.HasSuffix(n, ".New") && (strings.HasPrefix(n, "crypto/") || strings.HasPrefix(n, "(crypto.Hash)") || strings.HasPrefix(n, "hash/") || strings.HasPrefix(n, "golang.org/x/crypto"))
}

func isBufType(t types.Type) bool {
	k := ""
	if t != nil {
		k = typeKey(t)
	}
	return k == "*strings.Builder" || k == "*bytes.Buffer"
}

var spawners = map[string]bool{"time.AfterFunc": true}

func (in *Interp) funcVal(t *Term) *callee {
	if t.Op == OIface {
		t = t.A[0]
	}
	if (t.Op == OClos || t.Op == OFunc) && t.fn != nil {
		return in.fnCallee(t.fn, t.A)
	}
	return nil
}

// model: library functions with a precise meaning; returns ok=false for the generic treatment
func (in *Interp) model(fr *frame, site ssa.Instruction, c *callee, args, snaps []*Term, s *State, ev *Event) ([]Exit, bool) {
	n := c.name
	rt := resultType(c)
	fin := func(t *Term) ([]Exit, bool) {
		ev.Val = t
		in.emit(ev)
		return []Exit{{s, t}}, true
	}
	switch n {
	case "errors.New", "fmt.Errorf", "errors.Join", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf":
		return fin(tErr)
	case "fmt.Sprintf":
		if f, ok := args[0].strVal(); ok {
			if es, ok := in.sliceElems(s, args[1]); ok {
				return fin(in.sprintf(s, f, es))
			}
		}
	case "fmt.Sprint":
		if es, ok := in.sliceElems(s, args[0]); ok && len(es) == 1 {
			return fin(in.sprintf(s, "%v", es))
		}
	case "strings.Join":
		if es, ok := in.sliceElems(s, args[0]); ok {
			var p []*Term
			for i, e := range es {
				if i > 0 {
					p = append(p, args[1])
				}
				p = append(p, e)
			}
			return fin(mkConcat(p...))
		}
	case "bytes.Join":
		if es, ok := in.sliceElems(s, args[0]); ok {
			var p []*Term
			for i, e := range es {
				if i > 0 {
					p = append(p, in.sliceVal(s, args[1]))
				}
				p = append(p, in.sliceVal(s, e))
			}
			return fin(mkConcat(p...))
		}
	case "bytes.Equal", "reflect.DeepEqual", "slices.Equal", "crypto/subtle.ConstantTimeCompare", "maps.Equal":
		e := mkEq(snaps[0], snaps[1])
		if n == "crypto/subtle.ConstantTimeCompare" {
			return nil, false
		}
		return fin(e)
	case "strings.EqualFold":
		return nil, false
	case "strings.Compare", "bytes.Compare":
		r := mk(OCall, n, 0, rt, snaps...)
		return fin(r)
	case "strings.Contains", "strings.HasPrefix", "strings.HasSuffix":
		if a, ok := args[0].strVal(); ok {
			if b, ok := args[1].strVal(); ok {
				switch n {
				case "strings.Contains":
					return fin(tBool(strings.Contains(a, b)))
				case "strings.HasPrefix":
					return fin(tBool(strings.HasPrefix(a, b)))
				default:
					return fin(tBool(strings.HasSuffix(a, b)))
				}
			}
		}
	case "bytes.NewBuffer", "bytes.NewReader", "bytes.NewBufferString", "strings.NewReader":
		a := in.alloc(site, derefType(rt), "")
		s.setMem(a, mk(OBuf, "", 0, derefType(rt), in.sliceVal(s, args[0])))
		return fin(a)
	case "(*strings.Builder).WriteString", "(*strings.Builder).Write", "(*bytes.Buffer).WriteString", "(*bytes.Buffer).Write",
		"(*strings.Builder).WriteByte", "(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteByte", "(*bytes.Buffer).WriteRune":
		if t, ok := in.bufText(s, args[0]); ok {
			v := in.sliceVal(s, args[1])
			if strings.HasSuffix(n, "Byte") || strings.HasSuffix(n, "Rune") {
				v = mk(OConv, "byte", 0, types.Typ[types.String], v)
			}
			in.store(s, args[0], mk(OBuf, "", 0, derefType(args[0].T), mkConcat(t, v)))
			if strings.HasSuffix(n, "WriteByte") {
				return fin(tNil)
			}
			return fin(mkTuple(mkLen(v), tNil))
		}
	case "(*strings.Builder).String", "(*bytes.Buffer).String", "(*bytes.Buffer).Bytes":
		if t, ok := in.bufText(s, args[0]); ok {
			return fin(t)
		}
	case "(*strings.Builder).Reset", "(*bytes.Buffer).Reset":
		in.store(s, args[0], mk(OBuf, "", 0, derefType(args[0].T), tStr("")))
		return fin(nil)
	case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow":
		return fin(nil)
	case "(*strings.Builder).Len", "(*bytes.Buffer).Len":
		if t, ok := in.bufText(s, args[0]); ok {
			return fin(mkLen(t))
		}
	case "io.WriteString", "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln":
		w := bufKey(args[0])
		if t, ok := in.bufText(s, w); ok && (isBufType(w.T) || w.Op == OCall) {
			var v *Term
			switch n {
			case "io.WriteString":
				v = args[1]
			case "fmt.Fprintf":
				if f, ok := args[1].strVal(); ok {
					if es, ok := in.sliceElems(s, args[2]); ok {
						v = in.sprintf(s, f, es)
					}
				}
			case "fmt.Fprint":
				if es, ok := in.sliceElems(s, args[1]); ok && len(es) == 1 {
					v = in.sprintf(s, "%v", es)
				}
			}
			if v == nil {
				v = mk(OCall, n, 0, types.Typ[types.String], snaps[1:]...)
			}
			in.store(s, w, mk(OBuf, "", 0, nil, mkConcat(t, v)))
			return fin(mkTuple(mkLen(v), tNil))
		}
	case "(*encoding/json.Decoder).Decode":
		// generic, but the target is written
		src := snaps[0]
		r := args[1]
		if r.Op == OIface {
			r = r.A[0]
		}
		ct := mk(OCall, n, in.inst(site), rt, src, tSym("target:"+shortType(r.T), r.T))
		if ct.site == nil {
			ct.site = site
		}
		ev.Val = ct
		in.emit(ev)
		if r.Op == OAddr || r.Op == OFieldPtr || r.Op == OIndexPtr {
			in.store(s, r, mk(OOut, "", 1, derefType(r.T), ct))
		}
		return []Exit{{s, ct}}, true
	case "time.Sleep":
		in.emit(ev)
		s.gen++
		return []Exit{{s, nil}}, true
	case "time.AfterFunc":
		if cc := in.funcVal(args[1]); cc != nil {
			in.emit(ev)
			in.spawn(fr, site, cc, nil, s, "timer")
			return []Exit{{s, mk(OCall, n, in.inst(site), rt, args[0])}}, true
		}
	case "(*github.com/gorilla/mux.Router).HandleFunc", "net/http.HandleFunc", "(*net/http.ServeMux).HandleFunc",
		"(*github.com/gorilla/mux.Router).Handle", "net/http.Handle", "(*net/http.ServeMux).Handle",
		"(*github.com/gorilla/mux.Route).HandlerFunc", "(*github.com/gorilla/mux.Route).Handler":
		h := args[len(args)-1]
		if cc := in.funcVal(h); cc != nil && cc.sig.Params().Len() == 2 {
			in.emit(ev)
			w := tSym("w", cc.sig.Params().At(0).Type())
			r := tSym("r", cc.sig.Params().At(1).Type())
			in.spawn(fr, site, cc, []*Term{w, r}, s, "handler")
			return []Exit{{s, mk(OCall, n, in.inst(site), rt, args...)}}, true
		}
	case "(*sync.Once).Do":
		if cc := in.funcVal(args[1]); cc != nil && cc.fn != nil {
			t := s.clone()
			out := in.invoke(fr, site, cc, nil, s, false)
			return append(out, Exit{t, nil}), true
		}
	case "(*sync.WaitGroup).Go":
		if cc := in.funcVal(args[1]); cc != nil {
			in.spawn(fr, site, cc, nil, s, "go")
			return []Exit{{s, nil}}, true
		}
	case "(*sync.WaitGroup).Wait":
		in.emit(ev)
		return []Exit{{s, nil}}, true
	case "slices.Contains":
		if es, ok := in.sliceElems(s, args[0]); ok && len(es) <= 16 {
			// known list: membership as a chain of equalities
			return in.memberFork(s, es, args[1], ev), true
		}
	case "sort.Slice", "sort.SliceStable", "sort.Strings", "sort.Ints", "sort.Sort", "slices.Sort", "slices.SortFunc":
		in.emit(ev)
		v := in.sliceVal(s, bufKey(args[0]))
		in.havocSlice(s, bufKey(args[0]), mk(OState, n, 0, v.T, v))
		return []Exit{{s, nil}}, true
	case "(*sync.Map).Load", "(*sync.Map).Store":
		return nil, false
	case "(*github.com/bits-and-blooms/bitset.BitSet).InPlaceUnion", "(*github.com/bits-and-blooms/bitset.BitSet).Set", "(*github.com/bits-and-blooms/bitset.BitSet).SetTo", "(*github.com/bits-and-blooms/bitset.BitSet).Clear",
		"(*github.com/bits-and-blooms/bitset.BitSet).ClearAll", "(*github.com/bits-and-blooms/bitset.BitSet).InPlaceIntersection", "(*github.com/bits-and-blooms/bitset.BitSet).InPlaceDifference", "(*github.com/bits-and-blooms/bitset.BitSet).InPlaceSymmetricDifference", "(*github.com/bits-and-blooms/bitset.BitSet).Flip":
		in.emit(ev)
		r := args[0]
		old := in.load(s, r)
		in.store(s, r, mk(OState, n, 0, derefType(r.T), append([]*Term{old}, in.bitArgs(s, args[1:])...)...))
		if rt != nil {
			return []Exit{{s, r}}, true
		}
		return []Exit{{s, nil}}, true
	}
	if c.iface {
		l := lastName(n)
		w := bufKey(args[0])
		if w.Op == OCall && isHashNew(w.S) {
			switch l {
			case "Write":
				t, ok := in.bufText(s, w)
				if !ok {
					t = mk(OCall, "hashstate", 0, types.Typ[types.String], w)
				}
				v := in.sliceVal(s, args[1])
				s.setMem(w, mk(OBuf, "", 0, nil, mkConcat(t, v)))
				return fin(mkTuple(mkLen(v), tNil))
			case "Sum":
				t, ok := in.bufText(s, w)
				if ok && args[1] == tNil {
					return fin(mk(OCall, "hash:"+w.S, 0, rt, append([]*Term{t}, w.A...)...))
				}
			case "Reset":
				s.setMem(w, mk(OBuf, "", 0, nil, tStr("")))
				return fin(nil)
			}
		}
	}
	if isHashNew(n) {
		t := mk(OCall, n, in.inst(site), rt, args...)
		s.delMem(bufKey(t)) // a new, empty state
		return fin(t)
	}
	if n == "crypto/sha256.Sum256" {
		return fin(mk(OCall, "hash:crypto/sha256.New", 0, rt, in.sliceVal(s, args[0])))
	}
	return nil, false
}

func (in *Interp) bitArgs(s *State, as []*Term) []*Term {
	var r []*Term
	for _, a := range as {
		if a.T != nil {
			if d := derefType(a.T); d != nil {
				r = append(r, in.load(s, a))
				continue
			}
		}
		r = append(r, a)
	}
	return r
}

func (in *Interp) memberFork(s *State, es []*Term, x *Term, ev *Event) []Exit {
	in.emit(ev)
	var out []Exit
	cur := s
	for _, e := range es {
		c := mkEq(e, x)
		if v, ok := cur.facts.decide(c); ok {
			if v {
				return append(out, Exit{cur, tTrue})
			}
			continue
		}
		t := cur.clone()
		if t.assume(c, true) {
			out = append(out, Exit{t, tTrue})
		}
		if !cur.assume(c, false) {
			return out
		}
	}
	return append(out, Exit{cur, tFalse})
}

func sortedFns(m map[*ssa.Function]bool) []string {
	var r []string
	for f := range m {
		r = append(r, f.RelString(nil))
	}
	sort.Strings(r)
	return r
}
