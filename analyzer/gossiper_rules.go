package main

// Rules for the gossiper: P05-P12.

import (
	"go/types"
	"strings"
)

const verifyFn = "(github.com/jik18001/CTngV2/definition.Gossip_object).Verify"
const verifyFnP = "(*github.com/jik18001/CTngV2/definition.Gossip_object).Verify"

func opaqueVerify(in *Interp) {
	in.opaque[verifyFn] = true
	in.opaque[verifyFnP] = true
}

func isVerifyCall(t *Term) bool { return t.Op == OCall && (t.S == verifyFn || t.S == verifyFnP) }

func stripRef(t *Term) *Term {
	for t.Op == ORef || t.Op == OIface {
		t = t.A[0]
	}
	return t
}

// eqNil: atom is x == nil
func eqNil(a *Term) (*Term, bool) {
	if a.Op == OBin && a.S == "==" {
		if a.A[0] == tNil {
			return a.A[1], true
		}
		if a.A[1] == tNil {
			return a.A[0], true
		}
	}
	return nil, false
}

// verifiedObjs: objects whose Verify is known to have succeeded in s
func verifiedObjs(s *State) [][2]*Term {
	var r [][2]*Term
	for a, p := range s.facts.at {
		if !p {
			continue
		}
		if x, ok := eqNil(a); ok && isVerifyCall(x) {
			r = append(r, [2]*Term{stripRef(x.A[0]), x.A[1]})
		}
	}
	return r
}

func sameTerm(s *State, a, b *Term) bool {
	if a == b {
		return true
	}
	ca, cb := s.canon(a), s.canon(b)
	if ca == cb {
		return true
	}
	e, ok := s.facts.decide(mkEq(ca, cb))
	if ok && e {
		return true
	}
	// componentwise
	if ca.T != nil && cb.T != nil && (ca.Op == ORec || cb.Op == ORec) {
		if st := structOf(ca.T); st != nil && structOf(cb.T) != nil && structOf(cb.T).NumFields() == st.NumFields() {
			for i := 0; i < st.NumFields(); i++ {
				if !sameTerm(s, mkField(ca, i, ca.T), mkField(cb, i, cb.T)) {
					return false
				}
			}
			return true
		}
	}
	if ca.T != nil && (ca.Op == OArr || cb.Op == OArr) {
		if at, ok := ca.T.Underlying().(*types.Array); ok && at.Len() <= maxArr {
			for i := int64(0); i < at.Len(); i++ {
				if !sameTerm(s, mkIndex(ca, tInt(i), at.Elem()), mkIndex(cb, tInt(i), at.Elem())) {
					return false
				}
			}
			return true
		}
	}
	return false
}

// verified: this very object passed Verify with the configuration at cfgPath
func verified(s *State, o *Term, cfgPath string) bool {
	for _, v := range verifiedObjs(s) {
		if cfgPath != "" && pathOf(v[1]) != cfgPath {
			continue
		}
		if sameTerm(s, v[0], o) {
			return true
		}
	}
	return false
}

// ownerField: t is field f of a struct type named tn (through pointers)
func ownerField(t *Term, tn string) string {
	for {
		switch t.Op {
		case OField:
			if n, ok := namedOf(t.A[0].T); ok && n == tn {
				return fieldName(t.A[0].T, t.N)
			}
			return ""
		case OFieldPtr:
			if n, ok := namedOf(derefType(t.A[0].T)); ok && n == tn {
				return fieldName(derefType(t.A[0].T), t.N)
			}
			return ""
		case ODeref:
			t = t.A[0]
			continue
		}
		return ""
	}
}

func namedOf(t types.Type) (string, bool) {
	if t == nil {
		return "", false
	}
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name(), true
	}
	return "", false
}

func isNamed(t types.Type, name string) bool {
	n, ok := namedOf(t)
	return ok && n == name
}

func isGossipObject(t *Term) bool {
	return t.T != nil && isNamed(t.T, "Gossip_object") && derefType(t.T) == nil
}

// netRoots: values decoded from a request body or a response inside t
func netRoots(t *Term) []*Term {
	var r []*Term
	walk(t, func(x *Term) bool {
		if x.Op == OOut && fromNetwork(x.A[0]) {
			r = append(r, x)
			return false
		}
		return true
	})
	return r
}

func fromNetwork(t *Term) bool {
	net := false
	walk(t, func(x *Term) bool {
		switch x.Op {
		case OSym:
			if x.T != nil && typeKey(x.T) == "*net/http.Request" {
				net = true
			}
		case OCall:
			if isHTTPSend(x.S) {
				net = true
			}
		}
		return !net
	})
	return net
}

var httpSends = map[string]int{ // index of the body argument, -1: none
	"(*net/http.Client).Post": 3, "net/http.Post": 2, "(*net/http.Client).Do": 1, "net/http.Get": -1, "(*net/http.Client).Get": -1, "net/http.PostForm": 1, "(*net/http.Client).PostForm": 2, "(*net/http.Transport).RoundTrip": 1, "(net/http.RoundTripper).RoundTrip": 1, "(*net/http.Client).Head": -1, "net/http.Head": -1,
}

func isHTTPSend(n string) bool { _, ok := httpSends[n]; return ok }

// sentObjects: values serialised into the body of an HTTP request
func sentBody(e *Event) *Term {
	i, ok := httpSends[e.Name]
	if !ok || i < 0 || i >= len(e.Snap) {
		return nil
	}
	return e.Snap[i]
}

func marshalled(body *Term) []*Term {
	var r []*Term
	walk(body, func(x *Term) bool {
		if x.Op == OCall && (strings.HasPrefix(x.S, "encoding/json.Marshal") || strings.HasSuffix(x.S, "json.Encoder).Encode")) {
			r = append(r, stripRef(x.A[len(x.A)-1]))
			if strings.HasSuffix(x.S, "MarshalIndent") {
				r[len(r)-1] = stripRef(x.A[0])
			}
			return false
		}
		return true
	})
	return r
}

// Gossip_object field numbers, resolved by name
type goFields struct{ Period, Type, Signer, Signers, Signature, Payload int }

func (c *C) goFields() goFields {
	t := c.p.typ("definition", "Gossip_object")
	g := goFields{-1, -1, -1, -1, -1, -1}
	st := structOf(t)
	if st == nil {
		c.missing("definition.Gossip_object")
		return g
	}
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Name() {
		case "Period":
			g.Period = i
		case "Type":
			g.Type = i
		case "Signer":
			g.Signer = i
		case "Signers":
			g.Signers = i
		case "Signature":
			g.Signature = i
		case "Payload":
			g.Payload = i
		}
	}
	return g
}

func (c *C) fieldIdx(pkg, typ, name string) int {
	st := structOf(c.p.typ(pkg, typ))
	if st == nil {
		c.missing(pkg + "." + typ)
		return 0
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	c.missing(pkg + "." + typ + "." + name)
	return 0
}

func (g goFields) f(o *Term, n int) *Term { return mkField(o, n, o.T) }
func (g goFields) payload(o *Term, i int) *Term {
	return mkIndex(mkField(o, g.Payload, o.T), tInt(int64(i)), types.Typ[types.String])
}
func (g goFields) sig(o *Term, i int) *Term {
	return mkIndex(mkField(o, g.Signature, o.T), tInt(int64(i)), types.Typ[types.String])
}

// constants of package definition by name
func (c *C) defConst(name string) *Term {
	if m, ok := c.p.pkgs["definition"].Members[name]; ok {
		if nc, ok := m.(interface{ Name() string }); ok {
			_ = nc
		}
		if k := c.p.pkgs["definition"].Const(name); k != nil {
			return constTerm(k.Value)
		}
	}
	c.missing("definition." + name)
	return tNil
}

var objTypes = []string{"STH_INIT", "REV_INIT", "ACC_INIT", "CON_INIT", "STH_FRAG", "REV_FRAG", "ACC_FRAG", "STH_FULL", "REV_FULL", "ACC_FULL"}

const gStore = "Gossip_object_storage"
const gBlack = "Gossip_blacklist"
const gCfg = "GossiperContext.Gossiper_crypto_config"

func storageMap(m *Term) string { return ownerField(m, gStore) }
func blackMap(m *Term) bool     { return ownerField(m, gBlack) != "" }

// objectsIn: the gossip objects newly contained in a value put into a map (appends to the map's own list contribute only the new elements)
func objectsIn(in *Interp, s *State, v *Term) []*Term {
	v = stripRef(v)
	if isGossipObject(v) {
		return []*Term{v}
	}
	x := in.snap(s, v)
	switch x.Op {
	case OAppend:
		var r []*Term
		r = append(r, objectsIn(in, s, x.A[0])...)
		for _, e := range x.A[1:] {
			if e.Op == OSpread {
				r = append(r, objectsIn(in, s, e.A[0])...)
			} else {
				r = append(r, e)
			}
		}
		return r
	case OConst, OZero:
		return nil
	case OLookup:
		if storageMap(x.A[0]) != "" {
			return nil // what is stored already
		}
	case OArr:
		return x.A
	}
	return []*Term{x}
}

func (c *C) gossiperRun(in *Interp) {
	f := c.p.fn("gossiper", "StartGossiperServer")
	if f == nil {
		c.missing("gossiper.StartGossiperServer")
		return
	}
	opaqueVerify(in)
	ctx := tSym("c", f.Params[0].Type())
	c.run(in, f, []*Term{ctx}, newState())
}

func init() {
	checks["P05"] = p05
	checks["P06"] = p06
	checks["P07"] = p07
	checks["P08"] = p08
	checks["P09"] = p09
	checks["P10"] = p10
	checks["P11"] = p11
	checks["P12"] = p12
}

// storeEvent classifies writes that put something into the gossiper's object storage
func (c *C) freshEmptyMap(in *Interp, s *State, v *Term) bool {
	if v == tNil {
		return true
	}
	if v.Op == OAddr {
		if ct, ok := s.mem[v]; ok && ct.Op == OZero {
			return true
		}
	}
	return false
}

func p05(c *C) {
	c.rules = append(c.rules, "every insertion into a map of Gossip_object_storage inserts objects o with Verify(o, own config)==nil known on the path; whole-map assignments install fresh empty maps")
	g := c.goFields()
	_ = g
	var in *Interp
	in = c.interp(func(e *Event) {
		switch e.Kind {
		case "mapupd":
			f := storageMap(e.Addr)
			if f == "" {
				return
			}
			c.site("storage map written", f)
			for _, o := range objectsIn(in, e.S, e.Val) {
				c.oblig()
				if !verified(e.S, in.snap(e.S, o), gCfg) {
					c.fail("store-unverified", f, e.Instr, e.S, "an object enters storage map %s without Verify having succeeded for exactly this object on this path (value %s)", f, o)
				}
			}
		case "store":
			for _, f := range c.storesInto(in, e, gStore) {
				c.oblig()
				if !c.freshEmptyMap(in, e.S, f.val) && !isOldContent(f.val) {
					c.fail("store-map", f.name, e.Instr, e.S, "storage map %s is replaced by a map that is not a fresh empty one (%s)", f.name, f.val)
				}
			}
		}
	})
	c.gossiperRun(in)
	c.needAll("storage map written", append([]string{"REV_PAYLOAD"}, objTypes...)...)
}

// isOldContent: the value is the field's own previous content
func isOldContent(v *Term) bool { return v.Op == OField || v.Op == OConst && v == tNil }

type fieldStore struct {
	name string
	val  *Term
	old  *Term
}

// storesInto: which map/slice fields of a struct named tn change through this store
func (c *C) storesInto(in *Interp, e *Event, tn string) []fieldStore {
	var r []fieldStore
	if e.Addr.Op == OAddr && !strings.HasPrefix(e.Addr.S, "global:") {
		return nil
	}
	// direct field store
	if f := ownerField(e.Addr, tn); f != "" && e.Addr.Op == OFieldPtr {
		if rootIsLocal(e.Addr) {
			return nil
		}
		old := in.load(e.S, e.Addr)
		if old != e.Val {
			r = append(r, fieldStore{f, e.Val, old})
		}
		return r
	}
	// store of a whole struct or of a pointer to one
	t := e.Val.T
	v := e.Val
	if rootIsLocal(e.Addr) {
		return nil
	}
	if dt := derefType(e.Addr.T); dt != nil {
		t = dt
	}
	if t == nil {
		return nil
	}
	old := in.load(e.S, e.Addr)
	if isNamed(t, tn) {
		if d := derefType(t); d != nil {
			v = in.load(e.S, v)
			old = in.load(e.S, old)
			t = d
		}
		st := structOf(t)
		for i := 0; st != nil && i < st.NumFields(); i++ {
			nv, ov := mkField(v, i, t), mkField(old, i, t)
			if nv != ov && !strings.Contains(typeKey(st.Field(i).Type()), "sync.") {
				r = append(r, fieldStore{st.Field(i).Name(), nv, ov})
			}
		}
	}
	return r
}

func p06(c *C) {
	c.rules = append(c.rules, "every HTTP request body depending on a received gossip object o is sent on a path where Verify succeeded for that object, and a sent object is either verified itself, a verified one without its bulk payload, or carries a signature made here")
	g := c.goFields()
	var in *Interp
	in = c.interp(func(e *Event) {
		if e.Kind != "call" {
			return
		}
		body := sentBody(e)
		if body == nil {
			return
		}
		c.site("request sent", c.p.pos(e.Instr)+" "+in.threadID)
		vs := verifiedObjs(e.S)
		for _, r := range netRoots(body) {
			if !isGossipObject(r) {
				continue
			}
			c.oblig()
			c.site("relay of received object", in.threadName())
			ok := false
			for _, v := range vs {
				if pathOf(v[1]) == gCfg && contains(v[0], r) {
					ok = true
				}
			}
			if !ok {
				c.fail("relay-unverified", "", e.Instr, e.S, "a request carries content of a received object that was not verified on this path")
			}
		}
		for _, m := range marshalled(body) {
			if !isGossipObject(m) {
				continue
			}
			c.oblig()
			c.site("object sent", in.threadName())
			if !c.relayable(e.S, g, m) {
				c.fail("relay-altered", "", e.Instr, e.S, "the object sent is not an object verified on this path (%s)", m)
			}
		}
	})
	in.keepFact = keepVerify
	c.gossiperRun(in)
	c.need("object sent", 1)
	c.need("relay of received object", 1)
}

func (in *Interp) threadName() string { return in.threadID }

// relayable: m is verified, or a verified object with payload blanked, or comes unchanged from the verified payload cache
func (c *C) relayable(s *State, g goFields, m *Term) bool {
	if m.Op == OLookup && storageMap(m.A[0]) != "" {
		return true
	}
	for _, v := range verifiedObjs(s) {
		if sameTerm(s, v[0], m) {
			return true
		}
		if sameButPayload(s, g, v[0], m) {
			return true
		}
	}
	return false
}

// sameButPayload: m equals o except that payload entries 1 and 2 may be blank
func sameButPayload(s *State, g goFields, o, m *Term) bool {
	st := structOf(m.T)
	if st == nil || o.T == nil {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if i == g.Payload {
			if !sameTerm(s, g.payload(o, 0), g.payload(m, 0)) {
				return false
			}
			for k := 1; k < 3; k++ {
				if s.canon(g.payload(m, k)) != tStr("") && !sameTerm(s, g.payload(o, k), g.payload(m, k)) {
					return false
				}
			}
			continue
		}
		if !sameTerm(s, mkField(o, i, o.T), mkField(m, i, m.T)) {
			return false
		}
	}
	return true
}

func p07(c *C) {
	c.rules = append(c.rules, "every request that carries a gossip object (or a digest of a received one) is sent on a path on which that object was inserted into storage before; answers from the payload cache excepted")
	g := c.goFields()
	var in *Interp
	in = c.interp(func(e *Event) {
		switch e.Kind {
		case "mapupd":
			f := storageMap(e.Addr)
			if f == "" || f == "REV_PAYLOAD" {
				return
			}
			for _, o := range objectsIn(in, e.S, e.Val) {
				c.site("stored", f)
				e.S.mark("stored", in.snap(e.S, o))
			}
		case "call":
			body := sentBody(e)
			if body == nil {
				return
			}
			st := e.S.marked("stored")
			ms := marshalled(body)
			for _, m := range ms {
				if !isGossipObject(m) {
					continue
				}
				if m.Op == OLookup && storageMap(m.A[0]) == "REV_PAYLOAD" {
					c.site("cache answer", in.threadName())
					continue
				}
				c.oblig()
				c.site("object sent", in.threadName())
				ok := false
				for _, x := range st {
					if sameTerm(e.S, x, m) || sameButPayload(e.S, g, x, m) {
						ok = true
					}
				}
				if !ok {
					c.fail("relay-not-stored", "", e.Instr, e.S, "an object is sent although it was not added to storage on this path (%s)", m)
				}
			}
			for _, r := range netRoots(body) {
				if !isGossipObject(r) {
					continue
				}
				c.oblig()
				ok := false
				for _, x := range st {
					if contains(x, r) {
						ok = true
					}
				}
				if !ok {
					c.fail("relay-not-stored", "content", e.Instr, e.S, "content of a received object is sent although nothing of it was added to storage on this path")
				}
			}
		}
	})
	c.gossiperRun(in)
	c.need("object sent", 2)
	c.needAll("stored", "STH_INIT", "REV_INIT", "CON_INIT", "STH_FRAG", "STH_FULL")
}

// notBlacklisted: the state knows a negative blacklist lookup for entity (gen<0: any generation)
func notBlacklisted(in *Interp, s *State, entity *Term, gen int) bool {
	for a, p := range s.facts.at {
		if p {
			continue
		}
		if (a.Op == OLookupOk || a.Op == OLookup) && blackMap(a.A[0]) && sameTerm(s, a.A[1], entity) {
			if gen < 0 || in.lkGen[a] == gen {
				return true
			}
		}
	}
	return false
}

// keepVerify: the outcome of Verify is about the values themselves, it holds in another thread too
func keepVerify(a *Term) bool {
	x, ok := eqNil(a)
	return ok && isVerifyCall(x)
}

func keepBlack(a *Term) bool {
	return (a.Op == OLookupOk || a.Op == OLookup) && blackMap(a.A[0])
}

func isThresholdSign(n string) bool {
	return strings.HasSuffix(n, "bls.SecretKey).Sign") || strings.HasSuffix(n, "bls.SecretKey).SignByte") || strings.HasSuffix(n, "bls.SecretKey).SignHash")
}

func p08(c *C) {
	c.rules = append(c.rules, "store/relay: a blacklist lookup of the object's entity was negative on the path; threshold signing: the lookup happened after the last deliberate wait (sleep, timer, new thread)")
	g := c.goFields()
	var in *Interp
	in = c.interp(func(e *Event) {
		switch e.Kind {
		case "mapupd":
			f := storageMap(e.Addr)
			if f == "" {
				return
			}
			for _, o := range objectsIn(in, e.S, e.Val) {
				o = in.snap(e.S, o)
				if !isGossipObject(o) {
					continue
				}
				c.oblig()
				c.site("stored", f)
				if !notBlacklisted(in, e.S, g.payload(o, 0), -1) {
					c.fail("store-blacklisted", f, e.Instr, e.S, "an object is stored in %s on a path where its entity was not looked up (or was found) in the blacklist", f)
				}
			}
		case "call":
			if body := sentBody(e); body != nil {
				for _, m := range marshalled(body) {
					if !isGossipObject(m) {
						continue
					}
					c.oblig()
					c.site("object sent", in.threadName())
					if !notBlacklisted(in, e.S, g.payload(m, 0), -1) {
						c.fail("relay-blacklisted", "", e.Instr, e.S, "an object is sent on a path where its entity was not looked up (or was found) in the blacklist (%s)", m)
					}
				}
				inObj := map[*Term]bool{}
				for _, m := range marshalled(body) {
					if isGossipObject(m) {
						for _, r := range netRoots(m) {
							inObj[r] = true
						}
					}
				}
				for _, r := range netRoots(body) {
					if isGossipObject(r) && !inObj[r] {
						c.oblig()
						if !notBlacklisted(in, e.S, g.payload(r, 0), -1) {
							c.fail("relay-blacklisted", "content", e.Instr, e.S, "content of a received object is sent on a path where its entity was not found absent from the blacklist")
						}
					}
				}
			}
			if isThresholdSign(e.Name) {
				c.oblig()
				c.site("threshold signature made", in.threadName())
				// the entity is the first component of the signed message
				msg := e.Snap[1]
				first := msg
				if msg.Op == OConcat {
					first = msg.A[0]
				}
				if !notBlacklisted(in, e.S, first, e.S.gen) {
					c.fail("sign-blacklisted", "", e.Instr, e.S, "an object is threshold-signed without a negative blacklist lookup of its entity since the last wait")
				}
			}
		}
	})
	in.keepFact = keepBlack
	c.gossiperRun(in)
	c.needAll("stored", append([]string{"REV_PAYLOAD"}, objTypes...)...)
	c.need("object sent", 2)
	c.need("threshold signature made", 3)
}

func p09(c *C) {
	c.rules = append(c.rules, "storing a conflict proof or threshold accusation obliges the path to put its entity on the blacklist (or to find it there) before the thread ends; no store, delete or clear touches CON_INIT or the blacklist")
	g := c.goFields()
	var in *Interp
	protected := func(tn, f string) bool {
		return tn == gStore && f == "CON_INIT" || tn == gBlack && f == "BLACKLIST_PERM"
	}
	in = c.interp(func(e *Event) {
		switch e.Kind {
		case "mapupd":
			if f := storageMap(e.Addr); f == "CON_INIT" || f == "ACC_FULL" {
				c.site("proof stored", f)
				for _, o := range objectsIn(in, e.S, e.Val) {
					o = in.snap(e.S, o)
					e.S.oblige("blacklist", g.payload(o, 0))
				}
			}
			if blackMap(e.Addr) {
				c.site("blacklisted", "BLACKLIST_PERM")
				c.oblig()
				if e.S.canon(e.Val) != tTrue {
					c.fail("blacklist-value", "", e.Instr, e.S, "a blacklist entry is written with a value other than true")
				}
				k := e.Key
				s := e.S
				s.discharge(func(m Mark) bool { return m.K == "blacklist" && sameTerm(s, m.T, k) })
				s.mark("blacklisted", k)
			}
		case "mapdel", "mapclear":
			if f := storageMap(e.Addr); protected(gStore, f) || blackMap(e.Addr) {
				c.fail("proof-removed", f, e.Instr, e.S, "an entry of %s is removed", pathOf(e.Addr))
			}
		case "store":
			for _, tn := range []string{gStore, gBlack} {
				for _, f := range c.storesInto(in, e, tn) {
					if protected(tn, f.name) {
						c.oblig()
						c.fail("proof-replaced", f.name, e.Instr, e.S, "%s.%s is replaced (new content %s)", tn, f.name, f.val)
					} else {
						c.site("other collection replaced", f.name)
					}
				}
			}
		case "fact":
			if e.Truth && keepBlack(e.Key) {
				s, k := e.S, e.Key.A[1]
				s.discharge(func(m Mark) bool { return m.K == "blacklist" && sameTerm(s, m.T, k) })
			}
		case "exit":
			for _, m := range e.S.obls {
				if m.K != "blacklist" {
					continue
				}
				c.oblig()
				ok := e.S.hasMark("blacklisted", m.T) || e.S.hasMark("async:blacklisted", m.T)
				for a, p := range e.S.facts.at {
					if p && (a.Op == OLookupOk || a.Op == OLookup) && blackMap(a.A[0]) && sameTerm(e.S, a.A[1], m.T) {
						ok = true
					}
				}
				if !ok {
					c.fail("proof-without-effect", "", e.Instr, e.S, "a path stores a proof of misbehaviour against %s without blacklisting it", m.T)
				}
			}
			c.site("thread end", in.threadName())
		}
	})
	in.keepFact = keepBlack
	c.gossiperRun(in)
	c.needAll("proof stored", "CON_INIT", "ACC_FULL")
	c.need("blacklisted", 1)
	c.need("thread end", 3)
}

// lockedAbsence: in the critical section now held, the map was found to have no entry for key
func lockedAbsence(s *State, m, k *Term) bool {
	for _, r := range s.lk {
		if sameTerm(s, r.m, m) && sameTerm(s, r.k, k) {
			if v, ok := s.facts.decide(r.ok); ok && !v {
				return true
			}
			if r.ok == tFalse {
				return true
			}
		}
	}
	return false
}

func p10(c *C) {
	c.rules = append(c.rules, "insertion into an INIT map only with the key known absent from a lookup in the same critical section; a path that finds an STH/REV statement on file for a received one's period and entity must, before it ends, find it to be a duplicate, of another signer, superseded (threshold object or enough fragments), gone, invalid or its entity blacklisted, or hand on a conflict proof made from both, which in turn is stored, already on file, invalid or about a blacklisted entity")
	g := c.goFields()
	conT := c.defConst("CON_INIT")
	inits := map[string]bool{"STH_INIT": true, "REV_INIT": true, "ACC_INIT": true, "CON_INIT": true}
	var in *Interp
	drop := func(s *State, k string, t *Term) {
		s.discharge(func(m Mark) bool { return m.K == k && (t == nil || m.T == t) })
	}
	in = c.interp(func(e *Event) {
		s := e.S
		switch e.Kind {
		case "mapupd":
			f := storageMap(e.Addr)
			if !inits[f] {
				return
			}
			c.oblig()
			c.site("initial statement stored", f)
			if !lockedAbsence(s, e.Addr, e.Key) {
				c.fail("init-overwrite", f, e.Instr, s, "%s is written without having found the key absent in the same critical section", f)
			}
			v := in.snap(s, e.Val)
			drop(s, "equiv:"+f, v)
			if f == "CON_INIT" {
				s.discharge(func(m Mark) bool { return m.K == "con" && sameTerm(s, m.T, v) })
			}
		case "enter":
			// a conflict proof handed to further processing takes over the obligation
			for _, a := range e.Args {
				if a == nil || a.T == nil || !isNamed(a.T, "Gossip_object") {
					continue
				}
				o := stripRef(in.snap(s, a))
				if !isGossipObject(o) || o.Op != ORec || s.canon(g.f(o, g.Type)) != conT {
					continue
				}
				for _, m := range s.obls {
					if strings.HasPrefix(m.K, "equiv:") && conFrom(s, g, o, m.T, strings.TrimPrefix(m.K, "equiv:")) {
						c.site("conflict proof built", m.K)
						drop(s, m.K, m.T)
						s.oblige("con", o)
					}
				}
			}
		case "fact":
			c.equivFact(in, e, g)
		case "store":
			for _, f := range c.storesInto(in, e, gStore) {
				if inits[f.name] && !c.freshEmptyMap(in, s, f.val) {
					c.fail("init-overwrite", f.name, e.Instr, s, "%s is replaced by other content", f.name)
				}
			}
		case "exit":
			if e.Mode != "handler" {
				return
			}
			c.site("handler end", in.threadName())
			for _, m := range s.obls {
				c.oblig()
				if m.K == "con" {
					c.fail("conflict-dropped", "", e.Instr, s, "a conflict proof built from two statements is dropped although it was neither stored, on file, invalid nor about a blacklisted entity")
				} else if strings.HasPrefix(m.K, "equiv:") {
					c.fail("equivocation-dropped", m.K, e.Instr, s, "a second %s for the same entity and period can be dropped without comparing signers and signatures and recording a conflict proof", strings.TrimPrefix(m.K, "equiv:"))
				}
			}
		}
	})
	in.keepFact = keepBlack
	c.gossiperRun(in)
	c.needAll("initial statement stored", "STH_INIT", "REV_INIT", "ACC_INIT", "CON_INIT")
	c.need("handler end", 3)
	c.needAll("conflict proof built", "equiv:STH_INIT", "equiv:REV_INIT")
	c.needAll("existing statement met", "STH_INIT", "REV_INIT")
}

// equivFact: obligations raised and discharged by what a branch has found out
func (c *C) equivFact(in *Interp, e *Event, g goFields) {
	s, a := e.S, e.Key
	if a.Op == OLookupOk {
		f := storageMap(a.A[0])
		if f == "STH_INIT" || f == "REV_INIT" {
			roots := netRoots(a.A[1])
			if len(roots) == 1 && isGossipObject(roots[0]) {
				o := roots[0]
				if e.Truth && s.canon(g.f(o, g.Type)) == c.defConst(f) {
					c.oblig()
					c.site("existing statement met", f)
					s.oblige("equiv:"+f, o)
				}
				if !e.Truth {
					s.discharge(func(m Mark) bool { return m.K == "equiv:"+f && m.T == o })
				}
			}
			return
		}
		if f == "CON_INIT" && e.Truth {
			s.discharge(func(m Mark) bool { return m.K == "con" && sameTerm(s, g.payload(m.T, 0), mkField(a.A[1], 2, a.A[1].T)) })
		}
		if strings.HasSuffix(f, "_FULL") && e.Truth {
			s.discharge(func(m Mark) bool { return strings.HasPrefix(m.K, "equiv:") && contains(a.A[1], m.T) })
		}
	}
	if keepBlack(a) && e.Truth {
		k := a.A[1]
		s.discharge(func(m Mark) bool {
			return (m.K == "con" || strings.HasPrefix(m.K, "equiv:")) && sameTerm(s, g.payload(m.T, 0), k)
		})
	}
	if x, ok := eqNil(a); ok && !e.Truth && isVerifyCall(x) {
		o := stripRef(x.A[0])
		s.discharge(func(m Mark) bool {
			return (m.K == "con" || strings.HasPrefix(m.K, "equiv:")) && sameTerm(s, m.T, o)
		})
	}
	for _, m := range s.obls {
		if !strings.HasPrefix(m.K, "equiv:") {
			continue
		}
		f, o := strings.TrimPrefix(m.K, "equiv:"), m.T
		isStored := func(x *Term) bool { return x.Op == OLookup && storageMap(x.A[0]) == f }
		done := false
		// enough fragments collected
		if a.Op == OBin && a.S == "<" {
			for k := 0; k < 2; k++ {
				l := a.A[k]
				b, _ := splitAdd(l)
				if b == nil {
					b = l
				}
				if b.Op == OLen && b.A[0].Op == OLookup && strings.HasSuffix(storageMap(b.A[0].A[0]), "_FRAG") && contains(b.A[0].A[1], o) && strings.Contains(pathOf(a.A[1-k]), "Threshold") {
					if k == 0 && !e.Truth || k == 1 && e.Truth {
						done = true
					}
				}
				// a positive number of threshold objects
				if k == 1 && e.Truth && b.Op == OLen && strings.HasSuffix(storageMap(b.A[0]), "_FULL") {
					done = true
				}
			}
		}
		if a.Op == OBin && a.S == "==" {
			for k := 0; k < 2; k++ {
				x, y := a.A[k], a.A[1-k]
				if e.Truth && x.Op == OField && x.N == g.Signature && isStored(x.A[0]) && sameTerm(s, y, g.f(o, g.Signature)) {
					done = true
				}
				if e.Truth && x.Op == OIndex && x.A[1] == tInt(0) && x.A[0].Op == OField && x.A[0].N == g.Signature && isStored(x.A[0].A[0]) && sameTerm(s, y, g.sig(o, 0)) {
					done = true
				}
				if !e.Truth && x.Op == OField && x.N == g.Signer && isStored(x.A[0]) && sameTerm(s, y, g.f(o, g.Signer)) {
					done = true
				}
			}
		}
		if done {
			mm := m
			s.discharge(func(q Mark) bool { return q == mm })
		}
	}
}

// conFrom: x carries the signatures of the statement on file and of o
func conFrom(s *State, g goFields, x, o *Term, f string) bool {
	fromStored := func(t *Term) bool {
		return t.Op == OIndex && t.A[1] == tInt(0) && t.A[0].Op == OField && t.A[0].N == g.Signature && t.A[0].A[0].Op == OLookup && storageMap(t.A[0].A[0].A[0]) == f
	}
	s0, s1 := g.sig(x, 0), g.sig(x, 1)
	return fromStored(s0) && sameTerm(s, s1, g.sig(o, 0)) || fromStored(s1) && sameTerm(s, s0, g.sig(o, 0))
}

func p11(c *C) {
	c.rules = append(c.rules, "a fragment is appended only when, in the same critical section, the list was scanned completely without finding the signer and its length is below the threshold")
	g := c.goFields()
	var in *Interp
	in = c.interp(func(e *Event) {
		switch e.Kind {
		case "mapupd":
			f := storageMap(e.Addr)
			if !strings.HasSuffix(f, "_FRAG") {
				return
			}
			c.site("fragment stored", f)
			c.oblig()
			v := in.snap(e.S, e.Val)
			if v.Op != OAppend || len(v.A) != 2 || v.A[1].Op == OSpread {
				c.fail("frag-form", f, e.Instr, e.S, "the fragment list %s is changed other than by appending one fragment (%s)", f, v)
				return
			}
			list, o := v.A[0], v.A[1]
			// the list was read in this critical section under the same key
			fresh := false
			for _, r := range e.S.lk {
				if sameTerm(e.S, r.m, e.Addr) && sameTerm(e.S, r.k, e.Key) && r.val == list {
					fresh = true
				}
			}
			if !fresh {
				c.fail("frag-atomic", f, e.Instr, e.S, "the list appended to was not read from %s under the same key in the same critical section", f)
				return
			}
			if !signerAbsent(in, e.S, g, list, g.f(o, g.Signer)) {
				c.fail("frag-signer", f, e.Instr, e.S, "a fragment is added without having scanned the collected fragments for one of the same signer in the same critical section")
			}
			if !belowThreshold(e.S, list) {
				c.fail("frag-threshold", f, e.Instr, e.S, "a fragment is added without the number collected being known to be below the threshold in the same critical section")
			}
		case "store":
			for _, f := range c.storesInto(in, e, gStore) {
				if strings.HasSuffix(f.name, "_FRAG") && !c.freshEmptyMap(in, e.S, f.val) {
					c.fail("frag-form", f.name, e.Instr, e.S, "%s is replaced by other content", f.name)
				}
			}
		}
	})
	c.gossiperRun(in)
	c.needAll("fragment stored", "STH_FRAG", "REV_FRAG", "ACC_FRAG")
}

func signerAbsent(in *Interp, s *State, g goFields, list, signer *Term) bool {
	// empty list
	if s.known(mkEq(mkLen(list), tInt(0))) {
		return true
	}
	for _, fa := range s.foralls {
		if strings.HasPrefix(fa.loop, "exists:") {
			continue
		}
		for a, p := range fa.facts.at {
			if p || a.Op != OBin || a.S != "==" {
				continue
			}
			for k := 0; k < 2; k++ {
				x, y := a.A[k], a.A[1-k]
				if x.Op == OField && x.N == g.Signer && isElemOf(x.A[0], list) && fullRange(in, x.A[0].A[1], list) && sameTerm(s, y, signer) {
					return true
				}
			}
		}
	}
	return false
}

// isElemOf: x is the loop element list[i] (i a loop position), by index
func isElemOf(x, list *Term) bool {
	return x.Op == OIndex && x.A[0] == list && !x.A[1].isConst()
}

func belowThreshold(s *State, list *Term) bool {
	l := mkLen(list)
	for a, p := range s.facts.at {
		if a.Op != OBin || a.S != "<" {
			continue
		}
		// len < T
		if p && a.A[0] == l && strings.HasSuffix(pathOf(a.A[1]), ".Threshold") {
			return true
		}
		// !(T < len+1)  or !(T-1 < len)
		if !p && strings.HasSuffix(pathOf(a.A[0]), ".Threshold") && a.A[1] == addConst(l, 1) {
			return true
		}
		if !p {
			b, k := splitAdd(a.A[0])
			if b != nil && k == -1 && strings.HasSuffix(pathOf(b), ".Threshold") && a.A[1] == l {
				return true
			}
		}
	}
	return false
}

func p12(c *C) {
	c.rules = append(c.rules, "storage key = (period, type, entity) of the stored object; stored object's type matches the map; derived objects take period, entity and payload from one source object and the corresponding type")
	g := c.goFields()
	next := map[string]string{"STH_INIT": "STH_FRAG", "REV_INIT": "REV_FRAG", "ACC_INIT": "ACC_FRAG", "STH_FRAG": "STH_FULL", "REV_FRAG": "REV_FULL", "ACC_FRAG": "ACC_FULL"}
	typeName := map[*Term]string{}
	for _, n := range objTypes {
		typeName[c.defConst(n)] = n
	}
	var in *Interp
	checkDerived := func(e *Event, o *Term) {
		s := e.S
		if o.Op != ORec {
			return
		}
		ty := typeName[s.canon(g.f(o, g.Type))]
		pay := g.f(o, g.Payload)
		period := g.f(o, g.Period)
		sig := g.sig(o, 0)
		if ty == "CON_INIT" {
			c.oblig()
			c.site("derived object", "CON_INIT")
			// two sources
			x, y := sigSource(g, sig), sigSource(g, g.sig(o, 1))
			if x == nil || y == nil {
				if len(netRoots(o)) > 0 || contains(o, x) {
					c.fail("derive-con", "sig", e.Instr, s, "a conflict proof is not built from the signatures of two objects (%s)", o)
				}
				return
			}
			full := func(z *Term) *Term { return mkConcat(g.payload(z, 0), g.payload(z, 1), g.payload(z, 2)) }
			if !(sameTerm(s, g.payload(o, 0), g.payload(x, 0)) || sameTerm(s, g.payload(o, 0), g.payload(y, 0))) {
				c.fail("derive-con", "entity", e.Instr, s, "a conflict proof names another entity than the objects it is built from")
			}
			if !sameTerm(s, g.payload(o, 1), full(x)) || !sameTerm(s, g.payload(o, 2), full(y)) {
				c.fail("derive-con", "content", e.Instr, s, "a conflict proof does not embed the full signed content of both objects next to their signatures")
			}
			if !(sameTerm(s, period, g.f(x, g.Period)) || sameTerm(s, period, g.f(y, g.Period))) {
				c.fail("derive-con", "period", e.Instr, s, "a conflict proof is not for the period of the objects it is built from")
			}
			return
		}
		// FRAG / FULL derived from a source whose payload it carries
		src := paySource(g, pay)
		if src == nil {
			if hasSignCall(sig) {
				c.oblig()
				c.fail("derive-payload", ty, e.Instr, s, "a derived object does not carry the payload of a single source object (%s)", o)
			}
			return
		}
		if !hasSignCall(sig) {
			return // a received object, possibly with its payload restored from the cache
		}
		c.oblig()
		c.site("derived object", ty)
		if !sameTerm(s, period, g.f(src, g.Period)) {
			c.fail("derive-period", ty, e.Instr, s, "a derived %s does not keep the period of its source", ty)
		}
		st := typeName[s.canon(g.f(src, g.Type))]
		if st == "" {
			// element of a storage list: its type is that of the list
			root := src
			for root.Op == OIndex {
				root = root.A[0]
			}
			if root.Op == OLookup {
				st = storageMap(root.A[0])
			}
		}
		if ty == "" || next[st] != ty {
			c.fail("derive-type", st+">"+ty, e.Instr, s, "an object derived from a %s gets type %s", st, s.canon(g.f(o, g.Type)))
		}
	}
	in = c.interp(func(e *Event) {
		switch e.Kind {
		case "mapupd":
			f := storageMap(e.Addr)
			if f == "" {
				return
			}
			for _, o := range objectsIn(in, e.S, e.Val) {
				o = in.snap(e.S, o)
				c.oblig()
				c.site("filed", f)
				if !idMatches(e.S, g, e.Key, o) {
					c.fail("filing", f, e.Instr, e.S, "an object is stored in %s under a key other than its own period, type and entity (key %s)", f, e.Key)
				}
				want := f
				if f == "REV_PAYLOAD" {
					want = "REV_INIT"
				}
				if typeName[e.S.canon(g.f(o, g.Type))] != want {
					c.fail("filing-type", f, e.Instr, e.S, "an object whose type is not known to be %s is stored in %s", want, f)
				}
				checkDerived(e, o)
			}
		case "call":
			if isVerifyCall2(e) {
				o := stripRef(e.Snap[0])
				if isGossipObject(o) {
					checkDerived(e, o)
				}
			}
		}
	})
	c.gossiperRun(in)
	c.needAll("filed", append([]string{"REV_PAYLOAD"}, objTypes...)...)
	c.needAll("derived object", "CON_INIT", "STH_FRAG", "REV_FRAG", "ACC_FRAG", "STH_FULL", "REV_FULL", "ACC_FULL")
	p12monitor(c, g)
}

func isVerifyCall2(e *Event) bool { return e.Name == verifyFn || e.Name == verifyFnP }

func idMatches(s *State, g goFields, key, o *Term) bool {
	k := key
	return sameTerm(s, mkField(k, 0, k.T), g.f(o, g.Period)) && sameTerm(s, mkField(k, 1, k.T), g.f(o, g.Type)) && sameTerm(s, mkField(k, 2, k.T), g.payload(o, 0))
}

// sigSource: t is x.Signature[0]; returns x
func sigSource(g goFields, t *Term) *Term {
	if t.Op == OIndex && t.A[0].Op == OField && t.A[0].N == g.Signature {
		return t.A[0].A[0]
	}
	return nil
}

// paySource: pay is x.Payload (whole)
func paySource(g goFields, pay *Term) *Term {
	if pay.Op == OField && pay.N == g.Payload && isGossipObject(pay.A[0]) {
		return pay.A[0]
	}
	if pay.Op == OArr {
		var src *Term
		for i, x := range pay.A {
			if x.Op != OIndex || x.A[0].Op != OField || x.A[0].N != g.Payload || x.A[1] != tInt(int64(i)) {
				return nil
			}
			if src != nil && src != x.A[0].A[0] {
				return nil
			}
			src = x.A[0].A[0]
		}
		return src
	}
	return nil
}

func hasSignCall(t *Term) bool {
	r := false
	walk(t, func(x *Term) bool {
		if x.Op == OCall && (isThresholdSign(x.S) || strings.Contains(x.S, "bls.Sign).")) {
			r = true
		}
		return !r
	})
	return r
}

func p12monitor(c *C, g goFields) {
	c.rules = append(c.rules, "the monitor files every object, and the revocation vector changed by it, under the object's own identity and entity")
	in := c.interp(func(e *Event) {
		if e.Kind != "mapupd" {
			return
		}
		n := monitorStore(e.Addr)
		if n == "" {
			return
		}
		if !isObjectMap(e.Addr) {
			for _, r := range netRoots(c.in.snap(e.S, e.Val)) {
				if isGossipObject(r) {
					c.oblig()
					c.site("monitor filed", n)
					if !sameTerm(e.S, e.Key, g.payload(r, 0)) {
						c.fail("monitor-filing", n, e.Instr, e.S, "%s changes for an entity other than the one the object is about", n)
					}
				}
			}
			return
		}
		for _, o := range objectsIn(c.in, e.S, e.Val) {
			o = c.in.snap(e.S, o)
			c.oblig()
			c.site("monitor filed", n)
			if !idMatches(e.S, g, e.Key, o) {
				c.fail("monitor-filing", n, e.Instr, e.S, "an object is stored in %s under a key other than its own period, type and entity", n)
			}
		}
	})
	c.serverRun(in, "monitor")
	c.needAll("monitor filed", "TEMP", "CONFLICT_POM", "CONFLICT_POM_DELTA", "ACCUSATION_POM", "ACCUSATION_POM_DELTA", "STH_FULL", "REV_FULL", "CRV")
}
