package main

// P30: generated key material.

import (
	"strings"
)

type keyEntry struct {
	loop     string // loop that files the entry; "" = straight-line code
	back     int
	key, val *Term
}

// entries: everything a map built by the analysed code can contain
func (c *C) entries(content *Term, seen map[*Term]bool) ([]keyEntry, bool) {
	content = stripRef(content)
	if content == tNil || content.Op == OZero || seen[content] {
		return nil, true
	}
	if content.Op == OMapUpd {
		l, ok := c.entries(content.A[0], seen)
		return append(l, keyEntry{"", len(l), content.A[1], content.A[2]}), ok
	}
	lt := c.in.loops[content.S]
	if content.Op != OTok || lt == nil {
		return nil, false
	}
	seen[content] = true
	var out []keyEntry
	for _, i := range lt.inits {
		l, ok := c.entries(i, seen)
		if !ok {
			return nil, false
		}
		out = append(out, l...)
	}
	loop := content.S
	if i := strings.LastIndex(loop, ":"); i >= 0 {
		loop = loop[:i]
	}
	for j, b := range lt.backs {
		v := b.val
		for v.Op == OMapUpd {
			out = append(out, keyEntry{loop, j, v.A[1], v.A[2]})
			v = v.A[0]
		}
		if v != content {
			l, ok := c.entries(v, seen)
			if !ok {
				return nil, false
			}
			out = append(out, l...)
		}
	}
	return out, true
}

// element: t, with elements of element-by-element copies of a list replaced by the element of that list
func (c *C) element(t *Term) *Term {
	t = stripConv(t)
	for n := 0; n < 4 && t.Op == OIndex && t.A[0].Op == OTok; n++ {
		lt := c.in.loops[t.A[0].S]
		if lt == nil || len(lt.backs) == 0 {
			return t
		}
		var src *Term
		for _, b := range lt.backs {
			v := b.val
			var e *Term
			if v.Op == OAppend && v.A[0] == t.A[0] && len(v.A) == 2 {
				e = stripConv(v.A[1])
			} else if v.Op == OUpd && v.A[0] == t.A[0] {
				e = stripConv(v.A[2])
				if e.Op == OIndex && v.A[1] != e.A[1] {
					e = nil
				}
			}
			if e == nil || e.Op != OIndex || !fullRange(c.in, e.A[1], e.A[0]) || (src != nil && src != e.A[0]) {
				return t
			}
			src = e.A[0]
		}
		t = stripConv(mkIndex(src, t.A[1], nil))
	}
	return t
}

// covers: some entry is filed for every element of the list that k is an element of
func (c *C) covers(es []keyEntry, k *Term) bool {
	for _, e := range es {
		x := c.element(e.key)
		if x == k {
			return true
		}
		y := stripConv(e.key)
		if x.Op != OIndex || k.Op != OIndex || !fullRange(c.in, y.A[1], y.A[0]) {
			continue
		}
		if x.A[0] == k.A[0] {
			return true
		}
		var in func(l *Term) bool
		in = func(l *Term) bool {
			if l == k.A[0] {
				return true
			}
			if l.Op == OAppend {
				if in(l.A[0]) {
					return true
				}
				for _, a := range l.A[1:] {
					if a.Op == OSpread && in(a.A[0]) {
						return true
					}
				}
			}
			return false
		}
		if in(x.A[0]) {
			return true
		}
	}
	return false
}

func publicOf(pk, sk *Term) bool {
	pk, sk = stripRef(stripConv(pk)), stripRef(stripConv(sk))
	for pk.Op == ODeref {
		pk = pk.A[0]
	}
	for sk.Op == ODeref {
		sk = sk.A[0]
	}
	if pk.Op == OCall && strings.HasSuffix(pk.S, ").GetPublicKey") {
		return unDeref(stripRef(pk.A[0])) == sk
	}
	if pk.Op == OField && isNamed(pk.T, "PublicKey") {
		return unDeref(stripRef(pk.A[0])) == sk
	}
	return false
}

// paired: the two maps hold a key pair for the same identity in every entry
func (c *C) paired(pubs, privs *Term, k *Term) string {
	pe, ok1 := c.entries(pubs, map[*Term]bool{})
	se, ok2 := c.entries(privs, map[*Term]bool{})
	if !ok1 || !ok2 || len(pe) == 0 || len(se) == 0 {
		return "the keys do not come from generated key pairs"
	}
	for _, s := range se {
		found := false
		for _, p := range pe {
			if p.loop != s.loop || (p.loop != "" && p.back != s.back) || c.element(p.key) != c.element(s.key) {
				continue
			}
			if publicOf(p.val, s.val) {
				found = true
			} else {
				return "the public key published for an identity is not that of the private key generated for it"
			}
		}
		if !found {
			return "a generated key is not published for the identity it is given to"
		}
	}
	for _, p := range pe {
		found := false
		for _, s := range se {
			found = found || p.loop == s.loop && (p.loop == "" || p.back == s.back) && c.element(p.key) == c.element(s.key)
		}
		if !found {
			return "a published key has no private counterpart under the same identity"
		}
	}
	if k != nil && !c.covers(se, k) {
		return "no key is generated for this identity"
	}
	return ""
}

// identityOf: the identity a configuration is named after, as an element of a list of identities
func (c *C) identityOf(s *State, id *Term) (*Term, string) {
	id = stripConv(s.canon(id))
	if id.Op != OField || id.A[0].Op != OLookup {
		return c.element(id), ""
	}
	lk := id.A[0]
	es, ok := c.entries(lk.A[0], map[*Term]bool{})
	if !ok || len(es) == 0 {
		return nil, "its identity cannot be traced"
	}
	k := c.element(lk.A[1])
	keys := map[string]bool{}
	for _, e := range es {
		v := fld(e.val, "SelfID")
		if v == nil || stripConv(v) != stripConv(e.key) {
			return nil, "it can be filed under another identity than its own"
		}
		keys[c.formula(e.key)] = true
	}
	if c.covers(es, k) {
		return k, ""
	}
	// both the list and the map are made by the same formulas?
	if k.Op == OIndex && k.A[0].Op == OTok {
		if lt := c.in.loops[k.A[0].S]; lt != nil {
			for _, b := range lt.backs {
				v := b.val
				for v.Op == OUpd {
					if !keys[c.formula(v.A[2])] {
						return nil, "there is no configuration for identity " + short(v.A[2])
					}
					v = v.A[0]
				}
			}
		}
	}
	return k, ""
}

// names: t is identity k, perhaps as read from its configuration
func (c *C) names(s *State, t, k *Term) bool {
	if c.element(t) == k {
		return true
	}
	x, why := c.identityOf(s, t)
	return why == "" && x == k
}

// formula: a term up to the identity of the loop counter in it
func (c *C) formula(t *Term) string {
	t = rewrite(stripConv(t), func(x *Term) *Term {
		if x.Op == OTok {
			if lt := c.in.loops[x.S]; lt != nil && len(lt.inits) > 0 {
				return tSym("counter from "+lt.inits[0].String(), x.T)
			}
		}
		return x
	}, map[*Term]*Term{})
	return t.String()
}

func (c *C) ownKeys(s *State, m *Term, where string, share bool, fail func(what, msg string)) {
	c.oblig()
	dir := func(n string) *Term {
		t := fld(m, n)
		if t.Op == OAddr {
			t = c.in.load(s, t)
		}
		return stripRef(t)
	}
	id := fld(m, "SelfID")
	if id == nil {
		fail("id", "a configuration without an identity is handed out")
		return
	}
	k, why := c.identityOf(s, id)
	if why != "" {
		fail("id", why)
		return
	}
	// RSA
	c.oblig()
	sk := unDeref(stripRef(stripConv(s.canon(fld(m, "SignSecretKey")))))
	switch {
	case sk.Op != OLookup:
		fail("rsa", "its RSA key is "+short(sk))
	case !c.names(s, sk.A[1], k):
		fail("rsa", "its RSA key is that of "+short(sk.A[1])+", not of "+short(k))
	default:
		if why := c.paired(dir("SignPublicMap"), sk.A[0], k); why != "" {
			fail("rsa", "RSA: "+why)
		}
	}
	// BLS
	c.oblig()
	pub := dir("ThresholdPublicMap")
	if share { // stored form: serialized
		es, ok := c.entries(pub, map[*Term]bool{})
		var src *Term
		for _, e := range es {
			key, v := stripConv(e.key), stripRef(stripConv(e.val))
			if key.Op != OMapKey || v.Op != OCall || !strings.HasSuffix(v.S, "PublicKey).Serialize") {
				ok = false
				break
			}
			if key.A[0] == tNil {
				continue
			}
			if !entryAt(s, v.A[len(v.A)-1], key.A[0], key) || (src != nil && src != key.A[0]) {
				ok = false
				break
			}
			src = key.A[0]
		}
		if !ok || src == nil {
			fail("bls public", "its directory of threshold keys is not the generated one")
			return
		}
		pub = src
	}
	tk := stripRef(stripConv(s.canon(fld(m, "ThresholdSecretKey"))))
	if share && (tk.Op == OZero || tk == tNil || tk == tInt(0) || mkLen(tk) == tInt(0)) {
		c.site("configuration without a share", where)
		if why := c.paired(pub, c.shares(pub), nil); why != "" {
			fail("bls", "threshold keys: "+why)
		}
		return
	}
	if tk.Op != OLookup {
		fail("bls", "its threshold key is "+short(tk))
		return
	}
	if !c.names(s, tk.A[1], k) {
		fail("bls", "its threshold key is that of "+short(tk.A[1])+", not of "+short(k))
		return
	}
	c.site("configuration with a share", where)
	privs := tk.A[0]
	if share {
		es, ok := c.entries(privs, map[*Term]bool{})
		var src *Term
		for _, e := range es {
			v := stripRef(stripConv(e.val))
			if v.Op != OCall || !strings.HasSuffix(v.S, "SecretKey).Serialize") {
				ok = false
				break
			}
			a := stripRef(v.A[len(v.A)-1])
			if a.Op == OZero {
				continue // key generation has failed
			}
			if a.Op != OLookup || c.element(a.A[1]) != c.element(e.key) || (src != nil && src != a.A[0]) {
				ok = false
				break
			}
			src = a.A[0]
		}
		if !ok || src == nil {
			fail("bls", "the threshold keys handed out are not the generated ones of their owners")
			return
		}
		if !c.covers(es, k) {
			fail("bls", "no threshold key is filed for this identity")
			return
		}
		privs = src
	}
	if why := c.paired(pub, privs, k); why != "" {
		fail("bls", "threshold keys: "+why)
	}
}

// shares: the map filled by the same loop as pub with the secret keys
func (c *C) shares(pub *Term) *Term {
	i := strings.LastIndex(pub.S, ":")
	if pub.Op != OTok || i < 0 {
		return tNil
	}
	for n, lt := range c.in.loops {
		if n == pub.S || !strings.HasPrefix(n, pub.S[:i]+":") || len(lt.backs) == 0 || lt.backs[0].val.Op != OMapUpd {
			continue
		}
		return lt.tok
	}
	return tNil
}

func p30(c *C) {
	c.rules = append(c.rules,
		"in every crypto configuration the generator writes, the identity, the RSA key and (if present) the threshold key are entries of the respective map under one and the same identity",
		"the maps of private and public keys are filled by the same complete pass over all identities, and in every step the public key filed is the public half of the private key filed under the same identity",
		"gossipers get their threshold share, the other components none")
	if f := c.p.fn("Gen", "Generateall"); f == nil {
		c.missing("Gen.Generateall")
	} else {
		in := c.interp(func(e *Event) {
			if c.muted() || e.Kind != "call" || !isFileWrite(e.Name) {
				return
			}
			for _, a := range e.Snap {
				for _, m := range marshalled(a) {
					if m.T == nil || !isNamed(m.T, "StoredCryptoConfig") {
						continue
					}
					c.site("configuration written", short(fld(m, "SelfID")))
					c.ownKeys(e.S, m, short(fld(m, "SelfID")), true, func(what, msg string) {
						c.fail("keys", what+" "+shortFn(e.Fn), e.Instr, e.S, "a crypto configuration written (%s): %s", short(e.Args[0]), msg)
					})
				}
			}
		})
		c.exits(in, f)
		c.need("configuration written", 4)
		c.need("configuration with a share", 1)
		c.need("configuration without a share", 3)
	}
	if f := c.p.fn("crypto", "GenerateEntityCryptoConfigs"); f == nil {
		c.missing("crypto.GenerateEntityCryptoConfigs")
	} else {
		in := c.interp(func(e *Event) {
			if c.muted() || (e.Kind != "store" && e.Kind != "append") {
				return
			}
			vals := []*Term{e.Val}
			if e.Kind == "append" {
				vals = e.Args
			}
			for _, v := range vals {
				if v == nil || v.Op != ORec || v.T == nil || !isNamed(v.T, "CryptoConfig") {
					continue
				}
				m := c.in.snap(e.S, v)
				c.site("configuration generated", shortFn(f))
				c.ownKeys(e.S, m, shortFn(f), false, func(what, msg string) {
					c.fail("keys", what+" "+shortFn(f), e.Instr, e.S, "a crypto configuration generated: %s", msg)
				})
			}
		})
		c.exits(in, f)
		c.need("configuration generated", 1)
	}
}

func init() { checks["P30"] = p30 }
