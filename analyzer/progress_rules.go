package main

// P40: what a gossiper newly stores it passes on, co-signs and combines.

import (
	"strings"
)

// below: what the atom a with truth p says about len(list) - bound (an upper limit of the difference); ok if it says anything
func countLimit(a *Term, p bool, isLen, isBound func(*Term) bool) (limit int64, eq bool, ok bool) {
	if a.Op != OBin || a.S != "<" && a.S != "==" {
		return
	}
	part := func(t *Term) (*Term, int64) {
		b, k := splitAdd(t)
		if b == nil {
			return t, 0
		}
		return b, k
	}
	for k := 0; k < 2; k++ {
		l, c1 := part(a.A[k])
		b, c2 := part(a.A[1-k])
		if !isLen(l) || !isBound(b) {
			continue
		}
		switch {
		case a.S == "==": // len + c1 == bound + c2
			return c2 - c1, true, true
		case k == 0 && p: // len + c1 < bound + c2
			return c2 - c1 - 1, false, true
		case k == 1 && !p: // bound + c2 >= len + c1
			return c2 - c1, false, true
		}
	}
	return
}

func p40(c *C) {
	c.rules = append(c.rules,
		"when the processing of a message (handler, timer or other thread) ends, every tree head, revocation and conflict proof stored on the path has been sent to every element of Connected_Gossipers (or announced to it by a notification naming it) and to the owner, every threshold object stored to the owner, every fragment stored to every element of Connected_Gossipers",
		"after an initial statement was stored, every continuation (also behind the waiting timer) threshold-signs its payload or finds the entity blacklisted, and the fragment made is stored, or found invalid, superfluous or known",
		"after a fragment was stored, every continuation knows the number collected to be below the threshold, or builds a threshold object, which is stored, or found invalid or known")
	g := c.goFields()
	var in *Interp
	typeOf := func(s *State, o *Term) string {
		t := s.canon(g.f(o, g.Type))
		for _, n := range objTypes {
			if c.defConst(n) == t {
				return n
			}
		}
		return ""
	}
	// about: the identity k belongs to the object o
	// entity: k is the entity the object o is about, or was taken from a fragment on file for that entity
	var entity func(s *State, k, o *Term) bool
	entity = func(s *State, k, o *Term) bool {
		if sameTerm(s, k, g.payload(o, 0)) {
			return true
		}
		r := false
		walk(k, func(x *Term) bool {
			r = r || x.Op == OLookup && strings.HasSuffix(storageMap(x.A[0]), "_FRAG") && entity(s, mkField(x.A[1], 2, x.A[1].T), o)
			return !r
		})
		return r
	}
	about := func(s *State, k, o *Term) bool { return entity(s, mkField(k, 2, k.T), o) }
	frags := func(s *State, m Mark) func(*Term) bool {
		return func(t *Term) bool {
			return t.Op == OLen && t.A[0].Op == OLookup && strings.HasSuffix(storageMap(t.A[0].A[0]), "_FRAG") && about(s, t.A[0].A[1], m.T)
		}
	}
	bound := func(t *Term) bool { return strings.HasSuffix(pathOf(t), ".Threshold") }
	in = c.interp(func(e *Event) {
		s := e.S
		switch e.Kind {
		case "mapupd":
			f := storageMap(e.Addr)
			if f == "" || f == "REV_PAYLOAD" {
				return
			}
			os := objectsIn(in, s, e.Val)
			if len(os) == 0 {
				return
			}
			o := in.snap(s, os[len(os)-1])
			if !isGossipObject(o) {
				return
			}
			c.oblig()
			c.site("stored", f)
			s.mark("stored", o)
			switch {
			case f == "CON_INIT":
				s.oblige("peers:"+f, o)
				s.oblige("owner:"+f, o)
			case f == "ACC_INIT":
				s.oblige("sign:"+f, o)
			case strings.HasSuffix(f, "_INIT"):
				s.oblige("peers:"+f, o)
				s.oblige("owner:"+f, o)
				s.oblige("sign:"+f, o)
			case strings.HasSuffix(f, "_FRAG"):
				s.oblige("peers:"+f, o)
				s.oblige("combine:"+f, o)
				s.discharge(func(m Mark) bool { return m.K == "own" && about(s, e.Key, m.T) })
			case strings.HasSuffix(f, "_FULL"):
				s.oblige("owner:"+f, o)
				s.discharge(func(m Mark) bool { return m.K == "full" })
			}
		case "call":
			if isThresholdSign(e.Name) {
				for _, o := range s.marked("stored") {
					msg := e.Snap[len(e.Snap)-1]
					if contains(msg, g.payload(o, 1)) && contains(msg, g.payload(o, 2)) {
						s.mark("cosigned", o)
						s.oblige("own", o)
						c.site("co-signed", typeOf(s, o))
					}
				}
				return
			}
			if isVerifyCall(mk(OCall, e.Name, 0, nil, e.Snap...)) && len(e.Snap) > 0 {
				o := stripRef(e.Snap[0])
				if o.Op == ORec && isGossipObject(o) && strings.HasSuffix(typeOf(s, o), "_FULL") {
					n := len(s.obls)
					s.discharge(func(m Mark) bool { return strings.HasPrefix(m.K, "combine:") })
					if len(s.obls) < n {
						c.site("combined", typeOf(s, o))
						s.oblige("full", o)
					}
				}
				return
			}
			if !isHTTPSend(e.Name) {
				return
			}
			call := mk(OCall, e.Name, 0, nil, e.Snap...)
			_, u := requestOf(call)
			vars, _ := concatParts(u)
			body := sentBody(e)
			if body == nil || len(vars) == 0 {
				return
			}
			host := hostKind(vars)
			for _, m := range marshalled(body) {
				for _, o := range s.marked("stored") {
					ok := isGossipObject(m) && (sameTerm(s, o, m) || sameButPayload(s, g, o, m))
					if !ok && m.T != nil && isNamed(m.T, "Gossip_Notification") && host == "gossiper" {
						p, t, n := fieldOf(m, "Period"), fieldOf(m, "Type"), fieldOf(m, "Entity_URL")
						from := fieldOf(m, "Sender")
						ok = p != nil && t != nil && n != nil && from != nil && sameTerm(s, p, g.f(o, g.Period)) && sameTerm(s, t, g.f(o, g.Type)) && sameTerm(s, n, g.payload(o, 0)) && strings.HasSuffix(pathOf(stripConv(from)), ".SelfID")
					}
					if !ok {
						continue
					}
					switch host {
					case "monitor":
						c.site("sent to the owner", typeOf(s, o))
						s.mark("to-owner", o)
						s.discharge(func(m Mark) bool { return strings.HasPrefix(m.K, "owner:") && m.T == o })
					case "gossiper":
						c.site("sent to the peers", typeOf(s, o))
						s.mark("to-peer", mk(OCall, "to", 0, nil, o, vars[0]))
					}
				}
			}
		case "forall":
			for _, k := range e.All.marks {
				if k.K != "to-peer" && k.K != "async:to-peer" {
					continue
				}
				o, h := k.T.A[0], k.T.A[1]
				if h.Op == OIndex && strings.HasSuffix(pathOf(h.A[0]), ".Connected_Gossipers") && fullRange(in, h.A[1], h.A[0]) {
					s.discharge(func(m Mark) bool { return strings.HasPrefix(m.K, "peers:") && sameTerm(s, m.T, o) })
				}
			}
		case "fact":
			a := e.Key
			if a.Op == OBin && a.S == "==" && !e.Truth && (strings.HasSuffix(pathOf(a.A[0]), ".ThresholdScheme") || strings.HasSuffix(pathOf(a.A[1]), ".ThresholdScheme")) {
				// no signature can be made under an unknown scheme
				for _, o := range s.marked("stored") {
					s.mark("cosigned", o)
				}
				s.discharge(func(m Mark) bool { return strings.HasPrefix(m.K, "sign:") || m.K == "own" })
			}
			if keepBlack(a) && e.Truth {
				for _, o := range s.marked("stored") {
					if entity(s, a.A[1], o) && strings.HasSuffix(typeOf(s, o), "_INIT") && typeOf(s, o) != "CON_INIT" {
						s.mark("cosigned", o)
					}
				}
				s.discharge(func(m Mark) bool {
					if strings.Contains(m.K, "CON_INIT") || strings.Contains(m.K, "_FULL") {
						return false
					}
					return m.K == "full" || entity(s, a.A[1], m.T)
				})
			}
			if a.Op == OLookupOk && e.Truth && strings.HasSuffix(storageMap(a.A[0]), "_FULL") {
				s.discharge(func(m Mark) bool {
					return m.K == "full" || (m.K == "own" || strings.HasPrefix(m.K, "combine:") || strings.HasPrefix(m.K, "sign:")) && about(s, a.A[1], m.T)
				})
			}
			if x, ok := eqNil(a); ok && !e.Truth && isVerifyCall(x) {
				o := stripRef(x.A[0])
				if o.Op == ORec && isGossipObject(o) {
					t := typeOf(s, o)
					s.discharge(func(m Mark) bool {
						return m.K == "full" && strings.HasSuffix(t, "_FULL") || m.K == "own" && strings.HasSuffix(t, "_FRAG")
					})
				}
			}
			for _, m := range s.obls {
				m := m
				done := false
				switch {
				case m.K == "own":
					// enough fragments, or this one is known
					if a.Op == OBin && a.S == "<" {
						for k := 0; k < 2; k++ {
							if frags(s, m)(a.A[k]) && bound(a.A[1-k]) && (k == 0) != e.Truth {
								done = true
							}
						}
					}
					if a.Op == OBin && a.S == "==" && e.Truth {
						walk(a, func(x *Term) bool {
							done = done || x.Op == OLookup && strings.HasSuffix(storageMap(x.A[0]), "_FRAG")
							return !done
						})
					}
				case strings.HasPrefix(m.K, "combine:"):
					isLen := frags(s, m)
					if lim, eq, ok := countLimit(a, e.Truth, isLen, bound); ok {
						if eq && !e.Truth && lim == -1 || !eq && lim <= -2 {
							done = true
						}
					}
				}
				// the storage was wiped in the meantime
				if strings.HasSuffix(m.K, "_FRAG") && a.Op == OBin && a.S == "==" && e.Truth {
					isLen := frags(s, m)
					done = done || a.A[0] == tInt(0) && isLen(a.A[1]) || a.A[1] == tInt(0) && isLen(a.A[0])
				}
				if done {
					k := m
					s.discharge(func(m Mark) bool { return m == k })
				}
			}
		case "exit":
			if c.muted() || e.Mode == "" {
				return
			}
			for _, m := range s.obls {
				kind, f := m.K, ""
				if i := strings.IndexByte(kind, ':'); i > 0 {
					kind, f = kind[:i], kind[i+1:]
				}
				c.oblig()
				switch kind {
				case "peers":
					c.fail("not-relayed", f, e.Instr, s, "an object newly stored in %s is not sent to every connected gossiper on every continuation", f)
				case "owner":
					if s.hasMark("async:to-owner", m.T) {
						continue
					}
					c.fail("owner-not-told", f, e.Instr, s, "an object newly stored in %s is not sent to the gossiper's monitor on every continuation", f)
				case "sign":
					if s.hasMark("cosigned", m.T) || s.hasMark("async:cosigned", m.T) {
						continue
					}
					c.fail("not-signed", f, e.Instr, s, "a statement newly stored in %s is neither threshold-signed (also later) nor found blacklisted on every continuation", f)
				case "own":
					c.fail("own-fragment-dropped", "", e.Instr, s, "the gossiper's own fragment is not processed although it is not invalid, superfluous or known")
				case "combine":
					c.fail("not-combined", f, e.Instr, s, "a fragment is stored in %s and no threshold object is built although the threshold may have been reached", f)
				case "full":
					c.fail("threshold-object-dropped", "", e.Instr, s, "a threshold object is built but not stored although it is not invalid or known")
				}
			}
			c.site("thread end", in.threadName())
		}
	})
	in.keepFact = keepBlack
	c.gossiperRun(in)
	c.needAll("stored", "STH_INIT", "REV_INIT", "ACC_INIT", "CON_INIT", "STH_FRAG", "REV_FRAG", "ACC_FRAG", "STH_FULL", "REV_FULL", "ACC_FULL")
	c.need("thread end", 4)
	c.needAll("co-signed", "STH_INIT", "REV_INIT", "ACC_INIT")
}

// p41: a valid object a gossiper receives is stored unless it is superfluous
func p41(c *C) {
	c.rules = append(c.rules,
		"every object a request handler decodes is stored on every continuation, or the path established that decoding or verification failed, that the object (its id for initial statements and conflict proofs, its signature or signer otherwise) is on file, that the threshold object or enough fragments are on file, or that the entity is blacklisted",
		"each of the ten object types is covered: a type the dispatch does not know counts as dropped")
	g := c.goFields()
	var in *Interp
	recv := map[*Term]*Term{} // decode call -> object
	// the object itself, or a fragment whose payload was taken from the payload cache under the object's own id
	is := func(s *State, o, x *Term) bool {
		x = stripRef(x)
		if x == o || sameTerm(s, x, o) {
			return true
		}
		if x.T == nil || !isGossipObject(x) {
			return false
		}
		st := structOf(x.T)
		for i := 0; i < st.NumFields(); i++ {
			if i != g.Payload && !sameTerm(s, mkField(o, i, o.T), mkField(x, i, x.T)) {
				return false
			}
		}
		for k := 0; k < 3; k++ {
			v := g.payload(x, k)
			if sameTerm(s, v, g.payload(o, k)) {
				continue
			}
			l := v
			for l.Op == OIndex || l.Op == OField {
				if l.Op == OIndex && l.A[1] != tInt(int64(k)) || l.Op == OField && l.N != g.Payload {
					return false
				}
				l = l.A[0]
			}
			if l.Op != OLookup || storageMap(l.A[0]) != "REV_PAYLOAD" || !sameTerm(s, mkField(l.A[1], 0, l.A[1].T), g.f(o, g.Period)) || !sameTerm(s, mkField(l.A[1], 2, l.A[1].T), g.payload(o, 0)) {
				return false
			}
		}
		return true
	}
	// the name k is the entity the object is about
	entity := func(s *State, k, o *Term) bool {
		r := sameTerm(s, k, g.payload(o, 0))
		walk(k, func(x *Term) bool {
			r = r || x.Op == OLookup && storageMap(x.A[0]) == "REV_PAYLOAD" && sameTerm(s, mkField(x.A[1], 2, x.A[1].T), g.payload(o, 0))
			return !r
		})
		return r
	}
	about := func(s *State, k, o *Term) bool {
		return k.T != nil && structOf(k.T) != nil && entity(s, mkField(k, 2, k.T), o) && sameTerm(s, mkField(k, 0, k.T), g.f(o, g.Period))
	}
	class := func(n string) string { return n[:3] }
	br := &bodyReads{c: c, reads: map[string]bool{}}
	in = c.interp(func(e *Event) {
		s := e.S
		br.watch(e)
		switch e.Kind {
		case "call":
			if !strings.HasPrefix(in.threadID, "handler:") || len(e.Snap) < 2 || e.Val == nil {
				return
			}
			if !strings.HasSuffix(e.Name, "json.Decoder).Decode") && !strings.HasSuffix(e.Name, "encoding/json.Unmarshal") {
				return
			}
			t := typeOfValue(e.Snap[1])
			if t == nil || !isNamed(t, "Gossip_object") || !fromBody(e.Snap[0]) {
				return
			}
			o := mk(OOut, "", 1, t, e.Val)
			recv[e.Val] = o
			c.oblig()
			c.site("received", in.threadName())
			for _, n := range objTypes {
				s.oblige("new:"+n, o)
			}
		case "mapupd":
			f := storageMap(e.Addr)
			if f == "" || f == "REV_PAYLOAD" {
				return
			}
			for _, x := range objectsIn(in, s, e.Val) {
				s.discharge(func(m Mark) bool {
					if m.K == "new:"+f && is(s, m.T, x) {
						c.site("stored", f)
						return true
					}
					return false
				})
			}
		case "fact":
			a := e.Key
			if x, ok := eqNil(a); ok && !e.Truth {
				if o := recv[x]; o != nil {
					s.discharge(func(m Mark) bool { return m.T == o })
				}
				if isVerifyCall(x) {
					s.discharge(func(m Mark) bool { return is(s, m.T, x.A[0]) })
				}
			}
			if keepBlack(a) && e.Truth {
				s.discharge(func(m Mark) bool { return entity(s, a.A[1], m.T) })
			}
			if a.Op == OLookupOk && e.Truth {
				if f := storageMap(a.A[0]); f != "" && f != "REV_PAYLOAD" {
					s.discharge(func(m Mark) bool {
						n := m.K[4:]
						if !about(s, a.A[1], m.T) {
							return false
						}
						// the threshold object is on file, or an initial statement or proof under the same id
						return strings.HasSuffix(f, "_FULL") && class(f) == class(n) && !strings.HasSuffix(n, "_FULL") || f == n && !strings.HasSuffix(f, "_FRAG")
					})
				}
			}
			if a.Op == OBin && a.S == "==" {
				for _, m := range s.obls {
					m, n := m, m.K[4:]
					t := g.f(m.T, g.Type)
					for k := 0; k < 2; k++ {
						if a.A[k] != t && s.canon(a.A[k]) != s.canon(t) {
							continue
						}
						isN := a.A[1-k] == c.defConst(n)
						other := false
						for _, x := range objTypes {
							other = other || x != n && a.A[1-k] == c.defConst(x)
						}
						if e.Truth && other || !e.Truth && isN {
							s.discharge(func(x Mark) bool { return x == m })
						}
					}
					// the signature or the signer is on file
					if e.Truth {
						for k := 0; k < 2; k++ {
							v, w := a.A[k], a.A[1-k]
							if v != g.f(m.T, g.Signature) && v != g.f(m.T, g.Signer) {
								continue
							}
							found := false
							walk(w, func(x *Term) bool {
								found = found || x.Op == OLookup && storageMap(x.A[0]) == n && about(s, x.A[1], m.T)
								return !found
							})
							if found {
								s.discharge(func(x Mark) bool { return x == m })
							}
						}
					}
				}
			}
			if a.Op == OBin && (a.S == "<" || a.S == "==") {
				// enough fragments
				for _, m := range s.obls {
					m, n := m, m.K[4:]
					isLen := func(t *Term) bool {
						return t.Op == OLen && t.A[0].Op == OLookup && strings.HasSuffix(storageMap(t.A[0].A[0]), "_FRAG") && class(storageMap(t.A[0].A[0])) == class(n) && about(s, t.A[0].A[1], m.T)
					}
					done := false
					for k := 0; k < 2; k++ {
						if isLen(a.A[k]) && strings.HasSuffix(pathOf(a.A[1-k]), ".Threshold") {
							done = done || a.S == "==" && e.Truth || a.S == "<" && (k == 0) != e.Truth
						}
					}
					if done {
						s.discharge(func(x Mark) bool { return x == m })
					}
				}
			}
		case "exit":
			if c.muted() || e.Mode == "" {
				return
			}
			for _, m := range s.obls {
				n := m.K[4:]
				c.oblig()
				if t := s.canon(g.f(m.T, g.Type)); t.Op == OConst && t != c.defConst(n) {
					continue
				}
				c.fail("dropped", n, e.Instr, s, "a received object of type %s may be dropped although it is valid and new", n)
			}
			c.site("thread end", in.threadName())
		}
	})
	in.keepFact = keepBlack
	c.gossiperRun(in)
	br.finish()
	c.need("received", 1)
	c.needAll("stored", "STH_INIT", "REV_INIT", "ACC_INIT", "CON_INIT", "STH_FRAG", "REV_FRAG", "ACC_FRAG", "STH_FULL", "REV_FULL", "ACC_FULL")
}

func init() {
	checks["P40"] = p40
	checks["P41"] = p41
}
