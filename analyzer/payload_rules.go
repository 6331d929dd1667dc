package main

// P47: large payloads that are announced can be fetched.

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// registered: the path and the handler a call binds to it
func (c *C) registered(e *Event) (path, handler string) {
	switch {
	case strings.HasSuffix(e.Name, ").HandleFunc"), strings.HasSuffix(e.Name, ").Handle"), e.Name == "net/http.HandleFunc", e.Name == "net/http.Handle", strings.HasSuffix(e.Name, "mux.Route).HandlerFunc"), strings.HasSuffix(e.Name, "mux.Route).Handler"):
	default:
		return
	}
	cc := c.in.funcVal(e.Args[len(e.Args)-1])
	if cc == nil || cc.fn == nil {
		return
	}
	id := handlerTarget(e.S, cc, nil)
	if id == "" {
		id = shortFn(cc.fn)
	}
	if strings.Contains(e.Name, "mux.Route)") {
		path, _ = routePath(e.Snap[0])
	} else if len(e.Snap) > 1 {
		path, _ = e.Snap[len(e.Snap)-2].strVal()
	}
	return path, "handler:" + id
}

// pathOfRequest: the constant path of a request whose host is the first variable part
func pathOfRequest(text string) string {
	if i := strings.IndexByte(text, '\x00'); i >= 0 && !strings.Contains(text[i+1:], "\x00") && strings.HasPrefix(text[i+1:], "/") {
		return text[i+1:]
	}
	return ""
}

func p47(c *C) {
	c.rules = append(c.rules,
		"a notification sent to the peers names this gossiper, carries the period, type and entity of an initial revocation and the hash of that object's content; every initial revocation received that is valid, not blacklisted and not cached yet is put in the payload cache under its own id",
		"every notification received leads, on every path, to the cached object of that id hashing to the announced value by the same formula, or to a request to the notifier, at the path the request handler is bound to, that repeats period, type, entity and hash and names this gossiper",
		"every request received leads, on every path, to the cached object of exactly that id being sent to the requester at a path whose handler takes objects, or to the knowledge that none is cached or the entity is blacklisted")
	g := c.goFields()
	if c.p.typ("gossiper", "Gossip_Notification") == nil {
		c.missing("gossiper.Gossip_Notification")
		return
	}
	rev := c.defConst("REV_INIT")
	routes := map[string]string{} // path -> handler
	decodes := map[string]string{}
	type late struct {
		handler, role string
		key           string
		instr         ssa.Instruction
		s             *State
		text          string
	}
	var lates []late
	announced, requested, delivered := map[string]ssa.Instruction{}, map[string]ssa.Instruction{}, map[string]ssa.Instruction{}
	sent, compared := map[string]bool{}, map[string]ssa.Instruction{}
	recv := map[*Term]*Term{}
	nf := func(n *Term, f string) *Term { return fieldOf(n, f) }
	// key is the cache key for what the notification n names
	keyFor := func(s *State, k, n *Term) bool {
		if k.T == nil || structOf(k.T) == nil {
			return false
		}
		t := mkField(k, 1, k.T)
		return sameTerm(s, mkField(k, 0, k.T), nf(n, "Period")) && sameTerm(s, mkField(k, 2, k.T), nf(n, "Entity_URL")) && (s.canon(t) == rev || sameTerm(s, t, nf(n, "Type")))
	}
	// hash of a gossip object, as a formula over its fields
	formula := func(s *State, h *Term, o *Term) string {
		return formulaOf(h, func(x *Term) string {
			for i := 0; i < 3; i++ {
				if sameTerm(s, x, g.payload(o, i)) {
					return "P" + itoa(i)
				}
			}
			if x == g.f(o, g.Signer) {
				return "Signer"
			}
			if x == g.f(o, g.Period) || s.canon(x) == s.canon(g.f(o, g.Period)) {
				return "Period"
			}
			if x == g.f(o, g.Type) || s.canon(x) == s.canon(g.f(o, g.Type)) {
				return "Type"
			}
			if x.Op == OIndex && x.A[0] == g.f(o, g.Signature) {
				return "S" + short(x.A[1])
			}
			return ""
		})
	}
	cachedObj := func(t *Term) *Term {
		var r *Term
		walk(t, func(x *Term) bool {
			if r == nil && x.Op == OLookup && storageMap(x.A[0]) == "REV_PAYLOAD" {
				r = x
			}
			return r == nil
		})
		return r
	}
	var in *Interp
	br := &bodyReads{c: c, reads: map[string]bool{}}
	in = c.interp(func(e *Event) {
		s := e.S
		br.watch(e)
		switch e.Kind {
		case "call":
			if p, h := c.registered(e); p != "" {
				routes[p] = h
				return
			}
			if strings.HasPrefix(in.threadID, "handler:") && len(e.Snap) > 1 && e.Val != nil && (strings.HasSuffix(e.Name, "json.Decoder).Decode") || strings.HasSuffix(e.Name, "encoding/json.Unmarshal")) {
				t := typeOfValue(e.Snap[1])
				if t == nil || !fromBody(e.Snap[0]) {
					return
				}
				o := mk(OOut, "", 1, t, e.Val)
				switch {
				case isNamed(t, "Gossip_object"):
					decodes[in.threadID] = "object"
					s.oblige("cache", o)
					c.site("received", "object")
				case isNamed(t, "Gossip_Notification"):
					decodes[in.threadID] = "notification"
					s.oblige("fetch", o)
					s.oblige("serve", o)
					c.site("received", "notification")
				default:
					return
				}
				recv[e.Val] = o
				c.oblig()
				return
			}
			if !isHTTPSend(e.Name) {
				return
			}
			call := mk(OCall, e.Name, 0, nil, e.Snap...)
			_, u := requestOf(call)
			vars, text := concatParts(u)
			body := sentBody(e)
			if body == nil || len(vars) == 0 {
				return
			}
			path := pathOfRequest(text)
			for _, m := range marshalled(body) {
				if m.T != nil && isNamed(m.T, "Gossip_Notification") {
					c.oblig()
					own := strings.HasSuffix(pathOf(stripConv(nf(m, "Sender"))), ".SelfID")
					var n *Term
					for _, x := range recv {
						if isNamed(x.T, "Gossip_Notification") && contains(m, x) {
							n = x
						}
					}
					if n != nil {
						ok := own
						for _, f := range []string{"Period", "Type", "Entity_URL", "Objhash"} {
							ok = ok && sameTerm(s, nf(m, f), nf(n, f))
						}
						if ok && sameTerm(s, vars[0], nf(n, "Sender")) {
							requested[path] = e.Instr
							c.site("payload requested", path)
							s.discharge(func(x Mark) bool { return x.K == "fetch" && x.T == n })
						}
						continue
					}
					c.site("announced", path)
					announced[path] = e.Instr
					h := nf(m, "Objhash")
					var o *Term
					walk(h, func(x *Term) bool {
						if o == nil && isGossipObject(x) {
							o = x
						}
						return o == nil
					})
					switch {
					case o == nil:
						c.fail("announce", "hash", e.Instr, s, "a notification does not carry the hash of an object's content")
						continue
					case !own:
						c.fail("announce", "sender", e.Instr, s, "a notification does not name the gossiper that can be asked for the payload")
					case !sameTerm(s, nf(m, "Period"), g.f(o, g.Period)) || !sameTerm(s, nf(m, "Entity_URL"), g.payload(o, 0)) || !sameTerm(s, nf(m, "Type"), g.f(o, g.Type)):
						c.fail("announce", "id", e.Instr, s, "a notification does not carry the id of the object whose hash it carries")
					case !s.known(mkEq(g.f(o, g.Type), rev)):
						c.fail("announce", "type", e.Instr, s, "an object is announced that is not known to be an initial revocation: only those are kept for later requests")
					}
					f := formula(s, h, o)
					sent[f] = true
					if !strings.Contains(f, "P1") || !strings.Contains(f, "P2") {
						c.fail("announce", "content", e.Instr, s, "the announced hash does not cover the object's content: %s", f)
					}
				}
				if isGossipObject(m) {
					for _, k := range s.obls {
						if k.K != "serve" {
							continue
						}
						k := k
						o := stripRef(m)
						if o.Op == ODeref {
							o = o.A[0]
						}
						if o.Op == OLookup && storageMap(o.A[0]) == "REV_PAYLOAD" && keyFor(s, o.A[1], k.T) && sameTerm(s, vars[0], nf(k.T, "Sender")) {
							delivered[path] = e.Instr
							c.site("payload delivered", path)
							s.discharge(func(x Mark) bool { return x == k })
						}
					}
				}
			}
		case "mapupd":
			if storageMap(e.Addr) != "REV_PAYLOAD" {
				return
			}
			for _, x := range objectsIn(in, s, e.Val) {
				s.discharge(func(m Mark) bool {
					if m.K == "cache" && (x == m.T || sameTerm(s, x, m.T)) && e.Key.T != nil && sameTerm(s, mkField(e.Key, 0, e.Key.T), g.f(m.T, g.Period)) && sameTerm(s, mkField(e.Key, 2, e.Key.T), g.payload(m.T, 0)) {
						t := s.canon(mkField(e.Key, 1, e.Key.T))
						if t == rev || t == s.canon(g.f(m.T, g.Type)) {
							c.site("cached", in.threadName())
							return true
						}
					}
					return false
				})
			}
		case "fact":
			a := e.Key
			if x, ok := eqNil(a); ok && !e.Truth {
				if o := recv[x]; o != nil {
					s.discharge(func(m Mark) bool { return m.T == o })
				}
				if isVerifyCall(x) {
					s.discharge(func(m Mark) bool {
						return m.K == "cache" && (stripRef(x.A[0]) == m.T || sameTerm(s, stripRef(x.A[0]), m.T))
					})
				}
			}
			if keepBlack(a) && e.Truth {
				s.discharge(func(m Mark) bool {
					switch m.K {
					case "cache":
						return sameTerm(s, a.A[1], g.payload(m.T, 0))
					case "serve":
						if sameTerm(s, a.A[1], nf(m.T, "Entity_URL")) {
							return true
						}
						o := cachedObj(a.A[1])
						return o != nil && sameTerm(s, a.A[1], g.payload(o, 0)) && keyFor(s, o.A[1], m.T)
					}
					return false
				})
			}
			if a.Op == OLookupOk && storageMap(a.A[0]) == "REV_PAYLOAD" {
				s.discharge(func(m Mark) bool {
					switch {
					case m.K == "serve" && !e.Truth:
						return keyFor(s, a.A[1], m.T)
					case m.K == "cache" && e.Truth && a.A[1].T != nil:
						return sameTerm(s, mkField(a.A[1], 0, a.A[1].T), g.f(m.T, g.Period)) && sameTerm(s, mkField(a.A[1], 2, a.A[1].T), g.payload(m.T, 0))
					}
					return false
				})
			}
			if a.Op == OBin && a.S == "==" {
				for k := 0; k < 2; k++ {
					x, y := a.A[k], a.A[1-k]
					s.discharge(func(m Mark) bool {
						switch m.K {
						case "cache":
							return (x == g.f(m.T, g.Type) || s.canon(x) == s.canon(g.f(m.T, g.Type))) && (!e.Truth && y == rev || e.Truth && y.Op == OConst && y != rev)
						case "serve":
							if o := cachedObj(x); o != nil && e.Truth && y == tStr("") {
								return sameTerm(s, x, g.payload(o, 0)) && keyFor(s, o.A[1], m.T)
							}
						}
						return false
					})
				}
			}
			// the announced hash is that of the object on file
			x, y := (*Term)(nil), (*Term)(nil)
			if e.Truth && a.Op == OCall && strings.HasSuffix(a.S, "bytes.Equal") && len(a.A) == 2 {
				x, y = a.A[0], a.A[1]
			} else if e.Truth && a.Op == OBin && a.S == "==" {
				x, y = stripConv(a.A[0]), stripConv(a.A[1])
				if v, ok := eqZero(a); ok && v.Op == OCall && strings.HasSuffix(v.S, "bytes.Compare") && len(v.A) == 2 {
					x, y = v.A[0], v.A[1]
				}
			}
			if x == nil {
				return
			}
			for _, m := range s.obls {
				if m.K != "fetch" {
					continue
				}
				m := m
				for k := 0; k < 2; k++ {
					if sameTerm(s, y, nf(m.T, "Objhash")) {
						if o := cachedObj(x); o != nil && keyFor(s, o.A[1], m.T) {
							compared[formula(s, x, o)] = e.Instr
							c.site("compared", in.threadName())
							s.discharge(func(q Mark) bool { return q == m })
							break
						}
					}
					x, y = y, x
				}
			}
		case "exit":
			if c.muted() || e.Mode == "" {
				return
			}
			for _, m := range s.obls {
				switch m.K {
				case "cache":
					c.oblig()
					c.fail("not-cached", in.threadName(), e.Instr, s, "an initial revocation may be processed without being kept for the gossipers it is announced to, although it is not invalid, blacklisted or kept already")
				case "fetch", "serve":
					lates = append(lates, late{in.threadID, m.K, in.threadName(), e.Instr, s, ""})
				}
			}
		}
	})
	in.keepFact = keepBlack
	c.gossiperRun(in)
	br.finish()
	// a handler's role follows from what is sent to its path
	role := map[string]string{}
	for p, i := range announced {
		c.oblig()
		if h := routes[p]; h == "" || decodes[h] != "notification" {
			c.fail("path", p, i, nil, "notifications are sent to %q, where no handler takes them", p)
		} else {
			role[h] += "fetch "
		}
	}
	for p, i := range requested {
		c.oblig()
		if h := routes[p]; h == "" || decodes[h] != "notification" {
			c.fail("path", p, i, nil, "payload requests are sent to %q, where no handler takes them", p)
		} else {
			role[h] += "serve "
		}
	}
	for p, i := range delivered {
		c.oblig()
		if h := routes[p]; h == "" || decodes[h] != "object" {
			c.fail("path", p, i, nil, "requested payloads are sent to %q, where no handler takes objects", p)
		}
	}
	for _, l := range lates {
		if !strings.Contains(role[l.handler], l.role) {
			continue
		}
		c.oblig()
		if l.role == "fetch" {
			c.fail("not-fetched", l.key, l.instr, l.s, "an announced payload that is not on file may not be requested from the gossiper that announced it (same period, type, entity and hash, own name)")
		} else {
			c.fail("not-served", l.key, l.instr, l.s, "a requested payload may not be sent to the requester although it is cached under exactly the id requested and not blacklisted")
		}
	}
	for f, i := range compared {
		c.oblig()
		if !sent[f] {
			c.fail("hash", f, i, nil, "the hash computed for the cached object is not made like the one announced: %s", f)
		}
	}
	c.needAll("received", "object", "notification")
	c.need("announced", 1)
	c.need("payload requested", 1)
	c.need("payload delivered", 1)
	c.need("cached", 1)
}

// eqZero: the fact compares x with zero
func eqZero(a *Term) (*Term, bool) {
	if a.Op != OBin || a.S != "==" {
		return nil, false
	}
	for k := 0; k < 2; k++ {
		if a.A[k] == tInt(0) {
			return a.A[1-k], true
		}
	}
	return nil, false
}

func init() { checks["P47"] = p47 }
