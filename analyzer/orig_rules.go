package main

// P33: objects a component originates.

import (
	"strings"
)

func signCalls(t *Term) []*Term {
	var r []*Term
	walk(t, func(x *Term) bool {
		if x.Op == OCall && (strings.HasPrefix(x.S, "crypto/rsa.Sign") || strings.HasSuffix(x.S, "bls.SecretKey).Sign")) {
			r = append(r, x)
			return false
		}
		return true
	})
	return r
}

func rsaSign(x *Term) bool { return strings.HasPrefix(x.S, "crypto/rsa.Sign") }

type originator struct {
	srv    string
	keys   []string // the component's private keys
	ids    []string // the component's own name
	types  []string // the types it may originate
	frag   string   // its threshold key
	stores []string // where what it publishes is put
}

var originators = []originator{
	{"Logger", []string{"LoggerContext.PrivateKey", "LoggerContext.Logger_crypto_config.SignSecretKey"}, []string{"LoggerContext.Logger_private_config.Signer", "LoggerContext.Logger_crypto_config.SelfID"}, []string{"STH_INIT"}, "", []string{"LoggerContext.STH_storage", "LoggerContext.STH_storage_fake"}},
	{"CA", []string{"CAContext.PrivateKey", "CAContext.CA_crypto_config.SignSecretKey"}, []string{"CAContext.CA_private_config.Signer", "CAContext.CA_crypto_config.SelfID"}, []string{"REV_INIT"}, "", []string{"CAContext.REV_storage", "CAContext.REV_storage_fake"}},
	{"monitor", []string{"MonitorContext.Monitor_crypto_config.SignSecretKey"}, []string{"MonitorContext.Monitor_crypto_config.SelfID", "MonitorContext.Monitor_private_config.Signer"}, []string{"ACC_INIT"}, "", nil},
	{"gossiper", nil, []string{"GossiperContext.Gossiper_crypto_config.SelfID"}, []string{"STH_FRAG", "REV_FRAG", "ACC_FRAG"}, "GossiperContext.Gossiper_crypto_config.ThresholdSecretKey", nil},
}

func oneOf(x string, l []string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func (c *C) originated(s *State, g goFields, w originator, o *Term, sg *Term, calls []*Term) string {
	if len(calls) != 1 {
		return "its first signature is made of several signatures"
	}
	call := calls[0]
	if !oneOf(pathOf(stripConv(g.f(o, g.Signer))), w.ids) {
		return "its Signer is not the component's own name"
	}
	named := false
	parts := []*Term{sg}
	if sg.Op == OConcat {
		parts = sg.A
	}
	for _, p := range parts {
		named = named || oneOf(pathOf(stripConv(p)), w.ids)
	}
	if !named {
		return "its signature does not name the component"
	}
	typ := s.canon(g.f(o, g.Type))
	okType := false
	for _, t := range w.types {
		okType = okType || typ == c.defConst(t)
	}
	if !okType {
		return "its type is not one this component's signature stands for (" + short(typ) + ")"
	}
	var want []*Term
	for i := 0; i < 3; i++ {
		want = append(want, g.payload(o, i))
	}
	if rsaSign(call) {
		if !oneOf(pathOf(stripRef(call.A[1])), w.keys) {
			return "it is signed with a key other than the component's own"
		}
		if !digestOf(s, call.A[3], mkConcat(want...)) {
			return "its signature does not cover exactly the concatenation of its payload fields"
		}
		return ""
	}
	if w.frag == "" || pathOf(stripRef(call.A[0])) != w.frag {
		return "it is signed with a key other than the component's own"
	}
	if x := paySourceOf(g, want[0]); x != nil {
		for _, t := range w.types {
			if st := s.canon(g.f(x, g.Type)); typ == c.defConst(t) && st.isConst() && st != c.defConst(strings.Replace(t, "_FRAG", "_INIT", 1)) {
				return "it is a " + t + " for an object of another kind"
			}
		}
	}
	msg := stripConv(call.A[len(call.A)-1])
	if sameTerm(s, msg, mkConcat(want...)) {
		return ""
	}
	// a revocation fragment travels without the bulk of its payload
	if typ == c.defConst("REV_FRAG") && want[1] == tStr("") && want[2] == tStr("") {
		if x := paySourceOf(g, want[0]); x != nil && sameTerm(s, msg, mkConcat(g.payload(x, 0), g.payload(x, 1), g.payload(x, 2))) {
			return ""
		}
	}
	return "its signature does not cover exactly the concatenation of the payload fields"
}

// paySourceOf: t is x.Payload[0]
func paySourceOf(g goFields, t *Term) *Term {
	if t.Op == OIndex && t.A[0].Op == OField && t.A[0].N == g.Payload {
		return t.A[0].A[0]
	}
	return nil
}

func p33(c *C) {
	c.rules = append(c.rules,
		"every gossip object that is sent or put into a store and whose signature is made here: the private key is the component's own, the signed message is exactly the concatenation of the object's payload fields (for a revocation fragment sent without its bulk: of the object it was made from), the component's own name is both in the Signer field and inside the signature, and the type is one whose verification rule uses that signature scheme and that role",
		"no initial statement, accusation or fragment built here is sent or published without a signature made here or copied from another object",
		"assumed: the configured schemes are the implemented ones",
		"each component that originates objects does publish some")
	g := c.goFields()
	initial := map[*Term]bool{}
	for _, t := range []string{"STH_INIT", "REV_INIT", "ACC_INIT", "STH_FRAG", "REV_FRAG", "ACC_FRAG"} {
		initial[c.defConst(t)] = true
	}
	for _, w := range originators {
		w := w
		in := c.interp(func(e *Event) {
			var objs []*Term
			where := ""
			switch e.Kind {
			case "mapupd":
				objs = objectsIn(c.in, e.S, e.Val)
				where = pathOf(e.Addr)
			case "call":
				if b := sentBody(e); b != nil {
					objs = marshalled(b)
					where = "request"
				} else if isResponseWrite(e) {
					for _, a := range e.Snap {
						objs = append(objs, marshalled(a)...)
						if x := stripRef(a); isGossipObject(x) {
							objs = append(objs, x)
						}
					}
					where = "response"
				}
			}
			for _, o := range objs {
				o = stripRef(c.in.snap(e.S, o))
				if !isGossipObject(o) {
					continue
				}
				sg := mkIndex(g.f(o, g.Signature), tInt(0), nil)
				calls := signCalls(sg)
				if len(calls) == 0 {
					if o.Op == ORec && initial[e.S.canon(g.f(o, g.Type))] && sigSource(g, sg) == nil && !nilKeyCall(sg) && !otherScheme(e.S) {
						c.oblig()
						c.fail("unsigned", w.srv+" "+where, e.Instr, e.S, "an object built by the %s is published (%s) with the signature %s", w.srv, where, short(sg))
					}
					continue
				}
				c.oblig()
				if !c.muted() {
					c.site(w.srv+" object", where+" "+short(g.f(o, g.Type)))
				}
				if why := c.originated(e.S, g, w, o, sg, calls); why != "" {
					c.fail("origin", w.srv+" "+where, e.Instr, e.S, "an object originated by the %s (%s): %s", w.srv, where, why)
				}
			}
		})
		c.serverRun(in, w.srv)
		n := 1
		if w.srv == "gossiper" {
			n = 3
		}
		c.need(w.srv+" object", n)
	}
}

// nilKeyCall: t is computed by a call into the BLS library through a nil pointer, which does not return
func nilKeyCall(t *Term) bool {
	bad := false
	walk(t, func(x *Term) bool {
		if x.Op == OCall && strings.Contains(x.S, "/bls.") && len(x.A) > 0 && x.A[0] == tNil {
			bad = true
		}
		return !bad
	})
	return bad
}

// otherScheme: the configuration names a signature scheme that is not implemented
func otherScheme(s *State) bool {
	for a, v := range s.facts.at {
		if !v && a.Op == OBin && a.S == "==" {
			for _, x := range a.A {
				if p := pathOf(x); strings.HasSuffix(p, ".SignScheme") || strings.HasSuffix(p, ".ThresholdScheme") {
					return true
				}
			}
		}
	}
	return false
}

// isResponseWrite: the event writes a response to the requester
func isResponseWrite(e *Event) bool {
	if strings.HasSuffix(e.Name, "json.Encoder).Encode") {
		return true
	}
	return strings.HasSuffix(e.Name, "http.ResponseWriter).Write")
}

func init() { checks["P33"] = p33 }
