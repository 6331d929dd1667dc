package main

// P31: what the network delivers, or fails to deliver, never ends a server process.

import (
	"strings"
)

// callOf: the call whose result (or one of whose results) t is
func callOf(t *Term) *Term {
	if t.Op == OExtract {
		t = t.A[0]
	}
	if t.Op == OCall {
		return t
	}
	return nil
}

var localOps = []string{"encoding/json.Marshal", "crypto/rand.", "crypto/rsa.Sign", "crypto/rsa.Generate", "crypto/x509.Create", "crypto/x509.Marshal", "os.", "(*os.File)", "io/ioutil.Read", "io/ioutil.Write", "io/ioutil.Temp", "net/http.ListenAndServe", "(*net/http.Server)."}

func isLocalOp(n string) bool {
	if n == "io/ioutil.ReadAll" { // reads whatever it is given, a request body too
		return false
	}
	for _, p := range localOps {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// excused: the path ends the process because an operation on the component's own data failed
func excused(s *State, args []*Term) bool {
	for _, a := range args {
		if hasCall(a, "ListenAndServe") || hasCall(a, "ListenAndServeTLS") {
			return true
		}
	}
	for a, v := range s.facts.at {
		if v || a.Op != OBin || a.S != "==" {
			continue
		}
		x, y := a.A[0], a.A[1]
		if x == tNil {
			x, y = y, x
		}
		if y != tNil {
			continue
		}
		if k := callOf(x); k != nil && (isLocalOp(k.S) || !fromNetwork(k)) {
			return true
		}
	}
	return false
}

func netFacts(s *State) bool {
	for a := range s.facts.at {
		if fromNetwork(a) {
			return true
		}
	}
	return false
}

// received: t is (part of) what came from the network, not merely filed under it
func received(t *Term) bool {
	for {
		switch t.Op {
		case OField, OIndex, ODeref, OConv, OSlice, ORef, OIface, OTAssert:
			t = t.A[0]
		case OExtract:
			return fromNetwork(t)
		case OOut:
			return fromNetwork(t.A[0])
		default:
			return false
		}
	}
}

func p31(c *C) {
	c.rules = append(c.rules,
		"no request handler, and no goroutine or timer it starts, reaches a process-terminating call unless an operation on the component's own data (serialisation, randomness, key, file) failed",
		"no goroutine or timer reaches a process-terminating call or explicit panic on a path that depends on what the network delivered",
		"in goroutines and timers, the response of a network call is used only where its error is known to be nil; received data is indexed and asserted only within checked bounds")
	c.assume = append(c.assume, "net/http recovers panics of the request's own goroutine")
	for _, name := range []string{"gossiper", "monitor", "CA", "Logger"} {
		name := name
		in := c.interp(func(e *Event) {
			th := c.in.threadID
			if strings.HasPrefix(th, "main:") {
				return
			}
			handler := strings.HasPrefix(th, "handler:")
			fromHandler := strings.Contains(th, "handler:")
			s := e.S
			switch e.Kind {
			case "enter":
				if len(c.in.stack) <= 1 {
					c.site("thread", name+" "+th)
				}
			case "terminate":
				if handler && strings.Contains(strings.ToLower(e.Name), "panic") {
					return
				}
				c.site("terminating call", name+" "+th+" "+e.Name+" in "+shortFn(e.Fn))
				c.oblig()
				if excused(s, e.Snap) {
					return
				}
				if fromHandler {
					c.fail("terminate", e.Name, e.Instr, s, "a request can reach %s, which ends the %s process", e.Name, name)
				} else if netFacts(s) {
					c.fail("terminate", e.Name, e.Instr, s, "what the network delivers can lead to %s, which ends the %s process", e.Name, name)
				}
			case "deref", "load":
				if handler {
					return
				}
				k := callOf(e.Addr)
				if k == nil || !isHTTPSend(k.S) || e.Addr.Op != OExtract || e.Addr.N != 0 {
					return
				}
				c.site("use of a response", name+" "+th+" "+shortFn(e.Fn))
				c.oblig()
				err := mkExtract(k, 1, nil)
				ok := false
				for a, v := range s.facts.at {
					if a.Op == OBin && a.S == "==" && (a.A[0] == tNil || a.A[1] == tNil) {
						x := a.A[0]
						if x == tNil {
							x = a.A[1]
						}
						if v && x.Op == OExtract && x.A[0] == err.A[0] && x.N == 1 || !v && x == e.Addr {
							ok = true
						}
					}
				}
				if !ok {
					c.fail("nil response", k.S, e.Instr, s, "the result of %s is used although the request may have failed: the nil dereference ends the %s process", k.S, name)
				}
			case "index", "slice":
				if handler || !received(e.Addr) {
					return
				}
				c.site("use of received data", name+" "+th+" "+shortFn(e.Fn))
				c.oblig()
				if !c.inBounds(e) {
					c.fail("bounds", e.Kind, e.Instr, s, "received data is %sd without a check of its length; a short value ends the %s process", map[string]string{"index": "indexe", "slice": "slice"}[e.Kind], name)
				}
			case "assertpanic":
				if handler || !received(e.Addr) {
					return
				}
				c.fail("assert", "type assertion", e.Instr, s, "received data is asserted to a type without a check; any other value ends the %s process", name)
			}
		})
		c.serverRun(in, name)
	}
	c.need("thread", 12)
	c.need("use of a response", 5)
}

func (c *C) inBounds(e *Event) bool {
	s := e.S
	lt := func(i *Term, strict bool) bool {
		i = s.canon(i)
		n := mkLen(e.Addr)
		if strict {
			return s.known(mkLt(i, n))
		}
		if k, ok := i.intVal(); ok && k == 0 {
			return true
		}
		return i == n || s.known(mkLt(i, n)) || s.known(mkNot(mkLt(n, i))) || s.known(mkEq(i, n))
	}
	if e.Kind == "index" {
		return lt(e.Key, true)
	}
	for _, a := range []*Term{e.Key, e.Val} {
		if a != nil && a != tNone && !lt(a, false) {
			return false
		}
	}
	return true
}

func init() { checks["P31"] = p31 }
