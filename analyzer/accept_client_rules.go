package main

// P46: the client accepts what is good.

import (
	"strings"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

// otherwise: s with fact a reversed
func otherwise(s *State, a *Term, p bool) *State {
	n := s.clone()
	n.facts = newFacts()
	for x, q := range s.facts.at {
		if x != a {
			n.assume(x, q)
		}
	}
	n.assume(a, !p)
	return n
}

func p46(c *C) {
	c.rules = append(c.rules,
		"every path on which a client operation refuses a certificate has the issuer's revocation vector absent, or the bit of the certificate's revocation number set in it, or every listed logger disqualified: a proof of misbehaviour on file, a tree head that fails verification with the client's keys or is of another type, a root hash that differs from the one on file for that logger and period, or a failed inclusion proof for this certificate",
		"every path on which a client operation refuses an update carries a defect of one of its items: failed verification with the client's keys, the wrong type, contents that cannot be parsed, or a revocation hash that fails the check over the vectors",
		"every path on which an update is reported as applied has entered every item of every list of it")
	g := c.goFields()
	c.p46update(g)
	c.p46cert(g)
}

func (c *C) p46update(g goFields) {
	kinds := map[string][]*Term{"STHs": {c.defConst("STH_FULL")}, "REVs": {c.defConst("REV_FULL")}, "POM_ACCs": {c.defConst("ACC_FULL")}, "POM_CONs": {c.defConst("CON_INIT")}}
	lists := map[string]string{"STHs": "STH_database", "REVs": "CRV_database", "POM_ACCs": "POM_database", "POM_CONs": "POM_database"}
	fs, _, flag := c.updateOps()
	if len(fs) == 0 {
		c.missing("client operation that handles a monitor's update")
		return
	}
	for _, f := range fs {
		for _, verify := range []bool{true, false} {
			verify, f := verify, f
			var in *Interp
			defect := func(s *State) bool {
				for a, p := range s.facts.at {
					o, l := itemOf(a)
					if o == nil {
						continue
					}
					if x, ok := eqNil(a); ok && !p {
						y := x
						if y.Op == OExtract {
							y = y.A[0]
						}
						switch {
						case isVerifyCall(y):
							if verify && len(y.A) > 1 && pathOf(y.A[1]) == cCfg && sameTerm(s, y.A[0], o) {
								return true
							}
						case y.Op == OCall && isParse(y.S):
							return true
						case y.Op == OCall && strings.HasPrefix(y.S, "crypto/rsa.Verify"):
							if srhVerified(otherwise(s, a, p), g, o, "SignPublicMap", "ClientContext.CRV_database") == "" {
								return true
							}
						case y.Op == OCall && strings.Contains(y.S, "hash."):
							return true
						}
						continue
					}
					switch {
					case verify && a.Op == OBin && a.S == "==" && !p:
						for _, k := range kinds[l] {
							if b, _ := atom(mkEq(g.f(o, g.Type), k)); a == b {
								return true
							}
						}
					case a.Op == OLookupOk && !p && pathOf(a.A[0]) == cCfg+".SignPublicMap" && contains(a.A[1], g.payload(o, 2)):
						return true
					}
					if a.Op == OBin && a.S == "==" && !p {
						for k := 0; k < 2; k++ {
							if contains(a.A[k], g.payload(o, 2)) && (sameTerm(s, stripConv(a.A[1-k]), g.payload(o, 0)) || sameTerm(s, stripConv(a.A[1-k]), g.f(o, g.Signer))) {
								return true
							}
						}
					}
				}
				return false
			}
			in = c.interp(func(e *Event) {
				s := e.S
				switch e.Kind {
				case "fact":
					if !s.hasMark("defect", tNil) && defect(s) {
						s.mark("defect", tNil)
					}
				case "mapupd":
					n := clientDB(e.Addr)
					if n == "" {
						return
					}
					o, l := itemOf(in.snap(s, e.Val))
					if o == nil {
						o, l = itemOf(e.Key)
					}
					if o != nil && lists[l] == n {
						s.mark("in:"+l, o)
					}
				case "call":
					if mut, _ := bitsetMutator(e); mut && len(e.Args) > 1 && strings.HasPrefix(pathOf(e.Args[0]), "ClientContext.CRV_database") {
						if o, l := itemOf(in.snap(s, e.Args[1])); o != nil && l == "REVs" {
							s.mark("in:"+l, o)
						}
					}
				case "forall":
					for _, m := range e.All.marks {
						l := strings.TrimPrefix(m.K, "in:")
						if l != m.K && m.T.Op == OIndex && fullRange(in, m.T.A[1], m.T.A[0]) {
							if _, n := itemOf(m.T); n == l {
								s.mark("all:"+l, tNil)
								c.site("applied", l)
							}
						}
					}
				case "exit":
					if e.Mode != "main" || e.Val == nil || e.Val.T == nil && e.Val.Op != OConst {
						return
					}
					for _, v := range []bool{true, false} {
						t := s
						if e.Val != tBool(v) {
							if e.Val == tBool(!v) {
								continue
							}
							t = s.clone()
							if !t.assume(e.Val, v) {
								continue
							}
						}
						c.oblig()
						if !v {
							c.site("update refused", shortFn(f))
							if !t.hasMark("defect", tNil) && !defect(t) {
								c.fail("good-update-refused", shortFn(f), anyInstr(f), t, "an update can be refused although no item of it is known to be bad (verification flag %v)", verify)
							}
							continue
						}
						for l := range lists {
							if !t.hasMark("all:"+l, tNil) && !c.emptyList(t, l) {
								c.fail("not-applied", l, anyInstr(f), t, "an update can be reported as applied although an item of %s was not entered (verification flag %v)", l, verify)
							}
						}
					}
				}
			})
			in.keepFact = keepVerify
			in.pin = c.pinObject(g)
			c.clientRun(in, f, func(i int, p *ssa.Parameter) *Term {
				if i == flag[f] {
					return tBool(verify)
				}
				return nil
			})
		}
	}
	c.needAll("applied", "STHs", "REVs", "POM_ACCs", "POM_CONs")
}

// emptyList: the update's list is known to be empty
func (c *C) emptyList(s *State, l string) bool {
	for a, p := range s.facts.at {
		if a.Op != OBin {
			continue
		}
		for k := 0; k < 2; k++ {
			x, y := a.A[k], a.A[1-k]
			if x.Op == OLen && x.A[0].Op == OField && x.A[0].A[0].T != nil && isNamed(x.A[0].A[0].T, "ClientUpdate") && fieldName(x.A[0].A[0].T, x.A[0].N) == l {
				if y == tInt(0) && (a.S == "==" && p || a.S == "<" && !p && k == 1) {
					return true
				}
			}
		}
	}
	return false
}

func (c *C) p46cert(g goFields) {
	sth := c.defConst("STH_INIT")
	for _, f := range c.clientOps() {
		ci := -1
		for i, p := range f.Params {
			if isNamed(p.Type(), "Certificate") {
				ci = i
			}
		}
		r := f.Signature.Results()
		if ci < 0 || r.Len() == 0 {
			continue
		}
		if b, ok := r.At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
			continue
		}
		f := f
		cert := tSym("cert", f.Params[ci].Type())
		var in *Interp
		isCRV := func(x *Term) bool {
			x = stripRef(x)
			if x.Op == ODeref {
				x = x.A[0]
			}
			if x.Op != OLookup || pathOf(x.A[0]) != "ClientContext.CRV_database" {
				return false
			}
			k := x.A[1]
			return k.Op == OField && fieldName(k.A[0].T, k.N) == "CommonName" && k.A[0].Op == OField && fieldName(k.A[0].A[0].T, k.A[0].N) == "Issuer" && c.derivedFrom(k, cert)
		}
		in = c.interp(func(e *Event) {
			s := e.S
			switch e.Kind {
			case "fact":
				if o := c.disqualified(s, g, sth, cert, e.Key, e.Truth); o != nil {
					s.mark("bad", o)
				}
			case "forall":
				if strings.HasPrefix(e.All.loop, "exists:") {
					return
				}
				for _, m := range e.All.marks {
					if m.K == "bad" && everyEntry(in, m.T) {
						s.mark("allbad", tNil)
					}
				}
			case "exit":
				if e.Mode != "main" || e.Val == nil || e.Val == tBool(true) {
					return
				}
				if e.Val != tBool(false) {
					s = s.clone()
					if !s.assume(e.Val, false) {
						return
					}
				}
				c.oblig()
				c.site("certificate refused", shortFn(f))
				if s.hasMark("allbad", tNil) || c.allBad(s) {
					c.site("refusal", "no benign logger")
					return
				}
				for a, p := range s.facts.at {
					if x, q := eqNil(a); q && p && isCRV(x) {
						c.site("refusal", "no vector")
						return
					}
					if a.Op == OLookupOk && !p && pathOf(a.A[0]) == "ClientContext.CRV_database" && isCRV(mk(OLookup, "", 0, nil, a.A[0], a.A[1])) {
						c.site("refusal", "no vector")
						return
					}
					if a.Op == OCall && p && strings.HasSuffix(a.S, "bitset.BitSet).Test") && isCRV(a.A[0]) && c.someField(stripConv(a.A[1]), func(x *Term) bool {
						return x.Op == OField && fieldName(x.A[0].T, x.N) == "RID" && c.derivedFrom(x, cert)
					}, 0) {
						c.site("refusal", "revoked")
						return
					}
				}
				c.fail("good-certificate-refused", shortFn(f), anyInstr(f), s, "a certificate can be refused although its bit in the issuer's revocation vector is not known to be set and not every listed logger is known to be disqualified")
			}
		})
		in.keepFact = keepVerify
		in.pin = func(a *Term) bool { return true }
		c.clientRun(in, f, func(i int, p *ssa.Parameter) *Term {
			if i == ci {
				return cert
			}
			return nil
		})
	}
	c.need("certificate refused", 1)
	c.need("refusal", 1)
}

// everyEntry: o is (part of) the element of a list at an index that runs through the whole list
func everyEntry(in *Interp, o *Term) bool {
	ok := false
	walk(o, func(x *Term) bool {
		if x.Op == OIndex && fullRange(in, x.A[1], x.A[0]) {
			ok = true
		}
		return !ok
	})
	return ok
}

// disqualified: the fact rules out one of the certificate's loggers; returns the tree head of that logger
func (c *C) disqualified(s *State, g goFields, sth, cert, a *Term, p bool) *Term {
	var os []*Term
	walk(a, func(x *Term) bool {
		if isGossipObject(x) && x.Op == OField && c.derivedFrom(x, cert) {
			os = append(os, x)
			return false
		}
		return true
	})
	if len(os) == 0 {
		// the proof's contents, or the snapshot of the tree node
		for _, vo := range verifiedObjs(s) {
			if c.derivedFrom(vo[0], cert) {
				os = append(os, vo[0])
			}
		}
	}
	for _, o := range os {
		if c.rulesOut(s, g, sth, cert, o, a, p) {
			return o
		}
	}
	return nil
}

func (c *C) rulesOut(s *State, g goFields, sth, cert, o, a *Term, p bool) bool {
	isEnt := func(x *Term) bool { return sameTerm(s, x, g.f(o, g.Signer)) || sameTerm(s, x, g.payload(o, 0)) }
	isDB := func(x *Term) bool {
		if x.Op != OLookup || pathOf(x.A[0]) != "ClientContext.STH_database" {
			return false
		}
		k := x.A[1]
		return k == mkConcat(g.payload(o, 0), tStr("@"), g.f(o, g.Period)) || k == mkConcat(g.f(o, g.Signer), tStr("@"), g.f(o, g.Period))
	}
	isRoot := func(x *Term) bool {
		return x.Op == OField && fieldName(x.A[0].T, x.N) == "RootHash" && contains(x, g.payload(o, 1))
	}
	proof := func(call *Term) bool {
		if len(call.A) < 3 {
			return false
		}
		block, pr, root := call.A[0], call.A[1], call.A[2]
		if !c.derivedFrom(c.in.snap(s, block), cert) || !sameSource(s, c.leafOf(block), cert) {
			return false
		}
		if o.Op == OField && !contains(c.in.snap(s, pr), o.A[0]) && !contains(pr, o.A[0]) {
			return false
		}
		ok := false
		walk(root, func(x *Term) bool {
			ok = ok || isDB(x) || isRoot(x)
			return !ok
		})
		return ok
	}
	if x, ok := eqNil(a); ok {
		if p {
			return false
		}
		y := x
		if y.Op == OExtract {
			y = y.A[0]
		}
		switch {
		case isVerifyCall(y):
			return len(y.A) > 1 && pathOf(y.A[1]) == cCfg && sameTerm(s, y.A[0], o)
		case y.Op == OCall && isParse(y.S):
			for _, z := range y.A {
				if contains(z, g.payload(o, 1)) {
					return true
				}
			}
		case strings.HasSuffix(callName(y), "go-merkletree.Verify"):
			return proof(y)
		}
		return false
	}
	switch {
	case a.Op == OLookupOk && p:
		return pathOf(a.A[0]) == "ClientContext.POM_database" && isEnt(a.A[1])
	case a.Op == OLookupOk && !p:
		return pathOf(a.A[0]) == "ClientContext.STH_database" && isDB(mk(OLookup, "", 0, nil, a.A[0], a.A[1]))
	case strings.HasSuffix(callName(a), "go-merkletree.Verify") && !p:
		call := a
		if call.Op == OExtract {
			call = call.A[0]
		}
		return proof(call)
	case a.Op == OBin && a.S == "==":
		if b, _ := atom(mkEq(g.f(o, g.Type), sth)); a == b {
			return !p
		}
		for k := 0; k < 2; k++ {
			if isDB(a.A[k]) && isRoot(a.A[1-k]) {
				return !p
			}
			if isDB(a.A[k]) && a.A[1-k] == tStr("") {
				return p
			}
		}
	}
	return false
}

// allBad: a count of the disqualified loggers equals the number of loggers, or a count of the others is zero, or a flag that
// any of the others would have set is unset
func (c *C) allBad(s *State) bool {
	bad := func(b BackVal) bool {
		for _, m := range b.marks {
			if m.K == "bad" && everyEntry(c.in, m.T) {
				return true
			}
		}
		return false
	}
	all := func(lt *LoopTok, sel func(v *Term) bool) bool {
		for _, b := range lt.backs {
			if sel(b.val) && !bad(b) {
				return false
			}
		}
		return len(lt.backs) > 0
	}
	starts := func(t, v *Term) *LoopTok {
		if t.Op != OTok || c.in.loops[t.S] == nil {
			return nil
		}
		for _, i := range c.in.loops[t.S].inits {
			if i != v {
				return nil
			}
		}
		return c.in.loops[t.S]
	}
	isList := func(x *Term) bool {
		for x.Op == OSlice {
			x = x.A[0]
		}
		return x.Op == OField && fieldName(x.A[0].T, x.N) == "LoggerInformation"
	}
	total := func(t *Term) bool {
		if t.Op == OLen {
			return isList(t.A[0])
		}
		lt := starts(t, tInt(0))
		if lt == nil {
			return false
		}
		for _, b := range lt.backs {
			if b.val != addConst(t, 1) {
				return false
			}
		}
		return true
	}
	for a, p := range s.facts.at {
		if a.Op == OTok {
			// a flag that still has its initial value and is never set back to it
			if lt := starts(a, tBool(p)); lt != nil && all(lt, func(v *Term) bool { return v == a }) {
				reset := false
				for _, b := range lt.backs {
					reset = reset || b.val != a && b.val != tBool(!p)
				}
				if !reset {
					return true
				}
			}
			continue
		}
		if a.Op != OBin || a.S != "==" && a.S != "<" {
			continue
		}
		for k := 0; k < 2; k++ {
			t, o := a.A[k], a.A[1-k]
			if t.Op == OLen && isList(t.A[0]) && o == tInt(0) && (a.S == "==" && p || a.S == "<" && !p && k == 1) {
				return true
			}
			lt := starts(t, tInt(0))
			if lt == nil {
				continue
			}
			grows := true
			for _, b := range lt.backs {
				grows = grows && (b.val == t || b.val == addConst(t, 1))
			}
			if !grows {
				continue
			}
			z := o == tInt(0)
			switch {
			case z && (a.S == "==" && p || a.S == "<" && !p && k == 1):
				// a count of good ones that is zero
				if all(lt, func(v *Term) bool { return v == t }) {
					return true
				}
			case total(o) && (a.S == "==" && p || a.S == "<" && !p && k == 0):
				if all(lt, func(v *Term) bool { return v != t }) {
					return true
				}
			}
		}
	}
	return false
}

func init() { checks["P46"] = p46 }
