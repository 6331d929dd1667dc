package main

// P44: what an honest entity signs is accepted by everyone.

import (
	"strings"
)

func p44(c *C) {
	c.rules = append(c.rules,
		"every path on which Verify rejects an object of one of the ten types carries a fact that is false for an honestly made object: a signature text that cannot be parsed, an empty signature or entity, a signer other than the one named, an identity without directory key, an unsupported scheme, too few signers with every known signer counted, or a failed signature check over exactly the message that is signed, with the hash used for signing",
		"both signing and checking of RSA signatures use the same digest")
	gf := c.goFields()
	sign := c.signedDigest("Sign")
	c.signedDigest("ThresholdSign")
	for _, typ := range objTypes {
		r := c.runVerify(typ)
		if r == nil {
			return
		}
		for _, s := range r.fail {
			c.site("rejection", typ)
			c.oblig()
			if !c.rejects(r, s, gf, sign) {
				c.failV("valid-rejected", r, s, "verification can fail for a valid object: no fact on this path is false for an honestly made one")
			}
		}
	}
	c.needAll("rejection", objTypes...)
}

// signedDigest: padding, hash and formula of what is signed for a message; "" if signing is not understood
func (c *C) signedDigest(fn string) string {
	f := c.p.fn("crypto", "CryptoConfig."+fn)
	if f == nil {
		c.missing("crypto.CryptoConfig." + fn)
		return ""
	}
	got := map[string]bool{}
	var msg *Term
	in := c.interp(func(e *Event) {
		isMsg := func(t *Term) bool { return t == msg }
		switch {
		case e.Kind != "call":
		case strings.HasPrefix(e.Name, "crypto/rsa.Sign") && len(e.Snap) >= 4:
			got[rsaFormula(e.Name, e.Snap[2], e.Snap[3], isMsg)] = true
		case strings.HasSuffix(e.Name, "bls.SecretKey).Sign") && len(e.Snap) == 2:
			got[rsaFormula("", tNil, e.Snap[1], isMsg)] = true
		}
	})
	s := newState()
	var args []*Term
	for _, p := range f.Params {
		t := tSym(p.Name(), p.Type())
		args = append(args, t)
		if n := p.Type().String(); n == "[]byte" || n == "string" {
			msg = t
		}
	}
	c.run(in, f, args, s)
	c.oblig()
	c.site("signing", fn)
	k := ""
	for x := range got {
		k = x
	}
	if len(got) != 1 || fn == "ThresholdSign" && k != rsaFormula("", tNil, msg, func(t *Term) bool { return t == msg }) {
		c.fail("sign", fn, f.Blocks[0].Instrs[0], s, "CryptoConfig.%s does not sign the message it is given in the one way it is checked", fn)
		return ""
	}
	return k
}

// rsaFormula: padding, hash identifier and digest formula of an RSA signature
func rsaFormula(name string, hash, digest *Term, isMsg func(*Term) bool) string {
	n := strings.TrimPrefix(strings.TrimPrefix(strings.TrimPrefix(name, "crypto/rsa."), "Sign"), "Verify")
	return n + "|" + short(hash) + "|" + formulaOf(digest, func(t *Term) string {
		if isMsg(t) {
			return "M"
		}
		return ""
	})
}

// rejects: some fact of the state cannot hold for an honestly made object of the type
func (c *C) rejects(r *verifyRun, s *State, gf goFields, sign string) bool {
	g := r.g
	pay := func(i int) *Term { return gf.payload(g, i) }
	whole := func(t *Term) bool {
		return formulaOf(t, func(x *Term) string {
			for i := 0; i < 3; i++ {
				if sameTerm(s, x, pay(i)) {
					return "P" + itoa(i)
				}
			}
			return ""
		}) == "P0‖P1‖P2"
	}
	isMsg := whole
	if r.typ == "CON_INIT" {
		isMsg = func(t *Term) bool { t = stripConv(t); return sameTerm(s, t, pay(1)) || sameTerm(s, t, pay(2)) }
	}
	fromSig := func(t *Term) bool { return ofObject(gf, g, t, -1) }
	fromPay := func(t *Term, i int) bool { return contains(t, pay(i)) }
	con := r.typ == "CON_INIT"
	// the signer's identity as stated in a signature
	ident := func(t *Term) bool {
		t = stripConv(t)
		if t.Op == OIndex && r.copied(t.A[0]) != t.A[0] {
			return fromSig(r.copied(t.A[0]))
		}
		return fromSig(t) && t.Op != OCall && !(t.Op == OIndex && t.A[0] == gf.f(g, gf.Signature))
	}
	for a, p := range s.facts.at {
		if x, ok := eqNil(a); ok && !p {
			if x.Op == OExtract {
				x = x.A[0]
			}
			if x.Op != OCall {
				continue
			}
			n := x.S
			switch {
			case strings.HasPrefix(n, "crypto/rsa.Verify") && len(x.A) >= 4:
				id := directoryKey(s, stripRef(x.A[0]), "SignPublicMap")
				if id != nil && ident(id) && sign == rsaFormula(n, x.A[1], x.A[2], isMsg) && fromSig(x.A[3]) && (!con || r.pairedSig(s, gf, x)) {
					return true
				}
			case isParse(n):
				for _, y := range x.A {
					if fromSig(y) || con && (fromPay(y, 1) || fromPay(y, 2)) && routed(s, n, y) {
						return true
					}
				}
			case strings.HasSuffix(n, ".Write") && strings.Contains(n, "hash."):
				return true
			}
			continue
		}
		switch {
		case a.Op == OBin && a.S == "==":
			for k := 0; k < 2; k++ {
				x, y := a.A[k], a.A[1-k]
				switch {
				case p && y == tStr("") && (sameTerm(s, x, pay(0)) || fromSig(x) && x.Op == OIndex && x.A[0] == gf.f(g, gf.Signature) && (con || x.A[1] == tInt(0))):
					return true
				case p && con && sameTerm(s, x, pay(1)) && sameTerm(s, y, pay(2)):
					return true
				case !p && !con && ident(x) && sameTerm(s, y, gf.f(g, gf.Signer)):
					return true
				case !p && ident(x) && sameTerm(s, y, pay(0)) && r.typ != "ACC_INIT" && !isFrag(r.typ):
					return true
				case !p && !con && isInit(r.typ) && r.typ != "ACC_INIT" && sameTerm(s, x, pay(0)) && sameTerm(s, y, gf.f(g, gf.Signer)):
					return true
				case !p && strings.HasSuffix(pathOf(x), "CryptoConfig.SignScheme") && y == tStr("rsa") && (isInit(r.typ) || con):
					return true
				case !p && strings.HasSuffix(pathOf(x), "CryptoConfig.ThresholdScheme") && y == tStr("bls") && (isFrag(r.typ) || isFull(r.typ)):
					return true
				case !p && con && statedPeriod(s, x, pay(1)) && statedPeriod(s, y, pay(2)):
					return true
				}
			}
		case a.Op == OCall && a.S == "strings.HasPrefix" && !p && con:
			if len(a.A) == 2 && (sameTerm(s, a.A[0], pay(1)) || sameTerm(s, a.A[0], pay(2))) && sameTerm(s, a.A[1], pay(0)) {
				return true
			}
		case a.Op == OLookupOk && !p:
			dir := "ThresholdPublicMap"
			if isInit(r.typ) || con {
				dir = "SignPublicMap"
			}
			if strings.HasSuffix(pathOf(a.A[0]), "."+dir) && ident(a.A[1]) {
				return true
			}
		case a.Op == OCall && !p && strings.HasSuffix(a.S, "bls.Sign).Verify") && len(a.A) == 3:
			id := directoryKey(s, stripRef(a.A[1]), "ThresholdPublicMap")
			if id != nil && ident(id) && isMsg(a.A[2]) && fromSig(a.A[0]) {
				return true
			}
		case a.Op == OCall && !p && strings.HasSuffix(a.S, "bls.Sign).FastAggregateVerify") && len(a.A) == 3:
			if l := r.keysOf(stripRef(a.A[1])); l != nil && fromSig(r.copied(l)) && isMsg(a.A[2]) && fromSig(a.A[0]) {
				return true
			}
		case a.Op == OBin && a.S == "<" && isFull(r.typ):
			// n < Threshold
			n, t := a.A[0], a.A[1]
			if !p {
				n, t = t, a.A[0]
			}
			if strings.HasSuffix(pathOf(t), ".Threshold") && p && r.countsAll(s, n) {
				return true
			}
		}
	}
	return false
}

// routed: the parser applied to a signed statement is the one for its kind: revocations start with "CRV" followed by JSON, tree heads are hex
func routed(s *State, parser string, y *Term) bool {
	if strings.HasPrefix(parser, "encoding/hex.") {
		for a, p := range s.facts.at {
			if a.Op == OCall && a.S == "strings.HasPrefix" && !p && len(a.A) == 2 {
				if k, ok := a.A[1].strVal(); ok && k != "" && strings.HasPrefix("CRV{", k) {
					return true
				}
			}
		}
		return false
	}
	ok := false
	walk(y, func(x *Term) bool {
		if x.Op == OCall && (strings.HasPrefix(x.S, "encoding/hex.") || x.S == "strings.TrimPrefix" && len(x.A) == 2 && x.A[1] == tStr("CRV")) || x.Op == OSlice && x.A[1] == tInt(3) {
			ok = true
		}
		return !ok
	})
	return ok
}

func isParse(n string) bool {
	return strings.HasSuffix(n, "json.Unmarshal") || strings.HasPrefix(n, "encoding/hex.Decode") || strings.Contains(n, "bls.Sign).Deserialize") || strings.HasSuffix(n, "json.Decoder).Decode")
}

// pairedSig: the check of a conflict proof pairs statement i with signature i (or both crosswise)
func (r *verifyRun) pairedSig(s *State, gf goFields, x *Term) bool {
	for i := 0; i < 2; i++ {
		if contains(x.A[2], gf.payload(r.g, i+1)) && ofObject(gf, r.g, x.A[3], i) {
			return true
		}
	}
	return false
}

// copied: the list of which l is an element-by-element copy (l itself if it is none)
func (r *verifyRun) copied(l *Term) *Term {
	if l.Op != OTok || r.in.loops[l.S] == nil {
		return l
	}
	var src *Term
	for _, b := range r.in.loops[l.S].backs {
		v := b.val
		var el *Term
		switch {
		case v.Op == OUpd && v.A[0] == l:
			el = v.A[2]
		case v.Op == OAppend && len(v.A) == 2 && v.A[0] == l:
			el = v.A[1]
		default:
			return l
		}
		el = stripConv(el)
		if el.Op != OIndex || src != nil && src != el.A[0] || !fullRange(r.in, el.A[1], el.A[0]) || v.Op == OUpd && v.A[1] != el.A[1] {
			return l
		}
		src = el.A[0]
	}
	if src == nil {
		return l
	}
	return src
}

// countsAll: n is a count that includes every distinct identity of the signature's list that has a key
func (r *verifyRun) countsAll(s *State, n *Term) bool {
	if n.Op == OLen {
		n = n.A[0]
	}
	if n.Op != OTok {
		return true // the length of the list itself
	}
	lt := r.in.loops[n.S]
	if lt == nil || len(lt.backs) == 0 {
		return false
	}
	for _, b := range lt.backs {
		if b.val != n {
			continue // counted in this iteration
		}
		ok := false
		for a, p := range b.facts.at {
			if a.Op == OLookupOk && (!p && strings.HasSuffix(pathOf(a.A[0]), ".ThresholdPublicMap") || p && !strings.Contains(pathOf(a.A[0]), "CryptoConfig")) {
				ok = true
			}
			if a.Op == OLookup && p && !strings.Contains(pathOf(a.A[0]), "CryptoConfig") {
				ok = true // seen before
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func init() { checks["P44"] = p44 }
