package main

// Rules for object verification: P01-P04.

import (
	"fmt"
	"strings"
)

type verifyRun struct {
	typ  string
	g    *Term
	cfg  *Term
	succ []*State
	fail []*State // states in which it returns an error
	in   *Interp
}

// runVerify analyses Gossip_object.Verify for one object type; succ are the states in which it returns nil
func (c *C) runVerify(typ string) *verifyRun {
	f := c.p.fn("definition", "Gossip_object.Verify")
	if f == nil {
		c.missing("definition.Gossip_object.Verify")
		return nil
	}
	gf := c.goFields()
	in := c.interp(func(e *Event) {})
	r := &verifyRun{typ: typ, in: in}
	in.pin = func(*Term) bool { return true }
	in.cap = 400
	var args []*Term
	s := newState()
	for i, p := range f.Params {
		t := tSym(fmt.Sprintf("p%d:%s", i, p.Name()), p.Type())
		args = append(args, t)
		if i == 0 {
			r.g = t
			if derefType(t.T) != nil {
				r.g = in.load(s, t)
			}
		} else if isNamed(p.Type(), "CryptoConfig") {
			r.cfg = t
		}
	}
	if typ != "" {
		s.assume(mkEq(gf.f(r.g, gf.Type), c.defConst(typ)), true)
	} else {
		for _, n := range objTypes {
			s.assume(mkEq(gf.f(r.g, gf.Type), c.defConst(n)), false)
		}
	}
	for _, e := range c.run(in, f, args, s) {
		if n := e.s.clone(); n.assume(mkEq(e.ret, tNil), false) {
			in.tokenFacts(n, e.ret, false)
			r.fail = append(r.fail, n)
		}
		if e.s.assume(mkEq(e.ret, tNil), true) {
			in.tokenFacts(e.s, e.ret, true)
			r.succ = append(r.succ, e.s)
		}
	}
	return r
}

// sigCheck is one cryptographic signature check known to have succeeded
type sigCheck struct {
	kind string // rsa, bls, agg
	key  *Term  // public key(s)
	msg  *Term
	sig  *Term
}

func sigChecks(s *State) []sigCheck {
	var r []sigCheck
	for a, p := range s.facts.at {
		if !p {
			continue
		}
		t := a
		if x, ok := eqNil(a); ok {
			t = x
		}
		if t.Op != OCall {
			continue
		}
		switch {
		case strings.HasPrefix(t.S, "crypto/rsa.Verify") && len(t.A) >= 4 && t != a:
			r = append(r, sigCheck{"rsa", stripRef(t.A[0]), t.A[2], t.A[3]})
		case strings.HasSuffix(t.S, "bls.Sign).Verify") && len(t.A) == 3 && t == a:
			r = append(r, sigCheck{"bls", stripRef(t.A[1]), t.A[2], stripRef(t.A[0])})
		case strings.HasSuffix(t.S, "bls.Sign).FastAggregateVerify") && len(t.A) == 3 && t == a:
			r = append(r, sigCheck{"agg", stripRef(t.A[1]), t.A[2], stripRef(t.A[0])})
		}
	}
	return r
}

// carries: t contains x in full, through concatenation, digest, encoding or serialisation only
func carries(s *State, t, x *Term) bool {
	if x == tStr("") || s.canon(x) == tStr("") {
		return true
	}
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if sameTerm(s, t, x) {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		switch t.Op {
		case OConcat, OBuf, ORef, OIface, OConv, ORec, OArr, OState:
			for _, a := range t.A {
				if rec(a) {
					return true
				}
			}
		case OSlice:
			return (t.A[1] == tNone || t.A[1] == tInt(0)) && t.A[2] == tNone && rec(t.A[0])
		case OExtract:
			return t.N == 0 && rec(t.A[0])
		case OCall:
			if strings.HasSuffix(t.S, ".Sum") || strings.Contains(t.S, "Sum256") || strings.Contains(t.S, "Sum512") || strings.Contains(t.S, "json.Marshal") || strings.Contains(t.S, "EncodeToString") || strings.HasPrefix(t.S, "strings.Join") {
				for _, a := range t.A {
					if rec(a) {
						return true
					}
				}
			}
		}
		return false
	}
	return rec(t)
}

// directoryKey: t is an entry of the verifier's own key directory, known to be present; returns the identity
func directoryKey(s *State, t *Term, dir string) *Term {
	if t.Op != OLookup || pathOf(t.A[0]) != "CryptoConfig."+dir {
		return nil
	}
	for a, p := range s.facts.at {
		if p && a.Op == OLookupOk && sameTerm(s, a.A[0], t.A[0]) && sameTerm(s, a.A[1], t.A[1]) {
			return t.A[1]
		}
	}
	return nil
}

// ofObject: the term is derived from the object's Signature field (entry i, or any for i<0)
func ofObject(gf goFields, g, t *Term, i int) bool {
	r := false
	walk(t, func(x *Term) bool {
		if x.Op == OIndex && x.A[0] == gf.f(g, gf.Signature) && (i < 0 || x.A[1] == tInt(int64(i))) {
			r = true
		}
		return !r
	})
	return r
}

func isInit(t string) bool { return t == "STH_INIT" || t == "REV_INIT" || t == "ACC_INIT" }
func isFrag(t string) bool { return strings.HasSuffix(t, "_FRAG") }
func isFull(t string) bool { return strings.HasSuffix(t, "_FULL") }

// eachVerify runs f on every success state of every object type
func (c *C) eachVerify(f func(r *verifyRun, s *State)) {
	for _, t := range objTypes {
		r := c.runVerify(t)
		if r == nil {
			return
		}
		for _, s := range r.succ {
			c.site("success path", t)
			f(r, s)
		}
	}
	c.needAll("success path", objTypes...)
}

func (c *C) failV(rule string, r *verifyRun, s *State, format string, a ...any) {
	f := c.p.fn("definition", "Gossip_object.Verify")
	c.fail(rule, r.typ, f.Blocks[0].Instrs[0], s, r.typ+": "+format, a...)
}

func p01(c *C) {
	c.rules = append(c.rules, "on every path on which Verify returns nil for an object of a given type, a signature check of the scheme of that type is known to have succeeded, with a key present in the verifier's directory, over a message that carries each payload field in full, for a signature taken from the object; Verify never returns nil for any other type")
	gf := c.goFields()
	c.eachVerify(func(r *verifyRun, s *State) {
		c.oblig()
		covers := func(k sigCheck, idx ...int) bool {
			for _, i := range idx {
				if !carries(s, k.msg, gf.payload(r.g, i)) {
					return false
				}
			}
			return true
		}
		ok := false
		for _, k := range sigChecks(s) {
			switch {
			case isInit(r.typ):
				ok = ok || k.kind == "rsa" && directoryKey(s, k.key, "SignPublicMap") != nil && covers(k, 0, 1, 2) && ofObject(gf, r.g, k.sig, -1)
			case isFrag(r.typ):
				ok = ok || k.kind == "bls" && directoryKey(s, k.key, "ThresholdPublicMap") != nil && covers(k, 0, 1, 2) && ofObject(gf, r.g, k.sig, -1)
			case isFull(r.typ):
				ok = ok || k.kind == "agg" && r.keysOf(k.key) != nil && covers(k, 0, 1, 2) && ofObject(gf, r.g, k.sig, -1)
			}
		}
		if r.typ == "CON_INIT" {
			ok = r.conChecks(s, gf) != nil
		}
		if !ok {
			c.failV("unsigned-accepted", r, s, "verification can succeed without a successful signature check with a directory key over the whole payload")
		}
	})
	if r := c.runVerify(""); r != nil {
		c.oblig()
		for _, s := range r.succ {
			c.failV("unknown-type-accepted", r, s, "an object of none of the ten types can verify")
		}
	}
}

// conChecks: two RSA checks over Payload[1] and Payload[2] with distinct signature entries; returns the identities
func (r *verifyRun) conChecks(s *State, gf goFields) []*Term {
	ks := sigChecks(s)
	for _, k := range ks {
		id1 := directoryKey(s, k.key, "SignPublicMap")
		if k.kind != "rsa" || id1 == nil || !carries(s, k.msg, gf.payload(r.g, 1)) || carries(s, k.msg, gf.payload(r.g, 2)) {
			continue
		}
		for _, l := range ks {
			id2 := directoryKey(s, l.key, "SignPublicMap")
			if l.kind != "rsa" || id2 == nil || !carries(s, l.msg, gf.payload(r.g, 2)) {
				continue
			}
			for i := 0; i < 2; i++ {
				if ofObject(gf, r.g, k.sig, i) && ofObject(gf, r.g, l.sig, 1-i) {
					return []*Term{id1, id2}
				}
			}
		}
	}
	return nil
}

// keysOf: the list of public keys is ThresholdPublicMap[L[i]] for every i; returns L
func (r *verifyRun) keysOf(keys *Term) *Term {
	if keys.Op != OTok {
		return nil
	}
	lt := r.in.loops[keys.S]
	if lt == nil || len(lt.backs) == 0 {
		return nil
	}
	var list *Term
	for _, b := range lt.backs {
		v := b.val
		var el *Term
		switch {
		case v.Op == OUpd && v.A[0] == keys:
			el = v.A[2]
		case v.Op == OAppend && len(v.A) == 2 && v.A[0] == keys:
			el = v.A[1]
		default:
			return nil
		}
		if el.Op != OLookup || pathOf(el.A[0]) != "CryptoConfig.ThresholdPublicMap" {
			return nil
		}
		id := el.A[1]
		if id.Op == OConv {
			id = id.A[0]
		}
		if id.Op != OIndex || list != nil && list != id.A[0] {
			return nil
		}
		if !fullRange(r.in, id.A[1], id.A[0]) {
			return nil
		}
		if v.Op == OUpd && v.A[1] != id.A[1] {
			return nil
		}
		list = id.A[0]
	}
	return list
}

// fullRange: the index runs from the first to the last element of list (the loop may leave early only by returning)
func fullRange(in *Interp, idx, list *Term) bool {
	b, k := splitAdd(idx)
	if b == nil {
		b, k = idx, 0
	}
	if b.Op != OTok {
		return false
	}
	lt := in.loops[b.S]
	if lt == nil {
		return false
	}
	for _, i := range lt.inits {
		v, ok := i.intVal()
		if !ok || v+k != 0 {
			return false
		}
	}
	for _, x := range lt.backs {
		if x.val != addConst(b, 1) {
			return false
		}
	}
	// the head leaves the loop only behind the last element (the same code may have run over other lists, too)
	n := 0
	for _, f := range lt.exits {
		v, ok := f.decide(mkLt(idx, mkLen(list)))
		if ok && !v {
			n++
			continue
		}
		for a := range f.at {
			if a.Op == OBin && contains(a, b) && contains(a, list) {
				return false
			}
		}
	}
	return n > 0
}

func p02(c *C) {
	c.rules = append(c.rules, "on every path on which Verify returns nil for an initial statement, accusation or fragment, the identity whose directory key checked the signature is known equal to the object's Signer, and for STH and revocation statements to Payload[0]")
	gf := c.goFields()
	c.eachVerify(func(r *verifyRun, s *State) {
		if !isInit(r.typ) && !isFrag(r.typ) {
			return
		}
		c.oblig()
		dir := "SignPublicMap"
		if isFrag(r.typ) {
			dir = "ThresholdPublicMap"
		}
		ok, okE := false, false
		for _, k := range sigChecks(s) {
			id := directoryKey(s, k.key, dir)
			if id == nil {
				continue
			}
			if sameTerm(s, id, gf.f(r.g, gf.Signer)) {
				ok = true
			}
			if sameTerm(s, id, gf.payload(r.g, 0)) {
				okE = true
			}
		}
		if !ok {
			c.failV("signer-unbound", r, s, "verification can succeed although the key that checked the signature is not that of the object's Signer")
		}
		if (r.typ == "STH_INIT" || r.typ == "REV_INIT") && !okE {
			c.failV("entity-unbound", r, s, "verification can succeed although the signer is not the entity the statement is about")
		}
	})
}

func p03(c *C) {
	c.rules = append(c.rules, "on every path on which Verify returns nil for a threshold object, the number of distinct identities with a directory key in the very list whose keys were aggregated is known to be at least Threshold: a set filled only with such identities of the list, or a counter guarded by a set of those seen, or the list's length with every element known and never seen before")
	c.eachVerify(func(r *verifyRun, s *State) {
		if !isFull(r.typ) {
			return
		}
		c.oblig()
		var list *Term
		for _, k := range sigChecks(s) {
			if k.kind == "agg" {
				if l := r.keysOf(k.key); l != nil {
					list = l
				}
			}
		}
		if list == nil {
			c.failV("threshold-keys", r, s, "the keys of the aggregate check are not the directory keys of one list of identities")
			return
		}
		if !r.enoughSigners(s, list) {
			c.failV("threshold-count", r, s, "verification can succeed without at least Threshold distinct known signers in the aggregated list")
		}
	})
}

// atLeastThreshold: terms known to be >= Threshold
func atLeastThreshold(s *State) []*Term {
	var r []*Term
	thr := func(t *Term) (int64, bool) {
		b, k := splitAdd(t)
		if b == nil {
			b, k = t, 0
		}
		return k, strings.HasSuffix(pathOf(b), ".Threshold")
	}
	for a, p := range s.facts.at {
		if a.Op != OBin {
			continue
		}
		switch a.S {
		case "<":
			// !(x < T+k), k>=0
			if k, ok := thr(a.A[1]); ok && !p && k >= 0 {
				r = append(r, a.A[0])
			}
			// T+k < x, k>=-1
			if k, ok := thr(a.A[0]); ok && p && k >= -1 {
				r = append(r, a.A[1])
			}
		case "==":
			for i := 0; i < 2; i++ {
				if k, ok := thr(a.A[i]); ok && p && k >= 0 {
					r = append(r, a.A[1-i])
				}
			}
		}
	}
	return r
}

func (r *verifyRun) enoughSigners(s *State, list *Term) bool {
	// every element of the list known to have a key
	allKnown := false
	for _, fa := range s.foralls {
		if strings.HasPrefix(fa.loop, "exists:") {
			continue
		}
		for a, p := range fa.facts.at {
			if p && a.Op == OLookupOk && strings.HasSuffix(pathOf(a.A[0]), ".ThresholdPublicMap") && isElem(a.A[1], list) && fullRange(r.in, stripConv(a.A[1]).A[1], list) {
				allKnown = true
			}
		}
	}
	knownKey := func(f *Facts, id *Term) bool {
		if allKnown {
			return true
		}
		for a, p := range f.at {
			if p && a.Op == OLookupOk && strings.HasSuffix(pathOf(a.A[0]), ".ThresholdPublicMap") && a.A[1] == id {
				return true
			}
		}
		return false
	}
	for _, n := range atLeastThreshold(s) {
		// (A) size of a set
		if n.Op == OLen && n.A[0].Op == OTok {
			if r.idSet(n.A[0], list, knownKey) {
				return true
			}
		}
		// (B) length of the list itself, all known and pairwise distinct
		if n == mkLen(list) && allKnown && r.distinct(s, list) {
			return true
		}
		// (C) a counter
		if n.Op == OTok {
			if r.counter(n, list, knownKey) {
				return true
			}
		}
	}
	return false
}

func stripConv(t *Term) *Term {
	for t.Op == OConv {
		t = t.A[0]
	}
	return t
}

func isElem(x, list *Term) bool {
	x = stripConv(x)
	return x.Op == OIndex && x.A[0] == list && !x.A[1].isConst()
}

// idSet: a map that starts empty and gets only keys that are elements of list with a directory key
func (r *verifyRun) idSet(tok, list *Term, known func(*Facts, *Term) bool) bool {
	lt := r.in.loops[tok.S]
	if lt == nil {
		return false
	}
	for _, i := range lt.inits {
		if i.Op != OZero {
			return false
		}
	}
	for _, b := range lt.backs {
		v := b.val
		for v.Op == OMapUpd {
			if !isElem(v.A[1], list) || !known(b.facts, v.A[1]) {
				return false
			}
			v = v.A[0]
		}
		if v.Op == OMapDel {
			continue
		}
		if v != tok {
			return false
		}
	}
	return len(lt.backs) > 0
}

// seenSet: in this iteration id was absent from a set to which it is then added
func (r *verifyRun) seenSet(f *Facts, id *Term, list *Term) bool {
	for a, p := range f.at {
		if p || a.Op != OLookupOk && a.Op != OLookup || a.A[1] != id || a.A[0].Op != OTok {
			continue
		}
		lt := r.in.loops[a.A[0].S]
		if lt == nil {
			continue
		}
		ok := true
		for _, i := range lt.inits {
			if i.Op != OZero {
				ok = false
			}
		}
		for _, b := range lt.backs {
			v := b.val
			// every iteration that passes the test adds its element
			added := false
			for v.Op == OMapUpd {
				if isElem(v.A[1], list) {
					added = true
				}
				v = v.A[0]
			}
			if v != a.A[0] {
				ok = false
			}
			if !added {
				if q, in := b.facts.at[a]; in && !q {
					ok = false
				}
			}
		}
		if ok {
			return true
		}
	}
	return false
}

func (r *verifyRun) distinct(s *State, list *Term) bool {
	for _, fa := range s.foralls {
		if strings.HasPrefix(fa.loop, "exists:") {
			continue
		}
		for a, p := range fa.facts.at {
			if !p && (a.Op == OLookupOk || a.Op == OLookup) && isElem(a.A[1], list) && fullRange(r.in, stripConv(a.A[1]).A[1], list) && r.seenSet(fa.facts, a.A[1], list) {
				return true
			}
		}
	}
	return false
}

func (r *verifyRun) counter(tok, list *Term, known func(*Facts, *Term) bool) bool {
	lt := r.in.loops[tok.S]
	if lt == nil || len(lt.backs) == 0 {
		return false
	}
	for _, i := range lt.inits {
		if i != tInt(0) {
			return false
		}
	}
	for _, b := range lt.backs {
		if b.val == tok {
			continue
		}
		if b.val != addConst(tok, 1) {
			return false
		}
		ok := false
		for a, p := range b.facts.at {
			if !p && (a.Op == OLookupOk || a.Op == OLookup) && isElem(a.A[1], list) && r.seenSet(b.facts, a.A[1], list) && known(b.facts, a.A[1]) {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func p04(c *C) {
	c.rules = append(c.rules, "on every path on which Verify returns nil for a conflict proof: two RSA checks over Payload[1] and Payload[2] with the two signatures, both with the directory key of Payload[0]; Payload[1] != Payload[2] known; the periods decoded from both statements known equal")
	gf := c.goFields()
	c.eachVerify(func(r *verifyRun, s *State) {
		if r.typ != "CON_INIT" {
			return
		}
		c.oblig()
		ids := r.conChecks(s, gf)
		if ids == nil {
			c.failV("conflict-signatures", r, s, "a conflict proof can verify without both statements' signatures having been checked")
			return
		}
		ent := gf.payload(r.g, 0)
		for _, id := range ids {
			if !sameTerm(s, id, ent) {
				c.failV("conflict-accused", r, s, "a conflict proof can verify although a statement was not signed by the accused entity (%s)", id)
			}
		}
		p1, p2 := gf.payload(r.g, 1), gf.payload(r.g, 2)
		if v, ok := s.facts.decide(mkEq(p1, p2)); !ok || v {
			c.failV("conflict-same", r, s, "a conflict proof can verify although both statements may be the same")
		}
		ok := false
		for a, p := range s.facts.at {
			if !p || a.Op != OBin || a.S != "==" {
				continue
			}
			for k := 0; k < 2; k++ {
				if statedPeriod(s, a.A[k], p1) && statedPeriod(s, a.A[1-k], p2) {
					ok = true
				}
			}
		}
		if !ok {
			c.failV("conflict-period", r, s, "a conflict proof can verify although the two statements may be for different periods")
		}
	})
}

// statedPeriod: t is the Period field decoded, without error, from content
func statedPeriod(s *State, t, content *Term) bool {
	if t.Op != OField || fieldName(t.A[0].T, t.N) != "Period" || t.A[0].Op != OOut || !contains(t.A[0], content) {
		return false
	}
	call := t.A[0].A[0]
	return s.known(mkEq(call, tNil))
}

func init() {
	checks["P01"] = p01
	checks["P02"] = p02
	checks["P03"] = p03
	checks["P04"] = p04
}
