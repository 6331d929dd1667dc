package main

// Rules for the client: P21-P24.

import (
	"strings"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

const cCfg = "ClientContext.Crypto"

// clientDB: m is one of the client's databases; returns its name
func clientDB(m *Term) string {
	p := pathOf(m)
	for _, n := range []string{"STH_database", "CRV_database", "POM_database"} {
		if p == "ClientContext."+n {
			return n
		}
	}
	return ""
}

// about: s with everything that is known of every element of a list instantiated for element o of that list
func (c *C) about(s *State, o *Term) *State {
	o = stripRef(o)
	if o.Op == ODeref {
		o = o.A[0]
	}
	if o.Op != OIndex || len(s.foralls) == 0 {
		return s
	}
	n := s
	for _, fa := range s.foralls {
		if strings.HasPrefix(fa.loop, "exists:") {
			continue
		}
		for a, p := range fa.facts.at {
			var e *Term
			walk(a, func(x *Term) bool {
				if e == nil && x.Op == OIndex && x.A[0] == o.A[0] && x.A[1] != o.A[1] && fullRange(c.in, x.A[1], x.A[0]) {
					e = x
				}
				return e == nil
			})
			if e == nil {
				continue
			}
			b := rewrite(a, func(x *Term) *Term {
				if x == e {
					return o
				}
				return nil
			}, map[*Term]*Term{})
			if n == s {
				n = s.clone()
			}
			n.assume(b, p)
		}
	}
	return n
}

// updateOps: the client operations that take a monitor's update, with the index of the update and of the flag that enables
// verification
func (c *C) updateOps() (fs []*ssa.Function, upd, flag map[*ssa.Function]int) {
	upd, flag = map[*ssa.Function]int{}, map[*ssa.Function]int{}
	for _, f := range c.clientOps() {
		u, v := -1, -1
		for i, p := range f.Params {
			if u < 0 && isNamed(p.Type(), "ClientUpdate") {
				u = i
			}
			if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool && v < 0 {
				v = i
			}
		}
		if u >= 0 && v >= 0 {
			fs = append(fs, f)
			upd[f], flag[f] = u, v
		}
	}
	return
}

// itemOf: the element of a list of the update that t was made from, and the list's name
func itemOf(t *Term) (o *Term, list string) {
	walk(t, func(x *Term) bool {
		if o == nil && x.Op == OIndex && isGossipObject(x) {
			l := x.A[0]
			for l.Op == OSlice {
				l = l.A[0]
			}
			if l.Op == OField && l.A[0].T != nil && isNamed(l.A[0].T, "ClientUpdate") {
				o, list = x, fieldName(l.A[0].T, l.N)
			}
		}
		return o == nil
	})
	return
}

func p21(c *C) {
	c.rules = append(c.rules,
		"with verification on, every insertion into a client database lies on a path where the update item it comes from passed Verify with the client's configuration and is known to have the type its list is for",
		"with verification on or off, a revocation vector is inserted only on a path where the signed revocation hash of that item was verified (CA's key, period, delta, vector on file united with the delta)",
		"the key of the insertion is the entity the item is about (for tree heads with the item's period), the value is taken from that item")
	g := c.goFields()
	kinds := map[string][]*Term{"STHs": {c.defConst("STH_FULL")}, "REVs": {c.defConst("REV_FULL")}, "POM_ACCs": {c.defConst("ACC_FULL")}, "POM_CONs": {c.defConst("CON_INIT")}}
	lists := map[string]string{"STHs": "STH_database", "REVs": "CRV_database", "POM_ACCs": "POM_database", "POM_CONs": "POM_database"}
	fs, upd, flag := c.updateOps()
	if len(fs) == 0 {
		c.missing("client operation that handles a monitor's update")
		return
	}
	for _, f := range fs {
		for _, verify := range []bool{true, false} {
			verify := verify
			in := c.interp(func(e *Event) {
				s := e.S
				switch e.Kind {
				case "mapupd":
					n := clientDB(e.Addr)
					if n == "" {
						return
					}
					c.oblig()
					v := c.in.snap(s, e.Val)
					o, l := itemOf(v)
					if o == nil {
						o, l = itemOf(e.Key)
					}
					if o == nil {
						c.fail("foreign", n, e.Instr, s, "%s changes by something that is not an item of the update", n)
						return
					}
					c.site("insertion", l)
					if lists[l] != n {
						c.fail("list", n, e.Instr, s, "%s is filled from the update's list %s", n, l)
						return
					}
					a := c.about(s, o)
					if verify {
						if !verified(a, o, cCfg) {
							c.fail("unverified", l, e.Instr, s, "an item of %s changes %s although it is not known to have been verified with the client's keys", l, n)
						}
						ok := false
						for _, k := range kinds[l] {
							ok = ok || a.known(mkEq(g.f(o, g.Type), k))
						}
						if !ok {
							c.fail("kind", l, e.Instr, s, "an item of %s changes %s although it is not known to be of the type that list is for", l, n)
						}
					}
					want := g.payload(o, 0)
					if n == "STH_database" {
						want = mkConcat(g.payload(o, 0), tStr("@"), g.f(o, g.Period))
					}
					if !sameTerm(s, e.Key, want) && e.Key != want {
						c.fail("key", l, e.Instr, s, "an item of %s is not filed under the entity it is about: key %s", l, e.Key)
					}
					switch n {
					case "STH_database":
						if !contains(v, g.payload(o, 1)) || v.Op != OField || fieldName(v.A[0].T, v.N) != "RootHash" {
							c.fail("value", l, e.Instr, s, "what is filed is not the root hash in the tree head: %s", v)
						}
					case "POM_database":
						if v != o && !sameTerm(s, v, o) {
							c.fail("value", l, e.Instr, s, "what is filed is not the proof")
						}
					case "CRV_database":
						if m := srhVerified(a, g, o, "SignPublicMap", "ClientContext.CRV_database"); m != "" {
							c.fail("srh", l, e.Instr, s, "a revocation vector changes without a valid signed revocation hash (verification flag %v): %s", verify, m)
						}
					}
				case "mapdel", "mapclear":
					if n := clientDB(e.Addr); n != "" {
						c.fail("removed", n, e.Instr, s, "an update removes entries of %s", n)
					}
				case "store":
					if n := clientDB(e.Addr); n != "" && !rootIsLocal(e.Addr) {
						c.fail("replaced", n, e.Instr, s, "an update replaces %s", n)
					}
				}
			})
			in.keepFact = keepVerify
			in.pin = c.pinObject(g)
			c.clientRun(in, f, func(i int, p *ssa.Parameter) *Term {
				if i == flag[f] {
					return tBool(verify)
				}
				_ = upd
				return nil
			})
		}
	}
	c.needAll("insertion", "STHs", "REVs", "POM_ACCs", "POM_CONs")
}

// clientRun analyses one client operation; arg can fix parameters
func (c *C) clientRun(in *Interp, f *ssa.Function, arg func(int, *ssa.Parameter) *Term) []Exit {
	return c.clientRunIn(in, f, arg, newState())
}

func (c *C) clientRunIn(in *Interp, f *ssa.Function, arg func(int, *ssa.Parameter) *Term, s0 *State) []Exit {
	var args []*Term
	for i, p := range f.Params {
		if arg != nil {
			if t := arg(i, p); t != nil {
				args = append(args, t)
				continue
			}
		}
		if isNamed(p.Type(), "ClientContext") {
			args = append(args, tSym("ctx", p.Type()))
			continue
		}
		args = append(args, tSym("arg"+itoa(i)+":"+shortFn(f), p.Type()))
	}
	in.threadKey = "op:" + shortFn(f)
	opaqueVerify(in)
	ex := c.run(in, f, args, s0)
	in.threadKey = ""
	return ex
}

// derivedFrom: t is computed from src, also through values carried around loops
func (c *C) derivedFrom(t, src *Term) bool {
	seen := map[string]bool{}
	var rec func(*Term) bool
	rec = func(t *Term) bool {
		r := false
		walk(t, func(x *Term) bool {
			if x == src {
				r = true
			}
			if x.Op == OTok && !seen[x.S] {
				seen[x.S] = true
				if lt := c.in.loops[x.S]; lt != nil {
					for _, b := range lt.backs {
						r = r || b.val != x && rec(b.val)
					}
					for _, i := range lt.inits {
						r = r || rec(i)
					}
				}
			}
			return !r
		})
		return r
	}
	return rec(t)
}

// someField: t is a value with property ok, or a variable that a loop sets only to such values
func (c *C) someField(t *Term, ok func(*Term) bool, depth int) bool {
	if ok(t) {
		return true
	}
	if t.Op != OTok || depth > 4 {
		return false
	}
	lt := c.in.loops[t.S]
	if lt == nil {
		return false
	}
	found := false
	for _, i := range lt.inits {
		if i.Op != OConst && !c.someField(i, ok, depth+1) {
			return false
		}
	}
	for _, b := range lt.backs {
		if b.val == t {
			continue
		}
		if !c.someField(b.val, ok, depth+1) {
			return false
		}
		found = true
	}
	return found
}

// someIteration: sets of facts of which each is known to hold for some iteration of a finished loop, or on the path itself
func (c *C) someIteration(s *State) []*Facts {
	r := []*Facts{s.facts}
	for _, fa := range s.foralls {
		if strings.HasPrefix(fa.loop, "exists:") {
			r = append(r, fa.facts)
		}
	}
	meet := func(lt *LoopTok, ok func(v *Term) bool) {
		var f *Facts
		for _, b := range lt.backs {
			if !ok(b.val) {
				continue
			}
			if f == nil {
				f = b.facts
			} else {
				f = interFacts(f, b.facts)
			}
		}
		if f != nil {
			r = append(r, f)
		}
	}
	// counter: a loop token that starts at 0 and grows by at most 1
	counter := func(t *Term) *LoopTok {
		if t.Op != OTok {
			return nil
		}
		lt := c.in.loops[t.S]
		if lt == nil {
			return nil
		}
		for _, i := range lt.inits {
			if i != tInt(0) {
				return nil
			}
		}
		for _, b := range lt.backs {
			if b.val != t && b.val != addConst(t, 1) {
				return nil
			}
		}
		return lt
	}
	loopOf := func(n string) string {
		if i := strings.LastIndex(n, ":"); i >= 0 {
			return n[:i]
		}
		return n
	}
	// total: t is the number of iterations of the loop
	total := func(t *Term, loop string) bool {
		if t.Op == OTok && loopOf(t.S) == loop {
			lt := counter(t)
			if lt == nil {
				return false
			}
			for _, b := range lt.backs {
				if b.val == t {
					return false
				}
			}
			return true
		}
		if t.Op != OLen {
			return false
		}
		for n, lt := range c.in.loops {
			if loopOf(n) != loop {
				continue
			}
			for _, b := range lt.backs {
				found := false
				for a := range b.facts.at {
					walk(a, func(x *Term) bool {
						if x.Op == OIndex && x.A[0] == t.A[0] && fullRange(c.in, x.A[1], x.A[0]) {
							found = true
						}
						return !found
					})
				}
				return found
			}
		}
		return false
	}
	for a, p := range s.facts.at {
		if a.Op != OBin || (a.S != "==" && a.S != "<") {
			continue
		}
		for k := 0; k < 2; k++ {
			t, o := a.A[k], a.A[1-k]
			lt := counter(t)
			if lt == nil {
				continue
			}
			z := o == tInt(0)
			switch {
			case z && (a.S == "==" && !p || a.S == "<" && p && k == 1):
				meet(lt, func(v *Term) bool { return v != t })
			case a.S == "==" && !p && total(o, loopOf(t.S)), a.S == "<" && p && k == 0 && total(o, loopOf(t.S)):
				meet(lt, func(v *Term) bool { return v == t })
			}
		}
	}
	return r
}

func p22(c *C) {
	c.rules = append(c.rules,
		"every path on which a client operation accepts a certificate has an iteration over the certificate's logger list that established: no proof on file against the tree head's signer, Verify of that tree head with the client's keys, type STH_INIT, its root hash equal to the database entry of that logger and period, Merkle verification of this certificate with that logger's proof against that root",
		"on the same path the issuer's revocation vector is known to be on file and its bit for the certificate's revocation number known to be clear")
	g := c.goFields()
	sth := c.defConst("STH_INIT")
	n := 0
	for _, f := range c.clientOps() {
		ci := -1
		for i, p := range f.Params {
			if isNamed(p.Type(), "Certificate") {
				ci = i
			}
		}
		r := f.Signature.Results()
		if ci < 0 || r.Len() == 0 {
			continue
		}
		if b, ok := r.At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
			continue
		}
		n++
		f := f
		cert := tSym("cert", f.Params[ci].Type())
		in := c.interp(func(e *Event) {
			if e.Kind != "exit" || e.Mode != "main" {
				return
			}
			s := e.S
			v := e.Val
			if v == tBool(false) {
				return
			}
			if v != tBool(true) {
				s = s.clone()
				if v == nil || !s.assume(v, true) {
					return
				}
			}
			c.oblig()
			c.site("acceptance", shortFn(f))
			best := "no logger information was checked"
			rank := -1
			ok := false
			for _, fs := range c.someIteration(s) {
				why, k := c.benign(s, fs, g, sth, cert)
				if why == "" {
					ok = true
				} else if k > rank {
					best, rank = why, k
				}
			}
			if !ok {
				c.fail("no-benign-logger", shortFn(f), anyInstr(f), s, "a certificate can be accepted although no listed logger is known to be benign: %s", best)
			}
			onFile, clear := false, false
			isCRV := func(x *Term) bool {
				x = stripRef(x)
				if x.Op == ODeref {
					x = x.A[0]
				}
				if x.Op != OLookup || pathOf(x.A[0]) != "ClientContext.CRV_database" {
					return false
				}
				k := x.A[1]
				return k.Op == OField && fieldName(k.A[0].T, k.N) == "CommonName" && k.A[0].Op == OField && fieldName(k.A[0].A[0].T, k.A[0].N) == "Issuer" && c.derivedFrom(k, cert)
			}
			for a, p := range s.facts.at {
				if x, q := eqNil(a); q && !p && isCRV(x) {
					onFile = true
				}
				if a.Op == OLookupOk && p && pathOf(a.A[0]) == "ClientContext.CRV_database" && isCRV(mk(OLookup, "", 0, nil, a.A[0], a.A[1])) {
					onFile = true
				}
				if a.Op == OCall && !p && strings.HasSuffix(a.S, "bitset.BitSet).Test") && isCRV(a.A[0]) {
					if c.someField(stripConv(a.A[1]), func(x *Term) bool {
						return x.Op == OField && fieldName(x.A[0].T, x.N) == "RID" && c.derivedFrom(x, cert)
					}, 0) {
						clear = true
					}
				}
			}
			if !onFile {
				c.fail("no-crv", shortFn(f), anyInstr(f), s, "a certificate can be accepted although the issuer's revocation vector is not known to be on file")
			}
			if !clear {
				c.fail("revoked", shortFn(f), anyInstr(f), s, "a certificate can be accepted although its bit in the issuer's revocation vector is not known to be clear")
			}
		})
		in.keepFact = keepVerify
		in.pin = func(a *Term) bool { return true }
		c.clientRun(in, f, func(i int, p *ssa.Parameter) *Term {
			if i == ci {
				return cert
			}
			return nil
		})
	}
	c.need("acceptance", 1)
}

// benign: facts fs (of one iteration) show that the logger information is good; returns "" or what is missing, and how much
// was found
func (c *C) benign(s *State, fs *Facts, g goFields, sth, cert *Term) (string, int) {
	t := s
	if fs != s.facts {
		// what is known after the loop about its variables is not about that iteration
		t = s.clone()
		t.facts = fs
		for a, p := range s.facts.at {
			tok := false
			walk(a, func(x *Term) bool {
				tok = tok || x.Op == OTok
				return !tok
			})
			if !tok {
				t.assume(a, p)
			}
		}
	}
	why, rank := "no listed tree head was verified with the client's keys", 0
	miss := func(k int, m string) {
		if k > rank {
			why, rank = m, k
		}
	}
	for _, vo := range verifiedObjs(t) {
		o := vo[0]
		if pathOf(vo[1]) != cCfg || !c.derivedFrom(o, cert) {
			continue
		}
		miss(1, "the tree head's type is not known to be STH_INIT")
		if !t.known(mkEq(g.f(o, g.Type), sth)) {
			continue
		}
		isEnt := func(x *Term) bool { return sameTerm(t, x, g.f(o, g.Signer)) || sameTerm(t, x, g.payload(o, 0)) }
		pom := false
		for a, p := range t.facts.at {
			if a.Op == OLookupOk && !p && pathOf(a.A[0]) == "ClientContext.POM_database" && isEnt(a.A[1]) {
				pom = true
			}
		}
		miss(2, "a proof of misbehaviour against the logger is not known to be absent")
		if !pom {
			continue
		}
		isDB := func(x *Term) bool {
			if x.Op != OLookup || pathOf(x.A[0]) != "ClientContext.STH_database" {
				return false
			}
			k := x.A[1]
			return k == mkConcat(g.payload(o, 0), tStr("@"), g.f(o, g.Period)) || k == mkConcat(g.f(o, g.Signer), tStr("@"), g.f(o, g.Period))
		}
		isRoot := func(x *Term) bool {
			return x.Op == OField && fieldName(x.A[0].T, x.N) == "RootHash" && contains(x, g.payload(o, 1))
		}
		var roots []*Term
		for a, p := range t.facts.at {
			if p && a.Op == OBin && a.S == "==" && (isDB(a.A[0]) && isRoot(a.A[1]) || isDB(a.A[1]) && isRoot(a.A[0])) {
				roots = append(roots, a.A[0], a.A[1])
			}
		}
		miss(3, "its root hash is not known to equal the database entry of that logger and period")
		if len(roots) == 0 {
			continue
		}
		miss(4, "no inclusion proof of this certificate was verified against that root")
		for a, p := range t.facts.at {
			if !p || !strings.HasSuffix(callName(a), "go-merkletree.Verify") {
				continue
			}
			call := a
			if call.Op == OExtract {
				call = call.A[0]
			}
			if len(call.A) < 3 || !t.known(mkEq(mkExtract(call, 1, nil), tNil)) && !t.known(mkEq(errOf(t, call), tNil)) {
				miss(5, "the error of the proof's verification is not known to be nil")
				continue
			}
			block, proof, root := call.A[0], call.A[1], call.A[2]
			if !c.derivedFrom(c.in.snap(t, block), cert) || !sameSource(t, c.leafOf(block), cert) {
				miss(5, "the certificate whose inclusion was verified is not the one presented")
				continue
			}
			pr := c.in.snap(t, proof)
			// the proof must come from the same logger information entry as the tree head
			if o.Op == OField && !contains(pr, o.A[0]) && !contains(proof, o.A[0]) {
				miss(6, "the inclusion proof is not the one of that logger")
				continue
			}
			for _, x := range roots {
				if contains(root, x) {
					return "", 9
				}
			}
			miss(7, "the inclusion proof was verified against another root")
		}
	}
	return why, rank
}

func callName(a *Term) string {
	if a.Op == OExtract {
		a = a.A[0]
	}
	if a.Op == OCall {
		return a.S
	}
	return ""
}

// errOf: the error result of a call, as it occurs in the facts of s
func errOf(s *State, call *Term) *Term {
	for a := range s.facts.at {
		if x, ok := eqNil(a); ok && x.Op == OExtract && x.A[0] == call {
			return x
		}
	}
	return tNil0
}

var tNil0 = tSym("no such result", nil)

// leafOf: what the Merkle leaf hashes (its RawSubject), from the block handed to the verification
func (c *C) leafOf(block *Term) *Term {
	var r *Term
	walk(block, func(x *Term) bool {
		if r == nil && x.T != nil && isNamed(x.T, "Certificate") && x.Op != ORef {
			r = mkField(x, fieldIndex(x.T, "RawSubject"), x.T)
		}
		return r == nil
	})
	return r
}

func sameSource(s *State, leaf, cert *Term) bool {
	if leaf == nil {
		return false
	}
	return leaf.Op == OField && fieldName(leaf.A[0].T, leaf.N) == "RawSubject" && contains(leaf, cert)
}

func fieldIndex(t types.Type, name string) int {
	st := structOf(t)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func init() {
	checks["P21"] = p21
	checks["P22"] = p22
}

func anyInstr(f *ssa.Function) ssa.Instruction {
	if len(f.Blocks) == 0 {
		return nil
	}
	for _, i := range f.Blocks[0].Instrs {
		if i.Pos().IsValid() {
			return i
		}
	}
	return nil
}

// ---- P23 ----

// bitsetMutator: a method that changes its receiver, and whether it can clear bits of it
func bitsetMutator(e *Event) (mut, clears bool) {
	if !strings.Contains(e.Name, "bitset.BitSet)") {
		return false, false
	}
	switch lastName(e.Name) {
	case "Set", "InPlaceUnion":
		return true, false
	case "SetTo":
		return true, len(e.Args) < 3 || e.Args[2] != tBool(true)
	case "Clear", "ClearAll", "Flip", "FlipRange", "InPlaceDifference", "InPlaceIntersection", "InPlaceSymmetricDifference", "DeleteAt", "InsertAt", "Shrink", "ShrinkMin", "ShiftLeft", "ShiftRight", "UnmarshalBinary", "UnmarshalJSON", "ReadFrom", "SetBitsetFrom":
		return true, true
	}
	return false, false
}

func isVector(p string) bool {
	return strings.HasPrefix(p, "MonitorContext.Storage_CRV") || strings.HasPrefix(p, "ClientContext.CRV_database") || strings.Contains(p, "CRV.CRV_current") || strings.Contains(p, "CRV.CRV_pre_update")
}

func p23(c *C) {
	c.rules = append(c.rules,
		"every insertion into a revocation-vector map (monitor, client) is the union of the entry on file and the delta decoded from a revocation object, or that delta itself where no entry is known to be on file, under the key of the object's CA; entries and maps are never removed or replaced",
		"no call that can clear bits reaches a vector on file; a stored revocation object's delta is applied on every path",
		"a CA's snapshot is a fresh copy of the current vector, taken only where the delta against the previous snapshot was computed from the unchanged current vector and is published in the revocation store on every path")
	g := c.goFields()
	vectors := func(e *Event, path string, objStore string) {
		s := e.S
		switch e.Kind {
		case "mapupd":
			p := pathOf(e.Addr)
			if objStore != "" && p == objStore {
				s.oblige("apply", e.Val)
				return
			}
			if p != path {
				return
			}
			c.oblig()
			isOld := func(x *Term) bool {
				x = stripRef(x)
				if x.Op == ODeref {
					x = x.A[0]
				}
				return x.Op == OLookup && pathOf(x.A[0]) == path && sameTerm(s, x.A[1], e.Key)
			}
			delta := func(x *Term) *Term {
				x = stripRef(x)
				if x.Op == OZero {
					return x
				}
				if x.Op != OOut || len(x.A) == 0 || !strings.HasSuffix(callName(x.A[0]), "BitSet).UnmarshalBinary") {
					return nil
				}
				call := x.A[0]
				if call.A[len(call.A)-1] == tNil {
					return x // nothing could be decoded
				}
				return revocationOf(g, x)
			}
			v := c.in.snap(s, e.Val)
			w := stripRef(v)
			if sharedVar(e.Val, e.Instr) {
				c.fail("aliased", path, e.Instr, s, "the same variable is filed as the vector of several CAs, so that a later delta overwrites it")
			}
			var o *Term
			if w.Op == OCall && strings.HasSuffix(w.S, "bitset.BitSet).Union") && len(w.A) == 2 {
				if isOld(w.A[0]) {
					o = delta(w.A[1])
				} else if isOld(w.A[1]) {
					o = delta(w.A[0])
				}
				if o == nil {
					c.fail("union", path, e.Instr, s, "the vector filed is not the union of the vector on file and the delta of a revocation: %s", v)
					return
				}
				c.site("delta applied", path+" (known CA)")
			} else if o = delta(w); o != nil {
				absent := false
				for a, p := range s.facts.at {
					if a.Op == OLookupOk && !p && pathOf(a.A[0]) == path && sameTerm(s, a.A[1], e.Key) {
						absent = true
					}
					if x, q := eqNil(a); q && p && isOld(x) {
						absent = true
					}
				}
				if !absent {
					c.fail("overwritten", path, e.Instr, s, "a delta replaces the vector although none is known to be absent for that CA: earlier revocations are lost")
				}
				c.site("delta applied", path+" (new CA)")
				s.mark("vec", e.Val)
			} else {
				c.fail("union", path, e.Instr, s, "what is filed as revocation vector is not a union with the delta of a revocation: %s", v)
				return
			}
			if isGossipObject(o) {
				if !sameTerm(s, e.Key, g.payload(o, 0)) && !sameTerm(s, e.Key, g.f(o, g.Signer)) {
					c.fail("key", path, e.Instr, s, "a delta is applied to the vector of an entity it is not about")
				}
				s.mark("applied", o)
				s.discharge(func(m Mark) bool { return m.K == "apply" && sameTerm(s, m.T, o) })
			} else {
				// undecodable delta: there is nothing to apply
				s.mark("applied:any", tNil)
				s.discharge(func(m Mark) bool { return m.K == "apply" })
			}
		case "mapdel", "mapclear":
			if pathOf(e.Addr) == path {
				c.oblig()
				c.fail("removed", path, e.Instr, s, "a revocation vector is removed")
			}
		case "store":
			if pathOf(e.Addr) == path && !rootIsLocal(e.Addr) {
				c.oblig()
				c.fail("replaced", path, e.Instr, s, "the revocation vectors are replaced")
			}
		case "spawned", "exit":
			s.discharge(func(m Mark) bool {
				if m.K != "apply" {
					return false
				}
				for _, k := range []string{"async:applied", "applied"} {
					for _, o := range s.marked(k) {
						if sameTerm(s, m.T, o) {
							return true
						}
					}
				}
				return len(s.marked("async:applied:any")) > 0 || len(s.marked("applied:any")) > 0
			})
			if e.Kind == "exit" {
				for _, m := range s.obls {
					if m.K == "apply" {
						c.fail("not-applied", path, e.Instr, s, "a revocation is stored but its delta is not applied to the vector of its CA on every path")
					}
				}
			}
		}
	}
	mutators := func(e *Event) {
		if e.Kind != "call" {
			return
		}
		mut, clears := bitsetMutator(e)
		if mut && len(e.Args) > 0 {
			a := e.Args[0]
			p := pathOf(a)
			if clears && (isVector(p) || e.S.hasMark("vec", a)) {
				c.oblig()
				c.fail("cleared", p, e.Instr, e.S, "%s can clear bits of the revocation vector %s", lastName(e.Name), p)
			}
		}
	}
	// monitor
	in := c.interp(func(e *Event) {
		vectors(e, "MonitorContext.Storage_CRV", "MonitorContext.Storage_REV_FULL")
		mutators(e)
	})
	in.keepFact = keepVerify
	in.pin = c.pinObject(g)
	c.serverRun(in, "monitor")
	// client
	fs, _, _ := c.updateOps()
	for _, f := range fs {
		in := c.interp(func(e *Event) {
			vectors(e, "ClientContext.CRV_database", "")
			mutators(e)
		})
		in.keepFact = keepVerify
		in.pin = c.pinObject(g)
		c.clientRun(in, f, nil)
	}
	c.needAll("delta applied", "MonitorContext.Storage_CRV (known CA)", "MonitorContext.Storage_CRV (new CA)", "ClientContext.CRV_database (known CA)", "ClientContext.CRV_database (new CA)")
	// CA
	in = c.interp(func(e *Event) {
		mutators(e)
		c.crvSnapshot(e)
	})
	c.serverRun(in, "CA")
	c.need("snapshot", 1)
	c.need("delta published", 1)
}

// revocationOf: the object in whose third payload field t was found
func revocationOf(g goFields, t *Term) *Term {
	var o *Term
	walk(t, func(x *Term) bool {
		if o == nil && x.Op == OIndex && x.A[0].Op == OField && x.A[0].N == g.Payload && isGossipObject(x.A[0].A[0]) && x.A[1] == tInt(2) {
			o = x.A[0].A[0]
		}
		return o == nil
	})
	return o
}

// crvSnapshot: rules for the CA's vectors
func (c *C) crvSnapshot(e *Event) {
	s := e.S
	is := func(t *Term, f string) bool {
		t = stripRef(t)
		if t.Op == ODeref {
			t = t.A[0]
		}
		return strings.HasSuffix(pathOf(t), "CRV.CRV_"+f)
	}
	switch e.Kind {
	case "call":
		if len(e.Args) == 0 {
			return
		}
		if strings.HasSuffix(e.Name, "bitset.BitSet).SymmetricDifference") || strings.HasSuffix(e.Name, "bitset.BitSet).Difference") {
			if is(e.Args[0], "current") && is(e.Args[1], "pre_update") || is(e.Args[1], "current") && is(e.Args[0], "pre_update") && strings.HasSuffix(e.Name, "SymmetricDifference") {
				s.mark("delta", tNil)
			}
		}
		if mut, _ := bitsetMutator(e); mut && is(e.Args[0], "current") {
			s.unmark(func(m Mark) bool { return m.K == "delta" || m.K == "published" })
		}
		if mut, _ := bitsetMutator(e); mut && is(e.Args[0], "pre_update") {
			c.fail("snapshot-changed", "pre_update", e.Instr, s, "the snapshot of the vector is changed in place")
		}
	case "fact":
		if e.Truth && e.Key.Op == OBin && e.Key.S == "==" && (is(e.Key.A[0], "current") && is(e.Key.A[1], "pre_update") || is(e.Key.A[1], "current") && is(e.Key.A[0], "pre_update")) {
			s.mark("delta", tNil) // the same vector: an empty delta
			s.mark("same", tNil)
		}
	case "mapupd":
		if strings.HasSuffix(pathOf(e.Addr), "CAContext.REV_storage") {
			c.oblig()
			if s.hasMark("delta", tNil) && (s.hasMark("same", tNil) || hasCall(c.in.snap(s, e.Val), "Difference")) {
				c.site("delta published", "REV_storage")
				s.mark("published", tNil)
				s.discharge(func(m Mark) bool { return m.K == "publish" })
			} else {
				c.fail("not-published", "REV_storage", e.Instr, s, "what is published does not contain the delta between the snapshot and the current vector")
			}
		}
	case "store":
		p := pathOf(e.Addr)
		if rootIsLocal(e.Addr) {
			return
		}
		if strings.HasSuffix(p, "CRV.CRV_current") || strings.HasSuffix(p, "CAContext.CRV") {
			c.fail("current-replaced", p, e.Instr, s, "the current vector is replaced while the CA runs")
		}
		if !strings.HasSuffix(p, "CRV.CRV_pre_update") {
			return
		}
		c.oblig()
		c.site("snapshot", "pre_update")
		v := e.Val
		ok := false
		if v.Op == OCall && strings.HasSuffix(v.S, "bitset.BitSet).Clone") && is(v.A[0], "current") {
			ok = true
		}
		if v.Op == OCall && strings.HasSuffix(v.S, "bitset.BitSet).Union") && (is(v.A[0], "current") || is(v.A[1], "current")) {
			ok = true
		}
		if !ok {
			c.fail("snapshot-alias", "pre_update", e.Instr, s, "the snapshot is not a fresh copy of the current vector, so later revocations may not show up in the next delta: %s", v)
		}
		if !s.hasMark("delta", tNil) {
			c.fail("snapshot-early", "pre_update", e.Instr, s, "the snapshot is taken although the delta of the current vector against the previous snapshot has not been computed: revocations are skipped")
		}
		if !s.hasMark("published", tNil) {
			s.oblige("publish", tNil)
		}
		s.unmark(func(m Mark) bool { return m.K == "published" })
	case "exit":
		for _, m := range s.obls {
			if m.K == "publish" {
				c.fail("delta-dropped", "pre_update", e.Instr, s, "a snapshot was taken but the delta computed before it is not published on every path")
			}
		}
	}
}

func hasCall(t *Term, suffix string) bool {
	r := false
	walk(t, func(x *Term) bool {
		if x.Op == OCall && strings.HasSuffix(x.S, suffix) {
			r = true
		}
		return !r
	})
	return r
}

func init() { checks["P23"] = p23 }

// fileOf: the configured path (field of the client's configuration) of the file t was read from or is written to
func fileOf(t *Term) string {
	r := ""
	walk(t, func(x *Term) bool {
		if p := pathOf(x); r == "" && x.Op == OField && strings.HasPrefix(p, "ClientContext.Config.") && isStrT(x.T) {
			r = strings.TrimPrefix(p, "ClientContext.Config.")
		}
		return r == ""
	})
	return r
}

func stripIface(t *Term) *Term {
	if t.Op == OIface {
		return t.A[0]
	}
	return t
}

func p24(c *C) {
	c.rules = append(c.rules,
		"each client database is written, whole and on every path without an I/O error, by its save operation to one configured file; no two databases share a file",
		"on every path of the initialisation of a client that is not new, each database is decoded from the file it is saved to, in the encoding it is saved in (for vectors: every entry of the file is decoded and filed under its key), unless reading the file failed; it is not replaced afterwards")
	dbs := []string{"STH_database", "CRV_database", "POM_database"}
	saved := map[string]map[string]bool{} // database -> file/encoding
	loaded := map[string]map[string]bool{}
	saver := map[string]ssa.Instruction{}
	loader := map[string]ssa.Instruction{}
	add := func(m map[string]map[string]bool, k, v string) {
		if m[k] == nil {
			m[k] = map[string]bool{}
		}
		m[k][v] = true
	}
	ioError := func(e *Event) bool {
		if e.Kind != "fact" || e.Truth {
			return false
		}
		x, ok := eqNil(e.Key)
		if !ok {
			return false
		}
		n := callName(x)
		for _, p := range []string{"os.", "(*os.", "io.", "io/ioutil.", "encoding/json.", "bufio.", "(*bufio."} {
			if strings.HasPrefix(n, p) {
				return true
			}
		}
		return false
	}
	// saving
	save := func(op *ssa.Function, want []string) (wrote map[string]bool) {
		wrote = map[string]bool{}
		in := c.interp(func(e *Event) {
			s := e.S
			if ioError(e) {
				s.discharge(func(m Mark) bool { return strings.HasPrefix(m.K, "save:") })
			}
			switch e.Kind {
			case "mapupd":
				if k := e.Key; k.Op == OMapKey && clientDB(k.A[0]) != "" && rootIsLocal(e.Addr) {
					n := clientDB(k.A[0])
					v := e.Val
					if v.Op == OExtract {
						v = v.A[0]
					}
					if v.Op == OCall && strings.HasSuffix(v.S, "BitSet).MarshalBinary") && isEntryOf(v.A[0], "ClientContext."+n) {
						s.mark("enc:"+n, e.Addr)
					}
				}
			case "forall":
				for _, m := range e.All.marks {
					if strings.HasPrefix(m.K, "enc:") {
						s.mark("encall:"+m.K[4:], m.T)
					}
				}
			case "call":
				if n := e.Name; (n == "os.Create" || n == "os.OpenFile") && len(want) > 0 {
					for _, w := range want {
						if !s.hasMark("saved:"+w, tNil) {
							s.oblige("save:"+w, tNil)
						}
					}
				}
				if strings.HasPrefix(e.Name, "encoding/json.Marshal") && e.Val != nil {
					a := stripIface(e.Args[0])
					for _, n := range dbs {
						if s.hasMark("encall:"+n, a) || s.hasMark("encall:"+n, stripRef(a)) {
							s.mark("bin:"+n, e.Val)
						}
					}
				}
				if isFileWrite(e.Name) {
					for _, d := range dbs {
						enc := ""
						for _, a := range e.Snap {
							for _, o := range marshalled(a) {
								if clientDB(o) == d {
									enc = "json"
								}
							}
							for _, t := range s.marked("bin:" + d) {
								if contains(a, t) {
									enc = "binary"
								}
							}
						}
						if enc == "" {
							continue
						}
						if !c.muted() {
							f := fileOf(e.Snap[0])
							if f == "" {
								f = "?"
							}
							add(saved, d, f+" ("+enc+")")
							saver[d] = e.Instr
							wrote[d] = true
							c.site("saved", d)
						}
						c.oblig()
						s.mark("saved:"+d, tNil)
						d := d
						s.discharge(func(m Mark) bool { return m.K == "save:"+d })
					}
				}
			case "exit":
				if len(want) == 0 {
					return
				}
				for _, m := range s.obls {
					if strings.HasPrefix(m.K, "save:") {
						c.fail("not-saved", m.K[5:], anyInstr(op), s, "%s can end without an I/O error and without having written %s", shortFn(op), m.K[5:])
					}
				}
			}
		})
		s0 := newState()
		for _, w := range want {
			s0.oblige("save:"+w, tNil)
		}
		c.clientRunIn(in, op, nil, s0)
		return wrote
	}
	var inits []*ssa.Function
	for _, f := range c.p.allFuncsOf(c.p.pkgs["client"]) {
		ok := false
		for _, p := range f.Params {
			ok = ok || isNamed(p.Type(), "ClientContext")
		}
		if !ok || f.Synthetic != "" || f.Parent() != nil || len(f.Blocks) == 0 {
			continue
		}
		if installsLocks(f) {
			inits = append(inits, f)
		}
	}
	for _, f := range c.clientOps() {
		var w []string
		for n := range save(f, nil) {
			w = append(w, n)
		}
		if len(w) > 0 {
			save(f, w)
		}
	}
	// loading
	for _, op := range inits {
		op := op
		in := c.interp(func(e *Event) {
			s := e.S
			db := func(a *Term) string {
				if n := clientDB(a); n != "" {
					return n
				}
				for _, n := range dbs {
					if s.hasMark("db:"+n, a) {
						return n
					}
				}
				return ""
			}
			done := func(n, file, enc string) {
				c.oblig()
				if !c.muted() {
					add(loaded, n, file+" ("+enc+")")
					loader[n] = e.Instr
					c.site("loaded", n)
				}
				s.discharge(func(m Mark) bool { return m.K == "load:"+n })
				s.oblige("holds:"+n, tNil)
			}
			switch e.Kind {
			case "fact":
				if e.Key.Op == OBin && e.Key.S == "==" && e.Truth {
					for k := 0; k < 2; k++ {
						if strings.HasSuffix(pathOf(e.Key.A[k]), "ClientContext.Status") && e.Key.A[1-k] == tStr("NEW") {
							s.discharge(func(m Mark) bool { return strings.HasPrefix(m.K, "load:") })
						}
					}
				}
				x, ok := eqNil(e.Key)
				if !ok {
					return
				}
				call := x
				if call.Op == OExtract {
					call = call.A[0]
				}
				if call.Op != OCall {
					return
				}
				if !e.Truth {
					// reading the file failed: there is nothing to load
					for _, p := range []string{"os.", "io.", "io/ioutil.", "(*os."} {
						if strings.HasPrefix(call.S, p) {
							if f := fileOf(call); f != "" {
								s.mark("unreadable", tStr(f))
								s.discharge(func(m Mark) bool { return strings.HasPrefix(m.K, "load:") && fileIs(saved[m.K[5:]], f) })
							}
						}
					}
					return
				}
				if strings.HasSuffix(call.S, "encoding/json.Unmarshal") && len(call.A) > 0 {
					for _, m := range s.marked("decoding") {
						if m.Op == ORec && len(m.A) == 2 && m.A[0] == call {
							if n, ok := m.A[1].strVal(); ok {
								done(n, fileOf(call.A[0]), "json")
							}
						}
					}
				}
			case "call":
				if strings.HasSuffix(e.Name, "encoding/json.Unmarshal") && e.Val != nil {
					t := stripIface(e.Args[1])
					if n := db(t); n != "" {
						s.mark("decoding", mkTuple(e.Val, tStr(n)))
					}
				}
			case "mapupd":
				n := db(e.Addr)
				if n == "" || e.Key.Op != OMapKey {
					return
				}
				m := e.Key.A[0]
				v := stripRef(c.in.snap(s, e.Val))
				if v.Op == OOut && strings.HasSuffix(callName(v.A[0]), "BitSet).UnmarshalBinary") && fileOf(m) != "" {
					call := v.A[0]
					src := call.A[len(call.A)-1]
					if sharedVar(e.Val, e.Instr) {
						c.fail("aliased", n, e.Instr, s, "all entries of %s get the address of the same variable", n)
					}
					if s.known(mkEq(call, tNil)) && contains(src, e.Key) && contains(src, m) {
						s.mark("dec:"+n, m)
					}
				}
			case "forall":
				for _, m := range e.All.marks {
					if strings.HasPrefix(m.K, "dec:") {
						done(m.K[4:], fileOf(m.T), "binary")
					}
				}
			case "store":
				n := clientDB(e.Addr)
				if n == "" || rootIsLocal(e.Addr) {
					return
				}
				for _, m := range s.obls {
					if m.K == "holds:"+n {
						c.fail("discarded", n, e.Instr, s, "%s is replaced after it was loaded", n)
					}
				}
				s.mark("db:"+n, e.Val)
			case "mapdel", "mapclear":
				if n := db(e.Addr); n != "" {
					c.fail("discarded", n, e.Instr, s, "entries of %s are removed after it was loaded", n)
				}
			case "exit":
				for _, m := range s.obls {
					if strings.HasPrefix(m.K, "load:") {
						c.fail("not-loaded", m.K[5:], anyInstr(op), s, "%s can end for a client that is not new without having loaded %s", shortFn(op), m.K[5:])
					}
				}
			}
		})
		s0 := newState()
		for _, n := range dbs {
			s0.oblige("load:"+n, tNil)
		}
		c.clientRunIn(in, op, nil, s0)
	}
	if len(inits) == 0 {
		c.missing("initialisation of the client context")
	}
	c.needAll("saved", dbs...)
	c.needAll("loaded", dbs...)
	c.in = nil
	for _, d := range dbs {
		c.oblig()
		if len(saved[d]) == 0 || len(loaded[d]) == 0 {
			continue
		}
		a, b := strings.Join(sortedKeys(saved[d]), ", "), strings.Join(sortedKeys(loaded[d]), ", ")
		if a != b || len(saved[d]) != 1 {
			c.failAt("mismatch", d, loader[d], "%s is saved to %s but loaded from %s", d, a, b)
		}
		for _, x := range dbs {
			if x < d {
				for f := range saved[x] {
					if fileIs(saved[d], strings.SplitN(f, " ", 2)[0]) {
						c.failAt("shared-file", d, saver[d], "%s and %s are saved to the same file", d, x)
					}
				}
			}
		}
	}
}

func fileIs(m map[string]bool, f string) bool {
	for k := range m {
		if strings.HasPrefix(k, f+" (") {
			return true
		}
	}
	return false
}

func init() { checks["P24"] = p24 }

// sharedVar: v is the address of a variable that lives across the iterations of the loop the instruction is in, so that all
// iterations file the same address
func sharedVar(v *Term, at ssa.Instruction) bool {
	for v.Op == ORef || v.Op == OIface {
		v = v.A[0]
	}
	if v.Op != OAddr || at == nil {
		return false
	}
	o := objTab[v.S]
	if o == nil || o.site == nil || o.site.Parent() != at.Parent() {
		return false
	}
	l := infoOf(at.Parent()).inner[at.Block()]
	return l != nil && !l.body[o.site.Block()]
}
