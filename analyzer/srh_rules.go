package main

// P39: a CA's revocation statement is what monitors and clients recompute.

import (
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// hashed: t is a digest of x made with hash function h
func hashed(t *Term) (h string, x *Term) {
	if t.Op != OCall {
		return "", nil
	}
	if strings.HasPrefix(t.S, "hash:") && len(t.A) > 0 {
		n := t.S[5:]
		if n == "crypto/sha256.New" {
			return "SHA256", t.A[0]
		}
		h := n
		for _, a := range t.A[1:] {
			h += "," + short(a)
		}
		if strings.HasPrefix(n, "(crypto.Hash).New") && len(t.A) > 1 && t.A[1] == tInt(5) {
			h = "SHA256"
		}
		return h, t.A[0]
	}
	if strings.HasSuffix(t.S, ").Sum") && len(t.A) > 0 && t.A[0].Op == OState && len(t.A[0].A) == 2 {
		w, b := t.A[0].A[0], t.A[0].A[1]
		if b.Op == OBuf && len(b.A) == 1 && w.Op == OCall {
			h := w.S
			for _, a := range w.A {
				h += "," + short(a)
			}
			if w.S == "crypto/sha256.New" || strings.HasPrefix(w.S, "(crypto.Hash).New") && len(w.A) > 0 && w.A[0] == tInt(5) {
				h = "SHA256"
			}
			return h, b.A[0]
		}
	}
	return "", nil
}

// formulaOf renders how a message is put together from leaves
func formulaOf(t *Term, leaf func(*Term) string) string {
	t = stripConv(t)
	if l := leaf(t); l != "" {
		return l
	}
	if v, ok := t.strVal(); ok {
		return "'" + v + "'"
	}
	if h, x := hashed(t); x != nil {
		return h + "(" + formulaOf(x, leaf) + ")"
	}
	switch t.Op {
	case OExtract:
		return formulaOf(t.A[0], leaf)
	case OSlice:
		if t.A[1] == tNone && t.A[2] == tNone {
			return formulaOf(t.A[0], leaf)
		}
	case OConcat:
		var ps []string
		for _, a := range t.A {
			ps = append(ps, formulaOf(a, leaf))
		}
		return strings.Join(ps, "‖")
	case OIface, OBuf:
		if len(t.A) == 1 {
			return formulaOf(t.A[0], leaf)
		}
	}
	var ps []string
	for _, a := range t.A {
		ps = append(ps, formulaOf(a, leaf))
	}
	n := t.S
	if t.Op != OCall {
		n = "op" + itoa(int(t.Op)) + n
	}
	return n + "(" + strings.Join(ps, ",") + ")"
}

func marshalledSet(t *Term) *Term {
	if t.Op == OExtract {
		t = t.A[0]
	}
	if t.Op == OCall && strings.HasSuffix(t.S, "bitset.BitSet).MarshalBinary") && len(t.A) > 0 {
		return t.A[0]
	}
	return nil
}

func compressions(t *Term) string {
	m := map[string]bool{}
	walk(t, func(x *Term) bool {
		if x.Op == OCall && strings.Contains(x.S, "compress/") {
			n := x.S[strings.Index(x.S, "compress/"):]
			m[n[:strings.IndexByte(n, '.')]] = true
		}
		return true
	})
	return strings.Join(sortedKeys(m), ",")
}

// wireFields: JSON field names and types of a struct
func wireFields(t types.Type) string {
	st := structOf(t)
	if st == nil {
		return typeKey(t)
	}
	var r []string
	for i := 0; i < st.NumFields(); i++ {
		n := st.Field(i).Name()
		if g := reflect.StructTag(st.Tag(i)).Get("json"); g != "" {
			if f := strings.Split(g, ",")[0]; f != "" {
				n = f
			}
		}
		r = append(r, strings.ToLower(n)+" "+typeKey(st.Field(i).Type().Underlying()))
	}
	sort.Strings(r)
	return strings.Join(r, "; ")
}

func p39(c *C) {
	c.rules = append(c.rules,
		"the statement a CA publishes for a period carries that period and the compressed encoding of the difference between its current vector and the snapshot, and a hash signed with the CA's own key that is put together from exactly that period, the current vector and that encoding",
		"the message whose signature monitors and clients check is put together from the period, the union of the vector on file (or nothing) and the received delta, and that delta, by the same formula (order, separators, hash functions); the wire form of the statement and the compression are the same on both sides")
	g := c.goFields()
	type side struct {
		f     string
		wire  string
		comp  string
		instr ssa.Instruction
		who   string
	}
	var prod []side
	written := map[*Term][]*Term{} // compressed stream: what is written to it
	isVec := func(t *Term, f string) bool {
		t = stripRef(t)
		if t.Op == ODeref {
			t = t.A[0]
		}
		return strings.HasSuffix(pathOf(t), "CRV.CRV_"+f)
	}
	in := c.interp(func(e *Event) {
		s := e.S
		if e.Kind == "call" && strings.HasSuffix(e.Name, "Writer).Write") && strings.Contains(e.Name, "compress/") && len(e.Args) > 1 {
			written[e.Args[0]] = append(written[e.Args[0]], c.in.sliceVal(s, e.Args[1]))
		}
		if e.Kind != "mapupd" || c.muted() || pathOf(e.Addr) != "CAContext.REV_storage" {
			return
		}
		o := stripRef(c.in.snap(s, e.Val))
		if !isGossipObject(o) {
			return
		}
		c.oblig()
		c.site("statement", "published")
		ms := marshalled(g.payload(o, 2))
		if len(ms) != 1 || structOf(ms[0].T) == nil {
			c.fail("payload", "REV_storage", e.Instr, s, "the third payload field of the published statement is not the encoding of a revocation record: %s", short(g.payload(o, 2)))
			return
		}
		rec := ms[0]
		srh, delta, per := fieldOf(rec, "SRH"), fieldOf(rec, "Delta_CRV"), fieldOf(rec, "Period")
		if srh == nil || delta == nil {
			c.fail("payload", "REV_storage", e.Instr, s, "the published revocation record has no signed hash or no delta")
			return
		}
		period := g.f(o, g.Period)
		if !sameTerm(s, e.Key, period) || per != nil && !sameTerm(s, per, period) {
			c.fail("period", "REV_storage", e.Instr, s, "the period of the statement, of the revocation record in it and the label it is filed under are not the same")
		}
		calls := signCalls(srh)
		if len(calls) != 1 || !rsaSign(calls[0]) {
			c.fail("unsigned", "REV_storage", e.Instr, s, "the hash in the published revocation record is not signed")
			return
		}
		if k := pathOf(stripRef(calls[0].A[1])); k != "CAContext.CA_crypto_config.SignSecretKey" && k != "CAContext.PrivateKey" {
			c.fail("key", "REV_storage", e.Instr, s, "the revocation hash is signed with %s, not with the CA's own key", k)
		}
		var enc *Term
		f := formulaOf(calls[0].A[3], func(x *Term) string {
			if sameTerm(s, x, period) {
				return "PERIOD"
			}
			b := marshalledSet(x)
			if b == nil {
				return ""
			}
			if isVec(b, "current") {
				return "NEW"
			}
			d := stripRef(b)
			if d.Op == OCall && strings.HasSuffix(d.S, "ifference") && len(d.A) == 2 {
				if isVec(d.A[0], "current") && isVec(d.A[1], "pre_update") || strings.HasSuffix(d.S, "SymmetricDifference") && isVec(d.A[1], "current") && isVec(d.A[0], "pre_update") {
					enc = x
					return "DELTA"
				}
			}
			if d.Op == OCall && strings.HasSuffix(d.S, "bitset.New") {
				for a, p := range s.facts.at {
					if p && a.Op == OBin && a.S == "==" && (isVec(a.A[0], "current") && isVec(a.A[1], "pre_update") || isVec(a.A[1], "current") && isVec(a.A[0], "pre_update")) {
						enc = x
						return "DELTA" // nothing changed
					}
				}
			}
			return ""
		})
		if enc == nil {
			c.fail("delta", "REV_storage", e.Instr, s, "the signed revocation hash does not cover the difference between the current vector and the snapshot: %s", f)
			return
		}
		if delta != tNil { // not when compressing failed
			ok := sameTerm(s, stripConv(delta), enc)
			walk(delta, func(x *Term) bool {
				for _, w := range written[x] {
					ok = ok || sameTerm(s, w, enc)
				}
				return true
			})
			for w, vs := range written {
				if contains(delta, w) {
					for _, v := range vs {
						if marshalledSet(v) != nil && !sameTerm(s, v, enc) && len(vs) == 1 {
							ok = false
						}
						ok = ok || sameTerm(s, v, enc)
					}
				}
			}
			if !ok {
				c.fail("delta-sent", "REV_storage", e.Instr, s, "the delta in the published revocation record is not the delta the signed hash covers: %s", short(delta))
			}
			prod = append(prod, side{f, wireFields(rec.T), compressions(delta), e.Instr, "CA"})
			c.site("formula of the CA", f)
		}
	})
	c.serverRun(in, "CA")
	var cons []side
	check := func(who string) func(e *Event) {
		wire := map[*Term]types.Type{}
		return func(e *Event) {
			if e.Kind != "call" {
				return
			}
			if strings.HasSuffix(e.Name, "json.Unmarshal") && len(e.Snap) > 1 {
				if t := typeOfValue(e.Args[1]); t != nil && structOf(t) != nil {
					wire[stripConv(e.Snap[0])] = t
				}
			}
			if c.muted() || !strings.HasPrefix(e.Name, "crypto/rsa.Verify") || len(e.Snap) < 4 {
				return
			}
			s := e.S
			var delta *Term
			var o *Term
			walk(e.Snap[2], func(x *Term) bool {
				if b := marshalledSet(x); b != nil {
					if q := revocationOf(g, b); q != nil {
						o = q
					}
				}
				return true
			})
			if o == nil {
				return
			}
			c.oblig()
			isDelta := func(x *Term) bool {
				x = stripRef(x)
				return x.Op != OCall && contains(x, g.payload(o, 2))
			}
			f := formulaOf(e.Snap[2], func(x *Term) string {
				if sameTerm(s, x, g.f(o, g.Period)) {
					return "PERIOD"
				}
				if x.Op == OField && fieldName(x.A[0].T, x.N) == "Period" && contains(x, g.payload(o, 2)) {
					return "PERIOD"
				}
				b := marshalledSet(x)
				if b == nil {
					return ""
				}
				b = stripRef(b)
				if isDelta(b) {
					delta = b
					return "DELTA"
				}
				if b.Op == OCall && strings.HasSuffix(b.S, "bitset.BitSet).Union") && len(b.A) == 2 && (isDelta(b.A[0]) || isDelta(b.A[1])) {
					return "NEW"
				}
				return ""
			})
			if delta == nil {
				return
			}
			w := ""
			for d, t := range wire {
				if sameTerm(s, d, g.payload(o, 2)) && fieldIndex(t, "SRH") >= 0 {
					w = wireFields(t)
				}
			}
			c.site("formula of the "+who, f)
			cons = append(cons, side{f, w, compressions(delta), e.Instr, who})
		}
	}
	in = c.interp(check("monitor"))
	in.pin = c.pinObject(g)
	c.serverRun(in, "monitor")
	fs, _, _ := c.updateOps()
	for _, f := range fs {
		in := c.interp(check("client"))
		in.pin = c.pinObject(g)
		c.clientRun(in, f, nil)
	}
	c.in = nil
	for i, p := range prod {
		if i > 0 && p.f != prod[0].f {
			c.failAt("two-formulas", "CA", p.instr, "the CA signs revocation hashes put together in different ways: %s and %s", prod[0].f, p.f)
		}
	}
	if len(prod) > 0 {
		p := prod[0]
		fresh := strings.ReplaceAll(p.f, "NEW", "DELTA")
		for _, q := range cons {
			c.obls++
			if q.f != p.f && q.f != fresh {
				c.failAt("formula", q.who, q.instr, "the %s checks a revocation hash put together as %s, but the CA signs %s", q.who, q.f, p.f)
			}
			if q.comp != p.comp {
				c.failAt("compression", q.who, q.instr, "the %s decompresses the delta with %q, the CA compresses it with %q", q.who, q.comp, p.comp)
			}
			if q.wire != "" && q.wire != p.wire {
				c.failAt("wire", q.who, q.instr, "the %s decodes a revocation record with the fields %s, the CA encodes one with %s", q.who, q.wire, p.wire)
			}
			if q.f == p.f {
				c.site("agreement", "CA and "+q.who)
			}
		}
	}
	c.need("statement", 1)
	c.needAll("agreement", "CA and monitor", "CA and client")
}

func init() { checks["P39"] = p39 }
