package main

// P45: signatures survive their text form, and aggregation keeps every fragment.

import (
	"encoding/json"
	"go/types"
	"reflect"
	"strings"
)

// textPart: how one value is written into (or read out of) a text
type textPart struct{ codec, what string }

// elementwise: l is filled by one full pass over src; els are the possible elements (with the index term idx in them)
func elementwise(in *Interp, l *Term) (src, idx *Term, els []*Term) {
	l = listTok(l)
	lt := in.loops[l.S]
	if l.Op != OTok || lt == nil || len(lt.backs) == 0 {
		return nil, nil, nil
	}
	for _, b := range lt.backs {
		v := b.val
		var el, at *Term
		switch {
		case v.Op == OUpd && v.A[0] == l:
			at, el = v.A[1], v.A[2]
		case v.Op == OAppend && len(v.A) == 2 && v.A[0] == l:
			el = v.A[1]
		default:
			return nil, nil, nil // an element can be left out
		}
		var list, i *Term
		walk(el, func(x *Term) bool {
			if x.Op == OIndex && list == nil && fullRange(in, x.A[1], x.A[0]) && (at == nil || x.A[1] == at) {
				list, i = x.A[0], x.A[1]
			}
			return list == nil
		})
		if list != nil && src != nil && src != list {
			return nil, nil, nil
		}
		if list != nil {
			src, idx = list, i
		}
		els = append(els, el)
	}
	return
}

func listTok(l *Term) *Term {
	l = stripConv(l)
	for l.Op == OState && strings.Contains(l.S, "sort.") && len(l.A) > 0 || l.Op == OSlice && l.A[1] == tNone && l.A[2] == tNone {
		l = l.A[0]
	}
	return l
}

// written: the parts of a JSON text under their keys; nil if the text is not understood
func (c *C) written(in *Interp, s *State, t *Term, arg *Term) map[string]textPart {
	t = stripConv(t)
	if t.Op == OExtract && t.N == 0 {
		t = t.A[0]
	}
	m := map[string]textPart{}
	part := func(x *Term) textPart { return c.encoding(in, s, x, arg) }
	if t.Op == OCall && strings.HasSuffix(t.S, "json.Marshal") && len(t.A) > 0 {
		r := stripRef(t.A[0])
		if r.Op == OIface {
			r = stripRef(r.A[0])
		}
		st := structUnder(r.T)
		if st == nil || r.Op != ORec {
			return nil
		}
		for i := 0; i < st.NumFields() && i < len(r.A); i++ {
			m[jsonName(st, i)] = part(r.A[i])
		}
		return m
	}
	parts := []*Term{t}
	if t.Op == OConcat {
		parts = t.A
	}
	text := ""
	var vars []*Term
	for _, p := range parts {
		if v, ok := p.strVal(); ok {
			text += v
			continue
		}
		k := "\u00a7" + itoa(len(vars)) + "\u00a7"
		if strings.Count(strings.ReplaceAll(text, `\"`, ""), `"`)%2 == 0 {
			k = `"` + k + `"`
		}
		text += k
		vars = append(vars, p)
	}
	d := map[string]any{}
	if json.Unmarshal([]byte(text), &d) != nil {
		return nil
	}
	for k, v := range d {
		x, _ := v.(string)
		for i, p := range vars {
			if x == "\u00a7"+itoa(i)+"\u00a7" {
				m[k] = part(p)
			}
		}
		if _, ok := m[k]; !ok {
			m[k] = textPart{"?", "a mixture"}
		}
	}
	return m
}

func structUnder(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	if d := derefType(t); d != nil {
		t = d
	}
	st, _ := t.Underlying().(*types.Struct)
	return st
}

func jsonName(st *types.Struct, i int) string {
	n := st.Field(i).Name()
	if tag := strings.Split(reflect.StructTag(st.Tag(i)).Get("json"), ",")[0]; tag != "" {
		n = tag
	}
	return n
}

// fieldOfArg: the field of the argument
func fieldOfArg(s *State, x, arg *Term) string {
	x = stripRef(stripConv(x))
	for x.Op == OSlice && x.A[1] == tNone && x.A[2] == tNone {
		x = stripConv(x.A[0])
	}
	if x.Op == ODeref {
		x = x.A[0]
	}
	if x.Op == OField && (x.A[0] == arg || x.A[0].Op == ODeref && x.A[0].A[0] == arg) {
		return fieldName(x.A[0].T, x.N)
	}
	return ""
}

func (c *C) encoding(in *Interp, s *State, x, arg *Term) textPart {
	x = stripConv(x)
	if x.Op == OExtract && x.N == 0 {
		x = x.A[0]
	}
	if f := fieldOfArg(s, x, arg); f != "" {
		return textPart{"plain", f}
	}
	if x.Op == OCall {
		codec := ""
		switch {
		case strings.HasSuffix(x.S, "hex.EncodeToString"):
			codec = "hex"
		case strings.HasSuffix(x.S, "base64.Encoding).EncodeToString"):
			codec = "base64" + short(x.A[0])
			return textPart{codec, fieldOfArg(s, x.A[1], arg)}
		case strings.HasSuffix(x.S, "bls.Sign).SerializeToHexStr"):
			codec = "blshex"
		case strings.HasSuffix(x.S, "bls.Sign).GetHexString"):
			codec = "blsraw"
		case strings.HasSuffix(x.S, "json.Marshal"):
			return c.encoding(in, s, stripIface(x.A[0]), arg)
		}
		if codec != "" && len(x.A) > 0 {
			if f := fieldOfArg(s, x.A[0], arg); f != "" {
				return textPart{codec, f}
			}
		}
		return textPart{"?", short(x)}
	}
	if src, idx, els := elementwise(in, x); src != nil {
		if f := fieldOfArg(s, src, arg); f != "" {
			for _, e := range els {
				if e = stripConv(e); e.Op != OIndex || e.A[0] != src || e.A[1] != idx {
					return textPart{"?", short(e)}
				}
			}
			return textPart{"plain", f}
		}
	}
	return textPart{"?", short(x)}
}

// read: the text key and decoder from which a field's value comes
func (c *C) decoding(in *Interp, s *State, x, text *Term) textPart {
	x = stripRef(stripConv(x))
	for x.Op == OSlice && x.A[1] == tNone && x.A[2] == tNone {
		x = stripRef(stripConv(x.A[0]))
	}
	if x.Op == OExtract && x.N == 0 {
		x = x.A[0]
	}
	if k := textKey(x, text); k != "" {
		return textPart{"plain", k}
	}
	codec, from := "", (*Term)(nil)
	if x.Op == OCall && strings.HasSuffix(x.S, "hex.DecodeString") {
		codec, from = "hex", x.A[0]
	}
	if x.Op == OCall && strings.HasSuffix(x.S, "base64.Encoding).DecodeString") {
		codec, from = "base64"+short(x.A[0]), x.A[1]
	}
	if x.Op == OOut && x.A[0].Op == OCall {
		d := x.A[0]
		switch {
		case strings.HasSuffix(d.S, "encoding/hex.Decode") && x.N == 0 && wholeBuffer(d.A[0], d.A[1]):
			codec, from = "hex", d.A[1]
		case strings.HasSuffix(d.S, "bls.Sign).DeserializeHexStr"):
			codec, from = "blshex", d.A[len(d.A)-1]
		case strings.HasSuffix(d.S, "bls.Sign).SetHexString"):
			codec, from = "blsraw", d.A[len(d.A)-1]
		}
	}
	if from != nil {
		if k := textKey(stripConv(from), text); k != "" {
			return textPart{codec, k}
		}
		return textPart{"?", short(from)}
	}
	if src, idx, els := elementwise(in, x); src != nil {
		for _, e := range els {
			if e = stripConv(e); e.Op != OIndex || e.A[0] != src || e.A[1] != idx {
				return textPart{"?", short(e)}
			}
		}
		return c.decoding(in, s, src, text)
	}
	return textPart{"?", short(x)}
}

// wholeBuffer: the target of hex.Decode has exactly the decoded length (or the length of the source halved)
func wholeBuffer(dst, src *Term) bool {
	if dst.Op == OOut || dst.Op != OSlice && dst.Op != OAddr {
		ok := false
		walk(dst, func(x *Term) bool {
			if x.Op == OCall && strings.HasSuffix(x.S, "hex.DecodedLen") || x.Op == OBin && x.S == "/" && x.A[1] == tInt(2) {
				ok = true
			}
			return !ok
		})
		return ok
	}
	return true
}

// textKey: x is the value decoded under a key of the text
func textKey(x, text *Term) string {
	dec := func(d *Term) bool {
		return d.Op == OOut && d.A[0].Op == OCall && strings.HasSuffix(d.A[0].S, "json.Unmarshal") && len(d.A[0].A) > 0 && stripConv(d.A[0].A[0]) == text
	}
	if x.Op == OLookup && dec(x.A[0]) {
		k, _ := x.A[1].strVal()
		return "=" + k
	}
	if x.Op == OField && dec(x.A[0]) {
		if st := structUnder(x.A[0].T); st != nil {
			return "~" + jsonName(st, x.N)
		}
	}
	return ""
}

func p45(c *C) {
	c.rules = append(c.rules,
		"for each signature type, String writes every field under a key with an encoding, and ...FromString reads it from the same key with the inverse decoding, whenever it returns no error",
		"ThresholdAggregate fails only for fewer fragments than the threshold, and otherwise combines the signature and lists the identity of every fragment",
		"a threshold object is built from the signatures of all the fragments given, and keeps their period and payload")
	for _, n := range []string{"RSASig", "SigFragment", "ThresholdSig"} {
		c.roundTrip(n)
	}
	c.aggregates()
	c.fullFrom()
}

func (c *C) roundTrip(n string) {
	wf, rf := c.p.fn("crypto", n+".String"), c.p.fn("crypto", n+"FromString")
	if wf == nil || rf == nil {
		c.missing("crypto." + n + ".String / " + n + "FromString")
		return
	}
	in := c.interp(func(e *Event) {})
	in.pin = func(*Term) bool { return true }
	args, ex := c.exits(in, wf)
	arg := args[0]
	if derefType(arg.T) != nil {
		arg = mk(ODeref, "", 0, derefType(arg.T), arg)
	}
	var enc []map[string]textPart
	for _, e := range ex {
		t := in.snap(e.s, e.ret)
		if t.Op == ORec && t.T == nil {
			if !e.s.clone().assume(mkEq(e.ret.A[1], tNil), true) {
				continue // reports an error
			}
			t = in.snap(e.s, t.A[0])
		}
		m := c.written(in, e.s, t, arg)
		if m == nil {
			c.oblig()
			c.fail("not-json", n, wf.Blocks[0].Instrs[0], e.s, "%s.String: the text is not a JSON object of the signature's parts: %s", n, short(t))
			return
		}
		enc = append(enc, m)
	}
	st := structUnder(arg.T)
	in2 := c.interp(func(e *Event) {})
	in2.pin = func(*Term) bool { return true }
	args2, ex2 := c.exits(in2, rf)
	for _, e := range ex2 {
		s := e.s
		if e.ret.Op != ORec || !s.assume(mkEq(e.ret.A[1], tNil), true) {
			continue
		}
		r := in2.snap(s, e.ret.A[0])
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i).Name()
			c.oblig()
			v := fld(r, f)
			if v == nil {
				continue
			}
			d := c.decoding(in2, s, v, args2[0])
			for _, m := range enc {
				ok := false
				for k, w := range m {
					if w.what == f && w.codec == d.codec && w.codec != "?" && (d.what == "="+k || strings.HasPrefix(d.what, "~") && strings.EqualFold(d.what[1:], k)) {
						ok = true
					}
				}
				if !ok {
					c.fail("not-restored", n+"."+f, rf.Blocks[0].Instrs[0], s, "%s: field %s is not restored from its text form (read as %s of %s, written as %v)", n, f, d.codec, d.what, m)
				} else {
					c.site("restored", n+"."+f)
				}
			}
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		c.needAll("restored", n+"."+st.Field(i).Name())
	}
}

// aggregates: crypto.ThresholdAggregate
func (c *C) aggregates() {
	f := c.p.fn("crypto", "CryptoConfig.ThresholdAggregate")
	if f == nil {
		c.missing("crypto.CryptoConfig.ThresholdAggregate")
		return
	}
	var in *Interp
	var list *Term
	in = c.interp(func(e *Event) {
		if e.Kind == "call" && strings.HasSuffix(e.Name, "bls.Sign).Aggregate") && len(e.Snap) > 1 {
			if src, idx, els := elementwise(in, e.Snap[1]); src == list && src != nil {
				for _, x := range els {
					if fieldAt(x, list, idx) != "Sign" {
						return
					}
				}
				e.S.mark("combined", tNil)
			}
		}
	})
	in.pin = func(*Term) bool { return true }
	args := []*Term{}
	s := newState()
	for _, p := range f.Params {
		t := tSym("arg:"+p.Name(), p.Type())
		args = append(args, t)
		if _, ok := p.Type().Underlying().(*types.Slice); ok {
			list = t
		}
	}
	for _, e := range c.run(in, f, args, s) {
		if e.ret.Op != ORec || list == nil {
			continue
		}
		c.oblig()
		if n := e.s.clone(); n.assume(mkEq(e.ret.A[1], tNil), false) {
			ok := false
			for a, p := range n.facts.at {
				if a.Op == OBin && a.S == "<" && p && a.A[0] == mkLen(list) && strings.HasSuffix(pathOf(a.A[1]), ".Threshold") {
					ok = true
				}
				if a.Op == OBin && a.S == "==" && !p && (strings.HasSuffix(pathOf(a.A[0]), ".ThresholdScheme") || strings.HasSuffix(pathOf(a.A[1]), ".ThresholdScheme")) {
					ok = true
				}
			}
			if !ok {
				c.fail("not-combined", "error", f.Blocks[0].Instrs[0], n, "combining fragments fails although there are at least Threshold of them")
			}
		}
		if !e.s.assume(mkEq(e.ret.A[1], tNil), true) {
			continue
		}
		c.site("aggregate", "success")
		r := in.snap(e.s, e.ret.A[0])
		sig, ids := fld(r, "Sign"), fld(r, "IDs")
		if !e.s.hasMark("combined", tNil) || sig == nil || !hasCall(sig, "Aggregate") {
			c.fail("not-combined", "Sign", f.Blocks[0].Instrs[0], e.s, "the combined signature does not combine the signature of every fragment")
		}
		ok := false
		if ids != nil {
			src, idx, els := elementwise(in, ids)
			ok = src == list && src != nil
			for _, x := range els {
				ok = ok && fieldAt(x, list, idx) == "ID"
			}
		}
		if !ok {
			c.fail("not-combined", "IDs", f.Blocks[0].Instrs[0], e.s, "the combined signature does not list the identity of every fragment")
		}
	}
	c.needAll("aggregate", "success")
}

// fieldAt: x is a field of list[idx]
func fieldAt(x, list, idx *Term) string {
	x = stripRef(stripConv(x))
	if x.Op == ODeref {
		x = x.A[0]
	}
	if x.Op == OField && x.A[0].Op == OIndex && x.A[0].A[0] == list && x.A[0].A[1] == idx {
		return fieldName(x.A[0].T, x.N)
	}
	return ""
}

// fullFrom: gossiper.Generate_Gossip_Object_FULL
func (c *C) fullFrom() {
	f := c.p.fn("gossiper", "GossiperContext.Generate_Gossip_Object_FULL")
	if f == nil {
		c.missing("gossiper.Generate_Gossip_Object_FULL")
		return
	}
	g := c.goFields()
	var in *Interp
	var list *Term
	in = c.interp(func(e *Event) {
		if e.Kind == "enter" && strings.HasSuffix(e.Name, "crypto.CryptoConfig).ThresholdAggregate") && len(e.Args) > 1 {
			src, idx, _ := elementwise(in, in.snap(e.S, e.Args[1]))
			c.oblig()
			ok := src == list && src != nil
			fromText := func(x *Term) bool {
				has := false
				walk(x, func(y *Term) bool {
					if y.Op == OIndex && y.A[1] == tInt(0) && y.A[0].Op == OField && y.A[0].N == g.Signature && y.A[0].A[0].Op == OIndex && y.A[0].A[0].A[0] == list && y.A[0].A[0].A[1] == idx {
						has = true
					}
					return !has
				})
				return has
			}
			if ok {
				for _, b := range in.loops[listTok(in.snap(e.S, e.Args[1])).S].backs {
					has := fromText(b.val)
					for a, p := range b.facts.at {
						// a text that cannot be read
						if x, isNil := eqNil(a); isNil && !p && fromText(x) {
							has = true
						}
					}
					ok = ok && has
				}
			}
			if ok {
				e.S.mark("all", tNil)
			}
		}
	})
	in.pin = func(*Term) bool { return true }
	args := []*Term{}
	for _, p := range f.Params {
		t := tSym("arg:"+p.Name(), p.Type())
		args = append(args, t)
		if _, ok := p.Type().Underlying().(*types.Slice); ok {
			list = t
		}
	}
	for _, e := range c.run(in, f, args, newState()) {
		c.oblig()
		c.site("threshold object", "built")
		r := in.snap(e.s, e.ret)
		if !e.s.hasMark("all", tNil) {
			c.fail("fragments-left-out", "", f.Blocks[0].Instrs[0], e.s, "a threshold object is not built from the signatures of all the fragments it is given")
		}
		for _, n := range []int{g.Period, g.Payload} {
			v := g.f(r, n)
			if !(v.Op == OField && v.N == n && v.A[0].Op == OIndex && v.A[0].A[0] == list) {
				c.fail("fragments-changed", fieldName(r.T, n), f.Blocks[0].Instrs[0], e.s, "a threshold object does not keep the %s of its fragments", fieldName(r.T, n))
			}
		}
	}
	c.needAll("threshold object", "built")
}

func init() { checks["P45"] = p45 }
