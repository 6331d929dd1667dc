package main

// P29, P30: crypto configurations.

import (
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (c *C) exits(in *Interp, f *ssa.Function) ([]*Term, []Exit) {
	var args []*Term
	for i, p := range f.Params {
		args = append(args, tSym("arg"+itoa(i)+":"+shortFn(f), p.Type()))
	}
	return args, c.run(in, f, args, newState())
}

// mapOf: content is a map filled by one complete pass over the map src, with one entry per entry of src
func (c *C) mapOf(s *State, content, src *Term, val func(facts *Facts, k, v *Term) bool) string {
	for content.Op == ORef {
		content = content.A[0]
	}
	lt := c.in.loops[content.S]
	if content.Op != OTok || lt == nil {
		return "it is not filled from the other directory"
	}
	for _, i := range lt.inits {
		if i.Op != OZero {
			return "it does not start empty"
		}
	}
	if len(lt.backs) == 0 {
		return "it is not filled"
	}
	for _, b := range lt.backs {
		v := b.val
		if v.Op != OMapUpd || v.A[0] != content {
			return "an entry can be left out"
		}
		k := stripConv(v.A[1])
		if !c.ranges(s, k, src) {
			return "an entry is not filed under its owner"
		}
		if !val(b.facts, k, v.A[2]) {
			return "an entry does not hold its owner's key"
		}
	}
	for _, fa := range s.foralls {
		if strings.HasPrefix(content.S, fa.loop+":") {
			return ""
		}
	}
	return "the pass can end early"
}

// ranges: k takes every key of src as its value in turn
func (c *C) ranges(s *State, k, src *Term) bool {
	if k.Op == OMapKey {
		return sameTerm(s, k.A[0], src)
	}
	if k.Op != OIndex {
		return false
	}
	list := k.A[0]
	for list.Op == OState && isSort(list.S) {
		list = list.A[0]
	}

	if !fullRange(c.in, k.A[1], list) {
		return false
	}
	lt := c.in.loops[list.S]
	if list.Op != OTok || lt == nil || len(lt.backs) == 0 {
		return false
	}
	for _, i := range lt.inits {
		if mkLen(i) != tInt(0) && i != tNil {
			return false
		}
	}
	for _, b := range lt.backs {
		v := b.val
		if v.Op != OAppend || v.A[0] != list || len(v.A) != 2 {
			return false
		}
		if e := stripConv(v.A[1]); e.Op != OMapKey || !sameTerm(s, e.A[0], src) {
			return false
		}
	}
	for _, fa := range s.foralls {
		if strings.HasPrefix(list.S, fa.loop+":") {
			return true
		}
	}
	return false
}

// entry: v is the value of the entry of src that k is the key of
func entryAt(s *State, v, src, k *Term) bool {
	v = stripRef(stripConv(v))
	return (v.Op == OLookup && sameTerm(s, v.A[0], src) && v.A[1] == k) || (v.Op == OMapVal && sameTerm(s, v.A[0], src) && v.N == k.N)
}

func nilIn(f *Facts, t *Term) bool {
	v, ok := f.decide(mkEq(t, tNil))
	return ok && v
}

// converted: what is wrong with struct value got as the counterpart of src (get reads a field of src); "" if nothing
func (c *C) converted(s *State, got *Term, get func(string) *Term, names []string, decode bool) map[string]string {
	bad := map[string]string{}
	for _, n := range names {
		g, w := fld(got, n), get(n)
		if g == nil || w == nil {
			bad[n] = "it does not exist"
			continue
		}
		c.oblig()
		switch n {
		case "ThresholdPublicMap":
			why := c.mapOf(s, g, w, func(f *Facts, k, v *Term) bool {
				v = stripRef(stripConv(v))
				if decode {
					return v.Op == OOut && v.N == 0 && strings.HasSuffix(v.A[0].S, "PublicKey).Deserialize") && entryAt(s, v.A[0].A[len(v.A[0].A)-1], w, k) && nilIn(f, v.A[0])
				}
				return v.Op == OCall && strings.HasSuffix(v.S, "PublicKey).Serialize") && entryAt(s, v.A[len(v.A)-1], w, k)
			})
			if why != "" {
				bad[n] = why
			}
		case "ThresholdSecretKey":
			v := stripRef(stripConv(s.canon(g)))
			ok := false
			if decode {
				ok = v.Op == OOut && v.N == 0 && strings.HasSuffix(v.A[0].S, "SecretKey).Deserialize") && sameTerm(s, v.A[0].A[len(v.A[0].A)-1], w) && nilIn(s.facts, v.A[0])
			} else {
				ok = v.Op == OCall && strings.HasSuffix(v.S, "SecretKey).Serialize") && keyArg(s, v.A[len(v.A)-1], w)
			}
			if !ok {
				bad[n] = "it is not the counterpart of the key on the other side"
			}
		default:
			if !sameTerm(s, stripConv(g), stripConv(w)) {
				bad[n] = "it is " + short(g)
			}
		}
	}
	return bad
}

// keyArg: a is (a pointer to) the value w
func keyArg(s *State, a, w *Term) bool {
	if sameTerm(s, stripRef(a), w) {
		return true
	}
	if a.Op == OFieldPtr && w.Op == OField && a.N == w.N {
		return sameTerm(s, w.A[0], mk(ODeref, "", 0, derefType(a.A[0].T), a.A[0])) || stripRef(w.A[0]) == a.A[0] || contains(w, a.A[0])
	}
	return false
}

var (
	fullFields   = []string{"Threshold", "N", "HashScheme", "SignScheme", "ThresholdScheme", "SelfID", "SignPublicMap", "SignSecretKey", "ThresholdPublicMap", "ThresholdSecretKey"}
	verifyFields = []string{"Threshold", "HashScheme", "SignScheme", "ThresholdScheme", "SelfID", "SignPublicMap", "ThresholdPublicMap"}
	basicFields  = []string{"HashScheme", "SignScheme", "SelfID", "SignPublicMap", "SignSecretKey"}
)

func p29(c *C) {
	c.rules = append(c.rules,
		"on every successful path of a conversion, each field of the result is the value of the field of the same name (public key directories: one complete pass filing every decoded key under its owner; secrets: the encoded or decoded secret)",
		"no path of the verify-only conversion puts anything into a secret-key field",
		"reading a configuration succeeds only if reading, JSON decoding and every key decoding succeeded",
		"the stored form has no field that JSON leaves out")
	type conv struct {
		fn     string
		fields []string
		decode bool
		read   bool
		noKey  bool
	}
	for _, k := range []conv{
		{"NewStoredCryptoConfig", fullFields, false, false, false},
		{"NewCryptoConfig", fullFields, true, false, false},
		{"NewVerifyOnlyCryptoConfig", verifyFields, true, false, true},
		{"NewBasicCryptoConfig", basicFields, true, false, false},
		{"ReadCryptoConfig", fullFields, true, true, false},
		{"ReadVerifyOnlyCryptoConfig", verifyFields, true, true, true},
		{"ReadBasicCryptoConfig", basicFields, true, true, false},
	} {
		f := c.p.fn("crypto", k.fn)
		if f == nil {
			c.missing("crypto." + k.fn)
			continue
		}
		in := c.interp(func(e *Event) {})
		args, ex := c.exits(in, f)
		at := f.Blocks[0].Instrs[0]
		for _, x := range ex {
			r := x.ret
			var err *Term
			if r != nil && r.Op == ORec && r.T == nil {
				r, err = r.A[0], x.s.canon(r.A[1])
			}
			r = in.snap(x.s, r)
			cfg := stripRef(r)
			if k.noKey {
				c.oblig()
				for _, n := range []string{"SignSecretKey", "ThresholdSecretKey"} {
					if cfg == tNil || cfg == nil {
						continue
					}
					if v := fld(cfg, n); v == nil || v.Op != OZero {
						c.fail("secret", k.fn+" "+n, at, x.s, "%s can return a configuration whose %s is set (%s)", k.fn, n, short(v))
					}
				}
			}
			if err != nil && err != tNil {
				if v, ok := x.s.facts.decide(mkEq(err, tNil)); !ok || v {
					err = nil
				} else {
					continue
				}
			}
			c.site("successful path", k.fn)
			get := func(n string) *Term {
				return in.load(x.s, mk(OFieldPtr, "", fieldIndex(derefType(args[0].T), n), types.NewPointer(fieldType(derefType(args[0].T), fieldIndex(derefType(args[0].T), n))), args[0]))
			}
			if k.read {
				// the decoded file
				var out *Term
				okJSON := false
				walk(cfg, func(t *Term) bool {
					if t.Op == OOut && hasPkg(t.A[0].S, "encoding/json") {
						out = t
						okJSON = okJSON || nilIn(x.s.facts, t.A[0])
					}
					return true
				})
				if out == nil {
					c.fail("read", k.fn, at, x.s, "%s can succeed with a configuration that is not the decoded file", k.fn)
					continue
				}
				c.oblig()
				if !okJSON {
					c.fail("read", k.fn+" json", at, x.s, "%s can succeed although the file could not be decoded", k.fn)
				}
				ot := c.p.typ("crypto", "StoredCryptoConfig")
				get = func(n string) *Term { return mkField(out, fieldIndex(ot, n), ot) }
			}
			for n, why := range c.converted(x.s, cfg, get, k.fields, k.decode) {
				c.fail("field", k.fn+" "+n, at, x.s, "%s does not preserve %s: %s", k.fn, n, why)
			}
		}
		if !c.inst["successful path"][k.fn] {
			c.missing("a successful path of crypto." + k.fn)
		}
	}
	// the file form
	if t := c.p.typ("crypto", "StoredCryptoConfig"); t != nil {
		st := structOf(t)
		seen := map[string]bool{}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			tag := reflect.StructTag(st.Tag(i)).Get("json")
			name := strings.Split(tag, ",")[0]
			if name == "" {
				name = f.Name()
			}
			c.oblig()
			if !f.Exported() || name == "-" || seen[strings.ToLower(name)] {
				c.fail("json", f.Name(), nil, nil, "field %s of crypto.StoredCryptoConfig is not kept by JSON", f.Name())
			}
			seen[strings.ToLower(name)] = true
		}
	} else {
		c.missing("crypto.StoredCryptoConfig")
	}
	// files written
	if f := c.p.fn("crypto", "SaveCryptoFiles"); f != nil {
		conv := c.p.fn("crypto", "NewStoredCryptoConfig")
		in := c.interp(func(e *Event) {
			if e.Kind != "call" || !isFileWrite(e.Name) {
				return
			}
			for _, a := range e.Snap {
				for _, m := range marshalled(a) {
					if conv != nil && m.Op == ODeref && m.A[0].Op == OCall && m.A[0].S == conv.RelString(nil) {
						c.site("configuration written", shortFn(e.Fn))
						c.oblig()
						x := noIndex(stripRef(m.A[0].A[0]))
						if x.Op != OIndex || !strings.HasPrefix(x.A[0].S, "arg1:") {
							c.fail("field", "SaveCryptoFiles", e.Instr, e.S, "the configuration written is not one of those given")
						}
						continue
					}
					if m.T == nil || !isNamed(m.T, "StoredCryptoConfig") {
						continue
					}
					id := fld(m, "SelfID")
					if id == nil || id.Op != OField {
						c.fail("field", "SaveCryptoFiles SelfID", e.Instr, e.S, "the configuration written is not one of those given")
						continue
					}
					src := id.A[0]
					c.site("configuration written", shortFn(e.Fn))
					get := func(n string) *Term { return mkField(src, fieldIndex(src.T, n), src.T) }
					for n, why := range c.converted(e.S, m, get, fullFields, false) {
						c.fail("field", "SaveCryptoFiles "+n, e.Instr, e.S, "the file written does not preserve %s: %s", n, why)
					}
				}
			}
		})
		if conv != nil {
			in.opaque[conv.RelString(nil)] = true
		}
		c.exits(in, f)
		c.need("configuration written", 1)
	} else {
		c.missing("crypto.SaveCryptoFiles")
	}
}

func hasPkg(name, pkg string) bool { return strings.Contains(name, pkg+".") }

func init() { checks["P29"] = p29 }
