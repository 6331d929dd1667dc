package main

// P49: certificates keep their identity.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const parseFn = "github.com/jik18001/CTngV2/CA.ParseCTngextension"

func isOID(t *Term) bool {
	return strings.HasSuffix(stripConv(t).String(), "global:github.com/jik18001/CTngV2/CA.OIDCTngExtension")
}

// ctngIn: the CTng information whose encoded form t is (as asn1(json(info)))
func ctngIn(t *Term) *Term {
	t = stripConv(t)
	if t == nil || t.Op != OExtract || t.N != 0 || !strings.HasSuffix(callName(t.A[0]), "asn1.Marshal") {
		return nil
	}
	raw := t.A[0].A[0]
	if raw.Op == OIface {
		raw = raw.A[0]
	}
	if tag := fld(raw, "Tag"); tag != tInt(4) {
		return nil
	}
	if fld(raw, "FullBytes") != tNil {
		return nil
	}
	b := fld(raw, "Bytes")
	if b == nil || b.Op != OExtract || b.N != 0 || !strings.HasSuffix(callName(b.A[0]), "json.Marshal") {
		return nil
	}
	x := b.A[0].A[0]
	if x.Op == OIface {
		x = x.A[0]
	}
	return stripRef(x)
}

// ctngOf: the encoded form that t is the decoded CTng information of
func ctngOf(t *Term) *Term {
	if t == nil || t.Op != OOut || !strings.HasSuffix(callName(t.A[0]), "json.Unmarshal") {
		return nil
	}
	b := stripConv(t.A[0].A[0])
	if b.Op != OField || fieldName(b.A[0].T, b.N) != "Bytes" || b.A[0].Op != OOut || !strings.HasSuffix(callName(b.A[0].A[0]), "asn1.Unmarshal") {
		return nil
	}
	return b.A[0].A[0].A[0]
}

// matches: the extension that x is the value of is known (not) to be the CTng extension
func isExtEqual(a *Term) (ext *Term) {
	if !strings.HasSuffix(callName(a), "ObjectIdentifier).Equal") || len(a.A) != 2 {
		return nil
	}
	for k := 0; k < 2; k++ {
		x := stripConv(a.A[k])
		if isOID(a.A[1-k]) && x.Op == OField && fieldName(x.A[0].T, x.N) == "Id" {
			return x.A[0]
		}
	}
	return nil
}

func knownExt(f *Facts, ext *Term, want bool) bool {
	for a, p := range f.at {
		if p == want {
			if x := isExtEqual(a); x != nil && x == ext {
				return true
			}
		}
	}
	return false
}

func p49(c *C) {
	c.rules = append(c.rules,
		"encoding and decoding of the CTng extension are inverse, and its structure survives JSON: every field is exported and named differently",
		"parsing a certificate returns the decoded value of the extension with the CTng identifier (a complete pass over the extensions unless found); the revocation number of a certificate is the one in it",
		"the pooled form of a certificate keeps subject, key, key id, issuer, serial number and validity, and its one extension holds the parsed revocation number and no logger information; updating it keeps the number and the logger information it has; revoking a number sets that bit",
		"every certificate a running CA creates carries exactly one CTng extension with a revocation number that is the value of the certificate counter, which is advanced by one for each and never changed otherwise; its subject is a constant and the number; its key is one generated for this subject; it is signed with the CA's key under the CA's root")
	fn := func(name string) *ssa.Function {
		f := c.p.fn("CA", name)
		if f == nil {
			c.missing("CA." + name)
		}
		return f
	}
	enc, dec, parse, rid, pre, upd, sig, rev := fn("EncodeCTngExtension"), fn("DecodeCTngExtension"), fn("ParseCTngextension"), fn("GetRIDfromCert"), fn("GetPrecertfromCert"), fn("UpdateCTngExtension"), fn("UpdateforSigning"), fn("CRV.Revoke")
	for _, f := range []*ssa.Function{enc, dec, parse, rid, pre, upd, sig, rev} {
		if f == nil {
			return
		}
	}
	at := func(f *ssa.Function) ssa.Instruction { return f.Blocks[0].Instrs[0] }
	run := func(f *ssa.Function, opaque bool, obs func(e *Event, args []*Term)) ([]*Term, []Exit) {
		var args []*Term
		var in *Interp
		in = c.interp(func(e *Event) {
			if obs != nil {
				obs(e, args)
			}
		})
		in.keepFact = func(a *Term) bool { return true }
		if opaque {
			in.opaque[parseFn] = true
		}
		for i, p := range f.Params {
			args = append(args, tSym("arg"+itoa(i)+":"+shortFn(f), p.Type()))
		}
		return args, c.run(in, f, args, newState())
	}
	parsed := func(t, cert *Term) bool { // t is the parsed information of cert
		t = stripRef(t)
		return callName(t) == parseFn && len(t.A) == 1 && stripRef(t.A[0]) == stripRef(cert)
	}

	// encoding and decoding
	args, exits := run(enc, false, nil)
	for _, x := range exits {
		c.oblig()
		c.site("codec", "encode")
		if y := ctngIn(x.ret); y == nil || y != args[0] {
			c.fail("encoding", "EncodeCTngExtension", at(enc), x.s, "the encoded extension is not the octet string of the information's JSON form")
		}
	}
	args, exits = run(dec, false, nil)
	for _, x := range exits {
		c.oblig()
		c.site("codec", "decode")
		if y := ctngOf(x.ret); y == nil || y != args[0] {
			c.fail("decoding", "DecodeCTngExtension", at(dec), x.s, "the decoded information is not what the JSON form in the octet string holds")
		}
	}
	if t := c.p.typ("CA", "CTngExtension"); t != nil {
		c.oblig()
		c.jsonSafe(t, "CTngExtension", map[types.Type]bool{}, at(enc))
	}

	// parsing
	args, exits = run(parse, false, nil)
	for _, x := range exits {
		c.oblig()
		c.site("parsed", "extension")
		if why := c.parsedFrom(x.ret, x.s, args[0], map[*Term]bool{}); why != "" {
			c.fail("parsing", "ParseCTngextension", at(parse), x.s, "the result is not the decoded CTng extension of the certificate: %s", why)
		}
	}
	args, exits = run(rid, true, nil)
	for _, x := range exits {
		c.oblig()
		c.site("number", "read")
		r := x.ret
		if !(r.Op == OField && fieldName(r.A[0].T, r.N) == "RID" && r.A[0].Op == OField && fieldName(r.A[0].A[0].T, r.A[0].N) == "SequenceNumber" && parsed(r.A[0].A[0], args[0])) {
			c.fail("number", "GetRIDfromCert", at(rid), x.s, "the revocation number is not the one in the certificate's CTng extension")
		}
	}

	// pooled form
	args, exits = run(pre, true, nil)
	for _, x := range exits {
		c.oblig()
		c.site("pooled form", "made")
		if why := c.pooledForm(x.s, x.ret, args[0], parsed); why != "" {
			c.fail("pooled-form", "GetPrecertfromCert", at(pre), x.s, "%s", why)
		}
	}
	// update
	obs := func(e *Event, args []*Term) {
		if e.Kind != "store" || len(args) < 1 || c.muted() {
			return
		}
		s := e.S
		r := e.Addr
		for r.Op == OFieldPtr || r.Op == OIndexPtr {
			r = r.A[0]
		}
		if !contains(r, args[0]) {
			return
		}
		c.oblig()
		v := c.in.snap(s, e.Val)
		info := ctngIn(v)
		ok := e.Addr.Op == OFieldPtr && fieldName(derefType(e.Addr.A[0].T), e.Addr.N) == "Value" && info != nil
		if ok {
			ext := c.in.load(s, e.Addr.A[0])
			ok = knownExt(s.facts, ext, true) || c.samePlace(s.facts, e.Addr.A[0])
		}
		if ok {
			c.site("updated", "extension")
			l := fld(info, "LoggerInformation")
			n := fld(info, "SequenceNumber")
			ok = n.Op == OField && parsed(n.A[0], args[0]) && l.Op == OAppend && len(l.A) == 2 && stripRef(l.A[1]) == args[1] &&
				l.A[0].Op == OField && fieldName(l.A[0].A[0].T, l.A[0].N) == "LoggerInformation" && parsed(l.A[0].A[0], args[0])
		}
		if !ok {
			c.fail("update", "UpdateCTngExtension", e.Instr, s, "something other than the CTng extension with the same number and the new logger information appended is written into the certificate")
		}
	}
	args, exits = run(upd, true, obs)
	for _, x := range exits {
		c.oblig()
		if stripRef(x.ret) != args[0] {
			c.fail("update", "UpdateCTngExtension", at(upd), x.s, "the certificate handed back is another one")
		}
	}
	args, exits = run(sig, true, func(e *Event, args []*Term) {
		if e.Kind != "store" || e.Addr.Op != OFieldPtr || e.Addr.A[0] != args[0] || c.muted() {
			return
		}
		c.oblig()
		l := c.in.snap(e.S, e.Val)
		if fieldName(derefType(args[0].T), e.Addr.N) == "ExtraExtensions" && l.Op == OAppend && len(l.A) == 2 {
			x := stripRef(l.A[1])
			if info := ctngIn(fld(x, "Value")); info != nil && isOID(fld(x, "Id")) && parsed(info, args[0]) {
				c.site("for signing", "made")
				e.S.mark("prepared", tNil)
				return
			}
		}
		c.fail("for-signing", "UpdateforSigning", e.Instr, e.S, "something other than the certificate's own CTng information is given to be signed")
	})
	for _, x := range exits {
		c.oblig()
		if stripRef(x.ret) != args[0] || !x.s.hasMark("prepared", tNil) {
			c.fail("for-signing", "UpdateforSigning", at(sig), x.s, "the certificate is not given its own CTng information to be signed")
		}
	}
	// revocation by number
	args, exits = run(rev, false, func(e *Event, args []*Term) {
		if e.Kind == "call" && strings.HasSuffix(e.Name, "bitset.BitSet).Set") && !c.muted() {
			c.oblig()
			if stripConv(e.Snap[1]) == args[1] && stripRef(e.Snap[0]) == fld(args[0], "CRV_current") {
				e.S.mark("revoked", tNil)
				c.site("revoked", "number")
			} else {
				c.fail("revoke", "Revoke", e.Instr, e.S, "another bit or vector is changed")
			}
		}
	})
	for _, x := range exits {
		c.oblig()
		if !x.s.hasMark("revoked", tNil) {
			c.fail("revoke", "Revoke", at(rev), x.s, "the bit of the number may not be set")
		}
	}
	c.p49create()
	c.need("codec", 2)
	c.need("parsed", 1)
	c.need("updated", 1)
}

// samePlace: a fact says that the extension at this position of the certificate is the CTng extension
func (c *C) samePlace(f *Facts, ptr *Term) bool {
	if ptr.Op != OIndexPtr {
		return false
	}
	for a, p := range f.at {
		if x := isExtEqual(a); p && x != nil && x.Op == OIndex && x.A[1] == ptr.A[1] {
			return true
		}
	}
	return false
}

// parsedFrom: v is the decoded CTng extension of cert, or nothing after none was found
func (c *C) parsedFrom(v *Term, s *State, cert *Term, seen map[*Term]bool) string {
	extOf := func(x *Term) bool {
		return x.Op == OIndex && x.A[0] == fld(cert, "Extensions")
	}
	isZero := func(v *Term) bool {
		ok := v.Op == OZero || v == tNil
		if v.Op == ORec {
			ok = true
			for i := range v.A {
				f := mkField(v, i, v.T)
				ok = ok && (f == tNil || f.Op == OZero || f == tInt(0) || f.Op == ORec)
			}
		}
		return ok
	}
	decoded := func(v *Term, f *Facts) bool {
		b := ctngOf(v)
		return b != nil && b.Op == OField && fieldName(b.A[0].T, b.N) == "Value" && extOf(b.A[0]) && knownExt(f, b.A[0], true)
	}
	none := func() bool { // a complete pass found no CTng extension
		for _, fa := range s.foralls {
			if strings.HasPrefix(fa.loop, "exists:") {
				continue
			}
			for a, p := range fa.facts.at {
				if x := isExtEqual(a); x != nil && !p && extOf(x) && fullRange(c.in, x.A[1], x.A[0]) {
					return true
				}
			}
		}
		return s.known(mkEq(mkLen(fld(cert, "Extensions")), tInt(0)))
	}
	v = stripRef(v)
	if decoded(v, s.facts) {
		return ""
	}
	if isZero(v) {
		if none() {
			return ""
		}
		return "it can be empty although the extension is there"
	}
	lt := c.in.loops[v.S]
	if v.Op != OTok || lt == nil {
		return "it is " + short(v)
	}
	for _, i := range lt.inits {
		if !isZero(stripRef(i)) {
			return "it does not start empty"
		}
	}
	n := 0
	for _, b := range lt.backs {
		w := stripRef(b.val)
		if w == v {
			skip := false
			for a, p := range b.facts.at {
				x := isExtEqual(a)
				skip = skip || x != nil && !p && extOf(x) && fullRange(c.in, x.A[1], x.A[0])
			}
			if !skip {
				return "the CTng extension can be passed over"
			}
			continue
		}
		if !decoded(w, b.facts) {
			return "it can be taken from something else"
		}
		n++
	}
	for _, fa := range s.foralls {
		if strings.HasPrefix(v.S, fa.loop+":") {
			return ""
		}
	}
	return "the pass over the extensions can end early"
}

// pooledForm: what is wrong with p as the pooled form of cert
func (c *C) pooledForm(s *State, p, cert *Term, parsed func(t, cert *Term) bool) string {
	p = c.in.snap(s, p)
	for _, n := range []string{"Subject", "RawSubject", "SubjectKeyId", "PublicKey", "Issuer", "SerialNumber", "NotBefore", "NotAfter", "KeyUsage", "ExtKeyUsage", "BasicConstraintsValid", "IsCA"} {
		if f := fld(p, n); f == nil || f != fld(cert, n) {
			return "the pooled form of a certificate has another " + n
		}
	}
	l := fld(p, "Extensions")
	if mkLen(l) != tInt(1) {
		return "the pooled form does not have exactly the CTng extension"
	}
	e := stripRef(mkIndex(l, tInt(0), nil))
	info := ctngIn(fld(e, "Value"))
	if !isOID(fld(e, "Id")) || info == nil {
		return "the pooled form does not have exactly the CTng extension"
	}
	n := fld(info, "SequenceNumber")
	if n == nil || n.Op != OField || fieldName(n.A[0].T, n.N) != "SequenceNumber" || !parsed(n.A[0], cert) {
		return "the pooled form has another revocation number"
	}
	if mkLen(fld(info, "LoggerInformation")) != tInt(0) {
		return "the pooled form has logger information from the start"
	}
	return ""
}

// jsonSafe: everything in t is written and read back under a name of its own
func (c *C) jsonSafe(t types.Type, path string, seen map[types.Type]bool, at ssa.Instruction) {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		c.jsonSafe(u.Elem(), path, seen, at)
	case *types.Array:
		c.jsonSafe(u.Elem(), path, seen, at)
	case *types.Pointer:
		c.jsonSafe(u.Elem(), path, seen, at)
	case *types.Struct:
		if seen[t] {
			return
		}
		seen[t] = true
		names := map[string]bool{}
		for i := 0; i < u.NumFields(); i++ {
			n := strings.ToLower(jsonName(u, i))
			if n == "" || n == "-" || !u.Field(i).Exported() || names[n] {
				c.fail("json", path+"."+u.Field(i).Name(), at, nil, "field %s.%s does not survive the JSON form", path, u.Field(i).Name())
			}
			names[n] = true
			c.jsonSafe(u.Field(i).Type(), path+"."+u.Field(i).Name(), seen, at)
		}
	}
}

// p49create: the certificates a running CA creates
func (c *C) p49create() {
	const counter = "CAContext.CertCounter"
	var in *Interp
	var at *Term // where the counter is
	bad := func(kind, key string, e *Event, f string, a ...interface{}) {
		if !c.muted() {
			c.fail(kind, key, e.Instr, e.S, f, a...)
		}
	}
	// numbered: the number that the text t ends in or contains, the rest being constant
	numbered := func(t *Term) *Term {
		if t == nil {
			return nil
		}
		vars, _ := concatParts(t)
		if len(vars) != 1 {
			return nil
		}
		switch x := vars[0]; {
		case x.Op != OCall:
			return nil
		case x.S == "fmt.Sprintf:%v", x.S == "fmt.Sprintf:%d", x.S == "strconv.Itoa", x.S == "strconv.FormatInt", strings.HasPrefix(x.S, "fmt.Sprintf:%0") && strings.HasSuffix(x.S, "d"):
			n := x.A[0]
			if n.Op == OIface {
				n = n.A[0]
			}
			return stripConv(n)
		}
		return nil
	}
	genKey := func(t *Term) (r *Term) {
		walk(t, func(x *Term) bool {
			if r == nil && x.Op == OCall && strings.HasPrefix(x.S, "crypto/rsa.Generate") {
				r = x
			}
			return r == nil
		})
		return r
	}
	content := func(s *State, t *Term) *Term {
		t = stripRef(t)
		if t.Op == OAddr || t.Op == OFieldPtr && rootIsLocal(t) {
			t = in.load(s, t)
		}
		return in.snap(s, t)
	}
	in = c.interp(func(e *Event) {
		s := e.S
		switch e.Kind {
		case "load":
			if e.Addr != nil && e.Addr.Op == OFieldPtr && pathOf(e.Addr) == counter {
				at = e.Addr
			}
		case "store":
			if pathOf(e.Addr) != counter {
				return
			}
			if !c.muted() {
				c.oblig()
				c.site("counter", in.threadName())
			}
			old := in.load(s, e.Addr)
			s.unmark(func(m Mark) bool { return m.K == "fresh" })
			if e.Val != mkBin("+", old, tInt(1), old.T) {
				bad("counter", "CertCounter", e, "the certificate counter is changed otherwise than by adding one")
				return
			}
			n := len(s.obls)
			s.discharge(func(m Mark) bool { return m.K == "advance" })
			if len(s.obls) == n {
				s.mark("fresh", old)
			}
		case "mapupd":
			if e.Val == nil || e.Val.T == nil {
				return
			}
			what := ""
			if t := derefType(e.Val.T); t != nil && isNamed(t, "PublicKey") {
				what = "public"
			} else if t != nil && isNamed(t, "PrivateKey") {
				what = "private"
			} else {
				return
			}
			k := genKey(content(s, e.Val))
			if k == nil || !s.hasMark(what, k) {
				bad("shared-key", what, e, "a %s key that was not generated for this subject alone is filed", what)
				return
			}
			s.unmark(func(m Mark) bool { return m.K == what && m.T == k })
		case "call":
			if strings.HasPrefix(e.Name, "crypto/rsa.Generate") && e.Val != nil {
				s.mark("public", e.Val)
				s.mark("private", e.Val)
			}
			if !strings.HasSuffix(e.Name, "x509.CreateCertificate") {
				return
			}
			if !c.muted() {
				c.oblig()
				c.site("created", in.threadName())
			}
			t := in.snap(s, e.Snap[1])
			// the number
			l := fld(t, "ExtraExtensions")
			var info *Term
			if l != nil && mkLen(l) == tInt(1) {
				x := stripRef(mkIndex(l, tInt(0), nil))
				if isOID(fld(x, "Id")) {
					info = ctngIn(fld(x, "Value"))
				}
			}
			if info == nil {
				bad("no-number", "CreateCertificate", e, "a certificate is created without exactly one CTng extension")
				return
			}
			x := fld(fld(info, "SequenceNumber"), "RID")
			pending := false
			for _, m := range s.obls {
				pending = pending || m.K == "advance"
			}
			switch {
			case pending:
				bad("number", "CreateCertificate", e, "a certificate is created before the counter was advanced for the previous one")
			case s.hasMark("fresh", x):
				s.unmark(func(m Mark) bool { return m.K == "fresh" })
			case at != nil && in.load(s, at) == x:
				s.oblige("advance", x)
			default:
				bad("number", "CreateCertificate", e, "the revocation number of a certificate is not one that the counter was advanced past for it alone")
			}
			// the subject
			sub := fld(t, "Subject")
			n := numbered(fld(sub, "CommonName"))
			ok := n != nil && n == x
			if sub != nil && sub.Op == OIndex && in.loops[sub.A[0].S] != nil {
				lt := in.loops[sub.A[0].S]
				ok = len(lt.backs) > 0 || c.muted()
				for _, b := range lt.backs {
					v := b.val
					if v.Op != OUpd && v.Op != OAppend || v.A[0] != sub.A[0] {
						ok = false
						continue
					}
					var idx *Term
					if v.Op == OUpd {
						idx = v.A[1]
					}
					n := numbered(fld(v.A[len(v.A)-1], "CommonName"))
					if n == nil {
						ok = false
						continue
					}
					// the counter's value at the start plus the position
					a, b := n, tInt(0)
					if n.Op == OBin && n.S == "+" {
						a, b = n.A[0], n.A[1]
						if pathOf(a) != counter {
							a, b = b, a
						}
					}
					ok = ok && pathOf(a) == counter && (idx != nil && b == idx || idx == nil && countsFromZero(in, b))
				}
			}
			if !ok && !c.muted() {
				bad("subject", "CreateCertificate", e, "the subject of a certificate is not a constant and its number (%s)", short(fld(sub, "CommonName")))
			}
			// the key
			pub := e.Snap[3]
			switch y := stripRef(pub); {
			case y.Op == OLookup:
				if !sameTerm(s, stripConv(y.A[1]), fld(sub, "CommonName")) {
					bad("key", "CreateCertificate", e, "a certificate is created for the key of another subject")
				}
			default:
				k := genKey(content(s, pub))
				if k == nil || !s.hasMark("public", k) {
					bad("key", "CreateCertificate", e, "a certificate is created for a key that was not generated for it")
				}
				s.unmark(func(m Mark) bool { return m.K == "public" && m.T == k })
			}
			if id := fld(t, "SubjectKeyId"); id == nil || !contains(id, stripRef(pub)) && !contains(id, pub) {
				bad("label", "CreateCertificate", e, "the key id of a certificate does not depend on its key")
			}
			// the issuer
			if pathOf(e.Snap[2]) != "CAContext.Rootcert" {
				bad("issuer", "CreateCertificate", e, "a certificate is issued under something other than the CA's root")
			}
			if p := pathOf(e.Snap[4]); p != "CAContext.PrivateKey" && p != "CAContext.CA_crypto_config.SignSecretKey" {
				bad("issuer", "CreateCertificate", e, "a certificate is signed with something other than the CA's key")
			}
		case "exit":
			if c.muted() || e.Mode == "" {
				return
			}
			for _, m := range s.obls {
				if m.K == "advance" {
					bad("number", "CreateCertificate", e, "the counter may not be advanced after a certificate was created")
				}
			}
		}
	})
	in.keepFact = func(a *Term) bool { return true }
	c.serverRun(in, "CA")
	c.need("created", 1)
	c.need("counter", 1)
}

// countsFromZero: the counter of a loop that starts at zero
func countsFromZero(in *Interp, t *Term) bool {
	lt := in.loops[t.S]
	if t.Op != OTok || lt == nil || len(lt.inits) == 0 || len(lt.backs) == 0 {
		return false
	}
	for _, i := range lt.inits {
		if i != tInt(0) {
			return false
		}
	}
	for _, b := range lt.backs {
		if b.val != mkBin("+", t, tInt(1), t.T) {
			return false
		}
	}
	return true
}

func init() { checks["P49"] = p49 }
