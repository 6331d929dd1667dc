package main

// Rules for loggers and CAs: P25-P27.

import (
	"go/types"
	"strings"
)

const lPool = "LoggerContext.CurrentPrecertPool"

// fld: the named field of the struct (or pointer to a struct) t
func fld(t *Term, name string) *Term {
	t = stripRef(t)
	if t == nil || t.T == nil {
		return nil
	}
	if d := derefType(t.T); d != nil {
		t = mk(ODeref, "", 0, d, t)
	}
	i := fieldIndex(t.T, name)
	if i < 0 {
		return nil
	}
	return mkField(t, i, t.T)
}

// certField: the named field of the certificate (or pointer to a certificate) t
func certField(t *Term, name string) *Term {
	if t = stripRef(t); t.T == nil || !isNamed(t.T, "Certificate") {
		return nil
	}
	return fld(t, name)
}

// certSource: the certificate whose field `name` is the one of t (t itself unless t was copied field by field)
func certSource(t *Term, name string) *Term {
	f := certField(t, name)
	if f == nil {
		return nil
	}
	if f.Op == OField && fieldName(f.A[0].T, f.N) == name && isNamed(f.A[0].T, "Certificate") {
		return f.A[0]
	}
	return nil
}

func p25(c *C) {
	c.rules = append(c.rules,
		"a certificate is put into the logger's pool only on a path where the common name of its issuer is known to equal an entry of the logger's CA list, and an RSA verification of the certificate's signature over its to-be-signed content succeeded with the key filed under that issuer in the logger's own key directory (known to be present)",
		"the pooled entry takes subject, subject key id and issuer from the certificate that was verified; pooled entries are not altered in place; the pool is replaced only by an empty one")
	n := 0
	in := c.interp(func(e *Event) {
		if e.Kind != "store" || !strings.HasPrefix(pathOf(e.Addr), lPool) {
			return
		}
		s := e.S
		p := pathOf(e.Addr)
		v := c.in.snap(s, e.Val)
		var added []*Term
		switch p {
		case lPool:
			c.oblig()
			l := fld(v, "certs")
			for l != nil && l.Op == OAppend {
				added = append(added, l.A[1:]...)
				l = l.A[0]
			}
			if l == nil || pathOf(l) != lPool+".certs" && !freshList(l) {
				c.fail("pool-replaced", "pool", e.Instr, s, "the logger's pool is replaced by one that is not known to be empty")
			}
			c.site("pool", "replaced")
		case lPool + ".certs":
			l := v
			for l.Op == OAppend {
				added = append(added, l.A[1:]...)
				l = l.A[0]
			}
			if l != tNil && pathOf(l) != p && !freshList(l) {
				c.oblig()
				c.fail("pool-replaced", "list", e.Instr, s, "the logger's list of pre-certificates is replaced by a list of unknown origin")
			}
		case lPool + ".certs[]":
			added = append(added, v)
		default:
			if strings.HasPrefix(p, lPool+".certs[]") {
				c.oblig()
				c.fail("pooled-altered", p, e.Instr, s, "a pooled pre-certificate is altered")
			}
			return
		}
		for _, x := range added {
			n++
			c.oblig()
			c.site("insertion", "into "+p)
			src := certSource(x, "RawSubject")
			if src == nil {
				c.fail("unknown-cert", p, e.Instr, s, "the subject of a pooled pre-certificate is not the one of a received certificate")
				continue
			}
			for _, f := range []string{"SubjectKeyId", "Issuer"} {
				if y := certSource(x, f); y == nil || !sameTerm(s, y, src) {
					c.fail("mixed-cert", f, e.Instr, s, "field %s of a pooled pre-certificate is not taken from the certificate its subject comes from", f)
				}
			}
			iss := fld(certField(src, "Issuer"), "CommonName")
			if !memberOf(s, iss, "LoggerContext.Logger_private_config.CAlist") {
				c.fail("issuer-not-served", p, e.Instr, s, "a pre-certificate is pooled although its issuer is not known to be in the logger's list of CAs")
			}
			ok := false
			why := "no signature check"
			for _, k := range sigChecks(s) {
				if k.kind != "rsa" {
					continue
				}
				switch {
				case k.key.Op != OLookup || pathOf(k.key.A[0]) != "LoggerContext.Logger_crypto_config.SignPublicMap" || !sameTerm(s, stripConv(k.key.A[1]), iss):
					why = "the key is not the one filed under its issuer in the logger's key configuration"
				case !hasKey(s, k.key):
					why = "its issuer is not known to have a key in the logger's key configuration"
				case !carries(s, k.msg, certField(src, "RawTBSCertificate")):
					why = "the check does not cover the content of the certificate"
				case !sameTerm(s, k.sig, certField(src, "Signature")):
					why = "the signature checked is not the one of the certificate"
				default:
					ok = true
				}
			}
			if !ok {
				c.fail("unverified-cert", p, e.Instr, s, "a pre-certificate is pooled although the signature of its issuer over it is not known to be valid: %s", why)
			}
		}
	})
	in.keepFact = func(a *Term) bool { return true }
	in.pin = func(a *Term) bool {
		x, ok := eqNil(a)
		return ok && x.Op == OCall && strings.HasPrefix(x.S, "crypto/rsa.Verify")
	}
	c.serverRun(in, "Logger")
	if n == 0 {
		c.missing("insertion into the logger's pool of pre-certificates")
	}
}

// freshList: a list allocated here with nothing in it
func freshList(t *Term) bool {
	switch t.Op {
	case OMakeArr:
		return len(t.A) > 0 && t.A[0] == tInt(0)
	case OSlice:
		return t.A[1] == t.A[2] && t.A[1] != tNone || t.A[2] == tInt(0) || freshList(t.A[0])
	case OArr:
		return len(t.A) == 0
	}
	return t == tNil
}

// hasKey: the looked-up entry is known to be present
func hasKey(s *State, t *Term) bool {
	for a, p := range s.facts.at {
		if p && a.Op == OLookupOk && sameTerm(s, a.A[0], t.A[0]) && sameTerm(s, a.A[1], t.A[1]) {
			return true
		}
	}
	return false
}

func init() { checks["P25"] = p25 }

// lists: how lists are built, element by element
type lists struct {
	c       *C
	content map[*Term]*Term // what a local object held when its address was put into a list
}

func (l *lists) watch(e *Event) {
	if e.Kind != "append" && e.Kind != "store" || l.c.muted() {
		return
	}
	put := func(v *Term) {
		a := v
		for a.Op == OIface {
			a = a.A[0]
		}
		if a.Op != OAddr {
			return
		}
		if sharedVar(a, e.Instr) {
			l.content[a] = nil
		} else if _, ok := l.content[a]; !ok || l.content[a] != nil {
			l.content[a] = stripRef(l.c.in.snap(e.S, a))
		}
	}
	if e.Kind == "store" {
		if e.Addr.Op == OIndexPtr {
			put(e.Val)
		}
		return
	}
	v := e.Val
	if v.Op == OAddr || v.Op == OSlice {
		v = l.c.in.load(e.S, func() *Term {
			for v.Op == OSlice {
				v = v.A[0]
			}
			return v
		}())
	}
	if v != nil && v.Op == OArr {
		for _, x := range v.A {
			put(x)
		}
	} else if v != nil {
		put(v)
	}
}

// view: t was filled by a loop over src, position by position: t[i] = elem, where elem is about src[i]; off: the number of
// elements put in before the loop
type view struct{ src, idx, elem *Term }

func (l *lists) view(t *Term) *view {
	for t.Op == OSlice && (t.A[1] == tNone || t.A[1] == tInt(0)) && t.A[2] == tNone {
		t = t.A[0]
	}
	if t.Op != OTok {
		return nil
	}
	lt := l.c.in.loops[t.S]
	if lt == nil || len(lt.backs) == 0 {
		return nil
	}
	loop := t.S[:strings.LastIndex(t.S, ":")+1]
	var v *view
	made := false
	for _, b := range lt.backs {
		var el, at *Term
		switch {
		case b.val.Op == OUpd && b.val.A[0] == t:
			el, at, made = b.val.A[2], b.val.A[1], true
		case b.val.Op == OAppend && len(b.val.A) == 2 && b.val.A[0] == t:
			el = b.val.A[1]
		default:
			return nil
		}
		el = l.inside(el)
		if el == nil {
			return nil
		}
		w := &view{elem: el, idx: at}
		walk(el, func(x *Term) bool {
			if w.src == nil && x.Op == OIndex && (at == nil || x.A[1] == at) && ofLoop(x.A[1], loop) && fullRange(l.c.in, x.A[1], x.A[0]) {
				w.src, w.idx = x.A[0], x.A[1]
			}
			return true
		})
		if w.src == nil || v != nil && (v.src != w.src || v.elem != w.elem || v.idx != w.idx) {
			return nil
		}
		v = w
	}
	for _, i := range lt.inits {
		i = stripRef(i)
		if made && !(i.Op == OMakeArr && len(i.A) > 0 && i.A[0] == mkLen(v.src)) {
			return nil
		}
		if !made && !emptyList(l, i) {
			return nil
		}
	}
	return v
}

func emptyList(l *lists, i *Term) bool {
	return i == tNil || freshList(i) || mkLen(i) == tInt(0)
}

// ofLoop: the index is a counter of the loop
func ofLoop(i *Term, loop string) bool {
	b, _ := splitAdd(i)
	if b == nil {
		b = i
	}
	return b.Op == OTok && strings.HasPrefix(b.S, loop)
}

// inside: t with the addresses of objects replaced by their content; nil if that is unknown
func (l *lists) inside(t *Term) *Term {
	bad := false
	r := rewrite(t, func(x *Term) *Term {
		if x.Op == OAddr {
			if v, ok := l.content[x]; ok {
				if v == nil {
					bad = true
				}
				return v
			}
		}
		return nil
	}, map[*Term]*Term{})
	if bad {
		return nil
	}
	return r
}

// expand: t with every element of a list built by a loop replaced by what was put there
func (l *lists) expand(t *Term) *Term {
	for d := 0; d < 6; d++ {
		r := rewrite(t, func(x *Term) *Term {
			if x.Op == OIndex {
				if v := l.view(x.A[0]); v != nil {
					return rewrite(v.elem, func(y *Term) *Term {
						if y == v.idx {
							return x.A[1]
						}
						return nil
					}, map[*Term]*Term{})
				}
			}
			return nil
		}, map[*Term]*Term{})
		if r == t {
			break
		}
		t = r
	}
	return t
}

// chain: the lists t was built from element by element, t first; the i-th element of each is about the i-th of the next
func (l *lists) chain(t *Term) []*Term {
	var r []*Term
	for d := 0; d < 8 && t != nil; d++ {
		for t.Op == OSlice && (t.A[1] == tNone || t.A[1] == tInt(0)) && t.A[2] == tNone {
			t = t.A[0]
		}
		r = append(r, t)
		v := l.view(t)
		if v == nil {
			break
		}
		t = v.src
	}
	return r
}

// certOf: the certificate in a Merkle block
func certOf(t *Term) *Term {
	t = stripRef(t)
	if t.T != nil && isNamed(t.T, "Certblock") {
		t = fld(t, "Content")
	}
	return stripRef(t)
}

func unDeref(t *Term) *Term {
	t = stripRef(t)
	for t.Op == ODeref {
		t = stripRef(t.A[0])
	}
	return t
}

func p26(c *C) {
	c.rules = append(c.rules,
		"the tree head put into the logger's store of tree heads carries, in its signed payload, the root and the size of a Merkle tree whose blocks are, position by position, all certificates of the pool",
		"the pool is replaced under its lock; its certificates are read for the tree either after that or in the same critical section, and the thread that replaced it publishes the tree head before it ends",
		"what is hashed into a leaf of the tree contains the certificate's subject",
		"a proof is sent to a CA only on a path where it verified against the root of the tree for the certificate found under the subject key id it is labelled with; proof, label and issuer are those of the same position; the request goes to that issuer")
	g := c.goFields()
	l := &lists{c: c, content: map[*Term]*Term{}}
	type head struct {
		e *Event
		v *Term
		s *State
	}
	var heads, sends []head
	in := c.interp(func(e *Event) {
		s := e.S
		l.watch(e)
		switch e.Kind {
		case "mapupd":
			if pathOf(e.Addr) != "LoggerContext.STH_storage" {
				return
			}
			c.oblig()
			c.site("tree head", "published")
			s.discharge(func(m Mark) bool { return m.K == "publish" })
			s.mark("published", tNil)
			if !c.muted() {
				heads = append(heads, head{e, c.in.snap(s, e.Val), s.clone()})
			}
		case "load":
			if strings.HasPrefix(pathOf(e.Addr), lPool+".certs[]") && !s.hasMark("swapped", tNil) {
				sec := ""
				for _, k := range s.locks {
					if strings.HasSuffix(k.name, "CertPool_lock") {
						sec = k.sec
					}
				}
				s.oblige("poolread:"+sec, tNil)
			}
		case "store":
			if pathOf(e.Addr) != lPool {
				return
			}
			c.oblig()
			sec := ""
			for _, k := range s.locks {
				if strings.HasSuffix(k.name, "CertPool_lock") {
					sec = k.sec
				}
			}
			for _, m := range s.obls {
				if strings.HasPrefix(m.K, "poolread:") && (sec == "" || m.K != "poolread:"+sec) {
					c.fail("pool-lost", "pool", e.Instr, s, "the pool is replaced in another critical section than the one in which its certificates were read: pre-certificates that arrive in between are never logged")
				}
			}
			s.mark("swapped", tNil)
			if !s.hasMark("published", tNil) {
				s.oblige("publish", tNil)
			}
		case "exit":
			for _, m := range s.obls {
				if m.K == "publish" {
					c.fail("not-published", "pool", e.Instr, s, "the pool was replaced but no tree head over its certificates is published")
				}
			}
		case "call":
			b := sentBody(e)
			if b == nil || c.muted() {
				return
			}
			if _, txt := urlParts(e.Val0()); !strings.HasSuffix(strings.TrimSuffix(txt, "/"), "/CA/receive-poi") {
				return
			}
			c.oblig()
			c.site("proof", "sent")
			for _, o := range marshalled(b) {
				sends = append(sends, head{e, o, s.clone()})
			}
		}
	})
	in.keepFact = func(a *Term) bool { return true }
	in.pin = func(a *Term) bool { return callName(a) != "" || isNilCall(a) }
	c.serverRun(in, "Logger")
	c.in = in
	c.leafBinds()
	c.in = in
	trees := map[*Term]bool{}
	isPool := func(t *Term) bool { return pathOf(t) == lPool+".certs" }
	for _, h := range heads {
		fail := func(rule, f string, a ...any) { c.fail(rule, "tree head", h.e.Instr, h.s, f, a...) }
		var sth *Term
		walk(g.payload(h.v, 1), func(x *Term) bool {
			if sth == nil && x.T != nil && x.Op == ORec && isNamed(x.T, "STH") {
				sth = x
			}
			return sth == nil
		})
		if sth == nil || !carries(h.s, g.payload(h.v, 1), sth) {
			fail("no-head", "the second payload field of the published tree head is not an encoded STH made here")
			continue
		}
		root := fld(sth, "RootHash")
		var tree *Term
		walk(root, func(x *Term) bool {
			if x.Op == OCall && strings.HasSuffix(x.S, "go-merkletree.New") {
				tree = x
			}
			return tree == nil
		})
		if tree == nil || !carriesRoot(h.s, root, tree) {
			fail("no-root", "the root hash of the published tree head is not the root of a Merkle tree built here")
			continue
		}
		blocks := tree.A[len(tree.A)-1]
		ch := l.chain(blocks)
		if !isPool(ch[len(ch)-1]) {
			fail("not-all", "the tree is not known to be built over all certificates of the pool (list %s)", short(ch[len(ch)-1]))
			continue
		}
		j := tSym("position", nil)
		el := certOf(l.expand(mkIndex(blocks, j, nil)))
		if x := unDeref(el); x.Op != OIndex || !isPool(x.A[0]) || x.A[1] != j {
			fail("order", "the block at a position of the tree is not the certificate at the same position of the pool")
			continue
		}
		trees[tree] = true
		size := fld(sth, "TreeSize")
		ok := false
		for _, x := range ch {
			ok = ok || sameTerm(h.s, size, mkLen(x))
		}
		if !ok {
			fail("size", "the size in the published tree head is not the number of certificates of the pool")
		}
		if why := c.signedBy(h.s, g, h.v, "LoggerContext.PrivateKey", "LoggerContext.Logger_private_config.Signer"); why != "" {
			fail("unsigned", "the published tree head: %s", why)
		}
	}
	for _, h := range sends {
		fail := func(rule, f string, a ...any) { c.fail(rule, "proof", h.e.Instr, h.s, f, a...) }
		poi := l.expand(h.v)
		var cert, tree *Term
		if p := fld(poi, "Poi"); p != nil && p.Op == OIndex {
			walk(p.A[0], func(x *Term) bool {
				if x.Op == OCall && strings.HasSuffix(x.S, "go-merkletree.New") {
					tree = x
				}
				return tree == nil
			})
			if tree != nil && p.A[0].Op == OField && fieldName(p.A[0].A[0].T, p.A[0].N) == "Proofs" {
				id := fld(poi, "SubjectKeyId")
				if src := id; src.Op == OField && fieldName(src.A[0].T, src.N) == "SubjectKeyId" {
					cert = src.A[0]
					if x := unDeref(cert); x.Op != OIndex || !isPool(x.A[0]) || x.A[1] != p.A[1] {
						fail("pairing", "a proof is labelled with the key id of another certificate than the one at its position of the tree")
					}
				}
			}
		}
		if tree == nil || cert == nil {
			fail("no-proof", "what is sent as an inclusion proof is not a proof of a tree built here, labelled with the key id of a pooled certificate")
			continue
		}
		if !trees[tree] {
			fail("other-tree", "the proof belongs to a tree other than the one whose head is published")
		}
		iss := fld(fld(cert, "Issuer"), "CommonName")
		if !sameTerm(h.s, fld(poi, "Issuer"), iss) {
			fail("issuer", "the proof names an issuer other than that of the certificate it is for")
		}
		if !sameTerm(h.s, fld(poi, "LoggerID"), fld(fld(tSym("c:Logger", c.in.loggerT()), "Logger_private_config"), "Signer")) {
			fail("logger-id", "the proof does not name this logger")
		}
		vars, _ := urlParts(h.e.Val0())
		to := false
		for _, v := range vars {
			to = to || sameTerm(h.s, l.expand(v), iss)
		}
		if !to {
			fail("recipient", "the proof is not sent to the issuer of the certificate")
		}
		why := "no verification"
		ok := false
		for a, p := range h.s.facts.at {
			if !p || a.Op != OExtract || a.N != 0 || a.A[0].Op != OCall || !strings.HasSuffix(a.A[0].S, "go-merkletree.Verify") {
				continue
			}
			call := a.A[0]
			if !h.s.known(mkEq(errOf(h.s, call), tNil)) {
				why = "its error is not known to be nil"
				continue
			}
			if !sameTerm(h.s, l.expand(call.A[1]), fld(poi, "Poi")) {
				why = "another proof was verified"
				continue
			}
			if r := stripConv(l.expand(call.A[2])); !carriesRoot(h.s, r, tree) {
				why = "it was verified against something other than the root of the tree"
				continue
			}
			vc := unDeref(certOf(l.expand(call.A[0])))
			if vc == unDeref(cert) || vc.Op == OIndex && isPool(vc.A[0]) && byKeyID(h.s, l, vc.A[1], fld(poi, "SubjectKeyId")) {
				ok = true
			} else {
				why = "it was verified for another certificate"
			}
		}
		if !ok {
			fail("unverified", "a proof is sent to a CA although it is not known to verify for the certificate it is labelled with: %s", why)
		}
	}
	if len(heads) == 0 {
		c.missing("publication of a tree head")
	}
	if len(sends) == 0 {
		c.missing("sending of inclusion proofs")
	}
}

// leafBinds: what is hashed into a leaf of the tree identifies the certificate
func (c *C) leafBinds() {
	f := c.p.fn("crypto", "Certblock.Serialize")
	if f == nil {
		c.missing("crypto.Certblock.Serialize")
		return
	}
	blk := tSym("block", f.Params[0].Type())
	in := c.interp(func(e *Event) {
		if e.Kind != "exit" || e.Mode != "main" {
			return
		}
		s := e.S
		v := c.in.snap(s, e.Val)
		if v == nil || v.Op != ORec || len(v.A) != 2 {
			return
		}
		if !s.known(mkEq(v.A[1], tNil)) && v.A[1] != tNil {
			return
		}
		c.oblig()
		c.site("leaf", "serialised")
		cert := fld(blk, "Content")
		if cert == nil || !carries(s, v.A[0], certField(cert, "RawSubject")) {
			c.fail("leaf", "Serialize", e.Instr, s, "what is hashed into a leaf of the tree does not contain the subject of the certificate: proofs do not tell certificates apart")
		}
	})
	c.run(in, f, []*Term{blk}, newState())
}

func isNilCall(a *Term) bool {
	x, ok := eqNil(a)
	return ok && callName(x) != ""
}

// byKeyID: i is a position the pool's index lists under the key id
func byKeyID(s *State, l *lists, i, id *Term) bool {
	i = l.expand(i)
	return i.Op == OIndex && i.A[0].Op == OLookup && pathOf(i.A[0].A[0]) == lPool+".bySubjectKeyId" && sameTerm(s, stripConv(i.A[0].A[1]), stripConv(id))
}

// carriesRoot: t is the Root of the tree, encoded or not
func carriesRoot(s *State, t, tree *Term) bool {
	ok := false
	walk(t, func(x *Term) bool {
		if x.Op == OField && fieldName(x.A[0].T, x.N) == "Root" && unDeref(x.A[0]).Op == OExtract && unDeref(x.A[0]).A[0] == tree && carries(s, t, x) {
			ok = true
		}
		return !ok
	})
	return ok
}

func short(t *Term) string {
	s := t.String()
	if len(s) > 80 {
		s = s[:80] + "…"
	}
	return s
}

func (in *Interp) loggerT() types.Type { return in.prog.fn("Logger", "StartLogger").Params[0].Type() }

// signedBy: the object carries an RSA signature made with the key at keyPath over its three payload fields, naming the identity at
// idPath as signer; "" or what is wrong
func (c *C) signedBy(s *State, g goFields, o *Term, keyPath, idPath string) string {
	sig := mkIndex(g.f(o, g.Signature), tInt(0), nil)
	id := g.f(o, g.Signer)
	if pathOf(id) != idPath {
		return "its Signer is not the component's own name"
	}
	parts := []*Term{sig}
	if sig.Op == OConcat {
		parts = sig.A
	}
	var call *Term
	named := false
	for _, p := range parts {
		if pathOf(stripConv(p)) == idPath {
			named = true
		}
		walk(p, func(x *Term) bool {
			if x.Op == OCall && strings.HasPrefix(x.S, "crypto/rsa.Sign") {
				call = x
			}
			return call == nil
		})
	}
	if call == nil {
		return "its first signature is not made with a private key"
	}
	if !named {
		return "the signature does not name the component"
	}
	if pathOf(stripRef(call.A[1])) != keyPath {
		return "it is signed with a key other than the component's own"
	}
	want := mkConcat(g.payload(o, 0), g.payload(o, 1), g.payload(o, 2))
	if !digestOf(s, call.A[3], want) {
		return "the signature does not cover exactly the concatenation of its payload fields"
	}
	return ""
}

// digestOf: d is a digest of exactly m
func digestOf(s *State, d, m *Term) bool {
	ok := false
	walk(d, func(x *Term) bool {
		if sameTerm(s, stripConv(x), m) && carries(s, d, x) {
			ok = true
		}
		return !ok
	})
	return ok
}

func init() { checks["P26"] = p26 }

const caPool = "CAContext.CurrentCertificatePool.certs"

func p27(c *C) {
	c.rules = append(c.rules,
		"an object is put into the CA's store of tree heads only on a path where it passed Verify with the CA's own keys and is known to be an STH_INIT statement, under its signer",
		"logger information is written into a pooled certificate only on a path where its tree head is the one on file for the logger the proof names (known to be present) and the Merkle verification of its proof for that very certificate against the root hash in that tree head succeeded",
		"nothing else that came from the network is written into a pooled certificate")
	g := c.goFields()
	sthInit := c.defConst("STH_INIT")
	nStore, nEmbed := 0, 0
	in := c.interp(func(e *Event) {
		s := e.S
		switch e.Kind {
		case "mapupd":
			if pathOf(e.Addr) != "CAContext.STH_storage" {
				return
			}
			c.oblig()
			c.site("tree head", "stored")
			nStore++
			o := c.in.snap(s, e.Val)
			if !verified(s, o, "CAContext.CA_crypto_config") {
				c.fail("unverified-head", "STH_storage", e.Instr, s, "a tree head is stored that is not known to have passed verification with the CA's keys")
			}
			if !s.known(mkEq(g.f(o, g.Type), sthInit)) {
				c.fail("not-a-head", "STH_storage", e.Instr, s, "an object is stored as a tree head that is not known to be an STH_INIT statement")
			}
			if k := stripConv(e.Key); !sameTerm(s, k, g.f(o, g.Signer)) && !sameTerm(s, k, g.payload(o, 0)) {
				c.fail("filed-elsewhere", "STH_storage", e.Instr, s, "a tree head is stored under a key other than its signer")
			}
		case "store":
			if !strings.HasPrefix(pathOf(e.Addr), caPool) {
				return
			}
			v := c.in.snap(s, e.Val)
			checked := map[*Term]bool{}
			var infos []*Term
			walk(v, func(x *Term) bool {
				if x.T != nil && x.Op != ORef && isNamed(x.T, "LoggerInfo") && derefType(x.T) == nil {
					if x.Op != OIndex || len(netRoots(x)) > 0 {
						infos = append(infos, x)
					}
					return false
				}
				return true
			})
			for _, li := range infos {
				nEmbed++
				c.oblig()
				c.site("logger information", "attached")
				checked[li] = true
				if why := c.embedOK(s, g, li, e.Addr); why != "" {
					c.fail("embedded-unverified", "LoggerInfo", e.Instr, s, "logger information is attached to a certificate although %s", why)
				}
			}
			rest := rewrite(v, func(x *Term) *Term {
				if checked[x] {
					return tNil
				}
				return nil
			}, map[*Term]*Term{})
			for _, r := range netRoots(noIndex(rest)) {
				c.fail("foreign", "cert", e.Instr, s, "received data (%s) is written into a pooled certificate", short(r))
			}
		}
	})
	in.keepFact = func(a *Term) bool { return true }
	in.pin = func(a *Term) bool { return callName(a) != "" || isNilCall(a) || a.Op == OLookupOk }
	c.serverRun(in, "CA")
	if nStore == 0 {
		c.missing("insertion into the CA's store of tree heads")
	}
	if nEmbed == 0 {
		c.missing("attachment of logger information to a certificate")
	}
}

// noIndex: t without the positions at which lists and maps are read: they select, they are not part of what is written
func noIndex(t *Term) *Term {
	return rewrite(t, func(x *Term) *Term {
		if (x.Op == OIndex || x.Op == OLookup) && len(x.A) > 1 && len(netRoots(x.A[1])) > 0 && len(netRoots(x.A[0])) == 0 {
			return mk(x.Op, x.S, x.N, x.T, x.A[0], tSym("some position", nil))
		}
		return nil
	}, map[*Term]*Term{})
}

// slotOf: the pool position an address or certificate belongs to
func slotOf(t *Term) *Term {
	var r *Term
	walk(t, func(x *Term) bool {
		if r == nil && (x.Op == OIndex || x.Op == OIndexPtr) && pathOf(x.A[0]) == caPool {
			r = x.A[1]
		}
		return r == nil
	})
	return r
}

func (c *C) embedOK(s *State, g goFields, li, addr *Term) string {
	sth, poi := fld(li, "STH"), fld(li, "POI")
	if sth == nil || poi == nil {
		return "it is not a tree head with a proof"
	}
	sth = s.canon(sth)
	if sth.Op != OLookup || pathOf(sth.A[0]) != "CAContext.STH_storage" {
		return "its tree head is not one on file"
	}
	if !sameTerm(s, stripConv(sth.A[1]), fld(poi, "LoggerID")) {
		return "its tree head is on file for another logger than the one the proof names"
	}
	if !hasKey(s, sth) {
		return "no tree head of that logger is known to be on file"
	}
	slot := slotOf(addr)
	if slot == nil {
		return "the certificate it is written into is not identified"
	}
	why := "its proof was not verified"
	for a, p := range s.facts.at {
		if !p || a.Op != OExtract || a.N != 0 || a.A[0].Op != OCall || !strings.HasSuffix(a.A[0].S, "go-merkletree.Verify") {
			continue
		}
		call := a.A[0]
		cert := certOf(call.A[0])
		root := false
		walk(call.A[2], func(x *Term) bool {
			if x.Op == OField && fieldName(x.A[0].T, x.N) == "RootHash" && contains(x, g.payload(sth, 1)) {
				root = true
			}
			return !root
		})
		switch x := unDeref(cert); {
		case !s.known(mkEq(errOf(s, call), tNil)):
			why = "the verification of its proof may have failed with an error"
		case !sameTerm(s, call.A[1], fld(poi, "Poi")):
			why = "another proof was verified"
		case !root:
			why = "its proof was not verified against the root hash of its tree head"
		case x.Op != OIndex || pathOf(x.A[0]) != caPool || !sameTerm(s, x.A[1], slot):
			why = "its proof was verified for another certificate"
		default:
			return ""
		}
	}
	return why
}

func init() { checks["P27"] = p27 }
