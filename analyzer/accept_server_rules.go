package main

// P50: loggers and CAs accept what is valid.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// bodyReads: handlers that read the request on some paths must read it on all
type bodyReads struct {
	c     *C
	reads map[string]bool
	lates []lateExit
}

type lateExit struct {
	thread, name string
	instr        ssa.Instruction
	s            *State
}

func (b *bodyReads) watch(e *Event) {
	switch e.Kind {
	case "call":
		if strings.HasPrefix(b.c.in.threadID, "handler:") && isBodyRead(e) {
			e.S.mark("body read", tNil)
			if len(e.Snap) > 1 {
				if t := typeOfValue(e.Snap[1]); t != nil {
					if _, ok := t.Underlying().(*types.Struct); !ok {
						return // a parameter, which may be given otherwise
					}
				}
			}
			b.reads[b.c.in.threadID] = true
		}
	case "exit":
		if b.c.muted() || e.Mode == "" || !strings.HasPrefix(b.c.in.threadID, "handler:") || e.S.hasMark("body read", tNil) {
			return
		}
		for a := range e.S.facts.at {
			ok := false
			walk(a, func(x *Term) bool {
				if x.Op == OField {
					switch fieldName(x.A[0].T, x.N) { // not a request with content
					case "Method", "Body":
						ok = true
					}
				}
				return !ok
			})
			if ok {
				return
			}
		}
		b.lates = append(b.lates, lateExit{b.c.in.threadID, b.c.in.threadName(), e.Instr, e.S})
	}
}

func (b *bodyReads) finish() {
	for _, l := range b.lates {
		b.c.oblig()
		if b.reads[l.thread] {
			b.c.fail("not-read", l.name, l.instr, l.s, "a request can be answered without its content being looked at")
		}
	}
}

func isBodyRead(e *Event) bool {
	switch {
	case strings.HasSuffix(e.Name, "json.Decoder).Decode"), strings.HasSuffix(e.Name, "encoding/json.Unmarshal"), strings.HasSuffix(e.Name, "io.ReadAll"), strings.HasSuffix(e.Name, "ioutil.ReadAll"), strings.HasSuffix(e.Name, "bytes.Buffer).ReadFrom"), strings.HasSuffix(e.Name, "io.Copy"):
	default:
		return false
	}
	for _, a := range e.Snap {
		if fromBody(a) {
			return true
		}
	}
	return false
}

func p50(c *C) {
	c.rules = append(c.rules,
		"every pre-certificate a logger reads from a request is added to its pool on every path, or the path established that it cannot be read or parsed, that its issuer is none of the listed CAs or has no key, that the issuer's signature over it does not verify, or that it is pooled already",
		"every object a CA reads from a request is filed as tree head on every path, or the path established that it cannot be decoded, fails verification with the CA's keys or is no STH_INIT",
		"every inclusion proof a CA reads from a request is attached to the certificate it is labelled with on every path, or the path established that it cannot be decoded, that no readable tree head of that logger is on file, that no certificate with that label is pooled, that the proof fails for that certificate and root, or that information of that logger is attached already",
		"a certificate that is added to a pool is indexed under its subject key id and subject at the position it got; it is found and replaced at that position")
	c.p50logger()
	c.p50ca()
	c.p50pool()
}

func (c *C) p50logger() {
	parsed := map[*Term]bool{}
	br := &bodyReads{c: c, reads: map[string]bool{}}
	defer br.finish()
	src := func(t *Term) *Term { // the parse call a certificate comes from
		var r *Term
		walk(t, func(x *Term) bool {
			if r == nil && parsed[x] {
				r = x
			}
			return r == nil
		})
		return r
	}
	issuer := func(x, call *Term) bool {
		x = stripConv(x)
		return x.Op == OField && fieldName(x.A[0].T, x.N) == "CommonName" && x.A[0].Op == OField && fieldName(x.A[0].A[0].T, x.A[0].N) == "Issuer" && src(x) == call
	}
	var in *Interp
	in = c.interp(func(e *Event) {
		s := e.S
		br.watch(e)
		switch e.Kind {
		case "call":
			if strings.HasPrefix(in.threadID, "handler:") && strings.HasPrefix(e.Name, "crypto/x509.ParseCertificate") && len(e.Snap) > 0 && e.Val != nil && fromBody(e.Snap[0]) {
				parsed[e.Val] = true
				c.oblig()
				c.site("received", "pre-certificate")
				s.oblige("log", e.Val)
			}
		case "store":
			p := pathOf(e.Addr)
			if !strings.HasPrefix(p, lPool) {
				return
			}
			l := in.snap(s, e.Val)
			if p == lPool {
				l = fld(l, "certs")
			}
			for l != nil && l.Op == OAppend {
				for _, x := range l.A[1:] {
					if y := certSource(x, "RawSubject"); y != nil {
						if call := src(y); call != nil {
							c.site("pooled", in.threadName())
							s.discharge(func(m Mark) bool { return m.K == "log" && m.T == call })
						}
					}
				}
				l = l.A[0]
			}
		case "forall":
			if strings.HasPrefix(e.All.loop, "exists:") {
				return
			}
			for a, p := range e.All.facts.at {
				if p || a.Op != OBin || a.S != "==" {
					continue
				}
				for k := 0; k < 2; k++ {
					x, y := a.A[k], stripConv(a.A[1-k])
					if y.Op == OIndex && pathOf(y.A[0]) == "LoggerContext.Logger_private_config.CAlist" && fullRange(in, y.A[1], y.A[0]) {
						s.discharge(func(m Mark) bool { return m.K == "log" && issuer(x, m.T) })
					}
				}
			}
		case "fact":
			a := e.Key
			if x, ok := eqNil(a); ok {
				s.discharge(func(m Mark) bool {
					if m.K != "log" {
						return false
					}
					y := stripRef(x)
					if y.Op == OExtract && y.A[0] == m.T {
						return (y.N == 0) == e.Truth
					}
					if e.Truth {
						return false
					}
					if y.Op == OCall && strings.HasPrefix(y.S, "crypto/rsa.Verify") && len(y.A) >= 4 {
						key := stripRef(y.A[0])
						f := rsaFormula(y.S, y.A[1], y.A[2], func(t *Term) bool {
							return t.Op == OField && fieldName(t.A[0].T, t.N) == "RawTBSCertificate" && src(t) == m.T
						})
						sig := y.A[3]
						return key.Op == OLookup && pathOf(key.A[0]) == "LoggerContext.Logger_crypto_config.SignPublicMap" && issuer(key.A[1], m.T) &&
							f == "PKCS1v15|"+short(tInt(5))+"|SHA256(M)" && sig.Op == OField && fieldName(sig.A[0].T, sig.N) == "Signature" && src(sig) == m.T
					}
					return false
				})
			}
			if a.Op == OLookupOk && !e.Truth && pathOf(a.A[0]) == "LoggerContext.Logger_crypto_config.SignPublicMap" {
				s.discharge(func(m Mark) bool { return m.K == "log" && issuer(a.A[1], m.T) })
			}
			if a.Op == OLookupOk && !e.Truth && strings.HasPrefix(pathOf(a.A[0]), "LoggerContext.Logger_private_config.") {
				s.discharge(func(m Mark) bool { return m.K == "log" && issuer(a.A[1], m.T) })
			}
			if a.Op == OCall && e.Truth && strings.HasSuffix(a.S, "x509.Certificate).Equal") && len(a.A) == 2 {
				// pooled already
				s.discharge(func(m Mark) bool {
					return m.K == "log" && (src(in.snap(s, a.A[0])) == m.T || src(in.snap(s, a.A[1])) == m.T) && (strings.HasPrefix(pathOf(a.A[0]), lPool) || strings.HasPrefix(pathOf(a.A[1]), lPool))
				})
			}
		case "exit":
			if c.muted() || e.Mode == "" {
				return
			}
			for _, m := range s.obls {
				if m.K == "log" {
					c.oblig()
					c.fail("precert-dropped", in.threadName(), e.Instr, s, "a received pre-certificate may not be logged although it is valid, of a listed CA and new")
				}
			}
		}
	})
	in.keepFact = func(a *Term) bool { return true }
	c.serverRun(in, "Logger")
	c.need("pooled", 1)
}

func (c *C) p50ca() {
	g := c.goFields()
	sthInit := c.defConst("STH_INIT")
	recv := map[*Term]*Term{}
	br := &bodyReads{c: c, reads: map[string]bool{}}
	defer br.finish()
	onFile := func(s *State, x, poi *Term) bool { // the tree head on file of the logger the proof names
		return x.Op == OLookup && pathOf(x.A[0]) == "CAContext.STH_storage" && sameTerm(s, stripConv(x.A[1]), fld(poi, "LoggerID"))
	}
	has := func(t *Term, ok func(*Term) bool) bool {
		r := false
		walk(t, func(x *Term) bool {
			r = r || ok(x)
			return !r
		})
		return r
	}
	label := func(s *State, t, poi *Term) bool {
		return sameTerm(s, stripConv(t), fld(poi, "SubjectKeyId"))
	}
	inPool := func(t *Term) bool { return strings.HasPrefix(pathOf(t), "CAContext.CurrentCertificatePool.") }
	// a candidate list or certificate found under the label
	slots := map[int]string{} // comparison of an extension's identifier -> the loop it is made in
	found := func(s *State, t, poi *Term) bool {
		return has(t, func(x *Term) bool {
			return x.Op == OLookup && inPool(x.A[0]) && label(s, x.A[1], poi)
		})
	}
	var in *Interp
	in = c.interp(func(e *Event) {
		s := e.S
		br.watch(e)
		switch e.Kind {
		case "call":
			if strings.HasPrefix(in.threadID, "handler:") && len(e.Snap) > 1 && e.Val != nil && (strings.HasSuffix(e.Name, "json.Decoder).Decode") || strings.HasSuffix(e.Name, "encoding/json.Unmarshal")) {
				t := typeOfValue(e.Snap[1])
				if t == nil || !fromBody(e.Snap[0]) {
					return
				}
				o := mk(OOut, "", 1, t, e.Val)
				switch {
				case isNamed(t, "Gossip_object"):
					s.oblige("head", o)
					c.site("received", "tree head")
				case isNamed(t, "POI_for_transmission"):
					s.oblige("proof", o)
					c.site("received", "proof")
				default:
					return
				}
				recv[e.Val] = o
				c.oblig()
			}
		case "mapupd":
			if pathOf(e.Addr) == "CAContext.STH_storage" {
				v := in.snap(s, e.Val)
				s.discharge(func(m Mark) bool {
					if m.K == "head" && sameTerm(s, v, m.T) {
						c.site("filed", in.threadName())
						return true
					}
					return false
				})
			}
		case "store":
			if !strings.HasPrefix(pathOf(e.Addr), caPool) {
				return
			}
			v := in.snap(s, e.Val)
			walk(v, func(x *Term) bool {
				if x.T != nil && x.Op != ORef && isNamed(x.T, "LoggerInfo") && derefType(x.T) == nil {
					if poi := fld(x, "POI"); poi != nil {
						s.discharge(func(m Mark) bool {
							if m.K == "slot" {
								return true
							}
							if m.K == "proof" && sameTerm(s, poi, m.T) {
								c.site("attached", in.threadName())
								return true
							}
							return false
						})
					}
					return false
				}
				return true
			})
		case "forall":
			if strings.HasPrefix(e.All.loop, "exists:") {
				return
			}
			// the pass went over all extensions of the certificate and wrote the ones that are the CTng extension
			s.discharge(func(m Mark) bool {
				if m.K != "proof" {
					return false
				}
				seen := false
				for call, l := range slots {
					if l != e.All.loop {
						continue
					}
					seen = true
					for _, k := range s.obls {
						if k.K == "slot" && k.T.N == call {
							return false
						}
					}
				}
				return seen
			})
		case "fact":
			a := e.Key
			if x, ok := eqNil(a); ok {
				s.discharge(func(m Mark) bool {
					y := x
					if y.Op == OExtract {
						y = y.A[0]
					}
					switch {
					case !e.Truth && recv[y] != nil:
						return m.T == recv[y]
					case m.K == "head" && !e.Truth && isVerifyCall(y):
						return len(y.A) > 1 && pathOf(y.A[1]) == "CAContext.CA_crypto_config" && sameTerm(s, stripRef(y.A[0]), m.T)
					case m.K == "proof" && !e.Truth && y.Op == OCall && isParse(y.S):
						return has(y, func(z *Term) bool {
							return z.Op == OIndex && has(z, func(w *Term) bool { return onFile(s, w, m.T) && z == g.payload(w, 1) })
						})
					case m.K == "proof" && !e.Truth && strings.HasSuffix(callName(y), "go-merkletree.Verify"):
						return c.failedProof(s, g, y, m.T, onFile, found)
					case m.K == "proof" && e.Truth:
						// no such certificate, or no pool
						y := stripRef(x)
						return (y.Op == OIndex || y.Op == OLookup) && found(s, y, m.T) || pathOf(y) == "CAContext.CurrentCertificatePool"
					}
					return false
				})
			}
			if a.Op == OBin && a.S == "==" {
				for k := 0; k < 2; k++ {
					x, y := a.A[k], a.A[1-k]
					s.discharge(func(m Mark) bool {
						switch m.K {
						case "head":
							return !e.Truth && y == sthInit && sameTerm(s, x, g.f(m.T, g.Type)) || e.Truth && y.Op == OConst && y != sthInit && sameTerm(s, x, g.f(m.T, g.Type))
						case "proof":
							if x.Op == OLen && y == tInt(0) && e.Truth && found(s, x.A[0], m.T) {
								return true
							}
							// attached already: a listed tree head has this signer
							if e.Truth && x.Op == OField && fieldName(x.A[0].T, x.N) == "Signer" && has(x, func(w *Term) bool { return onFile(s, w, m.T) }) {
								return has(y, func(w *Term) bool {
									return w.Op == OField && fieldName(w.A[0].T, w.N) == "LoggerInformation"
								})
							}
							if e.Truth && x.Op == OField && fieldName(x.A[0].T, x.N) == "LoggerID" && sameTerm(s, x.A[0], m.T) {
								return has(y, func(w *Term) bool {
									return w.Op == OField && fieldName(w.A[0].T, w.N) == "LoggerInformation"
								})
							}
						}
						return false
					})
				}
			}
			if strings.HasSuffix(callName(a), "ObjectIdentifier).Equal") {
				for _, m := range s.obls {
					if m.K == "proof" && (found(s, a, m.T) || has(a, func(x *Term) bool { return x.Op == OIndex && x.A[0].Op == OTok })) {
						walk(a, func(x *Term) bool {
							if x.Op == OIndex && x.A[1].Op != OConst {
								walk(x.A[1], func(y *Term) bool {
									if y.Op == OTok {
										slots[a.N] = y.S[:strings.LastIndex(y.S, ":")]
									}
									return true
								})
							}
							return true
						})
						if e.Truth {
							s.oblige("slot", a)
						}
					}
				}
			}
			if a.Op == OLookupOk && !e.Truth {
				s.discharge(func(m Mark) bool {
					return m.K == "proof" && (onFile(s, mk(OLookup, "", 0, nil, a.A[0], a.A[1]), m.T) || inPool(a.A[0]) && label(s, a.A[1], m.T))
				})
			}
			if strings.HasSuffix(callName(a), "go-merkletree.Verify") && !e.Truth {
				call := a
				if call.Op == OExtract {
					call = call.A[0]
				}
				s.discharge(func(m Mark) bool { return m.K == "proof" && c.failedProof(s, g, call, m.T, onFile, found) })
			}
		case "exit":
			if c.muted() || e.Mode == "" {
				return
			}
			for _, m := range s.obls {
				c.oblig()
				switch m.K {
				case "head":
					c.fail("head-dropped", in.threadName(), e.Instr, s, "a received tree head may not be filed although it is valid")
				case "proof":
					c.fail("proof-dropped", in.threadName(), e.Instr, s, "a received inclusion proof may not be attached to the certificate it is labelled with although it is valid and new")
				}
			}
		}
	})
	in.keepFact = func(a *Term) bool { return true }
	c.serverRun(in, "CA")
	c.need("filed", 1)
	c.need("attached", 1)
}

// failedProof: the failed check is that of this proof, for the certificate with its label, against the root on file
func (c *C) failedProof(s *State, g goFields, call, poi *Term, onFile func(*State, *Term, *Term) bool, found func(*State, *Term, *Term) bool) bool {
	if len(call.A) < 3 || !sameTerm(s, call.A[1], fld(poi, "Poi")) || !found(s, certOf(call.A[0]), poi) {
		return false
	}
	ok := false
	walk(call.A[2], func(x *Term) bool {
		if x.Op == OField && fieldName(x.A[0].T, x.N) == "RootHash" {
			walk(x, func(w *Term) bool {
				ok = ok || onFile(s, w, poi) && contains(x, g.payload(w, 1))
				return !ok
			})
		}
		return !ok
	})
	return ok
}

// p50pool: the certificate pool keeps what is put into it and finds it again
func (c *C) p50pool() {
	fn := func(name string) *ssa.Function {
		f := c.p.fn("crypto", "CertPool."+name)
		if f == nil {
			c.missing("crypto.CertPool." + name)
		}
		return f
	}
	add, get, upd := fn("AddCert"), fn("GetCertBySubjectKeyID"), fn("UpdateCertBySubjectKeyID")
	if add == nil || get == nil || upd == nil {
		return
	}
	var args []*Term
	part := func(n string) *Term { return fld(args[0], n) }
	// the entry list that AddCert writes: what was there and the new position
	entry := func(m, k, v *Term) bool {
		return v.Op == OAppend && len(v.A) == 2 && v.A[1] == mkLen(part("certs")) && v.A[0].Op == OLookup && v.A[0].A[0] == m && stripConv(v.A[0].A[1]) == k
	}
	var slots []*Term
	// slot: the position filed under label k
	slot := func(t, k *Term) bool {
		if t.Op == OIndex && t.A[1].Op == OConst && t.A[0].Op == OLookup && t.A[0].A[0] == part("bySubjectKeyId") && stripConv(t.A[0].A[1]) == k {
			slots = append(slots, t.A[1])
			return true
		}
		return false
	}
	unknown := func(s *State) bool { // no pool, or nothing is filed under the label
		ok := s.known(mkEq(args[0], tNil))
		for a, p := range s.facts.at {
			l := a
			if a.Op == OBin && a.S == "==" && p && (a.A[0] == tInt(0) && a.A[1].Op == OLen || a.A[1] == tInt(0) && a.A[0].Op == OLen) {
				l = a.A[0]
				if l.Op != OLen {
					l = a.A[1]
				}
				l = l.A[0]
			} else if p || a.Op != OLookupOk {
				continue
			}
			ok = ok || (l.Op == OLookup || l.Op == OLookupOk) && l.A[0] == part("bySubjectKeyId") && stripConv(l.A[1]) == args[1]
		}
		return ok
	}
	mode := "add"
	in := c.interp(func(e *Event) {
		s := e.S
		if len(args) < 2 {
			return
		}
		switch e.Kind {
		case "store":
			v := c.in.snap(s, e.Val)
			switch {
			case mode == "add" && e.Addr.Op == OFieldPtr && e.Addr.A[0] == args[0] && fieldName(derefType(args[0].T), e.Addr.N) == "certs":
				s.mark("added", tNil)
				c.oblig()
				if v.Op != OAppend || len(v.A) != 2 || v.A[0] != part("certs") || stripRef(v.A[1]) != stripRef(args[1]) {
					c.fail("pool-replaced", "AddCert", e.Instr, s, "the pool's list does not become the old list and the added certificate")
				}
			case mode == "update" && e.Addr.Op == OIndexPtr && e.Addr.A[0] == part("certs"):
				c.oblig()
				if !slot(e.Addr.A[1], args[1]) || stripRef(v) != stripRef(args[2]) {
					c.fail("misplaced", "UpdateCertBySubjectKeyID", e.Instr, s, "a certificate is not put into the position filed under its label")
				}
				s.mark("updated", tNil)
			}
		case "mapupd":
			if mode != "add" {
				return
			}
			for _, f := range [][2]string{{"bySubjectKeyId", "SubjectKeyId"}, {"byName", "RawSubject"}} {
				if e.Addr != part(f[0]) {
					continue
				}
				c.oblig()
				k := stripConv(e.Key)
				if k != fld(args[1], f[1]) || !entry(e.Addr, k, c.in.snap(s, e.Val)) {
					c.fail("misfiled", f[0], e.Instr, s, "the position of an added certificate is not appended to the entry for its %s", f[1])
				}
				s.mark(f[0], tNil)
			}
		case "fact":
			if mode == "add" && e.Truth && callName(e.Key) == "(*crypto/x509.Certificate).Equal" && contains(e.Key, part("certs")) && contains(e.Key, args[1]) {
				s.mark("pooled", tNil)
			}
			if mode == "add" && e.Truth && e.Key == mkEq(mkLen(fld(args[1], "SubjectKeyId")), tInt(0)) {
				s.mark("bySubjectKeyId", tNil)
			}
		}
	})
	in.keepFact = func(a *Term) bool { return true }
	prep := func(f *ssa.Function, m string) []Exit {
		mode = m
		args = nil
		for i, p := range f.Params {
			args = append(args, tSym("arg"+itoa(i)+":"+shortFn(f), p.Type()))
		}
		return c.run(in, f, args, newState())
	}
	for _, x := range prep(add, "add") {
		c.oblig()
		c.site("pool", "add")
		if s := x.s; !s.hasMark("pooled", tNil) && !(s.hasMark("added", tNil) && s.hasMark("bySubjectKeyId", tNil) && s.hasMark("byName", tNil)) {
			c.fail("not-pooled", "AddCert", add.Blocks[0].Instrs[0], s, "a certificate may be neither in the pool already nor added and filed under its subject and key id")
		}
	}
	for _, x := range prep(get, "get") {
		c.oblig()
		c.site("pool", "get")
		v := stripRef(x.ret)
		if v.Op == OIndex && v.A[0] == part("certs") && slot(v.A[1], args[1]) || v == tNil && unknown(x.s) {
			continue
		}
		c.fail("not-found", "GetCertBySubjectKeyID", get.Blocks[0].Instrs[0], x.s, "the certificate filed under a label is not what is returned for it")
	}
	for _, x := range prep(upd, "update") {
		c.oblig()
		c.site("pool", "update")
		if !x.s.hasMark("updated", tNil) && !unknown(x.s) {
			c.fail("not-updated", "UpdateCertBySubjectKeyID", upd.Blocks[0].Instrs[0], x.s, "the certificate filed under a label may not be replaced")
		}
	}
	for _, x := range slots {
		if x != slots[0] {
			c.fail("other-slot", "CertPool", upd.Blocks[0].Instrs[0], nil, "certificates are looked up and replaced at different positions")
		}
	}
	c.need("pool", 3)
}

func init() { checks["P50"] = p50 }
