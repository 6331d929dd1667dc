package main

// Rules for the monitor: P12 (monitor part), P17-P20.

import (
	"strings"
)

const mCfg = "MonitorContext.Monitor_crypto_config"

// monitorStore: m is one of the monitor's object stores; returns its name
func monitorStore(m *Term) string {
	p := pathOf(m)
	if strings.HasPrefix(p, "MonitorContext.Storage_") && !strings.Contains(p, "[]") {
		return strings.TrimPrefix(p, "MonitorContext.Storage_")
	}
	return ""
}

func isObjectMap(m *Term) bool {
	return m.T != nil && elemType(m.T) != nil && isNamed(elemType(m.T), "Gossip_object")
}

// ownContent: v is an object that is in one of the monitor's stores already
func ownContent(v *Term) bool {
	return (v.Op == OLookup || v.Op == OMapVal) && monitorStore(v.A[0]) != ""
}

// answersOf: the HTTP query whose answer t was decoded from
func answersOf(t *Term) *Term {
	var q *Term
	walk(t, func(x *Term) bool {
		if x.Op == OCall && isHTTPSend(x.S) && q == nil {
			q = x
		}
		return q == nil
	})
	return q
}

// requestOf: method and URL of an HTTP request sent by call
func requestOf(call *Term) (string, *Term) {
	switch {
	case strings.HasSuffix(call.S, "Get"), strings.HasSuffix(call.S, "Post"), strings.HasSuffix(call.S, "PostForm"), strings.HasSuffix(call.S, "Head"):
		m := "GET"
		if strings.Contains(call.S, "Post") {
			m = "POST"
		} else if strings.HasSuffix(call.S, "Head") {
			m = "HEAD"
		}
		i := 0
		if strings.HasPrefix(call.S, "(") {
			i = 1
		}
		if i < len(call.A) {
			return m, call.A[i]
		}
	}
	var m string
	var u *Term
	walk(call, func(x *Term) bool {
		if u == nil && x.Op == OCall && strings.HasPrefix(x.S, "net/http.NewRequest") {
			k := 0
			if strings.HasSuffix(x.S, "WithContext") {
				k = 1
			}
			if len(x.A) > k+1 {
				m, _ = x.A[k].strVal()
				u = x.A[k+1]
			}
		}
		return u == nil
	})
	return m, u
}

// urlParts: the variable parts of the URL an HTTP request goes to, and its constant text
func urlParts(call *Term) (vars []*Term, text string) {
	_, u := requestOf(call)
	return concatParts(u)
}

func concatParts(u *Term) (vars []*Term, text string) {
	if u == nil {
		return nil, ""
	}
	if v, ok := u.strVal(); ok {
		return nil, v
	}
	if u.Op == OConcat {
		for _, a := range u.A {
			if v, ok := a.strVal(); ok {
				text += v
			} else {
				vars = append(vars, a)
				text += "\x00"
			}
		}
		return vars, text
	}
	return []*Term{u}, "\x00"
}

// memberOf: x is known to equal an element of the list at path
func memberOf(s *State, x *Term, path string) bool {
	isEl := func(t *Term) bool {
		return (t.Op == OIndex || t.Op == OLookup || t.Op == OMapKey) && pathOf(t.A[0]) == path
	}
	if isEl(x) || isEl(s.canon(x)) {
		return true
	}
	for a, p := range s.facts.at {
		if p && a.Op == OBin && a.S == "==" {
			for k := 0; k < 2; k++ {
				if isEl(a.A[k]) && sameTerm(s, a.A[1-k], x) {
					return true
				}
			}
		}
		if a.Op == OCall && p && (strings.HasPrefix(a.S, "slices.Contains") && len(a.A) == 2 && pathOf(a.A[0]) == path && sameTerm(s, a.A[1], x)) {
			return true
		}
		if a.Op == OLookupOk && p && pathOf(a.A[0]) == path && sameTerm(s, a.A[1], x) {
			return true
		}
	}
	for _, fa := range s.foralls {
		if !strings.HasPrefix(fa.loop, "exists:") {
			continue
		}
		for a, p := range fa.facts.at {
			if p && a.Op == OBin && a.S == "==" {
				for k := 0; k < 2; k++ {
					if isEl(a.A[k]) && sameTerm(s, a.A[1-k], x) {
						return true
					}
				}
			}
		}
	}
	return false
}

func p17(c *C) {
	c.rules = append(c.rules,
		"every object put into a monitor store passed Verify with the monitor's own configuration on the path (or was stored already); a revocation vector changes only by the delta of such an object",
		"every object taken from a query answer and sent to the gossiper is verified, has the type that belongs to the query, names the queried entity as signer, the signer is in the list of all loggers / CAs, and (revocations) its signed revocation hash verified under the key of that CA")
	g := c.goFields()
	sth, rev := c.defConst("STH_INIT"), c.defConst("REV_INIT")
	in := c.interp(func(e *Event) {
		s := e.S
		in := c.in
		switch e.Kind {
		case "mapupd":
			n := monitorStore(e.Addr)
			if n == "" {
				return
			}
			c.oblig()
			c.site("insertion", n)
			if isObjectMap(e.Addr) {
				for _, o := range objectsIn(in, s, e.Val) {
					if !verified(s, o, mCfg) && !ownContent(o) {
						c.fail("store-unverified", n, e.Instr, s, "an object is put into the monitor's store %s although its signature is not known to have been verified: %s", n, o)
					}
				}
				return
			}
			for _, r := range netRoots(in.snap(s, e.Val)) {
				if isGossipObject(r) && !verified(s, r, mCfg) {
					c.fail("crv-unverified", n, e.Instr, s, "%s changes by data of an object whose signature is not known to have been verified", n)
				}
			}
		case "call":
			body := sentBody(e)
			if body == nil {
				return
			}
			for _, o := range marshalled(body) {
				if !isGossipObject(o) || len(netRoots(o)) == 0 {
					continue
				}
				c.oblig()
				if !verified(s, o, mCfg) {
					c.fail("forward-unverified", "send", e.Instr, s, "an object received from the network is sent to the gossiper although its signature is not known to have been verified")
					continue
				}
				q := answersOf(o)
				if q == nil {
					c.fail("forward-unasked", "send", e.Instr, s, "an object that is not the answer to a query is sent to the gossiper")
					continue
				}
				vars, text := urlParts(q)
				typ, list, what := sth, "All_Logger_URLs", "get-sth"
				if strings.Contains(text, "get-revocation") {
					typ, list, what = rev, "All_CA_URLs", "get-revocation"
				} else if !strings.Contains(text, "get-sth") {
					c.fail("forward-query", text, e.Instr, s, "answer to an unknown query (%q) is sent to the gossiper", text)
					continue
				}
				c.site("forwarded answer", what)
				if !s.known(mkEq(g.f(o, g.Type), typ)) {
					c.fail("forward-type", what, e.Instr, s, "an answer to %s is sent to the gossiper without its type being known to be the expected one", what)
				}
				ok := false
				for _, v := range vars {
					if sameTerm(s, v, g.f(o, g.Signer)) {
						ok = true
					}
				}
				if !ok {
					c.fail("forward-signer", what, e.Instr, s, "an answer to %s is sent to the gossiper without its signer being known to be the entity queried", what)
				}
				if !memberOf(s, g.f(o, g.Signer), "MonitorContext.Monitor_public_config."+list) {
					c.fail("forward-unknown", what, e.Instr, s, "an answer to %s is sent to the gossiper without its signer being known to be in %s", what, list)
				}
				if typ == rev {
					if m := srhVerified(s, g, o, "SignPublicMap", "MonitorContext.Storage_CRV"); m != "" {
						c.fail("forward-srh", what, e.Instr, s, "a revocation is sent to the gossiper without a valid signed revocation hash: %s", m)
					}
				}
			}
		}
	})
	in.keepFact = keepVerify
	in.pin = c.pinObject(g)
	c.serverRun(in, "monitor")
	c.needAll("insertion", "TEMP", "CONFLICT_POM", "CONFLICT_POM_DELTA", "ACCUSATION_POM", "ACCUSATION_POM_DELTA", "STH_FULL", "REV_FULL", "CRV")
	c.needAll("forwarded answer", "get-sth", "get-revocation")
}

// pinObject: what is known about type, signer and signature of an object must survive joins
func (c *C) pinObject(g goFields) func(*Term) bool {
	return func(a *Term) bool {
		if keepVerify(a) {
			return true
		}
		if a.Op == OBin && a.S == "==" {
			for k := 0; k < 2; k++ {
				x := a.A[k]
				if x.Op == OField && (x.N == g.Type || x.N == g.Signer) && isGossipObject(x.A[0]) {
					return true
				}
				if x == tNil && a.A[1-k].Op == OCall && strings.HasPrefix(a.A[1-k].S, "crypto/rsa.Verify") {
					return true
				}
			}
		}
		return false
	}
}

// srhVerified: on this path the signed revocation hash in revocation object o was verified under the key of the CA it is
// about: the signature covers the period, the delta and the vector that results from adding the delta to the vector on file.
// Returns "" or what is missing.
func srhVerified(s *State, g goFields, o *Term, dir, crv string) string {
	why := "no signature check over the revocation vectors"
	isID := func(x *Term) bool {
		x = stripConv(x)
		return sameTerm(s, x, g.payload(o, 0)) || sameTerm(s, x, g.f(o, g.Signer))
	}
	for _, k := range sigChecks(s) {
		if k.kind != "rsa" || !contains(k.sig, g.payload(o, 2)) {
			continue
		}
		var sets []*Term
		period := false
		walk(k.msg, func(x *Term) bool {
			if x.Op == OCall && strings.HasSuffix(x.S, "bitset.BitSet).MarshalBinary") && len(x.A) > 0 {
				sets = append(sets, x.A[0])
				return false
			}
			if sameTerm(s, x, g.f(o, g.Period)) {
				period = true
			}
			return true
		})
		if len(sets) == 0 {
			continue
		}
		if k.key.Op != OLookup || !strings.HasSuffix(pathOf(k.key.A[0]), "."+dir) {
			why = "the key is not taken from the key directory"
			continue
		}
		known := false
		for a, p := range s.facts.at {
			if p && a.Op == OLookupOk && sameTerm(s, a.A[0], k.key.A[0]) && sameTerm(s, a.A[1], k.key.A[1]) {
				known = true
			}
		}
		if !known && !isID(k.key.A[1]) {
			why = "the signer of the hash may be unknown"
			continue
		}
		if !isID(k.key.A[1]) {
			why = "the signer of the hash is not known to be the CA the revocation is about"
			continue
		}
		if !period {
			why = "the hash does not cover the period"
			continue
		}
		isDelta := func(x *Term) bool {
			if x.Op == OCall {
				return false
			}
			if contains(x, g.payload(o, 2)) {
				return true
			}
			ok := false // the delta could not be decompressed: nothing to apply
			walk(x, func(y *Term) bool {
				if y.Op == OCall && strings.HasSuffix(y.S, "UnmarshalBinary") && len(y.A) > 0 && y.A[len(y.A)-1] == tNil {
					ok = true
				}
				return !ok
			})
			return ok || x.Op == OZero || stripRef(x).Op == OZero
		}
		isOld := func(x *Term) bool {
			x = stripRef(x)
			if x.Op == ODeref {
				x = x.A[0]
			}
			return x.Op == OLookup && pathOf(x.A[0]) == crv && isID(x.A[1])
		}
		hasDelta, hasNew := false, false
		for _, x := range sets {
			if isDelta(x) {
				hasDelta = true
				if !hasNew {
					for a, p := range s.facts.at {
						if v, ok := eqNil(a); ok && p && isOld(v) || a.Op == OLookupOk && !p && pathOf(a.A[0]) == crv && isID(a.A[1]) {
							hasNew = true
						}
					}
				}
			}
			if x.Op == OCall && strings.HasSuffix(x.S, "bitset.BitSet).Union") && len(x.A) == 2 {
				if isOld(x.A[0]) && isDelta(x.A[1]) || isOld(x.A[1]) && isDelta(x.A[0]) {
					hasNew = true
				}
			}
		}
		if !hasDelta {
			why = "the hash does not cover the delta"
			continue
		}
		if !hasNew {
			why = "the hash does not cover the vector on file united with the delta"
			continue
		}
		return ""
	}
	return why
}

// ---- P18, P19 ----

// queries: what a GET request asks the entity for ("sth", "rev" or "")
func queryKind(call *Term) (string, []*Term) {
	if !isHTTPSend(call.S) {
		return "", nil
	}
	vars, text := urlParts(call)
	switch {
	case strings.Contains(text, "get-sth"):
		return "sth", vars
	case strings.Contains(text, "get-revocation"):
		return "rev", vars
	}
	return "", nil
}

type idFields struct{ Period, Type, Entity int }

func (c *C) idFields() idFields {
	return idFields{c.fieldIdx("definition", "Gossip_ID", "Period"), c.fieldIdx("definition", "Gossip_ID", "Type"), c.fieldIdx("definition", "Gossip_ID", "Entity_URL")}
}

func hasNow(t *Term) bool {
	r := false
	walk(t, func(x *Term) bool {
		if x.Op == OCall && x.S == "time.Now" {
			r = true
		}
		return !r
	})
	return r
}

// proofFact: atom a (with truth p) says that a proof against an entity is on file (found) or that it is not; returns the entity
func (c *C) proofFact(s *State, id idFields, a *Term, p bool) (kind string, entity *Term) {
	if a.Op == OLookupOk {
		key := a.A[1]
		if key.T == nil || !isNamed(key.T, "Gossip_ID") {
			return "", nil
		}
		e := mkField(key, id.Entity, key.T)
		typ := mkField(key, id.Type, key.T)
		now := hasNow(mkField(key, id.Period, key.T))
		switch monitorStore(a.A[0]) {
		case "ACCUSATION_POM":
			if p {
				return "found", e
			}
			if now && s.known(mkEq(typ, c.defConst("ACC_FULL"))) {
				return "noacc", e
			}
		case "CONFLICT_POM":
			if p {
				return "found", e
			}
		case "TEMP":
			if p && now {
				if s.known(mkEq(typ, c.defConst("STH_INIT"))) {
					return "arrived:sth", e
				}
				if s.known(mkEq(typ, c.defConst("REV_INIT"))) {
					return "arrived:rev", e
				}
			}
		}
		return "", nil
	}
	if a.Op == OBin && a.S == "==" {
		for k := 0; k < 2; k++ {
			x := a.A[k]
			if x.Op == OField && x.N == id.Entity && x.A[0].Op == OMapKey {
				n := monitorStore(x.A[0].A[0])
				if n != "CONFLICT_POM" && n != "ACCUSATION_POM" {
					continue
				}
				if p {
					return "found", a.A[1-k]
				}
				if n == "CONFLICT_POM" {
					return "noconf", a.A[1-k]
				}
				return "noacc", a.A[1-k]
			}
		}
	}
	return "", nil
}

// noteProofs keeps the marks "noacc", "noconf", "found", "arrived:*" up to date
func (c *C) noteProofs(e *Event, id idFields, found func(s *State, kind string, x *Term)) {
	switch e.Kind {
	case "fact":
		k, x := c.proofFact(e.S, id, e.Key, e.Truth)
		if k == "" || k == "noconf" || k == "noacc" && e.Key.Op != OLookupOk {
			return // absence from a scanned map is known only once the scan is complete
		}
		found(e.S, k, x)
	case "forall":
		for a, p := range e.All.facts.at {
			k, x := c.proofFact(e.S, id, a, p)
			if k == "" || a.Op == OLookupOk {
				continue
			}
			if strings.HasPrefix(e.All.loop, "exists:") != (k == "found") {
				continue
			}
			found(e.S, k, x)
		}
	}
}

func p18(c *C) {
	c.rules = append(c.rules,
		"a thread that queried a logger or CA ends (or goes on to the next entity) only after the answer was found good (verified, right type, signed by that entity, revocation hash verified) or a procedure was scheduled for that entity",
		"every path of that procedure ends with an accusation naming the entity being posted, or with the entity's statement of the current period or a proof against it found on file")
	g := c.goFields()
	id := c.idFields()
	acc := c.defConst("ACC_INIT")
	want := map[string]*Term{"sth": c.defConst("STH_INIT"), "rev": c.defConst("REV_INIT")}
	good := func(s *State, q *Term) bool {
		kind, vars := queryKind(q)
		for _, vo := range verifiedObjs(s) {
			o := vo[0]
			if !contains(o, q) || pathOf(vo[1]) != mCfg {
				continue
			}
			if !s.known(mkEq(g.f(o, g.Type), want[kind])) {
				continue
			}
			ok := false
			for _, v := range vars {
				ok = ok || sameTerm(s, v, g.f(o, g.Signer))
			}
			if ok && (kind != "rev" || srhVerified(s, g, o, "SignPublicMap", "MonitorContext.Storage_CRV") == "") {
				return true
			}
		}
		return false
	}
	settle := func(s *State) {
		if len(s.obls) == 0 {
			return
		}
		s.discharge(func(m Mark) bool {
			if m.K != "q" {
				return false
			}
			kind, vars := queryKind(m.T)
			for _, v := range vars {
				for _, k := range []string{"handled:" + kind, "async:handled:" + kind} {
					for _, x := range s.marked(k) {
						if sameTerm(s, x, v) {
							return true
						}
					}
				}
			}
			return good(s, m.T)
		})
	}
	in := c.interp(func(e *Event) {
		s := e.S
		switch e.Kind {
		case "call":
			if k, vars := queryKind(e.Val0()); k != "" {
				c.site("query", k)
				c.oblig()
				if len(vars) == 0 {
					c.fail("query-constant", k, e.Instr, s, "the query goes to a fixed address")
				}
				s.oblige("q", e.Val)
				return
			}
			if body := sentBody(e); body != nil {
				for _, o := range marshalled(body) {
					if isGossipObject(o) && s.known(mkEq(g.f(o, g.Type), acc)) {
						s.mark("handled:sth", g.payload(o, 0))
						s.mark("handled:rev", g.payload(o, 0))
						c.site("accusation posted", "acc")
					}
				}
			}
			settle(s)
		case "fact", "forall":
			c.noteProofs(e, id, func(s *State, kind string, x *Term) {
				switch kind {
				case "found":
					s.mark("handled:sth", x)
					s.mark("handled:rev", x)
				case "arrived:sth":
					s.mark("handled:sth", x)
				case "arrived:rev":
					s.mark("handled:rev", x)
				}
			})
			settle(s)
		case "spawned", "leave":
			settle(s)
		case "exit":
			settle(s)
			for _, m := range s.obls {
				if m.K == "q" {
					k, _ := queryKind(m.T)
					c.oblig()
					var at = m.T.site
					c.fail("query-dropped", k, at, s, "a thread ends although the query it made was neither answered well nor followed by an accusation procedure that accuses the entity on every path (except when its statement arrived or a proof is on file)")
				}
			}
		}
	})
	in.keepFact = keepVerify
	in.pin = c.pinObject(g)
	c.serverRun(in, "monitor")
	c.needAll("query", "sth", "rev")
	c.needAll("accusation posted", "acc")
}

// Val0: the call's own term, or an empty one for modelled calls
func (e *Event) Val0() *Term {
	if e.Val == nil {
		return mk(OCall, "", 0, nil)
	}
	return e.Val
}

func p19(c *C) {
	c.rules = append(c.rules,
		"every query of an entity and every accusation sent lies on a path where the accusation proof of the current period against that entity was looked up and absent, and a complete scan of the conflict proofs (all periods) found none against it")
	g := c.goFields()
	id := c.idFields()
	acc := c.defConst("ACC_INIT")
	check := func(e *Event, what string, xs []*Term) {
		s := e.S
		c.oblig()
		for kind, text := range map[string]string{"noacc": "an accusation proof of the current period", "noconf": "a conflict proof of any period"} {
			ok := false
			for _, x := range xs {
				for _, y := range s.marked(kind) {
					ok = ok || sameTerm(s, x, y)
				}
			}
			if !ok {
				c.fail(kind, what, e.Instr, s, "%s although %s against the entity is not known to be absent", what, text)
			}
		}
	}
	in := c.interp(func(e *Event) {
		s := e.S
		switch e.Kind {
		case "call":
			if k, vars := queryKind(e.Val0()); k != "" {
				c.site("query", k)
				check(e, "entity queried (get-"+k+")", vars)
				return
			}
			if body := sentBody(e); body != nil {
				for _, o := range marshalled(body) {
					if isGossipObject(o) && s.known(mkEq(g.f(o, g.Type), acc)) {
						c.site("accusation posted", "acc")
						check(e, "accusation sent", []*Term{g.payload(o, 0)})
					}
				}
			}
		case "fact", "forall":
			c.noteProofs(e, id, func(s *State, kind string, x *Term) {
				if kind == "noacc" || kind == "noconf" {
					s.mark(kind, x)
				}
			})
		}
	})
	c.serverRun(in, "monitor")
	c.needAll("query", "sth", "rev")
	c.needAll("accusation posted", "acc")
}

// ---- P20 ----

// collects: list is the result of a complete scan over the map at path that appends every value (or leaves out only entries
// for which skip holds)
func (c *C) collects(s *State, list *Term, path string, skip func(marks []Mark, facts *Facts) bool) string {
	for list.Op == OSlice {
		list = list.A[0]
	}
	if list.Op != OTok {
		return "it is not filled by a scan over the store"
	}
	lt := c.in.loops[list.S]
	if lt == nil {
		return "it is not filled by a scan over the store"
	}
	for _, i := range lt.inits {
		if mkLen(i) != tInt(0) && i != tNil && !(i.Op == OSlice) {
			if i.Op == OTok || i.Op == OAppend {
				return "the scan starts from a list that is not known to be empty"
			}
		}
	}
	n := 0
	for _, b := range lt.backs {
		v := b.val
		if v == list {
			if skip != nil && skip(b.marks, b.facts) {
				continue
			}
			return "entries can be left out"
		}
		if v.Op != OAppend || v.A[0] != list {
			return "the list can be replaced while it is filled"
		}
		ok := false
		for _, x := range v.A[1:] {
			ok = ok || isEntryOf(x, path)
		}
		if !ok {
			return "what is appended is not the current entry of the store"
		}
		n++
	}
	if n == 0 {
		return "nothing is appended"
	}
	for _, fa := range s.foralls {
		if strings.HasPrefix(list.S, fa.loop+":") {
			return ""
		}
	}
	return "the scan can end early"
}

func isEntryOf(x *Term, path string) bool {
	x = stripRef(x)
	return (x.Op == OLookup && len(x.A) > 1 && x.A[1].Op == OMapKey && pathOf(x.A[0]) == path && pathOf(x.A[1].A[0]) == path) || (x.Op == OMapVal && pathOf(x.A[0]) == path)
}

func p20(c *C) {
	c.rules = append(c.rules,
		"each list of a client update that is written is the result of a complete scan over the store it is for",
		"a proof leaves a delta store only after the scan that collects it for an update took it up, in the same critical section; the update is written",
		"every proof put into a proof store is put into its delta store, too; each store takes only objects of its type",
		"a statement of the current period leaves its store only if a conflict proof against its entity was found",
		"every statement collected either was left by a complete cleaning scan (removed, or no conflict proof against its entity) or was itself checked")
	g := c.goFields()
	id := c.idFields()
	const mc = "MonitorContext.Storage_"
	lists := map[string]string{"STHs": "STH_FULL", "REVs": "REV_FULL", "POM_CONs": "CONFLICT_POM_DELTA", "POM_ACCs": "ACCUSATION_POM_DELTA"}
	types := map[string]*Term{"STH_FULL": c.defConst("STH_FULL"), "REV_FULL": c.defConst("REV_FULL"), "CONFLICT_POM": c.defConst("CON_INIT"), "ACCUSATION_POM": c.defConst("ACC_FULL"), "CONFLICT_POM_DELTA": c.defConst("CON_INIT"), "ACCUSATION_POM_DELTA": c.defConst("ACC_FULL")}
	section := func(s *State) string {
		r := ""
		for _, l := range s.locks {
			r += l.sec + ";"
		}
		return r
	}
	entityOf := func(key *Term) *Term { return mkField(key, id.Entity, key.T) }
	in := c.interp(func(e *Event) {
		s := e.S
		switch e.Kind {
		case "call":
			if strings.Contains(e.Name, "json.Marshal") || strings.HasSuffix(e.Name, "json.Encoder).Encode") {
				for _, a := range e.Snap {
					if a = stripRef(a); a.Op == OIface {
						a = a.A[0]
					}
					if a = stripRef(a); a.T != nil && isNamed(a.T, "ClientUpdate") {
						s.discharge(func(m Mark) bool { return m.K == "unsaved" })
					}
				}
			}
			if isFileWrite(e.Name) {
				for _, a := range e.Snap {
					for _, o := range marshalled(a) {
						if o.T == nil || !isNamed(o.T, "ClientUpdate") {
							continue
						}
						st := structOf(o.T)
						for i := 0; i < st.NumFields(); i++ {
							n := lists[st.Field(i).Name()]
							if n == "" {
								continue
							}
							c.oblig()
							c.site("list written", n)
							why := c.collects(s, mkField(o, i, o.T), mc+n, func(ms []Mark, f *Facts) bool {
								for _, m := range ms {
									if m.K == "found" && m.T.Op == OField && m.T.A[0].Op == OMapKey {
										return n == "STH_FULL" || n == "REV_FULL"
									}
								}
								return false
							})
							if why != "" {
								c.fail("incomplete", n, e.Instr, s, "the list of the update for %s need not contain the whole store: %s", n, why)
							}
						}
					}
				}
			}
		case "append":
			for n := range types {
				if x := entryOf(c.in, s, e.Val, mc+n); x != nil {
					c.oblig()
					key := x.A[1]
					s.mark("coll:"+n, key)
					if n == "STH_FULL" || n == "REV_FULL" {
						ok := s.hasMark("cleaned:"+n, tNil)
						for _, y := range s.marked("noconf") {
							ok = ok || sameTerm(s, y, entityOf(key))
						}
						if !ok {
							c.fail("not-cleaned", n, e.Instr, s, "a statement from %s is collected for an update although statements of entities with a conflict proof are not known to have been discarded", n)
						}
					}
				}
			}
		case "fact":
			c.noteProofs(e, id, func(s *State, kind string, x *Term) {
				if kind == "found" {
					s.mark("found", x)
				}
			})
			// an input/output failure excuses the update
			if x, ok := eqNil(e.Key); ok && !e.Truth {
				if x.Op == OExtract {
					x = x.A[0]
				}
				if x.Op == OCall && (strings.HasPrefix(x.S, "os.") || strings.HasPrefix(x.S, "io/ioutil.") || strings.HasPrefix(x.S, "encoding/json.")) {
					s.discharge(func(m Mark) bool { return m.K == "unsaved" })
				}
			}
		case "forall":
			c.noteProofs(e, id, func(s *State, kind string, x *Term) {
				if kind == "found" || kind == "noconf" {
					s.mark(kind, x)
				}
				if kind == "noconf" && x.Op == OField && x.N == id.Entity && x.A[0].Op == OMapKey {
					if n := monitorStore(x.A[0].A[0]); n != "" {
						s.mark("clean:"+n, tNil)
					}
				}
			})
			for _, m := range e.All.marks {
				if strings.HasPrefix(m.K, "clean:") {
					n := strings.TrimPrefix(m.K, "clean:")
					s.mark("cleaned:"+n, tNil)
				}
				if strings.HasPrefix(m.K, "coll:") {
					s.mark("collall:"+strings.TrimPrefix(m.K, "coll:"), tStr(section(s)))
				}
			}
		case "mapupd":
			n := monitorStore(e.Addr)
			if types[n] == nil || !isObjectMap(e.Addr) {
				return
			}
			c.oblig()
			c.site("insertion", n)
			if !s.known(mkEq(g.f(e.Val, g.Type), types[n])) {
				c.fail("kind", n, e.Instr, s, "an object is put into %s although it is not known to be of the type that store is for", n)
			}
			if n == "CONFLICT_POM" || n == "ACCUSATION_POM" {
				if !s.hasMark("delta:"+n, e.Val) {
					s.oblige("delta:"+n, e.Val)
				}
			}
			if strings.HasSuffix(n, "_DELTA") {
				b := strings.TrimSuffix(n, "_DELTA")
				s.mark("delta:"+b, e.Val)
				s.discharge(func(m Mark) bool { return m.K == "delta:"+b && sameTerm(s, m.T, e.Val) })
			}
		case "mapdel", "mapclear":
			n := monitorStore(e.Addr)
			if types[n] == nil {
				return
			}
			c.oblig()
			c.site("removal", n)
			switch n {
			case "CONFLICT_POM_DELTA", "ACCUSATION_POM_DELTA":
				s.oblige("unsaved", tStr(n))
				ok := s.hasMark("collall:"+n, tStr(section(s))) && section(s) != ""
				if e.Kind == "mapdel" {
					ok = ok || s.hasMark("coll:"+n, e.Key) && section(s) != ""
				}
				if !ok {
					c.fail("delta-lost", n, e.Instr, s, "a proof is removed from %s although it has not been collected for an update in the same critical section", n)
				}
			case "STH_FULL", "REV_FULL":
				ok := false
				if e.Kind == "mapdel" {
					s.mark("clean:"+n, tNil)
					for _, x := range s.marked("found") {
						ok = ok || sameTerm(s, x, entityOf(e.Key))
					}
					per := mkField(e.Key, id.Period, e.Key.T)
					for a, p := range s.facts.at {
						if !p && a.Op == OBin && a.S == "==" && (a.A[0] == per && hasNow(a.A[1]) || a.A[1] == per && hasNow(a.A[0])) {
							ok = true
						}
					}
				}
				if !ok {
					c.fail("statement-lost", n, e.Instr, s, "a statement is removed from %s although it may be of the current period and no conflict proof against its entity was found", n)
				}
			}
		case "store":
			if rootIsLocal(e.Addr) {
				return
			}
			n := monitorStore(e.Addr)
			if types[n] == nil {
				return
			}
			c.oblig()
			if strings.HasSuffix(n, "_DELTA") && s.hasMark("collall:"+n, tStr(section(s))) && section(s) != "" && c.freshEmptyMap(c.in, s, e.Val) {
				s.oblige("unsaved", tStr(n))
				return
			}
			c.fail("replaced", n, e.Instr, s, "the store %s is replaced", n)
		case "exit":
			for _, m := range s.obls {
				if m.K == "unsaved" {
					n, _ := m.T.strVal()
					c.fail("unsaved", n, e.Instr, s, "proofs were removed from %s but the update they were collected for is not written", n)
				}
				if strings.HasPrefix(m.K, "delta:") {
					c.fail("not-in-delta", strings.TrimPrefix(m.K, "delta:"), e.Instr, s, "a proof was put into %s but not into its delta store, so it is not part of the next update", strings.TrimPrefix(m.K, "delta:"))
				}
			}
		}
	})
	in.pin = c.pinObject(g)
	c.serverRun(in, "monitor")
	c.needAll("list written", "STH_FULL", "REV_FULL", "CONFLICT_POM_DELTA", "ACCUSATION_POM_DELTA")
	c.needAll("insertion", "STH_FULL", "REV_FULL", "CONFLICT_POM", "ACCUSATION_POM", "CONFLICT_POM_DELTA", "ACCUSATION_POM_DELTA")
}

func isFileWrite(n string) bool {
	switch n {
	case "os.WriteFile", "io/ioutil.WriteFile", "(*os.File).Write", "(*os.File).WriteString", "(*bufio.Writer).Write", "(*bufio.Writer).WriteString":
		return true
	}
	return false
}

// entryOf: v (a value or the list of values appended) is the current entry of a scan over the map at path
func entryOf(in *Interp, s *State, v *Term, path string) *Term {
	var r *Term
	walk(in.snap(s, v), func(x *Term) bool {
		if r == nil && x.Op == OLookup && len(x.A) > 1 && x.A[1].Op == OMapKey && pathOf(x.A[0]) == path && pathOf(x.A[1].A[0]) == path {
			r = x
		}
		return r == nil && x.Op != OField && x.Op != OCall
	})
	return r
}

func init() {
	checks["P17"] = p17
	checks["P18"] = p18
	checks["P19"] = p19
	checks["P20"] = p20
}
