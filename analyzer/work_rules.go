package main

// P42: a monitor asks every logger and CA, passes good answers on and records everything valid it receives.
// P43: the periodic work of every component recurs, publishes and cleans up.

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// monitorPlaces: where a monitor keeps objects of each type
var monitorPlaces = map[string][]string{
	"STH_INIT": {"TEMP"}, "REV_INIT": {"TEMP"},
	"CON_INIT": {"CONFLICT_POM", "CONFLICT_POM_DELTA"},
	"ACC_FULL": {"ACCUSATION_POM", "ACCUSATION_POM_DELTA"},
	"STH_FULL": {"STH_FULL"},
	"REV_FULL": {"REV_FULL", "CRV"},
}

func sameMark(m Mark) func(Mark) bool { return func(x Mark) bool { return x == m } }

// missedBy: the completed loop found x different from every element of the list at path
func missedBy(in *Interp, s *State, e *Event, x *Term, path string) bool {
	if strings.HasPrefix(e.All.loop, "exists:") {
		return false
	}
	for a, p := range e.All.facts.at {
		if p || a.Op != OBin || a.S != "==" {
			continue
		}
		for k := 0; k < 2; k++ {
			el := a.A[k]
			if el.Op == OIndex && pathOf(el.A[0]) == path && sameTerm(s, a.A[1-k], x) && fullRange(in, el.A[1], el.A[0]) {
				return true
			}
		}
	}
	return false
}

func p42(c *C) {
	c.rules = append(c.rules,
		"every pass of the monitor's periodic work queries each element of Logger_URLs and of CA_URLs, or finds a proof against it on file",
		"every answered query ends with the answer posted to the monitor's own gossiper, with the accusation procedure for the entity, or with the signer known not to be in the list of all loggers / CAs",
		"every object a handler decodes is put into every storage that belongs to its type (proofs also into the next update, revocations also into the revocation vector), unless decoding or verification failed or the identical object is on file")
	g := c.goFields()
	id := c.idFields()
	acc := c.defConst("ACC_INIT")
	var in *Interp
	recv := map[*Term]*Term{}
	task := c.p.fn("monitor", "PeriodicTasks")
	if task == nil {
		c.missing("monitor.PeriodicTasks")
		return
	}
	handled := func(s *State, m Mark) bool {
		kind, vars := queryKind(m.T)
		for _, v := range vars {
			for _, k := range []string{"handled:" + kind, "async:handled:" + kind} {
				for _, x := range s.marked(k) {
					if sameTerm(s, x, v) {
						return true
					}
				}
			}
		}
		return false
	}
	settle := func(s *State) {
		if len(s.obls) > 0 {
			s.discharge(func(m Mark) bool { return m.K == "fwd" && handled(s, m) })
		}
	}
	adopt := func(s *State, k string) {
		for _, x := range s.marked("async:" + k) {
			s.mark(k, x)
		}
	}
	pass := func(e *Event) {
		if c.muted() {
			return
		}
		for _, k := range []string{"sth", "rev"} {
			c.oblig()
			if !e.S.hasMark("all-asked:"+k, tNil) {
				c.fail("not-asked", k, e.Instr, e.S, "a pass of the periodic work does not query every entity of the kind (get-%s) although no proof against it is on file", k)
			}
		}
		c.site("pass", "periodic work")
	}
	br := &bodyReads{c: c, reads: map[string]bool{}}
	in = c.interp(func(e *Event) {
		s := e.S
		br.watch(e)
		switch e.Kind {
		case "call":
			if k, vars := queryKind(e.Val0()); k != "" {
				c.site("query", k)
				s.oblige("fwd", e.Val)
				for _, v := range vars {
					s.mark("asked:"+k, v)
				}
				return
			}
			if strings.HasPrefix(in.threadID, "handler:") && len(e.Snap) > 1 && e.Val != nil && (strings.HasSuffix(e.Name, "json.Decoder).Decode") || strings.HasSuffix(e.Name, "encoding/json.Unmarshal")) {
				if t := typeOfValue(e.Snap[1]); t != nil && isNamed(t, "Gossip_object") && fromBody(e.Snap[0]) {
					o := mk(OOut, "", 1, t, e.Val)
					recv[e.Val] = o
					c.oblig()
					c.site("received", in.threadName())
					for n, ps := range monitorPlaces {
						for _, p := range ps {
							s.oblige("rec:"+n+":"+p, o)
						}
					}
				}
			}
			if body := sentBody(e); body != nil {
				_, u := requestOf(mk(OCall, e.Name, 0, nil, e.Snap...))
				vars, _ := concatParts(u)
				for _, o := range marshalled(body) {
					if !isGossipObject(o) {
						continue
					}
					if s.known(mkEq(g.f(o, g.Type), acc)) {
						s.mark("handled:sth", g.payload(o, 0))
						s.mark("handled:rev", g.payload(o, 0))
					}
					if q := answersOf(o); q != nil && hostKind(vars) == "gossiper" {
						s.discharge(func(m Mark) bool {
							if m.K == "fwd" && m.T == q {
								k, _ := queryKind(q)
								c.site("passed on", k)
								return true
							}
							return false
						})
					}
				}
			}
			if mut, _ := bitsetMutator(e); mut && len(e.Snap) > 1 {
				crvMark(s, g, e.Snap[0], e.Snap[1:])
			}
			settle(s)
		case "mapupd":
			n := monitorStore(e.Addr)
			if n == "" {
				return
			}
			if isObjectMap(e.Addr) {
				for _, x := range objectsIn(in, s, e.Val) {
					s.discharge(func(m Mark) bool {
						if !strings.HasPrefix(m.K, "rec:") || !strings.HasSuffix(m.K, ":"+n) || !sameTerm(s, m.T, x) {
							return false
						}
						c.site("recorded", strings.TrimPrefix(m.K, "rec:"))
						return true
					})
				}
				return
			}
			crvMark(s, g, mk(OLookup, "", 0, nil, e.Addr, e.Key), []*Term{in.snap(s, e.Val)})
		case "fact", "forall":
			c.noteProofs(e, id, func(s *State, kind string, x *Term) {
				switch kind {
				case "found":
					for _, k := range []string{"sth", "rev"} {
						s.mark("handled:"+k, x)
						s.mark("asked:"+k, x)
					}
				case "arrived:sth", "arrived:rev":
					s.mark("handled:"+strings.TrimPrefix(kind, "arrived:"), x)
				}
			})
			settle(s)
			if e.Kind == "forall" {
				for _, m := range s.obls {
					if m.K != "fwd" {
						continue
					}
					kind, _ := queryKind(m.T)
					list := "MonitorContext.Monitor_public_config.All_Logger_URLs"
					if kind == "rev" {
						list = "MonitorContext.Monitor_public_config.All_CA_URLs"
					}
					for _, vo := range verifiedObjs(s) {
						if contains(vo[0], m.T) && missedBy(in, s, e, g.f(vo[0], g.Signer), list) {
							m := m
							s.discharge(sameMark(m))
							break
						}
					}
				}
				for _, k := range e.All.marks {
					kind := strings.TrimPrefix(k.K, "asked:")
					if kind == k.K || k.T.Op != OIndex {
						continue
					}
					list := "MonitorContext.Monitor_private_config.Logger_URLs"
					if kind == "rev" {
						list = "MonitorContext.Monitor_private_config.CA_URLs"
					}
					if pathOf(k.T.A[0]) == list && fullRange(in, k.T.A[1], k.T.A[0]) {
						s.mark("all-asked:"+kind, tNil)
						c.site("asked", kind)
					}
				}
				return
			}
			a := e.Key
			if x, ok := eqNil(a); ok && !e.Truth {
				if o := recv[x]; o != nil {
					s.discharge(func(m Mark) bool { return m.T == o })
				}
				// the revocation data cannot be decoded
				s.discharge(func(m Mark) bool {
					return strings.HasSuffix(m.K, ":CRV") && contains(x, g.payload(m.T, 2)) && !isVerifyCall(x)
				})
				if isVerifyCall(x) {
					s.discharge(func(m Mark) bool { return strings.HasPrefix(m.K, "rec:") && sameTerm(s, m.T, stripRef(x.A[0])) })
				}
			}
			same := e.Truth && (a.Op == OCall && a.S == "reflect.DeepEqual" && len(a.A) == 2 || a.Op == OBin && a.S == "==")
			for _, m := range s.obls {
				if !strings.HasPrefix(m.K, "rec:") {
					continue
				}
				m := m
				n := strings.Split(m.K, ":")[1]
				if same {
					for k := 0; k < 2; k++ {
						x, y := stripRef(a.A[k]), stripRef(a.A[1-k])
						if sameTerm(s, x, m.T) && y.Op == OLookup && monitorStore(y.A[0]) != "" {
							s.discharge(sameMark(m))
						}
					}
				}
				if a.Op == OBin && a.S == "==" {
					t := g.f(m.T, g.Type)
					for k := 0; k < 2; k++ {
						if a.A[k] != t && s.canon(a.A[k]) != s.canon(t) {
							continue
						}
						if v := a.A[1-k]; v.Op == OConst && e.Truth == (v != c.defConst(n)) && (e.Truth || v == c.defConst(n)) {
							s.discharge(sameMark(m))
						}
					}
				}
			}
		case "spawned":
			settle(s)
			for _, k := range []string{"asked:sth", "asked:rev", "all-asked:sth", "all-asked:rev", "crv"} {
				adopt(s, k)
			}
		case "leave":
			settle(s)
			if e.Name == task.RelString(nil) {
				pass(e)
			}
		case "exit":
			settle(s)
			if e.Name == task.RelString(nil) {
				pass(e)
			}
			if c.muted() || e.Mode == "" {
				return
			}
			for _, m := range s.obls {
				c.oblig()
				if m.K == "fwd" {
					k, _ := queryKind(m.T)
					c.fail("answer-dropped", k, e.Instr, s, "a thread ends although the answer to its query (get-%s) was neither passed on to the gossiper nor found wanting", k)
					continue
				}
				f := strings.Split(m.K, ":")
				if t := s.canon(g.f(m.T, g.Type)); t.Op == OConst && t != c.defConst(f[1]) {
					continue
				}
				if f[2] == "CRV" && s.hasMark("crv", m.T) {
					continue
				}
				c.fail("not-recorded", f[1]+" in "+f[2], e.Instr, s, "a valid new object of type %s may not be recorded in the monitor's %s", f[1], f[2])
			}
		}
	})
	in.keepFact = keepVerify
	in.pin = c.pinObject(g)
	c.serverRun(in, "monitor")
	br.finish()
	c.needAll("query", "sth", "rev")
	c.needAll("passed on", "sth", "rev")
	c.needAll("asked", "sth", "rev")
	c.need("received", 1)
	c.need("pass", 1)
	for n, ps := range monitorPlaces {
		for _, p := range ps {
			if p != "CRV" {
				c.needAll("recorded", n+":"+p)
			}
		}
	}
}

// crvMark: the revocation vector target of a CA changes by values taken from an object about that CA
func crvMark(s *State, g goFields, target *Term, vals []*Term) {
	var key *Term
	walk(target, func(x *Term) bool {
		if key == nil && x.Op == OLookup && monitorStore(x.A[0]) == "CRV" {
			key = x.A[1]
		}
		return key == nil
	})
	if key == nil {
		return
	}
	for _, v := range vals {
		walk(v, func(o *Term) bool {
			if o.Op == OOut && isGossipObject(o) && sameTerm(s, key, g.payload(o, 0)) && contains(v, g.payload(o, 2)) {
				s.mark("crv", o)
			}
			return true
		})
	}
}

// reaches: f calls target directly or through static calls
func reaches(f, target *ssa.Function, depth int) bool {
	if f == target {
		return true
	}
	if depth == 0 || f == nil {
		return false
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if cc, ok := i.(ssa.CallInstruction); ok {
				if g := cc.Common().StaticCallee(); g != nil && g.Blocks != nil && reaches(g, target, depth-1) {
					return true
				}
			}
		}
	}
	return false
}

func init() { checks["P42"] = p42 }

// ---- P43 ----

type pass struct {
	server string
	task   string            // the periodic function
	period string            // the configured period
	want   map[string]string // mark -> what is missing without it
}

var passes = []pass{
	{"gossiper", "PeriodicTasks", "MMD", map[string]string{
		"wiped:STH_INIT": "", "wiped:REV_INIT": "", "wiped:ACC_INIT": "", "wiped:STH_FRAG": "", "wiped:REV_FRAG": "", "wiped:ACC_FRAG": "",
		"wiped:STH_FULL": "", "wiped:REV_FULL": "", "wiped:ACC_FULL": "", "wiped:REV_PAYLOAD": ""}},
	{"monitor", "PeriodicTasks", "MMD", map[string]string{
		"wiped:TEMP": "", "wiped:STH_FULL": "", "wiped:REV_FULL": "", "update": "the client update of the period is not written"}},
	{"Logger", "PeriodicTask", "MMD", map[string]string{
		"published": "no tree head is put into STH_storage although two or more precertificates were collected", "told": "the tree head is not sent to every CA"}},
	{"CA", "PeriodicTask", "MMD", map[string]string{
		"published": "no revocation is put into REV_storage", "logged": "not every precertificate generated is sent to every logger of the CA",
		"pooled":            "not every precertificate generated is put into the CA's pool",
		"wiped:STH_storage": ""}},
}

func p43(c *C) {
	c.rules = append(c.rules,
		"every pass of a component's periodic function arms a timer of one period (MMD seconds) whose function runs it again, and the component starts serving only after its first pass was started",
		"gossiper: every pass empties the stores of initial statements, fragments and threshold objects (labels repeat every hour); monitor: every pass drops temporary statements and statements of other periods and writes the client update",
		"logger: every pass puts a tree head into its storage and sends it to every CA unless fewer than two precertificates were collected; CA: every pass puts a revocation into its storage, forgets the tree heads of the last period, and sends every precertificate generated to every logger")
	for _, p := range passes {
		c.passesOf(p)
	}
}

func (c *C) passesOf(p pass) {
	task := c.p.fn(servers[p.server][0], p.task)
	if task == nil {
		c.missing(servers[p.server][0] + "." + p.task)
		return
	}
	name := task.RelString(nil)
	id := c.idFields()
	var in *Interp
	all := map[string]bool{"ran": true, "armed": true, "told:CA": true}
	for k := range p.want {
		all[k] = true
	}
	arms := false
	drop := func(s *State, ks ...string) {
		s.unmark(func(m Mark) bool { return contains1(ks, m.K) })
	}
	end := func(e *Event) {
		if c.muted() {
			return
		}
		s := e.S
		c.oblig()
		c.site(p.server+" pass", in.threadName())
		if !s.hasMark("armed", tNil) {
			c.fail("not-armed", p.server, e.Instr, s, "%s: a pass of the periodic work ends without a timer of one period (MMD seconds) that starts the next", p.server)
		}
		for k, text := range p.want {
			c.oblig()
			if s.hasMark(k, tNil) {
				continue
			}
			if text == "" {
				text = "the entries of " + strings.TrimPrefix(k, "wiped:") + " that do not belong to the current period are not removed"
			}
			c.fail("undone", p.server+" "+k, e.Instr, s, "%s: in a pass of the periodic work (or its timers), %s", p.server, text)
		}
	}
	storeOf := func(m *Term) string {
		switch p.server {
		case "gossiper":
			return storageMap(m)
		case "monitor":
			return monitorStore(m)
		}
		path := pathOf(m)
		for _, n := range []string{"STH_storage", "REV_storage"} {
			if strings.HasSuffix(path, "Context."+n) {
				return n
			}
		}
		return ""
	}
	// notNow: the atom compares the period of an entry key with the current period
	notNow := func(a *Term) *Term {
		if a.Op != OBin || a.S != "==" {
			return nil
		}
		for k := 0; k < 2; k++ {
			if x := a.A[k]; x.Op == OField && x.N == id.Period && x.A[0].Op == OMapKey && hasNow(a.A[1-k]) {
				return x.A[0]
			}
		}
		return nil
	}
	in = c.interp(func(e *Event) {
		s := e.S
		switch e.Kind {
		case "enter":
			if strings.HasSuffix(e.Name, "crypto.CertPool).AddCert") && len(e.Args) > 1 && strings.HasSuffix(pathOf(e.Args[0]), ".CurrentCertificatePool") {
				s.mark("pooled", mk(OExtract, "", 0, nil, e.Args[1], in.snap(s, e.Args[1])))
			}
			if e.Name == name {
				s.mark("ran", tNil)
			}
		case "spawn":
			if e.Mode != "timer" && e.Mode != "go" {
				return
			}
			drop(s, "arming", "async:ran", "ran-before")
			if e.Mode == "timer" && arms {
				arms = false
				if contains1(in.thread, e.Name) {
					s.mark("armed", tNil) // the thread starts itself again
					return
				}
				s.mark("arming", tNil)
				if s.hasMark("ran", tNil) {
					s.mark("ran-before", tNil)
					drop(s, "ran")
				}
			}
			if e.Name == name {
				s.mark("ran", tNil)
			}
		case "spawned":
			if s.hasMark("arming", tNil) {
				if s.hasMark("async:ran", tNil) {
					s.mark("armed", tNil)
				}
				if s.hasMark("ran-before", tNil) {
					s.mark("ran", tNil)
				}
				drop(s, "arming", "ran-before")
			}
			for k := range all {
				if k != "armed" && s.hasMark("async:"+k, tNil) {
					s.mark(k, tNil)
				}
			}
			for _, x := range s.marked("async:sent") {
				s.mark("sent", x)
			}
		case "call":
			switch {
			case e.Name == "time.AfterFunc" && len(e.Args) > 1:
				arms = false
				if cc := in.funcVal(e.Args[1]); cc != nil && cc.fn != nil && reaches(cc.fn, task, 3) {
					arms = durationOf(s.canon(e.Args[0]), p.period)
				}
			case strings.HasSuffix(e.Name, ".ListenAndServe"):
				c.oblig()
				c.site("serving", p.server)
				if !s.hasMark("ran", tNil) {
					c.fail("not-started", p.server, e.Instr, s, "%s: requests are served although the periodic work was not started", p.server)
				}
			case isFileWrite(e.Name):
				for _, a := range e.Snap {
					for _, o := range marshalled(a) {
						if o.T != nil && isNamed(o.T, "ClientUpdate") {
							s.mark("update", tNil)
						}
					}
				}
			case isHTTPSend(e.Name):
				_, u := requestOf(mk(OCall, e.Name, 0, nil, e.Snap...))
				vars, _ := concatParts(u)
				body := sentBody(e)
				if body == nil || len(vars) == 0 {
					return
				}
				s.mark("sent", mk(OCall, "sent", 0, nil, body, vars[0]))
			}
		case "mapupd":
			if n := storeOf(e.Addr); n == "STH_storage" && p.server == "Logger" || n == "REV_storage" && p.server == "CA" {
				s.mark("published", tNil)
				c.site(p.server+" published", n)
			}
		case "mapdel":
			if n := storeOf(e.Addr); n != "" {
				s.mark("deleted:"+n, e.Key)
			}
		case "mapclear":
			if n := storeOf(e.Addr); n != "" {
				s.mark("wiped:"+n, tNil)
			}
		case "store":
			if p.server == "gossiper" {
				for _, f := range c.storesInto(in, e, gStore) {
					if c.freshEmptyMap(in, s, f.val) {
						s.mark("wiped:"+f.name, tNil)
						c.site("wiped", f.name)
					}
				}
				return
			}
			if n := storeOf(e.Addr); n != "" && c.freshEmptyMap(in, s, e.Val) {
				s.mark("wiped:"+n, tNil)
			}
		case "fact":
			a := e.Key
			if k := notNow(a); k != nil && e.Truth {
				if n := storeOf(k.A[0]); n != "" {
					s.mark("deleted:"+n, k) // may stay
				}
			}
			if p.server == "Logger" && fewer(a, e.Truth, 2) {
				s.mark("published", tNil)
				s.mark("told", tNil)
				c.site("Logger", "too few")
			}
			if x, ok := eqNil(a); ok && !e.Truth && p.server == "monitor" {
				if x.Op == OExtract {
					x = x.A[0]
				}
				if x.Op == OCall && (strings.HasPrefix(x.S, "os.") || strings.HasPrefix(x.S, "io/ioutil.") || strings.HasPrefix(x.S, "encoding/json.")) {
					s.mark("update", tNil)
				}
			}
		case "forall":
			for _, m := range e.All.marks {
				if n := strings.TrimPrefix(m.K, "deleted:"); n != m.K && m.T.Op == OMapKey && storeOf(m.T.A[0]) == n {
					s.mark("wiped:"+n, tNil)
					c.site("wiped", n)
				}
				k := strings.TrimPrefix(m.K, "async:")
				if k == "sent" {
					body, h := m.T.A[0], m.T.A[1]
					if h.Op == OIndex && fullRange(in, h.A[1], h.A[0]) {
						path := pathOf(h.A[0])
						switch {
						case p.server == "Logger" && strings.HasSuffix(path, ".All_CA_URLs"):
							for _, o := range marshalled(body) {
								if isGossipObject(o) {
									s.mark("told", tNil)
									c.site("Logger", "told")
								}
							}
						case p.server == "CA" && strings.HasSuffix(path, ".Loggerlist"):
							s.mark("to-loggers", body)
						}
					}
				}
				if k == "pooled" {
					walk(m.T, func(x *Term) bool {
						if x.Op != OIndex && x.Op != OIndexPtr {
							return true
						}
						// in step with the list that is sent
						ok := fullRange(in, x.A[1], x.A[0])
						for _, m2 := range e.All.marks {
							if m2.K == "to-loggers" && contains(m2.T, x.A[1]) {
								walk(m2.T, func(y *Term) bool {
									ok = ok || y.Op == OIndex && y.A[1] == x.A[1] && fullRange(in, y.A[1], y.A[0])
									return true
								})
							}
						}
						if ok {
							s.mark("pooled", tNil)
							c.site("CA", "pooled")
						}
						return true
					})
				}
				if m.K == "to-loggers" {
					// every element of the list of new precertificates
					walk(m.T, func(x *Term) bool {
						if x.Op == OIndex && fullRange(in, x.A[1], x.A[0]) {
							s.mark("logged", tNil)
							c.site("CA", "logged")
						}
						return true
					})
				}
			}
		case "leave":
			if e.Name == name {
				end(e)
			}
		case "exit":
			if e.Name == name {
				end(e)
			}
		}
	})
	c.serverRun(in, p.server)
	c.need(p.server+" pass", 1)
	c.need("serving", 1)
}

// isPeriod: the configured number of seconds per period
func isPeriod(t *Term, field string) bool {
	t = stripConv(t)
	return strings.HasSuffix(pathOf(t), "."+field)
}

// durationOf: the duration is field * time.Second in another notation
func durationOf(d *Term, field string) bool {
	d = stripConv(d)
	if d.Op != OBin || d.S != "*" {
		return false
	}
	for i := 0; i < 2; i++ {
		if b, k := splitAdd(stripConv(d.A[1-i])); b == nil && k == 1e9 && isPeriod(d.A[i], field) {
			return true
		}
	}
	return false
}

// fewer: the atom says that a collection has fewer than n elements
func fewer(a *Term, p bool, n int64) bool {
	if a.Op != OBin {
		return false
	}
	isLen := func(t *Term) bool { return t.Op == OLen && strings.Contains(pathOf(t.A[0]), "CurrentPrecertPool") }
	num := func(t *Term) (int64, bool) {
		b, k := splitAdd(t)
		if b == nil && t.Op == OConst {
			return k, true
		}
		return 0, false
	}
	switch a.S {
	case "<":
		if k, ok := num(a.A[1]); ok && isLen(a.A[0]) && p {
			return k <= n
		}
		if k, ok := num(a.A[0]); ok && isLen(a.A[1]) && !p {
			return k < n // len <= k
		}
	case "==":
		for i := 0; i < 2; i++ {
			if k, ok := num(a.A[i]); ok && isLen(a.A[1-i]) && p {
				return k < n
			}
		}
	}
	return false
}

func init() { checks["P43"] = p43 }

func contains1(l []string, k string) bool {
	for _, x := range l {
		if x == k {
			return true
		}
	}
	return false
}
