package main

// P32: the routes components serve and the requests components send agree.

import (
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type route struct {
	srv, path string
	methods   map[string]bool // empty: all
	strict    bool
	handler   string
	instr     ssa.Instruction
}

type endpoint struct { // what the handler of a route does
	reads  map[types.Type]bool // what it decodes from the request body
	writes map[types.Type]bool // what it answers with, on some path that did not need a request body
	any    map[types.Type]bool // what it answers with
	odd    bool                // it reads or answers in some other way
}

type request struct {
	from, to     string
	method, path string
	body         types.Type
	instr        ssa.Instruction
	s            *State
	term         *Term
}

var hostKinds = map[string]string{
	"CAlist": "CA", "CA_URLs": "CA", "All_CA_URLs": "CA",
	"Loggerlist": "Logger", "Logger_URLs": "Logger", "All_Logger_URLs": "Logger",
	"Gossiper_URL": "gossiper", "Connected_Gossipers": "gossiper", "Gossiperlist": "gossiper", "Gossiper_URLs": "gossiper",
	"Owner_URL": "monitor", "Monitorlist": "monitor",
}

func hostKind(vars []*Term) string {
	if len(vars) == 0 {
		return ""
	}
	k := ""
	p := pathOf(noIndex(vars[0]))
	for _, f := range strings.Split(p, ".") {
		if x := hostKinds[strings.TrimRight(f, "[]")]; x != "" {
			k = x
		}
	}
	return k
}

func noPtr(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func sameMessage(a, b types.Type) bool {
	return types.Identical(a, b) || types.Identical(a.Underlying(), b.Underlying())
}

// typeOfValue: the type of a value handed to json (unwrapping interfaces and pointers)
func typeOfValue(t *Term) types.Type {
	t = stripIface(t)
	if t.T == nil {
		return nil
	}
	r := noPtr(t.T)
	if _, ok := r.Underlying().(*types.Interface); ok {
		return nil
	}
	return r
}

var pathVar = regexp.MustCompile(`\{[^}]*\}`)

func (r *route) serves(method, path string) bool {
	if len(r.methods) > 0 && !r.methods[method] {
		return false
	}
	ok := func(p, q string) bool {
		if p == q {
			return true
		}
		if !strings.Contains(p, "{") {
			return false
		}
		x := "^" + pathVar.ReplaceAllString(regexp.QuoteMeta(p), "[^/]+") + "$"
		x = strings.NewReplacer(`\{`, "{", `\}`, "}").Replace(x)
		m, err := regexp.MatchString(pathVar.ReplaceAllString(x, "[^/]+"), q)
		return err == nil && m
	}
	if ok(r.path, path) {
		return true
	}
	// the redirect of a strict-slash router loses the body of other requests
	return r.strict && (method == "GET" || method == "HEAD") && (ok(r.path+"/", path) || ok(r.path, path+"/"))
}

func argStrings(ts []*Term) []string {
	var r []string
	for _, t := range ts {
		walk(t, func(x *Term) bool {
			if v, ok := x.strVal(); ok && x.Op == OConst {
				r = append(r, v)
			}
			return true
		})
	}
	return r
}

// routePath: the path a route term was registered with
func routePath(t *Term) (string, bool) {
	p, ok := "", false
	walk(t, func(x *Term) bool {
		if ok {
			return false
		}
		if x.Op == OCall && len(x.A) > 1 && (strings.HasSuffix(x.S, ").HandleFunc") || strings.HasSuffix(x.S, ").Handle") || strings.HasSuffix(x.S, ").Path")) {
			p, ok = x.A[1].strVal()
			return false
		}
		return true
	})
	return p, ok
}

func p32(c *C) {
	c.rules = append(c.rules,
		"every HTTP request with a constant path that a component can send is answered by a route of the component it is sent to (told by the configuration list the host comes from): same path (for GET also up to the trailing slash of a strict-slash router), method allowed",
		"the type marshalled into the request is the type the route's handler decodes from the request body; the type a response is decoded into is a type the handler writes; a request without body gets that answer on some path that decoded no body",
		"no two routes of one component share path and method with different handlers")
	var routes []*route
	var reqs []*request
	ends := map[string]*endpoint{}
	end := func(id string) *endpoint {
		if ends[id] == nil {
			ends[id] = &endpoint{map[types.Type]bool{}, map[types.Type]bool{}, map[types.Type]bool{}, false}
		}
		return ends[id]
	}
	type answer struct {
		q *Term
		t types.Type
		i ssa.Instruction
	}
	answers := map[string][]answer{}
	strictAt := func(t *Term) bool {
		ok := false
		walk(t, func(x *Term) bool {
			if x.Op == OCall && strings.HasSuffix(x.S, "mux.Router).StrictSlash") && len(x.A) > 1 && x.A[1] == tTrue {
				ok = true
			}
			return !ok
		})
		return ok
	}
	observe := func(srv string) func(e *Event) {
		strictLater := map[*Term]bool{}
		return func(e *Event) {
			if e.Kind != "call" {
				return
			}
			isDecode := strings.HasSuffix(e.Name, "json.Decoder).Decode") || strings.HasSuffix(e.Name, "encoding/json.Unmarshal")
			if isDecode && len(e.Snap) > 1 && strings.HasPrefix(c.in.threadID, "handler:") && fromBody(e.Snap[0]) {
				e.S.mark("body decoded", tNil)
				if !c.muted() {
					if t := typeOfValue(e.Snap[1]); t != nil {
						end(srv + " " + c.in.threadID).reads[t] = true
					}
				}
			}
			if c.muted() {
				return
			}
			switch {
			case strings.HasSuffix(e.Name, "mux.Router).StrictSlash"):
				if e.Snap[1] == tTrue {
					strictLater[e.Snap[0]] = true
				}
			case strings.HasSuffix(e.Name, ").HandleFunc"), strings.HasSuffix(e.Name, ").Handle"), e.Name == "net/http.HandleFunc", e.Name == "net/http.Handle", strings.HasSuffix(e.Name, "mux.Route).HandlerFunc"), strings.HasSuffix(e.Name, "mux.Route).Handler"):
				h := e.Args[len(e.Args)-1]
				cc := c.in.funcVal(h)
				if cc == nil || cc.fn == nil {
					if t := stripIface(h).T; t != nil {
						if _, ok := t.Underlying().(*types.Signature); !ok {
							return // a whole router
						}
					}
					c.site("route not resolved", c.p.pos(e.Instr))
					return
				}
				id := handlerTarget(e.S, cc, nil)
				if id == "" {
					id = shortFn(cc.fn)
				}
				r := &route{srv: srv, handler: "handler:" + id, instr: e.Instr, methods: map[string]bool{}}
				if strings.Contains(e.Name, "mux.Route)") {
					p, ok := routePath(e.Snap[0])
					if !ok {
						c.site("route not resolved", c.p.pos(e.Instr))
						return
					}
					r.path = p
					walk(e.Snap[0], func(x *Term) bool {
						if x.Op == OCall && strings.HasSuffix(x.S, ").Methods") {
							for _, m := range argStrings(x.A[1:]) {
								r.methods[m] = true
							}
						}
						return true
					})
				} else {
					p, ok := e.Snap[len(e.Snap)-2].strVal()
					if !ok {
						c.site("route not resolved", c.p.pos(e.Instr))
						return
					}
					r.path = p
					walk(e.Snap[0], func(x *Term) bool {
						if x.Op == OCall && strings.HasSuffix(x.S, ").Methods") {
							for _, m := range argStrings(x.A[1:]) {
								r.methods[m] = true
							}
						}
						return true
					})
				}
				r.strict = strictAt(e.Snap[0])
				for t := range strictLater {
					if contains(e.Snap[0], t) {
						r.strict = true
					}
				}
				routes = append(routes, r)
				c.site("route", srv+" "+r.path)
			case strings.HasSuffix(e.Name, "mux.Route).Methods"):
				if p, ok := routePath(e.Snap[0]); ok {
					for _, r := range routes {
						if r.srv == srv && r.path == p {
							for _, m := range argStrings(e.Snap[1:]) {
								r.methods[m] = true
							}
						}
					}
				}
			case isHTTPSend(e.Name):
				call := mk(OCall, e.Name, 0, nil, e.Snap...)
				m, u := requestOf(call)
				vars, text := concatParts(u)
				q := &request{from: srv, to: hostKind(vars), method: m, instr: e.Instr, s: e.S, term: call}
				if i := strings.IndexByte(text, '\x00'); i >= 0 && !strings.Contains(text[i+1:], "\x00") && len(text) > i+1 && text[i+1] == '/' {
					q.path = text[i+1:]
					if j := strings.IndexByte(q.path, '?'); j >= 0 {
						q.path = q.path[:j]
					}
				}
				if b := sentBody(e); b != nil {
					if ms := marshalled(b); len(ms) == 1 {
						q.body = typeOfValue(ms[0])
					}
				}
				reqs = append(reqs, q)
			case isDecode:
				if len(e.Snap) > 1 {
					if q := decodedFrom(e.Snap[0]); q != nil {
						if t := typeOfValue(e.Snap[1]); t != nil {
							answers[srv] = append(answers[srv], answer{q, t, e.Instr})
						}
					}
				}
			}
			if strings.HasPrefix(c.in.threadID, "handler:") && isResponseWrite(e) {
				ep := end(srv + " " + c.in.threadID)
				var ts []types.Type
				if strings.HasSuffix(e.Name, "Encode") {
					if t := typeOfValue(e.Args[1]); t != nil {
						ts = append(ts, t)
					}
				} else {
					for _, a := range e.Snap {
						for _, m := range marshalled(a) {
							if t := typeOfValue(m); t != nil {
								ts = append(ts, t)
							}
						}
					}
				}
				if len(ts) == 0 {
					ep.odd = true
				}
				for _, t := range ts {
					ep.any[t] = true
					if len(e.S.marked("body decoded")) == 0 {
						ep.writes[t] = true
					}
				}
			}
		}
	}
	for _, srv := range []string{"Logger", "CA", "monitor", "gossiper"} {
		in := c.interp(observe(srv))
		c.serverRun(in, srv)
	}
	// the client fetches what the operations that apply updates take
	wants := map[string]types.Type{}
	ops, _, _ := c.updateOps()
	for _, f := range ops {
		for _, p := range f.Params {
			if structOf(noPtr(p.Type())) != nil && !isNamed(p.Type(), "ClientContext") {
				wants[typeKey(noPtr(p.Type()))] = noPtr(p.Type())
			}
		}
	}
	for _, f := range c.p.allFuncsOf(c.p.pkgs["client"]) {
		if f.Object() == nil || !f.Object().Exported() || f.Parent() != nil || f.Synthetic != "" || f.Signature.Recv() != nil {
			continue
		}
		fetches := false
		for i := 0; i < f.Signature.Results().Len(); i++ {
			for _, w := range wants {
				if types.Identical(noPtr(f.Signature.Results().At(i).Type()), w) {
					fetches = true
				}
			}
		}
		if !fetches {
			continue
		}
		in := c.interp(observe("client"))
		c.exits(in, f)
	}
	c.in = nil

	// routes of one component do not shadow each other
	for i, r := range routes {
		for _, q := range routes[:i] {
			if r.srv != q.srv || r.path != q.path || r.handler == q.handler {
				continue
			}
			both := len(r.methods) == 0 || len(q.methods) == 0
			for m := range r.methods {
				both = both || q.methods[m]
			}
			if both {
				c.obls++
				c.failAt("shadowed", r.path, r.instr, "route %s of the %s is registered for two handlers (%s, %s) with the same method: the second never runs", r.path, r.srv, q.handler, r.handler)
			}
		}
	}
	find := func(q *request) (*route, string) {
		why := "no component"
		if q.to != "" {
			why = "the " + q.to + " does not"
		}
		var paths []string
		for _, r := range routes {
			if q.to != "" && r.srv != q.to {
				continue
			}
			if r.serves(q.method, q.path) {
				return r, ""
			}
			paths = append(paths, r.path)
		}
		sort.Strings(paths)
		return nil, why
	}
	for _, q := range reqs {
		if q.from == "client" {
			continue
		}
		if q.path == "" {
			c.site("request path not constant", c.p.pos(q.instr))
			continue
		}
		c.obls++
		c.site("request", q.from+" "+q.method+" "+q.path)
		r, why := find(q)
		if r == nil {
			c.failAt("route", q.path, q.instr, "%s sends %s %s, which %s serve", q.from, q.method, q.path, why)
			continue
		}
		c.site("link", q.from+" to "+r.srv)
		ep := ends[r.srv+" "+r.handler]
		if q.body != nil && ep != nil && len(ep.reads) > 0 {
			ok := false
			for t := range ep.reads {
				ok = ok || sameMessage(t, q.body)
			}
			c.obls++
			if !ok {
				c.failAt("type", q.path, q.instr, "%s sends a %s to %s, whose handler %s decodes %s", q.from, typeKey(q.body), q.path, r.handler, typeNames(ep.reads))
			}
		}
	}
	for _, srv := range sortedKeys(answers) {
		if srv == "client" {
			continue
		}
		for _, a := range answers[srv] {
			m, u := requestOf(a.q)
			vars, text := concatParts(u)
			q := &request{from: srv, to: hostKind(vars), method: m, instr: a.i}
			i := strings.IndexByte(text, '\x00')
			if i < 0 {
				continue
			}
			q.path = strings.SplitN(text[i+1:], "?", 2)[0]
			if q.path == "" || strings.Contains(q.path, "\x00") {
				continue
			}
			r, _ := find(q)
			if r == nil {
				continue // reported above
			}
			c.served(ends[r.srv+" "+r.handler], a.t, m == "GET", q, r)
		}
	}
	for _, a := range answers["client"] {
		want := false
		for _, w := range wants {
			want = want || types.Identical(w, a.t)
		}
		if !want {
			continue
		}
		c.obls++
		c.site("link", "client to monitor")
		m, _ := requestOf(a.q)
		ok, without := false, false
		for _, r := range routes {
			if r.srv != "monitor" || len(r.methods) > 0 && !r.methods[m] {
				continue
			}
			if ep := ends[r.srv+" "+r.handler]; ep != nil {
				for t := range ep.any {
					ok = ok || sameMessage(t, a.t)
				}
				for t := range ep.writes {
					without = without || sameMessage(t, a.t)
				}
			}
		}
		if !ok {
			c.failAt("update", typeKey(a.t), a.i, "the client fetches a %s with %s, which no %s route of the monitor answers with", typeKey(a.t), m, m)
		} else if !without && m == "GET" {
			c.failAt("update-body", typeKey(a.t), a.i, "the client fetches a %s with a GET that has no body, but the monitor's route answers only after decoding the request body", typeKey(a.t))
		}
	}
	c.need("route", 8)
	c.needAll("link", "Logger to CA", "CA to Logger", "monitor to Logger", "monitor to CA", "monitor to gossiper", "gossiper to gossiper", "gossiper to monitor", "client to monitor")
}

func (c *C) served(ep *endpoint, t types.Type, noBody bool, q *request, r *route) {
	if ep == nil {
		return
	}
	c.obls++
	l := ep.any
	if noBody {
		l = ep.writes
	}
	for x := range l {
		if sameMessage(x, t) {
			return
		}
	}
	if ep.odd && len(ep.any) == 0 {
		return
	}
	c.failAt("response", q.path, q.instr, "%s decodes the answer to %s %s as %s, but handler %s answers with %s", q.from, q.method, q.path, typeKey(t), r.handler, typeNames(l))
}

// decodedFrom: the request whose response bytes t are, not further decoded
func decodedFrom(t *Term) *Term {
	var q *Term
	walk(t, func(x *Term) bool {
		if x.Op == OOut {
			return false
		}
		if x.Op == OCall && isHTTPSend(x.S) && q == nil {
			q = x
		}
		return q == nil
	})
	return q
}

func typeNames(m map[types.Type]bool) string {
	if len(m) == 0 {
		return "nothing"
	}
	var r []string
	for t := range m {
		r = append(r, typeKey(t))
	}
	sort.Strings(r)
	return strings.Join(r, ", ")
}

func init() { checks["P32"] = p32 }

// fromBody: the bytes come from the body of the request being handled
func fromBody(t *Term) bool {
	hit := false
	walk(t, func(x *Term) bool {
		if x.Op == OOut {
			return false // what was decoded already
		}
		if x.Op == OField && x.A[0].Op == OSym || x.Op == OField && x.A[0].Op == ODeref {
			if strings.HasSuffix(short(x), ".Body") && fromNetwork(x) {
				hit = true
			}
		}
		return !hit
	})
	return hit
}
