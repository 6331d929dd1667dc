package main

// P48, P51: the generated deployment and its addresses.

import (
	"go/types"
	"sort"
	"strings"
)

// identity-holding fields: role, and whether it is the entity's own, the complete list of the role, or some of it
type idField struct {
	name, role string
	kind       byte // 'o'wn, 'f'ull list, 's'ome
}

var deployRoles = []string{"CA", "Logger", "Monitor", "Gossiper"}

var deployFields = map[string][]idField{
	"CA_private_config":       {{"Signer", "CA", 'o'}, {"Loggerlist", "Logger", 's'}, {"Monitorlist", "Monitor", 'f'}, {"Gossiperlist", "Gossiper", 'f'}},
	"CA_public_config":        {{"All_CA_URLs", "CA", 'f'}, {"All_Logger_URLs", "Logger", 'f'}},
	"Logger_private_config":   {{"Signer", "Logger", 'o'}, {"CAlist", "CA", 'f'}, {"Monitorlist", "Monitor", 'f'}, {"Gossiperlist", "Gossiper", 'f'}},
	"Logger_public_config":    {{"All_CA_URLs", "CA", 'f'}, {"All_Logger_URLs", "Logger", 'f'}},
	"Monitor_private_config":  {{"Signer", "Monitor", 'o'}, {"Gossiper_URL", "Gossiper", 'o'}, {"CA_URLs", "CA", 'f'}, {"Logger_URLs", "Logger", 'f'}},
	"Monitor_public_config":   {{"All_CA_URLs", "CA", 'f'}, {"All_Logger_URLs", "Logger", 'f'}},
	"Gossiper_private_config": {{"Owner_URL", "Monitor", 'o'}, {"Connected_Gossipers", "Gossiper", 's'}},
	"Gossiper_public_config":  {{"Gossiper_URLs", "Gossiper", 'f'}, {"Signer_URLs", "Monitor", 'f'}},
}

func deployRole(config string) string {
	for _, r := range deployRoles {
		if strings.HasPrefix(config, r+"_") {
			return r
		}
	}
	return ""
}

func namedName(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// prefixRole: the role an identity prefix stands for
func prefixRole(text string) string {
	switch {
	case strings.HasPrefix(text, "localhost:6"):
		return "CA"
	case strings.HasPrefix(text, "localhost:7"):
		return "Logger"
	case strings.HasPrefix(text, "localhost:8"):
		return "Monitor"
	case strings.HasPrefix(text, "localhost:9"):
		return "Gossiper"
	}
	return ""
}

// factRole: the role that is known of identity x from its prefix
func factRole(f *Facts, x *Term) string {
	role := ""
	for a, p := range f.at {
		if !p || !contains(a, x) {
			continue
		}
		if !(a.Op == OBin && a.S == "==") && !(a.Op == OCall && a.S == "strings.HasPrefix") {
			continue
		}
		walk(a, func(t *Term) bool {
			if v, ok := t.strVal(); ok && prefixRole(v) != "" {
				role = prefixRole(v)
			}
			return true
		})
	}
	return role
}

// readdressed: v = address of entity number n of a role ‖ the port of the old identity x
func readdressed(v *Term) (role string, n, x *Term) {
	v = stripConv(v)
	if v.Op != OConcat || len(v.A) < 2 || len(v.A) > 3 {
		return
	}
	lk := stripConv(v.A[0])
	if lk.Op != OLookup || !strings.HasSuffix(pathOf(lk.A[0]), "_ip_map") {
		return
	}
	p := pathOf(lk.A[0])
	p = p[strings.LastIndex(p, ".")+1:]
	role, n = strings.TrimSuffix(p, "_ip_map"), stripConv(lk.A[1])
	colon := len(v.A) == 3
	if colon {
		if t, ok := v.A[1].strVal(); !ok || t != ":" {
			return "", nil, nil
		}
	}
	isStr := func(t *Term, w string) bool { v, ok := t.strVal(); return ok && v == w }
	sl := stripConv(v.A[len(v.A)-1])
	cut := stripConv(sl)
	if sl.Op == OExtract || sl.Op == OIndex {
		cut = sl.A[0]
	}
	if cut.Op == OCall && len(cut.A) == 2 {
		x = stripConv(cut.A[0])
		switch {
		case cut.S == "strings.Cut" && sl.Op == OExtract && sl.N == 1 && isStr(cut.A[1], ":") && colon,
			cut.S == "strings.Split" && sl.Op == OIndex && sl.A[1] == tInt(1) && isStr(cut.A[1], ":") && colon,
			cut.S == "strings.TrimPrefix" && isStr(cut.A[1], "localhost:") && colon,
			cut.S == "strings.TrimPrefix" && isStr(cut.A[1], "localhost") && !colon:
			return role, n, x
		}
		return "", nil, nil
	}
	if sl.Op != OSlice || sl.A[2] != tNone {
		return "", nil, nil
	}
	x = stripConv(sl.A[0])
	skip := int64(5)
	if colon {
		skip = 4
	}
	off, ok := sl.A[1].intVal()
	if !(ok && off == 14-skip) && sl.A[1] != addConst(mkLen(x), -skip) && sl.A[1] != addConst(mkLen(sl.A[0]), -skip) {
		return "", nil, nil
	}
	return role, n, x
}

// numberOf: n is the number at the end of identity x
func numberOf(n, x *Term) bool {
	if n.Op == OExtract {
		n = n.A[0]
	}
	if n.Op != OCall || n.S != "strconv.Atoi" {
		return false
	}
	sl := stripConv(n.A[0])
	if sl.Op != OSlice || sl.A[2] != tNone || stripConv(sl.A[0]) != x {
		return false
	}
	off, ok := sl.A[1].intVal()
	return ok && off == 11 || sl.A[1] == addConst(mkLen(sl.A[0]), -3) || sl.A[1] == addConst(mkLen(x), -3)
}

// unchanged: t is the value field name of the configuration was read with
func (c *C) unchanged(t *Term, name string, seen map[*Term]bool) bool {
	t = stripRef(stripConv(t))
	if seen[t] {
		return false
	}
	seen[t] = true
	if lt := c.in.loops[t.S]; t.Op == OTok && lt != nil {
		for _, i := range lt.inits {
			if c.unchanged(i, name, seen) {
				return true
			}
		}
		return false
	}
	return t.Op == OField && fieldName(t.A[0].T, t.N) == name && sourceFile(t.A[0]) != nil
}

// startOf: i counts up by one from start
func (c *C) startOf(i *Term) (start int64, ok bool) {
	b, k := splitAdd(i)
	if b == nil {
		b, k = i, 0
	}
	lt := c.in.loops[b.S]
	if b.Op != OTok || lt == nil || len(lt.backs) == 0 || len(lt.inits) == 0 {
		return 0, false
	}
	for n, x := range lt.inits {
		v, isInt := x.intVal()
		if !isInt || n > 0 && v+k != start {
			return 0, false
		}
		start = v + k
	}
	for _, x := range lt.backs {
		if x.val != addConst(b, 1) {
			return 0, false
		}
	}
	return start, true
}

// counter: i takes all values from 0 to below n
func (c *C) counter(i *Term, n *Term) bool {
	if v, ok := c.startOf(i); !ok || v != 0 {
		return false
	}
	b, _ := splitAdd(i)
	if b == nil {
		b = i
	}
	exits := c.in.loops[b.S].exits
	for _, f := range exits {
		if v, ok := f.decide(mkLt(i, n)); ok && !v {
			continue
		}
		if v, ok := f.decide(mkLt(n, addConst(i, 1))); ok && v {
			continue
		}
		return false
	}
	return len(exits) > 0
}

// number: v is x in decimal
func number(v *Term) *Term {
	if v.Op == OCall && len(v.A) > 0 && (v.S == "strconv.Itoa" || v.S == "strconv.FormatInt" || strings.HasPrefix(v.S, "fmt.Sprint")) {
		return stripConv(v.A[0])
	}
	return nil
}

// deployFile: what configuration file a path names, and of which entity (number from 0)
func deployFile(p *Term) (config string, n *Term) {
	vars, text := concatParts(p)
	if len(vars) == 0 {
		return
	}
	for _, r := range deployRoles {
		pre := strings.ToLower(r) + "_testconfig/\x00/" + r + "_"
		i := strings.Index(text, pre)
		if i < 0 || strings.Contains(text[:i], "_testconfig") || (i > 0 && text[i-1] != '/' && text[i-1] != 0) {
			continue
		}
		v := stripConv(vars[strings.Count(text[:i], "\x00")])
		rest := text[i+len(pre):]
		j := strings.Index(rest, ".json")
		if j < 0 {
			return
		}
		if x := number(v); x != nil {
			v = x
		}
		return r + "_" + rest[:j], addConst(v, -1)
	}
	return
}

// sourceFile: the file a configuration was read from
func sourceFile(m *Term) *Term {
	var p *Term
	walk(m, func(x *Term) bool {
		if p == nil && x.Op == OCall && len(x.A) > 0 {
			switch n := callName(x); n {
			case "os.ReadFile", "io/ioutil.ReadFile", "os.Open":
				p = x.A[0]
			}
		}
		return p == nil
	})
	return p
}

func p51(c *C) {
	c.rules = append(c.rules,
		"every identity in a configuration file that is mapped (own identity, lists of peers, keys of the key directories) is rewritten to the address filed for that role and that entity's number, followed by its old port",
		"the number comes from the identity itself, from its position in the complete list of its role, or, for the entity's own identities, from the directory of the file; lists are rewritten in one complete pass",
		"the result is written to the file that was read; all private, public and crypto files of all entities of all roles are mapped")
	f := c.p.fn("Gen", "Map_all")
	if f == nil {
		c.missing("Gen.Map_all")
		return
	}
	args := map[string]*Term{}
	for i, r := range map[int][]string{0: {"CA"}, 1: {"Logger"}, 2: {"Monitor", "Gossiper"}} {
		for _, r := range r {
			if i < len(f.Params) {
				args[r] = tSym("arg"+itoa(i)+":"+shortFn(f), f.Params[i].Type())
			}
		}
	}
	var want []string
	for k := range deployFields {
		want = append(want, k)
	}
	for _, r := range deployRoles {
		want = append(want, r+"_crypto_config")
	}
	sort.Strings(want)
	var pend []func()
	check := func(e *Event, s *State, m *Term, t types.Type, src *Term) {
		name := namedName(t)
		crypto := name == "StoredCryptoConfig"
		c.oblig()
		fail := func(what, format string, a ...any) { c.fail("mapping", name+" "+what, e.Instr, s, format, a...) }
		if src == nil {
			fail("source", "a %s is written that was not read from a file", name)
			return
		}
		config, n := deployFile(src)
		if crypto && strings.HasSuffix(config, "_crypto_config") {
			name = config
		}
		if config != name {
			fail("file", "a %s is read from %s", name, fileTarget(src))
			return
		}
		if dst := e.Snap[0]; strings.HasPrefix(e.Name, "os.WriteFile") && dst != src && !beside(dst, src) {
			fail("target", "the %s read from %s is written to %s", name, fileTarget(src), fileTarget(dst))
		}
		own := deployRole(name)
		if args[own] == nil || !c.counter(n, args[own]) {
			fail("entities", "not every %s has its %s mapped", own, name)
		}
		c.site("file mapped", name)
		if crypto {
			c.mapCrypto(s, m, own, n, fail)
			return
		}
		for i := 0; i < structOf(t).NumFields(); i++ {
			id := false
			for _, idf := range deployFields[name] {
				if structOf(t).Field(i).Name() != idf.name {
					continue
				}
				id = true
				c.oblig()
				c.site("identities mapped", name+"."+idf.name)
				if why := c.mappedField(s, mkField(m, i, t), idf, n); why != "" {
					fail(idf.name, "%s.%s: %s", name, idf.name, why)
				}
			}
			if n := structOf(t).Field(i).Name(); !id && !c.unchanged(mkField(m, i, t), n, map[*Term]bool{}) {
				fail(n, "%s.%s is changed to %s", name, n, short(mkField(m, i, t)))
			}
		}
	}
	temp := map[*Term]*Term{} // temporary file -> file whose new content it holds
	in := c.interp(func(e *Event) {
		if c.muted() || e.Kind != "call" {
			return
		}
		if e.Name == "os.Rename" && temp[e.Snap[0]] != nil {
			c.oblig()
			src := temp[e.Snap[0]]
			config, _ := deployFile(src)
			if e.Snap[1] == src {
				c.site("file replaced", config)
			} else {
				c.fail("mapping", config+" target", e.Instr, e.S, "the configuration read from %s ends up in %s", fileTarget(src), fileTarget(e.Snap[1]))
			}
		}
		if !isFileWrite(e.Name) {
			return
		}
		s := e.S
		for _, a := range e.Snap {
			for _, m := range marshalled(a) {
				t := m.T
				if t == nil {
					continue
				}
				src, s, e := sourceFile(m), s.clone(), *e
				if p, ok := t.Underlying().(*types.Pointer); ok {
					t = p.Elem()
					m = c.in.load(s, m)
				}
				if n := namedName(t); deployFields[n] == nil && n != "StoredCryptoConfig" {
					continue
				}
				if src != nil && e.Snap[0] == src {
					config, _ := deployFile(src)
					c.site("file replaced", config)
				} else if src != nil {
					temp[e.Snap[0]] = src
				}
				pend = append(pend, func() { check(&e, s, m, t, src) })
			}
		}
	})
	c.exits(in, f)
	for _, p := range pend { // the loops are analysed to the end
		p()
	}
	c.needAll("file mapped", want...)
	c.needAll("file replaced", want...)
}

func (c *C) mappedField(s *State, v *Term, idf idField, own *Term) string {
	if idf.kind == 'o' {
		role, n, x := readdressed(v)
		switch {
		case x == nil || !c.unchanged(x, idf.name, map[*Term]bool{}):
			return "it is not rewritten to the address of its owner and its old port but to " + short(v)
		case role != idf.role:
			return "it gets the address of a " + role + ", not of a " + idf.role
		case n != own && !numberOf(n, x):
			return "it gets the address of " + idf.role + " number " + short(n)
		}
		return ""
	}
	t := stripRef(c.in.sliceVal(s, v))
	lt := c.in.loops[t.S]
	if t.Op != OTok || lt == nil || len(lt.backs) == 0 {
		return "its elements are not rewritten"
	}
	for _, b := range lt.backs {
		w := b.val
		var el, list *Term
		switch {
		case w.Op == OUpd && w.A[0] == t:
			el, list = w.A[2], t
		case w.Op == OAppend && w.A[0] == t && len(w.A) == 2:
			el = w.A[1]
		default:
			return "an element can be left as it is"
		}
		role, n, x := readdressed(el)
		if x == nil || x.Op != OIndex {
			return "an element is not rewritten to the address of its owner and its old port but to " + short(el)
		}
		if list != nil && (x.A[0] != list || x.A[1] != w.A[1]) {
			return "an element is rewritten from another one"
		}
		list = x.A[0]
		if !c.unchanged(list, idf.name, map[*Term]bool{}) {
			return "it is rewritten from another list"
		}
		if !c.allOf(x.A[1], list, v) {
			return "not all of its elements are rewritten"
		}
		if role != idf.role {
			return "an element gets the address of a " + role + ", not of a " + idf.role
		}
		if !numberOf(n, x) && !(idf.kind == 'f' && n == x.A[1]) {
			return "an element gets the address of " + idf.role + " number " + short(n)
		}
	}
	return ""
}

// allOf: idx runs over all elements of list, which is rewritten in place from the list v
func (c *C) allOf(idx, list, v *Term) bool {
	if fullRange(c.in, idx, list) || fullRange(c.in, idx, v) {
		return true
	}
	if lt := c.in.loops[list.S]; list.Op == OTok && lt != nil {
		for _, i := range lt.inits {
			if fullRange(c.in, idx, i) {
				return true
			}
		}
	}
	return false
}

func (c *C) mapCrypto(s *State, m *Term, own string, num *Term, fail func(string, string, ...any)) {
	id := fld(m, "SelfID")
	c.oblig()
	role, n, x := readdressed(id)
	switch {
	case x == nil || !c.unchanged(x, "SelfID", map[*Term]bool{}):
		fail("SelfID", "SelfID is not rewritten to the address of its owner and its old port but to %s", short(id))
	case role != factRole(s.facts, x):
		fail("SelfID", "the SelfID of a %s gets the address of a %s", factRole(s.facts, x), role)
	case n != num && !numberOf(n, x):
		fail("SelfID", "SelfID gets the address of number %s", short(n))
	}
	for _, n := range []string{"Threshold", "N", "HashScheme", "SignScheme", "ThresholdScheme", "SignSecretKey"} {
		if v := fld(m, n); v != nil && !c.unchanged(v, n, map[*Term]bool{}) {
			fail(n, "%s is changed to %s", n, short(v))
		}
	}
	for _, d := range []string{"SignPublicMap", "ThresholdPublicMap"} {
		c.oblig()
		if why := c.renamed(s, fld(m, d), d, 0); why != "" {
			fail(d, "%s: %s", d, why)
		}
	}
}

// renamed: the directory holds every entry of the one that was read, under the new name of its owner
func (c *C) renamed(s *State, t *Term, name string, done int) string {
	for n := 0; n < 6; n++ {
		t = stripRef(stripConv(t))
		if t.Op == OAddr {
			t = c.in.load(s, t)
			continue
		}
		if c.unchanged(t, name, map[*Term]bool{}) && t.Op != OTok {
			if done != 1 {
				return "its entries keep their old names"
			}
			return ""
		}
		lt := c.in.loops[t.S]
		if t.Op != OTok || lt == nil || len(lt.backs) == 0 {
			return "it is not made from the directory that was read"
		}
		for _, i := range lt.inits {
			if i.Op != OZero {
				return "it does not start empty"
			}
		}
		var src *Term
		ren := false
		for _, b := range lt.backs {
			v := b.val
			if v.Op != OMapUpd || v.A[0] != t {
				return "an entry can be left out"
			}
			k := stripConv(v.A[1])
			if role, n, x := readdressed(k); x != nil {
				if r := factRole(b.facts, x); r != role {
					return "the key of a " + r + " gets the address of a " + role
				}
				if !numberOf(n, x) {
					return "a key gets the address of number " + short(n)
				}
				k, ren = x, true
			} else if ren {
				return "an entry can keep its old name"
			}
			if k.Op != OMapKey || (src != nil && src != k.A[0]) {
				return "an entry is filed under " + short(v.A[1])
			}
			src = k.A[0]
			ok := false
			walk(v.A[2], func(x *Term) bool {
				ok = ok || entryAt(s, x, src, k)
				return !ok
			})
			if !ok {
				return "an entry gets the key of another entity"
			}
		}
		if ren {
			done++
		}
		t = src
	}
	return "it cannot be traced"
}

func init() { checks["P51"] = p51 }

// deploy: what is known of a generated deployment
type deploy struct {
	c     *C
	args  map[string]*Term // how many of each role
	lists map[string]*Term // the identities of each role
	texts map[string]map[string]bool
}

// idText: v = prefix of a role ‖ number j
func idText(v *Term) (role string, j *Term) {
	v = stripConv(v)
	if t, ok := v.strVal(); ok {
		return prefixRole(t), nil
	}
	if v.Op != OConcat {
		return "", nil
	}
	t, ok := v.A[0].strVal()
	if !ok || prefixRole(t) == "" || len(v.A) != 2 {
		return "", nil
	}
	if n := number(stripConv(v.A[1])); n != nil {
		return prefixRole(t), n
	}
	return prefixRole(t), v.A[1]
}

// text: an identity up to the loop that counts it and the way its number is printed
func (d *deploy) text(t *Term) string {
	_, j := idText(t)
	t = stripConv(t)
	if j == nil || t.Op != OConcat {
		return t.String()
	}
	pre, _ := t.A[0].strVal()
	n := d.c.formula(j)
	if v, ok := d.c.startOf(j); ok {
		n = "counter from " + itoa(int(v))
	}
	if x := stripConv(t.A[1]); number(x) == nil {
		return pre + d.c.formula(x)
	} else if plainNumber(x) {
		return pre + "|" + n
	} else {
		return pre + x.S + "|" + n
	}
}

func plainNumber(x *Term) bool {
	return x.S == "strconv.Itoa" || x.S == "strconv.FormatInt" || strings.HasSuffix(x.S, "%v") || strings.HasSuffix(x.S, "%d")
}

// num: t is the identity of number j of a role; far: it is beyond the thousand that have one
func (d *deploy) num(t *Term, role string) (j *Term, far, ok bool) {
	t = stripConv(t)
	if t.Op == OIndex {
		t = d.c.element(t)
		return t.A[1], false, t.A[0] == d.lists[role]
	}
	r, j := idText(t)
	if r != role || !d.texts[role][d.text(t)] {
		return nil, false, false
	}
	return j, j == nil, true
}

// listOf: what is wrong with the list of identities of a role
func (d *deploy) listOf(role string) string {
	c, t := d.c, d.lists[role]
	d.texts[role] = map[string]bool{}
	lt := c.in.loops[t.S]
	if t.Op != OTok || lt == nil || len(lt.backs) == 0 {
		return "it is not made from the numbers of the entities"
	}
	for _, b := range lt.backs {
		c.oblig()
		w := b.val
		var v *Term
		switch {
		case w.Op == OUpd && w.A[0] == t:
			v = w.A[2]
		case w.Op == OAppend && w.A[0] == t && len(w.A) == 2:
			v = w.A[1]
		default:
			return "an identity can be left out"
		}
		r, j := idText(v)
		d.texts[role][d.text(v)] = true
		if r != role {
			return "it contains " + short(v)
		}
		if j == nil {
			continue // beyond the thousand that have a port
		}
		if w.Op == OUpd && w.A[1] != j && contains(v, j) && number(stripConv(v.A[1])) != nil {
			return "number " + short(j) + " is at position " + short(w.A[1])
		}
		if number(stripConv(v.A[1])) == nil {
			continue
		}
		if !c.counter(j, d.args[role]) {
			return "not every " + role + " is in it"
		}
		if n := number(stripConv(v.A[1])); plainNumber(stripConv(v.A[1])) {
			text, _ := v.A[0].strVal()
			pad := strings.Trim(text[len("localhost:6"):], "0")
			z := len(text) - len("localhost:6")
			lo, hi := []int64{100, 10, 0}, []int64{1000, 100, 10}
			if pad != "" || z > 2 {
				return "it contains " + short(v)
			}
			if x, ok := b.facts.decide(mkLt(n, tInt(hi[z]))); !ok || !x {
				return "an identity can have more than three digits"
			}
			if x, ok := b.facts.decide(mkLt(n, tInt(lo[z]))); z < 2 && (!ok || x) {
				return "an identity can have less than three digits"
			}
		}
	}
	return ""
}

// elems: all elements a list can have
func (c *C) elems(t *Term, seen map[*Term]bool) ([]*Term, bool) {
	t = stripRef(t)
	switch {
	case t == tNil || t.Op == OZero || seen[t]:
		return nil, true
	case t.Op == OAppend:
		l, ok := c.elems(t.A[0], seen)
		for _, a := range t.A[1:] {
			if a.Op == OSpread {
				x, ok2 := c.elems(a.A[0], seen)
				l, ok = append(l, x...), ok && ok2
				continue
			}
			l = append(l, a)
		}
		return l, ok
	case t.Op == OArr:
		return t.A, true
	case t.Op == OUpd:
		l, ok := c.elems(t.A[0], seen)
		return append(l, t.A[2]), ok
	case t.Op == OTok && c.in.loops[t.S] != nil:
		seen[t] = true
		lt := c.in.loops[t.S]
		var l []*Term
		for _, i := range lt.inits {
			x, ok := c.elems(i, seen)
			if !ok {
				return nil, false
			}
			l = append(l, x...)
		}
		for _, b := range lt.backs {
			x, ok := c.elems(b.val, seen)
			if !ok {
				return nil, false
			}
			l = append(l, x...)
		}
		return l, true
	}
	return nil, false
}

// sameList: t has the elements of list, perhaps copied one by one
func (c *C) sameList(t, list *Term) bool {
	if t == list {
		return true
	}
	lt := c.in.loops[t.S]
	if t.Op != OTok || lt == nil || len(lt.backs) == 0 {
		return false
	}
	x := c.element(mkIndex(t, tSym("i", types.Typ[types.Int]), nil))
	return x.Op == OIndex && x.A[0] == list
}

func (d *deploy) startsEmpty(x *Term) bool {
	if x.Op == OSlice && x.A[2] == tInt(0) || mkLen(x) == tInt(0) {
		return true
	}
	l, ok := d.c.elems(x, map[*Term]bool{})
	return ok && len(l) == 0
}

// others: t holds every identity of the list except number i
func (d *deploy) others(t, i *Term, role string) string {
	c := d.c
	if t.Op == OAppend { // everything before i, everything behind i
		parts := map[string]bool{}
		for x := t; ; x = x.A[0] {
			if x.Op != OAppend {
				parts["start"] = d.startsEmpty(x)
				break
			}
			for _, a := range x.A[1:] {
				if a = stripConv(a); a.Op != OSpread || a.A[0].Op != OSlice || a.A[0].A[0] != d.lists[role] {
					return "it contains " + short(a)
				}
				lo, hi := a.A[0].A[1], a.A[0].A[2]
				switch {
				case (lo == tNone || lo == tInt(0)) && hi == i:
					parts["before"] = true
				case lo == addConst(i, 1) && (hi == tNone || hi == mkLen(d.lists[role])):
					parts["behind"] = true
				default:
					return "it contains " + short(a)
				}
			}
		}
		if parts["start"] && parts["before"] && parts["behind"] {
			return ""
		}
	}
	lt := c.in.loops[t.S]
	if t.Op != OTok || lt == nil || len(lt.backs) == 0 {
		return "it is not made from the list of all " + role + "s but " + short(t)
	}
	for _, x := range lt.inits {
		if !d.startsEmpty(x) {
			return "it does not start empty"
		}
	}
	same := func(f *Facts, j *Term) (bool, bool) {
		for _, a := range []*Term{mkEq(i, j), mkEq(j, i), mkEq(mkIndex(d.lists[role], i, nil), mkIndex(d.lists[role], j, nil)), mkEq(mkIndex(d.lists[role], j, nil), mkIndex(d.lists[role], i, nil))} {
			if v, ok := f.decide(a); ok {
				return v, true
			}
		}
		return false, false
	}
	var pos *Term
	for _, b := range lt.backs {
		if b.val.Op != OAppend || b.val.A[0] != t {
			continue
		}
		if len(b.val.A) != 2 {
			return "several are added at a time"
		}
		j, _, ok := d.num(b.val.A[1], role)
		if !ok || j == nil || !fullRange(c.in, j, d.lists[role]) && !c.counter(j, d.args[role]) {
			return "it is not filled in one pass over all " + role + "s"
		}
		if eq, ok := same(b.facts, j); !ok || eq {
			return "the entity itself can be among them"
		}
		pos = j
	}
	if pos == nil {
		return "it stays empty"
	}
	for _, b := range lt.backs {
		if b.val != t {
			continue
		}
		if eq, ok := same(b.facts, pos); !ok || !eq {
			return "another " + role + " can be left out"
		}
	}
	return ""
}

func renderPath(t *Term) string {
	var b strings.Builder
	parts := []*Term{t}
	if t.Op == OConcat {
		parts = t.A
	}
	for _, p := range parts {
		if v, ok := p.strVal(); ok {
			b.WriteString(v)
		} else if n := number(p); n != nil && plainNumber(p) {
			b.WriteString("\x00" + strings.ReplaceAll(n.String(), "/", "\x01") + "\x00")
		} else {
			b.WriteString("\x00" + strings.ReplaceAll(p.String(), "/", "\x01") + "\x00")
		}
	}
	return strings.TrimSuffix(b.String(), "/")
}

func p48(c *C) {
	c.rules = append(c.rules,
		"for every role the identities written are the prefix of the role followed by each number from 0 to the number of entities, in three digits, at that position of the list",
		"every public configuration lists all CAs, loggers, gossipers and monitors in the fields of their roles and carries the periods asked for; every crypto configuration the threshold and the number of gossipers",
		"the private configuration put into the directory of an entity is the one made for its identity: own identity, port, partner (monitor and gossiper of the same number) and complete lists; a gossiper is connected to all gossipers but itself, a CA to at least one logger and to loggers only",
		"the directories written to have been created, and the files an entity is started from are those written, each read into the type it was written from")
	f := c.p.fn("Gen", "Generateall")
	if f == nil {
		c.missing("Gen.Generateall")
		return
	}
	arg := func(i int) *Term {
		if i < len(f.Params) {
			return tSym("arg"+itoa(i)+":"+shortFn(f), f.Params[i].Type())
		}
		return tNil
	}
	d := &deploy{c: c, args: map[string]*Term{"Gossiper": arg(0), "Monitor": arg(0), "Logger": arg(2), "CA": arg(3)}, lists: map[string]*Term{}, texts: map[string]map[string]bool{}}
	var want []string
	for _, r := range deployRoles {
		want = append(want, r+"_public_config", r+"_private_config", r+"_crypto_config")
	}
	type written struct {
		e      Event
		s      *State
		m      *Term
		config string
		n      *Term
	}
	var all []written
	filed := map[*Term]map[*Term]bool{} // configuration filed in a map -> its contents then
	in := c.interp(func(e *Event) {
		if !c.muted() && e.Kind == "mapupd" && e.Val.T != nil && deployFields[namedName(e.Val.T)] != nil {
			if filed[e.Val] == nil {
				filed[e.Val] = map[*Term]bool{}
			}
			filed[e.Val][c.in.snap(e.S, e.Val)] = true
		}
		if c.muted() || e.Kind != "call" {
			return
		}
		if e.Name == "os.Mkdir" || e.Name == "os.MkdirAll" {
			e.S.mark(e.Name, e.Snap[0])
		}
		if !isFileWrite(e.Name) {
			return
		}
		for _, a := range e.Snap {
			for _, m := range marshalled(a) {
				config, n := deployFile(e.Snap[0])
				if config == "" {
					continue
				}
				c.oblig()
				dir := renderPath(e.Snap[0])
				made := func(k string) bool {
					for _, t := range e.S.marked(k) {
						if renderPath(t) == dir {
							return true
						}
					}
					return false
				}
				for i := strings.LastIndex(dir, "/"); i >= 0; i = strings.LastIndex(dir, "/") {
					dir = dir[:i]
					if made("os.MkdirAll") {
						break
					}
					if !made("os.Mkdir") {
						c.fail("wiring", "directory "+config, e.Instr, e.S, "the directory %s, in which %s is written, has not been created", strings.NewReplacer("\x00", "*", "\x01", "/").Replace(dir), config)
						break
					}
				}
				all = append(all, written{*e, e.S.clone(), m, config, n})
			}
		}
	})
	c.exits(in, f)
	bad := func(w written, what, format string, a ...any) {
		c.fail("wiring", w.config+" "+what, w.e.Instr, w.s, format, a...)
	}
	for _, w := range all {
		c.oblig()
		role := deployRole(w.config)
		if !c.counter(w.n, d.args[role]) {
			bad(w, "entities", "%s is not written for every %s", w.config, role)
		}
		if !strings.HasSuffix(w.config, "_crypto_config") {
			continue
		}
		id := fld(w.m, "SelfID")
		if id == nil {
			bad(w, "type", "%s does not hold a crypto configuration", w.config)
			continue
		}
		k, why := c.identityOf(w.s, id)
		switch {
		case why != "":
			bad(w, "id", "%s: %s", w.config, why)
		case k.Op != OIndex || k.A[0].Op != OTok:
			bad(w, "id", "the identity in %s is %s, not one of a list", w.config, short(k))
		case k.A[1] != w.n:
			bad(w, "id", "number %s gets the crypto configuration of number %s", short(w.n), short(k.A[1]))
		case d.lists[role] != nil && d.lists[role] != k.A[0]:
			bad(w, "id", "the identities of the %ss come from different lists", role)
		default:
			d.lists[role] = k.A[0]
		}
	}
	for _, role := range deployRoles {
		if d.lists[role] == nil {
			c.missing("a generated crypto configuration of a " + role)
			return
		}
	}
	for _, w := range all {
		role := deployRole(w.config)
		if strings.HasSuffix(w.config, "_crypto_config") {
			if d.texts[role] == nil {
				if why := d.listOf(role); why != "" {
					bad(w, "list", "the list of %ss: %s", role, why)
				}
			}
		}
	}
	for _, w := range all {
		role := deployRole(w.config)
		get := func(m *Term, n string) *Term {
			v := fld(m, n)
			if v == nil {
				return tNil
			}
			return stripConv(stripRef(c.in.sliceVal(w.s, v)))
		}
		c.site("configuration written", w.config)
		vals := []keyEntry{{key: nil, val: w.m}}
		if l := stripRef(w.m); l.Op == OLookup {
			es, ok := c.entries(l.A[0], map[*Term]bool{})
			if j, _, ok := d.num(l.A[1], role); !ok || j != w.n {
				bad(w, "owner", "%s number %s gets the configuration of %s", role, short(w.n), short(l.A[1]))
			}
			if !ok || len(es) == 0 {
				bad(w, "source", "%s cannot be traced", w.config)
			}
			vals = nil
			for _, x := range es {
				if len(filed[x.val]) == 0 {
					vals = append(vals, x)
				}
				for v := range filed[x.val] {
					vals = append(vals, keyEntry{x.loop, x.back, x.key, v})
				}
			}
		}
		if strings.HasSuffix(w.config, "_crypto_config") {
			for n, a := range map[string]*Term{"Threshold": arg(1), "N": arg(0)} {
				v := fld(w.m, n)
				vs := []*Term{v}
				if v.Op == OField && v.A[0].Op == OLookup {
					vs = nil
					es, _ := c.entries(v.A[0].A[0], map[*Term]bool{})
					for _, x := range es {
						vs = append(vs, fld(x.val, n))
					}
				}
				c.oblig()
				for _, v := range vs {
					if v != a {
						bad(w, n, "%s in %s is %s", n, w.config, short(v))
					}
				}
			}
			continue
		}
		for _, en := range vals {
			m := en.val
			if m.T == nil || namedName(m.T) != w.config {
				bad(w, "type", "%s does not hold a %s", fileTarget(w.e.Snap[0]), w.config)
				continue
			}
			num := w.n
			if en.key != nil {
				j, far, ok := d.num(en.key, role)
				if far {
					continue // beyond the thousand that have a port
				}
				if !ok {
					bad(w, "key", "a %s is filed under %s", w.config, short(en.key))
					continue
				}
				num = j
				if !c.counter(j, d.args[role]) && !fullRange(c.in, j, d.lists[role]) {
					bad(w, "made", "not every %s gets a %s", role, w.config)
				}
			}
			for _, idf := range deployFields[w.config] {
				c.oblig()
				v := get(m, idf.name)
				where := w.config + "." + idf.name
				c.site("identities", where)
				switch {
				case idf.kind == 'o':
					if j, far, ok := d.num(v, idf.role); !far && (!ok || j != num) {
						bad(w, idf.name, "%s of number %s is %s, not %s number %s", where, short(num), short(v), idf.role, short(num))
					}
				case idf.kind == 'f':
					if !c.sameList(v, d.lists[idf.role]) {
						bad(w, idf.name, "%s is not the list of all %ss", where, idf.role)
					}
				case role == idf.role:
					if why := d.others(v, num, idf.role); why != "" {
						bad(w, idf.name, "%s: %s", where, why)
					}
				default:
					els, ok := c.elems(v, map[*Term]bool{})
					if !ok || len(els) == 0 {
						bad(w, idf.name, "%s can be empty", where)
					}
					for _, x := range els {
						if x = c.element(x); x.Op != OIndex || x.A[0] != d.lists[idf.role] {
							bad(w, idf.name, "%s contains %s, which is no %s", where, short(x), idf.role)
						}
					}
				}
			}
			for n, r := range map[string]string{"Port": role, "Inbound_gossiper_port": "Gossiper"} {
				v := fld(m, n)
				if v == nil {
					continue
				}
				c.oblig()
				v = stripConv(v)
				full := mkConcat(tStr("localhost:"), v)
				if v.Op == OSlice && v.A[1] == tInt(10) && v.A[2] == tNone {
					full = v.A[0]
				}
				if j, far, ok := d.num(full, r); !far && (!ok || j != num) {
					bad(w, n, "%s of %s number %s is %s", n, role, short(num), short(v))
				}
			}
			for n, a := range map[string]*Term{"MMD": arg(5), "MRD": arg(6), "Cert_per_period": arg(4)} {
				if v := fld(m, n); v != nil {
					c.oblig()
					if v != a {
						bad(w, n, "%s in %s is %s", n, w.config, short(v))
					}
				}
			}
		}
	}
	c.needAll("configuration written", want...)

	g := c.p.fn("Gen", "InitializeOneEntity")
	if g == nil {
		c.missing("Gen.InitializeOneEntity")
		return
	}
	in = c.interp(func(e *Event) {
		if c.muted() || e.Kind != "call" || e.Val == nil || !strings.HasPrefix(e.Name, "encoding/json.Unmarshal") {
			return
		}
		src := sourceFile(e.Val)
		if src == nil {
			return
		}
		config, n := deployFile(src)
		name := ""
		walk(e.Val, func(x *Term) bool {
			if x.Op == OSym && strings.HasPrefix(x.S, "target:") {
				name = x.S[strings.LastIndexAny(x.S, ".*:")+1:]
			}
			return true
		})
		if name == "StoredCryptoConfig" && strings.HasSuffix(config, "_crypto_config") {
			name = config
		}
		if deployFields[name] == nil && name != config {
			return
		}
		c.oblig()
		c.site("file read", config)
		if name != config {
			c.fail("wiring", "read "+name, e.Instr, e.S, "a %s is read from %s", name, fileTarget(src))
		} else if n != addConst(tSym("arg1:"+shortFn(g), g.Params[1].Type()), -1) {
			c.fail("wiring", "read "+name, e.Instr, e.S, "a %s is read from the directory of another entity, %s", name, fileTarget(src))
		}
	})
	c.exits(in, g)
	c.needAll("file read", want...)
}

func init() { checks["P48"] = p48 }
