package main

// Rule framework: obligations, instance counts, reports, evidence.

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Viol struct {
	rule, key, where, msg string
	path                  []string
}

type C struct {
	id      string
	tier    string
	p       *Prog
	viols   map[string]*Viol
	obls    int
	inst    map[string]map[string]bool
	fns     map[*ssa.Function]bool
	threads map[string]bool
	states  int
	trusted []string
	assume  []string
	rules   []string
	in      *Interp
}

func newC(id, tier string, p *Prog) *C {
	return &C{id: id, tier: tier, p: p, viols: map[string]*Viol{}, inst: map[string]map[string]bool{}, fns: map[*ssa.Function]bool{}, threads: map[string]bool{}}
}

// site counts one rule instance
func (c *C) site(kind, key string) {
	if c.muted() {
		return
	}
	if c.inst[kind] == nil {
		c.inst[kind] = map[string]bool{}
	}
	c.inst[kind][key] = true
}

// muted: the interpreter is looking for a loop invariant; nothing is reported
func (c *C) muted() bool { return c.in != nil && c.in.mute > 0 }

func (c *C) oblig() {
	if !c.muted() {
		c.obls++
	}
}

func (c *C) fail(rule, construct string, instr ssa.Instruction, s *State, format string, a ...any) {
	if c.muted() {
		return
	}
	fn := ""
	if instr != nil && instr.Parent() != nil {
		fn = shortFn(instr.Parent())
	}
	key := rule + "|" + fn + "|" + construct
	if c.viols[key] != nil {
		return
	}
	v := &Viol{rule: rule, key: key, where: c.p.pos(instr) + " (" + fn + ")", msg: fmt.Sprintf(format, a...)}
	if c.in != nil && c.in.threadID != "" {
		v.path = append(v.path, "thread: "+c.in.threadID)
		var st []string
		for _, f := range c.in.stack {
			st = append(st, shortFn(f))
		}
		v.path = append(v.path, "call path: "+strings.Join(st, " -> "))
	}
	if s != nil {
		var tr []string
		n := 0
		for t := s.trace; t != nil && n < 30; t = t.prev {
			tr = append(tr, fmt.Sprintf("%s: branch %v on %s", c.p.pos(t.instr), t.taken, condText(t.instr)))
			n++
		}
		for i := len(tr) - 1; i >= 0; i-- {
			v.path = append(v.path, tr[i])
		}
		var ls []string
		for _, l := range s.locks {
			ls = append(ls, l.name)
		}
		v.path = append(v.path, "locks held: "+strings.Join(ls, ", "))
	}
	c.viols[key] = v
}

func condText(i ssa.Instruction) string {
	if x, ok := i.(*ssa.If); ok {
		return x.Cond.String()
	}
	return i.String()
}

// need: vacuity guard
func (c *C) need(kind string, n int) {
	if len(c.inst[kind]) < n {
		c.viols["vacuity|"+kind] = &Viol{rule: "vacuity", key: "vacuity|" + kind, where: "-", msg: fmt.Sprintf("only %d instance(s) of %q found, expected at least %d: the construct the property is about is missing (%v)", len(c.inst[kind]), kind, n, sortedKeys(c.inst[kind]))}
	}
}

func (c *C) needAll(kind string, names ...string) {
	for _, n := range names {
		if !c.inst[kind][n] {
			c.viols["vacuity|"+kind+"|"+n] = &Viol{rule: "vacuity", key: "vacuity|" + kind + "|" + n, where: "-", msg: fmt.Sprintf("no instance %q of %q found any more (have %v)", n, kind, sortedKeys(c.inst[kind]))}
		}
	}
}

func (c *C) missing(what string) {
	c.viols["anchor|"+what] = &Viol{rule: "anchor", key: "anchor|" + what, where: "-", msg: "anchor not found: " + what}
}

// interp prepares an interpreter whose events go to f
func (c *C) interp(f func(e *Event)) *Interp {
	in := newInterp(c.p)
	c.in = in
	in.obs = append(in.obs, func(in *Interp, e *Event) { f(e) })
	return in
}

// run executes an entry point and books what was analysed
func (c *C) run(in *Interp, fn *ssa.Function, args []*Term, s *State) []Exit {
	c.in = in
	save := in.threadID
	in.threadID = "main:" + shortFn(fn)
	ex := in.call(fn, args, nil, s, nil, "root:"+fn.RelString(nil))
	for _, e := range ex {
		in.emit(&Event{Kind: "exit", Fn: fn, S: e.s, Name: fn.RelString(nil), Mode: "main", Val: e.ret})
	}
	in.threadID = save
	c.book(in)
	return ex
}

func (c *C) book(in *Interp) {
	for f := range in.analysed {
		c.fns[f] = true
	}
	c.states += in.steps
	if in.incomplete != "" {
		c.viols["incomplete|"+in.incomplete] = &Viol{rule: "undecided", key: "incomplete", where: "-", msg: "analysis incomplete: " + in.incomplete}
	}
}

type finding struct{ prop, key, text string }

func readFindings(dir string) []finding {
	var r []finding
	b, err := os.ReadFile(filepath.Join(dir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := finding{}
		rest := strings.TrimPrefix(l, "known: ")
		if i := strings.Index(rest, " key="); i >= 0 {
			f.prop = strings.TrimPrefix(rest[:i], "property=")
			rest = rest[i+5:]
			if j := strings.Index(rest, " :: "); j >= 0 {
				f.key, f.text = rest[:j], rest[j+4:]
				r = append(r, f)
			}
		}
	}
	return r
}

func (c *C) finish(dir string, t0 time.Time) int {
	fs := readFindings(dir)
	var out []*Viol
	for _, k := range sortedKeys(c.viols) {
		v := c.viols[k]
		known := false
		for _, f := range fs {
			if f.prop == c.id && f.key == v.key {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, f.text)
				known = true
			}
		}
		if !known {
			out = append(out, v)
		}
	}
	counts := map[string]int{}
	names := map[string][]string{}
	for k, m := range c.inst {
		counts[k] = len(m)
		ks := sortedKeys(m)
		if len(ks) > 40 {
			ks = ks[:40]
		}
		names[k] = ks
	}
	var fns []string
	for f := range c.fns {
		fns = append(fns, shortFn(f))
	}
	sort.Strings(fns)
	if len(fns) > 120 {
		fns = fns[:120]
	}
	cov := map[string]any{
		"explanation":         "Static analysis of the type-checked SSA form of /repo's current source. Every obligation listed under rule_instances was decided on all abstract paths of the functions analysed; nothing was executed.",
		"rules":               c.rules,
		"rule_instances":      counts,
		"instances":           names,
		"obligations_decided": c.obls,
		"functions_analysed":  len(c.fns),
		"functions":           fns,
		"calls_interpreted":   c.states,
		"violations_found":    len(out),
	}
	ev := map[string]any{"property": c.id, "tier": c.tier, "seed": seed(), "level": "other", "coverage": cov, "wall_s": time.Since(t0).Seconds(), "violations": len(out), "assumptions": append([]string{}, c.assume...)}
	os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, "evidence", c.id+".json"), b, 0o644)
	rp := filepath.Join(dir, "evidence", c.id+".violation.txt")
	os.Remove(rp)
	fmt.Printf("%s: %d functions, %d obligations decided, instances %v\n", c.id, len(c.fns), c.obls, counts)
	if len(out) == 0 {
		fmt.Printf("%s holds on everything analysed\n", c.id)
		return 0
	}
	var sb strings.Builder
	for _, v := range out {
		fmt.Fprintf(&sb, "[%s] %s\n  at %s\n  key %s\n", v.rule, v.msg, v.where, v.key)
		for _, l := range v.path {
			fmt.Fprintf(&sb, "    %s\n", l)
		}
	}
	txt := sb.String()
	undecided := true
	for _, v := range out {
		undecided = undecided && v.rule == "undecided"
	}
	if undecided {
		// no construct to point at: this is no answer, not a violation
		fmt.Print(txt)
		fmt.Printf("%s undecided\n", c.id)
		return 2
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	if len(txt) > 6000 {
		txt = txt[:6000] + "…\n"
	}
	fmt.Print(txt)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, rp)
	return 1
}

func seed() int {
	n := 0
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &n)
	return n
}
