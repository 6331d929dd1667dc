package main

// P37: saved files are replaced in one step.

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func fileTarget(t *Term) string {
	vars, text := concatParts(t)
	var n []string
	for _, v := range vars {
		n = append(n, short(v))
	}
	return strings.ReplaceAll(text, "\x00", "*") + " (" + strings.Join(n, ", ") + ")"
}

// beside: f is a name of its own in the directory of g
func beside(f, g *Term) bool {
	if f == g {
		return false
	}
	if f.Op == OCall && f.S == "(*os.File).Name" { // os.CreateTemp: its directory
		f = f.A[0]
	}
	if callName(f) == "os.CreateTemp" || callName(f) == "io/ioutil.TempFile" {
		d := f
		if d.Op == OExtract {
			d = d.A[0]
		}
		return len(d.A) > 0 && d.A[0].Op == OCall && d.A[0].S == "path/filepath.Dir" && d.A[0].A[0] == g
	}
	inDir := false
	walk(f, func(x *Term) bool {
		inDir = inDir || x.Op == OCall && (x.S == "path/filepath.Dir" || x.S == "path.Dir") && x.A[0] == g
		return !inDir
	})
	if inDir {
		return true
	}
	fv, ft := concatParts(f)
	gv, gt := concatParts(g)
	if len(fv) < len(gv) {
		return false
	}
	for i := range gv {
		if fv[i] != gv[i] {
			return false
		}
	}
	if strings.HasPrefix(ft, gt) && !strings.Contains(ft[len(gt):], "/") {
		return true
	}
	i, j := strings.LastIndexAny(ft, "/\x00"), strings.LastIndexAny(gt, "/\x00")
	return i >= 0 && i == j && ft[i] == '/' && ft[:i] == gt[:j] && len(fv) == len(gv)
}

func p37(c *C) {
	c.rules = append(c.rules,
		"a component writes, creates or truncates a data file only under a name of its own beside the file, and on every path without I/O error that file is then renamed to the name it is read under",
		"before the renaming the complete encoding has been written: the encoder and every write to the temporary file are known to have succeeded; the old file is not removed first")
	c.assume = append(c.assume, "os.Rename within a directory replaces the target in one step", "no two tasks of a component save the same file at the same time")
	comp := ""
	opened := map[*Term]*Term{} // open file -> its name
	at := map[*Term]ssa.Instruction{}
	root := func(t *Term) *Term {
		var r *Term
		walk(t, func(x *Term) bool {
			if f := opened[x]; f != nil && r == nil {
				r = f
			}
			return r == nil
		})
		return r
	}
	pair := func(s *State, k string, f, v *Term) { s.mark(k, mk(OCall, "pair", 0, nil, f, v)) }
	encoded := func(s *State, d *Term) string { // an encoder whose failure is not excluded
		bad := ""
		walk(d, func(x *Term) bool {
			if x.Op == OCall && strings.HasPrefix(x.S, "encoding/json.Marshal") {
				if e := errOf(s, x); e == nil || !s.known(mkEq(e, tNil)) {
					bad = x.S
				}
				return false
			}
			return bad == ""
		})
		return bad
	}
	ev := func(e *Event) {
		s := e.S
		switch e.Kind {
		case "fact":
			if x, ok := eqNil(e.Key); ok && !e.Truth {
				n := callName(x)
				for _, p := range []string{"os.", "(*os.", "io/ioutil.", "encoding/json.", "(*encoding/json.", "bufio.", "(*bufio."} {
					if strings.HasPrefix(n, p) {
						s.discharge(func(m Mark) bool { return m.K == "place" })
					}
				}
			}
		case "call":
			if keyWriter(c.in.stack) || len(e.Snap) == 0 {
				return
			}
			var f *Term
			defer func() {
				if f != nil {
					at[f] = e.Instr
				}
			}()
			switch n := e.Name; n {
			case "os.Create", "os.CreateTemp", "io/ioutil.TempFile", "os.OpenFile":
				f = e.Snap[0]
				if n == "os.OpenFile" {
					if fl, ok := e.Snap[1].intVal(); ok && fl&3 == 0 && fl&(0x40|0x200) == 0 {
						return
					}
				}
				if e.Val == nil {
					return
				}
				h := mkExtract(e.Val, 0, nil)
				if n == "os.CreateTemp" || n == "io/ioutil.TempFile" {
					f = h
				}
				opened[h] = f
				opened[e.Val] = f
				s.unmark(func(m Mark) bool { return m.K == "written" && m.T.A[0] == f })
				s.oblige("place", f)
			case "os.WriteFile", "io/ioutil.WriteFile":
				f = e.Snap[0]
				s.unmark(func(m Mark) bool { return m.K == "written" && m.T.A[0] == f })
				s.oblige("place", f)
				if e.Val != nil {
					pair(s, "written", f, e.Val)
				}
				if b := encoded(s, e.Snap[1]); b != "" && !c.muted() {
					c.oblig()
					c.fail("incomplete", fileTarget(f), e.Instr, s, "%s: what is written can be the result of a failed encoding (%s)", comp, b)
				}
			case "os.Truncate":
				f = e.Snap[0]
				s.oblige("place", f)
			case "os.Remove", "os.RemoveAll":
				s.mark("removed", e.Snap[0])
				s.discharge(func(m Mark) bool { return m.K == "place" && m.T == e.Snap[0] })
			case "os.Rename":
				g := e.Snap[1]
				f := e.Snap[0]
				if f.Op == OCall && f.S == "(*os.File).Name" && opened[f.A[0]] != nil {
					f = opened[f.A[0]]
				}
				if c.muted() {
					s.discharge(func(m Mark) bool { return m.K == "place" && m.T == f })
					return
				}
				c.oblig()
				c.site("replaced "+comp, fileTarget(g))
				if !beside(f, g) {
					c.fail("temporary", fileTarget(g), e.Instr, s, "%s: the file renamed to %s is not one of its own in the same directory: %s", comp, fileTarget(g), fileTarget(f))
				}
				if s.hasMark("removed", g) {
					c.fail("removed", fileTarget(g), e.Instr, s, "%s: %s is removed before it is replaced", comp, fileTarget(g))
				}
				n := 0
				for _, w := range s.marked("written") {
					if w.A[0] != f {
						continue
					}
					n++
					v := w.A[1]
					if !s.known(mkEq(v, tNil)) {
						if x := errOf(s, v); x == nil || !s.known(mkEq(x, tNil)) {
							c.fail("incomplete", fileTarget(g), e.Instr, s, "%s: %s is replaced although writing its new content may have failed", comp, fileTarget(g))
						}
					}
				}
				if n == 0 {
					c.fail("incomplete", fileTarget(g), e.Instr, s, "%s: %s is replaced by a file that has not been written in full", comp, fileTarget(g))
				}
				s.discharge(func(m Mark) bool { return m.K == "place" && m.T == f })
			default:
				if strings.HasPrefix(n, "(*os.File).Write") || strings.HasPrefix(n, "(*bufio.Writer).Write") || strings.HasSuffix(n, "json.Encoder).Encode") {
					if f := root(e.Snap[0]); f != nil && e.Val != nil {
						pair(s, "written", f, e.Val)
						if len(e.Snap) > 1 && !c.muted() {
							if b := encoded(s, e.Snap[1]); b != "" {
								c.fail("incomplete", fileTarget(f), e.Instr, s, "%s: what is written can be the result of a failed encoding (%s)", comp, b)
							}
						}
					}
				}
			}
		case "exit":
			if c.muted() {
				return
			}
			for _, m := range s.obls {
				if m.K == "place" {
					c.fail("in place", fileTarget(m.T), at[m.T], s, "%s: the file %s is created or written in place (or never renamed): a reader can find it empty or incomplete", comp, fileTarget(m.T))
				}
			}
		}
	}
	for _, name := range []string{"gossiper", "monitor", "CA", "Logger"} {
		comp = name
		in := c.interp(ev)
		c.serverRun(in, name)
	}
	comp = "client"
	for _, f := range c.p.allFuncsOf(c.p.pkgs["client"]) {
		if f.Synthetic != "" || f.Parent() != nil || f.Object() == nil || len(f.Blocks) == 0 {
			continue
		}
		in := c.interp(ev)
		opaqueVerify(in)
		c.runOp(in, f, nil)
	}
	c.need("replaced gossiper", 1)
	c.need("replaced monitor", 2)
	c.need("replaced Logger", 1)
	c.need("replaced client", 3)
}

func init() { checks["P37"] = p37 }
