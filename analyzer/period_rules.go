package main

// P34: period labels. A label is a function of the minute of the hour only, so each label term is evaluated for all 60 minutes.

import (
	"fmt"
	"strconv"
	"strings"
	"time"
)

// evalAt: the value of t when every clock reading in it returns now (string, int64, bool, time.Time or error)
func evalAt(t *Term, now time.Time) (any, bool) {
	args := func(l []*Term) ([]any, bool) {
		var r []any
		for _, a := range l {
			v, ok := evalAt(a, now)
			if !ok {
				return nil, false
			}
			r = append(r, v)
		}
		return r, true
	}
	switch t.Op {
	case OConst:
		if t == tTrue || t == tFalse {
			return t == tTrue, true
		}
		if n, ok := t.intVal(); ok {
			return n, true
		}
		if strings.HasPrefix(t.S, "s:") {
			return t.S[2:], true
		}
	case OConv, OIface, ORef:
		return evalAt(t.A[0], now)
	case OConcat:
		l, ok := args(t.A)
		if !ok {
			return nil, false
		}
		s := ""
		for _, x := range l {
			y, ok := x.(string)
			if !ok {
				return nil, false
			}
			s += y
		}
		return s, true
	case OLen:
		if v, ok := evalAt(t.A[0], now); ok {
			if s, ok := v.(string); ok {
				return int64(len(s)), true
			}
		}
	case OSlice:
		v, ok := evalAt(t.A[0], now)
		s, ok2 := v.(string)
		if !ok || !ok2 {
			return nil, false
		}
		lo, hi := int64(0), int64(len(s))
		if len(t.A) > 1 && t.A[1] != tNone {
			if n, ok := evalAt(t.A[1], now); ok {
				lo, _ = n.(int64)
			} else {
				return nil, false
			}
		}
		if len(t.A) > 2 && t.A[2] != tNone {
			if n, ok := evalAt(t.A[2], now); ok {
				hi, _ = n.(int64)
			} else {
				return nil, false
			}
		}
		if lo < 0 || hi < lo || hi > int64(len(s)) {
			return nil, false
		}
		return s[lo:hi], true
	case ONot:
		if v, ok := evalAt(t.A[0], now); ok {
			if b, ok := v.(bool); ok {
				return !b, true
			}
		}
	case OExtract:
		if t.A[0].Op == OCall && t.A[0].S == "strconv.Atoi" {
			v, ok := evalAt(t.A[0].A[0], now)
			s, ok2 := v.(string)
			if !ok || !ok2 {
				return nil, false
			}
			n, err := strconv.Atoi(s)
			if t.N == 0 {
				return int64(n), true
			}
			return err, true
		}
	case OCall:
		if t.S == "time.Now" {
			return now, true
		}
		l, ok := args(t.A)
		if !ok || len(l) == 0 {
			return nil, false
		}
		tm, isT := l[0].(time.Time)
		switch t.S {
		case "(time.Time).UTC":
			if isT {
				return tm.UTC(), true
			}
		case "(time.Time).Format":
			if f, ok := l[1].(string); ok && isT {
				return tm.Format(f), true
			}
		case "(time.Time).Minute":
			if isT {
				return int64(tm.Minute()), true
			}
		case "(time.Time).Second":
			if isT {
				return int64(tm.Second()), true
			}
		case "(time.Time).Hour":
			if isT {
				return int64(tm.Hour()), true
			}
		case "(time.Time).Add":
			if d, ok := l[1].(int64); ok && isT {
				return tm.Add(time.Duration(d)), true
			}
		case "strconv.Itoa":
			if n, ok := l[0].(int64); ok {
				return strconv.Itoa(int(n)), true
			}
		case "strconv.FormatInt":
			if n, ok := l[0].(int64); ok && l[1] == int64(10) {
				return strconv.FormatInt(n, 10), true
			}
		case "strings.TrimLeft":
			return strings.TrimLeft(fmt.Sprint(l[0]), fmt.Sprint(l[1])), true
		case "strings.TrimPrefix":
			return strings.TrimPrefix(fmt.Sprint(l[0]), fmt.Sprint(l[1])), true
		}
		if strings.HasPrefix(t.S, "fmt.Sprintf:") && len(l) == 1 {
			return fmt.Sprintf(t.S[len("fmt.Sprintf:"):], l[0]), true
		}
	case OBin:
		l, ok := args(t.A)
		if !ok {
			return nil, false
		}
		if a, ok := l[0].(int64); ok {
			b, ok := l[1].(int64)
			if !ok {
				return nil, false
			}
			switch t.S {
			case "+":
				return a + b, true
			case "-":
				return a - b, true
			case "*":
				return a * b, true
			case "/":
				if b != 0 {
					return a / b, true
				}
			case "%":
				if b != 0 {
					return a % b, true
				}
			case "<":
				return a < b, true
			case "<=":
				return a <= b, true
			case ">":
				return a > b, true
			case ">=":
				return a >= b, true
			case "==":
				return a == b, true
			case "!=":
				return a != b, true
			}
		}
		if a, ok := l[0].(string); ok {
			b, ok := l[1].(string)
			if !ok {
				return nil, false
			}
			switch t.S {
			case "==":
				return a == b, true
			case "<":
				return a < b, true
			}
		}
	}
	return nil, false
}

func clocks(t *Term) map[*Term]bool {
	r := map[*Term]bool{}
	walk(t, func(x *Term) bool {
		if x.Op == OCall && x.S == "time.Now" {
			r[x] = true
		}
		return true
	})
	return r
}

// label: t, on the path of s, is the two-digit label of the current minute plus ahead, for each minute it can be reached in.
// Returns "" or a counterexample; ok=false if it cannot be evaluated
func (c *C) label(s *State, t *Term, ahead int) (string, bool) {
	t = stripConv(s.canon(t))
	cl := clocks(t)
	n := 0
	for _, sec := range []int{0, 41} {
		for m := 0; m < 60; m++ {
			now := time.Date(2023, 11, 18, 13, m, sec, 0, time.UTC)
			feasible := true
			for a, v := range s.facts.at {
				ca := clocks(a)
				if len(ca) == 0 {
					continue
				}
				same := true
				for x := range ca {
					same = same && (cl[x] || len(cl) == 0)
				}
				if b, ok := evalAt(a, now); same && ok && b != v {
					feasible = false
				}
			}
			if !feasible {
				continue
			}
			v, ok := evalAt(t, now)
			if !ok {
				return "", false
			}
			n++
			if want := fmt.Sprintf("%02d", (m+ahead)%60); v != want {
				return fmt.Sprintf("at minute %02d it is %q instead of %q", m, v, want), true
			}
		}
	}
	return "", n > 0
}

var labelled = map[string]bool{"LoggerContext.STH_storage": true, "LoggerContext.STH_storage_fake": true, "CAContext.REV_storage": true, "CAContext.REV_storage_fake": true}

func p34(c *C) {
	c.rules = append(c.rules,
		"the label under which a logger or CA files a statement is, evaluated for each of the 60 minutes, the two-digit number of the following minute, and the period in the statement (outside and inside the signed payload) is the same value",
		"the label under which a logger or CA looks a statement up for a monitor is the two-digit number of the current minute",
		"so are the labels monitors put into accusations, updates, lookup keys and comparisons with the period of stored objects")
	g := c.goFields()
	for _, srv := range []string{"Logger", "CA", "monitor"} {
		srv := srv
		check := func(e *Event, what string, t *Term, ahead int) {
			c.oblig()
			why, ok := c.label(e.S, t, ahead)
			switch {
			case why != "":
				c.fail("label", srv+" "+what, e.Instr, e.S, "%s: the label used for %s is not canonical: %s", srv, what, why)
			case ok:
				c.site(srv+" label", what)
			case !hasNow(t):
				c.fail("label", srv+" "+what, e.Instr, e.S, "%s: the label used for %s is not computed from the current time (%s)", srv, what, short(t))
			default:
				c.site("label not evaluated", srv+" "+what)
			}
		}
		in := c.interp(func(e *Event) {
			switch e.Kind {
			case "mapupd", "lookup", "mapdel":
				if e.Key == nil {
					return
				}
				p := pathOf(e.Addr)
				if labelled[p] {
					what := p[strings.Index(p, ".")+1:]
					if e.Kind == "mapdel" {
						return
					}
					if e.Kind == "lookup" {
						if !strings.HasPrefix(c.in.threadID, "handler:") {
							return // what has just been filed
						}
						check(e, "reading "+what, e.Key, 0)
						return
					}
					check(e, "filing into "+what, e.Key, 1)
					for _, o := range objectsIn(c.in, e.S, e.Val) {
						o = stripRef(c.in.snap(e.S, o))
						if !isGossipObject(o) {
							continue
						}
						c.oblig()
						key := stripConv(e.Key)
						if !sameTerm(e.S, stripConv(g.f(o, g.Period)), key) {
							c.fail("mismatch", srv+" "+what, e.Instr, e.S, "%s: the object filed into %s carries another period than the one it is filed under (%s)", srv, what, short(g.f(o, g.Period)))
						}
						found := false
						for i := 0; i < 3; i++ {
							for _, m := range marshalled(g.payload(o, i)) {
								x := fld(m, "Period")
								if x == nil {
									continue
								}
								found = true
								if !sameTerm(e.S, stripConv(x), key) {
									c.fail("mismatch", srv+" "+what+" payload", e.Instr, e.S, "%s: the signed part of the object filed into %s carries another period than the one it is filed under (%s)", srv, what, short(x))
								}
							}
						}
						if found {
							c.site("signed period", srv)
						}
					}
					return
				}
				// keys made from the current period
				if f := fieldOf(e.Key, "Period"); f != nil && hasNow(f) {
					check(e, "keys of "+p, f, 0)
				}
				if e.Kind == "mapdel" {
					for a := range e.S.facts.at {
						if a.Op != OBin || a.S != "==" || !hasNow(a) {
							continue
						}
						x, y := a.A[0], a.A[1]
						if hasNow(x) {
							x, y = y, x
						}
						if !hasNow(x) && x.Op == OField && fieldName(x.A[0].T, x.N) == "Period" {
							check(e, "comparing periods in "+p, y, 0)
						}
					}
				}
			case "call":
				if b := sentBody(e); b != nil {
					for _, o := range marshalled(b) {
						if isGossipObject(o) && hasNow(g.f(o, g.Period)) && o.Op == ORec {
							ahead := 0
							if srv != "monitor" {
								ahead = 1
							}
							check(e, "objects sent", g.f(o, g.Period), ahead)
						}
					}
				}
				if isFileWrite(e.Name) {
					for _, a := range e.Snap {
						for _, m := range marshalled(a) {
							if m.T != nil && isNamed(m.T, "ClientUpdate") {
								check(e, "client updates", fld(m, "Period"), 0)
							}
						}
					}
				}
			}
		})
		c.serverRun(in, srv)
	}
	c.need("Logger label", 3)
	c.need("CA label", 3)
	c.need("monitor label", 3)
	c.need("signed period", 2)
}

// fieldOf: field name of a struct value, if it is one
func fieldOf(t *Term, name string) *Term {
	if t == nil || t.T == nil || structOf(t.T) == nil || fieldIndex(t.T, name) < 0 {
		return nil
	}
	return fld(t, name)
}

func init() { checks["P34"] = p34 }
