package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"time"
)

var checks = map[string]func(c *C){}

func main() {
	dir := "/verif"
	if e, err := os.Executable(); err == nil {
		_ = e
	}
	if d := os.Getenv("CTNG_VERIF"); d != "" {
		dir = d
	}
	repo := "/repo"
	if d := os.Getenv("CTNG_REPO"); d != "" {
		repo = d
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	if len(os.Args) < 2 {
		fmt.Println("usage: ctngcheck P01 | all | trace pkg:func")
		os.Exit(2)
	}
	if os.Args[1] == "trace" {
		trace(repo)
		return
	}
	ids := os.Args[1:]
	if ids[0] == "all" {
		ids = sortedKeys(checks)
	}
	rc := 0
	for _, id := range ids {
		if r := one1(id, tier, repo, dir); r > rc {
			rc = r
		}
	}
	os.Exit(rc)
}

// one1 decides one property; a failure of the analysis itself is reported as undecided (2)
func one1(id, tier, repo, dir string) (rc int) {
	t0 := time.Now()
	c := newC(id, tier, nil)
	defer func() {
		if r := recover(); r != nil {
			c.p = &Prog{dir: repo}
			c.viols["panic"] = &Viol{rule: "undecided", key: "panic", where: "-", msg: fmt.Sprintf("analysis failed: %v\n%s", r, debug.Stack())}
			rc = c.finish(dir, t0)
		}
	}()
	f := checks[id]
	if f == nil {
		fmt.Println("no such check", id)
		os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
		return 1
	}
	resetTerms()
	p, err := loadProg(repo)
	if err != nil {
		c.p = &Prog{dir: repo}
		c.viols["load"] = &Viol{rule: "undecided", key: "load", where: "-", msg: "the program does not type-check: " + err.Error()}
		return c.finish(dir, t0)
	}
	c.p = p
	f(c)
	return c.finish(dir, t0)
}

func trace(repo string) {
	t0 := time.Now()
	p, err := loadProg(repo)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	parts := strings.SplitN(os.Args[2], ":", 2)
	f := p.fn(parts[0], parts[1])
	in := newInterp(p)
	for _, o := range os.Args[3:] {
		in.opaque[o] = true
	}
	var args []*Term
	for i, pr := range f.Params {
		args = append(args, tSym(fmt.Sprintf("p%d:%s", i, pr.Name()), pr.Type()))
	}
	in.obs = append(in.obs, func(in *Interp, e *Event) {
		if e.Kind == "enter" || e.Kind == "leave" || e.Kind == "load" || e.Kind == "deref" {
			return
		}
		fmt.Println(in.threadID, e.Kind, e.Name, p.pos(e.Instr), e.Addr, e.Key, e.Val, len(e.S.facts.at), e.S.locks)
	})
	ex := in.call(f, args, nil, newState(), nil, "root")
	for _, e := range ex {
		fmt.Println("EXIT", e.ret, e.s.locks)
		for k, v := range e.s.facts.at {
			fmt.Println("   ", v, k)
		}
	}
	fmt.Println(in.stat, in.steps, in.incomplete, time.Since(t0), len(termList))
}
