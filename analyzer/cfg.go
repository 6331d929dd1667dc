package main

// Per-function structural information: block order, natural loops, live values.

import (
	"sort"

	"golang.org/x/tools/go/ssa"
)

type Loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	parent *Loop
	key    string
}

type FuncInfo struct {
	fn     *ssa.Function
	rpo    []*ssa.BasicBlock
	pos    map[*ssa.BasicBlock]int
	loops  map[*ssa.BasicBlock]*Loop // by header
	inner  map[*ssa.BasicBlock]*Loop // innermost loop of a block
	idx    map[ssa.Value]int
	nvals  int
	livein map[*ssa.BasicBlock][]int
}

var funcInfos = map[*ssa.Function]*FuncInfo{}

func infoOf(fn *ssa.Function) *FuncInfo {
	if fi, ok := funcInfos[fn]; ok {
		return fi
	}
	fi := &FuncInfo{fn: fn, pos: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*Loop{}, inner: map[*ssa.BasicBlock]*Loop{}, idx: map[ssa.Value]int{}, livein: map[*ssa.BasicBlock][]int{}}
	funcInfos[fn] = fi
	add := func(v ssa.Value) {
		fi.idx[v] = fi.nvals
		fi.nvals++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	if len(fn.Blocks) == 0 {
		return fi
	}
	// reverse post order
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fi.pos[post[i]] = len(fi.rpo)
		fi.rpo = append(fi.rpo, post[i])
	}
	// natural loops
	for _, b := range fi.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fi.loops[s]
				if l == nil {
					l = &Loop{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = l
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.body[x] || !seen[x] {
						continue
					}
					l.body[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	var ls []*Loop
	for _, l := range fi.loops {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool {
		if len(ls[i].body) != len(ls[j].body) {
			return len(ls[i].body) < len(ls[j].body)
		}
		return ls[i].header.Index < ls[j].header.Index
	})
	for i, l := range ls {
		l.key = fn.RelString(nil) + "@" + itoa(l.header.Index)
		for _, m := range ls[i+1:] {
			if m.body[l.header] {
				l.parent = m
				break
			}
		}
		for b := range l.body {
			if fi.inner[b] == nil {
				fi.inner[b] = l
			}
		}
	}
	// liveness (phi operands are used at the end of the predecessor)
	use := make([]map[int]bool, len(fn.Blocks))
	def := make([]map[int]bool, len(fn.Blocks))
	live := make([]map[int]bool, len(fn.Blocks))
	for _, b := range fn.Blocks {
		u, d := map[int]bool{}, map[int]bool{}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); !ok {
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					if k, ok := fi.idx[*op]; ok && !d[k] {
						u[k] = true
					}
				}
			}
			if v, ok := in.(ssa.Value); ok {
				d[fi.idx[v]] = true
			}
		}
		use[b.Index], def[b.Index], live[b.Index] = u, d, map[int]bool{}
	}
	for ch := true; ch; {
		ch = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			l := live[i]
			n := len(l)
			for k := range use[i] {
				l[k] = true
			}
			for _, s := range b.Succs {
				for k := range live[s.Index] {
					if !def[i][k] {
						l[k] = true
					}
				}
				pi := -1
				for j, p := range s.Preds {
					if p == b {
						pi = j
					}
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if k, ok := fi.idx[ph.Edges[pi]]; ok && !def[i][k] {
						l[k] = true
					}
				}
			}
			if len(l) != n {
				ch = true
			}
		}
	}
	for _, b := range fn.Blocks {
		var ks []int
		for k := range live[b.Index] {
			ks = append(ks, k)
		}
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			ks = append(ks, fi.idx[ph])
		}
		sort.Ints(ks)
		out := ks[:0]
		for i, k := range ks {
			if i == 0 || k != ks[i-1] {
				out = append(out, k)
			}
		}
		fi.livein[b] = out
	}
	return fi
}
