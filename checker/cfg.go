package main

import (
	"golang.org/x/tools/go/ssa"
)

// loop is a natural loop.
type loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	exits  map[*ssa.BasicBlock]bool
}

type fnInfo struct {
	fn    *ssa.Function
	reg   map[ssa.Value]int
	n     int
	defB  []*ssa.BasicBlock // defining block per register (nil: entry)
	loops map[*ssa.BasicBlock]*loop
	ipdom map[*ssa.BasicBlock]*ssa.BasicBlock
	canR  map[*ssa.BasicBlock]bool // can reach a return
	irred bool
}

func (e *Engine) info(fn *ssa.Function) *fnInfo {
	if fi, ok := e.loopInfo[fn]; ok {
		return fi
	}
	fi := analyzeCFG(fn)
	e.loopInfo[fn] = fi
	return fi
}

func analyzeCFG(fn *ssa.Function) *fnInfo {
	fi := &fnInfo{fn: fn, reg: map[ssa.Value]int{}, loops: map[*ssa.BasicBlock]*loop{}, ipdom: map[*ssa.BasicBlock]*ssa.BasicBlock{}, canR: map[*ssa.BasicBlock]bool{}}
	def := func(v ssa.Value, b *ssa.BasicBlock) {
		fi.reg[v] = fi.n
		fi.defB = append(fi.defB, b)
		fi.n++
	}
	for _, p := range fn.Params {
		def(p, nil)
	}
	for _, p := range fn.FreeVars {
		def(p, nil)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				def(v, b)
			}
		}
	}
	// natural loops
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fi.loops[s]
				if l == nil {
					l = &loop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}, exits: map[*ssa.BasicBlock]bool{}}
					fi.loops[s] = l
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	for _, l := range fi.loops {
		for b := range l.blocks {
			for _, s := range b.Succs {
				if !l.blocks[s] {
					l.exits[s] = true
				}
			}
		}
	}
	// irreducible: a retreating edge (in DFS) whose target does not dominate its source
	state := map[*ssa.BasicBlock]int{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		state[b] = 1
		for _, s := range b.Succs {
			if state[s] == 1 && !s.Dominates(b) {
				fi.irred = true
			}
			if state[s] == 0 {
				dfs(s)
			}
		}
		state[b] = 2
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	// blocks that can reach a return
	var work []*ssa.BasicBlock
	for _, b := range fn.Blocks {
		if len(b.Instrs) > 0 {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				fi.canR[b] = true
				work = append(work, b)
			}
		}
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		for _, p := range b.Preds {
			if !fi.canR[p] {
				fi.canR[p] = true
				work = append(work, p)
			}
		}
	}
	// postdominators among those blocks (sets; functions are small)
	n := len(fn.Blocks)
	pd := make([]map[int]bool, n)
	for i, b := range fn.Blocks {
		if !fi.canR[b] {
			continue
		}
		pd[i] = map[int]bool{}
		if isReturn(b) {
			pd[i][i] = true
			continue
		}
		for j, c := range fn.Blocks {
			if fi.canR[c] {
				pd[i][j] = true
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			if !fi.canR[b] || isReturn(b) {
				continue
			}
			var nw map[int]bool
			for _, s := range b.Succs {
				if !fi.canR[s] {
					continue
				}
				if nw == nil {
					nw = map[int]bool{}
					for k := range pd[s.Index] {
						nw[k] = true
					}
				} else {
					for k := range nw {
						if !pd[s.Index][k] {
							delete(nw, k)
						}
					}
				}
			}
			if nw == nil {
				nw = map[int]bool{}
			}
			nw[i] = true
			if len(nw) != len(pd[i]) {
				pd[i] = nw
				ch = true
			}
		}
	}
	for i, b := range fn.Blocks {
		if pd[i] == nil {
			continue
		}
		// immediate: the strict postdominator with the most postdominators
		best, bn := -1, -1
		for k := range pd[i] {
			if k != i && len(pd[k]) > bn {
				best, bn = k, len(pd[k])
			}
		}
		if best >= 0 {
			fi.ipdom[b] = fn.Blocks[best]
		}
	}
	return fi
}

func isReturn(b *ssa.BasicBlock) bool {
	if len(b.Instrs) == 0 {
		return false
	}
	_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
	return ok
}
