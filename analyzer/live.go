package main

import "golang.org/x/tools/go/ssa"

// liveIn gives, for every block of a function, the values which an
// instruction there or further on can still read: those defined before the
// block and used in it or after it. The operands of a phi are read on the
// edge, not in the block.
func (in *Interp) liveIn(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if l, ok := in.live[fn]; ok {
		return l
	}
	live := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	uses := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	defs := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	var ops []*ssa.Value
	for _, b := range fn.Blocks {
		u, d := map[ssa.Value]bool{}, map[ssa.Value]bool{}
		for _, ins := range b.Instrs {
			if _, phi := ins.(*ssa.Phi); !phi {
				ops = ins.Operands(ops[:0])
				for _, o := range ops {
					if o != nil && *o != nil && !d[*o] {
						u[*o] = true
					}
				}
			}
			if v, ok := ins.(ssa.Value); ok {
				d[v] = true
			}
		}
		uses[b], defs[b], live[b] = u, d, map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			add := func(v ssa.Value) {
				if !live[b][v] {
					live[b][v], changed = true, true
				}
			}
			for v := range uses[b] {
				add(v)
			}
			for _, s := range b.Succs {
				for v := range live[s] {
					if !defs[b][v] {
						add(v)
					}
				}
				for _, ins := range s.Instrs {
					phi, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					for j, p := range s.Preds {
						if p == b && !defs[b][phi.Edges[j]] {
							add(phi.Edges[j])
						}
					}
				}
			}
		}
	}
	if in.live == nil {
		in.live = map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}
	}
	in.live[fn] = live
	return live
}
