package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Facts: comparisons known to hold in a block because the branches leading to it were taken.

type fact struct {
	x, y ssa.Value
	eq   bool // x == y, or x != y
}

// condFacts lists what a condition says about equality of two values.
func condFacts(v ssa.Value, truth bool) []fact {
	switch v := v.(type) {
	case *ssa.UnOp:
		if v.Op == token.NOT {
			return condFacts(v.X, !truth)
		}
	case *ssa.BinOp:
		switch v.Op {
		case token.EQL:
			return []fact{{v.X, v.Y, truth}}
		case token.NEQ:
			return []fact{{v.X, v.Y, !truth}}
		}
	}
	return nil
}

// edgeCond is the condition (and its truth value) under which control goes from b to its succ-th successor.
func edgeCond(b *ssa.BasicBlock, succ int) (ssa.Value, bool) {
	if len(b.Instrs) == 0 {
		return nil, false
	}
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || b.Succs[0] == b.Succs[1] {
		return nil, false
	}
	return iff.Cond, succ == 0
}

type cond struct {
	v     ssa.Value
	truth bool
}

// blockConds lists the branch conditions that hold whenever b is entered.
func blockConds(b *ssa.BasicBlock) []cond {
	var out []cond
	for x := b; x != nil; x = x.Idom() {
		if len(x.Preds) != 1 {
			continue
		}
		pr := x.Preds[0]
		for i, s := range pr.Succs {
			if s == x {
				if c, tr := edgeCond(pr, i); c != nil {
					out = append(out, cond{c, tr})
				}
			}
		}
	}
	return out
}

func blockFacts(b *ssa.BasicBlock) []fact {
	var out []fact
	for _, c := range blockConds(b) {
		out = append(out, condFacts(c.v, c.truth)...)
	}
	return out
}

// spilled is the parameter held, unmodified, by a local variable.
func spilled(a *ssa.Alloc) *ssa.Parameter {
	var out *ssa.Parameter
	for _, ref := range *a.Referrers() {
		switch r := ref.(type) {
		case *ssa.Store:
			if r.Addr != ssa.Value(a) {
				return nil
			}
			prm, ok := r.Val.(*ssa.Parameter)
			if !ok || out != nil {
				return nil
			}
			out = prm
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			for _, r2 := range *r.Referrers() {
				switch u := r2.(type) {
				case *ssa.UnOp, *ssa.DebugRef:
				case *ssa.Store:
					return nil
				default:
					_ = u
					return nil
				}
			}
		default:
			return nil
		}
	}
	return out
}

// term names a value which is the same wherever the same name occurs in one activation.
func term(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return "const nil"
		}
		return "const " + v.Value.ExactString()
	case *ssa.Convert:
		return term(v.X)
	case *ssa.ChangeType:
		return term(v.X)
	case *ssa.Field:
		return fmt.Sprintf("%s.%d", term(v.X), v.Field)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			switch a := v.X.(type) {
			case *ssa.Alloc:
				if prm := spilled(a); prm != nil {
					return term(prm)
				}
			case *ssa.FieldAddr:
				if al, ok := a.X.(*ssa.Alloc); ok {
					if prm := spilled(al); prm != nil {
						return fmt.Sprintf("%s.%d", term(prm), a.Field)
					}
				}
			}
		}
	}
	return fmt.Sprintf("%s@%p", v.Name(), v)
}

// contradictory: no values satisfy all the facts.
func contradictory(fs []fact) bool {
	up := map[string]string{}
	var find func(string) string
	find = func(s string) string {
		for up[s] != "" {
			s = up[s]
		}
		return s
	}
	isConst := func(s string) bool { return len(s) > 6 && s[:6] == "const " }
	for _, f := range fs {
		if f.eq {
			a, b := find(term(f.x)), find(term(f.y))
			if a == b {
				continue
			}
			if isConst(a) && isConst(b) {
				return true
			}
			if isConst(a) {
				up[b] = a
			} else {
				up[a] = b
			}
		}
	}
	for _, f := range fs {
		if !f.eq && find(term(f.x)) == find(term(f.y)) {
			return true
		}
	}
	return false
}

func inCycle(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, b.Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if x == b {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		work = append(work, x.Succs...)
	}
	return false
}

// A phiCase analyses a function under the assumption that a choice between two of its
// reference parameters went one way; blocks whose branch conditions contradict the
// conditions of that choice are dead in this case.
type phiCase struct {
	phi  *ssa.Phi
	val  ssa.Value
	dead map[*ssa.BasicBlock]bool
}

func (m *modAnalysis) phiCases(fn *ssa.Function) []phiCase {
	if !inModule(fn) {
		return nil
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if _, ok := phi.Type().Underlying().(*types.Basic); ok || !m.refs(phi.Type()) || inCycle(b) {
				continue
			}
			edges := map[ssa.Value][]int{}
			all := true
			for i, e := range phi.Edges {
				if _, ok := e.(*ssa.Parameter); !ok {
					all = false
				}
				edges[e] = append(edges[e], i)
			}
			if !all || len(edges) < 2 {
				continue
			}
			var out []phiCase
			for _, prm := range fn.Params {
				idx, ok := edges[prm]
				if !ok {
					continue
				}
				c := phiCase{phi: phi, val: prm, dead: map[*ssa.BasicBlock]bool{}}
				if len(idx) == 1 {
					pr := b.Preds[idx[0]]
					fs := blockFacts(pr)
					for i, s := range pr.Succs {
						if s == b {
							if cv, tr := edgeCond(pr, i); cv != nil {
								fs = append(fs, condFacts(cv, tr)...)
							}
						}
					}
					for _, d := range fn.Blocks {
						if d != b && b.Dominates(d) && contradictory(append(append([]fact{}, fs...), blockFacts(d)...)) {
							c.dead[d] = true
						}
					}
				}
				out = append(out, c)
			}
			return out
		}
	}
	return nil
}
