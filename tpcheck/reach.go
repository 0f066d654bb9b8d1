package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Strong updates of local struct variables: which stores of a field reach a load of it,
// or the point where the variable leaves the function.

type fieldKey struct {
	a *ssa.Alloc
	f int
}

type reachDefs struct {
	track map[*ssa.Alloc]bool
	weak  map[fieldKey]bool
	// at a load (or at the exits): the stores that may have set the field
	at     map[ssa.Instruction]map[fieldKey][]*ssa.Store
	exits  map[fieldKey]map[*ssa.Store]bool
	fields map[*ssa.Alloc]int
	// array fields whose elements are all replaced by a loop; the block reached once it is done
	refill map[fieldKey]*ssa.BasicBlock
}

// initial contents of a refilled field are kept apart, seen only by the loads not after the loop
const initialOf = 1000

// refilled recognises a loop storing every element of the array field &a.f; a path
// through the loop body may only avoid the store when a value is found nil.
func refilled(fa *ssa.FieldAddr) *ssa.BasicBlock {
	arr, ok := fa.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok {
		return nil
	}
	for _, u := range *fa.Referrers() {
		ia, ok := u.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, u2 := range *ia.Referrers() {
			s, ok := u2.(*ssa.Store)
			if !ok || s.Addr != ssa.Value(ia) {
				continue
			}
			start := int64(0)
			var phi *ssa.Phi
			switch x := ia.Index.(type) {
			case *ssa.Phi:
				phi = x
			case *ssa.BinOp:
				if x.Op == token.ADD && isIntConst(x.Y, 1) {
					phi, _ = x.X.(*ssa.Phi)
					start = -1
				}
			}
			if phi == nil {
				continue
			}
			counts := true
			for _, e := range phi.Edges {
				if isIntConst(e, start) {
					continue
				}
				if b, ok := e.(*ssa.BinOp); ok && b.Op == token.ADD && b.X == ssa.Value(phi) && isIntConst(b.Y, 1) {
					continue
				}
				counts = false
			}
			h := phi.Block()
			if !counts || len(h.Instrs) == 0 {
				continue
			}
			iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			c, ok := iff.Cond.(*ssa.BinOp)
			if !ok || c.Op != token.LSS || c.X != ia.Index || !isIntConst(c.Y, arr.Len()) {
				continue
			}
			// every way through the body
			seen := map[*ssa.BasicBlock]bool{}
			okBody := true
			var walk func(b *ssa.BasicBlock)
			walk = func(b *ssa.BasicBlock) {
				if b == h || len(b.Succs) == 0 {
					okBody = false
					return
				}
				if b == s.Block() || seen[b] {
					return
				}
				seen[b] = true
				for i, n := range b.Succs {
					if cv, truth := edgeCond(b, i); cv != nil {
						nilHere := false
						for _, f := range condFacts(cv, truth) {
							k, ok := f.y.(*ssa.Const)
							if !ok || !f.eq {
								continue
							}
							if k.IsNil() || isIntConst(k, 0) && isLen(f.x) {
								nilHere = true
							}
						}
						if nilHere {
							continue
						}
					}
					walk(n)
				}
			}
			walk(h.Succs[0])
			if okBody {
				return h.Succs[1]
			}
		}
	}
	return nil
}

func isLen(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Common().Value.(*ssa.Builtin)
	return ok && b.Name() == "len"
}

// nilOnEdge: the value is known to be nil when control goes from one block to the other.
func nilOnEdge(from, to *ssa.BasicBlock, v ssa.Value) bool {
	switch v.Type().Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Slice, *types.Map, *types.Signature, *types.Chan:
	default:
		return false
	}
	facts := blockFacts(from)
	for i, s := range from.Succs {
		if s == to {
			if c, truth := edgeCond(from, i); c != nil {
				facts = append(facts, condFacts(c, truth)...)
			}
		}
	}
	for _, f := range facts {
		x, y := f.x, f.y
		if k, ok := x.(*ssa.Const); ok && k.IsNil() {
			x, y = y, x
		}
		if k, ok := y.(*ssa.Const); ok && f.eq && x == v && k.IsNil() {
			return true
		}
	}
	return false
}

func isIntConst(v ssa.Value, n int64) bool {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return false
	}
	return c.Int64() == n
}

// initial adds what a refilled field held before the loop to what a load sees.
func (st *fstate) initial(in *ssa.UnOp, a *ssa.Alloc, f int, dst taint) {
	done := st.rd.refill[fieldKey{a, f}]
	if done == nil || done.Dominates(in.Block()) {
		return
	}
	st.union(dst, st.contents(st.obj(a).idx, initialOf+f))
}

func (rd *reachDefs) strong(a *ssa.Alloc, f int) bool {
	return rd.track[a] && !rd.weak[fieldKey{a, f}]
}

// fieldAddrOf recognises &alloc.f
func fieldAddrOf(v ssa.Value) (*ssa.Alloc, int, bool) {
	fa, ok := v.(*ssa.FieldAddr)
	if !ok {
		return nil, 0, false
	}
	a, ok := fa.X.(*ssa.Alloc)
	if !ok {
		return nil, 0, false
	}
	return a, fa.Field, true
}

func (m *modAnalysis) reachOf(fn *ssa.Function) *reachDefs {
	if r, ok := m.rdefs[fn]; ok {
		return r
	}
	rd := &reachDefs{track: map[*ssa.Alloc]bool{}, weak: map[fieldKey]bool{}, at: map[ssa.Instruction]map[fieldKey][]*ssa.Store{},
		exits: map[fieldKey]map[*ssa.Store]bool{}, fields: map[*ssa.Alloc]int{}, refill: map[fieldKey]*ssa.BasicBlock{}}
	m.rdefs[fn] = rd
	live := m.p.liveBlocks(fn)
	escapes := map[ssa.Instruction]map[*ssa.Alloc]bool{}
	for _, b := range fn.Blocks {
		if !live[b] {
			continue
		}
		for _, in := range b.Instrs {
			a, ok := in.(*ssa.Alloc)
			if !ok {
				continue
			}
			s, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			if !ok || s.NumFields() > 64 {
				continue
			}
			good := true
			for _, ref := range *a.Referrers() {
				switch ref := ref.(type) {
				case *ssa.FieldAddr:
					if done := refilled(ref); done != nil {
						rd.refill[fieldKey{a, ref.Field}] = done
					}
					for _, u := range *ref.Referrers() {
						switch u := u.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.Store:
							if u.Val == ref {
								rd.weak[fieldKey{a, ref.Field}] = true
							}
						default:
							rd.weak[fieldKey{a, ref.Field}] = true
						}
					}
				case *ssa.UnOp, *ssa.DebugRef:
				case *ssa.Store:
					if ref.Val == a {
						if escapes[ref] == nil {
							escapes[ref] = map[*ssa.Alloc]bool{}
						}
						escapes[ref][a] = true
					}
				case *ssa.Return, *ssa.MakeInterface, *ssa.Phi:
					// the exits stand for these
				default:
					good = false
				}
			}
			if good {
				rd.track[a] = true
				rd.fields[a] = s.NumFields()
			}
		}
	}
	if len(rd.track) == 0 {
		return rd
	}
	type state map[fieldKey]map[*ssa.Store]bool
	in := map[*ssa.BasicBlock]state{}
	for changed := true; changed; {
		changed = false
		for _, b := range fn.Blocks {
			if !live[b] {
				continue
			}
			cur := state{}
			for k, v := range in[b] {
				c := map[*ssa.Store]bool{}
				for s := range v {
					c[s] = true
				}
				cur[k] = c
			}
			for _, ins := range b.Instrs {
				switch ins := ins.(type) {
				case *ssa.Alloc:
					if rd.track[ins] {
						for f := 0; f < rd.fields[ins]; f++ {
							delete(cur, fieldKey{ins, f})
						}
					}
				case *ssa.UnOp:
					if ins.Op != token.MUL {
						break
					}
					if a, f, ok := fieldAddrOf(ins.X); ok && rd.strong(a, f) {
						rd.record(ins, fieldKey{a, f}, cur[fieldKey{a, f}])
					} else if a, ok := ins.X.(*ssa.Alloc); ok && rd.track[a] {
						for f := 0; f < rd.fields[a]; f++ {
							if rd.strong(a, f) {
								rd.record(ins, fieldKey{a, f}, cur[fieldKey{a, f}])
							}
						}
					}
				case *ssa.Store:
					if a, f, ok := fieldAddrOf(ins.Addr); ok && rd.strong(a, f) {
						cur[fieldKey{a, f}] = map[*ssa.Store]bool{ins: true}
					} else if a, ok := ins.Addr.(*ssa.Alloc); ok && rd.track[a] {
						for f := 0; f < rd.fields[a]; f++ {
							cur[fieldKey{a, f}] = map[*ssa.Store]bool{ins: true}
						}
					}
					for a := range escapes[ins] {
						for f := 0; f < rd.fields[a]; f++ {
							rd.exit(fieldKey{a, f}, cur[fieldKey{a, f}])
						}
					}
				case *ssa.Return, *ssa.MakeInterface:
					for k, v := range cur {
						rd.exit(k, v)
					}
				}
			}
			for i, s := range b.Succs {
				if !live[s] {
					continue
				}
				kill, has := nilEdge(b, i)
				t := in[s]
				if t == nil {
					t = state{}
					in[s] = t
					changed = true
				}
				for k, v := range cur {
					if has && k == kill {
						continue
					}
					if t[k] == nil {
						t[k] = map[*ssa.Store]bool{}
					}
					for st := range v {
						if !t[k][st] {
							t[k][st] = true
							changed = true
						}
					}
				}
			}
		}
	}
	return rd
}

func (rd *reachDefs) record(in ssa.Instruction, k fieldKey, defs map[*ssa.Store]bool) {
	if rd.at[in] == nil {
		rd.at[in] = map[fieldKey][]*ssa.Store{}
	}
	var l []*ssa.Store
	for s := range defs {
		l = append(l, s)
	}
	rd.at[in][k] = l
}

func (rd *reachDefs) exit(k fieldKey, defs map[*ssa.Store]bool) {
	if rd.exits[k] == nil {
		rd.exits[k] = map[*ssa.Store]bool{}
	}
	for s := range defs {
		rd.exits[k][s] = true
	}
}

// nilEdge: on this edge the field is known to be nil.
func nilEdge(b *ssa.BasicBlock, succ int) (fieldKey, bool) {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return fieldKey{}, false
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok || (bo.Op != token.EQL && bo.Op != token.NEQ) {
		return fieldKey{}, false
	}
	x, y := bo.X, bo.Y
	if c, ok := x.(*ssa.Const); ok && c.IsNil() {
		x, y = y, x
	}
	c, ok := y.(*ssa.Const)
	if !ok || !c.IsNil() {
		return fieldKey{}, false
	}
	ld, ok := x.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL || ld.Block() != b {
		return fieldKey{}, false
	}
	a, f, ok := fieldAddrOf(ld.X)
	if !ok {
		return fieldKey{}, false
	}
	nilSucc := 0
	if bo.Op == token.NEQ {
		nilSucc = 1
	}
	return fieldKey{a, f}, succ == nilSucc
}

// fieldOfStore is what a store gives to the field f of the alloc.
func (st *fstate) fieldOfStore(s *ssa.Store, f int, ft types.Type, into taint) {
	if c, ok := s.Val.(*ssa.Const); ok && c != nil {
		return
	}
	val := st.get(s.Val)
	if _, _, ok := fieldAddrOf(s.Addr); ok {
		st.union(into, flat(val))
		return
	}
	if !st.m.refs(ft) {
		return
	}
	for r, l := range val.direct {
		st.add(into, st.field(r, f, ft), l)
	}
	st.union(into, val.fields[f])
}

// loadTracked handles a load of a tracked local struct or one of its fields.
func (st *fstate) loadTracked(in *ssa.UnOp) bool {
	rd := st.rd
	if a, f, ok := fieldAddrOf(in.X); ok {
		st.initial(in, a, f, st.get(in).direct)
	}
	if a, f, ok := fieldAddrOf(in.X); ok && rd.strong(a, f) {
		if st.m.refs(in.Type()) {
			for _, s := range rd.at[in][fieldKey{a, f}] {
				if _, whole := s.Addr.(*ssa.Alloc); !whole {
					// a struct field of struct type keeps its own fields
					st.copyInfo(st.get(in), st.get(s.Val))
				} else {
					st.fieldOfStore(s, f, in.Type(), st.get(in).direct)
				}
			}
		}
		return true
	}
	if a, ok := in.X.(*ssa.Alloc); ok && rd.track[a] {
		d := st.get(in)
		o := st.obj(a)
		str := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		for f := 0; f < str.NumFields(); f++ {
			ft := str.Field(f).Type()
			if !st.m.refs(ft) {
				continue
			}
			if rd.strong(a, f) {
				for _, s := range rd.at[in][fieldKey{a, f}] {
					st.fieldOfStore(s, f, ft, st.fieldTaint(d, f))
				}
			} else if c := st.cont[o.idx]; c != nil {
				st.union(st.fieldTaint(d, f), c[f])
				st.union(st.fieldTaint(d, f), c[-1])
				st.initial(in, a, f, st.fieldTaint(d, f))
			}
		}
		return true
	}
	return false
}

// storeTracked handles a store to a tracked local struct or one of its fields.
func (st *fstate) storeTracked(in *ssa.Store) bool {
	rd := st.rd
	if a, f, ok := fieldAddrOf(in.Addr); ok && rd.strong(a, f) {
		if rd.exits[fieldKey{a, f}][in] {
			st.fieldOfStore(in, f, in.Val.Type(), st.contents(st.obj(a).idx, f))
		}
		return true
	}
	if a, ok := in.Addr.(*ssa.Alloc); ok && rd.track[a] {
		str := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		for f := 0; f < str.NumFields(); f++ {
			if rd.strong(a, f) && !rd.exits[fieldKey{a, f}][in] {
				continue
			}
			if rd.refill[fieldKey{a, f}] != nil {
				st.fieldOfStore(in, f, str.Field(f).Type(), st.contents(st.obj(a).idx, initialOf+f))
				continue
			}
			st.fieldOfStore(in, f, str.Field(f).Type(), st.contents(st.obj(a).idx, f))
		}
		return true
	}
	return false
}
