package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Evaluation of a function path by path.

// plainLocal: the address of the variable only serves to read and write it, or its fields.
func plainLocal(a *ssa.Alloc) bool {
	var ok func(v ssa.Value) bool
	ok = func(v ssa.Value) bool {
		if v.Referrers() == nil {
			return false
		}
		for _, u := range *v.Referrers() {
			switch u := u.(type) {
			case *ssa.Store:
				if u.Addr != v {
					return false
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.FieldAddr:
				if !ok(u) {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	return ok(a)
}

// path is the variable an address belongs to, with the fields leading to the address.
func localPath(v ssa.Value) (a *ssa.Alloc, fields []int) {
	switch v := v.(type) {
	case *ssa.Alloc:
		return v, nil
	case *ssa.FieldAddr:
		a, fields = localPath(v.X)
		if a != nil {
			return a, append(append([]int(nil), fields...), v.Field)
		}
	}
	return nil, nil
}

func localGet(x *aval, t types.Type, fields []int) *aval {
	for _, i := range fields {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return bottom
		}
		if x = fieldAval(x, t, i); x == nil {
			return bottom
		}
		t = st.Field(i).Type()
	}
	return x
}

func localSet(x *aval, t types.Type, fields []int, v *aval) *aval {
	if len(fields) == 0 {
		return v
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return bottom
	}
	out := &aval{dyn: t}
	known := true
	for i := 0; i < st.NumFields(); i++ {
		f := fieldAval(x, t, i)
		if f == nil {
			f = bottom
		}
		if i == fields[0] {
			f = localSet(f, st.Field(i).Type(), fields[1:], v)
		}
		known = known && f.constant() != nil
		out.flds = append(out.flds, f)
	}
	if known {
		l := &lit{T: t}
		for _, f := range out.flds {
			l.Fields = append(l.Fields, f.constant())
		}
		return &aval{l: l}
	}
	return out
}

// local follows the content of the local variables.
func (s *sccp) local(in ssa.Instruction, env map[ssa.Value]*aval, get func(ssa.Value) *aval) bool {
	switch in := in.(type) {
	case *ssa.Alloc:
		if !plainLocal(in) {
			return false
		}
		env[in] = &aval{pt: &aval{l: zeroLit(in.Type().Underlying().(*types.Pointer).Elem())}}
		return true
	case *ssa.FieldAddr:
		a, _ := localPath(in)
		return a != nil && plainLocal(a)
	case *ssa.UnOp:
		if in.Op != token.MUL {
			return false
		}
		a, fields := localPath(in.X)
		if a == nil || !plainLocal(a) || env[a] == nil || env[a].pt == nil {
			return false
		}
		if s.override != nil {
			if v := s.override(in, get); v != nil && v != waiting {
				env[in] = v
				return true
			}
		}
		env[in] = localGet(env[a].pt, a.Type().Underlying().(*types.Pointer).Elem(), fields)
		return true
	case *ssa.Store:
		a, fields := localPath(in.Addr)
		if a == nil || !plainLocal(a) || env[a] == nil || env[a].pt == nil {
			return false
		}
		env[a] = &aval{pt: localSet(env[a].pt, a.Type().Underlying().(*types.Pointer).Elem(), fields, get(in.Val))}
		return true
	}
	return false
}

// unroll propagates the constants along each path of fn separately, the loops included: the values of the
// last round of a loop do not join those of the previous ones. It gives up after a number of blocks.
func (s *sccp) unroll(fn *ssa.Function, args []*aval) (all [][]*aval, ok bool) {
	type state struct {
		b, pred *ssa.BasicBlock
		env     map[ssa.Value]*aval
	}
	if len(fn.Blocks) == 0 {
		return nil, false
	}
	first := state{b: fn.Blocks[0], env: map[ssa.Value]*aval{}}
	for i, prm := range fn.Params {
		first.env[prm] = bottom
		if i < len(args) && args[i] != nil {
			first.env[prm] = args[i]
		}
	}
	work := []state{first}
	for steps := 0; len(work) > 0; steps++ {
		if steps > 2000 {
			return nil, false
		}
		st := work[len(work)-1]
		work = work[:len(work)-1]
		env := make(map[ssa.Value]*aval, len(st.env))
		for k, v := range st.env {
			env[k] = v
		}
		get := func(v ssa.Value) *aval {
			switch v := v.(type) {
			case *ssa.Const:
				if v.Value == nil {
					switch v.Type().Underlying().(type) {
					case *types.Struct, *types.Array:
						return &aval{l: zeroLit(v.Type())}
					}
					return &aval{l: &lit{T: v.Type(), Nil: true}}
				}
				return &aval{l: &lit{T: v.Type(), C: v.Value}}
			case *ssa.Global:
				if o := v.Object(); o != nil {
					if l := s.t.global(o); l != nil {
						return &aval{l: l, addr: true}
					}
				}
				return bottom
			case *ssa.Function:
				if o := v.Object(); o != nil {
					return &aval{l: &lit{T: v.Type(), Ref: o}}
				}
				return bottom
			case *ssa.FreeVar, *ssa.Builtin:
				return bottom
			}
			if a := env[v]; a != nil {
				return a
			}
			return bottom
		}
		phis := map[ssa.Value]*aval{}
		for _, in := range st.b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				for i, pr := range st.b.Preds {
					if pr == st.pred {
						phis[ph] = get(ph.Edges[i])
					}
				}
			}
		}
		for k, v := range phis {
			env[k] = v
		}
		for _, in := range st.b.Instrs {
			if s.local(in, env, get) {
				continue
			}
			v, isVal := in.(ssa.Value)
			if _, isPhi := in.(*ssa.Phi); isPhi || !isVal {
				continue
			}
			if a := s.eval(fn, in, get); a != nil {
				env[v] = a
			} else {
				env[v] = bottom
			}
		}
		switch last := st.b.Instrs[len(st.b.Instrs)-1].(type) {
		case *ssa.Return:
			var one []*aval
			for i := range last.Results {
				one = append(one, get(retVal(last, i)))
			}
			all = append(all, one)
		case *ssa.If:
			v, known := truth(get(last.Cond))
			for i, succ := range st.b.Succs {
				if !known || v == (i == 0) {
					work = append(work, state{b: succ, pred: st.b, env: env})
				}
			}
		case *ssa.Jump:
			work = append(work, state{b: st.b.Succs[0], pred: st.b, env: env})
		}
	}
	return all, true
}
