package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// The attributes, font descriptions and tabs kept as settings by a layout or a context are only
// read by the operations which do not set them: they are never modified in place.

type borrowing struct {
	p      *Program
	r      *Report
	kinds  map[string]bool // types of the settings followed
	owners map[string]bool
	writes map[ssa.Value]int // parameter -> 1 in progress, 2 writes, 3 does not
	held   map[ssa.Value]string
	work   []ssa.Value
}

// keeps: the field is such a setting.
func (b *borrowing) keeps(t types.Type, i int) (string, bool) {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	if !b.owners[typeName(t)] {
		return "", false
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return "", false
	}
	f := st.Field(i)
	ft := f.Type()
	if pt, ok := ft.(*types.Pointer); ok {
		ft = pt.Elem()
	}
	return typeName(t) + "." + f.Name(), b.kinds[typeName(ft)]
}

// writesParam: the function writes what this parameter points to (or its elements), in place.
func (b *borrowing) writesParam(prm *ssa.Parameter) bool {
	switch b.writes[prm] {
	case 1, 3:
		return false
	case 2:
		return true
	}
	b.writes[prm] = 1
	out := b.written(prm, nil)
	if out {
		b.writes[prm] = 2
	} else {
		b.writes[prm] = 3
	}
	return out
}

// written: v (a pointer, or a slice) is written through in its function.
func (b *borrowing) written(v ssa.Value, report func(in ssa.Instruction)) bool {
	found := false
	hit := func(in ssa.Instruction) {
		found = true
		if report != nil {
			report(in)
		}
	}
	isSlice := func(v ssa.Value) bool {
		_, ok := v.Type().Underlying().(*types.Slice)
		return ok
	}
	ptrToSlice := func(v ssa.Value) bool {
		pt, ok := v.Type().Underlying().(*types.Pointer)
		if !ok {
			return false
		}
		_, ok = pt.Elem().Underlying().(*types.Slice)
		return ok
	}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, ref := range *v.Referrers() {
			switch ref := ref.(type) {
			case *ssa.Store:
				if ref.Addr == v && !ptrToSlice(v) {
					hit(ref)
				}
				if ref.Val == v {
					// a local variable holding the list
					if a, ok := ref.Addr.(*ssa.Alloc); ok && isSlice(v) && !seen[a] {
						seen[a] = true
						for _, r2 := range *a.Referrers() {
							if r2 == ssa.Instruction(ref) || !stillHeld(ref, a, r2) {
								continue
							}
							switch r2 := r2.(type) {
							case *ssa.UnOp:
								walk(r2)
							case ssa.CallInstruction:
								b.passed(r2, a, hit)
							}
						}
					}
				}
			case *ssa.FieldAddr:
				walk(ref)
			case *ssa.IndexAddr:
				// the elements: writing them is writing the list, writing what they point to is not
				for _, r2 := range *ref.Referrers() {
					if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(ref) {
						hit(st)
					}
				}
			case *ssa.UnOp:
				if ref.Op == token.MUL && isSlice(ref) && ptrToSlice(v) {
					walk(ref)
				}
			case *ssa.Slice:
				if isSlice(v) {
					walk(ref)
				}
			case *ssa.ChangeType:
				walk(ref)
			case *ssa.Phi:
				walk(ref)
			case ssa.CallInstruction:
				com := ref.Common()
				if bi, ok := com.Value.(*ssa.Builtin); ok {
					switch {
					case bi.Name() == "copy" && com.Args[0] == v:
						hit(ref)
					case bi.Name() == "append" && com.Args[0] == v:
						if sl, ok := v.(*ssa.Slice); ok && sl.High != nil && sl.Max == nil {
							hit(ref)
						} else if c, ok := ref.(*ssa.Call); ok {
							walk(c) // the same array, when there is room
						}
					}
					continue
				}
				b.passed(ref, v, hit)
			}
		}
	}
	walk(v)
	return found
}

// stillHeld: at this use, the variable may hold what the store gave it, not empty.
func stillHeld(st *ssa.Store, a *ssa.Alloc, use ssa.Instruction) bool {
	index := func(in ssa.Instruction) int {
		for i, x := range in.Block().Instrs {
			if x == in {
				return i
			}
		}
		return -1
	}
	replaced := func(in ssa.Instruction) bool {
		s2, ok := in.(*ssa.Store)
		return ok && s2.Addr == ssa.Value(a)
	}
	holds := func(v ssa.Value) bool {
		if v == st.Val {
			return true
		}
		ld, ok := v.(*ssa.UnOp)
		return ok && ld.Op == token.MUL && ld.X == ssa.Value(a)
	}
	// within the block of the store
	scan := func(blk *ssa.BasicBlock, from int) (found, stop bool) {
		for i := from; i < len(blk.Instrs); i++ {
			if blk.Instrs[i] == use {
				return true, true
			}
			if replaced(blk.Instrs[i]) {
				return false, true
			}
		}
		return false, false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var next func(blk *ssa.BasicBlock) bool
	next = func(blk *ssa.BasicBlock) bool {
		for i, s := range blk.Succs {
			if c, truth := edgeCond(blk, i); c != nil && emptyFact(c, truth, holds) {
				continue
			}
			if seen[s] {
				continue
			}
			seen[s] = true
			found, stop := scan(s, 0)
			if found {
				return true
			}
			if !stop && next(s) {
				return true
			}
		}
		return false
	}
	found, stop := scan(st.Block(), index(st)+1)
	if found {
		return true
	}
	return !stop && next(st.Block())
}

// emptyFact: under this condition, such a value is nil or empty.
func emptyFact(c ssa.Value, truth bool, holds func(v ssa.Value) bool) bool {
	for _, f := range condFacts(c, truth) {
		x, y := f.x, f.y
		if _, ok := x.(*ssa.Const); ok {
			x, y = y, x
		}
		k, ok := y.(*ssa.Const)
		if !ok || !f.eq {
			continue
		}
		if k.IsNil() && holds(x) || isIntConst(k, 0) && isLen(x) && holds(x.(*ssa.Call).Common().Args[0]) {
			return true
		}
	}
	if o, ok := c.(*ssa.BinOp); ok && isLen(o.X) && isIntConst(o.Y, 0) && holds(o.X.(*ssa.Call).Common().Args[0]) {
		return o.Op == token.GTR && !truth || o.Op == token.LEQ && truth
	}
	return false
}

func (b *borrowing) passed(call ssa.CallInstruction, v ssa.Value, hit func(in ssa.Instruction)) {
	com := call.Common()
	if com.IsInvoke() {
		return
	}
	cal := com.StaticCallee()
	if cal == nil || cal.Blocks == nil || !inModule(cal) {
		return
	}
	for i, a := range com.Args {
		if a == v && i < len(cal.Params) && b.writesParam(cal.Params[i]) {
			hit(call)
		}
	}
}

func borrowedSettings(p *Program, r *Report) {
	r.rule("the attributes, font descriptions and tabs a layout or a context was given, and the lists of attributes given to an operation, are not modified in place by the operations which do not set them")
	b := &borrowing{p: p, r: r, kinds: set("pango.AttrList pango.FontDescription pango.TabArray"), owners: set("pango.Layout pango.Context"),
		writes: map[ssa.Value]int{}, held: map[ssa.Value]string{}}
	add := func(v ssa.Value, what string) {
		if _, ok := b.held[v]; !ok {
			b.held[v] = what
			b.work = append(b.work, v)
		}
	}
	for _, fn := range p.Funcs {
		if fn.Package() != p.ssaPkg("pango") {
			continue
		}
		sets := map[string]bool{}
		p.eachInstr(fn, func(in ssa.Instruction) {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
					if name, ok := b.keeps(fa.X.Type(), fa.Field); ok {
						sets[name] = true
					}
				}
			}
		})
		p.eachInstr(fn, func(in ssa.Instruction) {
			fa, ok := in.(*ssa.FieldAddr)
			if !ok {
				return
			}
			name, ok := b.keeps(fa.X.Type(), fa.Field)
			if !ok || sets[name] {
				return
			}
			if _, ok := fa.X.(*ssa.Alloc); ok {
				return // being built
			}
			r.count("uses of settings", 1)
			for _, ref := range *fa.Referrers() {
				if ld, ok := ref.(*ssa.UnOp); ok && ld.Op == token.MUL {
					switch ld.Type().Underlying().(type) {
					case *types.Slice, *types.Pointer:
						add(ld, name)
					}
				}
			}
			add(fa, name)
		})
	}
	for _, fn := range publicAPI(p, "pango") {
		for i, prm := range fn.Params {
			if _, isPtr := prm.Type().(*types.Pointer); !isPtr && typeName(prm.Type()) == "pango.AttrList" {
				r.count("lists given by the caller", 1)
				add(prm, paramLabel(fn, i)+" of "+fname(fn))
			}
		}
	}
	// lists handed out, or handed over, by one function to another
	for len(b.work) > 0 {
		v := b.work[0]
		b.work = b.work[1:]
		what := b.held[v]
		b.written(v, func(in ssa.Instruction) {
			fn := in.Parent()
			r.find("settings-kept", fname(fn)+" "+what, p.pos(in.Pos()), "%s modifies in place what %s holds", fname(fn), what)
		})
		seen := map[ssa.Value]bool{}
		var follow func(v ssa.Value)
		follow = func(v ssa.Value) {
			if seen[v] || v.Referrers() == nil {
				return
			}
			seen[v] = true
			for _, ref := range *v.Referrers() {
				switch ref := ref.(type) {
				case *ssa.Phi:
					follow(ref)
				case *ssa.ChangeType:
					follow(ref)
				case *ssa.Store:
					a, ok := ref.Addr.(*ssa.Alloc)
					if !ok || ref.Val != v || seen[a] {
						continue
					}
					seen[a] = true
					for _, r2 := range *a.Referrers() {
						if ld, ok := r2.(*ssa.UnOp); ok && ld.Op == token.MUL && stillHeld(ref, a, ld) {
							follow(ld)
						}
					}
				case *ssa.Return:
					for _, c := range p.callSites(ref.Parent()) {
						if cv := c.Value(); cv != nil {
							for i, x := range ref.Results {
								if x != v {
									continue
								}
								if len(ref.Results) == 1 {
									add(cv, what)
									continue
								}
								for _, r2 := range *cv.Referrers() {
									if ex, ok := r2.(*ssa.Extract); ok && ex.Index == i {
										add(ex, what)
									}
								}
							}
						}
					}
				}
			}
		}
		follow(v)
	}
	r.need("uses of settings", r.Counts["uses of settings"], 5)
}
