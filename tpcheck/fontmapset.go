package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fontMapSettings: a font map which is given something else to choose the fonts
// from forgets what it has chosen, and announces it with its serial number.
func fontMapSettings(p *Program, r *Report) {
	r.rule("on every path of a font map setter that stores an exported setting, every map of the font map is emptied and the number GetSerial returns changes")
	o := p.pkg("pango").Types.Scope().Lookup("FontMap")
	if o == nil {
		return
	}
	iface, ok := o.Type().Underlying().(*types.Interface)
	if !ok {
		return
	}
	for _, fn := range p.Funcs {
		recv := fn.Signature.Recv()
		if recv == nil || !isExportedAPI(fn) || !strings.HasPrefix(fn.Name(), "Set") || len(fn.Blocks) == 0 || len(fn.Params) == 0 {
			continue
		}
		pt, ok := recv.Type().(*types.Pointer)
		if !ok || !types.Implements(pt, iface) {
			continue
		}
		st, ok := pt.Elem().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		settings, caches := map[int]bool{}, map[int]bool{}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if f.Exported() {
				settings[i] = true
			} else if _, ok := f.Type().Underlying().(*types.Map); ok {
				caches[i] = true
			}
		}
		serial := serialField(p, fn, pt)
		w := &fieldEvents{p: p}
		if w.unknown(fn, 0) {
			continue
		}
		r.count("font map setters", 1)
		for want := range caches {
			r.count("obligations", 1)
			if pos := w.missed(fn, settings, want); pos.IsValid() {
				r.find("stale-fonts", fname(fn)+"/"+st.Field(want).Name(), p.pos(pos), "%s stores a setting and keeps the %s computed with the previous one", fname(fn), st.Field(want).Name())
			}
		}
		if serial >= 0 {
			r.count("obligations", 1)
			if pos := w.missed(fn, settings, serial); pos.IsValid() {
				r.find("font-map-serial", fname(fn), p.pos(pos), "%s stores a setting without changing the serial number of the font map: the layouts keep the lines computed before", fname(fn))
			}
		}
	}
}

// serialField: the field returned by GetSerial.
func serialField(p *Program, setter *ssa.Function, recv *types.Pointer) int {
	for _, fn := range p.Funcs {
		if fn.Name() != "GetSerial" || fn.Signature.Recv() == nil || !types.Identical(fn.Signature.Recv().Type(), recv) || len(fn.Blocks) != 1 {
			continue
		}
		ret, ok := fn.Blocks[0].Instrs[len(fn.Blocks[0].Instrs)-1].(*ssa.Return)
		if !ok || len(ret.Results) != 1 {
			continue
		}
		if u, ok := ret.Results[0].(*ssa.UnOp); ok && u.Op == token.MUL {
			if fa, ok := u.X.(*ssa.FieldAddr); ok && fa.X == ssa.Value(fn.Params[0]) {
				return fa.Field
			}
		}
	}
	return -1
}

// fieldEvents: which fields of their receiver the functions replace or empty.
type fieldEvents struct {
	p *Program
}

// unknown: the receiver, or the address of one of its fields, is given away.
func (w *fieldEvents) unknown(fn *ssa.Function, depth int) bool {
	if depth > 4 || len(fn.Blocks) == 0 || len(fn.Params) == 0 {
		return true
	}
	self := wrap(fn.Params[0])
	out := false
	w.p.eachInstr(fn, func(in ssa.Instruction) {
		switch in := in.(type) {
		case *ssa.MakeClosure:
			for _, b := range in.Bindings {
				out = out || self[b]
			}
		case *ssa.Go:
			out = true
		case *ssa.FieldAddr:
			if !self[in.X] {
				return
			}
			for _, ref := range realRefs(in) {
				switch ref := ref.(type) {
				case *ssa.Store:
					out = out || ref.Val == ssa.Value(in)
				case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr:
				default:
					out = true
				}
			}
			// a map given to a function may be emptied there
			for _, ref := range realRefs(in) {
				u, ok := ref.(*ssa.UnOp)
				if !ok {
					continue
				}
				if _, ok := u.Type().Underlying().(*types.Map); !ok {
					continue
				}
				for _, r2 := range realRefs(u) {
					if c, ok := r2.(ssa.CallInstruction); ok {
						if _, ok := c.Common().Value.(*ssa.Builtin); !ok {
							out = true
						}
					}
				}
			}
		case ssa.CallInstruction:
			cc := in.Common()
			for i, a := range cc.Args {
				if !self[a] {
					continue
				}
				cal := cc.StaticCallee()
				if cal == nil || i != 0 || !inModule(cal) || cal == fn || w.unknown(cal, depth+1) {
					out = true
				}
			}
		}
	})
	return out
}

// event: in replaces or empties the field of the receiver.
func (w *fieldEvents) event(fn *ssa.Function, in ssa.Instruction, field int) bool {
	self := wrap(fn.Params[0])
	of := func(v ssa.Value) bool { // a load of the field
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return false
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		return ok && self[fa.X] && fa.Field == field
	}
	switch in := in.(type) {
	case *ssa.Store:
		fa, ok := in.Addr.(*ssa.FieldAddr)
		return ok && self[fa.X] && fa.Field == field && !of(in.Val)
	case *ssa.Range:
		if !of(in.X) {
			return false
		}
		found := false
		w.p.eachInstr(fn, func(x ssa.Instruction) {
			if c, ok := x.(*ssa.Call); ok {
				if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "delete" && of(c.Call.Args[0]) {
					found = true
				}
			}
		})
		return found
	case ssa.CallInstruction:
		cc := in.Common()
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			return b.Name() == "clear" && of(cc.Args[0])
		}
		if cal := cc.StaticCallee(); cal != nil && inModule(cal) && len(cc.Args) > 0 && self[cc.Args[0]] {
			return !w.missed(cal, nil, field).IsValid()
		}
	}
	return false
}

// missed: where fn returns after storing one of the settings (nil: in any case)
// without having replaced the field.
func (w *fieldEvents) missed(fn *ssa.Function, settings map[int]bool, field int) token.Pos {
	if len(fn.Blocks) == 0 || len(fn.Params) == 0 {
		return fn.Pos()
	}
	self := wrap(fn.Params[0])
	live := w.p.liveBlocks(fn)
	type state struct {
		b            *ssa.BasicBlock
		stored, done bool
	}
	seen := map[state]bool{}
	work := []state{{fn.Blocks[0], settings == nil, false}}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[s] || !live[s.b] {
			continue
		}
		seen[s] = true
		stored, done := s.stored, s.done
		for _, in := range s.b.Instrs {
			if w.event(fn, in, field) {
				done = true
			}
			switch in := in.(type) {
			case *ssa.Store:
				if fa, ok := in.Addr.(*ssa.FieldAddr); ok && self[fa.X] && settings[fa.Field] {
					stored = true
				}
			case *ssa.Call:
				if cal := in.Call.StaticCallee(); cal != nil && inModule(cal) && len(in.Call.Args) > 0 && self[in.Call.Args[0]] && w.storesAny(cal, settings, 0) {
					stored = true
				}
			case *ssa.Return:
				if stored && !done {
					if in.Pos().IsValid() {
						return in.Pos()
					}
					return fn.Pos()
				}
			}
		}
		for _, n := range s.b.Succs {
			work = append(work, state{n, stored, done})
		}
	}
	return token.NoPos
}

// storesAny: fn stores one of the fields of its receiver.
func (w *fieldEvents) storesAny(fn *ssa.Function, settings map[int]bool, depth int) bool {
	if depth > 4 || len(fn.Blocks) == 0 || len(fn.Params) == 0 {
		return false
	}
	self := wrap(fn.Params[0])
	out := false
	w.p.eachInstr(fn, func(in ssa.Instruction) {
		switch in := in.(type) {
		case *ssa.Store:
			if fa, ok := in.Addr.(*ssa.FieldAddr); ok && self[fa.X] && settings[fa.Field] {
				out = true
			}
		case ssa.CallInstruction:
			if cal := in.Common().StaticCallee(); cal != nil && inModule(cal) && len(in.Common().Args) > 0 && self[in.Common().Args[0]] {
				out = out || w.storesAny(cal, settings, depth+1)
			}
		}
	})
	return out
}
