package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loops and recursive calls make progress.

func init() {
	register("C12", "Every loop and recursive call of the library is searched for an iteration, or a call, which changes nothing the next one depends on.", runC12)
}

// loop is a natural loop.
type loop struct {
	fn     *ssa.Function
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

func (p *Program) loops(fn *ssa.Function) []*loop {
	live := p.liveBlocks(fn)
	byHeader := map[*ssa.BasicBlock]*loop{}
	var out []*loop
	for _, b := range fn.Blocks {
		if !live[b] {
			continue
		}
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := byHeader[h]
			if l == nil {
				l = &loop{fn, h, map[*ssa.BasicBlock]bool{h: true}}
				byHeader[h] = l
				out = append(out, l)
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.body[x] || !live[x] {
					continue
				}
				l.body[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	return out
}

func (l *loop) pos() token.Pos {
	for _, in := range l.header.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	var best token.Pos
	for b := range l.body {
		for _, in := range b.Instrs {
			if q := in.Pos(); q.IsValid() && (best == 0 || q < best) {
				best = q
			}
		}
	}
	if best == 0 {
		return l.fn.Pos()
	}
	return best
}

type progress struct {
	p       *Program
	r       *Report
	wr      map[*ssa.Function]written
	kind    map[*ssa.Function]map[string]bool
	unknown map[*ssa.Function]bool
	pure    map[*ssa.Function]int // 1: being decided, 2: pure, 3: not
}

// noEffect: executing the instruction again, on the same operands, changes nothing and gives the same values.
func (c *progress) noEffect(in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.Store:
		_, ok := addrRoot(in.Addr).(*ssa.Alloc)
		return ok && !inLoopAlloc(in)
	case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select, *ssa.Next, *ssa.RunDefers:
		return false
	case *ssa.UnOp:
		return in.Op != token.ARROW
	case *ssa.Call:
		if b, ok := in.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "cap", "min", "max", "real", "imag", "complex":
				return true
			}
			return false
		}
		fs := c.p.callees(in)
		if len(fs) == 0 {
			return false
		}
		for _, f := range fs {
			if !c.pureFunc(f) {
				return false
			}
		}
	}
	return true
}

// inLoopAlloc: the variable assigned is not local to the iteration.
func inLoopAlloc(st *ssa.Store) bool {
	al, _ := addrRoot(st.Addr).(*ssa.Alloc)
	return al == nil || al.Block() != st.Block()
}

var pureStd = map[string]bool{"strings": true, "unicode": true, "unicode/utf8": true, "unicode/utf16": true, "math": true, "math/bits": true, "strconv": true, "bytes": true, "errors": true, "path": true, "path/filepath": true}

func (c *progress) pureFunc(f *ssa.Function) bool {
	if !inModule(f) {
		pk := ""
		if f.Pkg != nil {
			pk = f.Pkg.Pkg.Path()
		}
		return pureStd[pk] && f.Signature.Recv() == nil && !strings.Contains(f.Name(), "Walk") && !strings.Contains(f.Name(), "Func") && f.Name() != "Map"
	}
	switch c.pure[f] {
	case 1, 2:
		return true
	case 3:
		return false
	}
	c.pure[f] = 1
	ok := len(f.Blocks) > 0
	c.p.eachInstr(f, func(in ssa.Instruction) {
		if st, isStore := in.(*ssa.Store); isStore {
			if _, local := addrRoot(st.Addr).(*ssa.Alloc); !local {
				ok = false
			}
			return
		}
		if _, next := in.(*ssa.Next); next {
			return
		}
		ok = ok && c.noEffect(in)
	})
	c.pure[f] = 3
	if ok {
		c.pure[f] = 2
	}
	return ok
}

// parts adds the fields which an assignment of the type changes, at any depth.
func parts(t types.Type, out map[string]bool) {
	switch u := t.Underlying().(type) {
	case *types.Array:
		out["elements "+u.Elem().String()] = true
		parts(u.Elem(), out)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			out[fmt.Sprint(t.String(), ".", i)] = true
			parts(u.Field(i).Type(), out)
		}
	}
}

// kindsOf adds the kinds of memory an instruction may change: false if they are not known.
func (c *progress) kindsOf(in ssa.Instruction, out map[string]bool) bool {
	switch in := in.(type) {
	case *ssa.Store:
		if m := memory(in.Addr); m != "" {
			out[m] = true
		} else {
			out["to "+in.Val.Type().Underlying().String()] = true
		}
		parts(in.Val.Type(), out)
	case *ssa.Call:
		if b, ok := in.Call.Value.(*ssa.Builtin); ok {
			if b.Name() == "append" || b.Name() == "copy" {
				out["elements"] = true
			}
			return true
		}
		fs := c.p.callees(in)
		if len(fs) == 0 {
			return false
		}
		for _, f := range fs {
			ks, ok := c.kinds(f)
			if !ok {
				return false
			}
			for k := range ks {
				out[k] = true
			}
		}
	case *ssa.Defer, *ssa.RunDefers: // see kinds
	case *ssa.Go, *ssa.Send, *ssa.Select:
		return false
	}
	return true
}

var harmless = map[string]bool{"fmt": true, "log": true, "sort": true, "encoding/binary": true, "encoding/xml": true}

// kinds of memory a function may change.
func (c *progress) kinds(f *ssa.Function) (map[string]bool, bool) {
	if k, done := c.kind[f]; done {
		return k, !c.unknown[f]
	}
	out := map[string]bool{}
	c.kind[f] = out
	ok := true
	seen := map[*ssa.Function]bool{}
	var visit func(g *ssa.Function)
	visit = func(g *ssa.Function) {
		if seen[g] || !ok {
			return
		}
		seen[g] = true
		if !inModule(g) {
			pk := ""
			if g.Pkg != nil {
				pk = g.Pkg.Pkg.Path()
			}
			if !(pureStd[pk] || harmless[pk] && g.Signature.Recv() == nil) {
				out["external"] = true // not the fields of the types of the module
			}
			return
		}
		c.p.eachInstr(g, func(in ssa.Instruction) {
			_, isDefer := in.(*ssa.Defer)
			_, isCall := in.(*ssa.Call)
			if isCall || isDefer {
				call := in.(ssa.CallInstruction)
				if _, builtin := call.Common().Value.(*ssa.Builtin); !builtin {
					fs := c.p.callees(call)
					if len(fs) == 0 && call.Common().IsInvoke() {
						out["external"] = true // an interface which the user implements
						return
					}
					ok = ok && len(fs) > 0
					for _, h := range fs {
						visit(h)
					}
					return
				}
			}
			if ok {
				ok = c.kindsOf(in, out)
			}
		})
	}
	visit(f)
	c.unknown[f] = !ok
	return out, ok
}

// writes lists the parameters whose memory a function may change; ok is false if it may have any other effect.
func (c *progress) writes(f *ssa.Function) (params map[int]bool, ok bool) {
	if w, done := c.wr[f]; done {
		return w.params, w.ok
	}
	c.wr[f] = written{nil, false}
	params, ok = map[int]bool{}, inModule(f) && len(f.Blocks) > 0
	write := func(v ssa.Value) {
		rs, known := valueRoots(v)
		ok = ok && known
		for r := range rs {
			for i, prm := range f.Params {
				if r == ssa.Value(prm) {
					params[i] = true
				}
			}
		}
	}
	c.p.eachInstr(f, func(in ssa.Instruction) {
		if !ok {
			return
		}
		switch in := in.(type) {
		case *ssa.Store:
			write(in.Addr)
		case *ssa.MapUpdate:
			write(in.Map)
		case *ssa.Next:
		case *ssa.Call:
			if b, isBuiltin := in.Call.Value.(*ssa.Builtin); isBuiltin {
				switch b.Name() {
				case "append", "copy", "delete":
					write(in.Call.Args[0])
					return
				}
			}
			if c.noEffect(in) {
				return
			}
			g := in.Call.StaticCallee()
			if g == nil {
				ok = false
				return
			}
			ps, known := c.writes(g)
			ok = ok && known
			for i := range ps {
				write(in.Call.Args[i])
			}
		default:
			ok = ok && c.noEffect(in)
		}
	})
	c.wr[f] = written{params, ok}
	return params, ok
}

type written struct {
	params map[int]bool
	ok     bool
}

// valueRoots is what a reference is reached from: parameters and local variables.
func valueRoots(v ssa.Value) (map[ssa.Value]bool, bool) {
	out, seen, ok := map[ssa.Value]bool{}, map[ssa.Value]bool{}, true
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Parameter, *ssa.MakeSlice, *ssa.MakeMap:
			out[v] = true
		case *ssa.Alloc:
			out[v] = true
			// what is stored in it, or in a part of it
			var stored func(addr ssa.Value)
			stored = func(addr ssa.Value) {
				for _, u := range *addr.Referrers() {
					switch u := u.(type) {
					case *ssa.Store:
						if _, basic := u.Val.Type().Underlying().(*types.Basic); !basic && u.Addr == addr {
							walk(u.Val)
						}
					case *ssa.FieldAddr:
						stored(u)
					case *ssa.IndexAddr:
						stored(u)
					}
				}
			}
			stored(v)
		case *ssa.Const:
		case *ssa.FieldAddr:
			walk(v.X)
		case *ssa.IndexAddr:
			walk(v.X)
		case *ssa.Field:
			walk(v.X)
		case *ssa.Slice:
			walk(v.X)
		case *ssa.ChangeType:
			walk(v.X)
		case *ssa.UnOp:
			walk(v.X)
		case *ssa.Phi:
			for _, e := range v.Edges {
				walk(e)
			}
		case *ssa.Call:
			if b, isBuiltin := v.Call.Value.(*ssa.Builtin); isBuiltin && b.Name() == "append" {
				walk(v.Call.Args[0])
				return
			}
			ok = false
		default:
			ok = false
		}
	}
	walk(v)
	return out, ok
}

// private: the address of the variable is only used to read it, assign it, and call functions with it.
func private(al *ssa.Alloc) bool {
	for _, u := range *al.Referrers() {
		switch u := u.(type) {
		case *ssa.Store:
			if u.Val == al {
				return false
			}
		case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.UnOp, *ssa.Call, *ssa.DebugRef, *ssa.Slice:
		default:
			return false
		}
	}
	return true
}

// path is a way through an iteration.
type iterPath struct {
	c     *progress
	l     *loop
	env   map[*ssa.Phi]ssa.Value
	order map[string]uint8 // the orders of two terms left possible: 1 <, 2 =, 4 >
	bools map[string]bool
	on    map[*ssa.BasicBlock]bool
	conds []supposition
	used  map[ssa.Value]bool // what the conditions of the path are computed from
	mem   []ssa.Instruction  // the assignments of memory
	// the other effects
	effects []ssa.Instruction
	budget  *int
}

// supposition is a condition of a path: what it reads directly, and the calls of the module it depends on, with what they are given.
type supposition struct {
	term  string
	reads map[ssa.Value]bool
	calls map[string]map[ssa.Value]bool
	// the elements of slices and arrays, by term
	elements map[string]ssa.Value
}

func (w *iterPath) note(v ssa.Value) {
	c := supposition{w.term(v, 0), map[ssa.Value]bool{}, map[string]map[ssa.Value]bool{}, map[string]ssa.Value{}}
	size := 0
	var walk func(v ssa.Value, into, seen map[ssa.Value]bool)
	walk = func(v ssa.Value, into, seen map[ssa.Value]bool) {
		v = w.resolve(v)
		if seen[v] {
			return
		}
		seen[v] = true
		w.used[v] = true
		size++
		in, ok := v.(ssa.Instruction)
		element := false
		if ld, isLoad := v.(*ssa.UnOp); isLoad && ld.Op == token.MUL {
			_, element = ld.X.(*ssa.IndexAddr)
		}
		if element {
			// one value for all the loads of the element
			t := w.term(v, 0)
			if c.elements[t] == nil {
				c.elements[t] = v
				for _, o := range w.conds {
					if e := o.elements[t]; e != nil {
						c.elements[t] = e
					}
				}
			}
			if into != nil {
				into[c.elements[t]] = true
				// what an element is does not follow from its index: only what the function is given matters
				inner := map[ssa.Value]bool{}
				for _, o := range in.Operands(nil) {
					walk(*o, inner, seen)
				}
				return
			}
			c.reads[c.elements[t]] = true
		}
		if call, isCall := v.(*ssa.Call); isCall && into == nil {
			if f := call.Call.StaticCallee(); f == nil || inModule(f) {
				if _, builtin := call.Call.Value.(*ssa.Builtin); !builtin {
					into = map[ssa.Value]bool{}
					seen = map[ssa.Value]bool{}
					c.calls[w.term(call, 0)] = into
				}
			}
		}
		switch v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Builtin, *ssa.Global:
			return
		case *ssa.Phi, *ssa.Alloc, *ssa.Parameter, *ssa.FreeVar:
			ok = false
		}
		if into != nil {
			into[v] = true
		} else {
			c.reads[v] = true
		}
		if ok {
			for _, o := range in.Operands(nil) {
				if *o != nil && size < 5000 {
					walk(*o, into, seen)
				}
			}
		}
	}
	walk(v, nil, map[ssa.Value]bool{})
	w.conds = append(w.conds, c)
}

// memory is the kind of memory an address leads to: a field, the elements of a type.
func memory(addr ssa.Value) string {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		return fmt.Sprint(a.X.Type().Underlying().(*types.Pointer).Elem().String(), ".", a.Field)
	case *ssa.IndexAddr:
		return "elements " + a.Type().Underlying().(*types.Pointer).Elem().String()
	case *ssa.Alloc, *ssa.Global, *ssa.FreeVar:
		return fmt.Sprintf("%p", a)
	}
	return ""
}

// local: the call only changes local variables of the function.
func (c *progress) local(call *ssa.Call) bool {
	f := call.Call.StaticCallee()
	if f == nil {
		return false
	}
	ps, ok := c.writes(f)
	for i := range ps {
		rs, known := valueRoots(call.Call.Args[i])
		ok = ok && known
		for r := range rs {
			al, isAlloc := r.(*ssa.Alloc)
			ok = ok && isAlloc && private(al)
		}
	}
	return ok
}

// matters: a condition of the path may read the memory assigned.
func (w *iterPath) matters(in ssa.Instruction) bool {
	var written string
	var t types.Type
	switch in := in.(type) {
	case *ssa.Store:
		written, t = memory(in.Addr), in.Val.Type()
	case *ssa.MapUpdate:
		written = "map " + in.Map.Type().String()
	case *ssa.Call:
		if b, ok := in.Call.Value.(*ssa.Builtin); !ok || b.Name() != "append" {
			if w.used[in] {
				return true
			}
			ps, _ := w.c.writes(in.Call.StaticCallee())
			for i := range ps {
				rs, _ := valueRoots(in.Call.Args[i])
				for r := range rs {
					if w.used[r] {
						return true
					}
				}
			}
			return false
		}
		t = in.Type().Underlying().(*types.Slice).Elem()
		written = "elements " + t.String()
		if w.used[in] {
			return true
		}
	}
	if written == "" {
		return true
	}
	if t != nil {
		if _, isStruct := t.Underlying().(*types.Struct); isStruct { // its fields as well
			return true
		}
	}
	for v := range w.used {
		switch v := v.(type) {
		case *ssa.UnOp:
			if v.Op != token.MUL {
				continue
			}
			if m := memory(v.X); m == "" || m == written || strings.HasPrefix(m, "elements ") && strings.HasPrefix(written, "0x") {
				return true
			}
			if _, isStruct := v.Type().Underlying().(*types.Struct); isStruct {
				return true
			}
		case *ssa.Lookup:
			if written == "map "+v.X.Type().String() {
				return true
			}
		case *ssa.Call:
			b, ok := v.Call.Value.(*ssa.Builtin)
			if !ok {
				return true
			}
			if len(v.Call.Args) > 0 && b.Name() == "len" && written == "map "+v.Call.Args[0].Type().String() {
				return true
			}
		}
	}
	return false
}

// correlated: the result of a function called by a condition may depend on another condition.
func (w *iterPath) correlated() bool {
	for i, a := range w.conds {
		for j, b := range w.conds {
			if i == j || a.term == b.term {
				continue
			}
			for call, given := range a.calls {
				for v := range given {
					if b.reads[v] {
						return true
					}
					for other, also := range b.calls {
						if other != call && also[v] {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// resolve is the value, at the beginning of the iteration, of a variable of it.
func (w *iterPath) resolve(v ssa.Value) ssa.Value {
	for i := 0; i < 50; i++ {
		switch x := v.(type) {
		case *ssa.Phi:
			y, ok := w.env[x]
			if !ok {
				return v
			}
			v = y
			continue
		case *ssa.ChangeType:
			if types.Identical(x.Type(), x.X.Type()) {
				v = x.X
				continue
			}
		}
		return v
	}
	return v
}

func (w *iterPath) term(v ssa.Value, depth int) string {
	v = w.resolve(v)
	if depth > 12 {
		return fmt.Sprintf("%p", v)
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return "nil"
		}
		return v.Value.ExactString()
	case *ssa.BinOp:
		return "(" + w.term(v.X, depth+1) + v.Op.String() + w.term(v.Y, depth+1) + ")"
	case *ssa.UnOp:
		return v.Op.String() + "(" + w.term(v.X, depth+1) + ")"
	case *ssa.Convert:
		return v.Type().String() + "(" + w.term(v.X, depth+1) + ")"
	case *ssa.FieldAddr:
		return fmt.Sprint("&", w.term(v.X, depth+1), ".", v.Field)
	case *ssa.Field:
		return fmt.Sprint(w.term(v.X, depth+1), ".", v.Field)
	case *ssa.IndexAddr:
		return "&" + w.term(v.X, depth+1) + "[" + w.term(v.Index, depth+1) + "]"
	case *ssa.Index:
		return w.term(v.X, depth+1) + "[" + w.term(v.Index, depth+1) + "]"
	case *ssa.Lookup:
		return w.term(v.X, depth+1) + "{" + w.term(v.Index, depth+1) + "}" + fmt.Sprint(v.CommaOk)
	case *ssa.Extract:
		return fmt.Sprint(w.term(v.Tuple, depth+1), "#", v.Index)
	case *ssa.Call:
		var args []string
		for _, a := range v.Call.Args {
			args = append(args, w.term(a, depth+1))
		}
		if b, ok := v.Call.Value.(*ssa.Builtin); ok {
			return b.Name() + "(" + strings.Join(args, ",") + ")"
		}
		if f := v.Call.StaticCallee(); f != nil && w.c.pureFunc(f) {
			return f.String() + "(" + strings.Join(args, ",") + ")"
		}
	}
	return fmt.Sprintf("%s@%p", v.Name(), v)
}

// suppose adds a condition to the path: false if it contradicts the former ones.
func (w *iterPath) suppose(v ssa.Value, truth bool) bool {
	v = w.resolve(v)
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT {
		return w.suppose(u.X, !truth)
	}
	if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
		return constant.BoolVal(k.Value) == truth
	}
	if cmp, ok := v.(*ssa.BinOp); ok {
		x, y := w.term(cmp.X, 0), w.term(cmp.Y, 0)
		allowed := map[token.Token]uint8{token.LSS: 1, token.LEQ: 3, token.EQL: 2, token.NEQ: 5, token.GTR: 4, token.GEQ: 6}[cmp.Op]
		if allowed != 0 {
			if !truth {
				allowed = 7 &^ allowed
			}
			kx, cx := w.resolve(cmp.X).(*ssa.Const)
			ky, cy := w.resolve(cmp.Y).(*ssa.Const)
			if cx && cy && kx.Value != nil && ky.Value != nil && kx.Value.Kind() == ky.Value.Kind() {
				is := uint8(2)
				if kx.Value.Kind() != constant.Bool && constant.Compare(kx.Value, token.LSS, ky.Value) {
					is = 1
				} else if !constant.Compare(kx.Value, token.EQL, ky.Value) {
					is = 4
				}
				return allowed&is != 0
			}
			// the constants the value is compared with are ordered
			if cx && !cy {
				x, y, kx, ky, cx, cy = y, x, ky, kx, cy, cx
				allowed = allowed&2 | allowed&1<<2 | allowed&4>>2
			}
			if cy && ky.Value != nil && ky.Value.Kind() != constant.Bool && allowed != 0 {
				for k, is := range w.order {
					i := strings.Index(k, "\x00k")
					if i < 0 || k[:i] != x {
						continue
					}
					other := constant.MakeFromLiteral(k[i+2:], literalKind(ky.Value), 0)
					if other.Kind() == constant.Unknown || other.Kind() == constant.String != (ky.Value.Kind() == constant.String) {
						continue
					}
					// x is before, at or after other; and this constant?
					lt := constant.Compare(other, token.LSS, ky.Value)
					gt := constant.Compare(other, token.GTR, ky.Value)
					if lt && is&4 == 0 && allowed&1 == 0 { // x <= other < k
						return false
					}
					if gt && is&1 == 0 && allowed&4 == 0 { // x >= other > k
						return false
					}
				}
				y = "k" + ky.Value.ExactString()
			} else if x > y {
				x, y = y, x
				allowed = allowed&2 | allowed&1<<2 | allowed&4>>2
			}
			if x == y {
				return allowed&2 != 0
			}
			k := x + "\x00" + y
			old, had := w.order[k]
			if !had {
				old = 7
			}
			w.order[k] = old & allowed
			return old&allowed != 0
		}
	}
	t := w.term(v, 0)
	if b, ok := w.bools[t]; ok {
		return b == truth
	}
	w.bools[t] = truth
	return true
}

func literalKind(v constant.Value) token.Token {
	switch v.Kind() {
	case constant.String:
		return token.STRING
	case constant.Float:
		return token.FLOAT
	}
	return token.INT
}

func (w *iterPath) fork() *iterPath {
	o := &iterPath{c: w.c, l: w.l, env: map[*ssa.Phi]ssa.Value{}, order: map[string]uint8{}, bools: map[string]bool{}, on: map[*ssa.BasicBlock]bool{}, budget: w.budget}
	for k, v := range w.env {
		o.env[k] = v
	}
	for k, v := range w.order {
		o.order[k] = v
	}
	for k, v := range w.bools {
		o.bools[k] = v
	}
	for k, v := range w.on {
		o.on[k] = v
	}
	o.conds = append(o.conds, w.conds...)
	o.mem = append(o.mem, w.mem...)
	o.effects = append(o.effects, w.effects...)
	o.used = map[ssa.Value]bool{}
	for k := range w.used {
		o.used[k] = true
	}
	return o
}

// walk searches a way back to the header which changes nothing: the last instruction of it.
func (w *iterPath) walk(b *ssa.BasicBlock) ssa.Instruction {
	*w.budget--
	if *w.budget < 0 {
		return nil
	}
	w.on[b] = true
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.MapUpdate:
			w.mem = append(w.mem, in)
			continue
		case *ssa.Store:
			if !w.c.noEffect(in) {
				w.mem = append(w.mem, in)
			}
			continue
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				w.mem = append(w.mem, in)
				continue
			}
			if !w.c.noEffect(in) && w.c.local(x) {
				w.mem = append(w.mem, in)
				continue
			}
		}
		if !w.c.noEffect(in) {
			w.effects = append(w.effects, in)
		}
	}
	for i, s := range b.Succs {
		if !w.l.body[s] || w.on[s] && s != w.l.header {
			continue
		}
		o := w.fork()
		if cnd, truth := edgeCond(b, i); cnd != nil {
			if !o.suppose(cnd, truth) {
				continue
			}
			o.note(cnd)
		}
		edge := -1
		for j, pr := range s.Preds {
			if pr == b {
				edge = j
			}
		}
		if s == w.l.header {
			kept := map[*ssa.Phi]bool{}
			same := true
			// a flag of the loop keeps its value if the condition it is given may have it
			for _, in := range s.Instrs {
				if phi, ok := in.(*ssa.Phi); ok && o.used[phi] {
					if is, known := o.flag(phi); known && o.resolve(phi.Edges[edge]) != ssa.Value(phi) {
						if same = o.suppose(phi.Edges[edge], is); !same {
							break
						}
						o.note(phi.Edges[edge])
						kept[phi] = true
					}
				}
			}
			for _, in := range s.Instrs {
				if phi, ok := in.(*ssa.Phi); ok && !kept[phi] {
					same = same && (!o.used[phi] || o.same(phi, phi.Edges[edge]))
				}
			}
			for _, x := range o.mem {
				same = same && !o.matters(x)
			}
			if same && len(o.effects) > 0 {
				same = o.fixed()
			}
			if same && o.correlated() {
				w.c.r.count("undecided", 1)
			} else if same {
				return b.Instrs[len(b.Instrs)-1]
			}
			continue
		}
		now := map[*ssa.Phi]ssa.Value{}
		for _, in := range s.Instrs {
			if phi, ok := in.(*ssa.Phi); ok {
				now[phi] = o.resolve(phi.Edges[edge])
			}
		}
		for phi, v := range now {
			o.env[phi] = v
		}
		if in := o.walk(s); in != nil {
			return in
		}
	}
	return nil
}

// fixed: no effect can change what the conditions of the path are computed from.
func (w *iterPath) fixed() bool {
	kinds, known := map[string]bool{}, true
	for _, in := range append(append([]ssa.Instruction{}, w.effects...), w.mem...) {
		known = w.c.kindsOf(in, kinds) && known
	}
	for v := range w.used {
		switch v := v.(type) {
		case *ssa.UnOp:
			if v.Op == token.ARROW {
				return false
			}
			if v.Op == token.MUL && w.l.body[v.Block()] && !w.l.constantVar(v.X) {
				m := memory(v.X)
				if _, isStruct := v.Type().Underlying().(*types.Struct); isStruct || m == "" || !known || kinds[m] || kinds["to "+v.Type().Underlying().String()] || kinds["external"] && !strings.HasPrefix(m, modPath) {
					return false
				}
				if _, isField := v.X.(*ssa.FieldAddr); !isField {
					return false
				}
			}
		case *ssa.Lookup:
			if _, str := v.X.Type().Underlying().(*types.Basic); !str {
				return false
			}
		case *ssa.Next, *ssa.Select:
			return false
		case *ssa.Call:
			if b, ok := v.Call.Value.(*ssa.Builtin); ok {
				if b.Name() == "append" || b.Name() == "copy" {
					return false
				}
				for _, a := range v.Call.Args {
					if _, m := a.Type().Underlying().(*types.Map); m {
						return false
					}
				}
				continue
			}
			if f := v.Call.StaticCallee(); w.l.body[v.Block()] && (f == nil || !w.c.pureFunc(f) || inModule(f)) {
				return false
			}
			for _, a := range v.Call.Args {
				if _, str := a.Type().Underlying().(*types.Basic); !str && w.l.body[v.Block()] {
					return false
				}
			}
		}
	}
	for _, in := range w.effects {
		if v, ok := in.(ssa.Value); ok && w.used[v] {
			return false
		}
	}
	return true
}

// flag is the truth value the path supposes a variable of the loop to have.
func (w *iterPath) flag(phi *ssa.Phi) (is, known bool) {
	if b, ok := phi.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsBoolean == 0 {
		return false, false
	}
	is, known = w.bools[w.term(phi, 0)]
	return is, known
}

// same: the value given to the variable of the loop is the one it has, or the variable is not used.
func (w *iterPath) same(phi *ssa.Phi, v ssa.Value) bool {
	v = w.resolve(v)
	if v == ssa.Value(phi) {
		return true
	}
	if t := w.term(v, 0); w.order[t] == 0 {
		// known equal to it
		a, b := w.term(phi, 0), t
		if a > b {
			a, b = b, a
		}
		if w.order[a+"\x00"+b] == 2 {
			return true
		}
	}
	return false
}

func runC12(p *Program, r *Report) {
	c := &progress{p: p, r: r, pure: map[*ssa.Function]int{}, wr: map[*ssa.Function]written{}, kind: map[*ssa.Function]map[string]bool{}, unknown: map[*ssa.Function]bool{}}
	r.rule("iterations: no way through an iteration of a loop, consistent with its conditions, leaves unchanged the variables, and the memory, these conditions are computed from")
	r.rule("counters: a loop ended by a comparison with a bound moves its counter towards this bound; the comparison is not always true for its type")
	r.rule("bisections: a bisection leaves the middle element out of the next interval")
	r.rule("recursion: no function calls itself with the same arguments before changing anything")
	for _, fn := range p.Funcs {
		for _, l := range p.loops(fn) {
			r.count("loops", 1)
			budget := 20000
			w := &iterPath{c: c, l: l, env: map[*ssa.Phi]ssa.Value{}, order: map[string]uint8{}, bools: map[string]bool{}, on: map[*ssa.BasicBlock]bool{}, used: map[ssa.Value]bool{}, budget: &budget}
			if in := w.walk(l.header); in != nil {
				pos := in.Pos()
				for _, x := range in.Block().Instrs {
					if !pos.IsValid() {
						pos = x.Pos()
					}
				}
				r.find("iteration", fname(fn), p.pos(l.pos()), "an iteration of this loop of %s may change nothing, so that it never ends (ending near %s)", fname(fn), p.pos(pos))
			}
			if budget < 0 {
				r.count("undecided", 1)
			}
			c.counters(l)
			c.bisection(l)
		}
		c.recursion(fn)
	}
	r.need("loops", r.Counts["loops"], 200)
}

// counters of a loop.
func (c *progress) counters(l *loop) {
	type exit struct {
		cmp  *ssa.BinOp
		stay bool // the loop goes on when the comparison is true
	}
	var exits []exit
	others := false
	for b := range l.body {
		for i, s := range b.Succs {
			if l.body[s] {
				continue
			}
			v, truth := edgeCond(b, i)
			for {
				u, ok := v.(*ssa.UnOp)
				if !ok || u.Op != token.NOT {
					break
				}
				v, truth = u.X, !truth
			}
			cmp, ok := v.(*ssa.BinOp)
			if !ok {
				others = true
				continue
			}
			exits = append(exits, exit{cmp, !truth})
		}
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			others = true
		}
	}
	sort.Slice(exits, func(i, j int) bool { return exits[i].cmp.Pos() < exits[j].cmp.Pos() })
	if len(exits) > 0 && !others {
		fixed := true
		for _, e := range exits {
			fixed = fixed && l.unchanged(e.cmp, 0)
		}
		if fixed {
			c.r.find("counter", fname(l.fn)+" fixed", c.p.pos(exits[0].cmp.Pos()), "no iteration of this loop of %s changes what its end depends on: it ends at once or never", fname(l.fn))
			return
		}
	}
	if len(exits) == 0 && !others {
		ends := false
		for b := range l.body {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				ends = ends || ok && call.Common() != nil && !c.noEffect(in)
			}
		}
		if !ends {
			c.r.find("counter", fname(l.fn)+" endless", c.p.pos(l.pos()), "this loop of %s has no end", fname(l.fn))
		}
		return
	}
	away := len(exits) > 0 && !others
	for _, e := range exits {
		c.r.count("ending comparisons", 1)
		x, y, op := e.cmp.X, e.cmp.Y, e.cmp.Op
		if !e.stay {
			op = map[token.Token]token.Token{token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR, token.EQL: token.NEQ, token.NEQ: token.EQL}[op]
		}
		flip := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}
		// always true?
		never := func(x, y ssa.Value, op token.Token) bool {
			k, ok := y.(*ssa.Const)
			if !ok || k.Value == nil || k.Value.Kind() != constant.Int || constant.Sign(k.Value) != 0 {
				return false
			}
			natural := false
			if b, ok := x.Type().Underlying().(*types.Basic); ok {
				natural = b.Info()&types.IsUnsigned != 0
			}
			if call, ok := x.(*ssa.Call); ok {
				if b, ok := call.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
					natural = true
				}
			}
			return natural && op == token.GEQ
		}
		if !others && len(exits) == 1 && (never(x, y, op) || never(y, x, flip[op])) {
			c.r.find("counter", fname(l.fn), c.p.pos(e.cmp.Pos()), "this loop of %s goes on as long as a natural number is positive or null: it never ends", fname(l.fn))
		}
		one := func(x, y ssa.Value, op token.Token) bool {
			phi, ok := x.(*ssa.Phi)
			if !ok || phi.Block() != l.header || !l.invariant(y) {
				return false
			}
			up, down, known := l.direction(phi)
			if !known {
				return false
			}
			switch op {
			case token.LSS, token.LEQ:
				return down && !up
			case token.GTR, token.GEQ:
				return up && !down
			}
			return false
		}
		away = away && (one(x, y, op) || one(y, x, flip[op]))
	}
	if away {
		c.r.find("counter", fname(l.fn)+" away", c.p.pos(exits[0].cmp.Pos()), "the counter of this loop of %s moves away from its bound", fname(l.fn))
	}
}

// invariant: the value does not change during the loop.
func (l *loop) invariant(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Const, *ssa.Parameter, *ssa.FreeVar, *ssa.Global:
		return true
	case ssa.Instruction:
		return !l.body[v.Block()]
	}
	return false
}

// constantVar: the address is in a variable which is never assigned, nor given to a function, by the loop.
func (l *loop) constantVar(addr ssa.Value) bool {
	al, ok := addrRoot(addr).(*ssa.Alloc)
	if !ok || l.body[al.Block()] {
		return false
	}
	for a := addr; a != ssa.Value(al); {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			a = x.X
		case *ssa.IndexAddr:
			if !l.unchanged(x.Index, 5) {
				return false
			}
			a = x.X
		default:
			return false
		}
	}
	var reads func(v ssa.Value) bool
	reads = func(v ssa.Value) bool {
		for _, u := range *v.Referrers() {
			switch u := u.(type) {
			case *ssa.Store:
				if u.Val == v || l.body[u.Block()] {
					return false
				}
			case *ssa.FieldAddr:
				if !reads(u) {
					return false
				}
			case *ssa.IndexAddr:
				if !reads(u) {
					return false
				}
			case *ssa.UnOp, *ssa.DebugRef:
			default:
				return false
			}
		}
		return true
	}
	return reads(al)
}

// unchanged: the value is the same at each iteration.
func (l *loop) unchanged(v ssa.Value, depth int) bool {
	if depth > 20 {
		return false
	}
	if l.invariant(v) {
		return true
	}
	switch v := v.(type) {
	case *ssa.BinOp:
		return l.unchanged(v.X, depth+1) && l.unchanged(v.Y, depth+1)
	case *ssa.Convert:
		return l.unchanged(v.X, depth+1)
	case *ssa.ChangeType:
		return l.unchanged(v.X, depth+1)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return l.constantVar(v.X)
		}
		return v.Op != token.ARROW && l.unchanged(v.X, depth+1)
	case *ssa.Phi:
		if v.Block() != l.header {
			return false
		}
		for i, pr := range v.Block().Preds {
			if l.body[pr] && v.Edges[i] != ssa.Value(v) {
				return false
			}
		}
		return true
	case *ssa.Call:
		b, ok := v.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "len" && b.Name() != "cap" {
			return false
		}
		if _, m := v.Call.Args[0].Type().Underlying().(*types.Map); m {
			return false
		}
		return l.unchanged(v.Call.Args[0], depth+1)
	}
	return false
}

// direction tells how a variable changes at each iteration.
func (l *loop) direction(phi *ssa.Phi) (up, down, known bool) {
	known = true
	seen := map[ssa.Value]bool{}
	var follow func(v ssa.Value, by int)
	follow = func(v ssa.Value, by int) {
		if v == ssa.Value(phi) {
			up = up || by > 0
			down = down || by < 0
			return
		}
		if seen[v] {
			return
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Phi:
			if !l.body[v.Block()] {
				known = false
				return
			}
			for _, e := range v.Edges {
				follow(e, by)
			}
			return
		case *ssa.BinOp:
			if k, ok := v.Y.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int && (v.Op == token.ADD || v.Op == token.SUB) {
				d := constant.Sign(k.Value)
				if v.Op == token.SUB {
					d = -d
				}
				if by*d >= 0 {
					if by == 0 {
						by = d
					}
					follow(v.X, by)
					return
				}
			}
		}
		known = false
	}
	n := 0
	for i, pr := range phi.Block().Preds {
		if l.body[pr] {
			n++
			follow(phi.Edges[i], 0)
		}
	}
	return up, down, known && n > 0
}

// bisection of an interval.
func (c *progress) bisection(l *loop) {
	var phis []*ssa.Phi
	for _, in := range l.header.Instrs {
		if phi, ok := in.(*ssa.Phi); ok {
			phis = append(phis, phi)
		}
	}
	half := func(v ssa.Value) ssa.Value {
		b, ok := v.(*ssa.BinOp)
		if !ok {
			return nil
		}
		k, ok := b.Y.(*ssa.Const)
		if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
			return nil
		}
		n, _ := constant.Int64Val(k.Value)
		if b.Op == token.QUO && n == 2 || b.Op == token.SHR && n == 1 {
			return plain(b.X)
		}
		return nil
	}
	for _, lo := range phis {
		for _, hi := range phis {
			if lo == hi {
				continue
			}
			middle := func(v ssa.Value) bool {
				v = plain(v)
				if s, ok := half(v).(*ssa.BinOp); ok && s.Op == token.ADD {
					x, y := plain(s.X), plain(s.Y)
					return x == ssa.Value(lo) && y == ssa.Value(hi) || x == ssa.Value(hi) && y == ssa.Value(lo)
				}
				if s, ok := v.(*ssa.BinOp); ok && s.Op == token.ADD && plain(s.X) == ssa.Value(lo) {
					if d, ok := half(plain(s.Y)).(*ssa.BinOp); ok && d.Op == token.SUB {
						return plain(d.X) == ssa.Value(hi) && plain(d.Y) == ssa.Value(lo)
					}
				}
				return false
			}
			// the comparison which lets the loop go on
			iff, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			cmp, ok := iff.Cond.(*ssa.BinOp)
			if !ok {
				continue
			}
			op := cmp.Op
			x, y := plain(cmp.X), plain(cmp.Y)
			if x == ssa.Value(hi) && y == ssa.Value(lo) {
				op = map[token.Token]token.Token{token.GTR: token.LSS, token.GEQ: token.LEQ}[op]
			} else if x != ssa.Value(lo) || y != ssa.Value(hi) {
				continue
			}
			if op != token.LSS && op != token.LEQ || !l.body[l.header.Succs[0]] {
				continue
			}
			is := false
			for b := range l.body {
				for _, in := range b.Instrs {
					if v, ok := in.(ssa.Value); ok && middle(v) {
						is = true
					}
				}
			}
			if !is {
				continue
			}
			c.r.count("bisections", 1)
			for i, pr := range l.header.Preds {
				if !l.body[pr] {
					continue
				}
				a, b := plain(lo.Edges[i]), plain(hi.Edges[i])
				if middle(a) && b == ssa.Value(hi) {
					c.r.find("bisection", fname(l.fn), c.p.pos(l.pos()), "the bisection of %s keeps the middle as the lower bound: it does not end when two elements are left", fname(l.fn))
				}
				if op == token.LEQ && middle(b) && a == ssa.Value(lo) {
					c.r.find("bisection", fname(l.fn), c.p.pos(l.pos()), "the bisection of %s keeps the middle as the upper bound: it does not end when one element is left", fname(l.fn))
				}
			}
		}
	}
}

// plain removes the conversions between integer types.
func plain(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

// recursion: calls of fn by itself with the same arguments.
func (c *progress) recursion(fn *ssa.Function) {
	if len(fn.Blocks) == 0 {
		return
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] || !c.p.liveBlocks(fn)[b] {
			return
		}
		seen[b] = true
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if ok && call.Call.StaticCallee() == fn {
				same := len(call.Call.Args) == len(fn.Params)
				for i, a := range call.Call.Args {
					same = same && a == ssa.Value(fn.Params[i])
				}
				if same {
					c.r.find("recursion", fname(fn), c.p.pos(in.Pos()), "%s calls itself with the arguments it was given", fname(fn))
				}
				return
			}
			if !c.noEffect(in) {
				return
			}
		}
		for _, s := range b.Succs {
			walk(s)
		}
	}
	walk(fn.Blocks[0])
	c.p.eachInstr(fn, func(in ssa.Instruction) {
		if call, ok := in.(*ssa.Call); ok && call.Call.StaticCallee() == fn {
			c.r.count("recursive calls", 1)
		}
	})
}
