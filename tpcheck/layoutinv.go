package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C06", "Every path of every operation that changes a setting of a layout or a context is walked, helpers inlined, collecting the settings it stores and the derived state it discards.", runC06)
	register("C07", "A must-precede dataflow over the public layout queries, helpers included: derived state is read only after the call that brings it up to date.", runC07)
}

// pathState is what one path through a function did to the object it works on.
type pathState struct {
	stored map[string]string    // field -> expression stored
	reset  map[string]bool      // field -> discarded (zero, empty or the given constant) and not refilled since
	atoms  map[string]bool      // branch conditions taken
	loads  map[ssa.Value]string // fields read after having been stored
	defers []*ssa.Defer         // calls deferred so far
}

func (s *pathState) clone() *pathState {
	c := &pathState{stored: map[string]string{}, reset: map[string]bool{}, atoms: map[string]bool{}}
	c.defers = append(c.defers, s.defers...)
	if len(s.loads) > 0 {
		c.loads = map[ssa.Value]string{}
		for k, v := range s.loads {
			c.loads[k] = v
		}
	}
	for k, v := range s.stored {
		c.stored[k] = v
	}
	for k := range s.reset {
		c.reset[k] = true
	}
	for k := range s.atoms {
		c.atoms[k] = true
	}
	return c
}

func (s *pathState) key() string {
	var sb strings.Builder
	for _, k := range sortedKeys(s.stored) {
		sb.WriteString(k + "=" + s.stored[k] + ";")
	}
	sb.WriteString("|" + strings.Join(sortedKeys(s.reset), ",") + "|" + strings.Join(sortedKeys(s.atoms), ","))
	return sb.String()
}

func (s *pathState) loadsKey() string {
	var out []string
	for k, v := range s.loads {
		out = append(out, k.Name()+"="+v)
	}
	sort.Strings(out)
	for _, d := range s.defers {
		out = append(out, fmt.Sprint(d.Block().Index, d))
	}
	return strings.Join(out, ";")
}

type exitState struct {
	*pathState
	ret []string // expressions returned ("true", "false", an atom)
	pos token.Pos
}

// pathWalker enumerates the paths of functions working on one object of type obj.
type pathWalker struct {
	p     *Program
	obj   *types.Named
	memo  map[*ssa.Function][]exitState
	busy  map[*ssa.Function]bool
	steps int
	// stop: calls to these functions are not entered
	stop map[*ssa.Function]bool
	// refill: fields a stopped function fills again
	touches map[*ssa.Function]bool
	// over: what the fields read after being stored hold, on the path at hand
	over map[ssa.Value]string
}

func (p *Program) named(pkg, name string) *types.Named {
	o := p.pkg(pkg).Types.Scope().Lookup(name)
	if o == nil {
		panic("type " + pkg + "." + name + " not found")
	}
	return o.Type().(*types.Named)
}

func newWalker(p *Program, obj *types.Named) *pathWalker {
	return &pathWalker{p: p, obj: obj, memo: map[*ssa.Function][]exitState{}, busy: map[*ssa.Function]bool{}, stop: map[*ssa.Function]bool{}}
}

// objParam is the index of the parameter of type *obj, or -1.
func (w *pathWalker) objParam(fn *ssa.Function) int {
	for i, prm := range fn.Params {
		if pt, ok := prm.Type().(*types.Pointer); ok && types.Identical(pt.Elem(), w.obj) {
			return i
		}
	}
	return -1
}

// writesObj: fn, or a function it calls on the same object, stores a field of obj.
func (w *pathWalker) writesObj(fn *ssa.Function) bool {
	if w.touches == nil {
		w.touches = map[*ssa.Function]bool{}
		direct := map[*ssa.Function]bool{}
		for _, f := range w.p.Funcs {
			i := w.objParam(f)
			if i < 0 {
				continue
			}
			w.p.eachInstr(f, func(in ssa.Instruction) {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fa.X == f.Params[i] {
						direct[f] = true
					}
				}
			})
		}
		w.touches = direct
		for changed := true; changed; {
			changed = false
			for _, f := range w.p.Funcs {
				i := w.objParam(f)
				if i < 0 || w.touches[f] {
					continue
				}
				w.p.eachInstr(f, func(in ssa.Instruction) {
					if c, ok := in.(ssa.CallInstruction); ok {
						if cal := c.Common().StaticCallee(); cal != nil && w.touches[cal] {
							if j := w.objParam(cal); j >= 0 && j < len(c.Common().Args) && c.Common().Args[j] == f.Params[i] {
								w.touches[f] = true
								changed = true
							}
						}
					}
				})
			}
		}
	}
	return w.touches[fn]
}

func (w *pathWalker) field(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return t.Underlying().(*types.Struct).Field(i).Name()
}

type phiEnv map[*ssa.Phi]ssa.Value

// expr renders a value in terms of the object's fields, the arguments and constants.
func (w *pathWalker) expr(fn *ssa.Function, v ssa.Value, env phiEnv, depth int) string {
	if depth > 6 {
		return "?"
	}
	if s, ok := w.over[v]; ok {
		return s
	}
	oi := w.objParam(fn)
	e := func(x ssa.Value) string { return w.expr(fn, x, env, depth+1) }
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return "nil"
		}
		return v.Value.ExactString()
	case *ssa.Parameter:
		if oi >= 0 && v == fn.Params[oi] {
			return "self"
		}
		return "arg"
	case *ssa.Convert:
		return e(v.X)
	case *ssa.ChangeType:
		return e(v.X)
	case *ssa.MakeInterface:
		return e(v.X)
	case *ssa.UnOp:
		switch v.Op {
		case token.MUL:
			if fa, ok := v.X.(*ssa.FieldAddr); ok {
				if oi >= 0 && fa.X == fn.Params[oi] {
					return w.field(fa.X.Type(), fa.Field)
				}
				return e(fa.X) + "." + w.field(fa.X.Type(), fa.Field)
			}
			if a, ok := v.X.(*ssa.Alloc); ok {
				if prm := spilled(a); prm != nil {
					return e(prm)
				}
				// a single assignment
				var val ssa.Value
				n := 0
				for _, ref := range *a.Referrers() {
					if st, ok := ref.(*ssa.Store); ok && st.Addr == a {
						val = st.Val
						n++
					}
				}
				if n == 1 {
					return e(val)
				}
			}
			s := e(v.X)
			if s == "?" {
				return "?"
			}
			return "*" + s
		case token.NOT:
			return "!" + e(v.X)
		case token.SUB:
			return "-" + e(v.X)
		}
	case *ssa.Call:
		if b, ok := v.Common().Value.(*ssa.Builtin); ok {
			if b.Name() == "len" {
				return "len(" + e(v.Common().Args[0]) + ")"
			}
			return "?"
		}
		if cal := v.Common().StaticCallee(); cal != nil {
			var as []string
			for _, a := range v.Common().Args {
				as = append(as, e(a))
			}
			return cal.Name() + "(" + strings.Join(as, ",") + ")"
		}
		if v.Common().IsInvoke() {
			return v.Common().Method.Name() + "(" + e(v.Common().Value) + ")"
		}
	case *ssa.Phi:
		if r, ok := env[v]; ok {
			return e(r)
		}
		for _, x := range v.Edges {
			if e(x) == "arg" {
				return "arg"
			}
		}
	case *ssa.Extract:
		return e(v.Tuple) + "#" + fmt.Sprint(v.Index)
	case *ssa.BinOp:
		return "(" + e(v.X) + v.Op.String() + e(v.Y) + ")"
	}
	return "?"
}

// atom renders a condition taken with the given truth.
func (w *pathWalker) atom(fn *ssa.Function, v ssa.Value, truth bool, env phiEnv) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return w.atom(fn, x.X, !truth, env)
		}
	case *ssa.Phi:
		if r, ok := env[x]; ok {
			return w.atom(fn, r, truth, env)
		}
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Bool {
			return fmt.Sprint(constant.BoolVal(x.Value) == truth)
		}
	case *ssa.BinOp:
		a, b := w.expr(fn, x.X, env, 0), w.expr(fn, x.Y, env, 0)
		op := x.Op
		if !truth {
			switch op {
			case token.EQL:
				op = token.NEQ
			case token.NEQ:
				op = token.EQL
			case token.LSS:
				op = token.GEQ
			case token.GEQ:
				op = token.LSS
			case token.GTR:
				op = token.LEQ
			case token.LEQ:
				op = token.GTR
			}
		}
		switch op {
		case token.EQL, token.NEQ:
			if b == "true" || b == "false" {
				a, b = b, a
			}
			if a == "true" || a == "false" { // a boolean compared with a constant
				if (a == "true") == (op == token.EQL) {
					return b
				}
				return "!" + b
			}
			if a > b {
				a, b = b, a
			}
			if a == b && a == "arg" && w.soleArg(fn) {
				return fmt.Sprint(op == token.EQL)
			}
		case token.GTR:
			a, b, op = b, a, token.LSS
		case token.GEQ:
			a, b, op = b, a, token.LEQ
		}
		return a + op.String() + b
	}
	s := w.expr(fn, v, env, 0)
	if !truth {
		return "!" + s
	}
	return s
}

// apply: the effects of a call on the object.
func (w *pathWalker) apply(fn *ssa.Function, in ssa.CallInstruction, env phiEnv, states []*pathState) []*pathState {
	oi := w.objParam(fn)
	cal := in.Common().StaticCallee()
	if cal == nil || oi < 0 {
		return states
	}
	j := w.objParam(cal)
	if j < 0 || j >= len(in.Common().Args) || in.Common().Args[j] != fn.Params[oi] {
		return states
	}
	if w.stop[cal] {
		for _, s := range states {
			s.reset = map[string]bool{}
		}
		return states
	}
	if !w.writesObj(cal) {
		return states
	}
	var next []*pathState
	for _, x := range w.exits(cal) {
		for _, s := range states {
			n := s.clone()
			for f, v := range x.stored {
				n.stored[f] = strings.ReplaceAll(v, "arg", w.argExpr(fn, in, env))
				if !x.reset[f] {
					delete(n.reset, f)
				}
			}
			for f := range x.reset {
				n.reset[f] = true
			}
			for a := range x.atoms {
				n.atoms[a] = true
			}
			next = append(next, n)
		}
	}
	return dedup(next)
}

// escapes: fn, or what it calls on the object, gives away the address of a
// field, or the object to a closure: what is stored is not known.
func (w *pathWalker) escapes(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	oi := w.objParam(fn)
	if oi < 0 || seen[fn] || w.stop[fn] {
		return false
	}
	seen[fn] = true
	self := wrap(fn.Params[oi])
	out := false
	w.p.eachInstr(fn, func(in ssa.Instruction) {
		switch in := in.(type) {
		case *ssa.MakeClosure:
			for _, b := range in.Bindings {
				out = out || self[b]
			}
		case *ssa.FieldAddr:
			if !self[in.X] {
				return
			}
			for _, ref := range realRefs(in) {
				switch ref := ref.(type) {
				case *ssa.Store:
					out = out || ref.Val == ssa.Value(in)
				case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr:
				default:
					out = true
				}
			}
		case ssa.CallInstruction:
			if cal := in.Common().StaticCallee(); cal != nil && w.writesObj(cal) {
				out = out || w.escapes(cal, seen)
			}
		}
	})
	return out
}

// soleArg: "arg" stands for one value only.
func (w *pathWalker) soleArg(fn *ssa.Function) bool {
	n := len(fn.Params)
	if w.objParam(fn) >= 0 {
		n--
	}
	return n == 1
}

// exits enumerates the distinct effects of the paths through fn.
func (w *pathWalker) exits(fn *ssa.Function) []exitState {
	if r, ok := w.memo[fn]; ok {
		return r
	}
	if w.busy[fn] || fn.Blocks == nil {
		return []exitState{{pathState: (&pathState{}).clone()}}
	}
	w.busy[fn] = true
	defer delete(w.busy, fn)
	defer func(o map[ssa.Value]string) { w.over = o }(w.over)
	live := w.p.liveBlocks(fn)
	var out []exitState
	seenOut := map[string]bool{}
	type item struct {
		b    *ssa.BasicBlock
		pred *ssa.BasicBlock
		s    *pathState
		env  phiEnv
	}
	seen := map[string]bool{}
	work := []item{{b: fn.Blocks[0], s: (&pathState{}).clone(), env: phiEnv{}}}
	oi := w.objParam(fn)
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		w.steps++
		if w.steps > 200000 {
			panic("too many paths in " + fname(fn))
		}
		env := phiEnv{}
		for k, v := range it.env {
			env[k] = v
		}
		for _, in := range it.b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for i, pr := range it.b.Preds {
				if pr == it.pred {
					env[ph] = ph.Edges[i]
					if p2, ok := ph.Edges[i].(*ssa.Phi); ok {
						if r, ok := it.env[p2]; ok {
							env[ph] = r
						} else {
							delete(env, ph)
						}
					}
				}
			}
		}
		ek := ""
		var eks []string
		for k, v := range env {
			eks = append(eks, k.Name()+":"+v.Name())
		}
		sort.Strings(eks)
		ek = strings.Join(eks, ",")
		k := fmt.Sprint(it.b.Index, "/", it.s.key(), "/", ek, "/", it.s.loadsKey())
		if seen[k] {
			continue
		}
		seen[k] = true
		states := []*pathState{it.s.clone()}
		dead := false
		for _, in := range it.b.Instrs {
			switch in := in.(type) {
			case *ssa.UnOp:
				fa, ok := in.X.(*ssa.FieldAddr)
				if !ok || in.Op != token.MUL || oi < 0 || fa.X != fn.Params[oi] {
					break
				}
				f := w.field(fa.X.Type(), fa.Field)
				for _, s := range states {
					if v, ok := s.stored[f]; ok && (v == "arg" || fromConst(v)) {
						if s.loads == nil {
							s.loads = map[ssa.Value]string{}
						}
						s.loads[in] = v
					}
				}
			case *ssa.Store:
				fa, ok := in.Addr.(*ssa.FieldAddr)
				if !ok || oi < 0 || fa.X != fn.Params[oi] {
					break
				}
				f := w.field(fa.X.Type(), fa.Field)
				for _, s := range states {
					w.over = s.loads
					s.stored[f] = w.expr(fn, in.Val, env, 0)
					if emptyVal(in.Val) {
						s.reset[f] = true
					} else {
						delete(s.reset, f)
					}
					// what was known about the old value of the field says nothing about the new one
				}
			case *ssa.Call:
				states = w.apply(fn, in, env, states)
			case *ssa.Defer:
				for _, s := range states {
					s.defers = append(s.defers, in)
				}
			case *ssa.RunDefers:
				var next []*pathState
				for _, s := range states {
					at := []*pathState{s}
					for n := len(s.defers) - 1; n >= 0; n-- {
						at = w.apply(fn, s.defers[n], env, at)
					}
					next = append(next, at...)
				}
				states = dedup(next)
			case *ssa.Return:
				for _, s := range states {
					x := exitState{pathState: s, pos: in.Pos()}
					w.over = s.loads
					for _, r := range in.Results {
						x.ret = append(x.ret, w.expr(fn, r, env, 0))
					}
					ks := s.key() + "|" + strings.Join(x.ret, ",")
					if !seenOut[ks] {
						seenOut[ks] = true
						out = append(out, x)
					}
				}
				dead = true
			case *ssa.Panic:
				dead = true
			}
		}
		if dead {
			continue
		}
		for i, nb := range it.b.Succs {
			if !live[nb] {
				continue
			}
			c, tr := edgeCond(it.b, i)
			for _, s := range states {
				n := s.clone()
				if c != nil {
					skip := false
					w.over = s.loads
					alts := w.condAtoms(fn, c, tr, env)
					if len(alts) == 0 {
						skip = true
					}
					for _, alt := range alts {
						m := n.clone()
						for _, a := range alt {
							if a == "false" {
								skip = true
							}
							if a != "true" {
								m.atoms[a] = true
							}
						}
						if !skip {
							work = append(work, item{nb, it.b, m, env})
						}
					}
					continue
				}
				work = append(work, item{nb, it.b, n, env})
			}
		}
	}
	w.memo[fn] = out
	return out
}

func (w *pathWalker) argExpr(fn *ssa.Function, c ssa.CallInstruction, env phiEnv) string {
	for _, a := range c.Common().Args {
		if s := w.expr(fn, a, env, 0); s != "self" {
			return s
		}
	}
	return "arg"
}

// condAtoms lists the alternatives (each a conjunction) under which the condition has the given truth;
// a call to a predicate on the object is replaced by the conditions of its paths.
func (w *pathWalker) condAtoms(fn *ssa.Function, c ssa.Value, truth bool, env phiEnv) [][]string {
	for {
		if u, ok := c.(*ssa.UnOp); ok && u.Op == token.NOT {
			c, truth = u.X, !truth
			continue
		}
		if ph, ok := c.(*ssa.Phi); ok {
			if r, ok := env[ph]; ok {
				c = r
				continue
			}
		}
		break
	}
	if call, ok := c.(*ssa.Call); ok {
		if cal := call.Common().StaticCallee(); cal != nil && cal.Signature.Results().Len() == 1 && inModule(cal) && cal.Blocks != nil && len(cal.Blocks) < 20 {
			j := w.objParam(cal)
			oi := w.objParam(fn)
			if j >= 0 && oi >= 0 && call.Common().Args[j] == fn.Params[oi] {
				var out [][]string
				for _, x := range w.exits(cal) {
					if len(x.ret) != 1 {
						continue
					}
					alt := sortedKeys(x.atoms)
					switch r := x.ret[0]; r {
					case "true":
						if !truth {
							continue
						}
					case "false":
						if truth {
							continue
						}
					default:
						if truth {
							alt = append(alt, r)
						} else {
							alt = append(alt, negate(r))
						}
					}
					out = append(out, alt)
				}
				return out
			}
		}
	}
	return [][]string{{w.atom(fn, c, truth, env)}}
}

func negate(s string) string {
	if strings.HasPrefix(s, "!") {
		return s[1:]
	}
	t := strings.TrimSuffix(strings.TrimPrefix(s, "("), ")")
	for _, o := range [][2]string{{"==", "!="}, {"!=", "=="}, {"<=", ">"}, {">=", "<"}, {"<", ">="}, {">", "<="}} {
		if i := strings.Index(t, o[0]); i > 0 && strings.HasPrefix(s, "(") {
			a, b, op := t[:i], t[i+len(o[0]):], o[1]
			switch op {
			case ">":
				return b + "<" + a
			case ">=":
				return b + "<=" + a
			}
			return a + op + b
		}
	}
	return "!" + s
}

func dedup(ss []*pathState) []*pathState {
	seen := map[string]bool{}
	var out []*pathState
	for _, s := range ss {
		if k := s.key(); !seen[k] {
			seen[k] = true
			out = append(out, s)
		}
	}
	return out
}

// emptyVal: storing it discards what the field held.
func emptyVal(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return true
		}
		switch v.Value.Kind() {
		case constant.Bool:
			return !constant.BoolVal(v.Value)
		case constant.Int:
			n, _ := constant.Int64Val(v.Value)
			return n <= 0
		}
	case *ssa.Slice:
		if c, ok := v.High.(*ssa.Const); ok && c.Value != nil {
			n, _ := constant.Int64Val(c.Value)
			return n == 0
		}
	case *ssa.MakeSlice:
		if c, ok := v.Len.(*ssa.Const); ok && c.Value != nil {
			n, _ := constant.Int64Val(c.Value)
			return n == 0
		}
	case *ssa.Convert:
		return emptyVal(v.X)
	case *ssa.ChangeType:
		return emptyVal(v.X)
	}
	return false
}

var layoutDerived = []string{"lines", "logAttrs", "inkRectCached", "logicalRectCached", "isEllipsized", "isWrapped"}

// what a setter may leave standing, and under which branch conditions; one line of reason each.
var layoutSkips = map[string][][]string{
	// no ellipsization: the height is not used; or the lines are already fewer than asked for
	"SetHeight": {{"0==ellipsize"}, {"!isEllipsized", "arg<0", "len(lines)<=-arg"}},
	// every line fits as it is: ellipsizing or not gives the same lines
	"SetEllipsize": {{"!isEllipsized", "!isWrapped"}},
	// no width, no wrapping
	"SetWrap": {{"-1==Width"}},
	// only complete lines are justified, and there is only the last one
	"SetJustify":         {{"!isEllipsized", "!isWrapped", "!JustifyLastLine"}},
	"SetJustifyLastLine": {{"!Justify"}},
}

func missing(have map[string]bool, want []string) []string {
	var out []string
	for _, f := range want {
		if !have[f] {
			out = append(out, f)
		}
	}
	return out
}

// ensurers are the layout methods that bring the derived state up to date: they check the context's
// serial number themselves.
func layoutEnsurers(p *Program) map[*ssa.Function]bool {
	lay := p.named("pango", "Layout")
	w := newWalker(p, lay)
	storesSerial := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		i := w.objParam(fn)
		if i < 0 {
			continue
		}
		p.eachInstr(fn, func(in ssa.Instruction) {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fa.X == fn.Params[i] && w.field(fa.X.Type(), fa.Field) == "contextSerial" {
					storesSerial[fn] = true
				}
			}
		})
	}
	out := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		i := w.objParam(fn)
		if i < 0 {
			continue
		}
		p.eachInstr(fn, func(in ssa.Instruction) {
			if c, ok := in.(ssa.CallInstruction); ok {
				if cal := c.Common().StaticCallee(); cal != nil && storesSerial[cal] {
					out[fn] = true
				}
			}
		})
	}
	if len(out) == 0 { // the check may be part of the function itself
		for fn := range storesSerial {
			out[fn] = true
		}
	}
	return out
}

func runC06(p *Program, r *Report) {
	r.rule("on every path of a public layout operation that stores a setting, the cached lines, character attributes, extents and wrapping flags are discarded, unless the path took one of the frozen conditions under which the setting cannot matter")
	r.rule("on every path of a layout setter that stores nothing, the new value was compared equal to the current one (or the call failed)")
	r.rule("a change of font description, attributes or context also discards the cached tab width")
	r.rule("on every path of a public context operation that stores a setting with a possibly different value the context's serial number changes; the layout discards its lines when the serial number differs")
	r.rule("a buffer grown back within its capacity is cleared or entirely overwritten")
	lay := p.named("pango", "Layout")
	w := newWalker(p, lay)
	for f := range layoutEnsurers(p) {
		w.stop[f] = true
	}
	derived := set(layoutDerived...)
	other := set("serial contextSerial inkRect logicalRect tabWidth decimal context")
	for _, fn := range publicAPI(p, "pango") {
		if recvName(fn) != "Layout" || !w.writesObj(fn) || w.stop[fn] {
			continue
		}
		setter := strings.HasPrefix(fn.Name(), "Set")
		if !setter && p.reachesAny(fn, w.stop) {
			continue // a query
		}
		r.count("layout setters", 1)
		if w.escapes(fn, map[*ssa.Function]bool{}) {
			r.count("setters storing through a pointer", 1)
			continue
		}
		w.steps = 0
		exits := w.exits(fn)
		storedAny := map[string]bool{}
		for _, x := range exits {
			for f := range x.stored {
				storedAny[f] = true
			}
		}
		fromArg := false
		for _, x := range exits {
			r.count("layout setter paths", 1)
			var settings []string
			for f, v := range x.stored {
				if derived[f] || other[f] {
					continue
				}
				if sameStored(x, f, v) {
					fromArg = fromArg || strings.Contains(v, "arg")
					continue
				}
				settings = append(settings, f)
				if strings.Contains(v, "arg") || v == "?" {
					fromArg = true
				}
			}
			sort.Strings(settings)
			r.sample("%s: stores %v discards %v when %v", fn.Name(), settings, sortedKeys(x.reset), sortedKeys(x.atoms))
			if len(settings) == 0 {
				if setter && !stores(x, derived, other) && !unchangedPath(lay, x, storedAny, exits, len(p.loops(fn)) > 0) {
					r.find("value-ignored", "Layout."+fn.Name(), p.pos(fn.Pos()), "%s leaves the setting as it was on a path where the new value is not known to equal the current one (taken when %v)", fname(fn), sortedKeys(x.atoms))
				}
				continue
			}
			miss := missing(x.reset, layoutDerived)
			if len(miss) > 0 {
				ok := false
				for _, alt := range layoutSkips[fn.Name()] {
					if len(missing(x.atoms, alt)) == 0 {
						ok = true
					}
				}
				if !ok {
					r.find("stale-lines", "Layout."+fn.Name()+"/"+strings.Join(settings, ","), p.pos(fn.Pos()), "%s stores %v and leaves %v as computed for the previous value (taken when %v)", fname(fn), settings, miss, sortedKeys(x.atoms))
				}
			}
			for _, f := range settings {
				if (f == "fontDesc" || f == "Attributes") && x.stored["tabWidth"] != "-1" {
					r.find("stale-tabs", "Layout."+fn.Name()+"/"+f, p.pos(fn.Pos()), "%s stores %s and keeps the tab width measured with the previous one", fname(fn), f)
				}
			}
		}
		if setter && !fromArg {
			r.find("value-ignored", "Layout."+fn.Name()+"/arg", p.pos(fn.Pos()), "%s never stores anything computed from its argument", fname(fn))
		}
	}
	// a changed context
	for _, fn := range p.Funcs {
		if w.objParam(fn) < 0 || w.stop[fn] || fn.Signature.Recv() == nil {
			continue
		}
		st := false
		p.eachInstr(fn, func(in ssa.Instruction) {
			if s, ok := in.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fa.X == fn.Params[w.objParam(fn)] && w.field(fa.X.Type(), fa.Field) == "contextSerial" {
					st = true
				}
			}
		})
		if !st {
			continue
		}
		r.count("context checks", 1)
		for _, x := range w.exits(fn) {
			if eqSerial(x.atoms) || x.atoms["nil==self"] {
				continue
			}
			miss := missing(x.reset, layoutDerived)
			if len(miss) > 0 || x.stored["tabWidth"] != "-1" {
				r.find("stale-context", "Layout/context", p.pos(fn.Pos()), "%s leaves %v (tab width %q) although the context may have changed (taken when %v)", fname(fn), miss, x.stored["tabWidth"], sortedKeys(x.atoms))
			}
		}
	}
	r.need("context checks", r.Counts["context checks"], 1)
	r.need("layout setters", r.Counts["layout setters"], 15)

	// contexts
	cw := newWalker(p, p.named("pango", "Context"))
	for _, fn := range publicAPI(p, "pango") {
		if recvName(fn) != "Context" || !strings.HasPrefix(fn.Name(), "Set") {
			continue
		}
		r.count("context setters", 1)
		if cw.escapes(fn, map[*ssa.Function]bool{}) {
			r.count("setters storing through a pointer", 1)
			continue
		}
		storedAny := map[string]bool{}
		for _, x := range cw.exits(fn) {
			for f := range x.stored {
				storedAny[f] = true
			}
		}
		cexits := cw.exits(fn)
		for _, x := range cexits {
			if x.stored["serial"] != "" && x.stored["serial"] != "serial" {
				continue
			}
			var changed []string
			for f, v := range x.stored {
				// setLanguage only answers GetLanguage; resolvedGravity follows base_gravity; fontmapSerial is a cache
				if f == "setLanguage" || f == "resolvedGravity" || f == "fontmapSerial" || f == "serial" {
					continue
				}
				if sameStored(x, f, v) {
					continue
				}
				changed = append(changed, f)
			}
			sort.Strings(changed)
			if len(changed) > 0 {
				r.find("context-serial", "Context."+fn.Name()+"/"+strings.Join(changed, ","), p.pos(fn.Pos()), "%s stores %v without changing the serial number (taken when %v): layouts keep the lines computed before", fname(fn), changed, sortedKeys(x.atoms))
			}
			if len(x.stored) == 0 && !unchangedPath(p.named("pango", "Context"), x, storedAny, cexits, len(p.loops(fn)) > 0) {
				r.find("value-ignored", "Context."+fn.Name(), p.pos(fn.Pos()), "%s stores nothing although the value is not known to be the current one (taken when %v)", fname(fn), sortedKeys(x.atoms))
			}
		}
	}
	r.need("context setters", r.Counts["context setters"], 3)
	settingEqualities(p, r)
	for _, name := range []string{"setFontMap", "checkFontmapChanged"} {
		fn := p.lookupFunc("pango", "Context."+name)
		if fn == nil {
			continue
		}
		for _, x := range cw.exits(fn) {
			if x.stored["fontmapSerial"] == "" || x.stored["serial"] != "" || eqSerial(x.atoms) {
				continue
			}
			r.find("context-serial", "Context."+name, p.pos(fn.Pos()), "%s notes a new font map serial without changing the context's (taken when %v)", fname(fn), sortedKeys(x.atoms))
		}
	}
	fontMapSettings(p, r)
	reusedBuffers(p, r)
}

func eqAtom(a, b string) string {
	if a > b {
		a, b = b, a
	}
	return a + "==" + b
}

func eqSerial(atoms map[string]bool) bool {
	for a := range atoms {
		l := strings.ToLower(a)
		if strings.Contains(a, "==") && strings.Count(l, "serial") >= 2 {
			return true
		}
	}
	return false
}

// fromConst: the expression of a constant.
func fromConst(v string) bool {
	_, err := strconv.ParseFloat(v, 64)
	return err == nil || v == "true" || v == "false"
}

// sameStored: the value v stored in f is known to be the one it had.
func sameStored(x exitState, f, v string) bool {
	if x.atoms[eqAtom(v, f)] || x.atoms[eqAtom("arg", f)] {
		return true
	}
	for a := range x.atoms {
		if a == f && v == "true" || a == "!"+f && v == "false" {
			return true
		}
		if !strings.HasPrefix(a, "!") && strings.HasSuffix(a, ")") && strings.Contains(strings.ToLower(a), "equal(") && mentions(a, f) && mentions(a, v) {
			return true
		}
	}
	return false
}

// stores: a setting is stored on the path.
func stores(x exitState, derived, other map[string]bool) bool {
	for f := range x.stored {
		if !derived[f] && !other[f] {
			return true
		}
	}
	return false
}

// sameArgument: what the path o knows of the argument, other than by comparing it with f, holds on x.
func sameArgument(o, x exitState, f string) bool {
	for a := range o.atoms {
		if mentions(a, "arg") && !mentions(a, f) && !x.atoms[a] {
			return false
		}
	}
	return true
}

// unchangedPath: the path was taken because the value is the current one, the object is nil, or an error occurred.
func unchangedPath(obj types.Type, x exitState, storedAny map[string]bool, all []exitState, loops bool) bool {
	parts := map[string]map[string]bool{} // the fields compared one by one
	for f := range storedAny {            // compared equal to what another path would have stored
		for _, o := range all {
			if v, ok := o.stored[f]; ok && x.atoms[eqAtom(v, f)] && sameArgument(o, x, f) {
				return true
			}
		}
	}
	for a := range x.atoms {
		if a == "nil==self" || strings.Contains(a, "!=nil") && strings.Contains(a, "#") || strings.HasPrefix(a, "nil!=") && strings.Contains(a, "#") {
			return true
		}
		for f := range storedAny {
			if !loops && a == eqAtom("len(arg)", "len("+f+")") {
				if x.atoms["0==len(arg)"] || x.atoms["0==len("+f+")"] {
					return true // both are empty
				}
				continue // the same number of elements
			}
			if a == "0==len("+f+")" && x.atoms["0==len(arg)"] {
				return true
			}
			if strings.Contains(a, "==") && mentions(a, f) && strings.Contains(a, "arg") {
				l, r, _ := strings.Cut(a, "==")
				if strings.HasPrefix(r, f+".") {
					l, r = r, l
				}
				if x := strings.TrimPrefix(l, f+"."); x != l && r == "arg."+x {
					if parts[f] == nil {
						parts[f] = map[string]bool{}
					}
					parts[f][x] = true
					continue
				}
				return true
			}
			if !strings.HasPrefix(a, "!") && strings.Contains(strings.ToLower(a), "equal(") && mentions(a, f) && strings.Contains(a, "arg") {
				return true
			}
		}
	}
	for f, have := range parts {
		all := true
		for _, x := range exportedParts(obj, f) {
			all = all && have[x]
		}
		if all {
			return true
		}
	}
	return false
}

// exportedParts lists the exported fields of the structure held, or pointed to, by the field f of obj.
func exportedParts(obj types.Type, f string) []string {
	var out []string
	st, ok := obj.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() != f {
			continue
		}
		t := st.Field(i).Type()
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
		if in, ok := t.Underlying().(*types.Struct); ok {
			for j := 0; j < in.NumFields(); j++ {
				if in.Field(j).Exported() {
					out = append(out, in.Field(j).Name())
				}
			}
		}
	}
	return out
}

func mentions(a, f string) bool {
	for i := 0; ; {
		j := strings.Index(a[i:], f)
		if j < 0 {
			return false
		}
		j += i
		word := func(c byte) bool {
			return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
		}
		if (j == 0 || !word(a[j-1])) && (j+len(f) == len(a) || !word(a[j+len(f)])) {
			return true
		}
		i = j + 1
	}
}

// reachesAny: fn can call one of the targets.
func (p *Program) reachesAny(fn *ssa.Function, targets map[*ssa.Function]bool) bool {
	for f := range p.reachable([]*ssa.Function{fn}, true) {
		if targets[f] {
			return true
		}
	}
	return false
}

// reusedBuffers: s[:n] with n beyond len(s) brings old elements back.
func reusedBuffers(p *Program, r *Report) {
	for _, fn := range p.Funcs {
		p.eachInstr(fn, func(in ssa.Instruction) {
			sl, ok := in.(*ssa.Slice)
			if !ok || sl.High == nil || sl.X.Type().Underlying() == nil {
				return
			}
			if _, ok := sl.X.Type().Underlying().(*types.Slice); !ok {
				return
			}
			// guarded by a comparison of cap(s)
			guarded := false
			for _, c := range blockConds(sl.Block()) {
				if mentionsCap(c.v) {
					guarded = true
				}
			}
			if !guarded {
				return
			}
			r.count("reused buffers", 1)
			// element types that are always overwritten by their only user
			if clearedAfter(sl) {
				return
			}
			field := "local"
			for _, ref := range *sl.Referrers() {
				if st, ok := ref.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						field = fieldOf(fa)
					}
				}
			}
			// the shaper fills every glyph and cluster it sizes; widths are computed for every rune of the item
			if strings.HasSuffix(field, "Glyphs") || strings.HasSuffix(field, "LogClusters") || strings.HasSuffix(field, "logWidths") {
				return
			}
			r.find("reused-buffer", fname(fn)+"/"+field, p.pos(sl.Pos()), "%s extends %s within its capacity and the previous elements are not cleared", fname(fn), field)
		})
	}
}

func mentionsCap(v ssa.Value) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok {
		return false
	}
	for _, x := range []ssa.Value{b.X, b.Y} {
		for {
			if c, ok := x.(*ssa.Convert); ok {
				x = c.X
				continue
			}
			break
		}
		if c, ok := x.(*ssa.Call); ok {
			if bi, ok := c.Common().Value.(*ssa.Builtin); ok && bi.Name() == "cap" {
				return true
			}
		}
	}
	return false
}

// clearedAfter: zeros (or a copy) are written over the extended slice in the same function.
func clearedAfter(sl *ssa.Slice) bool {
	fn := sl.Parent()
	var path string
	for _, ref := range *sl.Referrers() {
		if st, ok := ref.(*ssa.Store); ok {
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
				path = fieldOf(fa)
			}
		}
	}
	same := func(v ssa.Value) bool {
		if v == sl {
			return true
		}
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if fa, ok := u.X.(*ssa.FieldAddr); ok && path != "" && fieldOf(fa) == path {
				return true
			}
		}
		if s2, ok := v.(*ssa.Slice); ok && s2 == sl {
			return true
		}
		return false
	}
	after := func(b *ssa.BasicBlock) bool { return b == sl.Block() || reachesBlock(sl.Block(), b) }
	for _, b := range fn.Blocks {
		if !after(b) {
			continue
		}
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if ia, ok := in.Addr.(*ssa.IndexAddr); ok && same(ia.X) {
					if c, ok := in.Val.(*ssa.Const); ok && (c.Value == nil || emptyVal(c)) {
						return true
					}
				}
			case *ssa.Call:
				if bi, ok := in.Common().Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "copy", "clear":
						if same(in.Common().Args[0]) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func reachesBlock(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, a.Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if x == b {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		work = append(work, x.Succs...)
	}
	return false
}

func runC07(p *Program, r *Report) {
	r.rule("in every public layout operation that reads the lines, character attributes, cached extents or wrapping flags, the call that re-checks the context and recomputes the lines precedes the read on every path; setters excepted")
	r.rule("the recomputation checks the context before it decides that the lines are still valid")
	lay := p.named("pango", "Layout")
	w := newWalker(p, lay)
	ens := layoutEnsurers(p)
	r.need("recomputing functions", len(ens), 1)
	derived := set(layoutDerived...)
	derived["inkRect"], derived["logicalRect"] = true, true
	type sum struct {
		early   map[string]token.Pos // fields read before the lines are up to date
		ensures bool
	}
	memo := map[*ssa.Function]*sum{}
	var summary func(fn *ssa.Function) *sum
	summary = func(fn *ssa.Function) *sum {
		if s := memo[fn]; s != nil {
			return s
		}
		s := &sum{early: map[string]token.Pos{}}
		memo[fn] = s
		oi := w.objParam(fn)
		if oi < 0 || fn.Blocks == nil {
			return s
		}
		isObj := func(v ssa.Value) bool { return v == ssa.Value(fn.Params[oi]) }
		live := p.liveBlocks(fn)
		in := map[*ssa.BasicBlock]bool{} // up to date on entry on all paths; absent: not reached
		in[fn.Blocks[0]] = false
		transfer := func(b *ssa.BasicBlock, ok bool, report bool) bool {
			for _, i := range b.Instrs {
				switch i := i.(type) {
				case *ssa.UnOp:
					if i.Op == token.MUL {
						if fa, is := i.X.(*ssa.FieldAddr); is && isObj(fa.X) {
							f := w.field(fa.X.Type(), fa.Field)
							if derived[f] && !ok && report {
								if _, seen := s.early[f]; !seen {
									s.early[f] = i.Pos()
								}
							}
						}
					}
				case *ssa.Call:
					cal := i.Common().StaticCallee()
					if cal == nil {
						continue
					}
					if j := w.objParam(cal); j >= 0 && j < len(i.Common().Args) && isObj(i.Common().Args[j]) {
						if ens[cal] {
							ok = true
							continue
						}
						cs := summary(cal)
						if report && !ok {
							for f, ps := range cs.early {
								if _, seen := s.early[f]; !seen {
									s.early[f] = ps
								}
							}
						}
						ok = ok || cs.ensures
					}
				}
			}
			return ok
		}
		for changed := true; changed; {
			changed = false
			for _, b := range fn.Blocks {
				v, reached := in[b]
				if !reached || !live[b] {
					continue
				}
				o := transfer(b, v, false)
				for _, nb := range b.Succs {
					if !live[nb] {
						continue
					}
					old, r2 := in[nb]
					nv := o
					if r2 {
						nv = old && o
					}
					if !r2 || nv != old {
						in[nb] = nv
						changed = true
					}
				}
			}
		}
		s.ensures = true
		for _, b := range fn.Blocks {
			v, reached := in[b]
			if !reached || !live[b] {
				continue
			}
			o := transfer(b, v, true)
			if n := len(b.Instrs); n > 0 {
				if _, isRet := b.Instrs[n-1].(*ssa.Return); isRet && !o {
					s.ensures = false
				}
			}
		}
		return s
	}
	for _, fn := range publicAPI(p, "pango") {
		i := w.objParam(fn)
		if i < 0 || strings.HasPrefix(fn.Name(), "Set") || recvName(fn) != "Layout" {
			continue
		}
		r.count("queries", 1)
		if ens[fn] {
			continue
		}
		s := summary(fn)
		for _, f := range sortedKeys(s.early) {
			r.find("stale-read", "Layout."+fn.Name()+"/"+f, p.pos(s.early[f]), "%s reads %s of the layout before the lines are known to be up to date", fname(fn), f)
		}
		if s.ensures {
			r.count("queries recomputing on every path", 1)
		}
	}
	r.need("queries", r.Counts["queries"], 12)
	r.need("queries recomputing on every path", r.Counts["queries recomputing on every path"], 6)
	// inside the recomputation
	for fn := range ens {
		r.count("recomputing functions", 1)
		var check ssa.Instruction
		p.eachInstr(fn, func(in ssa.Instruction) {
			if c, ok := in.(*ssa.Call); ok && check == nil {
				if cal := c.Common().StaticCallee(); cal != nil && w.objParam(cal) >= 0 {
					p.eachInstr(cal, func(i2 ssa.Instruction) {
						if st, ok := i2.(*ssa.Store); ok {
							if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fa.X == cal.Params[w.objParam(cal)] && w.field(fa.X.Type(), fa.Field) == "contextSerial" {
								check = in
							}
						}
					})
				}
			}
		})
		if check == nil {
			continue
		}
		p.eachInstr(fn, func(in ssa.Instruction) {
			if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
				if fa, ok := u.X.(*ssa.FieldAddr); ok && fa.X == fn.Params[w.objParam(fn)] && derived[w.field(fa.X.Type(), fa.Field)] {
					if !dominates(check, in) {
						r.find("stale-read", "recompute/"+w.field(fa.X.Type(), fa.Field), p.pos(in.Pos()), "%s looks at %s before checking whether the context changed", fname(fn), w.field(fa.X.Type(), fa.Field))
					}
				}
			}
		})
	}
}

// dominates: a is executed before b whenever b is.
func dominates(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				return false
			}
		}
	}
	return a.Block().Dominates(b.Block())
}

// settingEqualities: the functions deciding that a setting is the current one look at everything it is made of.
func settingEqualities(p *Program, r *Report) {
	deref := func(t types.Type) types.Type {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			return pt.Elem()
		}
		return t
	}
	// equality: the type of the two values compared
	equality := func(fn *ssa.Function) types.Type {
		res := fn.Signature.Results()
		if res.Len() != 1 || !isBasicT(types.IsBoolean)(res.At(0).Type()) || len(fn.Params) != 2 || !inModule(fn) || fn.Blocks == nil {
			return nil
		}
		a, b := deref(fn.Params[0].Type()), deref(fn.Params[1].Type())
		if types.Identical(a, b) || types.IsInterface(b) && types.Implements(a, b.Underlying().(*types.Interface)) && strings.Contains(strings.ToLower(fn.Name()), "equal") {
			return a
		}
		return nil
	}
	seen, judged := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	var work []*ssa.Function
	for _, fn := range publicAPI(p, "pango") {
		if (recvName(fn) == "Context" || recvName(fn) == "Layout") && strings.HasPrefix(fn.Name(), "Set") {
			work = append(work, fn)
			seen[fn] = true
		}
	}
	for len(work) > 0 {
		fn := work[0]
		work = work[1:]
		setter := recvName(fn) == "Layout" || recvName(fn) == "Context"
		calls := func(in ssa.Instruction) {
			if c, ok := in.(ssa.CallInstruction); ok {
				for _, cal := range p.callees(c) {
					if !seen[cal] && equality(cal) != nil {
						seen[cal] = true
						work = append(work, cal)
						judged[cal] = setter || c.Common().IsInvoke() // the others are a part of an equality
					}
				}
			}
		}
		t := equality(fn)
		p.eachInstr(fn, calls)
		if t == nil || !judged[fn] {
			continue
		}
		if sl, ok := t.Underlying().(*types.Slice); ok {
			t = deref(sl.Elem())
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		r.count("equalities of settings", 1)
		reads := make([]int, st.NumFields())
		whole := false
		boxed := func(v ssa.Value) bool {
			m, ok := v.(*ssa.MakeInterface)
			return ok && types.Identical(deref(m.X.Type()).Underlying(), st)
		}
		visited := map[*ssa.Function]bool{}
		var visit func(f *ssa.Function)
		visit = func(f *ssa.Function) {
			if visited[f] || f.Blocks == nil {
				return
			}
			visited[f] = true
			p.eachInstr(f, func(in ssa.Instruction) {
				switch in := in.(type) {
				case *ssa.FieldAddr:
					if types.Identical(deref(in.X.Type()).Underlying(), st) && len(*in.Referrers()) > 0 {
						reads[in.Field]++
					}
				case *ssa.Field:
					if types.Identical(in.X.Type().Underlying(), st) && len(*in.Referrers()) > 0 {
						reads[in.Field]++
					}
				case *ssa.BinOp:
					if (in.Op == token.EQL || in.Op == token.NEQ) && (types.Identical(in.X.Type().Underlying(), st) || boxed(in.X) || boxed(in.Y)) {
						whole = true
					}
				case ssa.CallInstruction:
					for _, cal := range p.callees(in) {
						for i, a := range in.Common().Args {
							if !inModule(cal) && boxed(a) {
								whole = true
							}
							if i < len(cal.Params) && types.Identical(deref(cal.Params[i].Type()).Underlying(), st) && inModule(cal) {
								visit(cal)
							}
						}
					}
				}
			})
		}
		visit(fn)
		if whole {
			continue
		}
		for i, n := range reads {
			if st.Field(i).Exported() && n < 2 {
				r.find("equality", fname(fn)+" "+st.Field(i).Name(), p.pos(fn.Pos()), "%s does not compare the field %s of %s: a setter would leave a setting which differs by it only", fname(fn), st.Field(i).Name(), typeName(t))
			}
		}
	}
}
