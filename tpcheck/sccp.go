package main

import (
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Sparse conditional constant propagation of a function for given constant arguments. A value is
// not yet known (nil), one constant, or not a constant.

type aval struct {
	l     *lit       // the constant
	dyn   types.Type // not a constant, but of this concrete type (so not nil when seen as an interface)
	sym   string     // not a constant: the expression it is, over the symbols of the arguments
	pt    *aval      // the address of this value
	bot   bool       // not a constant
	addr  bool       // l is the content of the address this value is
	tuple []*aval
	flds  []*aval // a structure whose fields are partly known
}

var (
	bottom  = &aval{bot: true}
	waiting = &aval{} // the value depends on some which are not yet known
)

func (a *aval) constant() *lit {
	if a == nil || a.bot || a.addr || a.l == nil || a.l.Unknown {
		return nil
	}
	return a.l
}

func sameLit(a, b *lit) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	if a.C != nil && b.C != nil {
		if a.C.Kind() != b.C.Kind() {
			x, y := constant.ToFloat(a.C), constant.ToFloat(b.C)
			return x.Kind() == constant.Float && y.Kind() == constant.Float && constant.Compare(x, token.EQL, y)
		}
		return constant.Compare(a.C, token.EQL, b.C)
	}
	if a.Nil && b.Nil {
		return true
	}
	if a.Ref != nil && a.Ref == b.Ref {
		return true
	}
	if a.Addr != nil && b.Addr != nil {
		return sameLit(a.Addr, b.Addr)
	}
	if a.Fields != nil && b.Fields != nil && len(a.Fields) == len(b.Fields) {
		for i := range a.Fields {
			if !sameLit(a.Fields[i], b.Fields[i]) {
				return false
			}
		}
		return true
	}
	return false
}

func join(a, b *aval) *aval {
	switch {
	case a == nil:
		return b
	case b == nil:
		return a
	case a.bot || b.bot:
		return bottom
	case a.pt != nil || b.pt != nil:
		if a.pt != nil && b.pt != nil {
			if j := join(a.pt, b.pt); !j.bot {
				return &aval{pt: j}
			}
		}
		return bottom
	case a.tuple != nil && b.tuple != nil && len(a.tuple) == len(b.tuple):
		out := &aval{}
		for i := range a.tuple {
			out.tuple = append(out.tuple, join(a.tuple[i], b.tuple[i]))
		}
		return out
	case a.tuple == nil && b.tuple == nil && a.l != nil && b.l != nil && a.addr == b.addr && sameLit(a.l, b.l):
		if a.addr || types.Identical(a.l.T, b.l.T) {
			return a
		}
	}
	if a.flds != nil && b.flds != nil && len(a.flds) == len(b.flds) && a.dyn != nil && b.dyn != nil && types.Identical(a.dyn, b.dyn) {
		out := &aval{dyn: a.dyn}
		for i := range a.flds {
			out.flds = append(out.flds, join(a.flds[i], b.flds[i]))
		}
		return out
	}
	out := &aval{}
	if ta, tb := a.concrete(), b.concrete(); ta != nil && tb != nil && types.Identical(ta, tb) {
		out.dyn = ta
	}
	if a.sym != "" && a.sym == b.sym {
		out.sym = a.sym
	} else if out.dyn != nil && isBasicT(types.IsFloat)(out.dyn) {
		out.sym = either(a.symbol(), b.symbol())
	}
	if out.dyn == nil && out.sym == "" {
		return bottom
	}
	return out
}

// either is one of two expressions; "" when there are too many of them.
func either(a, b string) string {
	if a == "" || b == "" {
		return ""
	}
	var all []string
	for _, x := range []string{a, b} {
		f, args := splitCall(x)
		if f != "either" {
			args = []string{x}
		}
		for _, y := range args {
			if !contains(all, y) {
				all = append(all, y)
			}
		}
	}
	sort.Strings(all)
	if len(all) > 4 {
		return ""
	}
	if len(all) == 1 {
		return all[0]
	}
	return "either(" + strings.Join(all, ",") + ")"
}

// symbol is the expression of a value; constants have theirs.
func (a *aval) symbol() string {
	if a == nil || a.bot || a.addr || a.tuple != nil {
		return ""
	}
	if a.sym != "" {
		return a.sym
	}
	if a.l != nil && a.l.C != nil {
		return a.l.C.ExactString()
	}
	if a.l != nil && a.l.Nil {
		return "nil"
	}
	return ""
}

// concrete is the type of the value a stands for, when known.
func (a *aval) concrete() types.Type {
	switch {
	case a == nil || a.bot || a.addr || a.tuple != nil || a.pt != nil:
		return nil
	case a.dyn != nil:
		return a.dyn
	case a.l != nil && !a.l.Nil && a.l.T != nil && !types.IsInterface(a.l.T):
		return a.l.T
	}
	return nil
}

type sccp struct {
	t      *tables
	depth  int
	assume map[string]*lit                                     // results supposed for some calls
	failed func(in *ssa.TypeAssert, got types.Type)            // called for each assertion which cannot succeed
	visit  func(in ssa.Instruction, get func(ssa.Value) *aval) // called for each instruction which may be reached

	// override, when it gives a value, is the value of an instruction
	override func(in ssa.Instruction, get func(ssa.Value) *aval) *aval
	// order compares two expressions (<0, 0, >0), when this is supposed
	order func(x, y string) (int, bool)

	// lost is called for each function of the module, or function value, which is called but not followed
	lost func()

	final bool // the values are settled
	fold  bool // calls of functions on constants only are evaluated path by path, loops included
}

// constResults folds fn for the given arguments (nil: unknown); the results are constants or bottom.
// all lists the results of each return reached.
func (t *tables) constResults(fn *ssa.Function, args []*aval) (merged []*aval, all [][]*aval) {
	return (&sccp{t: t}).run(fn, args)
}

func (s *sccp) run(fn *ssa.Function, args []*aval) (merged []*aval, all [][]*aval) {
	n := fn.Signature.Results().Len()
	merged = make([]*aval, n)
	if len(fn.Blocks) == 0 || s.depth > 6 {
		if s.lost != nil && s.final {
			s.lost()
		}
		for i := range merged {
			merged[i] = bottom
		}
		return merged, nil
	}
	vals := map[ssa.Value]*aval{}
	for i, prm := range fn.Params {
		vals[prm] = bottom
		if i < len(args) && args[i] != nil {
			vals[prm] = args[i]
		}
	}
	get := func(v ssa.Value) *aval {
		switch v := v.(type) {
		case *ssa.Const:
			if v.Value == nil {
				switch v.Type().Underlying().(type) {
				case *types.Struct, *types.Array:
					return &aval{l: zeroLit(v.Type())}
				}
				return &aval{l: &lit{T: v.Type(), Nil: true}}
			}
			return &aval{l: &lit{T: v.Type(), C: v.Value}}
		case *ssa.Global:
			if o := v.Object(); o != nil {
				if l := s.t.global(o); l != nil {
					return &aval{l: l, addr: true}
				}
			}
			return bottom
		case *ssa.Function:
			if o := v.Object(); o != nil {
				return &aval{l: &lit{T: v.Type(), Ref: o}}
			}
			return bottom
		case *ssa.FreeVar, *ssa.Builtin:
			return bottom
		}
		return vals[v]
	}
	wasFinal := s.final
	s.final = false
	execEdge := map[[2]*ssa.BasicBlock]bool{}
	execBlock := map[*ssa.BasicBlock]bool{fn.Blocks[0]: true}
	for changed := true; changed; {
		changed = false
		for _, b := range fn.Blocks {
			if !execBlock[b] {
				continue
			}
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok {
					var nv *aval
					if ph, ok := in.(*ssa.Phi); ok {
						for i, pr := range b.Preds {
							if execEdge[[2]*ssa.BasicBlock{pr, b}] {
								nv = join(nv, get(ph.Edges[i]))
							}
						}
					} else {
						nv = s.eval(fn, in, get)
					}
					old := vals[v]
					j := join(old, nv)
					if !sameAval(old, j) {
						vals[v] = j
						changed = true
					}
				}
				switch in := in.(type) {
				case *ssa.If:
					c := get(in.Cond)
					if c == nil {
						continue
					}
					take := []bool{true, true}
					if k := c.constant(); k != nil && k.C != nil && k.C.Kind() == constant.Bool {
						take[0], take[1] = constant.BoolVal(k.C), !constant.BoolVal(k.C)
					}
					for i, ok := range take {
						e := [2]*ssa.BasicBlock{b, b.Succs[i]}
						if ok && !execEdge[e] {
							execEdge[e], execBlock[b.Succs[i]], changed = true, true, true
						}
					}
				case *ssa.Jump:
					e := [2]*ssa.BasicBlock{b, b.Succs[0]}
					if !execEdge[e] {
						execEdge[e], execBlock[b.Succs[0]], changed = true, true, true
					}
				}
			}
		}
	}
	s.final = wasFinal
	// in the order of the execution, when it is decided
	var order []*ssa.BasicBlock
	ordered := map[*ssa.BasicBlock]bool{}
	var post func(b *ssa.BasicBlock)
	post = func(b *ssa.BasicBlock) {
		ordered[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if x := b.Succs[i]; execEdge[[2]*ssa.BasicBlock{b, x}] && !ordered[x] {
				post(x)
			}
		}
		order = append([]*ssa.BasicBlock{b}, order...)
	}
	post(fn.Blocks[0])
	for _, b := range order {
		if s.final {
			for _, in := range b.Instrs {
				if s.visit != nil {
					s.visit(in, get)
				}
				if _, isPhi := in.(*ssa.Phi); !isPhi {
					s.eval(fn, in, get)
				}
			}
		}
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			var one []*aval
			for i := range ret.Results {
				v := get(retVal(ret, i))
				if v == nil {
					v = bottom
				}
				one = append(one, v)
				merged[i] = join(merged[i], v)
			}
			all = append(all, one)
		}
	}
	for i := range merged {
		if merged[i] == nil { // does not return
			merged[i] = bottom
		}
	}
	return merged, all
}

func sameAval(a, b *aval) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil || a.bot != b.bot || a.addr != b.addr || len(a.tuple) != len(b.tuple) || (a.dyn == nil) != (b.dyn == nil) || a.sym != b.sym || (a.pt == nil) != (b.pt == nil) || len(a.flds) != len(b.flds) {
		return false
	}
	for i := range a.flds {
		if !sameAval(a.flds[i], b.flds[i]) {
			return false
		}
	}
	if a.pt != nil {
		return sameAval(a.pt, b.pt)
	}
	if a.dyn != nil {
		return types.Identical(a.dyn, b.dyn)
	}
	for i := range a.tuple {
		if !sameAval(a.tuple[i], b.tuple[i]) {
			return false
		}
	}
	return a.bot || a.tuple != nil || a.l == b.l || sameLit(a.l, b.l)
}

func (s *sccp) eval(fn *ssa.Function, in ssa.Instruction, get func(ssa.Value) *aval) *aval {
	// operands not yet known: wait
	for _, op := range in.Operands(nil) {
		if *op != nil {
			if _, isCall := in.(*ssa.Call); !isCall && get(*op) == nil {
				return nil
			}
		}
	}
	if s.override != nil {
		if a := s.override(in, get); a == waiting {
			return nil
		} else if a != nil {
			return a
		}
	}
	if a := s.symbolic(in, get); a == waiting {
		return nil
	} else if a != nil {
		return a
	}
	mk := func(t types.Type, c constant.Value) *aval {
		if c == nil || c.Kind() == constant.Unknown {
			return bottom
		}
		return &aval{l: &lit{T: t, C: c}}
	}
	switch in := in.(type) {
	case *ssa.BinOp:
		x, y := get(in.X).constant(), get(in.Y).constant()
		if in.Op == token.EQL || in.Op == token.NEQ {
			// a value of a known concrete type is not the nil interface, nor one of another type
			tx, ty := get(in.X).concrete(), get(in.Y).concrete()
			if types.IsInterface(in.X.Type()) && types.IsInterface(in.Y.Type()) && (tx != nil && (ty != nil && !types.Identical(tx, ty) || y != nil && y.Nil) || ty != nil && x != nil && x.Nil) {
				return mk(in.Type(), constant.MakeBool(in.Op == token.NEQ))
			}
			// structures without fields are all equal
			if tx != nil && ty != nil && types.Identical(tx, ty) {
				if st, ok := tx.Underlying().(*types.Struct); ok && st.NumFields() == 0 {
					return mk(in.Type(), constant.MakeBool(in.Op == token.EQL))
				}
			}
		}
		if a, b := get(in.X), get(in.Y); (in.Op == token.EQL || in.Op == token.NEQ) && (x != nil && x.Nil && b != nil && b.pt != nil || y != nil && y.Nil && a != nil && a.pt != nil) {
			return mk(in.Type(), constant.MakeBool(in.Op == token.NEQ))
		}
		if x == nil || y == nil {
			return bottom
		}
		if x.C == nil || y.C == nil {
			if in.Op == token.EQL || in.Op == token.NEQ {
				nilKnown := func(l *lit) (isNil, ok bool) {
					if l == nil {
						return false, false
					}
					if l.Nil {
						return true, true
					}
					return false, l.C != nil || l.Ref != nil || l.Addr != nil || l.Fields != nil
				}
				a, ok1 := nilKnown(x)
				b, ok2 := nilKnown(y)
				if ok1 && ok2 && (a || b) {
					return mk(in.Type(), constant.MakeBool((a == b) == (in.Op == token.EQL)))
				}
			}
			return bottom
		}
		switch in.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if _, isIface := in.X.Type().Underlying().(*types.Interface); isIface && !types.Identical(x.T, y.T) {
				return mk(in.Type(), constant.MakeBool(in.Op == token.NEQ))
			}
			if x.C.Kind() != y.C.Kind() && !(isNum(x.C) && isNum(y.C)) {
				return bottom
			}
			return mk(in.Type(), constant.MakeBool(constant.Compare(x.C, in.Op, y.C)))
		case token.SHL, token.SHR:
			n, ok := y.i()
			if !ok || n < 0 || n > 64 {
				return bottom
			}
			return mk(in.Type(), wrapConst(constant.Shift(constant.ToInt(x.C), in.Op, uint(n)), in.Type()))
		}
		op := in.Op
		if op == token.QUO || op == token.REM {
			if constant.Sign(y.C) == 0 {
				return bottom
			}
			if isIntType(in.Type()) && op == token.QUO {
				op = token.QUO_ASSIGN
			}
		}
		if x.C.Kind() != y.C.Kind() && !(isNum(x.C) && isNum(y.C)) {
			return bottom
		}
		return mk(in.Type(), wrapConst(constant.BinaryOp(x.C, op, y.C), in.Type()))
	case *ssa.UnOp:
		x := get(in.X)
		if in.Op == token.MUL {
			if x.addr {
				return &aval{l: x.l}
			}
			if k := x.constant(); k != nil && k.Addr != nil {
				return &aval{l: k.Addr}
			}
			return bottom
		}
		k := x.constant()
		if k == nil || k.C == nil {
			return bottom
		}
		switch in.Op {
		case token.NOT, token.SUB:
			return mk(in.Type(), wrapConst(constant.UnaryOp(in.Op, k.C, 0), in.Type()))
		case token.XOR:
			return mk(in.Type(), wrapConst(constant.BinaryOp(constant.MakeInt64(-1), token.XOR, constant.ToInt(k.C)), in.Type()))
		}
	case *ssa.Convert:
		k := get(in.X).constant()
		if k == nil || k.C == nil {
			return bottom
		}
		return mk(in.Type(), convConst(k.C, in.Type()))
	case *ssa.ChangeType:
		x := get(in.X)
		if k := x.constant(); k != nil {
			c := *k
			c.T = in.Type()
			return &aval{l: &c}
		}
		return x
	case *ssa.MakeInterface, *ssa.ChangeInterface:
		var x ssa.Value
		if m, ok := in.(*ssa.MakeInterface); ok {
			x = m.X
		} else {
			x = in.(*ssa.ChangeInterface).X
		}
		a := get(x)
		if a.bot && !types.IsInterface(x.Type()) {
			return &aval{dyn: x.Type()}
		}
		return a
	case *ssa.TypeAssert:
		x := get(in.X)
		ct := x.concrete()
		isNil := x.constant() != nil && x.constant().Nil
		if ct == nil && !isNil {
			if in.CommaOk && !types.IsInterface(in.AssertedType) { // when it holds, the type is known
				return &aval{tuple: []*aval{bottom, bottom}}
			}
			return bottom
		}
		ok := false
		if it, isIface := in.AssertedType.Underlying().(*types.Interface); isNil {
		} else if isIface {
			ok = types.Implements(ct, it)
		} else {
			ok = types.Identical(ct, in.AssertedType)
		}
		if !in.CommaOk {
			if ok {
				return x
			}
			if s.failed != nil && s.final {
				s.failed(in, ct)
			}
			return bottom
		}
		if !ok {
			return &aval{tuple: []*aval{{l: zeroLit(in.AssertedType)}, {l: &lit{T: types.Typ[types.Bool], C: constant.MakeBool(false)}}}}
		}
		return &aval{tuple: []*aval{x, {l: &lit{T: types.Typ[types.Bool], C: constant.MakeBool(true)}}}}
	case *ssa.Extract:
		x := get(in.Tuple)
		if x.tuple != nil && in.Index < len(x.tuple) {
			return x.tuple[in.Index]
		}
		return bottom
	case *ssa.Lookup:
		x, i := get(in.X).constant(), get(in.Index).constant()
		if x == nil || i == nil || i.C == nil {
			return bottom
		}
		if x.Keys == nil {
			if str, ok := x.s(); ok {
				if n, ok := i.i(); ok && n >= 0 && n < int64(len(str)) {
					return mk(in.Type(), constant.MakeInt64(int64(str[n])))
				}
			}
			return bottom
		}
		found := false
		for _, k := range x.Keys {
			if k.C == nil {
				return bottom
			}
			if k.C.Kind() == i.C.Kind() && constant.Compare(k.C, token.EQL, i.C) {
				found = true
			}
		}
		v := &aval{l: x.index(i)}
		if !in.CommaOk {
			return v
		}
		return &aval{tuple: []*aval{v, {l: &lit{T: types.Typ[types.Bool], C: constant.MakeBool(found)}}}}
	case *ssa.IndexAddr:
		x, i := get(in.X), get(in.Index).constant()
		if i == nil || x.bot {
			return bottom
		}
		l := x.l
		if l != nil && !x.addr && l.Addr != nil {
			l = l.Addr
		}
		if e := l.index(i); e != nil {
			return &aval{l: e, addr: true}
		}
		return bottom
	case *ssa.Index:
		x, i := get(in.X).constant(), get(in.Index).constant()
		if x == nil || i == nil {
			return bottom
		}
		if str, ok := x.s(); ok {
			if n, ok := i.i(); ok && n >= 0 && n < int64(len(str)) {
				return mk(in.Type(), constant.MakeInt64(int64(str[n])))
			}
			return bottom
		}
		if e := x.index(i); e != nil {
			return &aval{l: e}
		}
		return bottom
	case *ssa.FieldAddr:
		x := get(in.X)
		l := x.l
		if x.bot || l == nil {
			return bottom
		}
		if !x.addr {
			l = l.Addr
		}
		if l != nil && in.Field < len(l.Fields) {
			return &aval{l: l.Fields[in.Field], addr: true}
		}
		return bottom
	case *ssa.Field:
		if l := get(in.X).constant(); l != nil && in.Field < len(l.Fields) {
			return &aval{l: l.Fields[in.Field]}
		}
		return bottom
	case *ssa.Slice:
		str, ok := get(in.X).constant().s()
		if !ok {
			return bottom
		}
		lo, hi := int64(0), int64(len(str))
		if in.Low != nil {
			if lo, ok = get(in.Low).constant().i(); !ok {
				return bottom
			}
		}
		if in.High != nil {
			if hi, ok = get(in.High).constant().i(); !ok {
				return bottom
			}
		}
		if lo < 0 || lo > hi || hi > int64(len(str)) {
			return bottom
		}
		return mk(in.Type(), constant.MakeString(str[lo:hi]))
	case *ssa.Call:
		return s.call(in, get)
	}
	return bottom
}

func isNum(c constant.Value) bool {
	return c.Kind() == constant.Int || c.Kind() == constant.Float
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// wrapConst reduces an integer to the range of its type.
func wrapConst(c constant.Value, t types.Type) constant.Value {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 || c.Kind() != constant.Int {
		return c
	}
	bits, unsigned := intSize(b)
	mask := constant.BinaryOp(constant.Shift(constant.MakeInt64(1), token.SHL, bits), token.SUB, constant.MakeInt64(1))
	c = constant.BinaryOp(c, token.AND, mask)
	if !unsigned && constant.Compare(c, token.GEQ, constant.Shift(constant.MakeInt64(1), token.SHL, bits-1)) {
		c = constant.BinaryOp(c, token.SUB, constant.Shift(constant.MakeInt64(1), token.SHL, bits))
	}
	return c
}

func intSize(b *types.Basic) (bits uint, unsigned bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, false
	case types.Int16:
		return 16, false
	case types.Int32:
		return 32, false
	case types.Uint8:
		return 8, true
	case types.Uint16:
		return 16, true
	case types.Uint32:
		return 32, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, true
	}
	return 64, false
}

func convConst(c constant.Value, t types.Type) constant.Value {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil
	}
	switch {
	case b.Info()&types.IsString != 0:
		if c.Kind() == constant.String {
			return c
		}
		if v, ok := constant.Int64Val(constant.ToInt(c)); ok {
			return constant.MakeString(string(rune(v)))
		}
		return nil
	case b.Info()&types.IsInteger != 0:
		if c.Kind() == constant.Float { // truncated
			f, _ := constant.Float64Val(c)
			c = constant.MakeInt64(int64(f))
		}
		if constant.ToInt(c).Kind() != constant.Int {
			return nil
		}
		return wrapConst(constant.ToInt(c), t)
	case b.Info()&types.IsFloat != 0:
		if !isNum(c) {
			return nil
		}
		if b.Kind() == types.Float32 {
			f, _ := constant.Float32Val(c)
			return constant.MakeFloat64(float64(f))
		}
		f, _ := constant.Float64Val(c)
		return constant.MakeFloat64(f)
	}
	return c
}

func (s *sccp) call(in *ssa.Call, get func(ssa.Value) *aval) *aval {
	cc := in.Common()
	var args []*aval
	for _, a := range cc.Args {
		v := get(a)
		if v == nil {
			return nil
		}
		args = append(args, v)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if b.Name() == "len" && len(args) == 1 {
			if k := args[0].constant(); k != nil {
				if str, ok := k.s(); ok {
					return &aval{l: &lit{T: in.Type(), C: constant.MakeInt64(int64(len(str)))}}
				}
				if k.Vals != nil {
					return &aval{l: &lit{T: in.Type(), C: constant.MakeInt64(int64(len(k.Vals)))}}
				}
			}
		}
		return bottom
	}
	f := cc.StaticCallee()
	if f == nil && !cc.IsInvoke() {
		fv := get(cc.Value)
		if fv == nil {
			return nil
		}
		if k := fv.constant(); k != nil && k.Ref != nil {
			if o, ok := k.Ref.(*types.Func); ok {
				f = s.t.p.SSA.FuncValue(o)
			}
		}
	}
	if cc.IsInvoke() {
		recv := get(cc.Value)
		if recv == nil {
			return nil
		}
		ct := recv.concrete()
		if ct == nil {
			return bottom
		}
		f = s.t.p.SSA.LookupMethod(ct, cc.Method.Pkg(), cc.Method.Name())
		args = append([]*aval{recv}, args...)
	}
	if f == nil {
		if s.lost != nil && s.final && !cc.IsInvoke() {
			s.lost()
		}
		return bottom
	}
	if l := s.assume[f.String()]; l != nil {
		return &aval{l: l}
	}
	if a := newError(f, 0); a != nil {
		return a
	}
	if !inModule(f) {
		if a := s.replacer(in, f, args); a != nil {
			return a
		}
		if a := stdCall(f.String(), in.Type(), args); !a.bot {
			return a
		}
		return symCall(f, in, args)
	}
	sub := &sccp{t: s.t, depth: s.depth + 1, assume: s.assume, failed: s.failed, visit: s.visit, override: s.override, order: s.order, lost: s.lost, final: s.final, fold: s.fold}
	if s.fold && s.depth < 10 && foldable(f, args) {
		if all, ok := sub.unroll(f, args); ok && len(all) == 1 {
			if len(all[0]) == 1 {
				return all[0][0]
			}
			return &aval{tuple: all[0]}
		}
	}
	res, _ := sub.run(f, args)
	switch len(res) {
	case 0:
		return bottom
	case 1:
		if res[0].bot {
			return symCall(f, in, args)
		}
		return res[0]
	}
	return &aval{tuple: res}
}

// foldable: f is given constants only, and gives plain values.
func foldable(f *ssa.Function, args []*aval) bool {
	if len(f.Blocks) == 0 || f.Signature.Results().Len() == 0 {
		return false
	}
	for _, a := range args {
		if a.constant() == nil {
			return false
		}
	}
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		switch res.At(i).Type().Underlying().(type) {
		case *types.Basic, *types.Struct:
		default:
			if !isError(res.At(i).Type()) {
				return false
			}
		}
	}
	return true
}

// replacer folds the use of a strings.Replacer built once from constants.
func (s *sccp) replacer(in *ssa.Call, f *ssa.Function, args []*aval) *aval {
	if f.String() != "(*strings.Replacer).Replace" || len(args) != 2 {
		return nil
	}
	str, ok := args[1].constant().s()
	ld, isLoad := in.Call.Args[0].(*ssa.UnOp)
	if !ok || !isLoad {
		return nil
	}
	g, isGlobal := ld.X.(*ssa.Global)
	if !isGlobal || g.Object() == nil || s.t.written(g.Object()) {
		return nil
	}
	call, isCall := s.t.init[g.Object()].(*ast.CallExpr)
	if !isCall {
		return nil
	}
	info := s.t.infos[g.Object()]
	if sel, ok := call.Fun.(*ast.SelectorExpr); !ok || info.Uses[sel.Sel] == nil || info.Uses[sel.Sel].Pkg() == nil || info.Uses[sel.Sel].Pkg().Path() != "strings" || sel.Sel.Name != "NewReplacer" {
		return nil
	}
	var pairs []string
	for _, x := range call.Args {
		v, ok := s.t.eval(info, x).s()
		if !ok {
			return nil
		}
		pairs = append(pairs, v)
	}
	if len(pairs)%2 != 0 {
		return nil
	}
	return &aval{l: &lit{T: in.Type(), C: constant.MakeString(strings.NewReplacer(pairs...).Replace(str))}}
}

// symCall is the expression of a call which is not folded.
func symCall(f *ssa.Function, in *ssa.Call, args []*aval) *aval {
	if f.Signature.Results().Len() != 1 {
		return bottom
	}
	var ss []string
	for _, a := range args {
		x := a.symbol()
		if x == "" {
			return bottom
		}
		ss = append(ss, x)
	}
	name := f.String()
	if inModule(f) {
		name = fname(f)
	}
	out := &aval{sym: name + "(" + strings.Join(ss, ",") + ")"}
	if !types.IsInterface(in.Type()) {
		out.dyn = in.Type()
	}
	return out
}

// newError: f always returns a new error.
func newError(f *ssa.Function, depth int) *aval {
	out := &aval{sym: "error()", dyn: types.NewPointer(types.NewStruct(nil, nil))}
	if f.String() == "fmt.Errorf" || f.String() == "errors.New" {
		return out
	}
	if res := f.Signature.Results(); !inModule(f) || depth > 2 || res.Len() != 1 || !isError(res.At(0).Type()) || len(f.Blocks) == 0 {
		return nil
	}
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			call, ok := ret.Results[0].(*ssa.Call)
			if !ok || call.Call.StaticCallee() == nil || newError(call.Call.StaticCallee(), depth+1) == nil {
				return nil
			}
		}
	}
	return out
}

// symbolic evaluates the instructions whose operands are expressions rather than constants.
func (s *sccp) symbolic(in ssa.Instruction, get func(ssa.Value) *aval) *aval {
	mkSym := func(t types.Type, sym string) *aval {
		out := &aval{sym: sym}
		if !types.IsInterface(t) {
			out.dyn = t
		}
		return out
	}
	switch in := in.(type) {
	case *ssa.BinOp:
		x, y := get(in.X), get(in.Y)
		if x.sym == "" && y.sym == "" {
			return nil
		}
		a, b := x.symbol(), y.symbol()
		if a == "" || b == "" {
			return nil
		}
		op := in.Op
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if s.order != nil {
				if o, ok := s.order(a, b); ok {
					return &aval{l: &lit{T: in.Type(), C: constant.MakeBool(constant.Compare(constant.MakeInt64(int64(o)), op, constant.MakeInt64(0)))}}
				}
			}
			if x.concrete() != nil && b == "nil" || y.concrete() != nil && a == "nil" {
				return nil
			}
			if op == token.GTR || op == token.GEQ {
				a, b = b, a
				op = map[token.Token]token.Token{token.GTR: token.LSS, token.GEQ: token.LEQ}[op]
			}
			if (op == token.EQL || op == token.NEQ) && a > b {
				a, b = b, a
			}
		case token.ADD, token.MUL, token.AND, token.OR, token.XOR:
			if isBasicT(types.IsNumeric)(in.Type()) && a > b {
				a, b = b, a
			}
		}
		return mkSym(in.Type(), "("+a+op.String()+b+")")
	case *ssa.UnOp:
		x := get(in.X)
		if in.Op == token.MUL {
			if x.pt != nil {
				return x.pt
			}
			return nil
		}
		if x.sym == "" {
			return nil
		}
		return mkSym(in.Type(), in.Op.String()+x.sym)
	case *ssa.Convert:
		if x := get(in.X); x.sym != "" {
			return mkSym(in.Type(), x.sym)
		}
	case *ssa.ChangeType:
		if x := get(in.X); x.sym != "" {
			return mkSym(in.Type(), x.sym)
		}
	case *ssa.MakeInterface:
		if x := get(in.X); x.sym != "" && x.dyn == nil && !types.IsInterface(in.X.Type()) {
			return &aval{sym: x.sym, dyn: in.X.Type()}
		}
	case *ssa.Alloc:
		// a variable stored once, whose address only serves to read it
		if v := storedOnce(in); v != nil {
			x := get(v)
			if x == nil {
				return waiting
			}
			if x.pt != nil || x.addr {
				return nil
			}
			return &aval{pt: x}
		}
		if vals, ok := fieldsOnce(in); ok {
			st := in.Type().Underlying().(*types.Pointer).Elem()
			out := &aval{dyn: st}
			for i, v := range vals {
				f := &aval{l: zeroLit(st.Underlying().(*types.Struct).Field(i).Type())}
				if v != nil {
					if f = get(v); f == nil {
						return waiting
					}
				}
				out.flds = append(out.flds, f)
			}
			return &aval{pt: out}
		}
	case *ssa.TypeAssert:
		if x := get(in.X); x.sym != "" && x.dyn == nil && !in.CommaOk && !types.IsInterface(in.AssertedType) {
			return &aval{sym: x.sym, dyn: in.AssertedType}
		}
	case *ssa.FieldAddr:
		x := get(in.X)
		if x.pt != nil {
			if f := fieldAval(x.pt, in.X.Type().Underlying().(*types.Pointer).Elem(), in.Field); f != nil {
				return &aval{pt: f}
			}
		}
		if x.sym != "" && x.pt == nil && x.l == nil { // a pointer
			st := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			return &aval{pt: mkSym(in.Type().Underlying().(*types.Pointer).Elem(), x.sym+"."+st.Field(in.Field).Name())}
		}
	case *ssa.Field:
		return fieldAval(get(in.X), in.X.Type(), in.Field)
	}
	return nil
}

// fieldAval is the field of a structure which is an expression, or partly known.
func fieldAval(x *aval, t types.Type, i int) *aval {
	st, ok := t.Underlying().(*types.Struct)
	if !ok || x == nil || x.bot {
		return nil
	}
	if x.l != nil && i < len(x.l.Fields) {
		if f := x.l.Fields[i]; !f.Unknown {
			return &aval{l: f}
		}
	}
	if i < len(x.flds) {
		return x.flds[i]
	}
	if x.sym != "" {
		out := &aval{sym: x.sym + "." + st.Field(i).Name()}
		if !types.IsInterface(st.Field(i).Type()) {
			out.dyn = st.Field(i).Type()
		}
		return out
	}
	return nil
}

// storedOnce is the value of a local variable assigned once, as a whole, before it is read, and
// whose address does not escape.
func storedOnce(a *ssa.Alloc) ssa.Value {
	if a.Referrers() == nil {
		return nil
	}
	var store *ssa.Store
	var reads []ssa.Instruction
	var ok func(v ssa.Value, refs []ssa.Instruction) bool
	ok = func(v ssa.Value, refs []ssa.Instruction) bool {
		for _, u := range refs {
			switch u := u.(type) {
			case *ssa.Store:
				if u.Addr != a || v != a || store != nil {
					return false
				}
				store = u
			case *ssa.UnOp:
				reads = append(reads, u)
			case *ssa.DebugRef:
			case *ssa.FieldAddr:
				if !ok(u, *u.Referrers()) {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	if !ok(a, *a.Referrers()) || store == nil {
		return nil
	}
	for _, rd := range reads {
		if !dominates(store, rd) {
			return nil
		}
	}
	return store.Val
}

// fieldsOnce lists the values of the fields of a local structure (or of one which is allocated),
// each stored at most once, before the structure is read or its address used.
func fieldsOnce(a *ssa.Alloc) ([]ssa.Value, bool) {
	st, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	if !ok || a.Referrers() == nil {
		return nil, false
	}
	vals := make([]ssa.Value, st.NumFields())
	var stores, uses []ssa.Instruction
	for _, u := range *a.Referrers() {
		fa, ok := u.(*ssa.FieldAddr)
		if !ok {
			switch u := u.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.UnOp:
				uses = append(uses, u)
				continue
			}
			return nil, false
		}
		for _, w := range *fa.Referrers() {
			switch w := w.(type) {
			case *ssa.DebugRef:
			case *ssa.UnOp:
				uses = append(uses, w)
			case *ssa.Store:
				if w.Addr != fa || vals[fa.Field] != nil {
					return nil, false
				}
				vals[fa.Field] = w.Val
				stores = append(stores, w)
			default:
				return nil, false
			}
		}
	}
	for _, s := range stores {
		for _, u := range uses {
			if !dominates(s, u) {
				return nil, false
			}
		}
	}
	return vals, len(stores) > 0
}

// stdCall folds a few pure functions on constants.
func stdCall(name string, t types.Type, args []*aval) *aval {
	var ss []string
	var ns []int64
	for _, a := range args {
		k := a.constant()
		if k == nil {
			return bottom
		}
		str, ok := k.s()
		if n, isInt := k.i(); isInt && !ok {
			ns = append(ns, n)
		} else if !ok {
			return bottom
		}
		ss = append(ss, str)
	}
	str := func(x string) *aval { return &aval{l: &lit{T: t, C: constant.MakeString(x)}} }
	boolean := func(x bool) *aval { return &aval{l: &lit{T: t, C: constant.MakeBool(x)}} }
	list := func(l []string) *aval {
		out := &lit{T: t, Vals: []*lit{}}
		for _, x := range l {
			out.Vals = append(out.Vals, &lit{T: types.Typ[types.String], C: constant.MakeString(x)})
		}
		return &aval{l: out}
	}
	parsed := func(c constant.Value, err error) *aval {
		tt, ok := t.(*types.Tuple)
		if !ok || tt.Len() != 2 {
			return bottom
		}
		e := &aval{l: &lit{T: tt.At(1).Type(), Nil: true}}
		if err != nil {
			e = &aval{sym: "error()", dyn: types.NewPointer(types.NewStruct(nil, nil))}
		}
		return &aval{tuple: []*aval{{l: &lit{T: tt.At(0).Type(), C: c}}, e}}
	}
	switch name {
	case "strings.ToLower":
		return str(strings.ToLower(ss[0]))
	case "strings.ToUpper":
		return str(strings.ToUpper(ss[0]))
	case "strings.TrimSpace":
		return str(strings.TrimSpace(ss[0]))
	case "strings.TrimSuffix":
		return str(strings.TrimSuffix(ss[0], ss[1]))
	case "strings.TrimPrefix":
		return str(strings.TrimPrefix(ss[0], ss[1]))
	case "strings.ReplaceAll":
		return str(strings.ReplaceAll(ss[0], ss[1], ss[2]))
	case "strings.EqualFold":
		return boolean(strings.EqualFold(ss[0], ss[1]))
	case "strings.HasPrefix":
		return boolean(strings.HasPrefix(ss[0], ss[1]))
	case "strings.HasSuffix":
		return boolean(strings.HasSuffix(ss[0], ss[1]))
	case "strings.Contains":
		return boolean(strings.Contains(ss[0], ss[1]))
	case "strings.ContainsRune":
		if len(ns) == 1 {
			return boolean(strings.ContainsRune(ss[0], rune(ns[0])))
		}
	case "strings.Split":
		return list(strings.Split(ss[0], ss[1]))
	case "strings.Fields":
		return list(strings.Fields(ss[0]))
	case "strconv.Atoi":
		n, err := strconv.Atoi(ss[0])
		return parsed(constant.MakeInt64(int64(n)), err)
	case "strconv.ParseInt":
		if len(ns) == 2 {
			n, err := strconv.ParseInt(ss[0], int(ns[0]), int(ns[1]))
			return parsed(constant.MakeInt64(n), err)
		}
	case "strconv.ParseUint":
		if len(ns) == 2 {
			n, err := strconv.ParseUint(ss[0], int(ns[0]), int(ns[1]))
			return parsed(constant.MakeUint64(n), err)
		}
	case "strconv.ParseFloat":
		if len(ns) == 1 {
			f, err := strconv.ParseFloat(ss[0], int(ns[0]))
			if f != f || f > 1e300 || f < -1e300 {
				return bottom
			}
			return parsed(constant.MakeFloat64(f), err)
		}
	}
	return bottom
}
