package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Constant tables: the value of package-level composite literals, folded from the syntax tree.

// lit is a constant value: a basic constant, or a composite of constants.
type lit struct {
	T       types.Type
	C       constant.Value // basic values
	Nil     bool
	Keys    []*lit // maps
	Vals    []*lit // maps, slices, arrays
	Fields  []*lit // structs
	Addr    *lit   // pointers to a composite
	Ref     types.Object
	Unknown bool // not a constant
	Node    ast.Node
}

func (l *lit) String() string {
	switch {
	case l == nil:
		return "<none>"
	case l.C != nil:
		return l.C.ExactString()
	case l.Nil:
		return "nil"
	case l.Ref != nil:
		return l.Ref.Name()
	case l.Addr != nil:
		return "&" + l.Addr.String()
	case l.Fields != nil:
		s := "{"
		for _, f := range l.Fields {
			s += f.String() + " "
		}
		return s + "}"
	case l.Vals != nil:
		return fmt.Sprintf("[%d]", len(l.Vals))
	}
	return "?"
}

// i is the value of an integer constant.
func (l *lit) i() (int64, bool) {
	if l == nil || l.C == nil {
		return 0, false
	}
	c := constant.ToInt(l.C)
	if c.Kind() != constant.Int {
		return 0, false
	}
	v, ok := constant.Int64Val(c)
	return v, ok
}

func (l *lit) f() (float64, bool) {
	if l == nil || l.C == nil {
		return 0, false
	}
	c := constant.ToFloat(l.C)
	if c.Kind() != constant.Float {
		return 0, false
	}
	v, _ := constant.Float64Val(c)
	return v, true
}

func (l *lit) s() (string, bool) {
	if l == nil || l.C == nil || l.C.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(l.C), true
}

func zeroLit(t types.Type) *lit {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return &lit{T: t, C: constant.MakeString("")}
		case u.Info()&types.IsBoolean != 0:
			return &lit{T: t, C: constant.MakeBool(false)}
		case u.Info()&types.IsNumeric != 0:
			return &lit{T: t, C: constant.MakeInt64(0)}
		}
	case *types.Struct:
		l := &lit{T: t, Fields: []*lit{}}
		for i := 0; i < u.NumFields(); i++ {
			l.Fields = append(l.Fields, zeroLit(u.Field(i).Type()))
		}
		return l
	case *types.Array:
		l := &lit{T: t, Vals: []*lit{}}
		for i := int64(0); i < u.Len(); i++ {
			l.Vals = append(l.Vals, zeroLit(u.Elem()))
		}
		return l
	}
	return &lit{T: t, Nil: true}
}

type tables struct {
	p     *Program
	init  map[types.Object]ast.Expr
	infos map[types.Object]*types.Info
	memo  map[types.Object]*lit
	busy  map[types.Object]bool
	wr    map[*ssa.Global]bool
}

func (p *Program) tables() *tables {
	if p.tabs != nil {
		return p.tabs
	}
	t := &tables{p: p, init: map[types.Object]ast.Expr{}, infos: map[types.Object]*types.Info{}, memo: map[types.Object]*lit{}, busy: map[types.Object]bool{}}
	for _, pk := range p.All {
		if pk.TypesInfo == nil {
			continue
		}
		for _, in := range pk.TypesInfo.InitOrder {
			if len(in.Lhs) == 1 {
				t.init[in.Lhs[0]] = in.Rhs
				t.infos[in.Lhs[0]] = pk.TypesInfo
			}
		}
	}
	p.tabs = t
	return t
}

// global is the constant value a package-level variable keeps, or nil.
func (t *tables) global(v types.Object) *lit {
	if l, ok := t.memo[v]; ok {
		return l
	}
	if t.busy[v] {
		return nil
	}
	e, ok := t.init[v]
	if !ok {
		return nil
	}
	if t.written(v) {
		t.memo[v] = nil
		return nil
	}
	t.busy[v] = true
	l := t.eval(t.infos[v], e)
	t.busy[v] = false
	if l.Unknown {
		l = nil
	}
	t.memo[v] = l
	return l
}

// written: v is assigned, wholly or partly, by some code of the library.
func (t *tables) written(v types.Object) bool {
	if t.wr == nil {
		t.wr = map[*ssa.Global]bool{}
		m := t.p.effects()
		for _, fn := range t.p.Funcs {
			if fn.Synthetic != "" { // the package initializer
				continue
			}
			s := m.sum[fn]
			if s == nil {
				continue
			}
			for _, g := range m.globalWrites(fn) {
				t.wr[g] = true
			}
		}
	}
	pk := t.p.SSA.Package(v.Pkg())
	if pk == nil {
		return false
	}
	g, _ := pk.Members[v.Name()].(*ssa.Global)
	return g != nil && t.wr[g]
}

func (t *tables) eval(info *types.Info, e ast.Expr) *lit {
	unknown := &lit{Unknown: true, Node: e}
	tv := info.Types[e]
	if tv.Value != nil {
		return &lit{T: tv.Type, C: tv.Value, Node: e}
	}
	if tv.IsNil() {
		return &lit{T: tv.Type, Nil: true, Node: e}
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		return t.eval(info, e.X)
	case *ast.UnaryExpr:
		if e.Op.String() == "&" {
			l := t.eval(info, e.X)
			if l.Unknown {
				return unknown
			}
			return &lit{T: tv.Type, Addr: l, Node: e}
		}
	case *ast.Ident, *ast.SelectorExpr:
		var obj types.Object
		if id, ok := e.(*ast.Ident); ok {
			obj = info.Uses[id]
		} else {
			obj = info.Uses[e.(*ast.SelectorExpr).Sel]
		}
		switch o := obj.(type) {
		case *types.Var:
			if o.Parent() != nil && o.Pkg() != nil && o.Parent() == o.Pkg().Scope() {
				if l := t.global(o); l != nil {
					return l
				}
			}
		case *types.Func:
			return &lit{T: tv.Type, Ref: o, Node: e}
		}
	case *ast.FuncLit:
		return &lit{T: tv.Type, Node: e, Ref: types.NewFunc(e.Pos(), nil, "func literal", nil)}
	case *ast.IndexExpr:
		b, i := t.eval(info, e.X), t.eval(info, e.Index)
		if l := b.index(i); l != nil {
			return l
		}
	case *ast.CallExpr:
		if info.Types[e.Fun].IsType() && len(e.Args) == 1 {
			l := t.eval(info, e.Args[0])
			if l.Unknown {
				return unknown
			}
			c := *l
			if _, isIface := tv.Type.Underlying().(*types.Interface); !isIface {
				c.T = tv.Type
			}
			return &c
		}
		return unknown
	case *ast.CompositeLit:
		return t.composite(info, e, tv.Type)
	}
	return unknown
}

func (b *lit) index(i *lit) *lit {
	if b == nil || i == nil || b.Unknown || i.Unknown || i.C == nil {
		return nil
	}
	if b.Keys != nil {
		for k := range b.Keys {
			if b.Keys[k].C != nil && constant.Compare(b.Keys[k].C, token.EQL, i.C) {
				return b.Vals[k]
			}
		}
		return zeroLit(b.T.Underlying().(*types.Map).Elem())
	}
	n, ok := i.i()
	if !ok || n < 0 || n >= int64(len(b.Vals)) {
		return nil
	}
	return b.Vals[n]
}

func (t *tables) composite(info *types.Info, e *ast.CompositeLit, typ types.Type) *lit {
	unknown := &lit{Unknown: true, Node: e}
	if pt, ok := typ.Underlying().(*types.Pointer); ok { // elided &T
		l := t.composite(info, e, pt.Elem())
		if l.Unknown {
			return l
		}
		return &lit{T: typ, Addr: l, Node: e}
	}
	l := &lit{T: typ, Node: e}
	sub := func(x ast.Expr, want types.Type) *lit {
		if c, ok := x.(*ast.CompositeLit); ok && c.Type == nil {
			return t.composite(info, c, want)
		}
		return t.eval(info, x)
	}
	switch u := typ.Underlying().(type) {
	case *types.Struct:
		l.Fields = zeroLit(typ).Fields
		for i, x := range e.Elts {
			if kv, ok := x.(*ast.KeyValueExpr); ok {
				name := kv.Key.(*ast.Ident).Name
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == name {
						l.Fields[j] = sub(kv.Value, u.Field(j).Type())
						if l.Fields[j].Unknown {
							return unknown
						}
					}
				}
				continue
			}
			l.Fields[i] = sub(x, u.Field(i).Type())
			if l.Fields[i].Unknown {
				return unknown
			}
		}
		return l
	case *types.Slice, *types.Array:
		var elem types.Type
		l.Vals = []*lit{}
		if s, ok := u.(*types.Slice); ok {
			elem = s.Elem()
		} else {
			elem = u.(*types.Array).Elem()
			l.Vals = zeroLit(typ).Vals
		}
		pos := int64(0)
		for _, x := range e.Elts {
			if kv, ok := x.(*ast.KeyValueExpr); ok {
				k := t.eval(info, kv.Key)
				n, ok := k.i()
				if !ok {
					return unknown
				}
				pos, x = n, kv.Value
			}
			v := sub(x, elem)
			if v.Unknown {
				return unknown
			}
			for int64(len(l.Vals)) <= pos {
				l.Vals = append(l.Vals, zeroLit(elem))
			}
			l.Vals[pos] = v
			pos++
		}
		return l
	case *types.Map:
		l.Keys, l.Vals = []*lit{}, []*lit{}
		for _, x := range e.Elts {
			kv := x.(*ast.KeyValueExpr)
			k, v := sub(kv.Key, u.Key()), sub(kv.Value, u.Elem())
			if k.Unknown || v.Unknown {
				return unknown
			}
			l.Keys = append(l.Keys, k)
			l.Vals = append(l.Vals, v)
		}
		return l
	}
	return unknown
}

// vars lists the package-level variables of a package in source order, with their constant values.
func (t *tables) vars(short string) []*types.Var {
	pk := t.p.pkg(short)
	var out []*types.Var
	for _, n := range pk.Types.Scope().Names() {
		if v, ok := pk.Types.Scope().Lookup(n).(*types.Var); ok {
			out = append(out, v)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

// globalWrites lists the package-level variables fn may change.
func (m *modAnalysis) globalWrites(fn *ssa.Function) []*ssa.Global {
	var out []*ssa.Global
	if s := m.sum[fn]; s != nil {
		for r, eff := range s.mut {
			if r.kind == rkGlobal && len(eff) > 0 {
				out = append(out, r.g)
			}
		}
	}
	return out
}
