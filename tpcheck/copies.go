package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Completeness of copies: where each part of the result of a copying function comes from, as paths
// from the original (fields, elements of a slice, keys and values of a map).

type copyCheck struct {
	p    *Program
	r    *Report
	done map[*ssa.Function]bool
	todo []copyTask
}

type copyTask struct {
	fn *ssa.Function
	at int // the parameter which is copied
}

// contrib is something put in a part of the copy.
type contrib struct {
	kind   string // whole, make, elem, spread, map
	val    ssa.Value
	idx    ssa.Value
	in     ssa.Instruction
	lenArg ssa.Value
}

type copyFn struct {
	c      *copyCheck
	fn     *ssa.Function
	orig   ssa.Value
	spill  map[*ssa.Alloc]bool // holds the original, by value
	memo   map[ssa.Value]string
	parent map[string]string // classes of places
	ids    map[ssa.Value]string
	parts  map[string][]contrib
	loops  []*loop
}

const unknownPath = "?"

func (f *copyFn) id(v ssa.Value) string {
	if s, ok := f.ids[v]; ok {
		return s
	}
	s := fmt.Sprintf("#%d", len(f.ids))
	f.ids[v] = s
	return s
}

func (f *copyFn) find(s string) string {
	for {
		q, ok := f.parent[s]
		if !ok {
			return s
		}
		s = q
	}
}

func (f *copyFn) union(a, b string) {
	if a, b = f.find(a), f.find(b); a != b {
		f.parent[a] = b
	}
}

// path of a value which is, or is a copy of, a part of the original.
func (f *copyFn) path(v ssa.Value) string {
	if s, ok := f.memo[v]; ok {
		return s
	}
	f.memo[v] = unknownPath
	s := f.path1(v)
	f.memo[v] = s
	return s
}

func (f *copyFn) sub(base, s string) string {
	if base == unknownPath {
		return unknownPath
	}
	return base + s
}

func (f *copyFn) path1(v ssa.Value) string {
	if v == f.orig {
		return ""
	}
	switch v := v.(type) {
	case *ssa.Alloc:
		if f.spill[v] {
			return ""
		}
		// a local holding a part of the original, some fields of which are copied
		var whole []string
		for _, ref := range *v.Referrers() {
			if st, ok := ref.(*ssa.Store); ok && st.Addr == v {
				whole = append(whole, f.path(st.Val))
			}
		}
		if len(whole) == 1 && whole[0] != unknownPath && whole[0] != "" {
			return whole[0]
		}
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return f.path(v.X)
		}
	case *ssa.FieldAddr:
		return f.sub(f.path(v.X), "."+fieldName(v.X.Type(), v.Field))
	case *ssa.Field:
		return f.sub(f.path(v.X), "."+fieldName(v.X.Type(), v.Field))
	case *ssa.IndexAddr:
		return f.sub(f.path(v.X), "["+f.id(v.Index)+"]")
	case *ssa.Index:
		return f.sub(f.path(v.X), "["+f.id(v.Index)+"]")
	case *ssa.Lookup:
		if !v.CommaOk {
			return f.sub(f.path(v.X), "{"+f.id(v.Index)+"}")
		}
	case *ssa.Extract:
		switch t := v.Tuple.(type) {
		case *ssa.Next:
			if rg, ok := t.Iter.(*ssa.Range); ok && !t.IsString && v.Index > 0 {
				base := f.path(rg.X)
				if v.Index == 1 {
					return f.sub(base, "{key "+f.id(t)+"}")
				}
				return f.sub(base, "{val "+f.id(t)+"}")
			}
		}
	case *ssa.MakeInterface:
		return f.path(v.X)
	case *ssa.ChangeInterface:
		return f.path(v.X)
	case *ssa.ChangeType:
		return f.path(v.X)
	case *ssa.TypeAssert:
		if !v.CommaOk {
			return f.path(v.X)
		}
	case *ssa.Phi:
		s := ""
		for i, e := range v.Edges {
			q := f.path(e)
			if q == unknownPath || i > 0 && q != s {
				return unknownPath
			}
			s = q
		}
		return s
	case *ssa.Call:
		com := v.Common()
		if com.IsInvoke() {
			q := f.path(com.Value)
			if q == unknownPath || len(com.Args) != 0 || v.Call.Signature().Results().Len() != 1 {
				return unknownPath
			}
			for _, cal := range f.c.p.callees(v) {
				f.c.enqueue(cal, 0)
			}
			return q
		}
		cal := com.StaticCallee()
		if cal == nil || v.Call.Signature().Results().Len() != 1 {
			if b, ok := com.Value.(*ssa.Builtin); ok && b.Name() == "append" && len(com.Args) == 2 && emptySlice(com.Args[0]) {
				return f.path(com.Args[1])
			}
			return unknownPath
		}
		if !inModule(cal) {
			if cal.String() == "strings.Clone" || strings.HasSuffix(cal.String(), "slices.Clone") || strings.HasSuffix(cal.String(), "maps.Clone") {
				return f.path(com.Args[0])
			}
			return unknownPath
		}
		at := -1
		for i, a := range com.Args {
			if f.path(a) != unknownPath {
				if at >= 0 {
					return unknownPath
				}
				at = i
			}
		}
		if at < 0 || !sameCopied(com.Args[at].Type(), v.Type()) {
			return unknownPath
		}
		q := f.path(com.Args[at])
		f.c.enqueue(cal, at)
		return q
	}
	return unknownPath
}

func fieldName(t types.Type, i int) string {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	return t.Underlying().(*types.Struct).Field(i).Name()
}

func sameCopied(a, b types.Type) bool {
	d := func(t types.Type) types.Type {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			return pt.Elem()
		}
		return t
	}
	return types.Identical(d(a), d(b)) || types.IsInterface(d(b))
}

func emptySlice(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Const:
		return v.IsNil()
	case *ssa.MakeSlice:
		k, ok := v.Len.(*ssa.Const)
		return ok && k.Value != nil && constant.Sign(k.Value) == 0
	case *ssa.Slice:
		k, ok := v.High.(*ssa.Const)
		return ok && k.Value != nil && constant.Sign(k.Value) == 0
	case *ssa.ChangeType:
		return emptySlice(v.X)
	}
	return false
}

func (c *copyCheck) enqueue(fn *ssa.Function, at int) {
	if fn != nil && fn.Blocks != nil && inModule(fn) && !c.done[fn] && fn.Signature.Results().Len() == 1 {
		if fn.Synthetic != "" {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if call, ok := in.(*ssa.Call); ok {
						if cal := call.Common().StaticCallee(); cal != nil && len(call.Common().Args) > 0 {
							c.enqueue(cal, 0)
						}
					}
				}
			}
			return
		}
		c.done[fn] = true
		c.todo = append(c.todo, copyTask{fn, at})
	}
}

// place names the variable a value or an address stands for.
func (f *copyFn) place(v ssa.Value) (string, bool) {
	switch v := v.(type) {
	case *ssa.Alloc:
		return f.id(v), true
	case *ssa.FieldAddr:
		if b, ok := f.place(v.X); ok {
			return f.find(b) + "." + fieldName(v.X.Type(), v.Field), true
		}
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return f.place(v.X)
		}
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.Phi:
		return f.id(v), true
	case *ssa.ChangeType:
		return f.place(v.X)
	case *ssa.Call:
		if b, ok := v.Common().Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return f.id(v), true
		}
	}
	return "", false
}

func isNilConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.IsNil()
}

func zeroConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value == nil
}

// made: a value built in the function, piece by piece.
func made(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.Phi, *ssa.Alloc:
		return true
	case *ssa.ChangeType:
		return made(v.X)
	case *ssa.UnOp:
		return v.Op == token.MUL && made(v.X)
	case *ssa.FieldAddr:
		return made(v.X)
	case *ssa.Call:
		b, ok := v.Common().Value.(*ssa.Builtin)
		return ok && b.Name() == "append"
	}
	return false
}

func (f *copyFn) collect() {
	p := f.c.p
	// the values which are one variable
	for round := 0; round < 2; round++ {
		p.eachInstr(f.fn, func(in ssa.Instruction) {
			switch in := in.(type) {
			case *ssa.Store:
				if a, ok := in.Addr.(*ssa.Alloc); ok && f.spill[a] {
					return
				}
				if made(in.Val) && f.path(in.Val) == unknownPath {
					if a, ok := f.place(in.Addr); ok {
						if b, ok := f.place(in.Val); ok {
							f.union(a, b)
						}
					}
				}
			case *ssa.Phi:
				if f.path(in) != unknownPath {
					return
				}
				for _, e := range in.Edges {
					if b, ok := f.place(e); ok && made(e) && f.path(e) == unknownPath {
						f.union(f.id(in), b)
					}
				}
			case *ssa.Call:
				if b, ok := in.Common().Value.(*ssa.Builtin); ok && b.Name() == "append" && f.path(in) == unknownPath {
					if x, ok := f.place(in.Common().Args[0]); ok {
						f.union(f.id(in), x)
					}
				}
			}
		})
	}
	add := func(place string, k contrib) {
		place = f.canon(place)
		f.parts[place] = append(f.parts[place], k)
	}
	p.eachInstr(f.fn, func(in ssa.Instruction) {
		switch in := in.(type) {
		case *ssa.Store:
			if a, ok := in.Addr.(*ssa.Alloc); ok && f.spill[a] && in.Val == f.orig {
				return
			}
			if ia, ok := in.Addr.(*ssa.IndexAddr); ok {
				if pl, ok := f.place(ia.X); ok {
					add(pl, contrib{kind: "elem", val: in.Val, idx: ia.Index, in: in})
				}
				return
			}
			if pl, ok := f.place(in.Addr); ok && !(made(in.Val) && f.path(in.Val) == unknownPath) && !zeroConst(in.Val) {
				add(pl, contrib{kind: "whole", val: in.Val, in: in})
			}
		case *ssa.MapUpdate:
			if pl, ok := f.place(in.Map); ok {
				add(pl, contrib{kind: "map", val: in.Value, idx: in.Key, in: in})
			}
		case *ssa.MakeSlice:
			add(f.id(in), contrib{kind: "make", in: in, lenArg: in.Len})
		case *ssa.MakeMap:
			add(f.id(in), contrib{kind: "make", in: in})
		case *ssa.Call:
			b, ok := in.Common().Value.(*ssa.Builtin)
			if !ok {
				// filled by a function: not followed
				for _, a := range in.Common().Args {
					if _, isPtr := a.Type().Underlying().(*types.Pointer); isPtr || made(a) {
						if pl, ok := f.place(a); ok && f.path(a) == unknownPath {
							add(pl, contrib{kind: "call", in: in})
						}
					}
				}
				return
			}
			switch b.Name() {
			case "append":
				if f.path(in) != unknownPath {
					return
				}
				args := in.Common().Args
				pl := f.id(in)
				if len(args) == 2 {
					if vs := variadic(args[1]); vs != nil {
						for _, x := range vs {
							add(pl, contrib{kind: "elem", val: x, in: in})
						}
					} else {
						add(pl, contrib{kind: "spread", val: args[1], in: in})
					}
				}
			case "copy":
				if pl, ok := f.place(in.Common().Args[0]); ok {
					add(pl, contrib{kind: "spread", val: in.Common().Args[1], in: in})
				}
			}
		}
	})
}

// canon is the class of a place, whose last field is kept.
func (f *copyFn) canon(s string) string {
	parts := strings.Split(s, ".")
	out := f.find(parts[0])
	for _, x := range parts[1:] {
		out = f.find(out + "." + x)
	}
	return out
}

// variadic lists the values of the slice made for a call.
func variadic(v ssa.Value) []ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	a, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out []ssa.Value
	for _, ref := range *a.Referrers() {
		if ia, ok := ref.(*ssa.IndexAddr); ok {
			for _, r2 := range *ia.Referrers() {
				if st, ok := r2.(*ssa.Store); ok {
					out = append(out, st.Val)
				}
			}
		}
	}
	return out
}

func show(path string) string {
	if path == "" {
		return "the original"
	}
	s := path
	for {
		i := strings.IndexAny(s, "[{")
		if i < 0 {
			break
		}
		j := strings.IndexAny(s[i:], "]}")
		if j < 0 {
			break
		}
		w := "(elements)"
		if strings.HasPrefix(s[i:], "{key") {
			w = "(keys)"
		}
		s = s[:i] + w + s[i+j+1:]
	}
	return "the original" + s
}

// judge checks that the variable of this class is a copy of the part `want` of the original.
func (f *copyFn) judge(class, want string, t types.Type, pos token.Pos, ret *ssa.Return, depth int) {
	r, p := f.c.r, f.c.p
	parts := f.parts[class]
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	for _, k := range parts {
		if k.kind == "call" {
			r.count("parts of copies not followed", 1)
			return
		}
	}
	wrong := func(k contrib, key, format string, args ...interface{}) {
		r.find("complete", fname(f.fn)+" "+key, p.pos(k.in.Pos()), "%s: %s", fname(f.fn), fmt.Sprintf(format, args...))
	}
	r.count("parts of copies", 1)
	whole := false
	per := map[string]bool{}
	var blocks []*ssa.BasicBlock
	for _, k := range parts {
		switch k.kind {
		case "whole":
			q := f.path(k.val)
			if q == unknownPath {
				r.count("parts of copies not followed", 1)
				return
			}
			if q != want {
				wrong(k, "other "+show(want), "what should be a copy of %s is one of %s", show(want), show(q))
				return
			}
			whole = true
			blocks = append(blocks, k.in.Block())
		case "spread":
			q := f.path(k.val)
			if q == unknownPath {
				r.count("parts of copies not followed", 1)
				return
			}
			if q != want {
				wrong(k, "other "+show(want), "the elements of what should be a copy of %s are those of %s", show(want), show(q))
				return
			}
			blocks = append(blocks, k.in.Block())
			per["spread"] = true
		case "elem", "map":
			blocks = append(blocks, k.in.Block())
			per[k.kind] = true
			q := f.path(k.val)
			if k.kind == "map" {
				kq := f.path(k.idx)
				if strings.HasPrefix(kq, want+"{key ") {
					r.count("copied keys", 1)
				} else if kq != unknownPath {
					wrong(k, "key "+show(want), "the keys of what should be a copy of %s are %s", show(want), show(kq))
					return
				} else if c, ok := k.idx.(*ssa.Call); ok && !inModuleCall(c) && f.derives(c, want+"{key ") {
					wrong(k, "key "+show(want), "the keys of what should be a copy of %s are changed", show(want))
					return
				} else {
					r.count("parts of copies not followed", 1)
					return
				}
				if kk, ok := k.val.(*ssa.Const); ok && kk.Value != nil && kk.Value.Kind() == constant.Bool {
					continue // a set
				}
				if q == unknownPath {
					// a value made in the loop
					if pl, ok := f.place(k.val); ok && made(k.val) {
						vt := k.val.Type()
						kv := strings.Replace(kq, "{key ", "{val ", 1)
						f.judgeIn(f.canon(pl), kv, vt, pos, k.in, depth+1)
						continue
					}
					r.count("parts of copies not followed", 1)
					return
				}
				if q != strings.Replace(kq, "{key ", "{val ", 1) && !(strings.HasPrefix(q, want+"{") && !strings.HasPrefix(q, want+"{key")) {
					wrong(k, "value "+show(want), "the values of what should be a copy of %s are those of %s", show(want), show(q))
					return
				}
				continue
			}
			if q == unknownPath && made(k.val) {
				// an element made in the loop
				if pl, ok := f.place(k.val); ok {
					class, elem := f.canon(pl), ""
					if k.idx != nil {
						elem = want + "[" + f.id(k.idx) + "]"
					} else {
						elem = f.elementOf(class, want)
					}
					if elem != "" {
						f.judgeIn(class, elem, k.val.Type(), pos, k.in, depth+1)
						continue
					}
				}
			}
			if q == unknownPath {
				r.count("parts of copies not followed", 1)
				return
			}
			if !strings.HasPrefix(q, want+"[") || strings.Count(q[len(want):], "[") > 1 || strings.ContainsAny(q[len(want):], ".{") {
				wrong(k, "element "+show(want), "the elements of what should be a copy of %s are those of %s", show(want), show(q))
				return
			}
			if k.idx != nil && q != want+"["+f.id(k.idx)+"]" {
				wrong(k, "index "+show(want), "the elements of the copy of %s are not at their place", show(want))
				return
			}
		}
	}
	if whole {
		per = map[string]bool{} // elements replaced in what is already complete
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			name := st.Field(i).Name()
			sub := f.canon(class + "." + name)
			if len(f.parts[sub]) == 0 && !f.hasSub(sub) {
				if !whole {
					if name != "_" {
						r.find("complete", fname(f.fn)+" field "+name, p.pos(pos), "%s leaves the field %s of the copy empty", fname(f.fn), name)
					}
				}
				continue
			}
			if depth < 5 {
				f.judgeField(sub, want+"."+name, st.Field(i).Type(), pos, ret, depth+1, whole)
			}
		}
		return
	}
	if len(per) == 0 {
		return
	}
	for _, k := range parts {
		if k.kind == "make" && k.lenArg != nil && (per["elem"] || per["spread"]) {
			if c, ok := k.lenArg.(*ssa.Call); ok {
				if b, ok := c.Common().Value.(*ssa.Builtin); ok && b.Name() == "len" {
					if q := f.path(c.Common().Args[0]); q != unknownPath && q != want && f.overLen(parts, want) {
						wrong(k, "length "+show(want), "the copy of %s has the length of %s", show(want), show(q))
						return
					}
				}
			}
		}
	}
	f.always(class, want, blocks, pos, ret)
}

func (f *copyFn) judgeField(class, want string, t types.Type, pos token.Pos, ret *ssa.Return, depth int, whole bool) {
	f.judge(class, want, t, pos, ret, depth)
	if whole || len(f.parts[class]) == 0 {
		return
	}
	var blocks []*ssa.BasicBlock
	for _, k := range f.parts[class] {
		if k.kind != "make" {
			blocks = append(blocks, k.in.Block())
		}
	}
	if len(blocks) > 0 {
		f.always(class, want, blocks, pos, ret)
	}
}

func (f *copyFn) judgeIn(class, want string, t types.Type, pos token.Pos, in ssa.Instruction, depth int) {
	if depth < 5 {
		f.judge(class, want, t, in.Pos(), nil, depth)
	}
}

func (f *copyFn) hasSub(class string) bool {
	for k := range f.parts {
		if strings.HasPrefix(k, class+".") {
			return true
		}
	}
	return false
}

// overLen: the elements are those of a loop over `want`, or copied at once.
func (f *copyFn) overLen(parts []contrib, want string) bool {
	for _, k := range parts {
		if k.kind == "spread" {
			return true
		}
		if k.kind != "elem" {
			continue
		}
		for _, l := range f.loops {
			if !l.body[k.in.Block()] {
				continue
			}
			iff, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			if o, ok := iff.Cond.(*ssa.BinOp); ok && isLen(o.Y) && f.path(o.Y.(*ssa.Call).Common().Args[0]) == want {
				return true
			}
		}
	}
	return false
}

// elementOf is the element of `want` which this part is made of.
func (f *copyFn) elementOf(class, want string) string {
	for _, name := range sortedKeys(f.parts) {
		if name != class && !strings.HasPrefix(name, class+".") {
			continue
		}
		for _, k := range f.parts[name] {
			if k.val == nil {
				continue
			}
			if q := f.path(k.val); strings.HasPrefix(q, want+"[") {
				return q[:len(want)+strings.Index(q[len(want):], "]")+1]
			}
		}
	}
	return ""
}

func inModuleCall(c *ssa.Call) bool {
	cal := c.Common().StaticCallee()
	return cal == nil || inModule(cal)
}

func (f *copyFn) derives(c *ssa.Call, prefix string) bool {
	for _, a := range c.Common().Args {
		if strings.HasPrefix(f.path(a), prefix) {
			return true
		}
	}
	return false
}

// absent: on this edge, a part of the original is nil or empty.
func (f *copyFn) absent(b *ssa.BasicBlock, succ int) bool {
	cond, truth := b.Instrs[len(b.Instrs)-1].(*ssa.If).Cond, succ == 0
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, truth = u.X, !truth
	}
	o, ok := cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	x, y := o.X, o.Y
	if _, ok := x.(*ssa.Const); ok {
		x, y = y, x
	}
	k, ok := y.(*ssa.Const)
	if !ok {
		return false
	}
	zero := k.IsNil() || k.Value != nil && k.Value.Kind() == constant.Int && constant.Sign(k.Value) == 0
	if c, ok := x.(*ssa.Call); ok {
		if b, ok := c.Common().Value.(*ssa.Builtin); ok && b.Name() == "len" {
			x = c.Common().Args[0]
		}
	} else if k.Value != nil {
		return false
	}
	if !zero || f.path(x) == unknownPath {
		return false
	}
	switch o.Op {
	case token.EQL, token.LEQ:
		return truth
	case token.NEQ, token.GTR:
		return !truth
	}
	return false
}

// always: no way through an iteration, or to the end of the function, avoids these blocks.
func (f *copyFn) always(class, want string, blocks []*ssa.BasicBlock, pos token.Pos, ret *ssa.Return) {
	avoid := map[*ssa.BasicBlock]bool{}
	var inner *loop
	for _, b := range blocks {
		avoid[b] = true
		for _, l := range f.loops {
			if l.body[b] && (inner == nil || len(l.body) < len(inner.body)) {
				inner = l
			}
		}
	}
	r, p := f.c.r, f.c.p
	if inner != nil {
		r.count("copying loops", 1)
		seen := map[*ssa.BasicBlock]bool{}
		var from []*ssa.BasicBlock
		if _, ok := inner.header.Instrs[len(inner.header.Instrs)-1].(*ssa.If); ok {
			for _, s := range inner.header.Succs {
				if inner.body[s] && s != inner.header {
					from = append(from, s)
				}
			}
		}
		skip := false
		var dfs func(b *ssa.BasicBlock)
		dfs = func(b *ssa.BasicBlock) {
			if seen[b] || avoid[b] || skip {
				return
			}
			seen[b] = true
			for i, s := range b.Succs {
				if len(b.Succs) == 2 && f.absent(b, i) {
					continue
				}
				if s == inner.header {
					skip = true
					return
				}
				if !inner.body[s] {
					normal := false
					for _, x := range inner.header.Succs {
						normal = normal || x == s
					}
					if normal || !ends(s) {
						skip = true
					}
					continue
				}
				dfs(s)
			}
		}
		for _, b := range from {
			dfs(b)
		}
		if skip {
			r.find("complete", fname(f.fn)+" skips "+show(want), p.pos(pos), "%s skips some elements of %s", fname(f.fn), show(want))
		}
		return
	}
	if ret == nil {
		return
	}
	seen := map[*ssa.BasicBlock]bool{}
	skip := false
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if seen[b] || avoid[b] || skip {
			return
		}
		seen[b] = true
		if b == ret.Block() {
			skip = true
			return
		}
		for i, s := range b.Succs {
			if len(b.Succs) == 2 && f.absent(b, i) {
				continue
			}
			dfs(s)
		}
	}
	dfs(f.fn.Blocks[0])
	if skip {
		r.find("complete", fname(f.fn)+" sometimes "+show(want), p.pos(pos), "%s only copies %s under some conditions", fname(f.fn), show(want))
	}
}

func ends(b *ssa.BasicBlock) bool {
	switch b.Instrs[len(b.Instrs)-1].(type) {
	case *ssa.Panic, *ssa.Return:
		return true
	}
	return false
}

func (c *copyCheck) run() {
	for len(c.todo) > 0 {
		t := c.todo[0]
		c.todo = c.todo[1:]
		fn := t.fn
		if t.at >= len(fn.Params) {
			continue
		}
		if !sameCopied(fn.Params[t.at].Type(), fn.Signature.Results().At(0).Type()) {
			continue
		}
		c.r.count("copying functions", 1)
		c.r.sample("copy made by %s", fname(fn))
		f := &copyFn{c: c, fn: fn, orig: fn.Params[t.at], spill: map[*ssa.Alloc]bool{}, memo: map[ssa.Value]string{}, parent: map[string]string{}, ids: map[ssa.Value]string{}, parts: map[string][]contrib{}, loops: c.p.loops(fn)}
		for _, ref := range *f.orig.Referrers() {
			if st, ok := ref.(*ssa.Store); ok && st.Val == f.orig {
				if a, ok := st.Addr.(*ssa.Alloc); ok && st.Block() == fn.Blocks[0] {
					f.spill[a] = true
				}
			}
		}
		f.collect()
		c.p.eachInstr(fn, func(in ssa.Instruction) {
			ret, ok := in.(*ssa.Return)
			if !ok {
				return
			}
			v := ret.Results[0]
			if m, ok := v.(*ssa.MakeInterface); ok {
				v = m.X
			}
			if q := f.path(v); q == "" && !f.spilled(v) || isNilConst(v) || zeroConst(v) {
				return
			}
			if q := f.path(v); q != unknownPath && q != "" {
				c.r.find("complete", fname(fn)+" returns "+show(q), c.p.pos(in.Pos()), "%s returns a copy of %s", fname(fn), show(q))
				return
			}
			pl, ok := f.place(v)
			if !ok {
				c.r.count("copies not followed", 1)
				return
			}
			class := f.canon(pl)
			if f.spilled(v) {
				f.parts[class] = append(f.parts[class], contrib{kind: "whole", val: f.orig, in: fn.Blocks[0].Instrs[0]})
			}
			f.judge(class, "", fn.Signature.Results().At(0).Type(), fn.Pos(), ret, 0)
		})
	}
}

// spilled: the value is the variable holding the original, modified.
func (f *copyFn) spilled(v ssa.Value) bool {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		v = u.X
	}
	a, ok := v.(*ssa.Alloc)
	return ok && f.spill[a]
}
