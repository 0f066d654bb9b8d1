package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Searches by bisection.

func init() {
	register("C22", "The searches by bisection are recognised from the shape of their loops: their bounds, how they move, and the order of the tables they look into.", runC22)
}

// search by bisection of a table.
type search struct {
	l        *loop
	lo, hi   *ssa.Phi
	op       token.Token // between lo and hi, while the search goes on
	isMiddle func(v ssa.Value) bool
}

func half(v ssa.Value) ssa.Value {
	b, ok := v.(*ssa.BinOp)
	if !ok {
		return nil
	}
	n, ok := intOf(b.Y)
	if ok && (b.Op == token.QUO && n == 2 || b.Op == token.SHR && n == 1) {
		return plain(b.X)
	}
	return nil
}

func intOf(v ssa.Value) (int64, bool) {
	k, ok := plain(v).(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(k.Value)
}

// middleOf: v is the middle of lo and hi.
func middleOf(v, lo, hi ssa.Value) bool {
	v = plain(v)
	if s, ok := half(v).(*ssa.BinOp); ok && s.Op == token.ADD {
		x, y := plain(s.X), plain(s.Y)
		return x == lo && y == hi || x == hi && y == lo
	}
	if s, ok := v.(*ssa.BinOp); ok && s.Op == token.ADD {
		x, y := plain(s.X), plain(s.Y)
		if y == lo {
			x, y = y, x
		}
		if d, ok := half(y).(*ssa.BinOp); ok && x == lo && d.Op == token.SUB {
			return plain(d.X) == hi && plain(d.Y) == lo
		}
	}
	return false
}

// searches lists the bisections of a function.
func (p *Program) searches(fn *ssa.Function) []search {
	var out []search
	for _, l := range p.loops(fn) {
		var phis []*ssa.Phi
		for _, in := range l.header.Instrs {
			if phi, ok := in.(*ssa.Phi); ok && isIntType(phi.Type()) {
				phis = append(phis, phi)
			}
		}
		for _, lo := range phis {
			for _, hi := range phis {
				if lo == hi {
					continue
				}
				op, ok := l.stays(lo, hi)
				if !ok {
					continue
				}
				mid := func(v ssa.Value) bool { return middleOf(v, lo, hi) }
				is := false
				for b := range l.body {
					for _, in := range b.Instrs {
						if v, ok := in.(ssa.Value); ok && mid(v) {
							is = true
						}
					}
				}
				if !is {
					continue
				}
				// the one which moves up is the lower bound
				up, down := false, false
				for i, pr := range l.header.Preds {
					if l.body[pr] {
						if e, d, ok := offset(lo.Edges[i]); ok && mid(e) {
							up = up || d >= 0
						}
						if e, d, ok := offset(hi.Edges[i]); ok && mid(e) {
							down = down || d <= 0
						}
					}
				}
				if up && down {
					out = append(out, search{l, lo, hi, op, mid})
				}
			}
		}
	}
	return out
}

// stays: the comparison of lo and hi under which the loop goes on.
func (l *loop) stays(lo, hi ssa.Value) (token.Token, bool) {
	iff, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok {
		return 0, false
	}
	v, neg := iff.Cond, false
	for {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		v, neg = u.X, !neg
	}
	cmp, ok := v.(*ssa.BinOp)
	if !ok {
		return 0, false
	}
	op := cmp.Op
	x, y := plain(cmp.X), plain(cmp.Y)
	if x == hi && y == lo {
		op = flipped[op]
	} else if x != lo || y != hi {
		return 0, false
	}
	if l.body[l.header.Succs[0]] == l.body[l.header.Succs[1]] {
		return 0, false
	}
	if neg == l.body[l.header.Succs[0]] {
		op = opposite[op]
	}
	return op, op == token.LSS || op == token.LEQ || op == token.NEQ
}

var flipped = map[token.Token]token.Token{token.GTR: token.LSS, token.GEQ: token.LEQ, token.LSS: token.GTR, token.LEQ: token.GEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}
var opposite = map[token.Token]token.Token{token.GTR: token.LEQ, token.GEQ: token.LSS, token.LSS: token.GEQ, token.LEQ: token.GTR, token.EQL: token.NEQ, token.NEQ: token.EQL}

// offset splits a value in a base and a constant.
func offset(v ssa.Value) (ssa.Value, int64, bool) {
	v = plain(v)
	b, ok := v.(*ssa.BinOp)
	if !ok {
		return v, 0, true
	}
	if n, ok := intOf(b.Y); ok && (b.Op == token.ADD || b.Op == token.SUB) {
		if b.Op == token.SUB {
			n = -n
		}
		return plain(b.X), n, true
	}
	if n, ok := intOf(b.X); ok && b.Op == token.ADD {
		return plain(b.Y), n, true
	}
	return v, 0, true
}

// tableOf the search: what is indexed by the middle, as the length of which the bounds can be read.
func (s search) tableOf() (tables []ssa.Value, elems []ssa.Value) {
	seen := map[ssa.Value]bool{}
	for b := range s.l.body {
		for _, in := range b.Instrs {
			var x, i ssa.Value
			switch in := in.(type) {
			case *ssa.IndexAddr:
				x, i = in.X, in.Index
			case *ssa.Index:
				x, i = in.X, in.Index
			case *ssa.Lookup:
				x, i = in.X, in.Index
			default:
				continue
			}
			if s.isMiddle(plain(i)) {
				elems = append(elems, in.(ssa.Value))
				if !seen[rootVar(x)] {
					seen[rootVar(x)] = true
					tables = append(tables, rootVar(x))
				}
			}
		}
	}
	return
}

// root of a table: the variable it is read from.
func rootVar(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.UnOp:
			if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
				return g
			}
			return v
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

// lengthOf: v is the length of the table plus a constant.
func (c *searches) lengthOf(v, table ssa.Value) (int64, bool) {
	base, d, _ := offset(v)
	if call, ok := base.(*ssa.Call); ok {
		if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && sameTable(call.Call.Args[0], table) {
			return d, true
		}
		return 0, false
	}
	if k, ok := intOf(v); ok {
		if n := c.lenOf(table); n >= 0 {
			return k - n, true
		}
	}
	return 0, false
}

func sameTable(a, b ssa.Value) bool {
	a, b = rootVar(a), rootVar(b)
	if a == b {
		return true
	}
	return term(a) != "" && term(a) == term(b)
}

// lenOf a table which is an array, or a variable never changed.
func (c *searches) lenOf(table ssa.Value) int64 {
	t := table.Type().Underlying()
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem().Underlying()
	}
	if a, ok := t.(*types.Array); ok {
		return a.Len()
	}
	if l := c.global(table); l != nil {
		return int64(len(l.Vals))
	}
	return -1
}

func (c *searches) global(table ssa.Value) *lit {
	if g, ok := table.(*ssa.Global); ok && g.Object() != nil {
		return c.t.global(g.Object())
	}
	return nil
}

type searches struct {
	p *Program
	r *Report
	t *tables
}

func runC22(p *Program, r *Report) {
	r.rule("bounds: a bisection begins with the whole table, neither stopping before its end nor looking after it")
	r.rule("moves: the bounds go just past the element looked at, or on it when the bound is excluded; the lower bound goes up when the element is before the one looked for")
	r.rule("order: a constant table searched by bisection, or by a scan which stops at the first greater element, is sorted by the field compared")
	c := &searches{p, r, p.tables()}
	for _, fn := range p.Funcs {
		if fn.Synthetic != "" || len(fn.Blocks) == 0 || fn.Pkg == nil {
			continue
		}
		for _, s := range p.searches(fn) {
			c.check(fn, s)
		}
		c.scans(fn)
	}
	r.need("bisections", r.Counts["bisections"], 3)
}

func (c *searches) check(fn *ssa.Function, s search) {
	c.r.count("bisections", 1)
	c.r.sample("%s", fname(fn))
	pos := c.p.pos(s.l.pos())
	name := fname(fn)
	tables, elems := s.tableOf()
	entry := func(phi *ssa.Phi) []ssa.Value {
		var out []ssa.Value
		for i, pr := range s.l.header.Preds {
			if !s.l.body[pr] {
				out = append(out, phi.Edges[i])
			}
		}
		return out
	}
	// is the upper bound excluded?
	excluded := s.op == token.LSS || s.op == token.NEQ
	known := false
	whole := map[ssa.Value]bool{}
	for _, t := range tables {
		for _, v := range entry(s.hi) {
			d, ok := c.lengthOf(v, t)
			if !ok {
				continue
			}
			known, whole[t] = true, true
			c.r.count("bounds", 1)
			switch {
			case d > 0 || d == 0 && s.op == token.LEQ:
				c.r.find("bounds", name+"/high", pos, "the bisection of %s begins %d after the last element: it looks outside of the table", name, d+1)
			case d < -1 || d == -1 && excluded && !c.looksAfter(s, t):
				c.r.find("bounds", name+"/high", pos, "the bisection of %s leaves out the last elements of the table: they are never found", name)
			}
			if d == -1 {
				excluded = false
			}
		}
		for _, v := range entry(s.lo) {
			if n, ok := intOf(v); ok && known {
				c.r.count("bounds", 1)
				if n > 0 {
					c.r.find("bounds", name+"/low", pos, "the bisection of %s begins at %d: the first elements of the table are never found", name, n)
				}
				if n < 0 && s.op == token.LEQ {
					c.r.find("bounds", name+"/low", pos, "the bisection of %s begins at %d, before the first element", name, n)
				}
			}
		}
	}
	for i, pr := range s.l.header.Preds {
		if !s.l.body[pr] {
			continue
		}
		if e, d, ok := offset(s.lo.Edges[i]); ok && s.isMiddle(e) {
			c.r.count("moves", 1)
			if d > 1 {
				c.r.find("moves", name+"/up", pos, "the bisection of %s moves %d past the middle: an element is never looked at", name, d)
			}
			c.direction(fn, s, pr, i, elems, true)
		}
		if e, d, ok := offset(s.hi.Edges[i]); ok && s.isMiddle(e) {
			c.r.count("moves", 1)
			if d < -1 || d == -1 && excluded && known {
				why := ""
				if excluded && known {
					why = ", where its upper bound is excluded"
				}
				c.r.find("moves", name+"/down", pos, "the bisection of %s moves %d before the middle%s: an element is never looked at", name, -d, why)
			}
			c.direction(fn, s, pr, i, elems, false)
		}
	}
	for _, t := range tables {
		if l := c.global(t); l != nil && whole[t] {
			for _, e := range elems {
				c.ordered(fn, t, l, e, s.l)
			}
		}
	}
}

// looksAfter: the table is read after the loop.
func (c *searches) looksAfter(s search, table ssa.Value) bool {
	for _, b := range s.l.fn.Blocks {
		if s.l.body[b] || !s.l.header.Dominates(b) {
			continue
		}
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok {
				continue
			}
			switch in := in.(type) {
			case *ssa.IndexAddr:
				ok = sameTable(in.X, table)
			case *ssa.Index:
				ok = sameTable(in.X, table)
			default:
				ok = false
			}
			if ok && tested(v) {
				return true
			}
		}
	}
	return false
}

// tested for something else than an order.
func tested(elem ssa.Value) bool {
	for _, ref := range realRefs(elem) {
		switch x := ref.(type) {
		case *ssa.BinOp:
			if x.Op == token.EQL || x.Op == token.NEQ {
				return true
			}
		case ssa.Value:
			if _, isCall := x.(*ssa.Call); isCall || tested(x) {
				return true
			}
		default:
			return true
		}
	}
	return false
}

// readFrom: v is read in the element, by the given fields and indices.
func readFrom(v ssa.Value, elems []ssa.Value) (elem ssa.Value, path []int, ok bool) {
	for n := 0; n < 20; n++ {
		v = plain(v)
		for _, e := range elems {
			if v == e {
				return e, path, true
			}
		}
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return nil, nil, false
			}
			v = x.X
		case *ssa.FieldAddr:
			path = append([]int{x.Field}, path...)
			v = x.X
		case *ssa.Field:
			path = append([]int{x.Field}, path...)
			v = x.X
		case *ssa.IndexAddr:
			n, isC := intOf(x.Index)
			if !isC {
				return nil, nil, false
			}
			path = append([]int{int(n)}, path...)
			v = x.X
		case *ssa.Index:
			n, isC := intOf(x.Index)
			if !isC {
				return nil, nil, false
			}
			path = append([]int{int(n)}, path...)
			v = x.X
		default:
			return nil, nil, false
		}
	}
	return nil, nil, false
}

// against: the comparison says elem OP key under the given truth.
func against(v ssa.Value, truth bool, elems []ssa.Value) (token.Token, []int, bool) {
	for {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		v, truth = u.X, !truth
	}
	b, ok := v.(*ssa.BinOp)
	if !ok || flipped[b.Op] == 0 {
		return 0, nil, false
	}
	op := b.Op
	if !truth {
		op = opposite[op]
	}
	if _, path, ok := readFrom(b.X, elems); ok {
		if _, _, both := readFrom(b.Y, elems); both {
			return 0, nil, false
		}
		return op, path, true
	}
	if _, path, ok := readFrom(b.Y, elems); ok {
		return flipped[op], path, true
	}
	return 0, nil, false
}

// direction of the move on the edge from pr: what is known of the element looked at.
func (c *searches) direction(fn *ssa.Function, s search, pr *ssa.BasicBlock, i int, elems []ssa.Value, up bool) {
	conds := blockConds(pr)
	for k, su := range pr.Succs {
		if su == s.l.header {
			if cd, tr := edgeCond(pr, k); cd != nil {
				conds = append([]cond{{cd, tr}}, conds...)
			}
		}
	}
	for _, cd := range conds {
		in, ok := cd.v.(ssa.Instruction)
		if ok && !s.l.body[in.Block()] {
			break
		}
		op, _, ok := against(cd.v, cd.truth, elems)
		if !ok || op == token.EQL || op == token.NEQ {
			continue
		}
		c.r.count("directions", 1)
		if up && (op == token.GTR || op == token.GEQ) || !up && (op == token.LSS || op == token.LEQ) {
			// several fields may be compared: the last comparison counts
			c.r.find("moves", fname(fn)+"/direction", c.p.pos(s.l.pos()), "the bisection of %s goes %s when the element looked at is %s the one looked for", fname(fn), map[bool]string{true: "up", false: "down"}[up], map[bool]string{true: "after", false: "before"}[up])
		}
		return
	}
}

// ordered: the rows of the constant table are sorted by what is compared.
func (c *searches) ordered(fn *ssa.Function, table ssa.Value, l *lit, elem ssa.Value, lp *loop) {
	paths := map[string][]int{}
	for b := range lp.body {
		for _, in := range b.Instrs {
			if v, ok := in.(*ssa.BinOp); ok {
				if op, path, ok := against(v, true, []ssa.Value{elem}); ok && op != token.EQL && op != token.NEQ {
					paths[fmt.Sprint(path)] = path
				}
			}
		}
	}
	for _, k := range sortedKeys(paths) {
		c.sorted(fn, table, l, paths[k])
	}
}

func (c *searches) sorted(fn *ssa.Function, table ssa.Value, l *lit, path []int) {
	var last *lit
	c.r.count("sorted tables", 1)
	for i, e := range l.Vals {
		for _, k := range path {
			switch {
			case e == nil:
			case e.Fields != nil && k < len(e.Fields):
				e = e.Fields[k]
			case e.Vals != nil && k < len(e.Vals):
				e = e.Vals[k]
			default:
				e = nil
			}
		}
		if e == nil || e.C == nil {
			return
		}
		c.r.count("elements", 1)
		if last != nil && !constant.Compare(last.C, token.LEQ, e.C) {
			where := c.p.pos(table.(*ssa.Global).Pos())
			if e.Node != nil {
				where = c.p.pos(e.Node.Pos())
			}
			c.r.find("order", fmt.Sprintf("%s/%d", table.Name(), i), where, "%s, searched by %s, is not sorted: %s comes after %s", table.Name(), fname(fn), e, last)
		}
		last = e
	}
}

// scans: a loop over a constant table which ends when the element is greater than what is looked for.
func (c *searches) scans(fn *ssa.Function) {
	for _, l := range c.p.loops(fn) {
		for b := range l.body {
			for _, in := range b.Instrs {
				ia, ok := in.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				if phi, isPhi := offsetBase(ia.Index).(*ssa.Phi); !isPhi || phi.Block() != l.header || !fromStart(phi, l) {
					continue
				}
				g, ok := rootVar(ia.X).(*ssa.Global)
				if !ok {
					continue
				}
				tl := c.global(g)
				if tl == nil || len(tl.Vals) < 3 {
					continue
				}
				elems := []ssa.Value{ia}
				// a copy of the element
				for _, ref := range realRefs(ia) {
					if u, ok := ref.(*ssa.UnOp); ok && u.Op == token.MUL {
						for _, r2 := range realRefs(u) {
							if st, ok := r2.(*ssa.Store); ok {
								if a, ok := st.Addr.(*ssa.Alloc); ok {
									elems = append(elems, a)
								}
							}
						}
					}
				}
				for x := range l.body {
					iff, ok := x.Instrs[len(x.Instrs)-1].(*ssa.If)
					if !ok {
						continue
					}
					for k, su := range x.Succs {
						if l.body[su] {
							continue
						}
						op, path, ok := against(iff.Cond, k == 0, elems)
						if ok && (op == token.GTR || op == token.GEQ) && c.givesUp(su) {
							c.r.count("scans which stop", 1)
							c.sorted(fn, g, tl, path)
						}
					}
				}
			}
		}
	}
}

// fromStart: the counter of the loop begins with the first element.
func fromStart(phi *ssa.Phi, l *loop) bool {
	for i, pr := range l.header.Preds {
		if !l.body[pr] {
			if n, ok := intOf(phi.Edges[i]); !ok || n > 0 {
				return false
			}
		}
	}
	return true
}

func offsetBase(v ssa.Value) ssa.Value {
	b, _, _ := offset(v)
	return b
}

// givesUp: the block returns constants.
func (c *searches) givesUp(b *ssa.BasicBlock) bool {
	ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
	if !ok {
		return false
	}
	for _, v := range ret.Results {
		if _, ok := v.(*ssa.Const); !ok {
			return false
		}
	}
	return true
}
