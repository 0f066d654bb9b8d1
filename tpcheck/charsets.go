package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C26", "character sets keep each character under its own bit, and combine pages by the operation of their name", runC26)
}

type charsets struct {
	p    *Program
	r    *Report
	done map[string]bool
}

// bits evaluates integer expressions of one function, with its parameters and the words of pages known.
type bitEval struct {
	env   map[ssa.Value]int64
	word  func(addr ssa.Value, e *bitEval) (int64, bool) // the word read
	entry *int64                                         // the entry read from a table
	depth int
}

func (e *bitEval) int(v ssa.Value) (int64, bool) { return number(v, e.env, e.leaf, 0) }

func mask32(n int64, t types.Type) int64 {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Uint8:
			return int64(uint8(n))
		case types.Uint16:
			return int64(uint16(n))
		case types.Uint32:
			return int64(uint32(n))
		case types.Int32:
			return int64(int32(n))
		}
	}
	return n
}

func (e *bitEval) leaf(v ssa.Value) (int64, bool) {
	switch x := v.(type) {
	case *ssa.UnOp:
		switch x.Op {
		case token.XOR, token.SUB:
			n, ok := e.int(x.X)
			if x.Op == token.XOR {
				return mask32(^n, x.Type()), ok
			}
			return mask32(-n, x.Type()), ok
		case token.MUL:
			if isWord(x.Type()) && e.word != nil {
				return e.word(x.X, e)
			}
			if ia, ok := x.X.(*ssa.IndexAddr); ok && e.entry != nil {
				if _, global := addrRoot(ia.X).(*ssa.Global); global {
					return *e.entry, true
				}
			}
		}
	case *ssa.Index:
		if isWord(x.Type()) && e.word != nil {
			return e.word(x, e)
		}
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			ret, in := e.enter(call)
			if ret != nil {
				return in.int(ret.Results[x.Index])
			}
		}
	case *ssa.Call:
		if ret, in := e.enter(x); ret != nil && len(ret.Results) == 1 {
			return in.int(ret.Results[0])
		}
	}
	return 0, false
}

// enter evaluates a function with a single way through.
func (e *bitEval) enter(call *ssa.Call) (*ssa.Return, *bitEval) {
	f := call.Call.StaticCallee()
	if f == nil || !inModule(f) || len(f.Blocks) != 1 || e.depth > 4 {
		return nil, nil
	}
	ret, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return)
	if !ok {
		return nil, nil
	}
	return ret, e.given(call, f)
}

func (e *bitEval) given(call *ssa.Call, f *ssa.Function) *bitEval {
	in := &bitEval{env: map[ssa.Value]int64{}, word: e.word, entry: e.entry, depth: e.depth + 1}
	for i, a := range call.Call.Args {
		if i < len(f.Params) {
			if n, ok := e.int(a); ok {
				in.env[f.Params[i]] = n
			}
		}
	}
	return in
}

// truth of a condition.
func (e *bitEval) truth(v ssa.Value) (is, ok bool) {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Bool {
			return constant.BoolVal(x.Value), true
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			is, ok = e.truth(x.X)
			return !is, ok
		}
	case *ssa.BinOp:
		a, ok1 := e.int(x.X)
		b, ok2 := e.int(x.Y)
		if !ok1 || !ok2 {
			return false, false
		}
		switch x.Op {
		case token.EQL:
			return a == b, true
		case token.NEQ:
			return a != b, true
		case token.GTR:
			return a > b, true
		case token.LSS:
			return a < b, true
		case token.GEQ:
			return a >= b, true
		case token.LEQ:
			return a <= b, true
		}
	case *ssa.Call:
		if ret, in := e.enter(x); ret != nil && len(ret.Results) == 1 {
			return in.truth(ret.Results[0])
		}
	}
	return false, false
}

// reaches evaluates the conditions under which a block is executed; that something exists is supposed.
func (e *bitEval) reaches(b *ssa.BasicBlock) (yes, known bool) {
	known = true
	for d := b.Idom(); d != nil; d = d.Idom() {
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || d.Succs[0] == d.Succs[1] {
			continue
		}
		if cmp, ok := iff.Cond.(*ssa.BinOp); ok && (isNilConst(cmp.X) || isNilConst(cmp.Y)) {
			continue
		}
		on := func(s *ssa.BasicBlock) bool { return len(s.Preds) == 1 && s.Dominates(b) }
		if !on(d.Succs[0]) && !on(d.Succs[1]) {
			continue
		}
		is, ok := e.truth(iff.Cond)
		if !ok {
			known = false
		} else if is != on(d.Succs[0]) {
			return false, true
		}
	}
	return true, known
}

func isWord(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint32
}

// page is the type of the pages of 256 bits.
func isPage(t types.Type) bool {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	a, ok := t.Underlying().(*types.Array)
	return ok && a.Len() == 8 && isWord(a.Elem())
}

func (c *charsets) alarm(rule string, fn *ssa.Function, pos token.Pos, format string, args ...interface{}) {
	key := rule + fname(fn) + format
	if c.done[key] {
		return
	}
	c.done[key] = true
	if !pos.IsValid() {
		pos = fn.Pos()
	}
	c.r.find(rule, fname(fn), c.p.pos(pos), format, args...)
}

func runC26(p *Program, r *Report) {
	c := &charsets{p, r, map[string]bool{}}
	r.rule("address: adding, removing and looking up a character use the page of its second and third bytes, the word and the bit of its last byte, and no other bit")
	r.rule("pages: union, difference, inclusion and the count of differences combine the words of two pages by the operation of their name, and the number of characters counts every bit")
	for _, name := range []string{"AddChar", "DelChar", "HasChar", "Len"} {
		fn := p.lookupFunc("fontconfig", "Charset."+name)
		if fn == nil {
			panic("Charset." + name + " not found")
		}
		if name == "Len" {
			c.counts(fn, "len")
			continue
		}
		decided := false
		for _, high := range []int64{0, 1, 2, 0x3f, 0x80, 0xff, 0x100, 0x1f6, 0xfff, 0x10ff} {
			for low := int64(0); low < 256; low++ {
				ch := high<<8 | low
				e := &bitEval{env: map[ssa.Value]int64{}}
				for _, prm := range fn.Params {
					if b, ok := prm.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
						e.env[prm] = ch
					}
				}
				if c.address(fn, name, ch, e) {
					decided = true
					r.count("characters evaluated", 1)
				}
			}
		}
		r.count("operations on a character", 1)
		if !decided {
			r.count("undecided", 1)
		}
		r.sample("Charset.%s", name)
	}
	for _, fn := range p.Funcs {
		if fn.Pkg == nil || p.pkg("fontconfig").Types != fn.Pkg.Pkg {
			continue
		}
		c.language(fn)
		name := strings.ToLower(fn.Name())
		switch {
		case strings.Contains(name, "subset"):
			c.inclusion(fn)
		case strings.Contains(name, "subtract"):
			c.combine(fn, "difference", func(x, y int64) int64 { return x &^ y })
			c.counts(fn, "difference")
			c.nonEmpty(fn)
		case strings.Contains(name, "union"):
			c.combine(fn, "union", func(x, y int64) int64 { return x | y })
		}
	}
}

// language: an operation on one language of a set sets, clears or reads one bit.
func (c *charsets) language(fn *ssa.Function) {
	if len(fn.Params) != 2 {
		return
	}
	t := fn.Params[0].Type()
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, ok := t.(*types.Named)
	if b, isBasic := fn.Params[1].Type().Underlying().(*types.Basic); !ok || n.Obj().Name() != "Langset" || !isBasic || b.Info()&types.IsInteger == 0 {
		return
	}
	samples := []int64{0, 0xffffffff, 0x55555555, 0xaaaaaaaa, 0x12345678}
	for _, index := range []int64{0, 1, 31, 32, 100, 252} {
		index := index
		var word int64
		e := &bitEval{env: map[ssa.Value]int64{fn.Params[1]: index}, entry: &index, word: func(ssa.Value, *bitEval) (int64, bool) { return word, true }}
		for _, st := range c.wordStores(fn) {
			always := true
			for _, word = range samples {
				reached, known := e.reaches(st.Block())
				always = always && reached && known
			}
			if !always {
				continue
			}
			at := func(w int64) (int64, bool) { word = w; return e.int(st.Val) }
			set, ok1 := at(0)
			kept, ok2 := at(0xffffffff)
			if !ok1 || !ok2 {
				continue
			}
			c.r.count("languages evaluated", 1)
			cleared := 0xffffffff &^ kept
			good := set == 0 && power(cleared) || cleared == 0 && power(set)
			for _, w := range samples {
				if v, ok := at(w); ok && v != w&^cleared|set {
					good = false
				}
			}
			if !good {
				c.alarm("address", fn, st.Pos(), "%s", "the operation on a language does not set, nor clear, exactly its bit")
			}
		}
		if fn.Signature.Results().Len() != 1 || len(fn.Blocks) != 1 {
			continue
		}
		ret, ok := fn.Blocks[0].Instrs[len(fn.Blocks[0].Instrs)-1].(*ssa.Return)
		if !ok || len(ret.Results) != 1 {
			continue
		}
		yes, decided := 0, true
		for k := 0; k < 32; k++ {
			word = 1 << uint(k)
			is, ok := e.truth(ret.Results[0])
			decided = decided && ok
			if is {
				yes++
			}
		}
		if decided {
			c.r.count("languages evaluated", 1)
			if yes != 1 {
				c.alarm("address", fn, ret.Pos(), "the look up of a language tests %d bits", yes)
			}
		}
	}
}

func power(n int64) bool { return n > 0 && n&(n-1) == 0 }

// address evaluates the accesses of an operation to the pages, for one character.
func (c *charsets) address(fn *ssa.Function, op string, ch int64, e *bitEval) bool {
	decided := false
	wantWord, bit := (ch&0xff)>>5, int64(1)<<uint(ch&31)
	var at func(addr ssa.Value, e *bitEval) (int64, bool)
	at = func(addr ssa.Value, e *bitEval) (int64, bool) {
		switch a := addr.(type) {
		case *ssa.IndexAddr:
			return e.int(a.Index)
		case *ssa.Index:
			return e.int(a.Index)
		case *ssa.Call:
			if ret, in := e.enter(a); ret != nil && len(ret.Results) == 1 {
				return at(ret.Results[0], in)
			}
		}
		return 0, false
	}
	var word int64
	read := func(fn *ssa.Function, pos token.Pos) func(addr ssa.Value, e *bitEval) (int64, bool) {
		return func(addr ssa.Value, e *bitEval) (int64, bool) {
			if i, ok := at(addr, e); ok && i != wantWord {
				c.alarm("address", fn, pos, "%s reads the word %d of the page of the character U+%04X, not the word %d", op, i, ch, wantWord)
			}
			return word, true
		}
	}
	var bools func(v ssa.Value, seen map[ssa.Value]bool, use func(v ssa.Value))
	bools = func(v ssa.Value, seen map[ssa.Value]bool, use func(v ssa.Value)) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, q := range x.Edges {
				bools(q, seen, use)
			}
		case *ssa.Const:
		default:
			use(v)
		}
	}
	words := []int64{0, 1, bit, 0xffffffff, 0xffffffff &^ bit, 0x55555555, 0xaaaaaaaa, 0x80000000}
	var visit func(f *ssa.Function, e *bitEval)
	visit = func(f *ssa.Function, e *bitEval) {
		c.p.eachInstr(f, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.Store:
				if !isWord(x.Val.Type()) {
					return
				}
				i, ok := at(x.Addr, e)
				if !ok || len(c.wordStores(f)) == 0 {
					return
				}
				decided = true
				if i != wantWord {
					c.alarm("address", f, x.Pos(), "%s changes the word %d of the page of the character U+%04X, not the word %d", op, i, ch, wantWord)
				}
				e.word = read(f, x.Pos())
				for _, w := range words {
					word = w
					done := (op == "AddChar") == (w&bit != 0)
					if reached, known := e.reaches(x.Block()); known && !reached || !known && done {
						continue // the word is not assigned, or may not be as nothing changes
					}
					want := w | bit
					if op == "DelChar" {
						want = w &^ bit
					}
					if got, ok := e.int(x.Val); ok && got != want {
						c.alarm("address", f, x.Pos(), "%s of the character U+%04X gives %08x for the word %08x, not %08x", op, ch, got, w, want)
					}
				}
			case *ssa.Return:
				if op != "HasChar" || len(x.Results) != 1 {
					return
				}
				bools(x.Results[0], map[ssa.Value]bool{}, func(v ssa.Value) {
					e.word = read(f, x.Pos())
					for _, w := range words {
						word = w
						is, ok := e.truth(v)
						if ok {
							decided = true
						}
						if ok && is != (w&bit != 0) {
							c.alarm("address", f, x.Pos(), "%s is %v for the character U+%04X and the word %08x", op, is, ch, w)
						}
					}
				})
			case *ssa.Call:
				g := x.Call.StaticCallee()
				if g == nil || !inModule(g) || e.depth > 3 {
					return
				}
				deeper := false
				for i, a := range x.Call.Args {
					if i >= len(g.Params) {
						break
					}
					b, ok := g.Params[i].Type().Underlying().(*types.Basic)
					if !ok {
						continue
					}
					n, known := e.int(a)
					switch {
					case b.Kind() == types.Uint16 && known:
						decided = true
						if n != ch>>8 {
							c.alarm("address", f, x.Pos(), "%s looks for the character U+%04X in the page %#x", op, ch, n)
						}
					case b.Kind() == types.Int32 && known:
						deeper = true
					}
				}
				if deeper {
					visit(g, e.given(x, g))
				}
			}
		})
	}
	visit(fn, e)
	return decided
}

// owners are the parameters a word is read from.
func owners(v ssa.Value) map[*ssa.Parameter]bool {
	out, seen := map[*ssa.Parameter]bool{}, map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Parameter:
			out[x] = true
		case *ssa.Alloc:
			for _, u := range realRefs(x) {
				if st, ok := u.(*ssa.Store); ok && st.Addr == v {
					walk(st.Val)
				}
			}
		case *ssa.FieldAddr:
			walk(x.X)
		case *ssa.IndexAddr:
			walk(x.X)
		case *ssa.Index:
			walk(x.X)
		case *ssa.Field:
			walk(x.X)
		case *ssa.Slice:
			walk(x.X)
		case *ssa.ChangeType:
			walk(x.X)
		case *ssa.UnOp:
			walk(x.X)
		case *ssa.Phi:
			for _, q := range x.Edges {
				walk(q)
			}
		case *ssa.Extract:
			walk(x.Tuple)
		case *ssa.Call:
			for _, a := range x.Call.Args {
				walk(a)
			}
		}
	}
	walk(v)
	return out
}

// operands are the two parameters a function of two sets, or pages, combines.
func operands(fn *ssa.Function) []*ssa.Parameter {
	var out []*ssa.Parameter
	for i, prm := range fn.Params {
		t := prm.Type()
		if _, ptr := t.Underlying().(*types.Pointer); ptr && i == 0 && len(fn.Params) > 2 && isPage(t) {
			continue // the result
		}
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
		n, named := t.(*types.Named)
		if isPage(t) || named && n.Obj().Name() == "Charset" {
			out = append(out, prm)
		}
	}
	if len(out) != 2 {
		return nil
	}
	return out
}

var wordPairs = [][2]int64{{0, 0}, {0, 0xffffffff}, {0xffffffff, 0}, {0xffffffff, 0xffffffff}, {0xff00ff00, 0x0ff00ff0}, {1, 0x80000000}, {0x80000000, 1}, {0x80000001, 0x80000000}, {0x12345678, 0x9abcdef0}}

// combined evaluates an expression of the words of two operands: which of them it reads.
func combined(ops []*ssa.Parameter, v ssa.Value, x, y int64) (n int64, a, b, ok bool) {
	ok = true
	e := &bitEval{env: map[ssa.Value]int64{}}
	e.word = func(addr ssa.Value, in *bitEval) (int64, bool) {
		if in.depth > 0 {
			return 0, false
		}
		os := owners(addr)
		if len(os) == 1 && os[ops[0]] {
			a = true
			return x, true
		}
		if len(os) == 1 && os[ops[1]] {
			b = true
			return y, true
		}
		return 0, false
	}
	n, ok = e.int(v)
	return
}

// fixedWord: one of the words is always the same one of its page, while the other is not.
func fixedWord(v ssa.Value) bool {
	var consts, others int
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		note := func(i ssa.Value) {
			if _, k := i.(*ssa.Const); k {
				consts++
			} else {
				others++
			}
		}
		switch x := v.(type) {
		case *ssa.BinOp:
			walk(x.X)
			walk(x.Y)
		case *ssa.UnOp:
			if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL {
				note(ia.Index)
				return
			}
			walk(x.X)
		case *ssa.Index:
			note(x.Index)
		}
	}
	walk(v)
	return consts > 0 && others > 0
}

func (c *charsets) combine(fn *ssa.Function, what string, want func(x, y int64) int64) {
	ops := operands(fn)
	if ops == nil {
		return
	}
	for _, st := range c.wordStores(fn) {
		c.r.count("words combined", 1)
		for _, q := range wordPairs {
			if n, _, _, ok := combined(ops, st.Val, q[0], q[1]); ok && n != want(q[0], q[1]) {
				c.alarm("pages", fn, st.Pos(), "the %s of the words %08x and %08x is %08x, not %08x", what, q[0], q[1], n, want(q[0], q[1]))
			}
		}
		if fixedWord(st.Val) {
			c.alarm("pages", fn, st.Pos(), "the %s reads always the same word of a page", what)
		}
	}
}

// wordStores is the assignment of the words of a page: nothing if there are several.
func (c *charsets) wordStores(fn *ssa.Function) (out []*ssa.Store) {
	c.p.eachInstr(fn, func(in ssa.Instruction) {
		if st, ok := in.(*ssa.Store); ok && isWord(st.Val.Type()) {
			if _, local := addrRoot(st.Addr).(*ssa.Alloc); !local {
				out = append(out, st)
			}
		}
	})
	if len(out) != 1 {
		return nil
	}
	return out
}

// inclusion: the words are compared by a condition which tells whether the first has a bit out of the second.
func (c *charsets) inclusion(fn *ssa.Function) {
	ops := operands(fn)
	if ops == nil {
		return
	}
	exact, unknown := 0, 0
	var other *ssa.BinOp
	c.p.eachInstr(fn, func(in ssa.Instruction) {
		cmp, ok := in.(*ssa.BinOp)
		if !ok || !isWord(cmp.X.Type()) {
			return
		}
		if b, ok := cmp.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsBoolean == 0 {
			return
		}
		agrees, differs, decided, both := 0, 0, true, false
		for _, q := range wordPairs {
			m, a1, b1, ok1 := combined(ops, cmp.X, q[0], q[1])
			n, a2, b2, ok2 := combined(ops, cmp.Y, q[0], q[1])
			decided = decided && ok1 && ok2
			both = (a1 || a2) && (b1 || b2)
			e := &bitEval{env: map[ssa.Value]int64{cmp.X: m, cmp.Y: n}}
			is, ok := e.truth(cmp)
			decided = decided && ok
			if is == (q[0]&^q[1] == 0) {
				agrees++
			} else {
				differs++
			}
		}
		switch {
		case !decided || !both:
			unknown++
		case agrees == 0 || differs == 0:
			exact++
			if fixedWord(cmp.X) {
				c.alarm("pages", fn, cmp.Pos(), "the inclusion reads always the same word of a page")
			}
		default:
			if other == nil {
				other = cmp
			}
		}
	})
	c.r.count("words compared", exact)
	if other != nil && exact == 0 && unknown == 0 {
		c.alarm("pages", fn, other.Pos(), "a word of a subset is not tested for bits out of the other set")
	}
}

// counts of bits: all those of a word, or those of the first set which are not in the second.
func (c *charsets) counts(fn *ssa.Function, what string) {
	ops := operands(fn)
	var calls []*ssa.Call
	c.p.eachInstr(fn, func(in ssa.Instruction) {
		if call, ok := in.(*ssa.Call); ok {
			if f := call.Call.StaticCallee(); f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "math/bits" {
				calls = append(calls, call)
			}
		}
	})
	for _, call := range calls {
		name := call.Call.StaticCallee().Name()
		if !strings.HasPrefix(name, "OnesCount") || name == "OnesCount64" || what == "len" && len(calls) > 1 || subtracted(call, 0) {
			c.r.count("undecided", 1)
			continue
		}
		c.count(fn, call, what, ops)
	}
}

// subtracted: the number counted is part of a difference.
func subtracted(v ssa.Value, depth int) bool {
	for _, u := range realRefs(v) {
		switch u := u.(type) {
		case *ssa.BinOp:
			if u.Op != token.ADD {
				return true
			}
			if depth < 3 && subtracted(u, depth+1) {
				return true
			}
		case *ssa.Convert:
			if subtracted(u, depth) {
				return true
			}
		}
	}
	return false
}

func (c *charsets) count(fn *ssa.Function, call *ssa.Call, what string, ops []*ssa.Parameter) {
	{
		arg := call.Call.Args[0]
		if what == "len" {
			var w int64
			e := &bitEval{env: map[ssa.Value]int64{}, word: func(ssa.Value, *bitEval) (int64, bool) { return w, true }}
			for _, w = range []int64{0, 1, 0xffffffff, 0x80000000, 0x12345678} {
				if n, ok := e.int(arg); ok {
					c.r.count("words counted", 1)
					if n != w {
						c.alarm("pages", fn, call.Pos(), "the bits of %08x are counted instead of those of the word %08x", n, w)
					}
				}
			}
			return
		}
		if ops == nil {
			return
		}
		for _, q := range wordPairs {
			n, a, b, ok := combined(ops, arg, q[0], q[1])
			if !ok || !a && !b {
				return
			}
			c.r.count("words counted", 1)
			want := q[0]
			if b {
				want = q[0] &^ q[1]
			}
			if n != want {
				c.alarm("pages", fn, call.Pos(), "the bits of %08x are counted for the words %08x and %08x, not those of %08x", n, q[0], q[1], want)
			}
		}
		if fixedWord(arg) {
			c.alarm("pages", fn, call.Pos(), "the count reads always the same word of a page")
		}
	}
}

// nonEmpty: the flag which a page operation returns does not depend on the last word alone.
func (c *charsets) nonEmpty(fn *ssa.Function) {
	ops := operands(fn)
	if ops == nil || fn.Signature.Results().Len() != 1 {
		return
	}
	for _, l := range c.p.loops(fn) {
		for _, in := range l.header.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				continue
			}
			if b, ok := phi.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsBoolean == 0 {
				continue
			}
			returned := false
			for _, u := range realRefs(phi) {
				if _, ok := u.(*ssa.Return); ok {
					returned = true
				}
			}
			if !returned {
				continue
			}
			c.r.count("flags of pages", 1)
			for i, q := range l.header.Preds {
				if !l.body[q] {
					continue
				}
				// a comparison of one word, or false, replaces what the former words gave
				seen := map[ssa.Value]bool{}
				var walk func(v ssa.Value)
				walk = func(v ssa.Value) {
					if seen[v] || v == ssa.Value(phi) {
						return
					}
					seen[v] = true
					switch x := v.(type) {
					case *ssa.Phi:
						if x.Comment == "||" || x.Comment == "&&" {
							return
						}
						for _, q := range x.Edges {
							walk(q)
						}
					case *ssa.Const:
						if x.Value != nil && !constant.BoolVal(x.Value) {
							c.alarm("pages", fn, phi.Pos(), "%s", "a word forgets what the former words of the page gave")
						}
					case *ssa.BinOp:
						if isWord(x.X.Type()) {
							c.alarm("pages", fn, x.Pos(), "%s", fmt.Sprintf("only the last word of the page decides what %s returns", fname(fn)))
						}
					}
				}
				walk(phi.Edges[i])
			}
		}
	}
}
