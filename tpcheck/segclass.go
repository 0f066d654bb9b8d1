package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// The classes given to characters by text segmentation (UAX #29).

func init() {
	register("C23", "The classes text segmentation gives to characters are computed for each kind of character, by propagating sets of constants from the character, and compared with those of Unicode.", runC23)
}

// cval is a constant: of kind i (integer), b (boolean), s (string), g (content of a variable), n (nil), or p (the former value of a variable).
type cval struct {
	k byte
	n int64
	s string
}

// cset is a set of constants, or any value.
type cset struct {
	top bool
	v   map[cval]bool
}

var anyVal = cset{top: true}

func one(v cval) cset { return cset{v: map[cval]bool{v: true}} }

func (a cset) empty() bool { return !a.top && len(a.v) == 0 }

func (a cset) join(b cset) cset {
	if a.top || b.top {
		return anyVal
	}
	if len(a.v) == 0 {
		return b
	}
	out := cset{v: map[cval]bool{}}
	for x := range a.v {
		out.v[x] = true
	}
	for x := range b.v {
		out.v[x] = true
	}
	if len(out.v) > 12 {
		return anyVal
	}
	return out
}

func (a cset) same(b cset) bool { return a.top == b.top && len(a.v) == len(b.v) && a.within(b) }

func (a cset) within(b cset) bool {
	if b.top {
		return true
	}
	if a.top {
		return false
	}
	for x := range a.v {
		if !b.v[x] {
			return false
		}
	}
	return true
}

func boolVal(b bool) cval {
	if b {
		return cval{k: 'b', n: 1}
	}
	return cval{k: 'b'}
}

// segRun propagates from one character.
type segRun struct {
	c      *segClasses
	w      rune
	script int64
	gc     string // the variable of package unicode
	steps  int
	flags  map[string]cset // what is written to the flags of positions
}

type segFrame struct {
	fn    *ssa.Function
	env   map[ssa.Value]cset
	start *ssa.BasicBlock
	// values given to the variables of the header when the loop goes on
	back map[*ssa.Phi]cset
	ret  []cset
}

type segMem map[*ssa.Alloc]cset

func (m segMem) clone() segMem {
	out := segMem{}
	for k, v := range m {
		out[k] = v
	}
	return out
}

func (s *segRun) get(f *segFrame, v ssa.Value) cset {
	if x, ok := f.env[v]; ok {
		return x
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if _, basic := x.Type().Underlying().(*types.Basic); basic {
				return one(cval{k: 'i'})
			}
			return one(cval{k: 'n'})
		}
		switch x.Value.Kind() {
		case constant.Bool:
			return one(boolVal(constant.BoolVal(x.Value)))
		case constant.Int:
			if n, ok := constant.Int64Val(x.Value); ok {
				return one(cval{k: 'i', n: n})
			}
		case constant.String:
			return one(cval{k: 's', s: constant.StringVal(x.Value)})
		}
		return anyVal
	}
	return anyVal
}

// run propagates in the blocks of f from its start; entering the start again ends the propagation.
func (s *segRun) run(f *segFrame, mem segMem) segMem {
	in := map[*ssa.BasicBlock]segMem{f.start: mem}
	seenEdge := map[[2]*ssa.BasicBlock]bool{}
	out := segMem{}
	work := []*ssa.BasicBlock{f.start}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		s.steps++
		if s.steps > 40000 {
			return nil
		}
		m := in[b].clone()
		changed := false
		set := func(v ssa.Value, x cset) {
			old, ok := f.env[v]
			if ok {
				x = old.join(x)
			}
			if !ok || !old.same(x) {
				f.env[v] = x
				changed = true
			}
		}
		for _, ins := range b.Instrs {
			switch ins := ins.(type) {
			case *ssa.Phi:
				if b == f.start {
					continue
				}
				x := cset{}
				for i, p := range b.Preds {
					if seenEdge[[2]*ssa.BasicBlock{p, b}] {
						x = x.join(s.get(f, ins.Edges[i]))
					}
				}
				set(ins, x)
			case *ssa.Alloc:
				if _, ok := ins.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Basic); ok {
					m[ins] = one(cval{k: 'i'})
				}
			case *ssa.Store:
				if a, ok := s.cell(f, ins.Addr); ok {
					m[a] = s.get(f, ins.Val)
				}
			case *ssa.Call:
				set(ins, s.call(f, ins, m))
			case *ssa.Return:
				for i, r := range ins.Results {
					for len(f.ret) <= i {
						f.ret = append(f.ret, cset{})
					}
					f.ret[i] = f.ret[i].join(s.get(f, r))
				}
				for a, v := range m {
					out[a] = out[a].join(v)
				}
			case ssa.Value:
				set(ins, s.eval(f, ins, m))
			}
		}
		for i, su := range b.Succs {
			if cond, truth := edgeCond(b, i); cond != nil {
				x := s.get(f, cond)
				if !x.top && !x.v[boolVal(truth)] && !x.v[cval{k: 'p'}] {
					continue
				}
			}
			if su == f.start {
				for _, ins := range su.Instrs {
					if phi, ok := ins.(*ssa.Phi); ok {
						for k, p := range su.Preds {
							if p == b {
								f.back[phi] = f.back[phi].join(s.get(f, phi.Edges[k]))
							}
						}
					}
				}
				continue
			}
			e := [2]*ssa.BasicBlock{b, su}
			again := !seenEdge[e] || changed
			seenEdge[e] = true
			old := in[su]
			if old == nil {
				in[su], again = m.clone(), true
			} else {
				for a, v := range m {
					if j := old[a].join(v); !j.same(old[a]) {
						old[a], again = j, true
					}
				}
			}
			if again {
				dup := false
				for _, x := range work {
					dup = dup || x == su
				}
				if !dup {
					work = append(work, su)
				}
			}
		}
	}
	return out
}

// cell is the variable an address is known to be.
func (s *segRun) cell(f *segFrame, v ssa.Value) (*ssa.Alloc, bool) {
	if a, ok := v.(*ssa.Alloc); ok {
		return a, true
	}
	if p, ok := v.(*ssa.Parameter); ok {
		a, ok := s.c.bound[p]
		return a, ok
	}
	return nil, false
}

func (s *segRun) eval(f *segFrame, in ssa.Value, m segMem) cset {
	switch x := in.(type) {
	case *ssa.UnOp:
		switch x.Op {
		case token.NOT:
			a := s.get(f, x.X)
			if a.top {
				return anyVal
			}
			out := cset{v: map[cval]bool{}}
			for v := range a.v {
				if v.k != 'b' {
					return anyVal
				}
				out.v[boolVal(v.n == 0)] = true
			}
			return out
		case token.MUL:
			if g, ok := x.X.(*ssa.Global); ok {
				if s.c.constant(g) {
					return one(cval{k: 'g', s: g.Pkg.Pkg.Path() + "." + g.Name()})
				}
				return anyVal
			}
			if a, ok := s.cell(f, x.X); ok {
				if v, ok := m[a]; ok {
					return v
				}
			}
		}
	case *ssa.Convert:
		if isIntType(x.Type()) && isIntType(x.X.Type()) {
			return s.get(f, x.X)
		}
	case *ssa.ChangeType:
		return s.get(f, x.X)
	case *ssa.BinOp:
		a, b := s.get(f, x.X), s.get(f, x.Y)
		if a.top || b.top {
			return anyVal
		}
		out := cset{v: map[cval]bool{}}
		for p := range a.v {
			for q := range b.v {
				r, ok := binCval(x.Op, p, q)
				if !ok {
					return anyVal
				}
				out.v[r] = true
			}
		}
		return out
	}
	return anyVal
}

func binCval(op token.Token, a, b cval) (cval, bool) {
	if a.k == 'p' || b.k == 'p' {
		return cval{}, false
	}
	switch op {
	case token.EQL:
		return boolVal(a == b), true
	case token.NEQ:
		return boolVal(a != b), true
	}
	if a.k != 'i' || b.k != 'i' {
		return cval{}, false
	}
	switch op {
	case token.LSS:
		return boolVal(a.n < b.n), true
	case token.LEQ:
		return boolVal(a.n <= b.n), true
	case token.GTR:
		return boolVal(a.n > b.n), true
	case token.GEQ:
		return boolVal(a.n >= b.n), true
	case token.ADD:
		return cval{k: 'i', n: a.n + b.n}, true
	case token.SUB:
		return cval{k: 'i', n: a.n - b.n}, true
	case token.AND:
		return cval{k: 'i', n: a.n & b.n}, true
	case token.OR:
		return cval{k: 'i', n: a.n | b.n}, true
	case token.AND_NOT:
		return cval{k: 'i', n: a.n &^ b.n}, true
	case token.SHR:
		if b.n >= 0 && b.n < 64 {
			return cval{k: 'i', n: a.n >> uint(b.n)}, true
		}
	case token.SHL:
		if b.n >= 0 && b.n < 32 {
			return cval{k: 'i', n: a.n << uint(b.n)}, true
		}
	}
	return cval{}, false
}

func (s *segRun) call(f *segFrame, in *ssa.Call, m segMem) cset {
	fn := in.Call.StaticCallee()
	var args []cset
	for _, a := range in.Call.Args {
		args = append(args, s.get(f, a))
	}
	if n := s.c.writers[fn]; n != "" && len(args) == 2 && s.flags != nil {
		s.flags[n] = s.flags[n].join(args[1])
		return anyVal
	}
	isW := func(i int) bool { return i < len(args) && args[i].same(one(cval{k: 'i', n: int64(s.w)})) }
	if fn != nil && fn.Pkg != nil {
		switch name := fn.Pkg.Pkg.Name() + "." + fn.Name(); name {
		case "unicodedata.LookupType":
			if isW(0) {
				if s.gc == "" {
					return one(cval{k: 'n'})
				}
				return one(cval{k: 'g', s: "unicode." + s.gc})
			}
			return anyVal
		case "unicodedata.LookupLineBreakClass":
			if isW(0) {
				if n := s.c.lineBreak(fn, s.w); n != "" {
					return one(cval{k: 'g', s: n})
				}
			}
			return anyVal
		case "unicodedata.Jamo":
			if len(args) == 1 && !args[0].top && len(args[0].v) == 1 {
				for t := range args[0].v {
					k, ok := fn.Pkg.Pkg.Scope().Lookup("NO_JAMO").(*types.Const)
					if t.k != 'g' || !ok {
						return anyVal
					}
					switch t.s[strings.LastIndexByte(t.s, '.')+1:] {
					case "BreakJL", "BreakJV", "BreakJT", "BreakH2", "BreakH3":
						return anyVal
					}
					n, _ := (&lit{C: k.Val()}).i()
					return one(cval{k: 'i', n: n})
				}
			}
			return anyVal
		case "language.LookupScript":
			if isW(0) {
				return one(cval{k: 'i', n: s.script})
			}
			return anyVal
		case "unicode.Is":
			if isW(1) && len(args[0].v) == 1 {
				for t := range args[0].v {
					if is, ok := s.c.is(t.s, s.w); ok {
						return one(boolVal(is))
					}
				}
			}
			return anyVal
		}
		if inModule(fn) && len(fn.Blocks) > 0 && s.c.depth < 4 {
			// only those concerned by the character or by its class
			concerned := false
			for i, a := range in.Call.Args {
				concerned = concerned || !args[i].top
				if c, ok := s.cell(f, a); ok {
					if _, ok := m[c]; ok {
						concerned = true
					}
				}
			}
			if concerned {
				g := &segFrame{fn: fn, env: map[ssa.Value]cset{}, start: fn.Blocks[0], back: map[*ssa.Phi]cset{}}
				old := map[*ssa.Parameter]*ssa.Alloc{}
				for i, p := range fn.Params {
					if i < len(args) && !args[i].top {
						g.env[p] = args[i]
					}
					if c, ok := s.cell(f, in.Call.Args[i]); ok {
						old[p] = s.c.bound[p]
						s.c.bound[p] = c
					}
				}
				s.c.depth++
				after := s.run(g, m.clone())
				s.c.depth--
				for p, o := range old {
					if o == nil {
						delete(s.c.bound, p)
					} else {
						s.c.bound[p] = o
					}
				}
				if after != nil {
					for a := range m {
						if v, ok := after[a]; ok {
							m[a] = v
						}
					}
					if len(g.ret) == 1 {
						return g.ret[0]
					}
					return anyVal
				}
			}
		}
	}
	for _, a := range in.Call.Args {
		if c, ok := s.cell(f, a); ok {
			m[c] = anyVal
		}
	}
	return anyVal
}

type segClasses struct {
	p     *Program
	r     *Report
	t     *tables
	bound map[*ssa.Parameter]*ssa.Alloc
	depth int
	tabs  map[string]*unicode.RangeTable
	lbs   []string
	lbOf  map[rune]string
	konst map[*ssa.Global]int
	// methods writing a flag
	writers map[*ssa.Function]string
	script  map[string]int64
}

// constant: the variable is a table of a library, never changed.
func (c *segClasses) constant(g *ssa.Global) bool {
	return g.Pkg != nil && (g.Pkg.Pkg.Path() == "unicode" || g.Pkg.Pkg.Name() == "unicodedata")
}

// is: the character is in the table of this name.
func (c *segClasses) is(name string, r rune) (in, known bool) {
	t, ok := c.tabs[name]
	if !ok {
		if n := strings.TrimPrefix(name, "unicode."); n != name {
			t = unicode.Categories[n]
			if t == nil {
				t = unicode.Properties[n]
			}
			if t == nil {
				t = unicode.Scripts[n]
			}
		} else {
			i := strings.LastIndexByte(name, '.')
			for _, pk := range c.p.All {
				if pk.PkgPath == name[:i] && pk.Types != nil {
					if v := pk.Types.Scope().Lookup(name[i+1:]); v != nil && c.t.init[v] != nil {
						t = rangeTable(c.t.eval(c.t.infos[v], c.t.init[v]))
					}
				}
			}
		}
		c.tabs[name] = t
	}
	if t == nil {
		return false, false
	}
	return unicode.Is(t, r), true
}

// rangeTable folds the literal of a table.
func rangeTable(l *lit) *unicode.RangeTable {
	if l == nil || l.Unknown || l.Addr == nil || len(l.Addr.Fields) < 2 {
		return nil
	}
	t := &unicode.RangeTable{}
	for i, f := range l.Addr.Fields[:2] {
		for _, e := range f.Vals {
			n := flatInts(e)
			if len(n) != 3 {
				return nil
			}
			if i == 0 {
				t.R16 = append(t.R16, unicode.Range16{Lo: uint16(n[0]), Hi: uint16(n[1]), Stride: uint16(n[2])})
				if n[1] <= 0xff {
					t.LatinOffset++
				}
			} else {
				t.R32 = append(t.R32, unicode.Range32{Lo: uint32(n[0]), Hi: uint32(n[1]), Stride: uint32(n[2])})
			}
		}
	}
	return t
}

// lineBreak is the variable of the line breaking class of a character.
func (c *segClasses) lineBreak(fn *ssa.Function, r rune) string {
	if c.lbs == nil {
		path := fn.Pkg.Pkg.Path()
		for _, n := range fn.Pkg.Pkg.Scope().Names() {
			if strings.HasPrefix(n, "Break") {
				if _, ok := c.is(path+"."+n, 'a'); ok {
					c.lbs = append(c.lbs, path+"."+n)
				}
			}
		}
		c.lbs = append(c.lbs, "")
	}
	if n, ok := c.lbOf[r]; ok {
		return n
	}
	out := ""
	for _, n := range c.lbs {
		if n == "" {
			continue
		}
		if is, _ := c.is(n, r); is {
			out = n
		}
	}
	if out == "" && len(c.lbs) > 1 {
		out = fn.Pkg.Pkg.Path() + ".BreakXX"
	}
	c.lbOf[r] = out
	return out
}

// what pango names the classes of Unicode
var segNames = map[string]map[string][]string{
	"gb": {"CR": {"ControlCRLF"}, "LF": {"ControlCRLF"}, "Control": {"ControlCRLF"}, "Extend": {"Extend"}, "ZWJ": {"ZWJ"}, "Prepend": {"Prepend"},
		"SpacingMark": {"SpacingMark"}, "Regional_Indicator": {"RI_Odd", "RI_Even"}, "Other": {"Other"},
		"L": {"Other", "InHangulSyllable"}, "V": {"Other", "InHangulSyllable"}, "T": {"Other", "InHangulSyllable"}, "LV": {"Other", "InHangulSyllable"}, "LVT": {"Other", "InHangulSyllable"}},
	"wb": {"CR": {"NewlineCRLF"}, "LF": {"NewlineCRLF"}, "Newline": {"NewlineCRLF"}, "Extend": {"ExtendFormat"}, "Format": {"ExtendFormat"}, "ZWJ": {"ExtendFormat"},
		"Katakana": {"Katakana"}, "Hebrew_Letter": {"Hebrew_Letter"}, "ALetter": {"ALetter"}, "MidNumLet": {"MidNumLet"}, "MidLetter": {"MidLetter"}, "MidNum": {"MidNum"},
		"Numeric": {"Numeric"}, "ExtendNumLet": {"ExtendNumLet"}, "Regional_Indicator": {"RI_Odd", "RI_Even"}, "WSegSpace": {"WSegSpace"},
		"Single_Quote": {"MidNumLet"}, "Double_Quote": {"Other"}, "Other": {"Other"}},
	"sb": {"CR": {"ParaSep"}, "LF": {"ParaSep"}, "Sep": {"ParaSep"}, "Extend": {"ExtendFormat"}, "Format": {"ExtendFormat"}, "Sp": {"Sp", "ATerm_Close_Sp", "STerm_Close_Sp"},
		"Lower": {"Lower"}, "Upper": {"Upper"}, "OLetter": {"OLetter"}, "Numeric": {"Numeric"}, "ATerm": {"ATerm"}, "STerm": {"STerm"}, "SContinue": {"SContinue"},
		"Close": {"Close", "ATerm", "STerm"}, "Other": {"Other"}},
}

func runC23(p *Program, r *Report) {
	r.rule("classes: in the algorithm of text segmentation, each character gets the grapheme, word and sentence class Unicode gives it")
	var o struct {
		Names []string
		Rows  [][6]int64
		// where Pango departs from Unicode
		Departures [][4]interface{}
	}
	oracle("segments.json", &o)
	departs := map[string]bool{}
	for _, d := range o.Departures {
		for x := d[2].(float64); x <= d[3].(float64); x++ {
			departs[fmt.Sprint(d[0], d[1], rune(x))] = true
		}
	}
	c := &segClasses{p: p, r: r, t: p.tables(), bound: map[*ssa.Parameter]*ssa.Alloc{}, tabs: map[string]*unicode.RangeTable{}, lbOf: map[rune]string{}, script: map[string]int64{}, writers: map[*ssa.Function]string{}}
	for _, pk := range p.All {
		if pk.Types != nil && strings.HasSuffix(pk.PkgPath, "textlayout/language") {
			for _, n := range pk.Types.Scope().Names() {
				if k, ok := pk.Types.Scope().Lookup(n).(*types.Const); ok && isNamedT(k.Type(), "language", "Script") {
					if i, ok := (&lit{C: k.Val()}).i(); ok {
						c.script[n] = i
					}
				}
			}
		}
	}
	segFlags(c, p, r)
	// the types of the classes
	kinds := map[types.Type]string{}
	names := map[types.Type]map[int64]string{}
	sc := p.pkg("pango").Types.Scope()
	for _, n := range sc.Names() {
		k, ok := sc.Lookup(n).(*types.Const)
		if !ok || len(n) < 4 || n[2] != '_' || segNames[n[:2]] == nil {
			continue
		}
		if names[k.Type()] == nil {
			names[k.Type()] = map[int64]string{}
		}
		kinds[k.Type()] = n[:2]
		i, _ := (&lit{C: k.Val()}).i()
		if old, dup := names[k.Type()][i]; dup {
			r.find("classes", "same/"+n, p.pos(k.Pos()), "the classes %s and %s are the same", old, n)
		}
		names[k.Type()][i] = n[3:]
	}
	// the constants characters are compared with
	cuts := map[int64]bool{}
	for _, fn := range p.Funcs {
		if fn.Pkg != p.ssaPkg("pango") {
			continue
		}
		p.eachInstr(fn, func(in ssa.Instruction) {
			if b, ok := in.(*ssa.BinOp); ok {
				for _, v := range []ssa.Value{b.X, b.Y} {
					if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int && isIntType(k.Type()) {
						n, _ := constant.Int64Val(k.Value)
						if b.Op == token.EQL || b.Op == token.NEQ || b.Op == token.LSS || b.Op == token.GTR || b.Op == token.LEQ || b.Op == token.GEQ {
							cuts[n], cuts[n+1] = true, true
						}
					}
				}
			}
		})
	}
	segBackspace(c, p, r, cuts)
	r.rule("marks: a position is white, or an expandable space, by its character only; spaces and hyphens, and base characters, are remembered as such")
	for _, fn := range p.Funcs {
		if fn.Pkg != p.ssaPkg("pango") {
			continue
		}
		for _, l := range p.loops(fn) {
			var classes []*ssa.Phi
			var chars []*ssa.Phi
			for _, in := range l.header.Instrs {
				if phi, ok := in.(*ssa.Phi); ok {
					if kinds[phi.Type()] != "" {
						classes = append(classes, phi)
					}
					if b, ok := phi.Type().(*types.Basic); ok && b.Kind() == types.Int32 {
						chars = append(chars, phi)
					}
				}
			}
			if len(classes) == 0 {
				continue
			}
			for _, w := range chars {
				looked := false
				for _, ref := range realRefs(w) {
					if call, ok := ref.(*ssa.Call); ok && depName(call) == "unicodedata.LookupType" {
						// at each round
						every := true
						for _, from := range l.header.Preds {
							if l.body[from] {
								every = every && call.Block().Dominates(from)
							}
						}
						looked = looked || every
					}
				}
				if looked {
					r.count("loops", 1)
					c.classify(fn, l, w, classes, kinds, names, o.Names, o.Rows, cuts, departs)
				}
			}
		}
	}
}

// follows: the table is the line breaking class of the character, both given by the same edges.
func follows(t, w ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	switch x := t.(type) {
	case *ssa.Call:
		return depName(x) == "unicodedata.LookupLineBreakClass" && x.Call.Args[0] == w
	case *ssa.Phi:
		pw, ok := w.(*ssa.Phi)
		if !ok || pw.Block() != x.Block() {
			return false
		}
		for i := range x.Edges {
			if !follows(x.Edges[i], pw.Edges[i], depth+1) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		_, isG := x.X.(*ssa.Global)
		_, isC := w.(*ssa.Const)
		return isG && isC
	}
	return false
}

func (c *segClasses) classify(fn *ssa.Function, l *loop, w *ssa.Phi, classes []*ssa.Phi, kinds map[types.Type]string, names map[types.Type]map[int64]string, on []string, rows [][6]int64, cuts map[int64]bool, departs map[string]bool) {
	var tables []*ssa.Phi
	var lookup *ssa.Function
	for _, in := range l.header.Instrs {
		if phi, ok := in.(*ssa.Phi); ok && follows(phi, w, 0) {
			tables = append(tables, phi)
		}
	}
	c.p.eachInstr(fn, func(in ssa.Instruction) {
		if call, ok := in.(*ssa.Call); ok && depName(call) == "unicodedata.LookupLineBreakClass" {
			lookup = call.Call.StaticCallee()
		}
	})
	type found struct {
		chars []rune
		class string
		got   string
		where token.Pos
	}
	var cutList []int64
	for k := range cuts {
		cutList = append(cutList, k)
	}
	sort.Slice(cutList, func(i, j int) bool { return cutList[i] < cutList[j] })
	done := map[string]map[string]string{}
	perChar := map[string][]charRes{}
	var chars, bools []*ssa.Phi
	for _, in := range l.header.Instrs {
		if phi, ok := in.(*ssa.Phi); ok && phi != w {
			if isBoolean(phi.Type()) {
				bools = append(bools, phi)
			} else if b, ok := phi.Type().(*types.Basic); ok && b.Kind() == types.Int32 {
				chars = append(chars, phi)
			}
		}
	}
	wrong := map[string]*found{}
	decided := map[string]int{}
	undecided := map[string]int{}
	for _, row := range rows {
		for x := row[0]; x <= row[1]; x++ {
			ch := rune(x)
			gc := ""
			for _, n := range gcNames {
				if unicode.Is(unicode.Categories[n], ch) {
					gc = n
					break
				}
			}
			if gc == "Cs" { // no character
				continue
			}
			lb := ""
			if lookup != nil {
				lb = c.lineBreak(lookup, ch)
			}
			stm, _ := c.is(lookupPath(lookup)+".STerm", ch)
			pic, _ := c.is(lookupPath(lookup)+".Extended_Pictographic", ch)
			cut := sort.Search(len(cutList), func(i int) bool { return cutList[i] > x })
			key := fmt.Sprint(cut, gc, lb, row[5], stm, pic)
			got, ok := done[key]
			if !ok {
				got = map[string]string{}
				done[key] = got
				s := &segRun{c: c, w: ch, script: c.script[on[row[5]]], gc: gc, flags: map[string]cset{}}
				f := &segFrame{fn: fn, env: map[ssa.Value]cset{w: one(cval{k: 'i', n: x})}, start: l.header, back: map[*ssa.Phi]cset{}}
				for _, t := range tables {
					if lb != "" {
						f.env[t] = one(cval{k: 'g', s: lb})
					}
				}
				for _, k := range append(append(append([]*ssa.Phi{}, classes...), chars...), bools...) {
					f.env[k] = one(cval{k: 'p'})
				}
				c.r.count("kinds of characters", 1)
				if s.run(f, segMem{}) != nil {
					for _, n := range []string{"White", "ExpandableSpace"} {
						if v, ok := s.flags[n]; ok && !v.top {
							got[n] = truths(v)
						}
					}
					for i, k := range bools {
						if v := f.back[k]; !v.top {
							got[fmt.Sprint("bool", i)] = truths(v)
						}
					}
					for i, k := range chars {
						if v := f.back[k]; !v.top {
							kept, is := v.v[cval{k: 'p'}], v.v[cval{k: 'i', n: x}]
							got[fmt.Sprint("char", i)] = fmt.Sprint(len(v.v), kept, is)
						}
					}
					for _, k := range classes {
						v := f.back[k]
						var n []string
						bad := v.top
						for e := range v.v {
							if e.k == 'p' {
								continue
							}
							name, ok := names[k.Type()][e.n]
							bad = bad || e.k != 'i' || !ok
							n = append(n, name)
						}
						if bad {
							got[kinds[k.Type()]] = "?"
						} else if len(n) == 0 && len(v.v) > 0 && got[kinds[k.Type()]] == "" && kinds[k.Type()] != "gb" {
							// neither is it remembered: the character goes with the former one
							got[kinds[k.Type()]] = "ExtendFormat"
						} else if len(n) > 0 && got[kinds[k.Type()]] != "?" {
							sort.Strings(n)
							got[kinds[k.Type()]] = strings.Join(n, " ")
						}
					}
				}
			}
			note := func(key, res, format string) {
				if wrong[key] == nil {
					wrong[key] = &found{class: format, got: res}
				}
				wrong[key].chars = append(wrong[key].chars, ch)
			}
			space := strings.HasPrefix(gc, "Z") || ch == '\t' || ch == '\n' || ch == '\f' || ch == '\r'
			for n, want := range map[string]bool{"White": space, "ExpandableSpace": ch == ' ' || ch == 0xa0} {
				if res := got[n]; res != "" {
					decided[n]++
					if !strings.Contains(res, fmt.Sprint(want)) {
						note(n, res, n)
					}
				}
			}
			for i := range bools {
				perChar["bool"] = append(perChar["bool"], charRes{i, ch, got[fmt.Sprint("bool", i)], space || hyphens[ch]})
			}
			for i := range chars {
				perChar["char"] = append(perChar["char"], charRes{i, ch, got[fmt.Sprint("char", i)], strings.HasPrefix(gc, "M")})
			}
			for i, kind := range []string{"gb", "wb", "sb"} {
				class := on[row[2+i]]
				res, ok := got[kind]
				if !ok || res == "?" {
					undecided[kind]++
					continue
				}
				decided[kind]++
				want := segNames[kind][class]
				// the sets are larger than what is possible: only what they lack is known
				g := strings.Fields(res)
				fine := len(want) == 0
				for _, n := range want {
					fine = fine || contains(g, n)
				}
				if class == "Regional_Indicator" && kind != "sb" {
					fine = contains(g, "RI_Odd") && contains(g, "RI_Even")
				}
				fine = fine || len(g) == 1 && departs[fmt.Sprint(kind, g[0], ch)]
				if !fine {
					key := kind + "/" + class + "/" + res
					if wrong[key] == nil {
						wrong[key] = &found{class: class, got: res}
					}
					wrong[key].chars = append(wrong[key].chars, ch)
				}
			}
		}
	}
	for _, kind := range sortedKeys(decided) {
		c.r.count("characters, "+kind, decided[kind])
		c.r.count("undecided, "+kind, undecided[kind])
	}
	c.perChar(perChar, w, len(bools), len(chars))
	for _, key := range sortedKeys(wrong) {
		f := wrong[key]
		if f.class == key {
			c.r.find("marks", key, c.p.pos(w.Pos()), "the attribute %s of %s (%d characters) is %s", key, segRanges(f.chars), len(f.chars), f.got)
			continue
		}
		c.r.find("classes", key, c.p.pos(w.Pos()), "%s (%d characters) has the %s class %s, and is given %s", segRanges(f.chars), len(f.chars), segKinds[key[:2]], f.class, f.got)
	}
}

var segKinds = map[string]string{"gb": "grapheme break", "wb": "word break", "sb": "sentence break"}

func segRanges(chars []rune) string {
	var out []string
	for i := 0; i < len(chars); {
		j := i
		for j+1 < len(chars) && chars[j+1] == chars[j]+1 {
			j++
		}
		if len(out) == 8 {
			out = append(out, "…")
			break
		}
		if i == j {
			out = append(out, fmt.Sprintf("%U", chars[i]))
		} else {
			out = append(out, fmt.Sprintf("%U–%U", chars[i], chars[j]))
		}
		i = j + 1
	}
	return strings.Join(out, " ")
}

var gcNames = []string{"Lu", "Ll", "Lt", "Lm", "Lo", "Mn", "Mc", "Me", "Nd", "Nl", "No", "Pc", "Pd", "Ps", "Pe", "Pi", "Pf", "Po", "Sm", "Sc", "Sk", "So", "Zs", "Zl", "Zp", "Cc", "Cf", "Cs", "Co"}

func lookupPath(fn *ssa.Function) string {
	if fn == nil {
		return "?.?"
	}
	return fn.Pkg.Pkg.Path()
}

func depName(c ssa.CallInstruction) string {
	if fn := c.Common().StaticCallee(); fn != nil && fn.Pkg != nil {
		return fn.Pkg.Pkg.Name() + "." + fn.Name()
	}
	return ""
}

// segFlags: each attribute of a position is read and written under its own flag.
func segFlags(c *segClasses, p *Program, r *Report) {
	sc := p.pkg("pango").Types.Scope()
	flags := map[string]int64{}
	var owner *types.Named
	for _, n := range sc.Names() {
		if k, ok := sc.Lookup(n).(*types.Const); ok && isNamedT(k.Type(), "pango", "CharAttr") {
			flags[n], _ = (&lit{C: k.Val()}).i()
			owner, _ = k.Type().(*types.Named)
		}
	}
	r.rule("flags: the attributes of a position are distinct bits; IsX tells the bit X, and a method writing one bit writes the same for true and for false, no other, and the one of its name")
	names := sortedKeys(flags)
	for i, a := range names {
		if flags[a]&(flags[a]-1) != 0 || flags[a] == 0 {
			r.find("flags", "bit/"+a, p.pos(sc.Lookup(a).Pos()), "the flag %s is not one bit", a)
		}
		for _, b := range names[:i] {
			if flags[a] == flags[b] {
				r.find("flags", "same/"+b+"/"+a, p.pos(sc.Lookup(a).Pos()), "the flags %s and %s are the same bit", b, a)
			}
		}
	}
	if owner == nil {
		return
	}
	nameOf := func(bit int64) string {
		for _, n := range names {
			if flags[n] == bit {
				return n
			}
		}
		return fmt.Sprintf("%#x", bit)
	}
	const all = 1<<20 - 1
	read, written := 0, 0
	for _, fn := range p.Funcs {
		if fn.Pkg != p.ssaPkg("pango") || fn.Signature.Recv() == nil || len(fn.Blocks) == 0 || fn.Object() == nil {
			continue
		}
		recv := fn.Signature.Recv().Type()
		ptr, isPtr := recv.(*types.Pointer)
		res := fn.Signature.Results()
		s := &segRun{c: c}
		if !isPtr && types.Identical(recv, owner) && len(fn.Params) == 1 && res.Len() == 1 && strings.HasPrefix(fn.Name(), "Is") {
			bit, ok := flags[fn.Name()[2:]]
			if !ok {
				continue
			}
			for _, try := range []struct {
				n    int64
				want bool
			}{{bit, true}, {0, false}, {all &^ bit, false}, {all, true}} {
				f := &segFrame{fn: fn, env: map[ssa.Value]cset{fn.Params[0]: one(cval{k: 'i', n: try.n})}, start: fn.Blocks[0], back: map[*ssa.Phi]cset{}}
				if s.run(f, segMem{}) == nil || len(f.ret) != 1 || f.ret[0].top || f.ret[0].empty() {
					continue
				}
				read++
				if !f.ret[0].v[boolVal(try.want)] {
					r.find("flags", "read/"+fn.Name(), p.pos(fn.Pos()), "%s does not tell the flag %s", fname(fn), fn.Name()[2:])
					break
				}
			}
		}
		if isPtr && types.Identical(ptr.Elem(), owner) && len(fn.Params) == 2 && res.Len() == 0 && isBoolean(fn.Params[1].Type()) {
			after := func(n int64, is bool) (int64, bool) {
				cell := &ssa.Alloc{}
				c.bound[fn.Params[0]] = cell
				defer delete(c.bound, fn.Params[0])
				f := &segFrame{fn: fn, env: map[ssa.Value]cset{fn.Params[1]: one(boolVal(is))}, start: fn.Blocks[0], back: map[*ssa.Phi]cset{}}
				m := s.run(f, segMem{cell: one(cval{k: 'i', n: n})})
				if m == nil || m[cell].top || len(m[cell].v) != 1 {
					return 0, false
				}
				for v := range m[cell].v {
					return v.n, v.k == 'i'
				}
				return 0, false
			}
			set, ok1 := after(0, true)
			kept, ok2 := after(all, false)
			none, ok3 := after(0, false)
			every, ok4 := after(all, true)
			if !ok1 || !ok2 || !ok3 || !ok4 {
				r.count("undecided methods", 1)
				continue
			}
			written++
			cleared := all &^ kept
			switch {
			case set != cleared || none != 0 || every != all:
				r.find("flags", "write/"+fn.Name(), p.pos(fn.Pos()), "%s sets %s, and clears %s", fname(fn), nameOf(set), nameOf(cleared))
			default:
				c.writers[fn] = nameOf(set)
				best := ""
				for _, n := range names {
					if strings.HasSuffix(strings.ToLower(fn.Name()), strings.ToLower(n)) && len(n) > len(best) {
						best = n
					}
				}
				if best != "" && flags[best] != set {
					r.find("flags", "write/"+fn.Name(), p.pos(fn.Pos()), "%s writes the flag %s", fname(fn), nameOf(set))
				}
			}
		}
	}
	r.count("flags", len(flags))
	r.count("values of flags read", read)
	r.count("methods writing a flag", written)
}

// charRes is what a variable becomes after a character.
type charRes struct {
	v    int
	ch   rune
	got  string
	want bool
}

func truths(v cset) string {
	var out []string
	if v.v[boolVal(true)] {
		out = append(out, "true")
	}
	if v.v[boolVal(false)] {
		out = append(out, "false")
	}
	if len(out) == 0 {
		return ""
	}
	return strings.Join(out, " or ")
}

// the hyphens after which Pango does not insert one
var hyphens = map[rune]bool{'-': true, 0x058a: true, 0x1400: true, 0x1806: true, 0x2010: true, 0x2e17: true, 0x2e40: true, 0x30a0: true, 0xfe63: true, 0xff0d: true}

// perChar checks the variables remembering that the last character is a space or a hyphen, and the last base character:
// they are known from what they become after a few characters.
func (c *segClasses) perChar(res map[string][]charRes, w *ssa.Phi, nbools, nchars int) {
	at := func(l []charRes, v int, ch rune) string {
		for _, x := range l {
			if x.v == v && x.ch == ch {
				return x.got
			}
		}
		return ""
	}
	report := func(l []charRes, v int, what string, fine func(x charRes) bool) {
		var bad []rune
		n := 0
		for _, x := range l {
			if x.v != v || x.got == "" {
				continue
			}
			n++
			if !fine(x) {
				bad = append(bad, x.ch)
			}
		}
		c.r.count("characters, "+what, n)
		if len(bad) > 0 {
			c.r.find("marks", what, c.p.pos(w.Pos()), "whether it is a %s is wrong for %s (%d characters)", what, segRanges(bad), len(bad))
		}
	}
	l := res["bool"]
	for v := 0; v < nbools; v++ {
		if at(l, v, ' ') == "true" && at(l, v, 0x2010) == "true" && at(l, v, 'a') == "false" && at(l, v, 0x4e00) == "false" {
			report(l, v, "space or hyphen", func(x charRes) bool { return strings.Contains(x.got, fmt.Sprint(x.want)) })
		}
	}
	l = res["char"]
	const kept, replaced = "1 true false", "1 false true"
	for v := 0; v < nchars; v++ {
		if at(l, v, 'a') == replaced && at(l, v, '!') == replaced && at(l, v, 0x301) == kept {
			report(l, v, "base character", func(x charRes) bool { return x.want && x.got != replaced || !x.want && x.got != kept })
		}
	}
}

// segBackspace: before which characters backspace deletes one character only.
func segBackspace(c *segClasses, p *Program, r *Report, cuts map[int64]bool) {
	r.rule("backspace: the function of a character whose result says that backspace deletes one character is false for Latin, Greek, Cyrillic, kana, Hangul and emoji, and true for others")
	seen := map[*ssa.Function]bool{}
	for fn, n := range c.writers {
		if n != "BackspaceDeletesCharacter" {
			continue
		}
		for _, g := range p.Funcs {
			if g.Pkg != p.ssaPkg("pango") {
				continue
			}
			p.eachInstr(g, func(in ssa.Instruction) {
				call, ok := in.(*ssa.Call)
				if !ok || call.Call.StaticCallee() != fn || len(call.Call.Args) != 2 {
					return
				}
				from, ok := call.Call.Args[1].(*ssa.Call)
				if !ok {
					return
				}
				f := from.Call.StaticCallee()
				if f == nil || !inModule(f) || len(f.Params) != 1 || len(f.Blocks) == 0 || seen[f] {
					return
				}
				if b, ok := f.Params[0].Type().(*types.Basic); !ok || b.Kind() != types.Int32 {
					return
				}
				seen[f] = true
				emoji := ""
				for _, pk := range p.All {
					if pk.Types != nil && pk.Types.Name() == "unicodedata" && pk.Types.Scope().Lookup("Emoji") != nil {
						emoji = pk.PkgPath + ".Emoji"
					}
				}
				for _, n := range []int64{0x20, 0x2b0, 0x1e00, 0x1f00, 0x400, 0x530, 0x370, 0x2000, 0x3040, 0x3100, 0xac00, 0xd7a4} {
					cuts[n], cuts[n-1] = true, true
				}
				var at []int64
				for k := range cuts {
					if k >= 0 && k <= 0x10ffff {
						at = append(at, k)
					}
				}
				// each part of the characters of this table
				if c.tabs[emoji] == nil {
					c.is(emoji, 'a')
				}
				if t := c.tabs[emoji]; t != nil {
					for _, x := range t.R16 {
						at = append(at, int64(x.Lo), int64(x.Hi), int64(x.Hi)+1)
					}
					for _, x := range t.R32 {
						at = append(at, int64(x.Lo), int64(x.Hi), int64(x.Hi)+1)
					}
				}
				sort.Slice(at, func(i, j int) bool { return at[i] < at[j] })
				var bad []rune
				n := 0
				for i, x := range at {
					if i > 0 && at[i-1] == x {
						continue
					}
					ch := rune(x)
					in := func(lo, hi rune) bool { return lo <= ch && ch <= hi }
					em, known := c.is(emoji, ch)
					if !known {
						continue
					}
					want := !(in(0x20, 0x2af) || in(0x1e00, 0x1fff) || in(0x400, 0x52f) || in(0x370, 0x3ff) || in(0x3040, 0x30ff) || in(0xac00, 0xd7a3) || em)
					s := &segRun{c: c, w: ch}
					fr := &segFrame{fn: f, env: map[ssa.Value]cset{f.Params[0]: one(cval{k: 'i', n: x})}, start: f.Blocks[0], back: map[*ssa.Phi]cset{}}
					if s.run(fr, segMem{}) == nil || len(fr.ret) != 1 || fr.ret[0].top || fr.ret[0].empty() {
						continue
					}
					n++
					if !fr.ret[0].v[boolVal(want)] {
						bad = append(bad, ch)
					}
				}
				r.count("characters, backspace", n)
				if len(bad) > 0 {
					r.find("backspace", "characters", p.pos(f.Pos()), "%s is wrong for %s, the characters which follow and those up to the next limit", fname(f), segRanges(bad))
				}
			})
		}
	}
}
