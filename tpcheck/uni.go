package main

import (
	"embed"
	"encoding/json"
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

//go:embed oracle
var oracleFS embed.FS

func oracle(name string, into interface{}) {
	b, err := oracleFS.ReadFile("oracle/" + name)
	if err == nil {
		err = json.Unmarshal(b, into)
	}
	if err != nil {
		panic(fmt.Sprintf("oracle %s: %v", name, err))
	}
}

func init() {
	register("C14", "The tables and the classifying functions of the bidi package are folded to constants and compared with the Unicode Character Database.", runC14)
}

func intLit(t types.Type, v int64) *aval { return &aval{l: &lit{T: t, C: constant.MakeInt64(v)}} }

// sigIs: fn takes and gives the types printed (qualified by package name).
func sigIs(fn *ssa.Function, want string) bool {
	q := func(p *types.Package) string { return p.Name() }
	var in, out []string
	for _, prm := range fn.Params {
		in = append(in, types.TypeString(prm.Type(), q))
	}
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		out = append(out, types.TypeString(fn.Signature.Results().At(i).Type(), q))
	}
	return strings.Join(in, ",")+"->"+strings.Join(out, ",") == want
}

// bySig lists the functions of a package with the given signature.
func (p *Program) bySig(short, want string) []*ssa.Function {
	var out []*ssa.Function
	sp := p.ssaPkg(short)
	for _, fn := range p.Funcs {
		if fn.Pkg == sp && fn.Parent() == nil && sigIs(fn, want) {
			out = append(out, fn)
		}
	}
	return out
}

// tablesRead lists the constant package-level variables used by fn and the functions of the module it calls.
func (t *tables) tablesRead(fn *ssa.Function) []*types.Var {
	seen := map[*ssa.Function]bool{}
	found := map[*types.Var]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] || !inModule(f) {
			return
		}
		seen[f] = true
		t.p.eachInstr(f, func(in ssa.Instruction) {
			for _, op := range in.Operands(nil) {
				if g, ok := (*op).(*ssa.Global); ok {
					if v, ok := g.Object().(*types.Var); ok && inModulePkg(v.Pkg()) {
						found[v] = true
					}
				}
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				for _, cal := range t.p.callees(c) {
					walk(cal)
				}
			}
		})
	}
	walk(fn)
	var out []*types.Var
	for v := range found {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

func inModulePkg(p *types.Package) bool { return p != nil && strings.HasPrefix(p.Path(), modPath) }

func (p *Program) constOf(short, name string) (int64, types.Type, bool) {
	c, ok := p.pkg(short).Types.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0, nil, false
	}
	v, ok := (&lit{C: c.Val()}).i()
	return v, c.Type(), ok
}

func runC14(p *Program, r *Report) {
	r.rule("the mirrored character, the bracket pair, the joining type and the ligature of every character are those of the Unicode files")
	r.rule("every Unicode bidi class has its own type, member of exactly the classes of UAX #9")
	var u struct {
		Mirror, Brackets, Joining [][]interface{}
		Ligatures                 [][]int64
	}
	oracle("unicode.json", &u)
	t := p.tables()
	num := func(x interface{}) int64 { return int64(x.(float64)) }
	runeT := types.Typ[types.Rune]

	// mirroring
	mir := map[int64]int64{}
	for _, m := range u.Mirror {
		mir[num(m[0])] = num(m[1])
	}
	for _, fn := range p.bySig("fribidi", "rune->rune,bool") {
		r.count("classifying functions", 1)
		dom := map[int64]bool{'a': true, 0x5d0: true, 0x10fffe: true}
		for c := range mir {
			dom[c], dom[c-1], dom[c+1] = true, true, true
		}
		for _, v := range t.tablesRead(fn) {
			if l := t.global(v); l != nil {
				for _, k := range l.Keys {
					if n, ok := k.i(); ok {
						dom[n] = true
					}
				}
			}
		}
		for _, c := range sortedInts(dom) {
			res, _ := t.constResults(fn, []*aval{intLit(runeT, c)})
			r.count("characters folded", 1)
			want, ok := mir[c]
			if !ok {
				want = c
			}
			got, ok1 := res[0].constant().i()
			gotOK := res[1].constant()
			if !ok1 || gotOK == nil || gotOK.C == nil {
				r.find("mirror-undecided", fname(fn), p.pos(fn.Pos()), "the mirrored character of U+%04X cannot be read in %s", c, fname(fn))
				break
			}
			if got != want || constant.BoolVal(gotOK.C) != ok {
				r.find("mirror", fmt.Sprintf("mirror/%04X", c), p.pos(fn.Pos()), "%s says the mirrored character of U+%04X is U+%04X (%v), Unicode says U+%04X (%v)", fname(fn), c, got, gotOK, want, ok)
			}
		}
	}

	// brackets
	if fn := p.lookupFunc("fribidi", "GetBracket"); fn != nil {
		r.count("classifying functions", 1)
		want := map[int64]int64{}
		open := map[int64]bool{}
		for _, b := range u.Brackets {
			want[num(b[0])] = num(b[1])
			open[num(b[0])] = num(b[2]) == 1
		}
		openBit := int64(0)
		for _, c := range sortedKeysI(want) {
			s := &sccp{t: t, assume: map[string]*lit{
				"(golang.org/x/text/unicode/bidi.Properties).IsBracket":        {T: types.Typ[types.Bool], C: constant.MakeBool(true)},
				"(golang.org/x/text/unicode/bidi.Properties).IsOpeningBracket": {T: types.Typ[types.Bool], C: constant.MakeBool(open[c])},
			}}
			res, _ := s.run(fn, []*aval{intLit(runeT, c)})
			r.count("characters folded", 1)
			got, ok := res[0].constant().i()
			if !ok {
				r.find("bracket-undecided", fname(fn), p.pos(fn.Pos()), "the bracket type of U+%04X cannot be read in %s", c, fname(fn))
				break
			}
			if open[c] {
				if openBit == 0 {
					openBit = got &^ want[c]
				}
				got &^= openBit
				if openBit == 0 || openBit&(openBit-1) != 0 || openBit < 0x200000 {
					r.find("bracket", "open-bit", p.pos(fn.Pos()), "%s does not mark opening brackets with one bit out of the characters (%x)", fname(fn), openBit)
				}
			}
			if got != want[c] {
				r.find("bracket", fmt.Sprintf("bracket/%04X", c), p.pos(fn.Pos()), "%s pairs U+%04X with U+%04X, Unicode with U+%04X", fname(fn), c, got, want[c])
			}
		}
		s := &sccp{t: t, assume: map[string]*lit{"(golang.org/x/text/unicode/bidi.Properties).IsBracket": {T: types.Typ[types.Bool], C: constant.MakeBool(false)}}}
		res, _ := s.run(fn, []*aval{intLit(runeT, 'a')})
		if got, ok := res[0].constant().i(); !ok || got != 0 {
			r.find("bracket", "not-a-bracket", p.pos(fn.Pos()), "%s does not give zero for a character which is no bracket", fname(fn))
		}
	}

	// joining types
	for _, fn := range p.bySig("fribidi", "rune,fribidi.CharType->fribidi.JoiningType") {
		r.count("classifying functions", 1)
		letter := map[string]int64{}
		for _, n := range []string{"U", "R", "D", "C", "L", "T", "G"} {
			v, _, ok := p.constOf("fribidi", n)
			if !ok {
				r.find("joining-undecided", "joining/"+n, "", "the joining type %s is not a constant", n)
			}
			for m, w := range letter {
				if v == w {
					r.find("joining", "joining/"+n, p.pos(fn.Pos()), "the joining types %s and %s are the same", m, n)
				}
			}
			letter[n] = v
		}
		on, ct, _ := p.constOf("fribidi", "ON")
		for _, j := range u.Joining {
			c, ty := num(j[0]), j[1].(string)
			res, _ := t.constResults(fn, []*aval{intLit(runeT, c), intLit(ct, on)})
			r.count("characters folded", 1)
			got, ok := res[0].constant().i()
			if !ok {
				r.find("joining-undecided", fname(fn), p.pos(fn.Pos()), "%s does not give U+%04X the joining type of the Unicode file (%s)", fname(fn), c, ty)
				break
			}
			if got != letter[ty] {
				r.find("joining", fmt.Sprintf("joining/%04X", c), p.pos(fn.Pos()), "%s gives the joining type %d to U+%04X, Unicode gives it %s (%d)", fname(fn), got, c, ty, letter[ty])
			}
		}
	}

	// ligatures
	var found *types.Var
	for _, v := range t.vars("fribidi") {
		sl, ok := v.Type().Underlying().(*types.Slice)
		if !ok {
			if a, isArr := v.Type().Underlying().(*types.Array); isArr {
				sl, ok = types.NewSlice(a.Elem()), true
			}
		}
		if !ok {
			continue
		}
		if st, ok := sl.Elem().Underlying().(*types.Struct); !ok || st.NumFields() > 3 {
			continue
		}
		l := t.global(v)
		if l == nil {
			continue
		}
		var rows [][]int64
		for _, e := range l.Vals {
			rows = append(rows, flatInts(e))
		}
		if len(rows) == 0 || len(rows[0]) != 3 {
			continue
		}
		found = v
		r.count("ligatures", len(rows))
		if !sort.SliceIsSorted(rows, func(i, j int) bool {
			return rows[i][0] < rows[j][0] || rows[i][0] == rows[j][0] && rows[i][1] < rows[j][1]
		}) {
			r.find("ligature", "ligature/order", p.pos(v.Pos()), "the ligatures of %s are not sorted, as the search in them requires", v.Name())
		}
		want := map[[3]int64]bool{}
		for _, w := range u.Ligatures {
			want[[3]int64{w[0], w[1], w[2]}] = true
		}
		for _, row := range rows {
			k := [3]int64{row[0], row[1], row[2]}
			if !want[k] {
				r.find("ligature", fmt.Sprintf("ligature/%04X+%04X", row[0], row[1]), p.pos(v.Pos()), "%s replaces U+%04X U+%04X by U+%04X, which Unicode does not decompose in them", v.Name(), row[0], row[1], row[2])
			}
			delete(want, k)
		}
		for k := range want {
			r.find("ligature", fmt.Sprintf("ligature/%04X+%04X", k[0], k[1]), p.pos(v.Pos()), "%s misses the mandatory ligature of U+%04X U+%04X", v.Name(), k[0], k[1])
		}
	}
	if found == nil {
		r.find("ligature-undecided", "ligature", "", "the table of the mandatory ligatures is not found")
	}
	bidiClasses(p, r, t)
	r.need("characters folded", r.Counts["characters folded"], 1400)
}

func flatInts(l *lit) []int64 {
	if n, ok := l.i(); ok {
		return []int64{n}
	}
	var out []int64
	for _, s := range append(append([]*lit{}, l.Fields...), l.Vals...) {
		out = append(out, flatInts(s)...)
	}
	return out
}

func sortedInts(m map[int64]bool) []int64 {
	var out []int64
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func sortedKeysI(m map[int64]int64) []int64 {
	var out []int64
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// bidiClasses checks the types given to the classes of UAX #9, and the predicates on them.
func bidiClasses(p *Program, r *Report, t *tables) {
	classes := map[string]string{"L": "LTR", "R": "RTL", "EN": "EN", "ES": "ES", "ET": "ET", "AN": "AN", "CS": "CS", "B": "BS", "S": "SS",
		"WS": "WS", "ON": "ON", "BN": "BN", "NSM": "NSM", "AL": "AL", "LRO": "LRO", "RLO": "RLO", "LRE": "LRE", "RLE": "RLE", "PDF": "PDF",
		"LRI": "LRI", "RLI": "RLI", "FSI": "FSI", "PDI": "PDI"}
	xb := p.All["golang.org/x/text/unicode/bidi"]
	val := map[string]int64{}
	var ct types.Type
	if tn, ok := p.pkg("fribidi").Types.Scope().Lookup("CharType").(*types.TypeName); ok {
		ct = tn.Type()
	}
	names := map[string]bool{"WLTR": true, "WRTL": true}
	for _, n := range classes {
		names[n] = true
	}
	for _, n := range sortedKeys(set(keysOf(names)...)) {
		v, _, ok := p.constOf("fribidi", n)
		if !ok {
			r.find("class-undecided", "class/"+n, "", "the bidi type %s is not a constant", n)
			continue
		}
		for m, w := range val {
			if v == w {
				a, b := m, n
				if a > b {
					a, b = b, a
				}
				r.find("class", "class/"+a+"="+b, p.pos(p.pkg("fribidi").Types.Scope().Lookup(n).Pos()), "the bidi types %s and %s are the same value", a, b)
			}
		}
		val[n] = v
		r.count("bidi types", 1)
	}
	for _, fn := range p.bySig("fribidi", "bidi.Class->fribidi.CharType") {
		r.count("classifying functions", 1)
		for _, c := range sortedKeys(set(keysOfS(classes)...)) {
			k, ok := xb.Types.Scope().Lookup(c).(*types.Const)
			if !ok {
				continue
			}
			n, _ := (&lit{C: k.Val()}).i()
			res, _ := t.constResults(fn, []*aval{intLit(k.Type(), n)})
			r.count("classes folded", 1)
			got, ok := res[0].constant().i()
			if !ok {
				r.find("class-undecided", "class/"+c, p.pos(fn.Pos()), "the type %s gives to the class %s cannot be read", fname(fn), c)
			} else if got != val[classes[c]] {
				r.find("class", "class/"+c, p.pos(fn.Pos()), "%s gives to the bidi class %s another type than %s", fname(fn), c, classes[c])
			}
		}
	}
	explicit := "LRE RLE LRO RLO PDF"
	preds := map[string]string{
		"IsStrong": "LTR RTL AL LRE RLE LRO RLO", "IsRtl": "RTL AL RLE RLO RLI WRTL", "isNeutral": "BS SS WS ON LRI RLI FSI PDI", "IsLetter": "LTR RTL AL",
		"IsNumber": "EN AN", "isNumberSeparatorOrTerminator": "ES ET CS", "isExplicit": explicit, "IsIsolate": "LRI RLI FSI PDI",
		"isSeparator": "BS SS", "isOverride": "LRO RLO", "isEsOrCs": "ES CS", "isExplicitOrBn": explicit + " BN", "isExplicitOrBnOrNsm": explicit + " BN NSM",
		"isExplicitOrIsolateOrBnOrNsm": explicit + " LRI RLI FSI PDI BN NSM", "isExplicitOrBnOrWs": explicit + " BN WS",
		"isExplicitOrSeparatorOrBnOrWs": explicit + " BS SS BN WS", "IsArabic": "AL AN", "IsWeak": "EN ES ET AN CS NSM BN PDF PDI WLTR WRTL",
	}
	for _, name := range sortedKeys(set(keysOfS(preds)...)) {
		fn := p.lookupFunc("fribidi", "CharType."+name)
		if fn == nil {
			continue
		}
		r.count("predicates", 1)
		want := set(strings.Fields(preds[name])...)
		for _, n := range sortedKeys(set(keysOf(names)...)) {
			res, _ := t.constResults(fn, []*aval{intLit(ct, val[n])})
			k := res[0].constant()
			if k == nil || k.C == nil || k.C.Kind() != constant.Bool {
				r.find("predicate-undecided", name, p.pos(fn.Pos()), "%s cannot be folded for %s", fname(fn), n)
				break
			}
			r.count("predicate values", 1)
			if constant.BoolVal(k.C) != want[n] {
				r.find("predicate", name+"/"+n, p.pos(fn.Pos()), "%s is %s for %s", fname(fn), k, n)
			}
		}
	}
	// conversions
	maps := map[string]map[string]string{
		"changeNumberToRTL": {"EN": "RTL", "AN": "RTL"},
	}
	for name, m := range maps {
		if fn := p.lookupFunc("fribidi", "CharType."+name); fn != nil {
			for n, v := range val {
				w := v
				if x, ok := m[n]; ok {
					w = val[x]
				}
				res, _ := t.constResults(fn, []*aval{intLit(ct, v)})
				if got, ok := res[0].constant().i(); !ok || got != w {
					r.find("predicate", name+"/"+n, p.pos(fn.Pos()), "%s converts %s wrongly", fname(fn), n)
				}
			}
		}
	}
	if fn := p.lookupFunc("fribidi", "CharType.String"); fn != nil {
		for n, v := range val {
			res, _ := t.constResults(fn, []*aval{intLit(ct, v)})
			if got, ok := res[0].constant().s(); !ok || got != n {
				r.find("predicate", "String/"+n, p.pos(fn.Pos()), "%s prints %s as %v", fname(fn), n, res[0].constant())
			}
			r.count("names", 1)
		}
	}
}

func keysOf(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func keysOfS(m map[string]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
