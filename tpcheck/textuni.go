package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The tables of pango about characters, scripts and languages.

func init() {
	register("C21", "The tables of pango about characters, scripts and languages are folded and compared with Unicode, with the orthographies of fontconfig and with each other.", runC21)
}

type textOracle struct {
	Upright, Assigned, Ignorable [][2]int64
	Pairs                        [][2]int64
	Required                     []int64
	Scripts                      map[string]struct {
		Ranges    [][2]int64
		Rtl, Wide bool
	}
}

func inRanges(rs [][2]int64, c int64) bool {
	i := sort.Search(len(rs), func(i int) bool { return rs[i][1] >= c })
	return i < len(rs) && rs[i][0] <= c
}

func isNamedT(t types.Type, short, name string) bool {
	n, ok := t.(*types.Named)
	if !ok {
		if a, isAlias := t.(*types.Alias); isAlias {
			return isNamedT(types.Unalias(a), short, name)
		}
		return false
	}
	return n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Name() == short
}

type textTables struct {
	p *Program
	r *Report
	t *tables
	o textOracle

	scriptName map[int64]string // value of a script to its Unicode name
	scriptOf   map[rune]string
}

func (c *textTables) at(v *types.Var, l *lit) string {
	if l != nil && l.Node != nil {
		return c.p.pos(l.Node.Pos())
	}
	return c.p.pos(v.Pos())
}

// rows of a table which is never changed: its elements, or its keys and values.
func (c *textTables) fold(v *types.Var) *lit {
	e, ok := c.t.init[v].(*ast.CompositeLit)
	if !ok {
		return nil
	}
	l := c.t.eval(c.t.infos[v], e)
	if l.Unknown {
		return nil
	}
	return l
}

func runC21(p *Program, r *Report) {
	r.rule("upright: the ranges are ordered, apart, and hold exactly the characters Unicode keeps upright in vertical text")
	r.rule("pairs: opening and closing characters alternate, in order, and are the pairs of Unicode")
	r.rule("ignorables: in order, ignorable for Unicode, with a nick of 1 to 6 ASCII characters, all different")
	r.rule("scripts: the direction and the width of a script are those of its characters; the gravity fits the vertical direction")
	r.rule("languages: in order; the scripts of a language are those of its orthography, the most used first; the sample text is written in them; the sample language of a script uses it")
	c := &textTables{p: p, r: r, t: p.tables(), scriptName: map[int64]string{}, scriptOf: map[rune]string{}}
	oracle("text.json", &c.o)
	for n, s := range c.o.Scripts {
		for _, rg := range s.Ranges {
			for x := rg[0]; x <= rg[1]; x++ {
				c.scriptOf[rune(x)] = n
			}
		}
	}
	var lang *types.Package
	for _, pk := range p.All {
		if pk.Types != nil && strings.HasSuffix(pk.PkgPath, "textlayout/language") {
			lang = pk.Types
		}
	}
	if lang != nil {
		for _, n := range lang.Scope().Names() {
			if k, ok := lang.Scope().Lookup(n).(*types.Const); ok && isNamedT(k.Type(), "language", "Script") {
				if i, ok := (&lit{C: k.Val()}).i(); ok {
					c.scriptName[i] = n
				}
			}
		}
	}
	var langScripts, samples []*types.Var
	for _, v := range c.t.vars("pango") {
		var elem types.Type
		switch u := v.Type().Underlying().(type) {
		case *types.Slice:
			elem = u.Elem()
		case *types.Array:
			elem = u.Elem()
		case *types.Map:
			c.mapTable(v, u)
			continue
		default:
			continue
		}
		switch {
		case isRune(elem):
			if l := c.fold(v); l != nil && len(l.Vals) >= 60 {
				c.pairs(v, l)
			}
		case runePair(elem):
			if l := c.fold(v); l != nil && len(l.Vals) >= 60 {
				c.upright(v, l)
			}
		case nickOf(elem):
			if l := c.fold(v); l != nil && len(l.Vals) >= 10 {
				c.ignorables(v, l)
			}
		default:
			l := c.fold(v)
			if l == nil || len(l.Vals) < 20 {
				continue
			}
			switch c.record(l.Vals[0]) {
			case "scripts":
				langScripts = append(langScripts, v)
			case "sample":
				samples = append(samples, v)
			}
		}
	}
	c.languages(langScripts, samples)
	c.allScripts()
	c.rests()
	r.rule("rests: a list read piece by piece is read to its end")
	r.need("tables", r.Counts["tables"], 4)
}

func isRune(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}

func runePair(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Array:
		return u.Len() == 2 && isRune(u.Elem())
	case *types.Struct:
		return u.NumFields() == 2 && isRune(u.Field(0).Type()) && isRune(u.Field(1).Type())
	}
	return false
}

func nickOf(t types.Type) bool {
	u, ok := t.Underlying().(*types.Struct)
	if !ok || u.NumFields() != 2 {
		return false
	}
	a, b := u.Field(0).Type(), u.Field(1).Type()
	return isRune(a) && isBasicT(types.IsString)(b) || isRune(b) && isBasicT(types.IsString)(a)
}

func (c *textTables) upright(v *types.Var, l *lit) {
	c.r.count("tables", 1)
	var rows [][2]int64
	for i, e := range l.Vals {
		n := flatInts(e)
		if len(n) != 2 {
			return
		}
		c.r.count("upright ranges", 1)
		if n[0] > n[1] {
			c.r.find("upright", fmt.Sprintf("upright/empty/%04X", n[0]), c.at(v, e), "the range U+%04X to U+%04X of %s is empty: no character is found in it", n[0], n[1], v.Name())
		}
		if i > 0 && n[0] <= rows[i-1][1] {
			c.r.find("upright", fmt.Sprintf("upright/order/%04X", n[0]), c.at(v, e), "the range at U+%04X of %s does not come after the one at U+%04X: the search does not find its characters", n[0], v.Name(), rows[i-1][0])
		}
		rows = append(rows, [2]int64{n[0], n[1]})
	}
	sorted := append([][2]int64{}, rows...)
	sort.Slice(sorted, func(i, j int) bool { return sorted[i][0] < sorted[j][0] })
	bad := 0
	for _, a := range c.o.Assigned {
		for x := a[0]; x <= a[1] && bad < 10; x++ {
			want, got := inRanges(c.o.Upright, x), inRanges(sorted, x)
			if want != got {
				bad++
				say := map[bool]string{true: "upright", false: "rotated"}
				c.r.find("upright", fmt.Sprintf("upright/%04X", x), c.at(v, nil), "in vertical text U+%04X is %s for %s, and %s for Unicode", x, say[got], v.Name(), say[want])
			}
		}
		c.r.count("characters", int(a[1]-a[0]+1))
	}
}

func (c *textTables) pairs(v *types.Var, l *lit) {
	n := flatInts(l)
	want := map[int64]int64{}
	for _, p := range c.o.Pairs {
		want[p[0]] = p[1]
	}
	known := 0
	for _, x := range n {
		if _, ok := want[x]; ok {
			known++
		}
	}
	if known < len(n)/3 {
		return
	}
	c.r.count("tables", 1)
	if len(n)%2 != 0 {
		c.r.find("pairs", "pairs/odd", c.at(v, nil), "%s has %d characters, which are not pairs", v.Name(), len(n))
	}
	has := map[int64]bool{}
	for i, x := range n {
		has[x] = true
		if i > 0 && n[i-1] >= x {
			c.r.find("pairs", fmt.Sprintf("pairs/order/%04X", x), c.at(v, l.Vals[i]), "U+%04X does not come after U+%04X in %s: the search does not find it", x, n[i-1], v.Name())
		}
		if i%2 == 0 && i+1 < len(n) {
			c.r.count("pairs", 1)
			if w, ok := want[x]; !ok || w != n[i+1] {
				c.r.find("pairs", fmt.Sprintf("pairs/%04X", x), c.at(v, l.Vals[i]), "U+%04X is closed by U+%04X in %s: this is no pair of Unicode", x, n[i+1], v.Name())
			}
		}
	}
	for _, x := range c.o.Required {
		if !has[x] {
			c.r.find("pairs", fmt.Sprintf("pairs/missing/%04X", x), c.at(v, nil), "the pair of U+%04X and U+%04X is missing in %s", x, want[x], v.Name())
		}
	}
}

func (c *textTables) ignorables(v *types.Var, l *lit) {
	c.r.count("tables", 1)
	last := int64(-1)
	nicks := map[string]bool{}
	for _, e := range l.Vals {
		ch, ok := e.Fields[0].i()
		nick, ok2 := e.Fields[1].s()
		if !ok {
			ch, ok = e.Fields[1].i()
			nick, ok2 = e.Fields[0].s()
		}
		if !ok || !ok2 {
			return
		}
		c.r.count("ignorables", 1)
		if ch <= last {
			c.r.find("ignorables", fmt.Sprintf("ignorables/order/%04X", ch), c.at(v, e), "U+%04X does not come after U+%04X in %s: the search stops before it", ch, last, v.Name())
		}
		last = ch
		if !inRanges(c.o.Ignorable, ch) {
			c.r.find("ignorables", fmt.Sprintf("ignorables/%04X", ch), c.at(v, e), "U+%04X (%s) is not ignorable by default", ch, nick)
		}
		ascii := len(nick) >= 1 && len(nick) <= 6
		for _, x := range nick {
			ascii = ascii && x > ' ' && x < 0x7f
		}
		if !ascii {
			c.r.find("ignorables", fmt.Sprintf("ignorables/nick/%04X", ch), c.at(v, e), "the nick %q of U+%04X is not made of 1 to 6 ASCII characters", nick, ch)
		}
		if nicks[nick] {
			c.r.find("ignorables", fmt.Sprintf("ignorables/nick/%04X", ch), c.at(v, e), "the nick %q of U+%04X is already the one of another character", nick, ch)
		}
		nicks[nick] = true
	}
}

func (c *textTables) mapTable(v *types.Var, m *types.Map) {
	if !isNamedT(m.Key(), "language", "Script") {
		return
	}
	l := c.fold(v)
	if l == nil || len(l.Keys) < 20 {
		return
	}
	if st, ok := m.Elem().Underlying().(*types.Struct); ok {
		dir, grav, wide, vert := -1, -1, -1, -1
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			switch {
			case isNamedT(ft, "pango", "Direction"):
				dir = i
			case isNamedT(ft, "pango", "Gravity"):
				grav = i
			case isBasicT(types.IsBoolean)(ft):
				wide = i
			case isIntType(ft):
				vert = i
			}
		}
		if dir >= 0 && grav >= 0 && wide >= 0 && vert >= 0 && st.NumFields() == 4 {
			c.scriptProps(v, l, dir, grav, wide, vert)
		}
	}
}

func (c *textTables) scriptProps(v *types.Var, l *lit, dir, grav, wide, vert int) {
	konst := func(n string) int64 {
		i, _, ok := c.p.constOf("pango", n)
		if !ok {
			return -1
		}
		return i
	}
	ltr, rtl := konst("DIRECTION_LTR"), konst("DIRECTION_RTL")
	weakL, weakR := konst("DIRECTION_WEAK_LTR"), konst("DIRECTION_WEAK_RTL")
	gEast, gWest, gSouth := konst("GRAVITY_EAST"), konst("GRAVITY_WEST"), konst("GRAVITY_SOUTH")
	if ltr < 0 || rtl < 0 || gEast < 0 || gWest < 0 || gSouth < 0 {
		c.r.count("undecided", 1)
		return
	}
	c.r.count("tables", 1)
	// the vertical directions: none is that of Latin, top to bottom that of Han, bottom to top that of Ogham
	of := map[string]*lit{}
	for i, k := range l.Keys {
		n, _ := k.i()
		of[c.scriptName[n]] = l.Vals[i]
	}
	code := func(s string) int64 {
		if of[s] == nil {
			return -1
		}
		i, _ := of[s].Fields[vert].i()
		return i
	}
	none, ttb, btt := int64(0), code("Han"), code("Ogham")
	type want struct {
		vert, grav int64
		wide       bool
	}
	vertical := map[string]want{"Mongolian": {ttb, gWest, false}, "Ogham": {btt, gWest, false}, "Yi": {ttb, gSouth, true}}
	for _, s := range []string{"Bopomofo", "Han", "Hangul", "Hiragana", "Katakana"} {
		vertical[s] = want{ttb, gEast, true}
	}
	if ttb == btt || ttb == none || btt == none {
		c.r.find("scripts", "scripts/vertical", c.at(v, nil), "Han, Ogham and Latin do not have three different vertical directions in %s", v.Name())
	}
	for i, k := range l.Keys {
		n, _ := k.i()
		name := c.scriptName[n]
		o, ok := c.o.Scripts[name]
		e := l.Vals[i]
		if !ok || len(o.Ranges) == 0 {
			continue
		}
		c.r.count("scripts", 1)
		d, _ := e.Fields[dir].i()
		g, _ := e.Fields[grav].i()
		vd, _ := e.Fields[vert].i()
		w := truthOf(e.Fields[wide])
		if o.Rtl && d != rtl && d != weakR || !o.Rtl && d != ltr && d != weakL {
			c.r.find("scripts", "scripts/direction/"+name, c.at(v, e), "the script %s is %s in %s, and %s for the bidi classes of its characters", name, map[bool]string{true: "right to left", false: "left to right"}[!o.Rtl], v.Name(), map[bool]string{true: "right to left", false: "left to right"}[o.Rtl])
		}
		if w && !o.Wide {
			c.r.find("scripts", "scripts/wide/"+name, c.at(v, e), "the script %s is wide in %s, and not for the width of its characters", name, v.Name())
		}
		if x, ok := vertical[name]; ok {
			if w != x.wide {
				c.r.find("scripts", "scripts/wide/"+name, c.at(v, e), "%s does not say that the script %s is wide: %v", v.Name(), name, x.wide)
			}
			if vd != x.vert || g != x.grav {
				c.r.find("scripts", "scripts/vertical/"+name, c.at(v, e), "the script %s, written vertically, has another vertical direction or gravity in %s", name, v.Name())
			}
		} else if g != gSouth {
			c.r.find("scripts", "scripts/gravity/"+name, c.at(v, e), "the script %s is not written vertically, and does not keep the gravity south in %s", name, v.Name())
		}
	}
}

func truthOf(l *lit) bool { return l != nil && l.C != nil && l.C.ExactString() == "true" }

// record tells what is known of a language in this entry.
func (c *textTables) record(e *lit) string {
	if e == nil || e.T == nil || len(e.Fields) != 2 {
		return ""
	}
	st, ok := e.T.Underlying().(*types.Struct)
	if !ok || !isNamedT(st.Field(0).Type(), "language", "Language") {
		return ""
	}
	switch u := st.Field(1).Type().Underlying().(type) {
	case *types.Array:
		if isNamedT(u.Elem(), "language", "Script") {
			return "scripts"
		}
	case *types.Slice:
		if isNamedT(u.Elem(), "language", "Script") {
			return "scripts"
		}
	case *types.Basic:
		return "sample"
	}
	return ""
}

// matchLang: the entry used for a language, as the search does: the last one with the same first component which is a prefix.
func matchLang(tags []string, l string) int {
	first := func(s string) string {
		if i := strings.IndexByte(s, '-'); i >= 0 {
			return s[:i]
		}
		return s
	}
	for i := len(tags) - 1; i >= 0; i-- {
		if first(tags[i]) == first(l) && (tags[i] == l || strings.HasPrefix(l, tags[i]+"-")) {
			return i
		}
	}
	return -1
}

func (c *textTables) languages(langScripts, samples []*types.Var) {
	if len(langScripts) != 1 {
		c.r.count("undecided", 1)
		return
	}
	v := langScripts[0]
	l := c.fold(v)
	c.r.count("tables", 1)
	order := func(v *types.Var, l *lit) []string {
		var tags []string
		for i, e := range l.Vals {
			s, _ := e.Fields[0].s()
			tags = append(tags, s)
			for _, ch := range s {
				if !(ch == '-' || ch >= 'a' && ch <= 'z' || ch >= '0' && ch <= '9') {
					c.r.find("languages", "languages/form/"+s, c.at(v, e), "the tag %q of %s is not in canonical form: no language is equal to it", s, v.Name())
				}
			}
			if i > 0 && tags[i-1] >= s {
				c.r.find("languages", "languages/order/"+v.Name()+"/"+s, c.at(v, e), "%q does not come after %q in %s: the search does not find it", s, tags[i-1], v.Name())
			}
		}
		return tags
	}
	tags := order(v, l)
	scripts := map[string][]string{}
	dir := filepath.Join(c.p.RepoDir, "fontconfig", "lang", "orth")
	for i, e := range l.Vals {
		tag := tags[i]
		if c.record(e) != "scripts" {
			return
		}
		c.r.count("languages", 1)
		var got []string
		ended := false
		seen := map[string]bool{}
		for _, s := range e.Fields[1].Vals {
			n, _ := s.i()
			if n == 0 {
				ended = true
				continue
			}
			name := c.scriptName[n]
			if ended {
				c.r.find("languages", "languages/hole/"+tag, c.at(v, e), "the script %s of %q comes after an empty one: it is ignored", name, tag)
			}
			if seen[name] {
				c.r.find("languages", "languages/twice/"+tag, c.at(v, e), "the script %s of %q appears twice", name, tag)
			}
			seen[name] = true
			got = append(got, name)
		}
		scripts[tag] = got
		need, err := orthography(dir, strings.ReplaceAll(tag, "-", "_")+".orth", 0)
		if err != nil {
			c.r.find("languages", "languages/file/"+tag, c.at(v, e), "no orthography for the language %q", tag)
			continue
		}
		count := map[string]int{}
		for ch := range need {
			if s := c.scriptOf[ch]; s != "" {
				count[s]++
			}
		}
		bad := len(count) != len(got)
		for i, s := range got {
			bad = bad || count[s] == 0 || i > 0 && count[s] > count[got[i-1]]
		}
		if bad {
			want := sortedKeys(count)
			sort.SliceStable(want, func(i, j int) bool { return count[want[i]] > count[want[j]] })
			c.r.find("languages", "languages/scripts/"+tag, c.at(v, e), "the scripts of %q are %s, those of its orthography are %s", tag, strings.Join(got, " "), strings.Join(want, " "))
		}
	}
	for _, sv := range samples {
		sl := c.fold(sv)
		c.r.count("tables", 1)
		stags := order(sv, sl)
		for i, e := range sl.Vals {
			text, ok := e.Fields[1].s()
			if c.record(e) != "sample" || !ok {
				continue
			}
			c.r.count("sample texts", 1)
			if text == "" {
				c.r.find("languages", "languages/sample/"+stags[i], c.at(sv, e), "the sample text of %q is empty", stags[i])
			}
			k := matchLang(tags, stags[i])
			if k < 0 {
				continue
			}
			count := map[string]int{}
			for _, ch := range text {
				if s := c.scriptOf[ch]; s != "" {
					count[s]++
				}
			}
			best := ""
			for _, s := range sortedKeys(count) {
				if best == "" || count[s] > count[best] {
					best = s
				}
			}
			if best != "" && !contains(scripts[tags[k]], best) {
				c.r.find("languages", "languages/sample/"+stags[i], c.at(sv, e), "the sample text of %q is in %s, the language uses %s", stags[i], best, strings.Join(scripts[tags[k]], " "))
			}
		}
	}
	// the sample languages
	for _, mv := range c.t.vars("pango") {
		m, ok := mv.Type().Underlying().(*types.Map)
		if !ok || !isNamedT(m.Key(), "language", "Script") || !isNamedT(m.Elem(), "language", "Language") {
			continue
		}
		ml := c.fold(mv)
		if ml == nil || len(ml.Keys) < 20 {
			continue
		}
		c.r.count("tables", 1)
		for i, k := range ml.Keys {
			n, _ := k.i()
			tag, _ := ml.Vals[i].s()
			name := c.scriptName[n]
			if tag == "" || name == "" {
				continue
			}
			c.r.count("sample languages", 1)
			if j := matchLang(tags, tag); j >= 0 && !contains(scripts[tags[j]], name) {
				c.r.find("languages", "languages/sample-of/"+name, c.at(mv, ml.Vals[i]), "the sample language of the script %s is %q, which uses %s", name, tag, strings.Join(scripts[tags[j]], " "))
			}
		}
	}
}

// allScripts: a function which returns the beginning of an array of scripts, up to the first empty one, returns all of them
// when there is none.
func (c *textTables) allScripts() {
	for _, fn := range c.p.Funcs {
		if fn.Pkg != c.p.ssaPkg("pango") || fn.Signature.Results().Len() != 1 {
			continue
		}
		sl, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice)
		if !ok || !isNamedT(sl.Elem(), "language", "Script") {
			continue
		}
		for _, l := range c.p.loops(fn) {
			iff, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			cmp, ok := iff.Cond.(*ssa.BinOp)
			if !ok {
				continue
			}
			n, isC := intOf(cmp.Y)
			part := false
			for b := range l.body {
				for _, s := range b.Succs {
					if ret, ok := s.Instrs[len(s.Instrs)-1].(*ssa.Return); ok && !l.body[s] {
						if x, ok := ret.Results[0].(*ssa.Slice); ok && x.High != nil {
							if a, ok := deref(x.X.Type()).Underlying().(*types.Array); ok && isC && a.Len() == n {
								part = true
							}
						}
					}
				}
			}
			if !part {
				continue
			}
			c.r.count("lists of scripts", 1)
			for _, s := range l.header.Succs {
				if l.body[s] {
					continue
				}
				if ret, ok := s.Instrs[len(s.Instrs)-1].(*ssa.Return); ok && isNilConst(ret.Results[0]) {
					c.r.find("languages", "languages/all/"+fname(fn), c.p.pos(ret.Pos()), "%s gives no script when the language has %d of them", fname(fn), n)
				}
			}
		}
	}
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// rests: what follows the end of a piece already cut there is always empty.
func (c *textTables) rests() {
	empty := func(x, low ssa.Value) bool {
		if call, ok := low.(*ssa.Call); ok {
			if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && call.Call.Args[0] == x {
				return true
			}
		}
		s, ok := x.(*ssa.Slice)
		if !ok || s.High == nil || s.High != low {
			return false
		}
		if s.Low != nil {
			n, isC := intOf(s.Low)
			return isC && n == 0
		}
		return true
	}
	for _, fn := range c.p.Funcs {
		c.p.eachInstr(fn, func(in ssa.Instruction) {
			s, ok := in.(*ssa.Slice)
			if !ok || s.Low == nil {
				return
			}
			if n, isC := intOf(s.Low); isC && n == 0 {
				return
			}
			c.r.count("rests", 1)
			bad := empty(s.X, s.Low)
			px, ok1 := s.X.(*ssa.Phi)
			pl, ok2 := s.Low.(*ssa.Phi)
			if ok1 && ok2 && px.Block() == pl.Block() {
				bad = true
				for i := range px.Edges {
					bad = bad && empty(px.Edges[i], pl.Edges[i])
				}
			}
			if bad {
				c.r.find("rests", "rests/"+fname(fn), c.p.pos(s.Pos()), "%s keeps what follows the end of a piece already cut there: nothing is left, and the rest of the list is ignored", fname(fn))
			}
		})
	}
}
