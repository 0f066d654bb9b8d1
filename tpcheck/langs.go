package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The tables of languages.

func init() {
	register("C20", "The tables of languages of fontconfig are folded and compared with the orthography files, and with each other; the accesses to the sets of languages are evaluated for each language.", runC20)
}

// orthography reads the characters a language needs.
func orthography(dir, name string, depth int) (map[rune]bool, error) {
	out := map[rune]bool{}
	data, err := os.ReadFile(filepath.Join(dir, name))
	if err != nil || depth > 10 {
		return nil, fmt.Errorf("%s: %v", name, err)
	}
	for _, line := range strings.Split(string(data), "\n") {
		if strings.HasPrefix(line, "include ") {
			inc, err := orthography(dir, strings.TrimSpace(line[len("include "):]), depth+1)
			if err != nil {
				return nil, err
			}
			for r := range inc {
				out[r] = true
			}
			continue
		}
		if i := strings.IndexByte(line, '#'); i >= 0 {
			line = line[:i]
		}
		line = strings.TrimSpace(line)
		if i := strings.IndexByte(line, '\t'); i >= 0 {
			line = strings.TrimSpace(line[:i])
		}
		if line == "" {
			continue
		}
		del := strings.HasPrefix(line, "-")
		line = strings.TrimPrefix(line, "-")
		sep := "-"
		if !strings.Contains(line, sep) {
			sep = ".."
		}
		ends := strings.SplitN(line, sep, 2)
		var b [2]int64
		for i := range b {
			s := ends[0]
			if len(ends) == 2 {
				s = ends[i]
			}
			b[i], err = strconv.ParseInt(strings.TrimPrefix(strings.TrimSpace(s), "0x"), 16, 32)
			if err != nil {
				return nil, fmt.Errorf("%s: %v", name, err)
			}
		}
		for r := b[0]; r <= b[1]; r++ {
			if del {
				delete(out, rune(r))
			} else {
				out[rune(r)] = true
			}
		}
	}
	return out, nil
}

// runesOf a literal of a charset: pages, and 256 bits for each of them.
func runesOf(l *lit) (map[rune]bool, string) {
	if l == nil || len(l.Fields) != 2 {
		return nil, "not a literal"
	}
	nums, pages := l.Fields[0], l.Fields[1]
	if len(nums.Vals) > 0 && nums.Vals[0].C == nil {
		nums, pages = pages, nums
	}
	if len(nums.Vals) != len(pages.Vals) {
		return nil, fmt.Sprintf("%d page numbers for %d pages", len(nums.Vals), len(pages.Vals))
	}
	out := map[rune]bool{}
	last := int64(-1)
	for i, n := range nums.Vals {
		page, ok := n.i()
		if !ok || len(pages.Vals[i].Vals) != 8 {
			return nil, "not a literal"
		}
		if page <= last {
			return nil, "the pages are not in increasing order"
		}
		last = page
		for j, w := range pages.Vals[i].Vals {
			bits, _ := w.i()
			for k := 0; k < 32; k++ {
				if bits>>k&1 != 0 {
					out[rune(page<<8+int64(j*32+k))] = true
				}
			}
		}
	}
	return out, ""
}

func runC20(p *Program, r *Report) {
	r.rule("coverage: the character set of each language is that of its orthography file, with what it includes")
	r.rule("indices: the languages are sorted; the two tables of indices are inverse permutations, in the fixed order of the generator; ranges and sets of countries follow from the names")
	r.rule("sets: the accesses to the words of a set of languages use the word and the bit of the index of the language")
	r.rule("kinds: an integer is not used both as the number of a language and as the index of a bit in a set")
	t := p.tables()
	sc := p.pkg("fontconfig").Types.Scope()
	charset := sc.Lookup("Charset")
	if charset == nil {
		r.count("undecided", 1)
		return
	}
	fold := func(v *types.Var) *lit {
		e, ok := t.init[v].(*ast.CompositeLit)
		if !ok {
			return nil
		}
		l := t.eval(t.infos[v], e)
		if l.Unknown {
			return nil
		}
		return l
	}
	elem := func(v *types.Var) types.Type {
		switch u := v.Type().Underlying().(type) {
		case *types.Slice:
			return u.Elem()
		case *types.Array:
			return u.Elem()
		}
		return nil
	}
	// the languages
	var langs []string
	var sets []*lit
	var table *types.Var
	for _, v := range t.vars("fontconfig") {
		e := elem(v)
		if e == nil {
			continue
		}
		st, ok := e.Underlying().(*types.Struct)
		if !ok || st.NumFields() != 2 {
			continue
		}
		at := -1
		for i := 0; i < 2; i++ {
			if types.Identical(st.Field(i).Type(), charset.Type()) && isBasicT(types.IsString)(st.Field(1-i).Type()) {
				at = i
			}
		}
		l := (*lit)(nil)
		if at >= 0 {
			l = fold(v)
		}
		if l == nil || len(l.Vals) < 50 {
			continue
		}
		table = v
		for _, x := range l.Vals {
			s, _ := x.Fields[1-at].s()
			langs = append(langs, s)
			sets = append(sets, x.Fields[at])
		}
	}
	if table == nil {
		r.count("undecided", 1)
		r.sample("the table of languages is not found")
		return
	}
	pos := p.pos(table.Pos())
	at := func(i int) string {
		if sets[i].Node != nil {
			return p.pos(sets[i].Node.Pos())
		}
		return pos
	}
	dir := filepath.Join(p.RepoDir, "fontconfig", "lang", "orth")
	known := map[string]int{}
	for i, l := range langs {
		r.count("languages", 1)
		if _, dup := known[l]; dup {
			r.find("index", "twice "+l, at(i), "the language %q appears twice", l)
		}
		known[l] = i
		if i > 0 && langs[i-1] >= l {
			r.find("index", "order "+l, at(i), "the languages are not sorted: %q comes after %q, and is not found by the search", l, langs[i-1])
		}
		got, bad := runesOf(sets[i])
		if bad != "" {
			if bad == "not a literal" {
				r.count("undecided", 1)
			} else {
				r.find("coverage", "pages "+l, at(i), "the character set of the language %q is malformed: %s", l, bad)
			}
			continue
		}
		want, err := orthography(dir, strings.ReplaceAll(l, "-", "_")+".orth", 0)
		if err != nil {
			r.find("coverage", "file "+l, at(i), "no orthography for the language %q: %v", l, err)
			continue
		}
		r.count("characters", len(want))
		missing, more := []string{}, []string{}
		for c := range want {
			if !got[c] {
				missing = append(missing, fmt.Sprintf("U+%04X", c))
			}
		}
		for c := range got {
			if !want[c] {
				more = append(more, fmt.Sprintf("U+%04X", c))
			}
		}
		if len(missing)+len(more) > 0 {
			r.find("coverage", "set "+l, at(i), "the character set of the language %q differs from its orthography: %s", l, firstOf(missing, more))
		}
	}
	n := len(langs)
	// the permutations
	perms := map[*types.Var][]int64{}
	var permV []*types.Var
	for _, v := range t.vars("fontconfig") {
		e := elem(v)
		if e == nil || !isIntType(e) {
			continue
		}
		l := fold(v)
		if l == nil || len(l.Vals) < n-3 || len(l.Vals) > n+3 {
			continue
		}
		var k []int64
		for _, x := range l.Vals {
			i, _ := x.i()
			k = append(k, i)
		}
		perms[v] = k
		permV = append(permV, v)
	}
	// the one used to access the words of a set
	var words *types.Array
	if ls, ok := sc.Lookup("Langset").(*types.TypeName); ok {
		if st, ok := ls.Type().Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if a, ok := st.Field(i).Type().Underlying().(*types.Array); ok && isIntType(a.Elem()) {
					words = a
				}
			}
		}
	}
	var idx, inv *types.Var
	uses := map[*types.Var][]*ssa.Function{}
	for _, fn := range p.Funcs {
		if fn.Pkg != p.ssaPkg("fontconfig") {
			continue
		}
		for _, v := range t.tablesRead(fn) {
			if perms[v] != nil {
				uses[v] = append(uses[v], fn)
			}
		}
	}
	if len(permV) == 2 && words != nil {
		idx, inv = permV[0], permV[1]
		writes := func(v *types.Var) int {
			k := 0
			for _, fn := range uses[v] {
				p.eachInstr(fn, func(in ssa.Instruction) {
					if st, ok := in.(*ssa.Store); ok {
						if ia, ok := st.Addr.(*ssa.IndexAddr); ok && types.Identical(ia.X.Type().Underlying().(interface{ Elem() types.Type }).Elem(), words) {
							k++
						}
					}
				})
			}
			return k
		}
		if writes(inv) > writes(idx) {
			idx, inv = inv, idx
		}
		a, b := perms[idx], perms[inv]
		if len(a) != n || len(b) != n {
			r.find("index", "length", p.pos(idx.Pos()), "the tables of indices have %d and %d entries for %d languages", len(a), len(b), n)
			return
		}
		used := map[int64]int{}
		for i := range a {
			r.count("indices", 1)
			if a[i] < 0 || a[i] >= int64(n) {
				r.find("index", "range "+langs[i], p.pos(idx.Pos()), "the index %d of the language %q is out of range", a[i], langs[i])
				continue
			}
			if o, dup := used[a[i]]; dup {
				r.find("index", "same "+langs[i], p.pos(idx.Pos()), "the languages %q and %q have the same index %d", langs[i], langs[o], a[i])
			}
			used[a[i]] = i
			if b[a[i]] != int64(i) {
				r.find("index", "inverse "+langs[i], p.pos(inv.Pos()), "the language with the index of %q is read back as number %d", langs[i], b[a[i]])
			}
			if a[i] >= 32*words.Len() {
				r.find("index", "size "+langs[i], p.pos(idx.Pos()), "the index %d of %q does not fit in the %d words of a set", a[i], langs[i], words.Len())
			}
		}
		// in the order of the generator
		if order := generatorOrder(filepath.Join(p.RepoDir, "fontconfig", "lang"), n); order != nil {
			for i, f := range order {
				l := strings.ToLower(strings.ReplaceAll(strings.TrimSuffix(f, ".orth"), "_", "-"))
				k, ok := known[l]
				if !ok {
					r.find("index", "missing "+l, pos, "the language %q of the generator is missing from the table", l)
				} else if a[k] != int64(i) {
					r.find("index", "fixed "+l, p.pos(idx.Pos()), "the language %q has the index %d instead of %d: the sets written in caches would be read with other languages", l, a[k], i)
				}
			}
			r.count("orders of indices", 1)
		}
		runC20sets(p, r, t, idx, words, perms[idx], langs, uses[idx])
		runC20domains(p, r, table, idx, inv, words)
	} else {
		r.count("undecided", 1)
		r.sample("the tables of indices are not found")
	}
	// the sets of languages with several countries, and the ranges for each letter
	countries := map[string][]int{}
	for i, l := range langs {
		if k := strings.IndexByte(l, '-'); k > 0 {
			countries[l[:k]] = append(countries[l[:k]], i)
		}
	}
	for _, v := range t.vars("fontconfig") {
		e := elem(v)
		if e == nil {
			continue
		}
		if words != nil && idx != nil && types.Identical(e.Underlying(), words) {
			l := fold(v)
			if l == nil {
				continue
			}
			var got, want []string
			for _, s := range l.Vals {
				var w []string
				for _, x := range s.Vals {
					k, _ := x.i()
					w = append(w, fmt.Sprintf("%08x", uint32(k)))
				}
				got = append(got, strings.Join(w, " "))
			}
			wantOf := map[string]string{}
			for _, c := range sortedKeys(countries) {
				bits := make([]uint32, words.Len())
				for _, i := range countries[c] {
					k := perms[idx][i]
					if k>>5 < words.Len() && k >= 0 {
						bits[k>>5] |= 1 << (k & 31)
					}
				}
				var w []string
				for _, x := range bits {
					w = append(w, fmt.Sprintf("%08x", x))
				}
				wantOf[c] = strings.Join(w, " ")
				want = append(want, wantOf[c])
				r.count("sets of countries", 1)
				if !contains(got, wantOf[c]) {
					r.find("index", "countries "+c, p.pos(v.Pos()), "no set of this table holds the countries of the language %q", c)
				}
			}
			for i, g := range got {
				if !contains(want, g) {
					where := p.pos(v.Pos())
					if l.Vals[i].Node != nil {
						where = p.pos(l.Vals[i].Node.Pos())
					}
					r.find("index", fmt.Sprint("countries set ", i), where, "this set is not the one of the countries of a language")
				}
			}
		}
		if st, ok := e.Underlying().(*types.Struct); ok && st.NumFields() == 2 && isIntType(st.Field(0).Type()) && isIntType(st.Field(1).Type()) {
			l := fold(v)
			if l == nil || len(l.Vals) != 26 {
				continue
			}
			for c := 0; c < 26; c++ {
				r.count("ranges", 1)
				first, last := int64(-1), int64(-1)
				for i, s := range langs {
					if s != "" && s[0] == byte('a'+c) {
						if first < 0 {
							first = int64(i)
						}
						last = int64(i)
					}
				}
				b, _ := l.Vals[c].Fields[0].i()
				e, _ := l.Vals[c].Fields[1].i()
				if first < 0 && b <= e {
					r.find("index", fmt.Sprintf("letter %c", 'a'+c), p.pos(v.Pos()), "no language begins with %c, but the range is not empty", 'a'+c)
				}
				if first >= 0 && (b != first || e != last) {
					r.find("index", fmt.Sprintf("letter %c", 'a'+c), p.pos(v.Pos()), "the languages beginning with %c are looked for from %d to %d instead of %d to %d", 'a'+c, b, e, first, last)
				}
			}
		}
	}
	r.need("languages", r.Counts["languages"], 200)
}

func firstOf(missing, more []string) string {
	var out []string
	if len(missing) > 0 {
		out = append(out, fmt.Sprintf("%d missing (%s)", len(missing), least(missing)))
	}
	if len(more) > 0 {
		out = append(out, fmt.Sprintf("%d in excess (%s)", len(more), least(more)))
	}
	return strings.Join(out, ", ")
}

func least(l []string) string {
	m := l[0]
	for _, s := range l {
		if len(s) < len(m) || len(s) == len(m) && s < m {
			m = s
		}
	}
	return m
}

// generatorOrder is the list of the orthography files of the generator.
func generatorOrder(dir string, n int) []string {
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		file, err := parser.ParseFile(token.NewFileSet(), f, nil, 0)
		if err != nil {
			continue
		}
		var out []string
		ast.Inspect(file, func(nd ast.Node) bool {
			cl, ok := nd.(*ast.CompositeLit)
			if !ok || len(cl.Elts) < n {
				return true
			}
			var l []string
			for _, e := range cl.Elts {
				if b, ok := e.(*ast.BasicLit); ok && b.Kind == token.STRING {
					if s, _ := strconv.Unquote(b.Value); strings.HasSuffix(s, ".orth") {
						l = append(l, s)
					}
				}
			}
			if len(l) == len(cl.Elts) {
				out = l
			}
			return true
		})
		if out != nil {
			return out
		}
	}
	return nil
}

// runC20sets evaluates the functions accessing the words of a set for each language.
func runC20sets(p *Program, r *Report, t *tables, idx *types.Var, words *types.Array, index []int64, langs []string, fns []*ssa.Function) {
	for _, fn := range fns {
		at, accesses := -1, false
		p.eachInstr(fn, func(in ssa.Instruction) {
			var base types.Type
			switch in := in.(type) {
			case *ssa.IndexAddr:
				base = in.X.Type().Underlying()
				if pt, ok := base.(*types.Pointer); ok {
					base = pt.Elem().Underlying()
				}
			case *ssa.Index:
				base = in.X.Type().Underlying()
			}
			if base != nil && types.Identical(base, words) {
				accesses = true
			}
		})
		if !accesses {
			continue
		}
		for i, prm := range fn.Params {
			if isIntType(prm.Type()) {
				if at >= 0 {
					at = -2
					break
				}
				at = i
			}
		}
		if at < 0 || fn.Parent() != nil {
			continue
		}
		r.count("accesses to sets", 1)
		for i := range index {
			var word, shift []int64
			args := make([]*aval, len(fn.Params))
			args[at] = intLit(fn.Params[at].Type(), int64(i))
			s := &sccp{t: t, final: true}
			s.visit = func(in ssa.Instruction, get func(ssa.Value) *aval) {
				var base types.Type
				var ix ssa.Value
				switch in := in.(type) {
				case *ssa.IndexAddr:
					base, ix = in.X.Type().Underlying(), in.Index
					if pt, ok := base.(*types.Pointer); ok {
						base = pt.Elem().Underlying()
					}
				case *ssa.Index:
					base, ix = in.X.Type().Underlying(), in.Index
				case *ssa.BinOp:
					if in.Op == token.SHL || in.Op == token.SHR {
						if b, ok := in.X.Type().Underlying().(*types.Basic); ok && types.Identical(b, words.Elem().Underlying()) || isConstOne(in.X) {
							if k, ok := get(in.Y).constant().i(); ok {
								shift = append(shift, k)
							}
						}
					}
					return
				}
				if base != nil && types.Identical(base, words) {
					if k, ok := get(ix).constant().i(); ok {
						word = append(word, k)
					}
				}
			}
			s.run(fn, args)
			r.count("evaluations of sets", 1)
			for _, w := range word {
				if w != index[i]>>5 {
					r.find("set", fname(fn)+" word", p.pos(fn.Pos()), "%s looks for the language %q (index %d) in the word %d of the set instead of %d", fname(fn), langs[i], index[i], w, index[i]>>5)
					return
				}
			}
			for _, k := range shift {
				if k != index[i]&31 {
					r.find("set", fname(fn)+" bit", p.pos(fn.Pos()), "%s looks for the language %q (index %d) at the bit %d of its word instead of %d", fname(fn), langs[i], index[i], k, index[i]&31)
					return
				}
			}
			if len(word) == 0 || len(shift) == 0 {
				r.count("undecided", 1)
			}
		}
	}
}

func isConstOne(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value != nil && k.Value.ExactString() == "1"
}

// runC20domains infers which integers are numbers of languages, and which are indices of bits in a set:
// the values which flow into each other are of one kind.
func runC20domains(p *Program, r *Report, table, idx, inv *types.Var, words *types.Array) {
	parent := map[ssa.Value]ssa.Value{}
	var root func(v ssa.Value) ssa.Value
	root = func(v ssa.Value) ssa.Value {
		if q, ok := parent[v]; ok && q != v {
			x := root(q)
			parent[v] = x
			return x
		}
		return v
	}
	union := func(a, b ssa.Value) {
		if _, ok := a.(*ssa.Const); ok {
			return
		}
		if _, ok := b.(*ssa.Const); ok {
			return
		}
		if a, b = root(a), root(b); a != b {
			parent[a] = b
		}
	}
	type fact struct {
		v   ssa.Value
		bit bool
		at  token.Pos
		fn  *ssa.Function
		how string
	}
	var facts []fact
	ofTable := func(v ssa.Value) types.Object {
		if l, ok := v.(*ssa.UnOp); ok && l.Op == token.MUL {
			v = l.X
		}
		if g, ok := v.(*ssa.Global); ok {
			return g.Object()
		}
		return nil
	}
	var strip func(v ssa.Value) ssa.Value
	strip = func(v ssa.Value) ssa.Value {
		if c, ok := v.(*ssa.Convert); ok && isIntType(c.X.Type()) {
			return strip(c.X)
		}
		return v
	}
	for _, fn := range p.Funcs {
		if fn.Pkg != p.ssaPkg("fontconfig") {
			continue
		}
		wordIndex := map[ssa.Value]bool{}
		isWords := func(t types.Type) bool {
			u := t.Underlying()
			if pt, ok := u.(*types.Pointer); ok {
				u = pt.Elem().Underlying()
			}
			return types.Identical(u, words)
		}
		access := func(in ssa.Instruction, base, i, elem ssa.Value) {
			if isWords(base.Type()) {
				wordIndex[strip(i)] = true
				if b, ok := strip(i).(*ssa.BinOp); ok {
					k, isK := b.Y.(*ssa.Const)
					if isK && k.Value != nil && (b.Op == token.SHR && k.Value.ExactString() == "5" || b.Op == token.QUO && k.Value.ExactString() == "32") {
						facts = append(facts, fact{b.X, true, in.Pos(), fn, "is the bit of a set"})
					}
				}
			}
			switch o := ofTable(base); {
			case o == nil:
			case o == types.Object(table):
				facts = append(facts, fact{i, false, in.Pos(), fn, "is the number of a language in " + table.Name()})
			case o == types.Object(idx):
				facts = append(facts, fact{i, false, in.Pos(), fn, "is the number of a language in " + idx.Name()})
				facts = append(facts, fact{elem, true, in.Pos(), fn, "is an index from " + idx.Name()})
			case o == types.Object(inv):
				facts = append(facts, fact{i, true, in.Pos(), fn, "is an index in " + inv.Name()})
				facts = append(facts, fact{elem, false, in.Pos(), fn, "is the number of a language from " + inv.Name()})
			}
		}
		p.eachInstr(fn, func(in ssa.Instruction) {
			switch in := in.(type) {
			case *ssa.IndexAddr:
				var elem ssa.Value
				for _, ref := range *in.Referrers() {
					if l, ok := ref.(*ssa.UnOp); ok && l.Op == token.MUL {
						access(in, in.X, in.Index, l)
						elem = l
					}
				}
				if elem == nil {
					access(in, in.X, in.Index, in)
				}
			case *ssa.Index:
				access(in, in.X, in.Index, in)
			case *ssa.Phi:
				for _, e := range in.Edges {
					union(in, e)
				}
			case *ssa.Convert:
				if isIntType(in.Type()) && isIntType(in.X.Type()) {
					union(in, in.X)
				}
			case *ssa.ChangeType:
				union(in, in.X)
			case *ssa.BinOp:
				// the next one, the previous one
				if k, ok := in.Y.(*ssa.Const); ok && isIntType(in.Type()) && k.Value != nil && (in.Op == token.ADD || in.Op == token.SUB) && k.Value.ExactString() == "1" {
					if u, neg := in.X.(*ssa.UnOp); !neg || u.Op != token.SUB {
						union(in, in.X)
					}
				}
			case ssa.CallInstruction:
				c := in.Common()
				for _, cal := range p.callees(in) {
					if cal.Pkg != fn.Pkg || c.IsInvoke() || len(cal.Params) != len(c.Args) {
						continue
					}
					for i, a := range c.Args {
						if isIntType(a.Type()) {
							union(a, cal.Params[i])
						}
					}
				}
			}
		})
		// the bit of a word: 32 times the number of the word, and the number of the bit in the word
		p.eachInstr(fn, func(in ssa.Instruction) {
			b, ok := in.(*ssa.BinOp)
			if !ok || b.Op != token.ADD && b.Op != token.OR {
				return
			}
			for _, x := range []ssa.Value{b.X, b.Y} {
				m, ok := strip(x).(*ssa.BinOp)
				if !ok || !wordIndex[strip(m.X)] {
					continue
				}
				if k, ok := m.Y.(*ssa.Const); ok && k.Value != nil && (m.Op == token.SHL && k.Value.ExactString() == "5" || m.Op == token.MUL && k.Value.ExactString() == "32") {
					facts = append(facts, fact{b, true, in.Pos(), fn, "is the bit of a set"})
				}
			}
		})
	}
	first := map[ssa.Value]fact{}
	done := map[ssa.Value]bool{}
	for _, f := range facts {
		r.count("kinds of integers", 1)
		if !isIntType(f.v.Type()) {
			continue
		}
		if _, ok := f.v.(*ssa.Const); ok {
			continue
		}
		v := root(f.v)
		o, ok := first[v]
		if !ok {
			first[v] = f
			continue
		}
		if o.bit != f.bit && !done[v] {
			done[v] = true
			if f.fn == o.fn && f.at < o.at {
				f, o = o, f
			}
			r.find("kind", fname(f.fn)+" "+f.how, p.pos(f.at), "in %s, the same integer %s, and %s (in %s, %s): the numbers of the languages and their bits in a set are not the same", fname(f.fn), f.how, o.how, fname(o.fn), p.pos(o.at))
		}
	}
}
