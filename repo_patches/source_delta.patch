From ea087c2f4f69efaede5f41a8b4817f839bad7564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:17 +0000
Subject: [PATCH 01/42] fix: copy the values inserted by a configuration edit

The values of an edit expression were inserted in the edited pattern as is: the
charset and language values then shared memory with the configuration (or with the
query pattern), and editing the result modified them.
---
 fontconfig/substitutions.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fontconfig/substitutions.go b/fontconfig/substitutions.go
index b44b32d..6cf5458 100644
--- a/fontconfig/substitutions.go
+++ b/fontconfig/substitutions.go
@@ -101,7 +101,9 @@ func (r ruleEdit) edit(selectedKind matchKind, p, pPat Pattern, table *familyTab
 	object := r.object
 
 	// Evaluate the list of expressions
-	l := r.expr.toValues(p, pPat, selectedKind, r.binding)
+	values := r.expr.toValues(p, pPat, selectedKind, r.binding)
+	// copy: the values may belong to the configuration or to another pattern
+	l := *values.duplicate()
 
 	if tst[object].kind == MatchResult || selectedKind == MatchQuery {
 		targets[object] = p[object]
-- 
2.43.0


From cc7ca4581768628ad10bb4bc601f4b43a5566457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:17 +0000
Subject: [PATCH 02/42] fix: TabArray.Copy returned its receiver

---
 pango/tabs.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pango/tabs.go b/pango/tabs.go
index ff14e27..1766f4a 100644
--- a/pango/tabs.go
+++ b/pango/tabs.go
@@ -40,10 +40,10 @@ func (tabs *TabArray) Copy() *TabArray {
 	if tabs == nil {
 		return nil
 	}
-	copy := tabs
-	copy.Tabs = append([]Tab(nil), tabs.Tabs...)
+	out := *tabs
+	out.Tabs = append([]Tab(nil), tabs.Tabs...)
 
-	return copy
+	return &out
 }
 
 // sort ensure that the tab stops are in increasing order.
-- 
2.43.0


From 9a3305dc74b10ab570cd47500c322c61e5211aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:17 +0000
Subject: [PATCH 03/42] fix: shaping the ellipsis modified the attributes of
 the layout

---
 pango/ellipsize.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pango/ellipsize.go b/pango/ellipsize.go
index aa62b6a..097be63 100644
--- a/pango/ellipsize.go
+++ b/pango/ellipsize.go
@@ -222,6 +222,7 @@ func (state *ellipsizeState) shapeEllipsis() {
 	// Create an attribute list
 	runAttrs := state.gapStartAttr.getAttributes()
 	for _, attr := range runAttrs {
+		attr = attr.copy() // the attributes belong to the layout: leave them unchanged
 		attr.StartIndex = 0
 		attr.EndIndex = MaxInt
 		attrs.Insert(attr)
-- 
2.43.0


From 163d8f6f10c17d8ad5794c603f9a65b2afe2d7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:17 +0000
Subject: [PATCH 04/42] fix: do not modify the font description passed to
 GetMetrics

---
 pango/context.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pango/context.go b/pango/context.go
index 05a1feb..485f583 100644
--- a/pango/context.go
+++ b/pango/context.go
@@ -573,7 +573,8 @@ func (context *Context) newItemizeState(text []rune, baseDir Direction,
 			cp := state.context.fontDesc
 			state.fontDesc = &cp
 		} else {
-			state.fontDesc = desc
+			cp := *desc // desc belongs to the caller, but state.fontDesc may be modified
+			state.fontDesc = &cp
 		}
 		state.lang = state.context.language
 		state.extraAttrs = nil
-- 
2.43.0


From 367662555a15883b39264610559db5cfc0eeaf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:02 +0000
Subject: [PATCH 05/42] fix: the character attributes of the previous text
 leaked in the new ones

---
 pango/layout.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pango/layout.go b/pango/layout.go
index a1bdae2..c3f9aae 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1900,6 +1900,9 @@ func (layout *Layout) checkLines() {
 		L := len(layout.Text) + 1
 		if cap(layout.logAttrs) >= L {
 			layout.logAttrs = layout.logAttrs[:L]
+			for i := range layout.logAttrs { // forget the attributes of the previous text
+				layout.logAttrs[i] = 0
+			}
 		} else {
 			layout.logAttrs = make([]CharAttr, L)
 		}
-- 
2.43.0


From 2a1b9d9345518a5b8a7f2c7ae0f127cdf6cbc88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:04 +0000
Subject: [PATCH 06/42] fix: matching a file name against a glob recursed
 forever or read out of bounds

---
 fontconfig/match.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/fontconfig/match.go b/fontconfig/match.go
index 9ed2872..71c1adc 100644
--- a/fontconfig/match.go
+++ b/fontconfig/match.go
@@ -312,22 +312,21 @@ func strGlobMatch(glob, st string) bool {
 	for i, c := range []byte(glob) {
 		switch c {
 		case '*':
+			rest := glob[i+1:]
 			// short circuit common case
-			if i == len(glob)-1 {
+			if rest == "" {
 				return true
 			}
 			// short circuit another common case
-			if i < len(glob)-1 && glob[i+1] == '*' {
-
-				l1 := len(st) - str
-				l2 := len(glob)
+			if strings.IndexByte(rest, '*') == -1 {
+				l1, l2 := len(st)-str, len(rest)
 				if l1 < l2 {
 					return false
 				}
 				str += (l1 - l2)
 			}
 			for str < len(st) {
-				if strGlobMatch(glob, st[str:]) {
+				if strGlobMatch(rest, st[str:]) {
 					return true
 				}
 				str++
@@ -339,7 +338,7 @@ func strGlobMatch(glob, st string) bool {
 			}
 			str++
 		default:
-			if st[str] != c {
+			if str == len(st) || st[str] != c {
 				return false
 			}
 			str++
-- 
2.43.0


From f1e02f910263b20f46e1da5d3ee01635e3b70c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:06 +0000
Subject: [PATCH 07/42] fix: file name globs ignored their errors and did not
 cross directories

---
 fontconfig/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fontconfig/config.go b/fontconfig/config.go
index 2b36b1a..4ce5862 100644
--- a/fontconfig/config.go
+++ b/fontconfig/config.go
@@ -280,7 +280,7 @@ func (config *Config) patternsAdd(pattern Pattern, accept bool) {
 func (config *Config) acceptFilename(filename string) bool {
 	globsMatch := func(globs strSet, name string) bool {
 		for glob := range globs {
-			if ok, _ := filepath.Match(glob, name); ok {
+			if strGlobMatch(glob, name) {
 				return true
 			}
 		}
-- 
2.43.0


From 179bbec3cdb7a549e84910ca94b7387fe78de233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:37 +0000
Subject: [PATCH 08/42] fix: the cache file stayed open when writing it failed

---
 fontconfig/cache.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fontconfig/cache.go b/fontconfig/cache.go
index 8294d47..450cd7e 100644
--- a/fontconfig/cache.go
+++ b/fontconfig/cache.go
@@ -461,6 +461,7 @@ func ScanAndCache(fontsFileCache string) (Fontset, error) {
 	}
 
 	if err = out.Serialize(f); err != nil {
+		f.Close()
 		return nil, err
 	}
 
-- 
2.43.0


From df51bc82c50c8b743a9cc3a20921f4654c02322e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:59 +0000
Subject: [PATCH 09/42] fix: keep the order of the font set among fonts with
 the same score

---
 fontconfig/match.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fontconfig/match.go b/fontconfig/match.go
index 71c1adc..1560420 100644
--- a/fontconfig/match.go
+++ b/fontconfig/match.go
@@ -881,7 +881,7 @@ func (set Fontset) Sort(p Pattern, trim bool) (Fontset, Charset) {
 		nodes[i] = newPtr
 	}
 
-	sort.Slice(nodes, func(i, j int) bool { return sortCompare(nodes[i], nodes[j]) })
+	sort.SliceStable(nodes, func(i, j int) bool { return sortCompare(nodes[i], nodes[j]) })
 
 	for _, node := range nodes {
 		satisfies := false
@@ -906,7 +906,7 @@ func (set Fontset) Sort(p Pattern, trim bool) (Fontset, Charset) {
 	}
 
 	// re-sort once the language issues have been settled
-	sort.Slice(nodes, func(i, j int) bool { return sortCompare(nodes[i], nodes[j]) })
+	sort.SliceStable(nodes, func(i, j int) bool { return sortCompare(nodes[i], nodes[j]) })
 
 	return sortWalk(nodes, trim)
 }
-- 
2.43.0


From 0eb9aa1a765afe2ee199963e3ea085175bc58823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:00 +0000
Subject: [PATCH 10/42] fix: list the fonts in the order of the font set

---
 fontconfig/list.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/fontconfig/list.go b/fontconfig/list.go
index d7273d6..3b48b4e 100644
--- a/fontconfig/list.go
+++ b/fontconfig/list.go
@@ -90,16 +90,18 @@ func (font Pattern) getDefaultObjectLangIndex(object Object, lang string) int {
 	return 0
 }
 
-func listAppend(table map[string]Pattern, font Pattern, os []Object, lang string) {
+// listAppend returns the pattern to add to the list, or nil if `table` already has it
+func listAppend(table map[string]bool, font Pattern, os []Object, lang string) Pattern {
 	familyidx := -1
 	defidx := 0
 	fullnameidx := -1
 	styleidx := -1
 
 	hash := patternHash(font, os)
-	if _, has := table[hash]; has {
-		return
+	if table[hash] {
+		return nil
 	}
+	table[hash] = true
 
 	pattern := NewPattern()
 	for _, obj := range os {
@@ -128,7 +130,7 @@ func listAppend(table map[string]Pattern, font Pattern, os []Object, lang string
 			pattern.Add(obj, v.Value, defidx != idx)
 		}
 	}
-	table[hash] = pattern
+	return pattern
 }
 
 func getDefaultLang() string {
@@ -143,7 +145,10 @@ func getDefaultLang() string {
 // only the objects in `objs` and returns the set of unique such patterns.
 // If no objects are specified, default to all builtin objects.
 func (set Fontset) List(p Pattern, objs ...Object) Fontset {
-	table := make(map[string]Pattern)
+	var (
+		table = make(map[string]bool)
+		ret   = make(Fontset, 0)
+	)
 
 	if len(objs) == 0 { // default to all objects
 		for i := Object(1); i < FirstCustomObject; i++ {
@@ -158,14 +163,11 @@ func (set Fontset) List(p Pattern, objs ...Object) Fontset {
 			if res != ResultMatch {
 				lang = getDefaultLang()
 			}
-			listAppend(table, font, objs, lang)
+			if pattern := listAppend(table, font, objs, lang); pattern != nil {
+				ret = append(ret, pattern)
+			}
 		}
 	}
 
-	// Walk the hash table and build a font set
-	ret := make(Fontset, 0, len(table))
-	for _, font := range table {
-		ret = append(ret, font)
-	}
 	return ret
 }
-- 
2.43.0


From a2b30c281d9d757ef65dad4b4014c44d84b1893a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:02 +0000
Subject: [PATCH 11/42] fix: the additional languages were not compared by
 containsLang and includes

---
 fontconfig/lang.go | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/fontconfig/lang.go b/fontconfig/lang.go
index a2adc44..15f825e 100644
--- a/fontconfig/lang.go
+++ b/fontconfig/lang.go
@@ -372,13 +372,12 @@ func (ls Langset) containsLang(lang string) bool {
 		}
 	}
 
-	var extra string
-	for extra = range ls.extra {
+	for extra := range ls.extra {
 		if langContains(extra, lang) {
-			break
+			return true
 		}
 	}
-	return extra != ""
+	return false
 }
 
 // return true if lsa contains every language in lsb
@@ -400,18 +399,14 @@ func (lsa Langset) includes(lsb Langset) bool {
 			}
 		}
 	}
-	var extra string
 	for extra := range lsb.extra {
 		if !lsa.containsLang(extra) {
 			if debugMode {
 				fmt.Printf("\tMissing string %s\n", extra)
 			}
-			break
+			return false
 		}
 	}
-	if extra != "" {
-		return false
-	}
 	return true
 }
 
-- 
2.43.0


From 1a7f55611ba95644e9495c9e8b65fd39e66c2247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:20 +0000
Subject: [PATCH 12/42] fix: print, hash and serialize patterns and languages
 in a fixed and unambiguous way

---
 fontconfig/cache.go   |  3 ++-
 fontconfig/lang.go    | 20 ++++++++++++--------
 fontconfig/pattern.go |  4 ++--
 fontconfig/values.go  | 11 +++++++++--
 4 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/fontconfig/cache.go b/fontconfig/cache.go
index 450cd7e..6e5c4e1 100644
--- a/fontconfig/cache.go
+++ b/fontconfig/cache.go
@@ -58,7 +58,8 @@ func (p Pattern) serializeBin() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	for obj, list := range p {
+	for _, obj := range p.sortedKeys() {
+		list := p[obj]
 		binary.BigEndian.PutUint16(buf[:], uint16(obj))
 		_, err := w.Write(buf[:])
 		if err != nil {
diff --git a/fontconfig/lang.go b/fontconfig/lang.go
index 15f825e..f89bce9 100644
--- a/fontconfig/lang.go
+++ b/fontconfig/lang.go
@@ -44,15 +44,21 @@ func (l Langset) hash() []byte {
 	for i, v := range l.page {
 		binary.BigEndian.PutUint32(out[4*i:], v)
 	}
-	extra := make([]string, len(l.extra))
+	for _, s := range l.sortedExtra() {
+		out = append(out, s...)
+		out = append(out, 0)
+	}
+	return out
+}
+
+// sortedExtra returns the languages not supported by the bitmap
+func (l Langset) sortedExtra() []string {
+	extra := make([]string, 0, len(l.extra))
 	for ex := range l.extra {
 		extra = append(extra, ex)
 	}
 	sort.Strings(extra)
-	for _, s := range extra {
-		out = append(out, s...)
-	}
-	return out
+	return extra
 }
 
 func newCharSetFromLang(lang string) *Charset {
@@ -316,9 +322,7 @@ func (ls Langset) String() string {
 		}
 	}
 
-	for extra := range ls.extra {
-		chunks = append(chunks, extra)
-	}
+	chunks = append(chunks, ls.sortedExtra()...)
 	return strings.Join(chunks, "|")
 }
 
diff --git a/fontconfig/pattern.go b/fontconfig/pattern.go
index 681ce09..b247158 100644
--- a/fontconfig/pattern.go
+++ b/fontconfig/pattern.go
@@ -151,8 +151,8 @@ func (p Pattern) String() string {
 	}
 	s := fmt.Sprintf("Pattern(len %d):\n", len(p))
 
-	for obj, vs := range p {
-		s += fmt.Sprintf("\t%s: %v\n", obj, vs)
+	for _, obj := range p.sortedKeys() {
+		s += fmt.Sprintf("\t%s: %v\n", obj, p[obj])
 	}
 
 	return s
diff --git a/fontconfig/values.go b/fontconfig/values.go
index fe957ab..13aa879 100644
--- a/fontconfig/values.go
+++ b/fontconfig/values.go
@@ -1,6 +1,7 @@
 package fontconfig
 
 import (
+	"encoding/binary"
 	"fmt"
 	"io"
 	"log"
@@ -313,9 +314,15 @@ func (b valueBinding) String() string {
 type valueList []valueElt
 
 func (vs valueList) Hash() []byte {
-	var hash []byte
+	var (
+		hash []byte
+		buf  [4]byte
+	)
 	for _, v := range vs {
-		hash = append(hash, v.hash()...)
+		// to make the hash unique, we add the length of each value
+		tmp := v.hash()
+		binary.BigEndian.PutUint32(buf[:], uint32(len(tmp)))
+		hash = append(append(hash, buf[:]...), tmp...)
 	}
 	return hash
 }
-- 
2.43.0


From a5cf88ad2e3e25337a75fd16abed0e85a85f9829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:33 +0000
Subject: [PATCH 13/42] fix: the default languages ignored their order and the
 documented environment variables

---
 fontconfig/fontconfig.go    | 31 ++++++++++---------------------
 fontconfig/lang.go          | 19 +++++++++----------
 fontconfig/list.go          |  8 +-------
 fontconfig/substitutions.go |  2 +-
 4 files changed, 21 insertions(+), 39 deletions(-)

diff --git a/fontconfig/fontconfig.go b/fontconfig/fontconfig.go
index 41a1ad0..634700b 100644
--- a/fontconfig/fontconfig.go
+++ b/fontconfig/fontconfig.go
@@ -252,15 +252,15 @@ func WeightToOT(fcWeight float32) float32 {
 }
 
 var (
-	defaultLangs     strSet
+	defaultLangs     []string
 	defaultLangsLock sync.Mutex
 )
 
-// Returns a string set of the default languages according to the environment variables on the system.
+// Returns the default languages according to the environment variables on the system.
 // This function looks for them in order of FC_LANG, LC_ALL, LC_CTYPE and LANG then.
 // If there are no valid values in those environment variables, "en" will be set as fallback.
 // Thus, it always returns at least one language.
-func getDefaultLangs() strSet {
+func getDefaultLangs() []string {
 	defaultLangsLock.Lock()
 	defer defaultLangsLock.Unlock()
 
@@ -268,25 +268,14 @@ func getDefaultLangs() strSet {
 		return defaultLangs
 	}
 
-	defaultLangs = make(strSet)
-
-	langs := os.Getenv("LANG")
-	if langs == "" {
-		langs = os.Getenv("LC_ALL")
-	}
-	if langs == "" {
-		langs = os.Getenv("LC_CTYPE")
-	}
-	if langs == "" {
-		langs = os.Getenv("LANG")
-	}
-	if langs != "" {
-		ok := addLangs(defaultLangs, langs)
-		if !ok {
-			defaultLangs["en"] = true
+	for _, name := range [...]string{"FC_LANG", "LC_ALL", "LC_CTYPE", "LANG"} {
+		if langs := os.Getenv(name); langs != "" {
+			defaultLangs = parseLangs(langs)
+			break
 		}
-	} else {
-		defaultLangs["en"] = true
+	}
+	if len(defaultLangs) == 0 {
+		defaultLangs = []string{"en"}
 	}
 
 	return defaultLangs
diff --git a/fontconfig/lang.go b/fontconfig/lang.go
index f89bce9..005d209 100644
--- a/fontconfig/lang.go
+++ b/fontconfig/lang.go
@@ -436,22 +436,21 @@ func (ls Langset) Copy() Langset {
 	return new
 }
 
-// return true it at least one language has been added
-func addLangs(strs strSet, languages string) bool {
-	var ret bool
-	ls := strings.Split(languages, ":")
-	for _, lang := range ls {
+// returns the valid languages of a colon separated list, in order and without duplicates
+func parseLangs(languages string) []string {
+	var out []string
+	seen := make(strSet)
+	for _, lang := range strings.Split(languages, ":") {
 		if lang == "" { // ignore an empty item
 			continue
 		}
 		normalizedLang := normalizeLang(lang)
-		if normalizedLang != "" {
-			strs[normalizedLang] = true
-			ret = true
+		if normalizedLang != "" && !seen[normalizedLang] {
+			seen[normalizedLang] = true
+			out = append(out, normalizedLang)
 		}
 	}
-
-	return ret
+	return out
 }
 
 // Keep Han languages separated by eliminating languages that the codePageRange bits says aren't supported
diff --git a/fontconfig/list.go b/fontconfig/list.go
index 3b48b4e..8a06592 100644
--- a/fontconfig/list.go
+++ b/fontconfig/list.go
@@ -133,13 +133,7 @@ func listAppend(table map[string]bool, font Pattern, os []Object, lang string) P
 	return pattern
 }
 
-func getDefaultLang() string {
-	langs := getDefaultLangs()
-	for s := range langs {
-		return s
-	}
-	return ""
-}
+func getDefaultLang() string { return getDefaultLangs()[0] }
 
 // List selects fonts matching `p` (all if p is empty), creates patterns from those fonts containing
 // only the objects in `objs` and returns the set of unique such patterns.
diff --git a/fontconfig/substitutions.go b/fontconfig/substitutions.go
index 6cf5458..a1360d4 100644
--- a/fontconfig/substitutions.go
+++ b/fontconfig/substitutions.go
@@ -399,7 +399,7 @@ func substituteLang(p Pattern) {
 	var lsund Langset
 	lsund.add("und")
 
-	for lang := range strs {
+	for _, lang := range strs {
 		for _, ll := range p.getVals(LANG) {
 			vvL := ll.Value
 
-- 
2.43.0


From d254e5f4973793dc1512bd4ee299103d8734cc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:34 +0000
Subject: [PATCH 14/42] fix: keep the order of cursors and tabs at the same
 position

---
 pango/layout_cursors.go | 2 +-
 pango/tabs.go           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pango/layout_cursors.go b/pango/layout_cursors.go
index b89d9eb..5ceee0a 100644
--- a/pango/layout_cursors.go
+++ b/pango/layout_cursors.go
@@ -154,7 +154,7 @@ func (line *LayoutLine) getCursors(strong bool) []CursorPos {
 		}
 	}
 
-	sort.Slice(cursors, func(i, j int) bool { return cursors[i].x < cursors[j].x })
+	sort.SliceStable(cursors, func(i, j int) bool { return cursors[i].x < cursors[j].x })
 
 	return cursors
 }
diff --git a/pango/tabs.go b/pango/tabs.go
index 1766f4a..73489c9 100644
--- a/pango/tabs.go
+++ b/pango/tabs.go
@@ -52,7 +52,7 @@ func (tabs *TabArray) sort() {
 		return
 	}
 	s := tabs.Tabs
-	sort.Slice(s, func(i, j int) bool { return s[i].Location < s[j].Location })
+	sort.SliceStable(s, func(i, j int) bool { return s[i].Location < s[j].Location })
 }
 
 type lastTabState struct {
-- 
2.43.0


From dba65d124df86c6425bec5b20a73d3e8850faf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:07 +0000
Subject: [PATCH 15/42] fix: only canonically equivalent brackets form the same
 pair

---
 fribidi/brackets_table.go | 40 +++++++++++++++++++--------------------
 fribidi/unidata/gen.go    |  7 +++++--
 2 files changed, 25 insertions(+), 22 deletions(-)

diff --git a/fribidi/brackets_table.go b/fribidi/brackets_table.go
index f9d66d8..c76e841 100644
--- a/fribidi/brackets_table.go
+++ b/fribidi/brackets_table.go
@@ -17,10 +17,10 @@ var bracketsTable = map[rune]rune{
 	0x169c: 5787,
 	0x2045: 8261,
 	0x2046: 8261,
-	0x207d: 40,
-	0x207e: 40,
-	0x208d: 40,
-	0x208e: 40,
+	0x207d: 8317,
+	0x207e: 8317,
+	0x208d: 8333,
+	0x208e: 8333,
 	0x2308: 8968,
 	0x2309: 8968,
 	0x230a: 8970,
@@ -107,20 +107,20 @@ var bracketsTable = map[rune]rune{
 	0x3019: 12312,
 	0x301a: 12314,
 	0x301b: 12314,
-	0xfe59: 40,
-	0xfe5a: 40,
-	0xfe5b: 123,
-	0xfe5c: 123,
-	0xfe5d: 12308,
-	0xfe5e: 12308,
-	0xff08: 40,
-	0xff09: 40,
-	0xff3b: 91,
-	0xff3d: 91,
-	0xff5b: 123,
-	0xff5d: 123,
-	0xff5f: 10629,
-	0xff60: 10629,
-	0xff62: 12300,
-	0xff63: 12300,
+	0xfe59: 65113,
+	0xfe5a: 65113,
+	0xfe5b: 65115,
+	0xfe5c: 65115,
+	0xfe5d: 65117,
+	0xfe5e: 65117,
+	0xff08: 65288,
+	0xff09: 65288,
+	0xff3b: 65339,
+	0xff3d: 65339,
+	0xff5b: 65371,
+	0xff5d: 65371,
+	0xff5f: 65375,
+	0xff60: 65375,
+	0xff62: 65378,
+	0xff63: 65378,
 }
diff --git a/fribidi/unidata/gen.go b/fribidi/unidata/gen.go
index 17d7ac7..b1145bb 100644
--- a/fribidi/unidata/gen.go
+++ b/fribidi/unidata/gen.go
@@ -91,8 +91,11 @@ func parseUnicodeData() error {
 			}
 		}
 
-		// equiv table
-		equivTable[c] = unshaped
+		// equiv table: only the canonical equivalents are brackets
+		// of the same pair (see UAX #9, BD16)
+		if tag == "" {
+			equivTable[c] = unshaped
+		}
 	}
 	shapingTable.min, shapingTable.max = min, max
 
-- 
2.43.0


From a68d7790ef8d57dabac44ec1601dd42c4ef8a622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:30 +0000
Subject: [PATCH 16/42] fix: comparing an empty family or PostScript name does
 not panic

---
 fontconfig/match.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fontconfig/match.go b/fontconfig/match.go
index 1560420..3026b6e 100644
--- a/fontconfig/match.go
+++ b/fontconfig/match.go
@@ -91,7 +91,7 @@ func compareFamily(v1, v2 Value) (Value, float32) {
 	bestValue := v2
 
 	if toLower(v1String) != toLower(v2String) &&
-		v1String[0] != ' ' && v2String[0] != ' ' {
+		!strings.HasPrefix(v1String, " ") && !strings.HasPrefix(v2String, " ") {
 		return bestValue, 1.0
 	}
 
@@ -126,12 +126,18 @@ func comparePostScript(v1, v2 Value) (Value, float32) {
 	bestValue := v2
 
 	if toLower(v1_string) != toLower(v2_string) &&
-		v1_string[0] != ' ' && v2_string[0] != ' ' {
+		!strings.HasPrefix(v1_string, " ") && !strings.HasPrefix(v2_string, " ") {
 		return bestValue, 1.0
 	}
 
 	n := matchIgnoreCaseAndDelims(v1_string, v2_string)
 	length := len(v1_string)
+	if length == 0 { // the distance is relative to the length
+		if v2_string == "" {
+			return bestValue, 0
+		}
+		return bestValue, 1
+	}
 
 	return bestValue, float32(length-n) / float32(length)
 }
-- 
2.43.0


From 7262d8a111cd2eaaffbd29d91f293e4c3bfe6269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:42 +0000
Subject: [PATCH 17/42] fix: the logical operators of the configuration accept
 the value DontCare

---
 fontconfig/expr.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/fontconfig/expr.go b/fontconfig/expr.go
index b623134..ac0e8d3 100644
--- a/fontconfig/expr.go
+++ b/fontconfig/expr.go
@@ -375,9 +375,9 @@ func (e *expression) evaluate(result, query Pattern, kind matchKind) Value {
 			}
 			switch op {
 			case opOr:
-				v = vle | vre
+				v = toBool(vle != False || vre != False)
 			case opAnd:
-				v = vle & vre
+				v = toBool(vle != False && vre != False)
 			}
 		case String:
 			vre, sameType := vre.(String)
@@ -424,7 +424,7 @@ func (e *expression) evaluate(result, query Pattern, kind matchKind) Value {
 		tree := e.u.(exprTree)
 		vl := tree.left.evaluate(result, query, kind)
 		if b, ok := vl.(Bool); ok {
-			v = 1 - b&1
+			v = toBool(b == False)
 		}
 	case opFloor, opCeil, opRound, opTrunc:
 		tree := e.u.(exprTree)
@@ -448,6 +448,14 @@ func (e *expression) evaluate(result, query Pattern, kind matchKind) Value {
 	return v
 }
 
+// DontCare is used as true by the logical operators
+func toBool(b bool) Bool {
+	if b {
+		return True
+	}
+	return False
+}
+
 func (parser *configParser) typecheckValue(value, type_ typeMeta) error {
 	if (value == typeInt{}) {
 		value = typeFloat{}
-- 
2.43.0


From bc19d3dd52ea3f524eb394ed12ac5166a10aa80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:29 +0000
Subject: [PATCH 18/42] fix: edits following an insertion or a deletion
 occurred at the wrong value

---
 fontconfig/substitutions.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/fontconfig/substitutions.go b/fontconfig/substitutions.go
index a1360d4..45a30f2 100644
--- a/fontconfig/substitutions.go
+++ b/fontconfig/substitutions.go
@@ -118,14 +118,18 @@ func (r ruleEdit) edit(selectedKind matchKind, p, pPat Pattern, table *familyTab
 			thisValue := valuePos[object]
 
 			// Append the newList list of values after the current value
-			targetList.insert(thisValue, true, l, object, table)
+			inserted := targetList.insert(thisValue, true, l, object, table)
 
 			//  Delete the marked value
 			if thisValue != -1 {
 				targetList.del(thisValue, object, table)
 			}
 
-			// Adjust a pointer into the value list to ensure future edits occur at the same place
+			// The first of the new values is now at `thisValue`, if there is one:
+			// future edits occur at the same place
+			if !inserted || len(l) == 0 {
+				valuePos[object] = -1
+			}
 			break
 		}
 		fallthrough
@@ -137,12 +141,18 @@ func (r ruleEdit) edit(selectedKind matchKind, p, pPat Pattern, table *familyTab
 		valuePos[object] = -1
 	case opPrepend:
 		if valuePos[object] != -1 {
-			targetList.insert(valuePos[object], false, l, object, table)
+			if targetList.insert(valuePos[object], false, l, object, table) {
+				valuePos[object] += len(l) // the matched value has moved
+			}
 			break
 		}
 		fallthrough
 	case opPrependFirst:
+		before := len(p.getVals(object))
 		p.addWithTable(object, l, false, table)
+		if valuePos[object] != -1 {
+			valuePos[object] += len(p.getVals(object)) - before // the matched value has moved
+		}
 	case opAppend:
 		if valuePos[object] != -1 {
 			targetList.insert(valuePos[object], true, l, object, table)
@@ -154,11 +164,13 @@ func (r ruleEdit) edit(selectedKind matchKind, p, pPat Pattern, table *familyTab
 	case opDelete:
 		if valuePos[object] != -1 {
 			targetList.del(valuePos[object], object, table)
+			valuePos[object] = -1
 			break
 		}
 		fallthrough
 	case opDeleteAll:
 		p.delWithTable(object, table)
+		valuePos[object] = -1
 	}
 	// Now go through the pattern and eliminate any properties without data
 	p.canon(object)
-- 
2.43.0


From 3c3c451b447727837a422bdf9dbb69d53cbc9a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:30 +0000
Subject: [PATCH 19/42] fix: a <family> or a <test> used as an expression made
 the configuration panic

---
 fontconfig/xml.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fontconfig/xml.go b/fontconfig/xml.go
index a18b6ab..51d7b1e 100644
--- a/fontconfig/xml.go
+++ b/fontconfig/xml.go
@@ -666,13 +666,13 @@ func (parser *configParser) popExpr() *expression {
 		return nil
 	}
 	switch vstack.tag {
-	case vstackString, vstackFamily:
+	case vstackString:
 		expr = &expression{op: opString, u: vstack.u}
 	case vstackName:
 		expr = &expression{op: opField, u: vstack.u}
 	case vstackConstant:
 		expr = &expression{op: opConst, u: vstack.u}
-	case vstackPrefer, vstackAccept, vstackDefault:
+	case vstackFamily, vstackPrefer, vstackAccept, vstackDefault:
 		expr = vstack.u.(*expression)
 		vstack.tag = vstackNone
 	case vstackInt:
@@ -689,7 +689,7 @@ func (parser *configParser) popExpr() *expression {
 		expr = &expression{op: opCharSet, u: vstack.u}
 	case vstackLangSet:
 		expr = &expression{op: opLangSet, u: vstack.u}
-	case vstackTest, vstackExpr:
+	case vstackExpr:
 		expr = vstack.u.(*expression)
 		vstack.tag = vstackNone
 	}
-- 
2.43.0


From bb3a0effe92d0be827a40b9dc77f39f4bd7bdd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:32 +0000
Subject: [PATCH 20/42] fix: testing the family against a missing value does
 not panic

---
 fontconfig/substitutions.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fontconfig/substitutions.go b/fontconfig/substitutions.go
index 45a30f2..1d83b7e 100644
--- a/fontconfig/substitutions.go
+++ b/fontconfig/substitutions.go
@@ -369,17 +369,18 @@ func matchValueList(p, pPat Pattern, kind matchKind,
 			e = nil
 		}
 
-		if t.object == FAMILY && table != nil {
+		// the table only knows about strings
+		if family, ok := value.(String); ok && t.object == FAMILY && table != nil {
 			op := t.op.getOp()
 			if op == opEqual || op == opListing {
-				if !table.lookup(t.op, value.(String)) {
+				if !table.lookup(t.op, family) {
 					ret = -1
 					continue
 				}
 			}
 			if op == opNotEqual && t.qual == qualAll {
 				ret = -1
-				if !table.lookup(t.op, value.(String)) {
+				if !table.lookup(t.op, family) {
 					ret = 0
 				}
 				continue
-- 
2.43.0


From a87fa87b49e5ccb96f9691befe056d80f04be8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:37 +0000
Subject: [PATCH 21/42] fix: the font_scale attribute of the markup read the
 value of baseline_shift, and did not know small-caps

---
 pango/attributes.go | 1 +
 pango/markup.go     | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/pango/attributes.go b/pango/attributes.go
index 3ea81b2..31c19c2 100644
--- a/pango/attributes.go
+++ b/pango/attributes.go
@@ -219,6 +219,7 @@ var fontScaleMap = enumMap{
 	{value: int(FONT_SCALE_NONE), str: "none"},
 	{value: int(FONT_SCALE_SUPERSCRIPT), str: "superscript"},
 	{value: int(FONT_SCALE_SUBSCRIPT), str: "subscript"},
+	{value: int(FONT_SCALE_SMALL_CAPS), str: "small-caps"},
 }
 
 // AttrData stores the type specific value of
diff --git a/pango/markup.go b/pango/markup.go
index 4668c94..3619234 100644
--- a/pango/markup.go
+++ b/pango/markup.go
@@ -1227,7 +1227,7 @@ func span_parse_func(tag *openTag, attrs []xml.Attr) error {
 	}
 
 	if fontScale != "" {
-		fs, err := spanParseEnum("font_scale", baselineShift, fontScaleMap)
+		fs, err := spanParseEnum("font_scale", fontScale, fontScaleMap)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 7fd7e72019c35eb39a10350499f403daffb347ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:39 +0000
Subject: [PATCH 22/42] fix: an alpha out of range in the markup was truncated
 to 16 bits instead of being an error

---
 pango/markup.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pango/markup.go b/pango/markup.go
index 3619234..e3d8c5a 100644
--- a/pango/markup.go
+++ b/pango/markup.go
@@ -671,11 +671,11 @@ func spanParseAlpha(attrName, attrVal string) (uint16, error) {
 			attrName, lineColNumber, attrVal)
 	}
 
-	if !hasPercent {
+	if !hasPercent && intVal > 0 && intVal <= 0xffff {
 		return uint16(intVal), nil
 	}
 
-	if intVal > 0 && intVal <= 100 {
+	if hasPercent && intVal > 0 && intVal <= 100 {
 		return uint16(intVal * 0xffff / 100), nil
 	}
 	return 0, fmt.Errorf("Value of '%s' attribute on <span> tag on line %d could not be parsed; should be between 0 and 65536 or a percentage, not '%s'",
-- 
2.43.0


From d4f88dd9ce8730bccc57228ef8c984f0c2969519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:41 +0000
Subject: [PATCH 23/42] fix: numeric weights were refused by the markup

---
 pango/fonts.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pango/fonts.go b/pango/fonts.go
index f205fd4..097221e 100644
--- a/pango/fonts.go
+++ b/pango/fonts.go
@@ -469,8 +469,11 @@ func pango_parse_variant(str string) (Variant, bool) {
 // "ultrabold", "bold", "normal", "light", "ultraleight"
 // and integers. Case variations are ignored.
 func pango_parse_weight(str string) (Weight, bool) {
-	i, b := weight_map.parse_field(str)
-	return Weight(i), b
+	if i, b := weight_map.parse_field(str); b {
+		return Weight(i), true
+	}
+	i, err := strconv.Atoi(str)
+	return Weight(i), err == nil
 }
 
 // pango_parse_stretch parses a font stretch. The allowed values are
-- 
2.43.0


From d0f1cef2eb703865977b55f5a5c3208f54624b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:22 +0000
Subject: [PATCH 24/42] fix: a tag opened after an accelerator made ParseMarkup
 panic

---
 pango/markup.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pango/markup.go b/pango/markup.go
index e3d8c5a..d336776 100644
--- a/pango/markup.go
+++ b/pango/markup.go
@@ -51,10 +51,6 @@ type markupData struct {
 }
 
 func (md *markupData) openTag() *openTag {
-	if len(md.attr_list) != 0 {
-		return nil
-	}
-
 	var parent *openTag
 	if len(md.tag_stack) != 0 {
 		parent = md.tag_stack[0]
-- 
2.43.0


From a463c1ae0964aadeea83c19c6ae44d1bbe92f6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:46 +0000
Subject: [PATCH 25/42] fix: a colour with signs instead of digits was accepted

---
 pango/color.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pango/color.go b/pango/color.go
index 73c7ef0..eaabde4 100644
--- a/pango/color.go
+++ b/pango/color.go
@@ -43,21 +43,21 @@ func pango_color_parse_with_alpha(spec string, withAlpha bool) (AttrColor, uint1
 		}
 		spec = spec[1:]
 
-		r, err := strconv.ParseInt(spec[0:len], 16, 32)
+		r, err := strconv.ParseUint(spec[0:len], 16, 32)
 		if err != nil {
 			return AttrColor{}, 0, false
 		}
-		g, err := strconv.ParseInt(spec[len:2*len], 16, 32)
+		g, err := strconv.ParseUint(spec[len:2*len], 16, 32)
 		if err != nil {
 			return AttrColor{}, 0, false
 		}
-		b, err := strconv.ParseInt(spec[2*len:3*len], 16, 32)
+		b, err := strconv.ParseUint(spec[2*len:3*len], 16, 32)
 		if err != nil {
 			return AttrColor{}, 0, false
 		}
 
 		if has_alpha {
-			a, err := strconv.ParseInt(spec[3*len:4*len], 16, 32)
+			a, err := strconv.ParseUint(spec[3*len:4*len], 16, 32)
 			if err != nil {
 				return AttrColor{}, 0, false
 			}
-- 
2.43.0


From ebc4531536d6a55902f0b0a3dd44dff9e7f75435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:28 +0000
Subject: [PATCH 26/42] fix: the gravity was missing from the text of a font
 description

---
 pango/fonts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/fonts.go b/pango/fonts.go
index 097221e..3abd336 100644
--- a/pango/fonts.go
+++ b/pango/fonts.go
@@ -528,7 +528,7 @@ func (desc FontDescription) String() string {
 	}
 	if desc.mask&FmGravity != 0 {
 		if s := GravityMap.ToString("gravity", int(desc.Gravity)); s != "" {
-			chunks = append(chunks)
+			chunks = append(chunks, s)
 		}
 	}
 
-- 
2.43.0


From a5709c4a1a5d18d05d9c6ac9418201b98169f3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:12 +0000
Subject: [PATCH 27/42] fix: the documented gravities Not-Rotated, Upside-Down,
 Rotated-Left and Rotated-Right were not understood

---
 pango/fonts.go   |  4 ++++
 pango/gravity.go | 12 ++++++++----
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/pango/fonts.go b/pango/fonts.go
index 3abd336..950b4d5 100644
--- a/pango/fonts.go
+++ b/pango/fonts.go
@@ -446,6 +446,10 @@ func (desc *FontDescription) find_field_any(str string) bool {
 		desc.SetGravity(Gravity(v))
 		return true
 	}
+	if v, ok := gravityWords.FromString(str); ok {
+		desc.SetGravity(Gravity(v))
+		return true
+	}
 	return false
 }
 
diff --git a/pango/gravity.go b/pango/gravity.go
index 799557b..db85d4c 100644
--- a/pango/gravity.go
+++ b/pango/gravity.go
@@ -29,10 +29,14 @@ var GravityMap = enumMap{
 	{value: int(GRAVITY_NORTH), str: "north"},
 	{value: int(GRAVITY_WEST), str: "west"},
 	{value: int(GRAVITY_AUTO), str: "auto"},
-	// {value: int(GRAVITY_SOUTH), str: "Not-Rotated"},
-	// {value: int(GRAVITY_NORTH), str: "Upside-Down"},
-	// {value: int(GRAVITY_EAST), str: "Rotated-Left"},
-	// {value: int(GRAVITY_WEST), str: "Rotated-Right"},
+}
+
+// the other words understood in font descriptions
+var gravityWords = enumMap{
+	{value: int(GRAVITY_SOUTH), str: "Not-Rotated"},
+	{value: int(GRAVITY_NORTH), str: "Upside-Down"},
+	{value: int(GRAVITY_EAST), str: "Rotated-Left"},
+	{value: int(GRAVITY_WEST), str: "Rotated-Right"},
 }
 
 // IsVertical returns whether `g` represents vertical writing directions.
-- 
2.43.0


From f7c457beb440058ce76a5e716e7e0b4bb72cac58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:32 +0000
Subject: [PATCH 28/42] fix: the weights without a name, printed as weight=450,
 were not read back

---
 pango/fonts.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pango/fonts.go b/pango/fonts.go
index 950b4d5..a26615a 100644
--- a/pango/fonts.go
+++ b/pango/fonts.go
@@ -430,6 +430,12 @@ func (desc *FontDescription) find_field_any(str string) bool {
 		desc.SetWeight(Weight(v))
 		return true
 	}
+	if strings.HasPrefix(str, "weight=") { // see ToString
+		if v, err := strconv.Atoi(strings.TrimPrefix(str, "weight=")); err == nil {
+			desc.SetWeight(Weight(v))
+			return true
+		}
+	}
 	if v, ok := StyleMap.FromString(str); ok {
 		desc.SetStyle(Style(v))
 		return true
-- 
2.43.0


From 4a920a033db41ffc2feae0df3e9eb40b3ea9c48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:46 +0000
Subject: [PATCH 29/42] fix: the final comma of a family list was kept, and a
 family ending with a style was read back as this style

---
 pango/fonts.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/pango/fonts.go b/pango/fonts.go
index a26615a..4fa37b6 100644
--- a/pango/fonts.go
+++ b/pango/fonts.go
@@ -407,8 +407,9 @@ func NewFontDescriptionFrom(str string) FontDescription {
 	}
 
 	// Remainder is family list. Trim off trailing commas and leading and trailing white space
-	if len(fields) != 0 {
-		families := strings.Split(strings.Join(fields, " "), ",")
+	family := strings.TrimSpace(strings.TrimSuffix(strings.Join(fields, " "), ","))
+	if family != "" {
+		families := strings.Split(family, ",")
 		/* Now sanitize it to trim space from around individual family names.
 		* bug #499624 */
 		for i, f := range families {
@@ -514,11 +515,22 @@ func (desc FontDescription) String() string {
 		* in a keyword like "Bold", or if the family name ends in
 		* a number and no keywords will be added.
 		 */
-		if desc.Weight == WEIGHT_NORMAL &&
-			desc.Style == STYLE_NORMAL &&
-			desc.Stretch == STRETCH_NORMAL &&
-			desc.Variant == VARIANT_NORMAL &&
-			(desc.mask&(FmGravity|FmSize) == 0) {
+		var last string // the last word of the family name
+		if words := strings.Fields(fam); len(words) != 0 {
+			last = words[len(words)-1]
+		}
+		isNumber := func(word string) bool {
+			_, err := strconv.ParseFloat(strings.TrimSuffix(word, "px"), 64)
+			return err == nil
+		}
+		keyword := NewFontDescription()
+		if keyword.find_field_any(last) ||
+			isNumber(last) &&
+				desc.Weight == WEIGHT_NORMAL &&
+				desc.Style == STYLE_NORMAL &&
+				desc.Stretch == STRETCH_NORMAL &&
+				desc.Variant == VARIANT_NORMAL &&
+				(desc.mask&(FmGravity|FmSize) == 0) {
 			fam += ","
 		}
 		chunks = append(chunks, fam)
-- 
2.43.0


From d1440518c1b748f5b329bf06c1e8715eb781a2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:48 +0000
Subject: [PATCH 30/42] fix: a family named nan was read as a size

---
 pango/fonts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/fonts.go b/pango/fonts.go
index 4fa37b6..c727b35 100644
--- a/pango/fonts.go
+++ b/pango/fonts.go
@@ -385,7 +385,7 @@ func NewFontDescriptionFrom(str string) FontDescription {
 		size, err := strconv.ParseFloat(word, 64)
 		if err != nil {
 			// just ignore invalid floats: they maybe do not refers to a size
-		} else if size < 0 || size > 1000000 {
+		} else if !(0 <= size && size <= 1000000) { // NaN is also invalid
 			log.Println("invalid size value:", size)
 		} else { // word is a valid float
 			desc.Size = int32(size*Scale + 0.5)
-- 
2.43.0


From 8a1838a3f4ea3110f62bf4dd01431c4bce45caf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:32 +0000
Subject: [PATCH 31/42] fix: the stretch of the fonts was always described as
 normal

---
 pango/fcfonts/fonts.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pango/fcfonts/fonts.go b/pango/fcfonts/fonts.go
index d08df5c..6d1b5fe 100644
--- a/pango/fcfonts/fonts.go
+++ b/pango/fcfonts/fonts.go
@@ -131,8 +131,8 @@ func newFontDescriptionFromPattern(pattern fc.Pattern, includeSize bool) pango.F
 	desc.SetWeight(weight)
 
 	stretch := pango.STRETCH_NORMAL
-	if i, ok := pattern.GetInt(fc.WIDTH); ok {
-		stretch = widthToPango(i)
+	if f, ok := pattern.GetFloat(fc.WIDTH); ok { // scanned fonts have floats
+		stretch = widthToPango(int32(f))
 	}
 	desc.SetStretch(stretch)
 
-- 
2.43.0


From 393e75641e3c263a5af4abce1c1bbbd6ec47b15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:53 +0000
Subject: [PATCH 32/42] fix: an integer pixel size was ignored when a font is
 created

---
 pango/fcfonts/fonts.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pango/fcfonts/fonts.go b/pango/fcfonts/fonts.go
index 6d1b5fe..e2a421f 100644
--- a/pango/fcfonts/fonts.go
+++ b/pango/fcfonts/fonts.go
@@ -55,8 +55,8 @@ func newFont(pattern fc.Pattern, fontmap *FontMap) *Font {
 
 	ft2font.fontmap = fontmap
 
-	if ds := pattern.GetFloats(fc.PIXEL_SIZE); len(ds) != 0 {
-		ft2font.size = int(ds[0] * float32(pango.Scale))
+	if size, ok := pattern.GetFloat(fc.PIXEL_SIZE); ok {
+		ft2font.size = int(size * float32(pango.Scale))
 	}
 	ft2font.glyphInfo = make(map[pango.Glyph]*glyphInfo)
 
-- 
2.43.0


From 99f18042994405eebe0935e578282331d554b7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:54 +0000
Subject: [PATCH 33/42] fix: the size substituted for an integer pixel size was
 zero

---
 fontconfig/pattern.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fontconfig/pattern.go b/fontconfig/pattern.go
index b247158..bcd78ae 100644
--- a/fontconfig/pattern.go
+++ b/fontconfig/pattern.go
@@ -480,8 +480,8 @@ func (pattern Pattern) SubstituteDefault() {
 		pixelsize *= dpi / 72.0
 		pattern.AddFloat(PIXEL_SIZE, pixelsize)
 	} else {
-		sizeF, _ := pixelSize[0].Value.(Float)
-		size = float32(sizeF) / dpi * 72.0 / scale
+		sizeF, _ := pattern.GetFloat(PIXEL_SIZE)
+		size = sizeF / dpi * 72.0 / scale
 	}
 	pattern.Del(SIZE)
 	pattern.AddFloat(SIZE, size)
-- 
2.43.0


From 7a1eb5938715c41c5650698c53020749c1736be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:18 +0000
Subject: [PATCH 34/42] fix: justifying a line with a combining or zero width
 cluster never ended

---
 pango/layout_line.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pango/layout_line.go b/pango/layout_line.go
index 13297c0..94c273a 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -838,12 +838,14 @@ func (line *LayoutLine) justify_clusters(state *paraBreakState) {
 				clusterIter GlyphItemIter
 				haveCluster bool
 			)
+			advance := clusterIter.NextCluster
 			if dir > 0 {
 				haveCluster = clusterIter.InitStart(run, text)
 			} else {
 				haveCluster = clusterIter.InitEnd(run, text)
+				advance = clusterIter.PrevCluster
 			}
-			for haveCluster {
+			for ; haveCluster; haveCluster = advance() {
 				/* don't expand in the middle of graphemes */
 				if !logAttrs[offset+clusterIter.StartChar].IsCursorPosition() {
 					continue
@@ -900,12 +902,6 @@ func (line *LayoutLine) justify_clusters(state *paraBreakState) {
 						addedSoFar += spaceRight
 					}
 				}
-
-				if dir > 0 {
-					haveCluster = clusterIter.NextCluster()
-				} else {
-					haveCluster = clusterIter.PrevCluster()
-				}
 			}
 		}
 
-- 
2.43.0


From e2d812ec9eb8a8bc2690d46d02ad305ee2aa3c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:58 +0000
Subject: [PATCH 35/42] fix: parsing a charset made of a single character never
 ended

---
 fontconfig/charset.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fontconfig/charset.go b/fontconfig/charset.go
index 70c5c1e..b411732 100644
--- a/fontconfig/charset.go
+++ b/fontconfig/charset.go
@@ -74,6 +74,8 @@ func parseCharSet(str string) (Charset, error) {
 		} else if len(fields) >= 3 && fields[1] == "-" {
 			lastS = fields[2]
 			fields = fields[3:]
+		} else { // single character
+			fields = fields[1:]
 		}
 
 		first, err := strconv.ParseInt(firstS, 16, 32)
-- 
2.43.0


From bd5800131fe0db5a7998a7cd9eb9d3ce1ffafeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:42 +0000
Subject: [PATCH 36/42] fix: the search of an upright character stays inside
 the table

---
 pango/context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/context.go b/pango/context.go
index 485f583..887d2d1 100644
--- a/pango/context.go
+++ b/pango/context.go
@@ -427,7 +427,7 @@ func isUpright(ch rune) bool {
 
 	const max = len(upright)
 	st := 0
-	ed := max
+	ed := max - 1
 
 	for st <= ed {
 		mid := (st + ed) / 2
-- 
2.43.0


From 6f8c58893f80055c74af824989a36e272688b908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:44 +0000
Subject: [PATCH 37/42] fix: languages with three scripts report them

---
 pango/language.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/language.go b/pango/language.go
index 249669a..a993ad8 100644
--- a/pango/language.go
+++ b/pango/language.go
@@ -366,7 +366,7 @@ func pango_language_get_scripts(lang Language) []Script {
 		}
 	}
 
-	return nil
+	return script_for_lang.scripts[:]
 }
 
 // pango_language_includes_script determines if `script` is one of the scripts used to
-- 
2.43.0


From 91cd945a2e1be02393b528fb67adcafcbb150472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:46 +0000
Subject: [PATCH 38/42] fix: all the languages of PANGO_LANGUAGE are used

---
 pango/language.go | 22 ++++------------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/pango/language.go b/pango/language.go
index a993ad8..bcea129 100644
--- a/pango/language.go
+++ b/pango/language.go
@@ -422,24 +422,10 @@ func parse_default_languages() []Language {
 
 	var langs []Language
 
-	done := false
-	for !done {
-		end := strings.IndexAny(p, languageSeparators)
-		if end == -1 {
-			end = len(p)
-			done = true
-		} else {
-			p = p[:end]
-		}
-
-		/* skip empty languages, and skip the language 'C' */
-		if end != 0 && !(end == 1 && p[0] == 'C') {
-			l := pango_language_from_string(p)
-			langs = append(langs, l)
-		}
-
-		if !done {
-			p = p[end:]
+	for _, l := range strings.FieldsFunc(p, func(r rune) bool { return strings.ContainsRune(languageSeparators, r) }) {
+		/* skip the language 'C' */
+		if l != "C" {
+			langs = append(langs, pango_language_from_string(l))
 		}
 	}
 
-- 
2.43.0


From d787575f1566c42ec02fcada418c16b2cb314330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:05 +0000
Subject: [PATCH 39/42] fix: the Old Hungarian script is written right to left

---
 pango/gravity.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/gravity.go b/pango/gravity.go
index db85d4c..96a23a4 100644
--- a/pango/gravity.go
+++ b/pango/gravity.go
@@ -311,7 +311,7 @@ var scriptProperties = map[Script]scriptProps{ /* ISO 15924 code */
 	language.Anatolian_Hieroglyphs: {ltr, vectDirNone, GRAVITY_SOUTH, false}, /* Hluw */
 	language.Hatran:                {rtl, vectDirNone, GRAVITY_SOUTH, false}, /* Hatr */
 	language.Multani:               {ltr, vectDirNone, GRAVITY_SOUTH, false}, /* Mult */
-	language.Old_Hungarian:         {ltr, vectDirNone, GRAVITY_SOUTH, false}, /* Hung */
+	language.Old_Hungarian:         {rtl, vectDirNone, GRAVITY_SOUTH, false}, /* Hung */
 	language.SignWriting:           {ltr, vectDirNone, GRAVITY_SOUTH, false}, /* Sgnw */
 
 	/* Unicode-9.0 additions */
-- 
2.43.0


From 8757b6773c99d4abfb74fd0f222dfc7512d8a1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:09 +0000
Subject: [PATCH 40/42] fix: a cache with a value of an unknown type was
 accepted

---
 fontconfig/cache.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fontconfig/cache.go b/fontconfig/cache.go
index 6e5c4e1..c4c688f 100644
--- a/fontconfig/cache.go
+++ b/fontconfig/cache.go
@@ -302,6 +302,8 @@ func (v *valueElt) deserializeBin(data []byte) (int, error) {
 		var out Range
 		valueSize, err = out.deserializeBin(data[2:])
 		v.Value = out
+	default:
+		err = fmt.Errorf("invalid value type: %d", type_)
 	}
 
 	return 2 + valueSize, err
-- 
2.43.0


From ce827b059e7aae4c64c438a754c5553547731eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:33 +0000
Subject: [PATCH 41/42] fix: ScanFontRessource returned the fonts the
 configuration rejects

---
 fontconfig/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fontconfig/config.go b/fontconfig/config.go
index 4ce5862..316a68f 100644
--- a/fontconfig/config.go
+++ b/fontconfig/config.go
@@ -193,7 +193,7 @@ func (config *Config) ScanFontRessource(content fonts.Resource, contentID string
 			out = append(out, f)
 		}
 	}
-	return fonts, nil
+	return out, nil
 }
 
 // Recursively scan a directory and build the font patterns,
-- 
2.43.0


From 42f254e723d060e14e171944ff355b64856db46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:46 +0000
Subject: [PATCH 42/42] fix: layouts were not told that the font map has
 another configuration

---
 pango/fcfonts/fontmap.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pango/fcfonts/fontmap.go b/pango/fcfonts/fontmap.go
index 2e749d1..f6b2e0f 100644
--- a/pango/fcfonts/fontmap.go
+++ b/pango/fcfonts/fontmap.go
@@ -204,6 +204,12 @@ func (fontmap *FontMap) clearCache() {
 	for k := range fontmap.fontKeyHash {
 		delete(fontmap.fontKeyHash, k)
 	}
+
+	// notify the contexts
+	fontmap.serial++
+	if fontmap.serial == 0 {
+		fontmap.serial++
+	}
 }
 
 func (fontmap *FontMap) getFontFaceData(fontPattern fc.Pattern) (faceDataKey, *faceData) {
-- 
2.43.0

