PROPS = []
def P(**k): PROPS.append(k)

P(id="C01", title="The library never ends the process, panics on purpose or prints",
  statement="Whatever input it is given, no public operation of the library deliberately panics, exits the process, or writes on the program's standard output; problems are reported through results and errors.",
  over=["inputs", "configurations"], quant="every call of every public operation, with any argument, configuration file, font file or text",
  why="Tests run the paths their samples take; a deliberate panic on an unexpected file, name or value sits on a path no sample reaches.",
  files=["fontconfig", "fribidi", "pango", "pango/fcfonts"],
  mech=[("errors returned instead of panics", "fontconfig/xml.go"), ("debug output guarded by false constants", "fontconfig/config.go, fribidi/bidi.go, pango/context.go")],
  technique="reachability of terminating, panicking and printing instructions over the SSA call graph",
  note="Exhaustive over live functions reachable from the public API; run-time faults (index, nil) are outside this property.")

P(id="C02", title="Reading or matching fonts never changes the patterns and configuration used",
  statement="The font matching operations (matching, sorting, listing, rendering preparation, serialising, hashing, formatting, reading a value, scanning with a configuration) leave every pattern, font set, character set, language set and configuration they are given exactly as it was. Only the operations documented as modifying a pattern, character set or configuration modify it, and they modify nothing else they are given.",
  over=["inputs", "histories"], quant="every call of a reading operation, on any pattern, set and configuration, in any sequence of calls",
  why="Tests check results, not that inputs are unchanged; a write through a shared value only shows when an input is used again after a particular rule or value.",
  files=["fontconfig/match.go", "fontconfig/pattern.go", "fontconfig/config.go", "fontconfig/substitutions.go", "fontconfig/list.go", "fontconfig/charset.go", "fontconfig/lang.go"],
  mech=[("patterns are duplicated before being edited", "fontconfig/pattern.go Duplicate"), ("values copied on insertion", "fontconfig/values.go")],
  technique="interprocedural mod/ref effect analysis with field-sensitive parameter roots on SSA",
  note="Sound up to reflection/unsafe for the analysed operations: every store, append, delete and in-place sort is attributed to the memory it may reach; io streams given by the caller are exempt.")

P(id="C03", title="A copy is complete and independent of its original",
  statement="Copying a configuration, pattern, character set, language set, coverage or tab array gives a value with all the content of the original that shares no modifiable memory with it: later changes to one are never visible through the other.",
  over=["histories"], quant="every value that can be copied, and every later sequence of changes to the copy or the original",
  why="Tests compare the copy right after making it; sharing shows only through a later change to a nested value.",
  files=["fontconfig/pattern.go", "fontconfig/config.go", "fontconfig/charset.go", "fontconfig/lang.go", "pango/tabs.go", "pango/fcfonts/font.go"],
  mech=[("Copy/Duplicate methods", "fontconfig/pattern.go, fontconfig/config.go, fontconfig/charset.go, pango/tabs.go")],
  technique="escape and sharing analysis of results on SSA, plus a provenance analysis giving each field, element and key of the copy its path in the original",
  note="Sound for sharing up to reflection/unsafe; completeness is decided for the parts whose construction is recognised (all of those of the current tree).")

P(id="C04", title="Results and stored values do not share memory with the caller's arguments",
  statement="A pattern, font set or attribute list produced by an operation shares no modifiable memory with the configuration, patterns or strings it was computed from, and a value given to a pattern edit, a tab array, text or font description given to a setter is copied. Only accessors documented as returning internal values and sorting (which returns the set's own patterns) are excepted.",
  over=["histories"], quant="every sequence of operations in which a result or a stored argument is modified afterwards",
  why="Tests use a result once; the sharing only shows when the result is edited and the configuration used again.",
  files=["fontconfig/match.go", "fontconfig/substitutions.go", "fontconfig/scan.go", "fontconfig/pattern.go", "pango/layout.go", "pango/tabs.go", "pango/fonts.go"],
  mech=[("value lists are duplicated before insertion", "fontconfig/substitutions.go edit, fontconfig/match.go"), ("SetTabs and SetFontDescription copy", "pango/layout.go")],
  technique="interprocedural sharing (points-to by parameter roots) analysis on SSA",
  note="Sound up to reflection/unsafe for the listed operations.")

P(id="C05", title="Shaping and layout never modify the caller's text, attributes, tabs or levels",
  statement="Laying out, itemizing, breaking, shaping or querying a text leaves the text, attributes, tab stops and font descriptions the caller provided unchanged, using a font map leaves the font database and its configuration unchanged, and the bidirectional algorithm writes only its documented output arguments.",
  over=["inputs", "histories"], quant="every text, attribute list, tab array, font description and sequence of layout operations",
  why="Tests look at the produced layout; a write through a shared attribute only changes a later layout of the same attributes.",
  files=["pango/layout.go", "pango/ellipsize.go", "pango/context.go", "pango/attributes.go", "pango/break.go", "pango/shape.go", "pango/fcfonts/fontmap.go", "fribidi/bidi.go", "fribidi/fridibi.go", "fribidi/shape.go"],
  mech=[("attributes are copied before being changed", "pango/layout.go, pango/ellipsize.go"), ("descriptions passed by value", "pango/fonts.go")],
  technique="interprocedural mod/ref effect analysis on SSA, filtered by the type of the written memory",
  note="Sound up to reflection/unsafe for writes of attributes, tabs, texts, font descriptions passed directly, patterns and configuration; objects behind the FontMap and Font interfaces are analysed at their own methods.")

P(id="C06", title="Changing a setting of a layout or context discards everything computed before",
  statement="Every setter of a layout or context stores the value it is given, and whenever the stored setting differs from the former one, everything computed from the former setting (lines, extents, character attributes, tab stops, the layout's record of the context) is discarded or marked as outdated, so that no later answer is computed from the former setting. Character attributes kept between layouts are cleared before being filled again. A font map given another configuration or set of fonts empties its caches and changes its serial number, which outdates the layouts using it.",
  over=["histories"], quant="every sequence of setter calls and queries on a layout, its context and its font map",
  why="Tests set a layout up once and then read it; a setter which forgets to discard cached lines only shows when it is called after a query.",
  files=["pango/layout.go", "pango/context.go", "pango/fcfonts/fontmap.go"],
  mech=[("FontMap.SetConfig", "pango/fcfonts/fontmap.go"), ("setters call layoutChanged / clearLines", "pango/layout.go"), ("context setters bump the serial", "pango/context.go contextChanged"), ("checkLines clears logAttrs", "pango/layout.go")],
  technique="path-sensitive typestate of stored fields against invalidation calls on SSA",
  note="Every path of every exported setter is walked; a setter is any exported method of Layout/Context storing to a setting field.")

P(id="C07", title="A layout query never answers from outdated lines",
  statement="Every query of a layout brings the lines up to date (after checking whether the context changed) before it reads them or anything computed with them, on every path.",
  over=["histories"], quant="every query of a layout, after any sequence of changes to the layout and its context",
  why="A query that skips the update gives the right answer whenever another query came first, as it does in tests.",
  files=["pango/layout.go", "pango/layout_cursors.go", "pango/layout_iter.go"],
  mech=[("checkLines", "pango/layout.go"), ("checkContextChanged", "pango/layout.go")],
  technique="dominance of the recomputation over reads of derived state on SSA, interprocedural",
  note="Exhaustive over the exported methods of Layout; decides that the update happens, not that the lines are right.")

P(id="C08", title="A failure is never dropped or reported as success",
  statement="When a read, a write, a file operation, a font loader or a parser called by the library fails, the library notices it, and a function that reports errors reports that failure (or that of the alternative it tried) rather than success or a partial result. Only four failures are tolerated: probing whether a default font directory exists, finding the name of the running program, a font's summary, and undecodable characters in a font name.",
  over=["fault_sequences", "inputs"], quant="every failing call made by any operation of the library",
  why="Tests run on healthy files and streams; a dropped failure only shows with a truncated stream, a full disk or a malformed value.",
  files=["fontconfig/cache.go", "fontconfig/config.go", "fontconfig/xml.go", "fontconfig/scan.go", "fontconfig/name.go", "pango/markup.go", "pango/fcfonts/font.go"],
  mech=[("errors checked and wrapped", "fontconfig/cache.go, fontconfig/xml.go, pango/markup.go")],
  technique="path-sensitive dataflow of error results from the failing call to the returns, on SSA",
  note="Exhaustive over calls with an error result reachable from the public API; where a failure is followed by an alternative that reports its own failure it counts as reported. Closing a file that was only read is exempt.")

P(id="C09", title="Files are closed, and compressed streams ended, whatever happens",
  statement="Every file the library opens is closed, and every compressed stream it starts is ended, exactly when the operation which opened it ends, whether it succeeds or fails at any point; nothing is read from or written to them afterwards. Handling many files never keeps more than one of them open at a time per nesting level.",
  over=["fault_sequences", "inputs"], quant="every operation opening a file or a compressed stream, every point at which it may fail",
  why="Tests run on healthy files where the last line of the function is reached; a descriptor kept open after a failed read or write shows only with many failures, and a compressor left unfinished only when reading the file again.",
  files=["fontconfig/cache.go", "fontconfig/config.go", "fontconfig/scan.go", "pango/fcfonts/fontmap.go"],
  mech=[("defer Close / explicit Close", "fontconfig/scan.go, fontconfig/config.go, fontconfig/cache.go")],
  technique="typestate of opened resources along all CFG paths on SSA",
  note="Exhaustive over calls of os.Open/Create/OpenFile and compressor constructors; a resource returned, stored or passed on is the receiver's duty.")

P(id="C10", title="The library may be used from several goroutines at once",
  statement="Any state shared behind the back of the caller (anything that is not reached through the values the caller itself passes) is only accessed under one lock once it may change, each lock is released on every path, and locks are never taken twice or in opposite orders. So operations on unrelated values may run concurrently.",
  over=["schedules"], quant="every interleaving of operations running on unrelated values in several goroutines",
  why="Tests are sequential; a data race on a hidden cache or a lock kept on an early return shows only under a particular schedule.",
  files=["fontconfig/config.go", "fontconfig/list.go", "fontconfig/object.go", "pango/language.go", "pango/script.go", "pango/fonts.go", "pango/fcfonts/fontmap.go"],
  mech=[("mutexes around hidden caches", "pango/language.go, fontconfig/config.go"), ("sync.Once initialization", "fontconfig")],
  technique="static lockset analysis over SSA and the call graph; lock order and release typestate",
  note="Sound up to reflection/unsafe for package variables of the library's packages and structures carrying a mutex; the dependencies are outside.")

P(id="C11", title="The same inputs always give the same results",
  statement="The result of every operation is a function of its inputs (and, for the default languages, of the environment): it never depends on the iteration order of a map, on the arbitrary order an unstable sort gives to equal elements, on the clock, or on random numbers.",
  over=["inputs", "schedules"], quant="every input, and every order in which the runtime may iterate over a map",
  why="Go chooses a different order at each run: a dependence shows as a rare difference between two runs, which a test comparing one run to one expectation does not settle.",
  files=["fontconfig/match.go", "fontconfig/pattern.go", "fontconfig/cache.go", "fontconfig/lang.go", "fontconfig/list.go", "fontconfig/scan.go", "pango/language.go", "pango/tabs.go", "pango/layout_cursors.go"],
  mech=[("sorted keys before printing, hashing, serialising", "fontconfig/pattern.go, fontconfig/cache.go, fontconfig/lang.go"), ("stable sorts", "fontconfig/match.go, pango/tabs.go")],
  technique="order-independence analysis of map loops, total-order analysis of comparators on SSA",
  note="Exhaustive over map loops, sorts, selects and random sources of the library; a loop it cannot classify is reported.")

P(id="C12", title="Loops and recursive calls make progress",
  statement="No call of the libraries hangs: whatever the text, attributes, pattern or configuration, an iteration of a loop which does not end it, and a recursive call, change something which the continuation of the loop, or the recursion, depends on. Bisections narrow their interval at each step, and counters move towards their bound.",
  over=["inputs"], quant="every way through an iteration of every loop, and every recursive call",
  why="A loop which does not progress needs the combination of conditions leading to the forgotten step: a test only ends because its texts do not contain it.",
  files=["fontconfig/charset.go", "fontconfig/config.go", "fontconfig/lang.go", "fribidi/bidi.go", "fribidi/run.go", "pango/break.go", "pango/layout_line.go", "pango/glyph_item.go", "pango/language.go"],
  mech=[("every for loop and recursive function of the libraries", "fontconfig, fribidi, pango, fcfonts")],
  technique="symbolic-order path search over the natural loops of the SSA (stuttering iterations), counter direction and bisection rules",
  note="A lack of progress is decided, not termination: loops through pointers (lists of runs) whose end depends on written memory, and paths whose conditions depend on each other through functions, are counted as undecided. No variant is inferred.")

P(id="C14", title="The character data of the bidirectional algorithm is that of Unicode",
  statement="For every code point, the bidirectional class, mirrored form, bracket type and pair, Arabic joining type and shaping ligatures that package fribidi uses are those of the Unicode character database its tables declare to be generated from. The predicates on character types, joining types and levels, and the printed names of the types, agree with the definition of these types.",
  over=["inputs"], quant="every one of the 1,114,112 code points, and every character, joining and bracket type",
  why="Tests look at a few dozen characters; a wrong entry among thousands only shows with the text using that character.",
  files=["fribidi/fridibi.go", "fribidi/joining.go", "fribidi/mirroring.go", "fribidi/brackets.go", "fribidi/brackets_table.go", "fribidi/arabic.go"],
  mech=[("generated tables", "fribidi/mirroring.go, fribidi/brackets_table.go"), ("GetBidiType, GetMirrorChar, GetBracket, getJoiningType", "fribidi/fridibi.go, fribidi/mirroring.go, fribidi/brackets.go, fribidi/joining.go")],
  technique="constant folding of table literals and sparse conditional constant propagation over SSA, compared with the Unicode data files",
  note="The lookups are evaluated abstractly: the tables they read are folded from the source and compared with an oracle derived from the Unicode data; the classes come from golang.org/x/text (a dependency), whose table is taken as given and the mapping of its classes is decided.")

P(id="C15", title="Font properties have the names, types and constants fontconfig documents",
  statement="Every font property has the name, the value type and the parser of the fontconfig reference, and accepts the values of the types compatible with it. Every named constant of the reference (weights, widths, slants, spacings, hinting, subpixel orders...) leads, whatever the case, to its property and its number, and the tables translating weights, style words and missing properties use the same numbers.",
  over=["inputs", "configurations"], quant="every property, every named constant, every type of value",
  why="Patterns, configuration files and caches written for fontconfig are exchanged through these names and numbers; tests use a handful of the 52 properties and 57 constants, and a wrong entry shows only with the file using it.",
  files=["fontconfig/name.go", "fontconfig/fontconfig.go", "fontconfig/values.go", "fontconfig/pattern.go", "fontconfig/scan.go", "fontconfig/match.go"],
  mech=[("objects, objectNames, baseConstants", "fontconfig/name.go"), ("hasValidType", "fontconfig/values.go"), ("weight and style tables", "fontconfig/scan.go, fontconfig/fontconfig.go")],
  technique="constant folding of tables and abstract evaluation of parsers (types of results) over SSA, against the fontconfig reference",
  note="The reference is transcribed from the fontconfig documentation (tools/oracle_fontconfig.py). Where the type of a parsed value cannot be decided the pair is not counted.")

P(id="C16", title="Matching compares each property as fontconfig does, in its order of priority",
  statement="Each font property is compared with the kind of comparison of the fontconfig reference, and has its rank in the order of priorities. Comparing any two values a property may hold never fails nor reports a type mismatch; the distance is never negative, is null for equal values (overlapping intervals, up to the excluded end of a range of sizes), positive for values which differ otherwise than by case or spacing, and grows from the same language to the same language in another territory to another language.",
  over=["inputs"], quant="every property, every pair of types of values it may hold, every relative order of these values",
  why="The distances decide which font is chosen among all the installed ones; tests match a few patterns on one set of fonts, where most of the properties never make a difference.",
  files=["fontconfig/match.go", "fontconfig/values.go"],
  mech=[("fcMatchers, toMatcher", "fontconfig/match.go"), ("compareNumber, compareString, compareFamily, compareLang, compareBool, compareCharSet, compareRange, compareSize", "fontconfig/match.go")],
  technique="constant folding of the matcher table; abstract evaluation of the comparisons per type pair and per relative order of the operands",
  note="Orders of interval bounds are enumerated completely (weak orderings), so that they cover all values; floating point rounding is outside. A distance which the evaluation does not decide is not counted.")

P(id="C17", title="Configuration rules do what their elements and attributes say",
  statement="Each element and attribute value of the configuration files stands for one operator, comparison, qualifier, target, mode or binding, as documented by fontconfig, and unknown values are errors. Comparing two values, and evaluating an expression, give the result this operator has on the types of its operands, in the order of the file, and never fail on the type of a value. An edit inserts, replaces or removes values where its mode says, and the next edits of the rule still apply to the value matched by the tests.",
  over=["inputs"], quant="every element, attribute value, operator, pair of types of operands and relative order of them, every mode with and without matched value, every qualifier",
  why="A configuration file may combine any operator with any type; the tests load a few configurations and check which font is selected in the end, which most of the operators do not change.",
  files=["fontconfig/xml.go", "fontconfig/expr.go", "fontconfig/substitutions.go", "fontconfig/values.go"],
  mech=[("configParser.endElement, parseTest, parseEdit, parseMatch, parseAlias, popExpr, popBinary", "fontconfig/xml.go"), ("compareValue, expression.evaluate", "fontconfig/expr.go"), ("ruleEdit.edit, ruleTest.match, matchValueList", "fontconfig/substitutions.go")],
  technique="conditional constant propagation through the parser, the evaluator and the edits, specialised for each element, attribute value, operator, mode and type of operands",
  note="Relative orders of numbers and interval bounds are enumerated completely. The search of the value passing a test is unrolled for up to 3 values. Floating point rounding is outside. What the evaluation does not decide is not counted.")

P(id="C18", title="Markup builds the attributes its documentation lists",
  statement="Every tag of the markup, and every attribute of <span> with each documented form of value, builds the text attributes documented for it with the documented value; invalid values, unknown names and repeated attributes are errors, and named colors are those of CSS and X11. Each attribute constructor builds the kind of attribute it is named after, holding its argument in the type documented for this kind and covering the whole text, and code reading an attribute expects that type.",
  over=["inputs"], quant="every tag, every attribute of <span> with each documented value or form of value, every named color, every constructor, every reader of attributes and kind of attribute",
  why="The tests parse a dozen of markup samples; each of the 44 attribute names, 660 colors, and 37 kinds has its own code, where a wrong kind, value or variable only shows with the markup using it.",
  files=["pango/markup.go", "pango/attributes.go", "pango/color.go", "pango/color_table.go", "pango/fonts.go", "pango/item.go", "pango/shape.go", "pango/layout.go"],
  mech=[("span_parse_func, startElementHandler, spanParse*", "pango/markup.go"), ("NewAttr* constructors and type assertions on Attribute.Data", "pango/attributes.go"), ("colorEntries", "pango/color_table.go")],
  technique="conditional constant propagation specialised per tag, attribute name and sample value; type of payload per attribute kind over SSA",
  note="Values are sampled per documented form (each word of the enumerations, numbers, lengths, percentages, colors); the rest is exhaustive. A value the propagation does not decide is not counted.")

P(id="C19", title="Font descriptions keep, print, read back and translate every field",
  statement="Setting, unsetting and merging the fields of a font description changes the value and the set flag of these fields only, with the documented values; two descriptions are equal exactly when all their fields are, and the key made from one ignores its flags and the case of the family. Every field is part of the text of a description, and the text of every weight, style, stretch, variant and gravity is read back as the same value, as are all the documented words. Every value of these fields is translated to the pattern of fontconfig and back to the value fontconfig documents, and the properties of a pattern are read with accessors accepting all the types of values they may hold.",
  over=["inputs"], quant="every setter with each field set or not, every field merged with and without replacement, every named value of the enumerated fields, every read of a property with a constant name",
  why="The tests read a few descriptions; each field and each of the sixty words and values has its own code in six functions, where a missing line only shows with the field or value concerned.",
  files=["pango/fonts.go", "pango/fcfonts/fonts.go", "pango/fcfonts/fontmap.go", "fontconfig/types.go", "fontconfig/pattern.go"],
  mech=[("FontDescription.SetXXX, UnsetFields, merge, equal, AsHash", "pango/fonts.go"), ("NewFontDescriptionFrom and String", "pango/fonts.go"), ("newFontDescriptionFromPattern and makePattern", "pango/fcfonts/fonts.go"), ("Pattern.GetXXX callers", "fontconfig/pattern.go")],
  technique="conditional constant propagation specialised per field and value, with the assignments in order; dataflow from the fields to the text; accessor types against the property table",
  note="Sizes and weights without a name are sampled; a case the propagation does not decide is not counted. The layout of the text around the family (final comma, sizes) is not decided.")

P(id="C13", title="The built-in configuration is the one of the configuration files",
  statement="The configuration compiled in the package has, in the order of the configuration files it is documented to be generated from, exactly their rules: each match, alias and font selection with its target, tests, qualifiers, comparisons, edits, modes, bindings, objects and values.",
  over=["configurations"], quant="every element of the 128 configuration files of fontconfig/confs, every test, edit and expression in them",
  why="The literal has 15000 lines generated once; a wrong operator or family name in one of the thousand rules only shows with the pattern this rule is about, and nothing regenerates or compares it in the tests.",
  files=["fontconfig/standardconf.go", "fontconfig/confs"],
  mech=[("Standard", "fontconfig/standardconf.go"), ("configuration files", "fontconfig/confs/*.conf")],
  technique="constant folding of the literal, compared structurally with the elements of the configuration files",
  note="The numbers standing for operators, targets, qualifiers, modes and bindings are inferred from the literal itself and the parser (C17), so that renumbering is accepted. Values not decided by the folding are not counted.")

P(id="C20", title="Languages have the characters and the indices of their orthographies",
  statement="Each language of the table of languages needs exactly the characters of its orthography file, with the files it includes. The languages are sorted, the index of a language in sets is the documented fixed one and is read back as this language, the ranges by first letter and the sets of the territories of a language follow from the names, and the sets of languages are read and written at the word and the bit of the index of the language, never of its number.",
  over=["inputs"], quant="every language, every character it needs, every index, first letter and language with territories, every access to the bits of a set",
  why="The tables are generated once and are not regenerated by the tests; a wrong bit or an inversion only shows with the fonts or patterns of one of the 281 languages.",
  files=["fontconfig/lang_table.go", "fontconfig/lang.go", "fontconfig/lang/orth"],
  mech=[("fcLangCharSets, fcLangCharSetIndices, fcLangCharSetIndicesInv, fcLangCharSetRanges, fcLangCountrySets", "fontconfig/lang_table.go"), ("Langset.bitSet, bitGet, bitReset, includes, String", "fontconfig/lang.go")],
  technique="constant folding of the tables against the orthography files; evaluation of the bit accesses per language; inference of kinds of integers by unification over SSA",
  note="The order of the indices is the one of the list in the generator (fontconfig/lang/fc-lang.go). Whether a font supports a language (thresholds of missing characters) is not decided.")

P(id="C21", title="Pango's tables of characters, scripts and languages agree with Unicode",
  statement="The characters kept upright in vertical text, the pairs of opening and closing characters, the ignorable characters shown on demand, and the direction, width and vertical gravity of scripts are those of the Unicode database. Each language uses the scripts of its orthography, the most used first, all of them are reported, its sample text is written in them, and the sample language of a script uses it; the tables are in the order their searches need.",
  over=["inputs"], quant="every assigned character, pair, ignorable character, script, language, sample text and sample language of the tables",
  why="The tables are literals of hundreds of rows; a wrong row only shows with the character, script or language concerned, and the tests sample a few of them.",
  files=["pango/context.go", "pango/script.go", "pango/shape.go", "pango/gravity.go", "pango/language.go", "pango/script_langs.go", "pango/language_sample.go"],
  mech=[("upright", "pango/context.go"), ("paired_chars", "pango/script.go"), ("ignorables", "pango/shape.go"), ("scriptProperties", "pango/gravity.go"), ("pango_script_for_lang, langTexts, sampleLanguages", "pango/script_langs.go, pango/language_sample.go, pango/language.go")],
  technique="constant folding of the tables, compared with the Unicode database and the orthography files",
  note="Unicode 15 restricted to the characters of Unicode 11 for vertical text; pairs outside of the blocks the table covers are not required. Vertical directions are checked for the scripts Unicode documents as vertical.")

P(id="C22", title="Searches by bisection find every entry of their table",
  statement="A search by bisection begins with the whole table, neither leaving out its ends nor looking outside, moves its bounds past the element looked at on the side of the one looked for without skipping any, and a constant table it looks into, or which a scan leaves at the first greater element, is sorted by what is compared.",
  over=["inputs"], quant="every loop of the library narrowing an interval by its middle, every constant table they or scans stopping early look into",
  why="A wrong bound only shows with the first or last entries of a table or with values just outside of it, one entry among hundreds for each of the searches.",
  files=["fontconfig/charset.go", "fontconfig/lang.go", "fontconfig/scan.go", "pango/context.go", "pango/language.go", "pango/script.go", "pango/shape.go", "fribidi/arabic.go"],
  mech=[("findLeafForward", "fontconfig/charset.go"), ("findLangIndex", "fontconfig/lang.go"), ("getFirstName", "fontconfig/scan.go"), ("isUpright", "pango/context.go"), ("binarySearch", "pango/language.go, fribidi/arabic.go"), ("get_pair_index", "pango/script.go")],
  technique="recognition of bisections on the natural loops of the SSA form: entry bounds against the length of the table, offsets and branch facts of the moves; constant folding of the tables",
  note="Comparisons made by a function are not interpreted, nor the order of tables which are not constant.")

P(id="C23", title="Text segmentation gives each character the classes of Unicode",
  statement="When boundaries of graphemes, words and sentences are looked for, each character is given the break classes of the Unicode annex 29, but for the departures of Pango's own algorithm; white and expandable spaces, hyphens, base characters and those deleted alone by backspace are the documented ones. Each attribute of a position is one bit, set, cleared and read as that bit and no other.",
  over=["inputs"], quant="every character of Unicode 11, for any former character; every flag, accessor and setter of the attributes of positions",
  why="The classes are given by nested lists of some two hundred constants; a wrong one only shows in a text with this very character next to some others, and the tests sample one character or two of each class.",
  files=["pango/break.go"],
  mech=[("pangoDefaultBreak, resolveSentenceBreakType, labelAlphabetic", "pango/break.go"), ("backspaceDeleteCharacter", "pango/break.go"), ("CharAttr, IsXXX, setXXX", "pango/break.go")],
  technique="abstract interpretation of the SSA form, propagating finite sets of constants from each kind of character, compared with the Unicode database",
  note="Unicode 15 restricted to the characters of Unicode 11, but for the departures listed in tools/oracle_segments.py, which the C original has as well. The rules which combine the classes are not decided: they depend on unbounded contexts, and the conformance files of Unicode which the tests run sample them.")
P(id="C24", title="A cached font set is read back as it was written",
  statement="LoadFontset, on what Fontset.Serialize wrote, yields the same patterns in the same order, with the same objects and, for each, the same values in the same order with their types, bindings and all their bits, up to a million fonts; only the additional languages of a Langset are lost, as documented. A value of unknown type is an error.",
  over=["inputs", "programs"], quant="every font set: any pattern, list of values (up to 65535), and value of the eight types",
  why="Writer and reader are two programs for the same layout: a field at another offset, a last word left out or an entry skipped on one side only shows with the values which differ there, and no stable test reads a cache back.",
  files=["fontconfig/cache.go", "fontconfig/pattern.go"],
  mech=[("Fontset.Serialize, LoadFontset", "fontconfig/cache.go"), ("serializeBin, deserializeBin", "fontconfig/cache.go"), ("valueElt.dataType", "fontconfig/cache.go")],
  technique="extraction of the binary layout (symbolic offsets, widths, encodings, fields) of each writer and reader from the SSA form, and their comparison",
  note="Functions whose layout is not recognised are not decided, and are listed as such in the evidence. gzip is trusted. Counts over 65535 (values of a list, objects of a pattern, pages of a character set) do not occur.")
P(id="C25", title="Scans and listings keep exactly the fonts they should",
  statement="A scan returns one font for each face and each named instance of the font files it reads, edited by the MatchScan rules, and of these exactly the ones the <selectfont> rules accept: a font (for directories, also a path) is kept when an <acceptfont> entry matches it, else dropped when a <rejectfont> entry does, else kept; directory scans skip hidden files. The INDEX of a font is the number of its face in its 16 low bits and the rank of its instance, from 1, above, and is read so. Fontset.List returns the fonts which have, for every value of the pattern, a value containing it (equal, for strings).",
  over=["inputs", "configurations"], quant="every directory of fonts, every configuration, every pattern listed",
  why="No stable test has a font rejected, a collection of faces or a variable font: a selector asked of one scan only, or the wrong way round, changes nothing that they see.",
  files=["fontconfig/config.go", "fontconfig/scan.go", "fontconfig/partial_scan.go", "fontconfig/list.go", "fontconfig/pattern.go", "pango/fcfonts/fonts.go"],
  mech=[("Config.ScanFontDirectories, ScanFontFile, ScanFontRessource", "fontconfig/config.go"), ("Config.acceptFont, acceptFilename", "fontconfig/config.go"), ("scanOneFontFile", "fontconfig/scan.go"), ("Fontset.List, patternMatchAny", "fontconfig/list.go"), ("Pattern.FaceID", "fontconfig/pattern.go")],
  technique="backward tracing of the sets returned to the appends which fill them, and dominance of these by the selectors; constant propagation through the selectors; evaluation of the index expressions",
  note="What a glob or a value matches is not decided here (C17 decides comparisons). A set filled in an unrecognised way is not decided.")

P(id="C26", title="Character and language sets keep each member under its own bit",
  statement="Adding, removing and looking up a character of a Charset use one bit, which no other character shares: in the page of its second and third bytes, the word and the bit given by its last byte; adding sets it, removing clears it, and the other bits of the page are kept; likewise for a language of a Langset. The union and the difference of two sets, the inclusion of one in another, the number of their differences and the number of characters combine the words of their pages by the operation of that name, for all the words of a page.",
  over=["inputs"], quant="every character up to U+10FFFF, every content of the pages",
  why="Tests add a few characters and look them up: an address or a mask wrong for some pages or bits, or a word operation which only agrees on similar sets, passes them.",
  files=["fontconfig/charset.go", "fontconfig/lang.go"],
  mech=[("Charset.AddChar, DelChar, HasChar, Len", "fontconfig/charset.go"), ("charPage.unionLeaf, subtractLeaf", "fontconfig/charset.go"), ("Charset.isSubset, charsetSubtractCount", "fontconfig/charset.go"), ("Langset.bitSet, bitGet, bitReset", "fontconfig/lang.go")],
  technique="abstract evaluation, from the SSA form, of the page, index and mask expressions for characters of every byte, and of the expressions combining words on pairs of words",
  note="The walk over the lists of pages is not decided here (C12 and C22 decide its progress and its bisection). Several assignments of words in one function are not decided.")
