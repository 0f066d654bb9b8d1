#!/usr/bin/env python3
"""Writes tpcheck/oracle/pango.json: the markup, the names of the enumerations and the attributes as
documented by pango (documentation of ParseMarkup, of the attributes and of the font descriptions),
and the colour names of CSS (https://www.w3.org/TR/css-color-4/#named-colors) completed with those of X11."""
import json, os, re, subprocess
here = os.path.dirname(os.path.abspath(__file__))

# attribute kind: type of its value
kinds = {
 "LANGUAGE": "AttrString", "FAMILY": "AttrString", "STYLE": "AttrInt", "WEIGHT": "AttrInt", "VARIANT": "AttrInt",
 "STRETCH": "AttrInt", "SIZE": "AttrInt", "FONT_DESC": "FontDescription", "FOREGROUND": "AttrColor",
 "BACKGROUND": "AttrColor", "UNDERLINE": "AttrInt", "STRIKETHROUGH": "AttrInt", "RISE": "AttrInt", "SHAPE": "AttrShape",
 "SCALE": "AttrFloat", "FALLBACK": "AttrInt", "LETTER_SPACING": "AttrInt", "UNDERLINE_COLOR": "AttrColor",
 "STRIKETHROUGH_COLOR": "AttrColor", "ABSOLUTE_SIZE": "AttrInt", "GRAVITY": "AttrInt", "GRAVITY_HINT": "AttrInt",
 "FONT_FEATURES": "AttrString", "FOREGROUND_ALPHA": "AttrInt", "BACKGROUND_ALPHA": "AttrInt", "ALLOW_BREAKS": "AttrInt",
 "SHOW": "AttrInt", "INSERT_HYPHENS": "AttrInt", "OVERLINE": "AttrInt", "OVERLINE_COLOR": "AttrColor",
 "LINE_HEIGHT": "AttrFloat", "ABSOLUTE_LINE_HEIGHT": "AttrInt", "TEXT_TRANSFORM": "AttrInt", "WORD": "AttrInt",
 "SENTENCE": "AttrInt", "BASELINE_SHIFT": "AttrInt", "FONT_SCALE": "AttrInt",
}
constructors = {
 "NewAttrFontDescription": "FONT_DESC", "NewAttrShow": "SHOW", "NewAttrScale": "SCALE", "NewAttrSize": "SIZE",
 "NewAttrWeight": "WEIGHT", "NewAttrVariant": "VARIANT", "NewAttrGravity": "GRAVITY", "NewAttrGravityHint": "GRAVITY_HINT",
 "NewAttrStyle": "STYLE", "NewAttrAbsoluteSize": "ABSOLUTE_SIZE", "NewAttrLetterSpacing": "LETTER_SPACING",
 "NewAttrStretch": "STRETCH", "NewAttrRise": "RISE", "NewAttrUnderline": "UNDERLINE",
 "NewAttrForegroundAlpha": "FOREGROUND_ALPHA", "NewAttrBackgroundAlpha": "BACKGROUND_ALPHA", "NewAttrOverline": "OVERLINE",
 "NewAttrStrikethrough": "STRIKETHROUGH", "NewAttrAllowBreaks": "ALLOW_BREAKS", "NewAttrInsertHyphens": "INSERT_HYPHENS",
 "NewAttrFallback": "FALLBACK", "NewAttrLanguage": "LANGUAGE", "NewAttrFamily": "FAMILY", "NewAttrForeground": "FOREGROUND",
 "NewAttrBackground": "BACKGROUND", "NewAttrUnderlineColor": "UNDERLINE_COLOR", "NewAttrOverlineColor": "OVERLINE_COLOR",
 "NewAttrStrikethroughColor": "STRIKETHROUGH_COLOR", "NewAttrShape": "SHAPE", "NewAttrFontFeatures": "FONT_FEATURES",
 "NewAttrLineHeight": "LINE_HEIGHT", "NewAttrAbsoluteLineHeight": "ABSOLUTE_LINE_HEIGHT", "NewAttrWord": "WORD",
 "NewAttrSentence": "SENTENCE", "NewAttrTextTransform": "TEXT_TRANSFORM", "NewAttrBaselineShift": "BASELINE_SHIFT",
 "NewAttrFontScale": "FONT_SCALE",
}
style = {"normal": 0, "roman": 0, "oblique": 1, "italic": 2}
variant = {"normal": 0, "small-caps": 1, "all-small-caps": 2, "petite-caps": 3, "all-petite-caps": 4, "unicase": 5, "title-caps": 6}
weight = {"thin": 100, "ultra-light": 200, "extra-light": 200, "light": 300, "semi-light": 350, "demi-light": 350, "book": 380,
  "normal": 400, "regular": 400, "medium": 500, "semi-bold": 600, "demi-bold": 600, "bold": 700, "ultra-bold": 800, "extra-bold": 800,
  "heavy": 900, "black": 900, "ultra-heavy": 1000, "extra-heavy": 1000, "ultra-black": 1000, "extra-black": 1000}
stretch = {n: i for i, n in enumerate(["ultra-condensed", "extra-condensed", "condensed", "semi-condensed", "normal",
  "semi-expanded", "expanded", "extra-expanded", "ultra-expanded"])}
gravity = {"south": 0, "east": 1, "north": 2, "west": 3}
num = lambda l: {n: i for i, n in enumerate(l)}
boolean = {"true": 1, "yes": 1, "t": 1, "y": 1, "false": 0, "no": 0, "f": 0, "n": 0}
def enum(kind, values, invalid=("zzz",)):
    out = [[v, [[kind, n]]] for v, n in values.items()]
    return out + [[v, "error"] for v in invalid]
length = lambda kind: [["1234", [[kind, 1234]]], ["-700", [[kind, -700]]], ["12.5pt", [[kind, 12800]]], ["zzz", "error"], ["12px", "error"]]
color = lambda kind: [["#fff", [[kind, [65535, 65535, 65535]]]], ["#12a", [[kind, [0x1111, 0x2222, 0xaaaa]]]], ["#1234ab", [[kind, [0x1212, 0x3434, 0xabab]]]],
   ["#123456789", [[kind, [0x1231, 0x4564, 0x7897]]]], ["#123456789abc", [[kind, [0x1234, 0x5678, 0x9abc]]]], ["red", [[kind, [65535, 0, 0]]]], ["Navy", [[kind, [0, 0, 0x8080]]]],
   ["notacolor", "error"], ["#12", "error"], ["#ggg", "error"], ["#+1+2+3", "error"]]
opaque = lambda kind: color(kind) + [["#12ab", "error"], ["#1234ab7f", "error"]]
calpha = lambda kind: color(kind) + [["#1234ab7f", [[kind, [0x1212, 0x3434, 0xabab]], [kind + "_ALPHA", 0x7f7f]]], ["#12ab", [[kind, [0x1111, 0x2222, 0xaaaa]], [kind + "_ALPHA", 0xbbbb]]]]
alpha = lambda kind: [["1", [[kind, 1]]], ["65535", [[kind, 65535]]], ["50%", [[kind, 32767]]], ["100%", [[kind, 65535]]], ["zzz", "error"], ["-5", "error"], ["70000", "error"], ["101%", "error"], ["-1%", "error"]]
sizes = [["12800", [["SIZE", 12800]]], ["12.5pt", [["SIZE", 12800]]], ["medium", [["SCALE", 1.0]]], ["small", [["SCALE", 1/1.2]]], ["x-small", [["SCALE", 1/1.44]]], ["xx-small", [["SCALE", 1/1.728]]],
  ["large", [["SCALE", 1.2]]], ["x-large", [["SCALE", 1.44]]], ["xx-large", [["SCALE", 1.728]]], ["150%", [["SCALE", 1.5]]], ["larger", [["level", 1]]], ["smaller", [["level", -1]]], ["zzz", "error"]]
desc = [["Sans", [["FONT_DESC", None]]]]
span = {
 "font": desc, "font_desc": desc,
 "face": [["Foo", [["FAMILY", "Foo"]]]], "font_family": [["Foo", [["FAMILY", "Foo"]]]],
 "size": sizes, "font_size": sizes,
 "style": enum("STYLE", style), "font_style": enum("STYLE", style),
 "weight": enum("WEIGHT", {**weight, "ultralight": 200, "450": 450}), "font_weight": enum("WEIGHT", {"ultrabold": 800, "Bold": 700, "450": 450}),
 "variant": enum("VARIANT", {**variant, "smallcaps": 1}), "font_variant": enum("VARIANT", variant),
 "stretch": enum("STRETCH", {**stretch, "ultracondensed": 0}), "font_stretch": enum("STRETCH", stretch),
 "font_features": [["dlig=1, -kern", [["FONT_FEATURES", "dlig=1, -kern"]]]],
 "foreground": calpha("FOREGROUND"), "fgcolor": calpha("FOREGROUND"), "color": calpha("FOREGROUND"),
 "background": calpha("BACKGROUND"), "bgcolor": calpha("BACKGROUND"),
 "alpha": alpha("FOREGROUND_ALPHA"), "fgalpha": alpha("FOREGROUND_ALPHA"),
 "background_alpha": alpha("BACKGROUND_ALPHA"), "bgalpha": alpha("BACKGROUND_ALPHA"),
 "underline": enum("UNDERLINE", num(["none", "single", "double", "low", "error", "single-line", "double-line", "error-line"])),
 "underline_color": opaque("UNDERLINE_COLOR"),
 "overline": enum("OVERLINE", num(["none", "single"])), "overline_color": opaque("OVERLINE_COLOR"),
 "strikethrough": enum("STRIKETHROUGH", boolean), "strikethrough_color": opaque("STRIKETHROUGH_COLOR"),
 "rise": length("RISE"),
 "baseline_shift": enum("BASELINE_SHIFT", {"superscript": 1, "subscript": 2, "2048": 2048, "5.5pt": 5632, "-5.5pt": -5632}),
 "font_scale": enum("FONT_SCALE", {"superscript": 1, "subscript": 2, "small-caps": 3}),
 "letter_spacing": [["1234", [["LETTER_SPACING", 1234]]], ["-1", [["LETTER_SPACING", -1]]], ["1.5", "error"], ["zzz", "error"]],
 "line_height": [["1.5", [["LINE_HEIGHT", 1.5]]], ["2000", [["ABSOLUTE_LINE_HEIGHT", 2000]]], ["2000.0", [["LINE_HEIGHT", 2000]]], ["1000", [["LINE_HEIGHT", 1000]]], ["zzz", "error"]],
 "lang": [["fr", [["LANGUAGE", "fr"]]]],
 "fallback": enum("FALLBACK", boolean), "allow_breaks": enum("ALLOW_BREAKS", boolean), "insert_hyphens": enum("INSERT_HYPHENS", boolean),
 "show": enum("SHOW", {"none": 0, "spaces": 1, "line-breaks": 2, "ignorables": 4, "spaces|line-breaks": 3, "spaces | ignorables": 5}, ("zzz", "spaces|zzz")),
 "gravity": enum("GRAVITY", gravity, ("zzz", "auto")), "gravity_hint": enum("GRAVITY_HINT", num(["natural", "strong", "line"])),
 "text_transform": enum("TEXT_TRANSFORM", num(["none", "lowercase", "uppercase", "capitalize"])),
 "segment": [["word", [["WORD", 1]]], ["sentence", [["SENTENCE", 1]]], ["zzz", "error"]],
}
tags = {
 "b": [["WEIGHT", 700]], "i": [["STYLE", 2]], "s": [["STRIKETHROUGH", 1]], "u": [["UNDERLINE", 1]], "tt": [["FAMILY", "Monospace"]],
 "sub": [["FONT_SCALE", 2], ["BASELINE_SHIFT", 2]], "sup": [["FONT_SCALE", 1], ["BASELINE_SHIFT", 1]],
 "big": [["level", 1]], "small": [["level", -1]], "markup": [], "zzz": "error",
}
x = {}
for l in open('/usr/share/X11/rgb.txt'):
    m = re.match(r'\s*(\d+)\s+(\d+)\s+(\d+)\s+(.*)', l)
    if m: x[m[4].strip().lower()] = [int(v) for v in m.groups()[:3]]
css = json.loads(subprocess.check_output(['node', '-e', 'import("/opt/veriftools/node/node_modules/color-name/index.js").then(m=>console.log(JSON.stringify(m.default)))']))
colors = dict(sorted({**{n: v for n, v in x.items() if " " not in n}, **css}.items()))
# the numbers of the enumerations, by the name of their exported constants
consts = {"STYLE_" + n.upper(): style[n] for n in ("normal", "oblique", "italic")}
consts.update({"VARIANT_" + n.upper().replace("-", "_"): i for n, i in variant.items()})
consts.update({"STRETCH_" + n.upper().replace("-", "_"): i for n, i in stretch.items()})
consts.update({"WEIGHT_" + n.upper(): weight[w] for n, w in {"thin": "thin", "ultralight": "ultra-light", "light": "light", "semilight": "semi-light", "book": "book", "normal": "normal", "medium": "medium", "semibold": "semi-bold", "bold": "bold", "ultrabold": "ultra-bold", "heavy": "heavy", "ultraheavy": "ultra-heavy"}.items()})
consts.update({"GRAVITY_" + n.upper(): i for n, i in {**gravity, "auto": 4}.items()})
names = {"weight": weight, "style": style, "stretch": stretch, "variant": variant, "gravity": gravity}
json.dump({"kinds": kinds, "constructors": constructors, "span": span, "tags": tags, "colors": colors, "css": sorted(css), "consts": consts, "names": names},
  open(os.path.join(os.path.dirname(here), "tpcheck", "oracle", "pango.json"), "w"), indent=0, ensure_ascii=False)
