#!/usr/bin/env python3
"""Writes tpcheck/oracle/fontconfig.json: the vocabulary of fontconfig, from its reference (fcobjs.h, fontconfig.h, fcname.c, fcmatch.c, fcweight.c, fonts.dtd)."""
import json, os
O = """FAMILY family String
FAMILYLANG familylang String
STYLE style String
STYLELANG stylelang String
FULLNAME fullname String
FULLNAMELANG fullnamelang String
SLANT slant Integer
WEIGHT weight Range
WIDTH width Range
SIZE size Range
ASPECT aspect Double
PIXEL_SIZE pixelsize Double
SPACING spacing Integer
FOUNDRY foundry String
ANTIALIAS antialias Bool
HINT_STYLE hintstyle Integer
HINTING hinting Bool
VERTICAL_LAYOUT verticallayout Bool
AUTOHINT autohint Bool
GLOBAL_ADVANCE globaladvance Bool
FILE file String
INDEX index Integer
RASTERIZER rasterizer String
OUTLINE outline Bool
SCALABLE scalable Bool
DPI dpi Double
RGBA rgba Integer
SCALE scale Double
MINSPACE minspace Bool
CHARWIDTH charwidth Integer
CHAR_HEIGHT charheight Integer
MATRIX matrix Matrix
CHARSET charset CharSet
LANG lang LangSet
FONTVERSION fontversion Integer
CAPABILITY capability String
FONTFORMAT fontformat String
EMBOLDEN embolden Bool
EMBEDDED_BITMAP embeddedbitmap Bool
DECORATIVE decorative Bool
LCD_FILTER lcdfilter Integer
NAMELANG namelang String
FONT_FEATURES fontfeatures String
PRGNAME prgname String
HASH hash String
POSTSCRIPT_NAME postscriptname String
COLOR color Bool
SYMBOL symbol Bool
FONT_VARIATIONS fontvariations String
VARIABLE variable Bool
FONT_HAS_HINT fonthashint Bool
ORDER order Integer"""
objects = {l.split()[0]: {"name": l.split()[1], "type": l.split()[2]} for l in O.split("\n")}
values = dict(SLANT_ROMAN=0, SLANT_ITALIC=100, SLANT_OBLIQUE=110,
  WIDTH_ULTRACONDENSED=50, WIDTH_EXTRACONDENSED=63, WIDTH_CONDENSED=75, WIDTH_SEMICONDENSED=87, WIDTH_NORMAL=100,
  WIDTH_SEMIEXPANDED=113, WIDTH_EXPANDED=125, WIDTH_EXTRAEXPANDED=150, WIDTH_ULTRAEXPANDED=200,
  PROPORTIONAL=0, DUAL=90, MONO=100, CHARCELL=110,
  RGBA_UNKNOWN=0, RGBA_RGB=1, RGBA_BGR=2, RGBA_VRGB=3, RGBA_VBGR=4, RGBA_NONE=5,
  HINT_NONE=0, HINT_SLIGHT=1, HINT_MEDIUM=2, HINT_FULL=3, LCD_NONE=0, LCD_DEFAULT=1, LCD_LIGHT=2, LCD_LEGACY=3,
  WEIGHT_THIN=0, WEIGHT_EXTRALIGHT=40, WEIGHT_ULTRALIGHT=40, WEIGHT_LIGHT=50, WEIGHT_DEMILIGHT=55, WEIGHT_SEMILIGHT=55,
  WEIGHT_BOOK=75, WEIGHT_REGULAR=80, WEIGHT_NORMAL=80, WEIGHT_MEDIUM=100, WEIGHT_DEMIBOLD=180, WEIGHT_SEMIBOLD=180,
  WEIGHT_BOLD=200, WEIGHT_EXTRABOLD=205, WEIGHT_ULTRABOLD=205, WEIGHT_BLACK=210, WEIGHT_HEAVY=210, WEIGHT_EXTRABLACK=215, WEIGHT_ULTRABLACK=215)
C = {}
for n in "thin extralight ultralight demilight semilight light book regular medium demibold semibold bold extrabold ultrabold black heavy".split():
    C[n] = ["WEIGHT", values["WEIGHT_" + n.upper()]]
for n in "roman italic oblique".split(): C[n] = ["SLANT", values["SLANT_" + n.upper()]]
for n in "ultracondensed extracondensed condensed semicondensed normal semiexpanded expanded extraexpanded ultraexpanded".split():
    C[n] = ["WIDTH", values["WIDTH_" + n.upper()]]
for n in "proportional dual mono charcell".split(): C[n] = ["SPACING", values[n.upper()]]
for n in "unknown rgb bgr vrgb vbgr none".split(): C[n] = ["RGBA", values["RGBA_" + n.upper()]]
for n in "none slight medium full".split(): C["hint" + n] = ["HINT_STYLE", values["HINT_" + n.upper()]]
for n in "none default light legacy".split(): C["lcd" + n] = ["LCD_FILTER", values["LCD_" + n.upper()]]
for n, o in dict(antialias="ANTIALIAS", hinting="HINTING", verticallayout="VERTICAL_LAYOUT", autohint="AUTOHINT", globaladvance="GLOBAL_ADVANCE",
  outline="OUTLINE", scalable="SCALABLE", minspace="MINSPACE", embolden="EMBOLDEN", embeddedbitmap="EMBEDDED_BITMAP", decorative="DECORATIVE").items():
    C[n] = [o, 1]
priorities = """FILE FONTFORMAT VARIABLE SCALABLE COLOR FOUNDRY CHARSET FAMILY+ POSTSCRIPT_NAME+ LANG FAMILY- POSTSCRIPT_NAME- SYMBOL SPACING
 SIZE PIXEL_SIZE STYLE SLANT WEIGHT WIDTH FONT_HAS_HINT DECORATIVE ANTIALIAS RASTERIZER OUTLINE ORDER FONTVERSION""".split()
comparators = dict(family="FAMILY", string="STYLE FOUNDRY RASTERIZER FONTFORMAT", number="SLANT PIXEL_SIZE SPACING FONTVERSION ORDER", range="WEIGHT WIDTH",
  size="SIZE", bool="ANTIALIAS OUTLINE SCALABLE DECORATIVE COLOR SYMBOL VARIABLE FONT_HAS_HINT", filename="FILE", charset="CHARSET", lang="LANG", postscript="POSTSCRIPT_NAME")
weights = [[0, 0], [100, 0], [200, 40], [300, 50], [350, 55], [380, 75], [400, 80], [500, 100], [600, 180], [700, 200], [800, 205], [900, 210], [1000, 215]]
booldefaults = dict(HINTING=True, VERTICAL_LAYOUT=False, AUTOHINT=False, GLOBAL_ADVANCE=True, EMBEDDED_BITMAP=True, DECORATIVE=False, SYMBOL=False, VARIABLE=False)
defaults = dict(WEIGHT=80, SLANT=0, WIDTH=100, FONTVERSION=0x7fffffff, HINT_STYLE=3, ORDER=0)
out = dict(objects=objects, values=values, constants=C, priorities=priorities, comparators={k: v.split() for k, v in comparators.items()},
  weights=weights, booldefaults=booldefaults, defaults=defaults,
  accepts=dict(String=["String"], Integer=["Int"], Range=["Int", "Float", "Range"], Double=["Int", "Float"], Bool=["Bool"], Matrix=["Matrix"], CharSet=["Charset"], LangSet=["Langset", "String"]),
  parses=dict(String=["String"], Integer=["Int"], Range=["Float", "Range"], Double=["Float"], Bool=["Bool"], Matrix=["Matrix"], CharSet=["Charset"], LangSet=["Langset"]))
json.dump(out, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tpcheck/oracle/fontconfig.json"), "w"), indent=1)
