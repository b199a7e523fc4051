"""Type descriptors shared by the harnesses."""

from props.lib import *

INT, STR, BOOL, FLOAT, ANY = TInt(), TStr(), TBool(), TFloat(), TAny()
XY = TDC("XY", F("x", TInt()), F("y", TStr()))
PQ = TDC("PQ", F("p", TStr()), F("q", TOpt(TInt())))
DEF = TDC("Def", F("a", TInt(), default=7), F("b", TStr(), default="s"), F("c", TSeq(TInt()), factory=list), F("d", TOpt(TInt())))
DEF2 = TDC("Def2", F("a", TInt(), default=7), F("c", TSeq(TInt(), width=1), factory=list))
ALI = TDC(
    "Ali", F("p", TInt(), aliases=("a", "b")), F("q", TStr(), aliases=("b2", "q"), default="d"),
    F("r", TOpt(TBool()), aliases=("c",)),
)
REQ = TDC("Req", F("o", TOpt(TInt()), required=True), F("m", TInt(), default=3, required=True), F("z", TStr(), default="z"))
FLAT1 = TDC("Flat1", F("a", TInt()), F("inner", XY, flat=True))
FLAT2 = TDC("Flat2", F("k", TStr()), F("mid", TDC("Mid", F("m", TBool()), F("deep", ALI, flat=True)), flat=True))
FLATD = TDC("FlatD", F("a", TInt()), F("inner", DEF_SUB := TDC("DefSub", F("u", TInt(), default=1), F("w", TStr(), aliases=("v",), default="w")), flat=True))
REM = TDC("Rem", F("a", TInt()), F("rest", TDict(TStr(), TInt()), remainder=True))
REMA = TDC("RemA", F("a", TInt(), aliases=("al", "a")), F("o", TStr(), default="o"), F("rest", TDict(TStr(), TAny()), remainder=True))
NEST = TDC("Nest", F("i", XY), F("l", TSeq(XY, width=1)), F("m", TDict(TStr(), XY, width=1)), F("o", TOpt(XY)))
TD = TTypedDict("TD", F("name", TStr()), F("items", TInt()), F("year", TFloat(("fin", "nan", "0.1"))), optional=("year",))
NT = TNamedTuple("NT", F("a", TInt()), F("b", TStr()))
FLATTD = TDC("FlatTD", F("a", TInt()), F("td", TTypedDict("TD2", F("n", TStr()), F("k", TBool(), aliases=("kk",))), flat=True))
M = [("xy", XY), ("pq", PQ)]
