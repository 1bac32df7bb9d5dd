"""Writes data.json: character tables, the enum pool and double roundings."""
import json, sys
sp = [" ", "\t", "\n", "\r", "\x0b", "\x0c", "\u00a0", "\u2003", "\u3000", "\u2028"]
casing = []
for c in "abcdefghijklmnopqrstuvwxyz":
    casing.append([c, c, c.upper()]); casing.append([c.upper(), c, c.upper()])
for c in ["\u00e9", "\u00df", "\u00c9", "\u0130", "\u03c3", "\u03a3"]:
    casing.append([c, c.lower(), c.upper()])
utf8 = [[c, len(c.encode())] for c in sp + ["\u00e9", "\u00df", "\u00c9", "\u20ac", "\u4e2d", "\u6587", "\u0130", "\u03c3", "\u03a3", "\u0660", "\u2212"] if ord(c) > 127]
I = lambda n: {"t": "int", "i": n}
S = lambda s: {"t": "str", "s": s}
enums = [
    {"c": "EPlain", "base": "none", "mem": [{"n": "A", "v": I(1)}, {"n": "B", "v": S("b")}, {"n": "C", "v": {"t": "float", "q": 10}}]},
    {"c": "EInts", "base": "none", "mem": [{"n": "P", "v": I(1)}, {"n": "Q", "v": I(2)}, {"n": "R", "v": I(7)}]},
    {"c": "EStr", "base": "str", "mem": [{"n": "X", "v": S("x")}, {"n": "Y", "v": S("yes")}, {"n": "N", "v": S("1")}]},
    {"c": "EInt", "base": "int", "mem": [{"n": "ZERO", "v": I(0)}, {"n": "ONE", "v": I(1)}, {"n": "TWO", "v": I(2)}]},
    {"c": "EFall", "base": "none", "mem": [{"n": "A", "v": S("a")}, {"n": "B", "v": I(5)}]},
    {"c": "EFlo", "base": "float", "mem": [{"n": "H", "v": {"t": "float", "q": 2}}, {"n": "W", "v": {"t": "float", "q": 8}}]},
]
bigs = [10**k for k in range(9, 24)] + [2**k for k in (31, 32, 53, 62, 63, 64, 65, 70, 100)] + \
    [2**63 - 1, 2**63 + 1, 2**64 - 1, 2**53 + 1, 10**17 + 1, 12345678901234567890, 10**30, 2**63 - 1024, 2**63 + 2048]
doubles = sorted({(str(b), str(int(float(b)))) for b in bigs if len(str(b)) > 15})
import base64
raw = [b"", b"a", b"ab", b"x>?~", b"\xff\xfe", b"\xfb\xef\xbe", "\u00e9\u4e2d".encode(), b"1", b"q\"\\\n", b"\x00\x1f"]
def benc(b):
    try: y, u = b.decode(), True
    except UnicodeDecodeError: y, u = b.hex(), False
    return {"y": y, "u": u, "hex": b.hex(), "b64": base64.urlsafe_b64encode(b).decode()}
jesc = [["\"", "\\\""], ["\\", "\\\\"], ["\b", "\\b"], ["\f", "\\f"], ["\n", "\\n"], ["\r", "\\r"], ["\t", "\\t"]] + \
    [[chr(c), "\\u%04x" % c] for c in range(0, 32) if chr(c) not in "\b\f\n\r\t"]
dcfields = {"DA": list("abc"), "DA1": list("abcd"), "DB": list("ab"), "DS": list("abc"), "DP": list("abc"), "DQ": list("abc"), "DCF": list("abc")}
json.dump({"bytes": [benc(b) for b in raw], "jesc": jesc, "dcfields": dcfields, "spaces": sp, "casing": casing, "utf8": utf8, "minus": "\u2212", "enums": enums, "doubles": [list(d) for d in doubles]},
          open(sys.argv[1], "w"), indent=0)
