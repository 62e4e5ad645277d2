# Generates json_units.json: the bytes of the units of JsonReader.tla, by class and width.
import json, os
b = lambda *ss: [list(s if isinstance(s, bytes) else s.encode()) for s in ss]
L = {"q1": b('"'), "b1": b("\\"), "w1": b(" ", "\n", "\t", "\r"), "w2": b("\u0085", "\u00a0"), "w3": b("\u2028", "\u3000", "\u1680", "\u2003"),
     "c1": b("a", "{", "}", ":", "0", "\u007f", ",", "["), "c2": b("é", "ß", "\u0080", "\u07ff"), "c3": b("日", "\u0800", "\uffff", "\ud7ff", "\ue000", "\u200b", "\ufeff"),
     "c4": b("😀", "\U00010000", "\U0010ffff"),
     "m1": b(b"\x80", b"\xbf", b"\xc0", b"\xc1", b"\xf5", b"\xff", b"\xfe"),
     "m2": b(b"\xc0\xaf", b"\xe0\x80", b"\xc3\x28", b"\xc3\"", b"\xe2\x28", b"\xed\xa0", b"\xf4\x90", b"\xf0\x80", b"\xc1\x81"),
     # only where nothing follows
     "t1": b(b"\xc3", b"\xe2", b"\xf0", b"\xdf"), "t2": b(b"\xe2\x82", b"\xf0\x9f", b"\xe0\xa0")}
# a character of every lead byte, not white space; every ASCII character which isn't special; every byte no character starts with
import random
R = random.Random(7)
def led(n, lo, hi):
    while True:
        c = chr(R.randint(lo, hi))
        if not c.isspace() and not 0xD800 <= ord(c) <= 0xDFFF and len(c.encode()) == n: return c
for a in range(0xC2, 0xE0): L["c2"] += b(led(2, max(0x80, (a & 31) << 6), ((a & 31) << 6) + 63))
for a in range(0xE0, 0xF0): L["c3"] += b(led(3, max(0x800, (a & 15) << 12), ((a & 15) << 12) + 4095))
for a in range(0xF0, 0xF5): L["c4"] += b(led(4, max(0x10000, (a & 7) << 18), min(0x10FFFF, ((a & 7) << 18) + 0x3FFFF)))
L["c1"] += b(*(chr(c) for c in range(33, 127) if chr(c) not in '"\\'))
L["m1"] += [[c] for c in list(range(0x80, 0xC0, 5)) + list(range(0xF5, 0x100))]
json.dump(L, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "json_units.json"), "w"), indent=0)
