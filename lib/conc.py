"""Exact evaluation of extracted value terms and path facts at concrete byte / code values."""
import re
class Unknown(Exception): pass
W = {"char": (8, 1), "signed char": (8, 1), "unsigned char": (8, 0), "bool": (1, 0), "std::byte": (8, 0), "short": (16, 1), "unsigned short": (16, 0), "int": (32, 1), "unsigned int": (32, 0),
     "long": (64, 1), "unsigned long": (64, 0), "long long": (64, 1), "unsigned long long": (64, 0), "char8_t": (8, 0), "char16_t": (16, 0), "char32_t": (32, 0), "wchar_t": (32, 1)}
ALIAS = {"uint8_t": "unsigned char", "int8_t": "signed char", "uint16_t": "unsigned short", "int16_t": "short", "uint32_t": "unsigned int", "int32_t": "int", "uint64_t": "unsigned long", "int64_t": "long", "size_t": "unsigned long",
         "unsigned": "unsigned int", "difference_type": "long", "ptrdiff_t": "long", "size_type": "unsigned long"}
def ctype(t):
    t = t.replace("const ", "").replace("std::", "").replace("&", "").strip(); t = ALIAS.get(t, t)
    return t if t in W else None
def wrap(v, ty):
    w, sg = W[ty]
    if ty == "bool": return int(v != 0)
    v &= (1 << w) - 1
    return v - (1 << w) if sg and v >> (w - 1) else v
def ev(t, val):
    """value of term t; val(leaf) gives the value of a leaf or None"""
    k = t[0]
    if k == "c": return t[1]
    r = val(t)
    if r is not None: return r
    if k == "lin":
        a = t[1]
        for x, c in t[2]: a += c * ev(x, val)
        return a
    if k == "ge0": return int(ev(t[1], val) >= 0)
    if k == "eq0": return int(ev(t[1], val) == 0)
    if k == "ne0": return int(ev(t[1], val) != 0)
    if k == "cast":
        return wrap(ev(t[2], val), t[1])
    if k == "op":
        a = ev(t[2], val)
        if len(t) == 3:
            if t[1] == "~": return ~a
            if t[1] == "-": return -a
            raise Unknown
        b = ev(t[3], val); o = t[1]
        if o == "&": return a & b
        if o == "|": return a | b
        if o == "^": return a ^ b
        if o == "*": return a * b
        if o in ("<<", ">>"):
            if not 0 <= b < 64: raise Unknown
            return (a << b) if o == "<<" else a >> b
        if o == "/" and b: return a // b if (a >= 0) == (b > 0) else -((-a) // b)
        if o == "%" and b: return a - b * (a // b if (a >= 0) == (b > 0) else -((-a) // b))
    raise Unknown
def wrapped(t, v):
    """a shift left by the value of a term that came out of a 64-bit computation"""
    return v & ((1 << 64) - 1)
def src(t, leaf):
    """Python source of the value of t; leaf(x) gives the source of a leaf or None"""
    k = t[0]
    if k == "c": return repr(t[1])
    r = leaf(t)
    if r is not None: return r
    g = lambda x: src(x, leaf)
    if k == "lin": return "(" + repr(t[1]) + "".join(f"+{c!r}*{g(x)}" for x, c in t[2]) + ")"
    if k in ("ge0", "eq0", "ne0"): return f"(({g(t[1])}) {dict(ge0='>=', eq0='==', ne0='!=')[k]} 0)"
    if k == "cast":
        w, sg = W[t[1]]
        if t[1] == "bool": return f"(({g(t[2])}) != 0)"
        m = (1 << w) - 1; h = 1 << (w - 1)
        return f"(((({g(t[2])}) + {h}) & {m}) - {h})" if sg else f"(({g(t[2])}) & {m})"
    if k == "op":
        if len(t) == 3:
            if t[1] in "~-": return f"({t[1]}({g(t[2])}))"
            raise Unknown
        if t[1] in ("&", "|", "^", "*", "<<", ">>"): return f"(({g(t[2])}) {t[1]} ({g(t[3])}))"
    raise Unknown
def compiled(ts, names, leaf):
    """function of the named values giving the tuple of values of ts"""
    return eval(f"lambda {', '.join(names)}: (" + "".join(src(t, leaf) + ", " for t in ts) + ")", {"__builtins__": {}, "TAB": TAB})
TAB = []
