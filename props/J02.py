"""J02: JSON writing: every value is written as one well-formed JSON value with the content it has."""
from views import *
import conc, itertools
from J01 import Read, q, B, POS, UNITS, APP, describe, bytesof, utf8, kindof
TUS = ["json"]
META = dict(title="Writing JSON produces one well-formed value that says what the object holds",
    statement="Whatever an object holds, it is written as exactly one well-formed JSON value: every element, every member under its own name, once and in order, with null for what is absent, and with correct separators also when a container is empty. Every character of every string, whatever its bytes, is written so that it reads back as the same character; a string that is not valid UTF-8 raises an exception instead, and valid UTF-8 never does.",
    over=["inputs"], q="every byte sequence in a string, every number of elements, every state of optionals and pointers, every type of value the harness writes",
    why="The tests write a few ASCII and CJK strings; control characters, quotes, surrogate pairs, truncated or overlong sequences, empty containers and absent values are an unbounded set.",
    files=["reflection/json/JsonWrite.hpp", "reflection/MemberName.hpp"],
    mech=[("writers", "reflection/json/JsonWrite.hpp ToJson::toJson"), ("escaping", "reflection/json/JsonWrite.hpp writeStringWithEscape, writeUnicodeToString, decodeUtf8"), ("members", "reflection/MemberName.hpp forEach")],
    technique="abstract interpretation with a grammar automaton over written tokens and an extracted byte transducer compared with an independent codec",
    note="Numbers are those std::format prints (a NaN or infinity is no JSON). Wide strings, character arrays and the names the compiler reports for members are left open; so are duplicate keys of multimaps.",
    design="""Every writer instantiation is run with its output modelled as tokens that drive a JSON grammar automaton; nested writers count as one value by this same property. Positions of iterators, tuple indices and member indices are tracked
symbolically, so that each value written must be the next one, each name the name of the member that follows, and the end must be reached. The string writer is run on a text of symbolic length; on each path, the path condition and the bytes
appended are extracted as terms over the bytes consumed, compiled, and evaluated for every byte and for all combinations of boundary bytes, then compared with an independent UTF-8 validator and JSON string decoder.""")
ASSUMES = ["std::format, containers and strings behave as the standard says"]
G = ("ghost",); STATE, NAME, N = ((G, x) for x in ("jstate", "jname", "jn"))
LIST = {"0": {"[": "1"}, "1": {"V": "2", "]": "F"}, "2": {",": "3", "]": "F"}, "3": {"V": "2", "<]": "F"}}
OBJ = {"0": {"{": "1"}, "1": {"K": "k", "}": "F"}, "k": {":": "v"}, "v": {"V": "2"}, "2": {",": "3", "}": "F"}, "3": {"K": "k", "<}": "F"}}
STR = {"0": {'"': "1"}, "1": {"S": "2"}, "2": {'"': "F"}}
ONE = {"0": {"V": "F"}}
WHERE = {"0": "at the start", "1": "after the opening bracket", "2": "after a value", "3": "after a comma", "k": "after a name", "v": "after a colon", "F": "after the end of the value"}
def plain(t): return t.replace("const ", "").removesuffix("&").removesuffix("&").strip()
class Write(Views):
    lib_throws = lambda s, n, x: False
    unroll = 0
    ghosts = (N, (G, "cnt")); _ks = ()
    def skey(s, st): return (st.env.get(STATE), st.env.get(NAME))
    def force_inline(s, fn): return super().force_inline(fn) or "/reflection/" in fn.file
    def fail(s, st, fr, n, key, msg): s.bad(key, msg, fr.fn, n.l if n is not None else fr.fn.line, st.tr)
    def lift(s, t):
        b, o = ptr(t) if isinstance(t, tuple) else (None, None)
        return (b, o) if isinstance(b, tuple) and b[0] == "elems" else None
    def on_elem(s, st, fr, n, rv, sym):
        if isinstance(rv, Loc) and rv.p == s.T: st = st.cp(); st.env[(G, "el")] = sym; st.env[(G, "cnt")] = ladd(st.env[(G, "cnt")], C(1))
        return st
    def loop(s, n, sts, fr):
        r = super().loop(n, sts, fr)
        if n.k == "CXXForRangeStmt":
            out = []
            for x in r["n"]:
                if (G, "el") in x.env or x.env[(G, "cnt")] == C(0):
                    x = x.assume(T_cmp("==", x.env[(G, "cnt")], ("size", s.T))) or x
                out.append(x)
            r["n"] = out
        return r
    def relations(s, st): return [(st.env[k], st.env[N]) for k in s._ks if k in st.env and N in st.env]
    def join(s, a, b, site):
        if a is b: return a
        ks = {k: s.lift(a.env[k])[0] for k in set(a.env) & set(b.env) if isinstance(a.env[k], tuple) and a.env[k] != b.env[k] and s.lift(a.env[k]) and s.lift(b.env[k]) and s.lift(a.env[k])[0] == s.lift(b.env[k])[0]}
        if ks:
            a, b = a.cp(), b.cp()
            for k in ks: a.env[k] = ptr(a.env[k])[1]; b.env[k] = ptr(b.env[k])[1]
        s._ks = tuple(ks); n = super().join(a, b, site); s._ks = ()
        if ks:
            n = n.cp() if n is not None else n
            for k in ks:
                if k in n.env: n.env[k] = mkptr(ks[k], n.env[k])
        return n
    # ---- output
    def tok(s, st, fr, n, sym, back=False):
        a = st.env[STATE]; s.count("tokens written")
        if a == "?": return st
        st = st.cp(); g = s.gram.get(a, {}); k = ("<" if back else "") + sym
        if k not in g:
            s.fail(st, fr, n, "grammar", f"{ {'V': 'a value', 'K': 'a name', 'S': 'text'}.get(sym, repr(sym)) } {'replaces the last character' if back else 'is written'} {WHERE[a]}"); st.env[STATE] = "?"; return st
        st.env[STATE] = g[k]; return st
    def raw(s, st, fr, n, v, back=False):
        if v[0] == "s": text = v[1]
        elif is_c(v) and 0 < v[1] < 256: text = chr(v[1])
        elif v[0] == "sv" and (b := v[1])[0] == "str" and is_c(v[2]) and is_c(v[3]): text = b[1][v[2][1]:v[3][1]]
        elif v[0] == "fmt": return s.value(st, fr, n, ("fmt",) + v[1:])
        else: s.fail(st, fr, n, "text", "characters are written that are no part of the syntax"); return st
        if s.kind in ("bool", "null", "opt"):
            if text in ("true", "false", "null"): return s.value(st, fr, n, ("word", text))
        for ch in text: st = s.tok(st, fr, n, ch, back)
        return st
    def value(s, st, fr, n, v):
        """a value (or a name) is written"""
        st = st.cp()
        if s.kind in ("bool",):
            if v[0] == "word":
                for want, x in ((C(1), "true"), (C(0), "false")):
                    if v[1] == x and not s.prove(st, T_truth(s.subject(st)) if x == "true" else T_eq0(s.subject(st))): s.fail(st, fr, n, "value", f"'{x}' is written although the value may be {'false' if x == 'true' else 'true'}")
            return s.tok(st, fr, n, "V")
        if s.kind == "null":
            if v != ("word", "null"): s.fail(st, fr, n, "value", "null is not written as null")
            return s.tok(st, fr, n, "V")
        if s.kind == "num":
            if v[0] != "fmt" or v[1] != s.T and v[1] != s.subject(st): s.fail(st, fr, n, "value", "the number written is not the one given")
            elif v[2] not in ("{}",) and not re.fullmatch(r"\{:\.\d+f\}", v[2] or ""): s.fail(st, fr, n, "value", f"a number is written with the format '{v[2]}'")
            return s.tok(st, fr, n, "V")
        p = v[1] if v[0] == "val" else None
        if isinstance(p, tuple) and p[:1] == ("in",): p = p[1]
        if s.kind in ("one",): return s.tok(st, fr, n, "V") if p is not None or v[0] == "word" else st
        if s.kind == "opt":
            has = s.has(st)
            nul = v == ("word", "null") or v[0] == "val" and ("nullopt_t" in v[2] or "nullptr_t" in v[2] or "nullopt" in str(p) or "nullptr" in str(p) or p == C(0))
            if not nul and not (isinstance(p, tuple) and p[:1] == s.T and len(p) == 2 or s.held(st, p)): s.fail(st, fr, n, "value", "the value written is not the one held")
            if nul and has is not False: s.fail(st, fr, n, "value", "null is written although there may be a value")
            if not nul and has is not True: s.fail(st, fr, n, "value", "the value held is written without knowing that there is one")
            return s.tok(st, fr, n, "V")
        if p is None: s.fail(st, fr, n, "value", "something else than an element is written"); return st
        a = st.env[STATE]; name = a in ("1", "3") and s.gram is OBJ; i = st.env[N]
        if s.kind == "refl":
            t = p if not isinstance(p, tuple) or not p or not isinstance(p[0], tuple) else p
            if name:
                x = st.env.get(p[:1]) if isinstance(p, tuple) and p and isinstance(p[0], tuple) and p[0][0] == "v" else p
                ok = x is not None and mentions(x, ("[]", i)) and mentions_names(st, x)
                if not ok: s.fail(st, fr, n, "name", f"the name written before member {show(i)} is not its name")
                return s.tok(st, fr, n, "K")
            if isinstance(p, tuple) and p[:1] == ("fld",): ok = p == ("fld", ("tie", s.T), ("get", i[1] if is_c(i) else -1))
            else: ok = isinstance(p, tuple) and len(p) == 2 and p[1] == ("get", i[1] if is_c(i) else -1) and (tv := st.read(p[:1])) is not None and tv == ("tie", s.T)
            if not ok: s.fail(st, fr, n, "member", f"the value written under the name of member {show(i)} is not that member")
            st.env[N] = ladd(i, C(1)); return s.tok(st, fr, n, "V")
        if s.kind == "tuple":
            if not (isinstance(p, tuple) and p[:1] == s.T and p[1:] == (("get", i[1] if is_c(i) else -1),)): s.fail(st, fr, n, "element", f"what is written as element {show(i)} is not that element")
            st.env[N] = ladd(i, C(1)); return s.tok(st, fr, n, "V")
        part = p[1:]
        x = s.lift(p[0][1]) if isinstance(p, tuple) and p and isinstance(p[0], tuple) and p[0][0] == "*" else None
        if x is None and isinstance(p, tuple) and p[:1] == s.T and len(p) > 1 and p[1] == ("[]", st.env.get((G, "el"))): x = ("elems", s.T), ladd(st.env[(G, "cnt")], C(-1)); part = p[2:]
        if x is None or x[0] != ("elems", s.T): s.fail(st, fr, n, "element", "what is written is not an element of the container"); 
        elif not s.prove(st, T_cmp("==", x[1], i)): s.fail(st, fr, n, "element", f"element {show(x[1])} is written in place {show(i)}")
        want = () if s.gram is LIST else ("first",) if name else ("second",)
        if tuple(part) != want: s.fail(st, fr, n, "element", "a value is written in place of a name" if name else "a name is written in place of a value")
        if not name: st.env[N] = ladd(i, C(1))
        return s.tok(st, fr, n, "K" if name else "V")
    def held(s, st, p): return isinstance(p, tuple) and p and isinstance(p[0], tuple) and p[0][0] == "*" and mentions(p[0][1], s.T[0])
    def has(s, st):
        t = st.env.get((G, "has"))
        return None if t is None else t == C(1)
    def subject(s, st): return st.read(s.Tv)
    # ---- calls
    def is_s(s, x): return isinstance(x, Loc) and x.p == s.S
    def on_call(s, st, fr, n, name, obj, args):
        sh = name.split("::")[-1]
        if sh == "toJson" and len(args) == 2 and s.is_s(args[1]):
            a = args[0]; s.throw(st, fr, "?", n)
            return [(s.value(st, fr, n, ("val", a.p if isinstance(a, Loc) else a, s.typ(n.args()[0]) if hasattr(n, "args") else s.argt(n))), ("void",))]
        f = s.m.fns.get(n.get("fn"))
        if role(f) == "escape":
            ok = s.strs(st, s.val(st, args[0]), s.val(st, args[1]))
            if not ok: s.fail(st, fr, n, "string", "what is written between the quotes is not the whole string")
            s.throw(st, fr, "std::runtime_error", n)
            return [(s.tok(st, fr, n, "S"), ("void",))]
        if sh == "toEnumName": return [(st, ("enumname", s.val(st, args[0])))]
        if sh == "getMembersNames": return [(st, ("names", "names"))]
        if sh == "getObjTie": return [(st, ("tie", args[0].p if isinstance(args[0], Loc) else args[0]))]
        if sh == "operator[]" and name.startswith("std::array") and isinstance(obj, Loc): return [(st, Loc(obj.p + (("[]", s.val(st, args[0])),)))]
        if name == "std::format" and args:
            fmt = str_lits(n); a = args[1:]
            if len(a) == 1:
                v = a[0].p if isinstance(a[0], Loc) else a[0]
                return [(st, ("fmt", v, fmt[0] if fmt else None))]
        if name == "std::visit" and args and isinstance(args[0], tuple) and args[0][0] == "lam":
            lam = args[0]; out = []
            for g in [g for g in s.m.fns.values() if g.cls == lam[2] and g.short == "operator()" and g.body is not None]:
                out += s.inline(g, st, fr, n, ("lam", lam), [("alt", s.val(st, args[1]))])
            if out: return [(x, ("void",)) for x in s.merge([y.cp() for y, v in out], fr, (fr.fn.id, n.id, 2))]
        if s.kind == "opt" and sh in ("operator==", "operator!=") and len(args) + (obj is not None) == 2 and any(isinstance(x, Loc) and x.p == s.T for x in [obj] + list(args)):
            out = []
            for v in (0, 1):
                x = st.cp(); x.env[(G, "has")] = C(v); out.append((x, C(v if sh == "operator!=" else 1 - v)))
            return out
        if sh in ("operator bool", "has_value") and obj is not None and s.kind == "opt":
            out = []
            for v in (0, 1):
                x = st.cp(); x.env[(G, "has")] = C(v); out.append((x, C(v)))
            return out
        if sh in ("begin", "cbegin", "end", "cend") and isinstance(obj, Loc) and obj.p == s.T:
            if "end" not in sh: return [(st, mkptr(("elems", s.T), C(0)))]
            sz = ("size", s.T); return [(st.assume(T_cmp(">=", sz, C(0))) or st, mkptr(("elems", s.T), sz))]
        if sh == "empty" and isinstance(obj, Loc) and obj.p == s.T: return [(st, T_cmp("==", ("size", s.T), C(0)))]
        if sh in ("size",) and isinstance(obj, Loc) and obj.p == s.T and s.kind in ("list", "map"): return [(st, ("size", s.T))]
        xs = ([obj] if obj is not None else []) + list(args)
        if sh.startswith("operator") and xs:
            vs = [s.val(st, x) for x in xs]; it = s.lift(vs[0])
            if it:
                b, o = it
                if sh in ("operator++", "operator--") and isinstance(xs[0], Loc):
                    y = mkptr(b, ladd(o, C(1 if "++" in sh else -1)))
                    st = st.write(xs[0].p, y); return [(st, vs[0] if len(xs) > 1 else xs[0])]
                if sh == "operator*": return [(st, Loc((("*", vs[0]),)))]
                if sh == "operator->": return [(st, vs[0])]
                if sh in ("operator==", "operator!=") and len(vs) > 1 and (j := s.lift(vs[1])) and j[0] == b: return [(st, T_cmp(sh[8:], o, j[1]))]
        if obj is not None and s.is_s(obj):
            if sh in ("push_back", "append", "operator+="):
                if len(args) == 1: return [(s.raw(st, fr, n, s.val(st, args[0])), obj)]
            if sh == "back": return [(st, Loc(s.S + ("back",)))]
            if sh == "pop_back":
                st = st.cp()
                if st.env[STATE] == "3": st.env[STATE] = "2"
                else: s.fail(st, fr, n, "grammar", f"the last character is removed {WHERE.get(st.env[STATE], '')}")
                return [(st, ("void",))]
        return super().on_call(st, fr, n, name, obj, args)
    def argt(s, n):
        a = call_args(n); return s.typ(a[0]) if a else ""
    def strs(s, st, p, l):
        return s.whole(st, p, l)
    def whole(s, st, p, l):
        b, o = ptr(p); 
        v = st.read(s.T)
        if v is not None and p == ("data", v) and l == ("m", "size", v): return True
        vv = view(v)
        return vv[0] == b and vv[1] == o and ladd(vv[2], vv[1], -1) == l
    def on_assign(s, st, fr, n, p, t):
        if p == s.S + ("back",): return [s.raw(st, fr, n, t, True)]
        return super().on_assign(st, fr, n, p, t)
def mentions_names(st, x):
    for y in walk_term(x):
        if isinstance(y, tuple) and y[:1] == ("in",) and len(y) > 1 and st.read(y[1][:1]) == ("names", "names"): return True
    return mentions(x, ("names", "names"))
def role(f):
    if f is None or "/reflection/json/" not in f.file or len(f.params) != 3: return None
    a, b, c = (plain(p[2]) for p in f.params)
    return "escape" if f.params[0][2].replace(" ", "") in ("constchar*",) and conc.ctype(b) and "basic_string<char>" in f.params[2][2] and f.params[2][2].endswith("&") else None
def decode(bs):
    """bytes a JSON string body stands for, or None"""
    out = []; i = 0
    while i < len(bs):
        c = bs[i]
        if c < 0x20 or c == 0x22: return None
        if c != 0x5C: out.append(c); i += 1; continue
        if i + 1 >= len(bs): return None
        e = chr(bs[i + 1])
        if e == "u":
            def grp(j):
                h = bytes(bs[j + 2:j + 6])
                return int(h, 16) if bs[j:j + 2] == [0x5C, 0x75] and len(h) == 4 and all(ch in b"0123456789abcdefABCDEF" for ch in h) else None
            v = grp(i)
            if v is None: return None
            i += 6
            if 0xDC00 <= v <= 0xDFFF: return None
            if 0xD800 <= v <= 0xDBFF:
                lo = grp(i)
                if lo is None or not 0xDC00 <= lo <= 0xDFFF: return None
                i += 6; v = 0x10000 + ((v - 0xD800) << 10) + lo - 0xDC00
            out += utf8(v)
        else:
            if e not in 'bfnrt"\\/': return None
            out.append(ord({"b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t"}.get(e, e))); i += 2
    return out
MORE = [list(x) for x in (b"n", b"u0041", b"0041", b"041", b"41", b"1", b"\\udc00", b"udc00", b"dc00", b"c00", b"00", b"0")]
def valid(bs):
    try: bytes(b & 255 for b in bs).decode("utf-8"); return True
    except UnicodeDecodeError: return False
REP = sorted({x - 256 if x > 127 else x for x in (0, 0x41, 0x7f, 0x80, 0x83, 0x8f, 0x90, 0x9c, 0x9f, 0xa0, 0xa5, 0xbf, 0xc0, 0xc1, 0xc2, 0xc3, 0xdf, 0xe0, 0xe1, 0xe5, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xff)})
def names(ts): return [f'b{i}' for i in range(len(ts))]
class Esc(Read):
    kind = None
    def skey(s, st): return (q(st, UNITS), q(st, APP), st.facts if q(st, UNITS) or q(st, APP) else None)
    def force_inline(s, fn): return super().force_inline(fn) or "/reflection/json/" in fn.file
    def on_assign(s, st, fr, n, p, t):
        r = Views.on_assign(s, st, fr, n, p, t)
        if p != s.IT: return r
        out = []
        for x in ([st] if r is None else r):
            b, o = ptr(t); old = x.env.get(POS); x = x.cp(); d = ladd(o, old, -1) if b == B and old is not None else None
            if d is None or not is_c(d) or not 0 <= d[1] <= 8: s.fail(x, fr, n, "order", "the characters of the string are not taken one after the other")
            else: x.env[UNITS] = ("q",) + q(x, UNITS) + tuple(ladd(old, C(i)) for i in range(d[1]))
            if b == B: x.env[POS] = o
            out.append(x)
        return out
    def on_branch(s, st, fr, n, t, val):
        if mentions(t, ("E",)) and q(st, APP) and q(st, UNITS): st = s.flush(st, fr, n)
        return super().on_branch(st, fr, n, t, val)
    def merge(s, sts, fr, site, loop=False):
        if loop: sts = [s.flush(x, fr, None) if q(x, APP) and q(x, UNITS) else x for x in sts]
        return super().merge(sts, fr, site, loop)
    def cases(s, st, pre=None):
        offs = q(st, UNITS); ts = [("chr", o) for o in offs]
        sets = [[v for v in sorted(s.byteset(st, o)) if len(offs) == 1 or v in REP] for o in offs]
        fs = [f for f in st.facts if f[0] != "inset" and len(b := bytesof(f)) != 1 and b <= set(ts)]
        good = []
        for x in fs:
            try: conc.src(x, s.source(ts)); good.append(x)
            except conc.Unknown: continue
        cond = conc.compiled(good, names(ts), s.source(ts))
        for vs in itertools.product(*sets):
            if pre is not None and not pre(vs): continue
            try:
                if all(cond(*vs)): yield vs
            except (IndexError, ValueError): continue
    def source(s, ts):
        d = dict(zip(ts, names(ts)))
        def f(x):
            if x in d: return d[x]
            if x[0] == "in" and len(x[1]) >= 2 and isinstance(x[1][-1], tuple) and x[1][-1][0] == "[]":
                tab = s.table(x[1][:-1])
                if tab is not None:
                    k = next((i for i, y in enumerate(conc.TAB) if y == tab), None)
                    if k is None: k = len(conc.TAB); conc.TAB.append(tab)
                    return f"TAB[{k}][{conc.src(x[1][-1][1], f)}]"
            return None
        return f
    def flush(s, st, fr, n, last=False):
        app = q(st, APP); s.count("characters compared")
        ts = [("chr", o) for o in q(st, UNITS)]
        try: text = conc.compiled(app, names(ts), s.source(ts))
        except conc.Unknown: s.count("undecided paths"); text = None
        for vs in s.cases(st) if text else ():
            inp = [v & 255 for v in vs]; out = [x & 255 for x in text(*vs)]
            if not last and decode(out) is None and any(decode(out + x) is not None for x in MORE): return st
            if not valid(inp): s.fail(st, fr, n, "utf8", f"bytes {' '.join('%02x' % b for b in inp)} are no UTF-8 but are written"); break
            if decode(out) != inp: s.fail(st, fr, n, "escape", f"bytes {' '.join('%02x' % b for b in inp)} are written as {bytes(out).decode('latin1')!r}"); break
        st = st.cp(); st.env[UNITS] = st.env[APP] = ("q",)
        return st
    def viewcall(s, n, st, fr, name, short, obj, args, argn):
        if name == "std::advance" and isinstance(args[0], Loc):
            b, o = ptr(s.val(st, args[0])); return [(st.write(args[0].p, mkptr(b, ladd(o, s.val(st, args[1])))), ("void",))]
        return super().viewcall(n, st, fr, name, short, obj, args, argn)
    def on_call(s, st, fr, n, name, obj, args):
        if isinstance(obj, Loc) and obj.p == s.S:
            sh = name.split("::")[-1]
            if sh in ("push_back", "operator+=") and len(args) == 1:
                v = s.val(st, args[0]); st = st.cp()
                items = tuple(C(ord(c)) for c in v[1]) if v[0] == "s" else (v,)
                st.env[APP] = ("q",) + q(st, APP) + items; return [(st, obj)]
            if sh == "append" and args and (v := s.val(st, args[0]))[0] == "s":
                st = st.cp(); st.env[APP] = ("q",) + q(st, APP) + tuple(C(ord(c)) for c in v[1]); return [(st, obj)]
        return super().on_call(st, fr, n, name, obj, args)
    def run_frame(s, fr, sts):
        if fr.depth == 0:
            f = fr.fn; a, l, o = f.params; s.IT = (("v", fr.id, a[0], a[1]),); L = (("v", fr.id, l[0], l[1]),)
            sts = [x.write(s.IT, mkptr(B, ("P",))).write(L, ladd(("E",), ("P",), -1)) for x in sts]
        return super().run_frame(fr, sts)
def strings(ctx, m):
    for f in sorted((f for f in m.fns.values() if f.body is not None and role(f) == "escape"), key=lambda f: f.full):
        ctx.analysed(f); ctx.count("string writers"); e = Esc(m); e.cnt = ctx.count; e.budget = 4000000
        e.bad = lambda key, msg, fn, line, path: ctx.violation(f"string:{key}", msg, fn=fn, line=line, path=path or ())
        e.S = (("root", f.params[2][1], f.params[2][0]),); e.T = ("none",); e.END = ("none",)
        e.h_oblige = lambda st, fr, n, kind, need, ok, e=e: None if ok else e.fail(st, fr, n, "index", f"{kind}: {show(need)} is not known")
        st = St().assume(T_cmp("<=", ("P",), ("E",))).cp(); st.env[UNITS] = st.env[APP] = ("q",); st.env[POS] = ("P",)
        class FR: fn = f
        for kind, s, v in e.run(f, (), st):
            if kind == "ret":
                ctx.count("writer paths")
                if q(s, UNITS) and q(s, APP): s = e.flush(s, FR, None, True)
                if q(s, UNITS): e.fail(s, FR, None, "drop", "characters of the string are not written")
                if q(s, APP): e.fail(s, FR, None, "extra", "characters are written that the string does not have")
                if not e.prove(s, T_cmp("==", s.env[POS], ("E",))): e.fail(s, FR, None, "end", "writing may stop before the end of the string")
            else:
                ctx.count("rejecting paths")
                for vs in e.cases(s, valid):
                    if vs: e.fail(s, FR, None, "reject", f"the character {' '.join('%02x' % (b & 255) for b in vs)} is rejected although it is UTF-8"); break
def kind_of(m, f):
    t = plain(f.params[0][2]); b = t.split("<")[0]
    if t in ("std::nullopt_t", "std::nullptr_t", "std::monostate"): return "null", ONE
    if b == "std::variant": return "one", ONE
    k = kindof(m, t + " &")
    if k == "number" : return "num", ONE
    if k == "bool": return "bool", ONE
    if k == "enum": return "one", ONE
    if k == "null": return "opt", ONE
    if k == "string" or b == "std::basic_string_view": return "string", STR
    if k == "list": return ("tuple" if b in ("std::tuple", "std::pair") else "list"), LIST
    if b in ("std::map", "std::unordered_map", "std::multimap"): return "map", OBJ
    if t.endswith("]"): return "one", ONE
    return "refl", OBJ
class Root(Views):
    lib_throws = lambda s, n, x: False
    def on_call(s, st, fr, n, name, obj, args):
        if not name.endswith("ToJson::toJson"): return super().on_call(st, fr, n, name, obj, args)
        for i in (0, 1):
            if not (isinstance(args[i], Loc) and args[i].p == (("root", s.f.params[i][1], s.f.params[i][0]),)): s.bad("root", "the document written is not the object given", fr.fn, n.l, st.tr)
        s.throw(st, fr, "?", n)
        return [(st.with_mon((st.mon or ()) + ("write",)), ("void",))]
ONLY = None
def check(ctx):
    m = ctx.model("json")
    ctx.rule("every character of every string is written so that it reads back as the same character, or rejected if it is no UTF-8")
    if not ONLY or ONLY == "STR": strings(ctx, m)
    ctx.rule("every value is written as one well-formed JSON value: each element, member and name once and in order")
    for f in sorted((f for f in m.fns.values() if f.n.endswith("ToJson::toJson") and len(f.params) == 2 and f.body is not None and (not ONLY or ONLY in f.full)), key=lambda f: f.full):
        ctx.analysed(f); ctx.count("writers")
        e = Write(m); e.count = ctx.count; e.kind, e.gram = kind_of(m, f); e.budget = 2000000
        ctx.count("writers of " + e.kind)
        p = f.params[0]; byval = not p[2].endswith("&")
        e.T = (("root", p[1], p[0]),); e.Tv = (("v", 1, p[0], p[1]),) if byval else e.T
        e.S = (("root", f.params[1][1], f.params[1][0]),)
        e.bad = lambda key, msg, fn, line, path, f=f, p=p: ctx.violation(f"{key}:{plain(p[2])}", f"{msg} (writing {plain(p[2])})", fn=fn, line=line, path=path or ())
        st = St().cp(); st.env[STATE] = "0"; st.env[N] = st.env[(G, "cnt")] = C(0)
        class FR: fn = f
        for kind, s, v in e.run(f, (), st):
            if kind != "ret": continue
            ctx.count("paths")
            if s.env[STATE] == "?": continue
            if s.env[STATE] != "F": e.fail(s, FR, None, "grammar", f"writing ends {WHERE[s.env[STATE]]}")
            if e.kind in ("list", "map") and not e.prove(s, T_cmp("==", s.env[N], ("size", e.T))): e.fail(s, FR, None, "element", "writing may end before the last element")
            if e.kind in ("tuple", "refl"):
                want = members(m, f, e.kind)
                if want is not None and s.env[N] != C(want): e.fail(s, FR, None, "member", f"{show(s.env[N])} of {want} members are written")
    ctx.rule("a document is written from the object given")
    for f in sorted((f for f in m.fns.values() if f.n == "HX::reflection::toJson" and len(f.params) == 2 and f.body is not None), key=lambda f: f.full):
        ctx.analysed(f); ctx.count("document writers"); e = Root(m); e.f = f
        e.bad = lambda key, msg, fn, line, path, f=f: ctx.violation(f"{key}:{f.params[0][2]}", msg, fn=fn, line=line, path=path or ())
        for kind, s, v in e.run(f, (), St()):
            if kind == "ret" and s.mon != ("write",): e.bad("root", "a document is not written exactly once", f, f.line, s.tr)
    ctx.at_least("writers", 20); ctx.at_least("string writers", 1); ctx.at_least("characters compared", 10); ctx.at_least("tokens written", 60)
def members(m, f, kind):
    t = plain(f.params[0][2])
    if kind == "tuple":
        d = 0; k = 1; i = t.find("<")
        for ch in t[i + 1:-1]:
            d += ch == "<"; d -= ch == ">"; k += ch == "," and d == 0
        return k
    for c in m.classes.values():
        if c.full == t or c.n == t: return len(c.fields)
    return None
