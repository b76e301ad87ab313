"""J01: JSON reading stays inside the text, consumes exactly one well-formed value and stores what the text says."""
from views import *
import conc
TUS = ["json"]
META = dict(title="Reading JSON stays inside the text and stores exactly what it says",
    statement="Reading a JSON text never touches a byte outside it, whatever bytes it holds and wherever it ends. A value is accepted only if the text at the reader's position is one well-formed value of the kind being read, and exactly that value is consumed. Every string byte, escape and Unicode escape, number, boolean, enumerator and nested value is stored as the text says it, in the element, slot or key it belongs to; anything else is an exception.",
    over=["inputs"], q="every byte sequence, every position at which it ends, every type of value the harness reads",
    why="The tests read a dozen well-formed texts; truncated texts, odd escapes, surrogates and missing separators are an unbounded set.",
    files=["reflection/json/JsonRead.hpp", "reflection/deserialization/Numer.hpp"],
    mech=[("readers", "reflection/json/JsonRead.hpp FromJson::fromJson"), ("lexing", "reflection/json/JsonRead.hpp skipWhiteSpace, peekIs, verify, findKey, handleEscapeChar"), ("scalars", "reflection/deserialization/Numer.hpp Numer::fromNumer")],
    technique="abstract interpretation of text positions and byte sets with a grammar automaton over consumed bytes",
    note="Each reader is decided for itself, its nested readers taken by this same property. Text that follows the document, duplicate keys, unknown keys (skipped or rejected) and leniencies (letter case of true/false/null, further letters after a backslash, tuples shorter or longer than the array) are left open. Number syntax is std::from_chars's.",
    design="""Every reader instantiation is run on a text of symbolic length: each byte read must provably lie in it. The set of values each consumed byte can have on the path drives a grammar automaton of the kind of value read (list, object, string, number, ...);
an accepting path must end in a final state. Bytes appended to a string are evaluated for every value of the byte they came from and compared with an independent escape table; hex groups, surrogate pairs and the UTF-8 encoder are evaluated
exhaustively on the extracted path conditions and outputs. Nested values must be read into a slot of their own: the element of the next index, the value just added, or the one looked up under the key just read.""")
ASSUMES = ["std::from_chars, containers and string views behave as the standard says"]
G = ("ghost",)
POS, PEND, AUT, UNITS, APP, KEY, FC, VALN, SLOT, N0 = ((G, x) for x in ("pos", "pend", "aut", "units", "app", "key", "fc", "vals", "slot", "n0"))
WS = frozenset((9, 10, 13, 32)); ALL = frozenset(range(-128, 128)); HEX = frozenset(b"0123456789abcdefABCDEF")
B = ("text",)
ESC = {ord(k): v for k, v in {"b": 8, "f": 12, "n": 10, "r": 13, "t": 9, '"': 34, "\\": 92, "/": 47}.items()}
def bytesof(t): return {x for x in walk_term(t) if isinstance(x, tuple) and len(x) == 2 and x[0] == "chr"}
def q(st, g): return st.env.get(g, ('q',))[1:]
def cs(x): return frozenset(ord(c) for c in x)
# grammar of each kind: state -> [(set of bytes | event, next state)]; the first set that covers decides
def g_list(): return {"0": [(WS, "0"), (cs("["), "1")], "1": [(WS, "1"), (cs("]"), "F"), ("VALUE", "2")], "2": [(WS, "2"), (cs(","), "3"), (cs("]"), "F")], "3": [(WS, "3"), ("VALUE", "2")]}
GRAM = {"list": g_list(),
        "object": {"0": [(WS, "0"), (cs("{"), "1")], "1": [(WS, "1"), (cs("}"), "F"), (cs('"'), "k")], "k": [(cs('"'), "c"), (ALL - cs('"'), "k")], "c": [(WS, "c"), (cs(":"), "v")],
                   "v": [(WS, "v"), ("VALUE", "2")], "2": [(WS, "2"), (cs(","), "n"), (cs("}"), "F")], "n": [(WS, "n"), (cs('"'), "k")]},
        "string": {"0": [(WS, "0"), (cs('"'), "b")], "b": [(cs('"'), "F"), (cs("\\"), "e"), (ALL - cs('"\\'), "b")], "e": [(cs("u"), "u"), (ALL - cs("u"), "b")], "u": [("HEX", "b")]},
        "number": {"0": [(WS, "0"), (ALL - WS, "n")], "n": [(ALL, "n")]},
        "bool": {"0": [(WS, "0"), (cs("01"), "D"), (cs("tT"), "t1"), (cs("fF"), "f1")], "t1": [(cs("rR"), "t2")], "t2": [(cs("uU"), "t3")], "t3": [(cs("eE"), "T")],
                 "f1": [(cs("aA"), "f2")], "f2": [(cs("lL"), "f3")], "f3": [(cs("sS"), "f4")], "f4": [(cs("eE"), "F")]},
        "null": {"0": [(WS, "0"), (cs("nN"), "n1"), ("VALUE", "F")], "n1": [(cs("uU"), "n2")], "n2": [(cs("lL"), "n3")], "n3": [(cs("lL"), "N")]},
        "enum": {"0": [(WS, "0"), (cs('"'), "k")], "k": [(cs('"'), "F"), (ALL - cs('"'), "k")]}}
FINAL = {"list": "F", "object": "F", "string": "F", "number": "0n", "bool": "FTD", "null": "FN", "enum": "F"}

class Read(Views):
    lib_throws = lambda s, n, x: False
    unroll = 0
    _ks = (); kind = None; IT = None; END = None; T = None; bad = None; cnt = None
    ghosts = (VALN,)
    def count(s, k):
        if s.cnt: s.cnt(k)
    def fail(s, st, fr, n, key, msg):
        if s.bad: s.bad(key, msg, fr.fn, n.l if n is not None else fr.fn.line, st.tr)
    def force_inline(s, fn): return super().force_inline(fn) or "/reflection/json/" in fn.file or "/reflection/deserialization/" in fn.file
    def skey(s, st): return (q(st, PEND), st.env.get(AUT), q(st, UNITS), q(st, APP), KEY in st.env, st.env.get(SLOT), (FC in st.env), (VALN in st.env and is_c(st.env[VALN]) and s.tup and st.env[VALN]),
                            frozenset(f for f in st.facts if any(isinstance(x, tuple) and x[:1] == ("hex4",) for x in walk_term(f))) if any(u[0] == "hex" for u in q(st, UNITS)) else None)
    tup = False
    # ---- bytes of the text
    def off(s, p):
        if p and isinstance(p[0], tuple) and p[0][0] == "*" and len(p) <= 2:
            b, o = ptr(p[0][1])
            if b == B:
                if len(p) == 1: return o
                if isinstance(p[1], tuple) and p[1][0] == "[]": return ladd(o, p[1][1])
        return None
    def val(s, st, x):
        if isinstance(x, Loc):
            o = s.off(x.p)
            if o is not None: return ("chr", o)
        return super().val(st, x)
    def int_cast(s, v, n):
        ty = conc.ctype(n.t)
        if ty is None or not bytesof(v): return v
        src = conc.ctype(n.kid(0).t)
        if src and (conc.W[src][1] == conc.W[ty][1] and conc.W[src][0] <= conc.W[ty][0] or not conc.W[src][1] and conc.W[src][0] < conc.W[ty][0]): return v
        return ("cast", ty, v)
    def on(s, v, t):
        def f(x):
            if x == t: return v
            return s.leaf(x, f)
        return f
    def byteset(s, st, o):
        """the values the byte at o can have on this path"""
        t = ("chr", o); fs = [f for f in st.facts if bytesof(f) == {t}]
        if not fs: return ALL
        key = (t, frozenset(fs))
        if key in s.bs: return s.bs[key]
        out = set()
        for v in range(-128, 128):
            ok = True
            for f in fs:
                if f[0] == "inset":
                    if v not in f[2]: ok = False; break
                    continue
                try:
                    if not conc.ev(f, s.on(v, t)): ok = False; break
                except conc.Unknown: continue
            if ok: out.add(v)
        s.bs[key] = r = frozenset(out)
        return r
    def leaf(s, x, val):
        """entries of constant tables"""
        if x[0] == "in" and len(x[1]) >= 2 and isinstance(x[1][-1], tuple) and x[1][-1][0] == "[]":
            tab = s.table(x[1][:-1])
            if tab is not None:
                i = conc.ev(x[1][-1][1], val)
                return tab[i] if 0 <= i < len(tab) else None
        return None
    def table(s, p):
        if len(p) == 1 and p[0][0] == "g":
            v = s.m.vars.get(p[0][2])
            if v is None or v.val is None: return None
            v = v.val
            while isinstance(v, dict) and "s" in v: v = v["s"]
            while isinstance(v, list) and len(v) == 1 and isinstance(v[0], list): v = v[0]
            if isinstance(v, list) and all(isinstance(x, (int, bool)) for x in v): return [int(x) for x in v]
        return None
    def __init__(s, m, **kw):
        s.bs = {}; s.us = {}
        super().__init__(m, **kw)
    # ---- positions
    def relations(s, st):
        out = [y for k in s._ks for y in ((st.env[k], ("E",)), (("P",), st.env[k])) if k in st.env]
        for k, v in st.env.items():
            if isinstance(v, tuple):
                b, o = ptr(v)
                if b == B: out += [(o, ("E",)), (("P",), o)]
        return out
    def ev_UnaryOperator(s, n, st, fr):
        r = super().ev_UnaryOperator(n, st, fr)
        if n.op == "&": r = [(x, v[1][0][1] if isinstance(v, tuple) and v[0] == "addr" and len(v[1]) == 1 and v[1][0][0] == "*" and ptr(v[1][0][1])[0] == B else v) for x, v in r]
        return r
    def join(s, a, b, site):
        if a is b: return a
        a0, b0 = a, b
        ks = [k for k in set(a.env) & set(b.env) if isinstance(a.env[k], tuple) and a.env[k] != b.env[k] and ptr(a.env[k])[0] == B and ptr(b.env[k])[0] == B]
        if ks:
            a, b = a.cp(), b.cp()
            for k in ks: a.env[k] = ptr(a.env[k])[1]; b.env[k] = ptr(b.env[k])[1]
        s._ks = ks
        n = super().join(a, b, site)
        s._ks = ()
        for t in {t for f in a0.facts for t in bytesof(f)} & {t for f in b0.facts for t in bytesof(f)}:
            if mentions_site(t, site): continue
            u = s.byteset(a0, t[1]) | s.byteset(b0, t[1])
            if u < s.byteset(n, t[1]): n.facts = n.facts | {("inset", t, ("vals", *sorted(u)))}
        for k in ks:
            if k in n.env: n.env[k] = mkptr(B, n.env[k])
        live = {x for k, v in n.env.items() if k[0] not in ("ver",) for x in walk_term(v) if isinstance(x, tuple) and x[:1] in (("phi",), ("sym",), ("j",))}
        n.facts = frozenset(f for f in n.facts if all(x in live for x in walk_term(f) if isinstance(x, tuple) and x[:1] in (("phi",), ("sym",), ("j",))))
        return n
    def on_deref(s, st, fr, n, t):
        p = n.parent
        while p is not None and p.k == "ParenExpr": p = p.parent
        if p is not None and p.k == "UnaryOperator" and p.op == "&": return None
        b, o = ptr(t)
        if b == B: s.inside(st, fr, n, o)
        return None
    def on_index(s, st, fr, n, base, i):
        o = s.off(base)
        if o is not None: s.inside(st, fr, n, ladd(o, i))
        return None
    def inside(s, st, fr, n, o):
        s.count("bytes read")
        if not s.prove(st, T_cmp("<", o, ("E",))): s.fail(st, fr, n, "bounds", f"reads {show(('byte', o))} without knowing that it lies before the end of the text")
        elif not s.prove(st, T_cmp(">=", o, ("P",))): s.fail(st, fr, n, "bounds", f"reads {show(('byte', o))} without knowing that it lies after the start of the text")
    def refine(s, st):
        st = super().refine(st); add = set()
        for f in st.facts:
            if f[0] == "ne0" and any(x == ("E",) for x, _ in f[1][2]):
                for g in (f[1], lmul(f[1], -1)):
                    if nn(g) in st.facts: add.add(nn(ladd(g, C(-1))))
        add = {f for f in add if f[0] != "c"} - st.facts
        if add: st = st.cp(); st.facts = st.facts | add
        return st
    # ---- consumption
    def on_assign(s, st, fr, n, p, t):
        r = super().on_assign(st, fr, n, p, t)
        if p != s.IT or s.kind is None: return r
        out = []
        for x in ([st] if r is None else r):
            b, o = ptr(t); old = x.env.get(POS); x = x.cp()
            d = ladd(o, old, -1) if b == B and old is not None else None
            if d is None or not is_c(d) or not 0 <= d[1] <= 64:
                x.env[AUT] = ("?",); x.env[PEND] = ('q',) + (())
                if b == B: x.env[POS] = o
            else:
                if d[1]: x = s.settle(x, fr, n, force=True)
                x.env[PEND] = ('q',) + (q(x, PEND) + tuple(ladd(old, C(i)) for i in range(d[1]))); x.env[POS] = o
                x = s.settle(x, fr, n)
            out.append(x)
        return out
    def settle(s, st, fr, n, force=False):
        if st.env.get(AUT) == ("?",) and q(st, PEND): st = st.cp(); st.env[PEND] = ("q",)
        while q(st, PEND) and st.env.get(AUT) != ("?",):
            o = q(st, PEND)[0]; bs = s.byteset(st, o)
            if not force and not s.clear(st, bs): break
            st = st.cp(); st.env[PEND] = ('q',) + (q(st, PEND)[1:])
            st = s.feed(st, fr, n, o, bs)
        return st
    def clear(s, st, bs):
        """the byte is known well enough to say what the grammar makes of it"""
        a = st.env[AUT]
        if a[0] in ("?", "err"): return True
        for k, to in GRAM[s.kind].get(a[0], []):
            if not isinstance(k, str) and bs & k: return bs <= k
        return False
    def feed(s, st, fr, n, o, bs):
        a = st.env[AUT]
        if a[0] in ("?", "err"): return st
        qs = a[0]; st = st.cp(); g = GRAM[s.kind].get(qs, [])
        nxt = set(); left = bs
        for k, to in g:
            if k == "HEX" and bs <= HEX: st.env[AUT] = ("?",); return st
            if isinstance(k, str): continue
            if left & k: nxt.add(to); left = left - k
        if left: nxt.add("err")
        s.count("bytes consumed")
        if len(nxt) != 1 or "err" in nxt:
            st.env[AUT] = ("err", f"the byte {describe(left or bs)} is consumed {WHERE.get((s.kind, qs), 'there')}"); return st
        to = nxt.pop(); st.env[AUT] = (to,)
        if s.kind == "string":
            if qs == "b" and to == "b": st.env[UNITS] = ('q',) + (q(st, UNITS) + (("raw", o, bs),))
            if qs == "e" and to == "b": st.env[UNITS] = ('q',) + (q(st, UNITS) + (("esc", o, bs),))
            st = s.pair(st, fr, n)
        if to == "k" and qs != "k": st.env[KEY] = ladd(o, C(1))
        if qs == "k" and to != "k": st.env[KEY + ("end",)] = o
        if s.kind == "number" and qs == "0" and to == "n": st.env[N0] = o
        return st
    def event(s, st, fr, n, ev):
        st = s.settle(st, fr, n, force=True).cp()
        a = st.env[AUT]
        if a[0] in ("?",): return st
        if a[0] == "err": s.fail(st, fr, n, "grammar", a[1]); st.env[AUT] = ("?",); return st
        for k, to in GRAM[s.kind].get(a[0], []):
            if k == ev: st.env[AUT] = (to,); return st
        st.env[AUT] = ("err", f"a nested {ev.lower()} is read {WHERE.get((s.kind, a[0]), 'there')}")
        return st
    # ---- strings: every unit of the text against what is appended
    def pair(s, st, fr, n):
        while q(st, UNITS) and q(st, APP):
            u, a = q(st, UNITS), q(st, APP)
            st = st.cp()
            if a[0][0] == "utf8":
                msg = s.unicode(st, u, a[0][1])
                if msg is None: return st
                if msg: s.fail(st, fr, n, "string", msg)
                st.env[UNITS] = ('q',) + (()); st.env[APP] = ('q',) + (a[1:]); continue
            if u[0][0] == "hex": s.fail(st, fr, n, "string", "a \\u escape is stored as a plain byte"); st.env[UNITS] = ('q',) + (u[1:]); st.env[APP] = ('q',) + (a[1:]); continue
            if a[0][0] != "b" or len(u[0]) != 3: return st
            kind, o, bs = u[0]; s.count("string bytes stored")
            for v in sorted(bs):
                want = v if kind == "raw" else ESC.get(v)
                if want is None: continue
                try: got = conc.wrap(conc.ev(a[0][1], s.on(v, ("chr", o))), "char")
                except conc.Unknown: break
                if got != want:
                    s.fail(st, fr, n, "string", f"{'escape ' if kind == 'esc' else ''}{describe({v})} is stored as byte {got & 255}"); break
            st.env[UNITS] = ('q',) + (u[1:]); st.env[APP] = ('q',) + (a[1:])
        return st
    def unicode(s, st, units, cp):
        h = {("hex4", u[1]) for u in units if u[0] == "hex"}
        key = (units, cp, frozenset(f for f in st.facts if any(mentions(f, x) for x in h)))
        if key not in s.us: s.us[key] = s.unicode1(st, units, cp)
        return s.us[key]
    def unicode1(s, st, units, cp):
        """the code point appended for the \\u escapes read; None: not decidable yet"""
        h = [("hex4", u[1]) for u in units if u[0] == "hex"]
        if len(h) != len(units) or not 1 <= len(h) <= 2: return "a \\u escape is stored out of order"
        fs = []; leaf = lambda x: "h0" if x == h[0] else "h1" if x == h[-1] else None
        for f in st.facts:
            if any(mentions(f, x) for x in h) and f[0] != "inset":
                try: conc.src(f, leaf); fs.append(f)
                except conc.Unknown: pass
        cond = conc.compiled(fs, ["h0", "h1"], leaf)
        try: text = conc.compiled([cp], ["h0", "h1"], leaf)
        except conc.Unknown: text = None
        s.count("unicode escapes stored")
        if len(h) == 1:
            for v in range(65536):
                if not all(cond(v, 0)): continue
                if 0xD800 <= v <= 0xDFFF: return f"a lone surrogate (\\u{v:04x}) is stored"
                if text is None: return ""
                if text(v, 0)[0] != v: return f"\\u{v:04x} is stored as code point {text(v, 0)[0]:#x}"
            return ""
        his = [v for v in range(65536) if edge(v)]
        for a in his:
            for b in his:
                if not all(cond(a, b)): continue
                if not (0xD800 <= a <= 0xDBFF and 0xDC00 <= b <= 0xDFFF): return f"\\u{a:04x}\\u{b:04x} is combined although it is no surrogate pair"
                if text is None: return ""
                if text(a, b)[0] != 0x10000 + ((a - 0xD800) << 10) + (b - 0xDC00): return f"\\u{a:04x}\\u{b:04x} is stored as code point {text(a, b)[0]:#x}"
        return ""
    def append(s, st, fr, n, item):
        if s.kind != "string" or st.env.get(AUT) == ("?",): return st
        st = s.settle(st, fr, n).cp(); st.env[APP] = ('q',) + (q(st, APP) + (item,))
        return s.pair(st, fr, n)
    # ---- calls
    def viewcall(s, n, st, fr, name, short, obj, args, argn):
        if name == "std::distance" and len(args) == 2: return [(st, ladd(s.val(st, args[1]), s.val(st, args[0]), -1))]
        if short in ("operator[]", "at") and obj is not None and name.startswith("std::array::"):
            d = re.search(r", (\d+)(?:UL|ul|u|U|L)*>", s.typ(n)); i = s.val(st, args[0])
            if isinstance(obj, Loc) and (tab := s.table(obj.p)) is not None:
                s.count("table lookups")
                bts = bytesof(i)
                if len(bts) == 1:
                    (b,) = bts
                    for v in s.byteset(st, b[1]):
                        try: k = conc.ev(i, s.on(v, b))
                        except conc.Unknown: break
                        if not 0 <= k < len(tab): s.fail(st, fr, n, "table", f"the byte {describe({v})} indexes a table of {len(tab)} entries at {k}"); break
                return [(st, Loc(obj.p + (("[]", i),)))]
            if d and isinstance(obj, Loc):
                s.oblige(st, fr, n, short, T_cmp("<", i, C(int(d.group(1)))))
                return [(st, Loc(obj.p + (("[]", i),)))]
        return super().viewcall(n, st, fr, name, short, obj, args, argn)
    def on_call(s, st, fr, n, name, obj, args):
        f = s.m.fns.get(n.get("fn")); sh = name.split("::")[-1]
        if name.endswith("FromJson::fromJson") and len(args) == 3: return s.nested(st, fr, n, args)
        if f is not None and ("/reflection/" in f.file) and s.kind is not None:
            r = role(f)
            if r == "hex":
                o = ptr(s.val(st, args[0]))[1]
                if o is not None and isinstance(args[0], Loc):
                    s.count("hex groups read")
                    if not s.prove(st, T_cmp("<=", ladd(o, C(4)), ("E",))): s.fail(st, fr, n, "bounds", "four hex digits are read without knowing that the text has them")
                    st = s.event(st, fr, n, "HEX"); t = ("hex4", o)
                    st.env[UNITS] = ('q',) + (q(st, UNITS) + (("hex", o),))
                    st.env[POS] = ladd(o, C(4)); st = st.write(args[0].p, mkptr(B, ladd(o, C(4))))
                    for g in (T_cmp(">=", t, C(0)), T_cmp("<=", t, C(0xFFFF))): st = st.assume(g) or st
                    s.throw(st, fr, "std::runtime_error", n)
                    return [(st, t)]
            if r == "utf8" and s.is_t(args[0]): return [(s.append(st, fr, n, ("utf8", s.val(st, args[1]))), ("void",))]
        if name == "std::visit" and args and isinstance(args[0], tuple) and args[0][0] == "lam":
            lam = args[0]; out = []
            for g in [g for g in s.m.fns.values() if g.cls == lam[2] and g.short == "operator()" and g.body is not None]:
                y = ("idx", s.val(st, args[1])); s2 = st
                out += s.inline(g, s2, fr, n, ("lam", lam), [y])
            if out: return [(x, ("void",)) for x in s.merge([y.cp() for y, v in out], fr, (fr.fn.id, n.id, 2))]
        if name.endswith("::toEnum") and args and s.kind == "enum":
            b, S, E2 = view(s.val(st, args[0])); s.count("enum names looked up"); st = s.settle(st, fr, n)
            k = st.env.get(KEY)
            if b == B and k is not None and not (S == k and E2 == st.env.get(POS) and st.env.get(AUT) == ("k",)): s.fail(st, fr, n, "key", "the enum name looked up is not the text between the quotes")
            s.throw(st, fr, "?", n); st, y = s.fresh(st, fr, n); st = st.cp(); st.env[SLOT] = y
            return [(st, y)]
        if name == "std::from_chars" and len(args) >= 3:
            b, S = ptr(s.val(st, args[0])); b2, E2 = ptr(s.val(st, args[1])); s.count("numbers converted")
            st, y = s.fresh(st, fr, n); st = s.settle(st, fr, n).cp()
            if b == B and b2 == B:
                first = st.env.get(N0, st.env.get(POS)) if st.env.get(AUT) != ("?",) else S
                if S != first or E2 != st.env.get(POS): s.fail(st, fr, n, "number", "the number converted is not the text that was consumed")
                if not isinstance(args[2], Loc) or args[2].p != s.T: s.fail(st, fr, n, "number", "the number is not stored in the value being read")
                st.env[FC] = ("fc", y, E2)
            return [(st, y)]
        if obj is not None and s.kind == "string" and s.is_t(obj) and sh in ("push_back", "operator+=", "append"):
            v = s.val(st, args[0])
            if sh == "append" or v[0] in ("s", "sv", "in"): st = st.cp(); st.env[AUT] = ("?",); return [(st, obj)]
            return [(s.append(st, fr, n, ("b", v)), obj)]
        if obj is not None and sh in ("emplace_back", "emplace") and isinstance(obj, Loc) and s.kind == "list":
            st, y = s.fresh(st, fr, n); st = st.cp(); st.env[SLOT] = y; s.count("elements added")
            return [(st, Loc((("*", y),)))]
        if obj is not None and args and sh in ("operator[]", "at", "emplace", "try_emplace", "insert_or_assign") and s.kind == "object":
            v = args[0] if isinstance(args[0], tuple) else s.val(st, args[0]); st = s.settle(st, fr, n)
            w = v[2] if v[0] == "ctor" and len(v) == 3 else v
            if w[0] == "ctor" and len(w) >= 3: w = w[2]
            b, S, E2 = view(w)
            if b == B:
                s.count("keys looked up")
                if S != st.env.get(KEY) or E2 != st.env.get(KEY + ("end",)): s.fail(st, fr, n, "key", "the key looked up is not the text between the quotes")
                st, y = s.fresh(st, fr, n); st = st.cp(); st.env[SLOT] = y
                s.throw(st, fr, "?", n)
                return [(st, Loc((("*", y),)) if sh == "operator[]" else y)]
        return super().on_call(st, fr, n, name, obj, args)
    def is_t(s, x): return isinstance(x, Loc) and x.p == s.T
    def nested(s, st, fr, n, args):
        s.count("nested values")
        b, o = ptr(s.val(st, args[1])); b2, e = ptr(s.val(st, args[2]))
        if b != B or b2 != B or not isinstance(args[1], Loc):
            s.fail(st, fr, n, "nested", "a nested value is not read from the text being parsed"); return [(st, ("void",))]
        if e != ("E",) and not s.prove(st, T_cmp("<=", e, ("E",))): s.fail(st, fr, n, "bounds", "a nested value is given an end beyond the text")
        if not s.prove(st, T_cmp("<=", o, e)): s.fail(st, fr, n, "bounds", "a nested value starts beyond the end of the text")
        if s.kind: st = s.event(st, fr, n, "VALUE"); s.target(st, fr, n, args[0])
        s.throw(st, fr, "?", n); low = s.prove(st, T_cmp(">=", o, ("P",)))
        st, y = s.fresh(st, fr, n, "rest"); st = st.cp()
        st = st.write(args[1].p, mkptr(B, y)); st.env[POS] = y; st.env[PEND] = ('q',) + (())
        for f in (T_cmp("<", o, y) if not mentions(o, y) else C(1), T_cmp("<=", y, e), T_cmp("<", ("P",), y) if low else C(1)):
            if f[0] == "c": continue
            st = st.assume(f)
            if st is None: return []
            st = st.cp(); st.facts = st.facts | {f}
        if s.kind:
            if SLOT in st.env: st.env[SLOT] = C(0)
            if VALN in st.env: st.env[VALN] = ladd(st.env[VALN], C(1))
        if isinstance(args[0], Loc) and args[0].p[0][0] != "*": st = st.havoc(args[0].p, ("val", n.id))
        return [(st, ("void",))]
    def target(s, st, fr, n, a):
        """where a nested value is stored"""
        if st.env.get(AUT) == ("?",): return
        p = a.p if isinstance(a, Loc) else None
        if p is None: return s.fail(st, fr, n, "target", "a nested value is read into a temporary")
        if s.kind == "null":
            if not (p[:len(s.T)] == s.T and len(p) > len(s.T) or any(mentions(x, ("root",) + s.T[0][1:]) for x in p) or p[0][0] == "*"): s.fail(st, fr, n, "target", "the value is not read into the object it belongs to")
            return
        slot = st.env.get(SLOT)
        if s.idx:
            i = p[-1][1] if isinstance(p[-1], tuple) and p[-1][0] in ("[]", "get") else None
            i = C(int(i)) if isinstance(i, (str, int)) and str(i).isdigit() else i
            if p[:len(s.T)] != s.T or i is None: 
                if p[0][0] != "*": s.fail(st, fr, n, "target", "an element is not read into the array")
                elif (i2 := ladd_of(p[0][1])) is not None: pass
            elif i != st.env.get(VALN): s.fail(st, fr, n, "target", f"element {show(st.env.get(VALN))} of the text is stored at {show(i)}")
            return
        x = p[0][1] if len(p) == 1 and p[0][0] == "*" else None
        off = {y for y in walk_term(slot or C(0))} and [y for y in walk_term(x or C(0)) if isinstance(y, tuple) and y[:1] == ("fld",) and len(y) == 3 and mentions(y, slot)]
        if slot is None or slot == C(0) or x is None or x != slot and not any(x == ladd(("addr", s.T), o) for o in off): s.fail(st, fr, n, "target", "a nested value is not stored in a slot of its own" if s.kind == "list" else "a value is not stored under the key read before it")
    idx = False
    # ---- driver
    def on_branch(s, st, fr, n, t, val):
        out = super().on_branch(st, fr, n, t, val)
        return [s.settle(x, fr, n) if s.kind else x for x in out if s.feasible(x)]
    def feasible(s, st):
        return all(s.byteset(st, b[1]) for b in {b for f in st.facts for b in bytesof(f)})
    def start(s, f, kind):
        st = St(); s.kind = kind
        s.T = (("root", f.params[0][1], f.params[0][0]),); s.IT = (("root", f.params[1][1], f.params[1][0]),); s.END = (("root", f.params[2][1], f.params[2][0]),)
        st = st.write(s.IT, mkptr(B, ("P",))).write(s.END, mkptr(B, ("E",))).assume(T_cmp("<=", ("P",), ("E",))).cp()
        st.env[UNITS] = st.env[APP] = ('q',); st.env[POS] = ("P",); st.env[PEND] = ('q',) + (()); st.env[AUT] = ("0",); st.env[VALN] = C(0)
        return st
class Root(Views):
    lib_throws = lambda s, n, x: False
    def on_call(s, st, fr, n, name, obj, args):
        if not name.endswith("FromJson::fromJson") or len(args) != 3: return super().on_call(st, fr, n, name, obj, args)
        pid, nm, ty = s.f.params[1]; b, S, E = view(st.read((("v", 1, pid, nm),)))
        if s.val(st, args[1]) != mkptr(b, S) or s.val(st, args[2]) != mkptr(b, E): s.bad("root", "the text is not read from its first to its last byte", fr.fn, n.l, st.tr)
        if not (isinstance(args[0], Loc) and args[0].p == (("root", s.f.params[0][1], s.f.params[0][0]),)): s.bad("root", "the document is not read into the object it is meant for", fr.fn, n.l, st.tr)
        s.throw(st, fr, "?", n)
        return [(st.with_mon((st.mon or ()) + ("read",)), ("void",))]
class Plain(Read):
    """one helper on its own: every path kept apart"""
    unroll = 8
    def skey(s, st): return (st.facts, frozenset((k, v) for k, v in st.env.items() if k[0] == G))
    def on_call(s, st, fr, n, name, obj, args):
        if obj is not None and name.split("::")[-1] in ("push_back", "operator+=") and s.is_t(obj):
            st = st.cp(); st.env[APP] = ("q",) + q(st, APP) + (s.val(st, args[0]),); return [(st, obj)]
        return Views.on_call(s, st, fr, n, name, obj, args)
def utf8(v):
    if v < 0x80: return [v]
    if v < 0x800: return [0xC0 | v >> 6, 0x80 | v & 63]
    if v < 0x10000: return [0xE0 | v >> 12, 0x80 | v >> 6 & 63, 0x80 | v & 63]
    return [0xF0 | v >> 18, 0x80 | v >> 12 & 63, 0x80 | v >> 6 & 63, 0x80 | v & 63]
def helpers(ctx, m):
    for f in sorted((f for f in m.fns.values() if "/reflection/json/" in f.file and f.body is not None and not f.lam), key=lambda f: f.full):
        r = role(f)
        if r is None: continue
        ctx.analysed(f); e = Plain(m); e.entry = f
        if r == "hex":
            ctx.count("hex decoders"); it = (("root", f.params[0][1], f.params[0][0]),)
            st = St().write(it, mkptr(B, ("P",))).assume(T_cmp("<=", ladd(("P",), C(4)), ("E",)))
            e.bad = lambda key, msg, fn, line, path: ctx.violation(f"hex:{key}", msg, fn=fn, line=line, path=path or ())
            for kind, s, v in e.run(f, (), st):
                if kind != "ret": continue
                ctx.count("hex paths"); b, o = ptr(s.read(it))
                if b != B or ladd(o, ("P",), -1) != C(4): ctx.violation("hex:length", "a \\u escape does not take exactly four characters", fn=f, line=f.line, path=s.tr); continue
                bs = [sorted(e.byteset(s, ladd(("P",), C(i)))) for i in range(4)]
                if not all(set(x) <= HEX for x in bs): ctx.violation("hex:digit", f"{describe(set(next(x for x in bs if not set(x) <= HEX)) - HEX)} is accepted as a hex digit", fn=f, line=f.line, path=s.tr); continue
                tests = [tuple(x[j] if k == i else x[base] for k, x in enumerate(bs)) for i in range(4) for base in (0, -1) for j in range(len(bs[i]))]
                for t in tests:
                    val = lambda x: t[d[1]] if x[0] == "chr" and is_c(d := ladd(x[1], ("P",), -1)) and 0 <= d[1] < 4 else None
                    try: got = conc.ev(v, val) & 0xFFFFFFFF
                    except conc.Unknown: ctx.count("undecided paths"); break
                    if got != int(bytes(t).decode(), 16): ctx.violation("hex:value", f"\\u{bytes(t).decode()} is read as {got:#x}", fn=f, line=f.line, path=s.tr); break
        else:
            ctx.count("code point encoders"); e.T = (("root", f.params[0][1], f.params[0][0]),); cp = (("v", 1, f.params[1][0], f.params[1][1]),)
            st = St().cp(); st.env[APP] = ("q",); st.env[cp] = ("cp",); seen = set()
            vals = [v for v in range(0, 0x110000) if not 0xD800 <= v <= 0xDFFF and (v < 0x1000 or v % 251 == 0 or v & 0x3F in (0, 0x3F) and v >> 6 & 0x3F in (0, 0x3F) or v in (0xFFFF, 0x10000, 0x10FFFF))]
            class Bind(Plain):
                def run_frame(s, fr, sts): return super().run_frame(fr, [x.write((("v", fr.id, f.params[1][0], f.params[1][1]),), ("cp",)) for x in sts] if fr.depth == 0 else sts)
            e = Bind(m); e.entry = f; e.T = (("root", f.params[0][1], f.params[0][0]),)
            for kind, s, v in e.run(f, (), st):
                if kind != "ret": continue
                ctx.count("encoder paths"); out = q(s, APP); fs = [x for x in s.facts if mentions(x, ("cp",))]
                for c in vals:
                    val = lambda x: c if x == ("cp",) else None
                    try:
                        if not all(conc.ev(x, val) for x in fs): continue
                        got = [conc.ev(x, val) & 0xFF for x in out]
                    except conc.Unknown: ctx.count("undecided paths"); break
                    seen.add(c)
                    if got != utf8(c): ctx.violation("utf8:value", f"code point {c:#x} is stored as bytes {' '.join('%02x' % g for g in got)}", fn=f, line=f.line, path=s.tr); break
                else: continue
def ladd_of(t): return None
def edge(v): return v & 0xFF in (0, 0x7F, 0x80, 0xFF, 1) or v in (0x7FE, 0x801, 0xD7FE, 0xE001) or v & 0x3FF in (0x155, 0x2AA)
def describe(bs):
    b = sorted(bs)
    return "'" + chr(b[0]) + "'" if len(b) == 1 and 32 < b[0] < 127 else f"{b[0] & 255:#04x}" if len(b) == 1 else f"{b[0] & 255:#04x} (one of {len(b)})"
WHERE = {("list", "0"): "before the opening bracket", ("list", "1"): "after the opening bracket", ("list", "2"): "between elements", ("list", "3"): "after a comma", ("list", "F"): "after the closing bracket",
         ("object", "0"): "before the opening brace", ("object", "1"): "after the opening brace", ("object", "c"): "between a key and its value", ("object", "v"): "before a value", ("object", "2"): "between members",
         ("object", "n"): "after a comma", ("object", "F"): "after the closing brace", ("string", "0"): "before the opening quote", ("string", "F"): "after the closing quote", ("enum", "0"): "before the opening quote", ("enum", "F"): "after the closing quote"}
def role(f):
    ps = [p[2] for p in f.params]; r = (f.ret or "").replace("const ", "").strip()
    if len(ps) == 1 and ps[0].replace("const ", "").replace(" ", "") in ("char*&", "char*&&") and r in ("unsigned int", "unsigned", "uint32_t"): return "hex"
    if len(ps) == 2 and "basic_string<char>" in ps[0] and ps[0].endswith("&") and ps[1].replace("const ", "") in ("unsigned int", "uint32_t", "unsigned") and r == "void": return "utf8"
    return None
def kindof(m, t):
    t = t.replace("const ", "").removesuffix("&").removesuffix("&").strip(); b = t.split("<")[0]
    if t == "bool": return "bool"
    if conc.ctype(t) or t in ("double", "float", "long double"): return "number"
    if b in ("std::basic_string", "std::string"): return "string"
    if b in ("std::optional", "std::shared_ptr", "std::unique_ptr"): return "null"
    if b in ("std::map", "std::unordered_map", "std::multimap"): return "object"
    if b in ("std::vector", "std::list", "std::deque", "std::array", "std::span", "std::tuple", "std::pair"): return "list"
    if any(f.n.endswith("Numer::fromNumer") and f.params[0][2] == t + " &" for f in m.fns.values()): return "enum"
    return "object"
ONLY = None
def readers(m): return sorted((f for f in m.fns.values() if (not ONLY or ONLY in f.full) and f.n.endswith("FromJson::fromJson") and len(f.params) == 3 and f.body is not None and "char *" in f.params[1][2]), key=lambda f: f.full)

def check(ctx):
    m = ctx.model("json")
    r0 = ctx.rule("\\u groups and code points are decoded exactly, for every digit and every code point")
    helpers(ctx, m)
    r2 = ctx.rule("a document is read from the first to the last byte of its text")
    for f in sorted((f for f in m.fns.values() if f.n == "HX::reflection::fromJson" and len(f.params) == 2 and f.body is not None), key=lambda f: f.full):
        ctx.analysed(f); ctx.count("document readers"); e = Root(m); e.hits = 0; e.bad = lambda key, msg, fn, line, path, f=f: ctx.violation(f"{key}:{f.params[0][2]}", msg, fn=fn, line=line, path=path or ())
        e.f = f
        for kind, s, v in e.run(f, (), St()):
            if kind == "ret" and s.mon != ("read",): e.bad("root", "a document is accepted without being read exactly once", f, f.line, s.tr)
    r = ctx.rule("no byte outside the text is read, on every path through every reader")
    fs = readers(m)
    for f in fs:
        ctx.analysed(f); ctx.count("readers")
        e = Read(m); e.budget = 200000; e.cnt = ctx.count
        k = kindof(m, f.params[0][2]); t = f.params[0][2]
        e.idx = t.split("<")[0].strip() in ("std::array", "std::span", "std::tuple", "std::pair"); e.tup = "tuple" in t.split("<")[0]
        def bad(key, msg, fn, line, path, f=f): ctx.violation(f"{key}:{fn.short}:{f.params[0][2]}", f"{msg} (reading {f.params[0][2].removesuffix(' &')})", fn=fn, line=line, path=path or ()); raise Stop
        e.bad = bad
        e.h_oblige = lambda st, fr, n, kind, need, ok, e=e: None if ok else e.fail(st, fr, n, "index", f"{kind}: {show(need)} is not known")
        try: reader(ctx, e, f, k)
        except Stop: pass
    ctx.at_least("readers", 20); ctx.at_least("bytes consumed", 200); ctx.at_least("accepting paths", 30); ctx.at_least("hex paths", 3); ctx.at_least("encoder paths", 2)
class Stop(Exception): pass
def reader(ctx, e, f, k):
    st = e.start(f, k)
    for kind, s, v in e.run(f, (), st):
        if kind != "ret": continue
        ctx.count("accepting paths")
        class FR: fn = f
        s = e.settle(s, FR, None, force=True)
        b, o = ptr(s.read(e.IT))
        if b != B: e.fail(s, FR, None, "end", "the position after the value is not known"); continue
        if k != "number" and s.env[AUT][0] == "?" and not e.prove(s, T_cmp("<", ("P",), o)): e.fail(s, FR, None, "end", "a value may be accepted without consuming anything")
        if not e.prove(s, T_cmp("<=", o, ("E",))): e.fail(s, FR, None, "end", "the position after the value may lie beyond the end of the text")
        a = s.env[AUT]
        if a[0] == "?": ctx.count("undecided paths"); continue
        if a[0] == "err": e.fail(s, FR, None, "grammar", a[1]); continue
        if a[0] not in FINAL[k]: e.fail(s, FR, None, "grammar", f"text that ends {WHERE.get((k, a[0]), 'inside the value')} is accepted"); continue
        if q(s, UNITS): e.fail(s, FR, None, "string", "part of the text is not stored")
        if q(s, APP): e.fail(s, FR, None, "string", "something is stored that the text does not contain")
        if k == "number":
            fc = s.env.get(FC)
            if fc is None: e.fail(s, FR, None, "number", "a number is accepted without being converted"); continue
            y, E2 = fc[1], fc[2]
            if e.prove(s, T_cmp("==", ("fld", y, "ec"), C(0))) is not True: e.fail(s, FR, None, "number", "a failed conversion is accepted")
            if e.prove(s, T_cmp("==", ("fld", y, "ptr"), mkptr(B, E2))) is not True: e.fail(s, FR, None, "number", "a number followed by other text is accepted")
        if k == "bool":
            t = s.read(e.T)
            for bt in (bytesof(t) or {None}):
                for v in (e.byteset(s, bt[1]) if bt else (0,)):
                    try: got = conc.ev(t, e.on(v, bt))
                    except conc.Unknown: got = None
                    if got is None or bool(got) != (a[0] == "T" if a[0] != "D" else v == 49): e.fail(s, FR, None, "bool", "the value stored is not the one in the text"); break
        if k == "enum" and s.read(e.T) != s.env.get(SLOT): e.fail(s, FR, None, "enum", "the enumerator stored is not the one named in the text")
