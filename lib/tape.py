"""What is put on the wire: buffers as token sequences, sends as a tape checked by a grammar."""
from views import *
G = ("ghost",); THIS = (("root", "this"),)
CRLF = ("crlf",); COL = ("col",); SP = ("sp",)
def tokens(text):
    out = []; i = 0; cur = ""
    def flush():
        nonlocal cur
        if cur: out.append(("lit", cur)); cur = ""
    while i < len(text):
        if text.startswith("\r\n", i): flush(); out.append(CRLF); i += 2
        elif text.startswith(": ", i): flush(); out.append(COL); i += 2
        elif text[i] == " " and not cur: out.append(SP); i += 1
        elif text[i] == " " and i + 1 == len(text): flush(); out.append(SP); i += 1
        else: cur += text[i]; i += 1
    flush()
    return out
def isval(t): return t[0] in ("data", "lit", "hex", "num", "sp")
def pairpart(b): return b[1][-1] if b[0] in ("in", "addr", "bufv") and isinstance(b[1], tuple) and b[1] else None
def collapse(seq):
    """finished header lines become one token; several of them one"""
    out = []
    for t in seq:
        out.append(t)
        while True:
            if t == CRLF:
                i = len(out) - 2
                while i >= 0 and isval(out[i]): i -= 1
                if i >= 1 and out[i] == COL and out[i - 1][0] in ("lit", "data"):
                    j = i - 1; key = out[j]; val = out[i + 1:-1]
                    nm = key[1].lower() if key[0] == "lit" else ""
                    h = ("H",)
                    if key[0] == "data" and pairpart(key[1]) == "second" or val and val[0][0] == "data" and pairpart(val[0][1]) == "first": h = ("swapped",)
                    elif nm == "content-range": h = ("CR", tuple(val))
                    elif nm == "content-length": h = ("CL", val[0] if len(val) == 1 else ("bad",))
                    elif nm == "transfer-encoding": h = ("TE", val[0][1] if len(val) == 1 and val[0][0] == "lit" else "?")
                    elif key[0] == "data" and nm == "": h = ("H",)
                    out[j:] = [h] if not (h == ("H",) and j and out[j - 1] == h) else []
            break
    return out

class Tape(Views):
    lib_throws = lambda s, n, x: False
    sends = ("fullySend", "sendLinkTimeout", "send")
    unroll = 0
    def exec(s, n, sts, fr):
        r = super().exec(n, sts, fr)
        if n is not None and n.k == "CompoundStmt":
            ids = {v["id"] for d in n.kids if d.k == "DeclStmt" for v in d.get("vars", [])}
            if ids:
                for k in "nbc": r[k] = [s.drop(x, ids) for x in r[k]]
        return r
    def drop(s, st, ids):
        dead = [k for k in st.env if k[:2] == (G, "buf") and isinstance(k[2][0], tuple) and k[2][0][0] == "v" and k[2][0][2] in ids]
        if dead:
            st = st.cp()
            for k in dead: st.env.pop(k)
        return st
    def bufs(s, st, p): return st.env.get((G, "buf", p))
    def setbuf(s, st, p, seq):
        st = st.cp(); st.env[(G, "buf", p)] = ("seq",) + tuple(collapse(seq)); return st
    def skey(s, st): return (st.env.get((G, "tape")), tuple(sorted(((k[2], v) for k, v in st.env.items() if k[:2] == (G, "buf")), key=repr)))
    def seq_of(s, st, a):
        """tokens of a value appended or sent"""
        p = a.p if isinstance(a, Loc) else None
        t = s.val(st, a)
        if p is not None and s.bufs(st, p) is not None: return list(s.bufs(st, p)[1:])
        b, S, E = view(t)
        for q in s.paths(b):
            if s.bufs(st, q) is not None and S == C(0) and E == ("m", "size", b): return list(s.bufs(st, q)[1:])
        if b[0] == "s" and S == C(0): return tokens(b[1]) if E == C(len(b[1].encode("latin-1", "replace"))) or True else [("data", b, S, E)]
        if b[0] == "cat": return [y for x in b[1:] for y in (tokens(x[1]) if x[0] == "lit" else [x])]
        if b[0] == "hexs": return [("hex", b[1])]
        if b[0] == "to_s": return [("num", b[1])]
        return [("data", b, S, E)]
    def raw_of(s, st, a):
        b = view(s.val(st, a))[0]
        if b[0] == "s": return [("lit", b[1])]
        return s.seq_of(st, a)
    def isstr(s, st, p): return p[:1] != THIS
    def isnew(s, t): return t[0] in ("empty", "ctor", "init", "s") and "''" in show(t) or t == ("s", "") or t[0] in ("ctor", "empty", "init") and len([x for x in t[2:] if x[0] != "empty"]) == 0
    def paths(s, t):
        if t[0] == "in": yield t[1]
        if t[0] == "addr": yield t[1]
        if t[0] == "bufv": yield t[1]
    def isbuf(s, p, n): return True
    def on_call(s, st, fr, n, name, obj, args):
        sh = name.split("::")[-1]
        if sh == "append" and "StringUtil" in name and len(args) == 2 and isinstance(args[0], Loc):
            p = args[0].p; old = s.bufs(st, p)
            return [(s.touch(s.setbuf(st, p, list(old[1:] if old is not None else s.initial(st, p)) + s.seq_of(st, args[1])), p, n), ("void",))]
        if sh == 'operator""s' and args: return [(st, s.val(st, args[0]))]
        if sh == "operator+" and "basic_string" in n.t and len(args) + (obj is not None) == 2:
            xs = ([obj] if obj is not None else []) + list(args)
            return [(st, ("cat",) + tuple(t for x in xs for t in s.raw_of(st, x)))]
        if sh in ("operator+=", "append", "push_back") and name.startswith("std::basic_string") and isinstance(obj, Loc) and s.isstr(st, obj.p) and len(args) == 1:
            p = obj.p; old = s.bufs(st, p)
            base = list(old[1:]) if old is not None else ([] if s.isnew(st.read(p)) else s.seq_of(st, obj))
            return [(s.touch(s.setbuf(st, p, base + s.seq_of(st, args[0])), p, n), ("void",))]
        if sh in ("to_string", "format", "hexadecimalConversion"):
            vals = [s.val(st, a) for a in args]
            if sh == "to_string": return [(st, C(0) if False else ("to_s", vals[0]))]
            if sh == "hexadecimalConversion": return [(st, ("hexs", vals[0]))]
            f = view(vals[0])[0] if vals else None
            lit = [x for x in walk_term(vals[0]) if isinstance(x, tuple) and x[:1] == ("s",)] if vals else []
            if lit and lit[0][1].lower() == "{:x}" and len(vals) == 2: return [(st, ("hexs", s.unref(st, vals[1])))]
        if isinstance(obj, Loc) and name.startswith(("std::vector::", "std::basic_string::")) and s.bufs(st, obj.p) is not None or isinstance(obj, Loc) and name.startswith("std::vector") and "vector<char>" in (call_obj(n).t if call_obj(n) is not None else ""):
            p = obj.p
            if sh == "clear": return [(s.setbuf(st, p, []).write(p, ("bufv", p)), ("void",))]
            if sh == "reserve": return [(st if s.bufs(st, p) is not None else s.setbuf(st, p, s.initial(st, p)).write(p, ("bufv", p)), ("void",))]
            if sh == "insert" and len(args) == 3:
                a, b = (s.val(st, x) for x in args[1:])
                t = s.between(st, a, b)
                if t is not None and "end" in repr(s.val(st, args[0])): return [(s.touch(s.setbuf(st, p, list((s.bufs(st, p) or ("seq",))[1:]) + t), p, n), ("void",))]
            if sh == "resize":
                st = st.cp(); st.env.pop((G, "buf", p), None); return [(st.havoc(p, ("resize", n.id)), ("void",))]
        if sh in s.sends and args and ("IO::" in name or name.endswith("::send")):
            toks = s.seq_of(st, args[0])
            if len(args) == 2 and not isinstance(args[1], Loc) and toks and toks[0][0] == "data":
                v = s.val(st, args[1])
                toks = [("data", toks[0][1], toks[0][2], ladd(toks[0][2], v))]
            return [(st, ("tosend", tuple(toks), n.id))]
        return super().on_call(st, fr, n, name, obj, args)
    def unref(s, st, t):
        return st.read(t[1]) if t[0] == "addr" else t
    def between(s, st, a, b):
        """tokens of the range [a, b)"""
        pa, pb = ptr(a), ptr(b)
        if pa is None or pb is None or pa[0] != pb[0]: return None
        base = pa[0]
        for q in s.paths(base):
            if s.bufs(st, q) is not None: return list(s.bufs(st, q)[1:])
        return s.seq_of(st, ("sv", base, pa[1], pb[1]))
    def initial(s, st, p): return []
    def touch(s, st, p, n): return st.write(p, ("bufv", p))
    def on_assign(s, st, fr, n, p, t):
        if t[0] == "addr" and (v := st.read(t[1]))[0] == "s":
            st = st.write(p, v); r = super().on_assign(st, fr, n, p, v)
            return r if r is not None else [st]
        if s.bufs(st, p) is not None and t != ("bufv", p):
            st = st.cp(); st.env.pop((G, "buf", p), None)
            r = super().on_assign(st, fr, n, p, t)
            return r if r is not None else [st]
        return super().on_assign(st, fr, n, p, t)
    def on_await(s, st, fr, n, v):
        t = s.val(st, v)
        if t[0] == "tosend":
            s.throw(st, fr, "?", n)
            return [(s.put(st, fr, n, t[1]), ("void",))]
        return super().on_await(st, fr, n, v)
    def put(s, st, fr, n, toks): return st
