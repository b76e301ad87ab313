"""What a splitting loop delivers: pieces between consecutive delimiters, in order."""
from views import *
G = ("ghost",)

class Split(Views):
    """split(str, delim, res): bad(key, msg, st) is called for every deviation; pushed pieces are
    collected so the caller learns whether empty pieces are kept (keep) or passed over (skip)."""
    lib_throws = lambda s, n, x: False
    def go(s, f, bad, text=0, sep=1, out=2, m=None):
        s.bad = bad; s.nonempty = s.any = 0
        P = [(("v", 1, p[0], p[1]),) if not p[2].rstrip().endswith("&") else (("root", p[1], p[0]),) for p in f.params]
        s.res = P[out] if out is not None else None
        st = St(mon=()); s.text = st.read(P[text]); s.d = st.read(P[sep]) if not isinstance(sep, str) else ("s", sep)
        st = st.write((G, "cur"), C(0)).write((G, "got"), C(0)).write((G, "last"), C(0))
        s.n = s.skips = 0; s.pushes = []; s.skipped = []
        for k, st, v in s.run(f, (), st):
            if k != "ret": continue
            s.n += 1
            cur = s.g(st, "cur")
            s.skip(st, cur, ladd(vlen(s.text), cur, -1), "at the end")
            if s.g(st, "got") == C(0) and st.holds(T_eq0(vlen(s.text))) is True: continue
            if not s.absent(st, cur): s.bad("split-early", "the splitting ends although another delimiter may follow", st)
        if s.pushes and all(s.pushes): s.mode = "skip"
        else: s.mode = "keep"
        if s.mode == "keep" and s.skipped: s.bad("split-drop", "a piece is dropped although empty pieces are otherwise kept", s.skipped[0])
        return s.mode
    def g(s, st, k): return st.read((G, k))
    def relations(s, st): return [(s.g(st, "cur"), ("m", "size", s.text)), (C(0), s.g(st, "cur"))]
    def skey(s, st): return (st.env.get((G, "got")), s.found(st, s.g(st, "cur")) is not None)
    def absent(s, st, cur):
        for x in st.facts:
            if x[0] == "eq0" and len(x[1][2]) == 1 and abs(x[1][1]) == NPOS:
                y = x[1][2][0][0]
                if y[:2] == ("u", "find") and y[2] == s.text and y[5] == s.d and s.prove(st, T_cmp("==", ladd(y[3], y[7]), cur)): return True
        return False
    def found(s, st, cur):
        for x in st.facts:
            if x[0] == "ne0" and len(x[1][2]) == 1 and abs(x[1][1]) == NPOS:
                y = x[1][2][0][0]
                if y[:2] == ("u", "find") and y[2] == s.text and y[5] == s.d and s.prove(st, T_cmp("==", ladd(y[3], y[7]), cur)): return ladd(y[3], y)
        return None
    def skip(s, st, cur, ln, where):
        if s.g(st, "got") == C(0):
            if st.holds(T_eq0(ln)) is True: s.skipped.append(st)
            else: s.bad("split-lost", f"a piece that may not be empty is dropped {where}", st)
    def extern(s, n, st, fr, name, short, obj, args, argn):
        if short == "find" and isinstance(obj, (Loc, tuple)) and args:
            t = s.val(st, obj)
            b, S, E = view(t)
            if b == s.text:
                r = super().extern(n, st, fr, name, short, obj, args, argn)
                out = []
                for x, v in r:
                    start = ladd(S, v[7]) if v[:1] == ("u",) and len(v) > 7 else C(0)
                    cur = s.g(x, "cur")
                    if start != cur and not s.prove(x, T_cmp("==", start, cur)):
                        fd = s.found(x, cur)
                        if fd is None or not s.prove(x, T_cmp("==", start, ladd(fd, vlen(s.d)))):
                            s.bad("split-from", f"the search goes on at {show(start)}, which is not right after the delimiter found after {show(cur)}", x)
                        else: s.skip(x, cur, ladd(fd, cur, -1), "between two delimiters")
                        x = x.write((G, "cur"), start).write((G, "got"), C(0))
                    out.append((x, v))
                return out
        if short in ("emplace_back", "push_back", "insert_or_assign", "insert", "emplace") and isinstance(obj, Loc) and args:
            vs = [s.val(st, a) for a in args]
            vs = [y for v in vs for y in ((v[2:] if v[0] == "ctor" and "pair" in v[1] else (v,)))]
            pc = [v for v in vs if view(v)[0] == s.text]
            if pc:
                b, S, E = view(pc[-1]); cur = s.g(st, "cur")
                if s.g(st, "got") != C(0): s.bad("split-twice", "a piece is delivered twice", st)
                if not s.prove(st, T_cmp("==", S, cur)): s.bad("split-start", f"a piece starts at {show(S)}, not right after the previous delimiter", st)
                fd = s.found(st, cur)
                if fd is not None and fd != C(0):
                    if not s.prove(st, T_cmp("==", E, fd)): s.bad("split-end", f"a piece ends at {show(E)}, not at the next delimiter", st)
                elif s.absent(st, cur):
                    if not s.prove(st, T_cmp("==", E, vlen(s.text))): s.bad("split-tail", f"the last piece ends at {show(E)}, not at the end", st)
                else: s.bad("split-end", "a piece is delivered without knowing where the next delimiter is", st)
                for v in vs:
                    if v not in pc and "long" in (argn[0].t or "") and not s.prove(st, T_cmp("==", v, cur)): s.bad("split-index", f"the index delivered with a piece is {show(v)}, not where the piece starts", st)
                s.pushes.append(st.holds(T_cmp(">", ladd(E, S, -1), C(0))) is True)
                return [(st.write((G, "got"), C(1)), ("void",))]
        return super().extern(n, st, fr, name, short, obj, args, argn)
