"""Message body framing."""
from views import *
META = dict(title="HTTP bodies are framed exactly, however the bytes arrive",
    statement="The body of a request or response, whether delimited by Content-Length or by chunked encoding, is delivered complete and unaltered for every way in which the bytes are split over reads: nothing of it is lost, duplicated or taken from the following message, and what follows it stays buffered for the next message. Chunk lengths are read in hexadecimal and Content-Length in decimal; the body ends exactly when the declared length has been read or the last chunk and its trailer have been consumed, and the reader asks for more input only while something is missing. A malformed length or chunk delimiter ends in an exception instead of a guess.",
    over=["inputs", "histories"], q="every message and every division of its bytes into reads",
    why="Tests deliver small bodies in one piece; lost or duplicated bytes need a boundary that falls on a particular byte.",
    files=["net/protocol/http/Request.hpp", "net/protocol/http/Response.hpp", "net/protocol/http/Http.hpp", "container/ArrayBuf.hpp"],
    mech=[("request body", "net/protocol/http/Request.hpp _parserReqBody, _coParserReqBody"), ("response body", "net/protocol/http/Response.hpp _parserReqBody"), ("length parsing", "net/protocol/http/Http.hpp parseBodyLength"), ("receive buffer", "container/ArrayBuf.hpp moveToHead")],
    technique="path-sensitive abstract interpretation with linear offsets into the receive buffer and a consumption cursor",
    note="Every body parser (request, response, request to file; HTTP and HTTPS); the remaining length is an unknown left by the previous call, so any number of reads is covered.",
    design="""A view of the receive buffer is (buffer, start, end) with linear terms; searches yield an unknown position with the facts their success implies; min() is split by cases when an obligation needs it.
A ghost cursor marks what has been consumed and a ghost D what is still owed of the current length. Rules: bytes are delivered from the cursor on and never more than D; the remaining-length member equals D
whenever the parser returns; a chunk may be forgotten only when D is 0 and the bytes at the cursor are CRLF; a length line starts at the cursor and its number becomes the remaining length; what is kept
in the buffer starts at the cursor (or after the empty line that follows a zero chunk) and reaches to the end; zero is returned exactly when the body is complete, and more is asked for only if a search failed,
too few bytes are left, or D is not 0 with everything consumed. The length parser must return only what from_chars accepted in full, with the radix of its use. The buffer's moveToHead must move, not copy, and set the size.""")
TUS = ["net"]
ASSUMES = ["the searches, slices and from_chars of the standard library behave as specified", "the view given to moveToHead points into the buffer"]
THIS = (("root", "this"),)
OPTT = ("std::optional<unsigned long>", "std::optional<std::size_t>", "std::optional<size_t>")

def check(ctx):
    m = ctx.model("net")
    ctx.rule("delivered bytes start at the cursor, never exceed the owed length; kept bytes start at the cursor; owed length is stored")
    ctx.rule("a chunk ends only at CRLF; a length line is parsed at the cursor with its own radix; 0 is returned iff the body is complete")
    radix = lengths(ctx, m)
    groups = {}
    for f in m.fns.values():
        if f.body is None or f.lam or not f.cls: continue
        c = cls_of(m, f)
        if c is None: continue
        R = fields_of(c, lambda t: t in OPTT); B = fields_of(c, lambda t: t.startswith("HX::container::ArrayBuf<"))
        if len(R) != 1 or len(B) != 1: continue
        groups.setdefault((c.full, R[0], B[0]), []).append(f)
    for (c, R, B), fs in groups.items():
        w = {f.id: f for f in fs if writes(f, R) and "deprecated" not in f.raw}
        callees = {n.get("fn") for f in fs for n in f.walk() if is_call(n) and n.get("fn") in w and n.get("fn") != f.id}
        for f in w.values():
            if f.ret not in ("unsigned long", "HX::coroutine::Task<unsigned long>"): continue
            if f.raw.get("acc") == "private" and not any(n.get("fn") == f.id for g in m.fns.values() if g.clsn == f.clsn for n in g.walk() if is_call(n)): continue      # unused leftover
            if f.id in callees and any(g.ret == f.ret for g in w.values() if any(n.get("fn") == f.id for n in g.walk() if is_call(n)) and g.id != f.id): continue
            parser(ctx, m, f, R, B, radix)
    buffers(ctx, m)
    ctx.at_least("body parsers", 3); ctx.at_least("parser exits", 12); ctx.at_least("length parsers", 2); ctx.at_least("deliveries", 4)

def writes(f, R):
    for n in f.walk():
        if n.k in ("CXXOperatorCallExpr", "BinaryOperator", "CompoundAssignOperator", "CXXMemberCallExpr") and any(x.mname == R for x in n.walk()):
            if n.k == "CXXMemberCallExpr" and call_short(n) not in ("emplace",): continue
            if n.k == "CXXOperatorCallExpr" and n.op not in ("=",): continue
            if n.k == "BinaryOperator" and n.op != "=": continue
            return True
    return False

# ---------------------------------------------------------------- the length parser
def lengths(ctx, m):
    out = {}
    for f in m.fns.values():
        if f.body is None or f.cls or f.ret != "unsigned long" or len(f.params) != 1 or "string_view" not in f.params[0][2] or "net/" not in f.rel: continue
        fc = [n for n in f.walk() if is_call(n) and call_short(n) == "from_chars"]
        if not fc: continue
        a = call_args(fc[0]); out[f.id] = 10 if len(a) < 4 else const_int(a[3])
        ctx.count("length parsers"); ctx.analysed(f)
        class E(Views):
            def extern(s, n, st, fr, name, short, obj, args, argn):
                if short == "from_chars":
                    b1, o1 = ptr(s.val(st, args[0])); b2, o2 = ptr(s.val(st, args[1]))
                    st = s.emit(st, fr, n, ("parsed",))
                    v = ("u", "number"); st = st.write(args[2].p, v); st = st.write((G, "range"), ("sv", b1 or ("?",), o1 or C(0), o2 or ("?",)))
                    return [(st, ("parse",))]
                return super().extern(n, st, fr, name, short, obj, args, argn)
        e = E(m); inp = ("in", (("v", 1, f.params[0][0] if False else 0, ""),), ())
        for k, st, v in e.run(f, ()):
            if k != "ret": continue
            t = e.val(st, v)
            if not any(x[0] == "parsed" for x in st.mon): ctx.violation("length-unparsed", "a length is returned that was not parsed", f, path=steps(st)); continue
            if t != ("u", "number"): ctx.violation("length-value", f"the length returned is {show(t)}, not the number that was parsed", f, path=steps(st))
            r = st.read((G, "range")); ok = err = False
            for x in st.facts:
                if x[0] != "eq0": continue
                L = x[1]
                for q, c in L[2]:
                    last = q[2] if q[0] == "fld" else q[1][-1] if q[0] == "in" else None
                    if last == "ec" and len(L[2]) == 1 and L[1] == 0: err = True
                    if last == "ptr": ok = ok or ladd(L, lmul(ladd(q, mkptr(r[1], r[3]), -1), c), -1) == C(0)
            if not err: ctx.violation("length-unchecked", "a length is returned although the conversion may have failed (no digits, or out of range)", f, path=steps(st))
            if not ok: ctx.violation("length-trailing", "a length is returned although characters that are not part of a number may follow it", f, path=steps(st))
            if r[2] != C(0): ctx.violation("length-skips", "the beginning of the length is skipped", f, path=steps(st))
    return out
G = ("ghost",)

# ---------------------------------------------------------------- the parsers
class P(Views):
    lib_throws = lambda s, n, x: False
    def setup(s, R, B, radix, bad, ctx, f):
        s.R, s.B, s.radix, s.bad, s.ctx, s.f = THIS + (R,), THIS + (B,), radix, bad, ctx, f
    def force_inline(s, fn): return fn.clsn == s.entry.clsn and not fn.coro or super().force_inline(fn)
    def g(s, st, k): return st.read((G, k))
    def relations(s, st):
        o = []
        for k in ("cur",):
            o += [(s.g(st, "cur"), ("m", "size", s.buf0)), (C(0), s.g(st, "cur"))]
        return o
    def begin(s, f):
        st = St(mon=()); s.buf0 = st.read(s.B); R = st.read(s.R + ("*",))
        st = st.write((G, "cur"), C(0)).write((G, "D"), R).write((G, "kept"), C(0)).write((G, "done"), C(0)).write((G, "line"), C(0)).write((G, "mode"), C(0)).write((G, "n"), C(0)).write((G, "lp"), C(0))
        st = st.write((G, "short"), C(0)).write(s.R + ("*",), R)
        st.facts = st.facts | {nn(R)}
        # act: is a length outstanding
        out = []
        a = st.assume(("ne0", lin(("ptr", s.R)))); out.append(a.write((G, "act"), C(1)))
        b = st.assume(("eq0", lin(("ptr", s.R)))); out.append(b.write((G, "act"), C(0)))
        return out
    def skey(s, st): return (st.env.get((G, "act")), st.env.get((G, "mode")), st.env.get((G, "kept")), st.env.get((G, "lp"))[:1], st.env.get((G, "done")), st.env.get((G, "short")), has(st, "content-length"), has(st, "transfer-encoding"))
    def mine(s, t):
        b, S, E = view(t); return b == s.buf0
    # delivery
    def deliver(s, st, fr, n, t):
        b, S, E = view(t)
        if b != s.buf0: return st
        s.ctx.count("deliveries")
        cur, D = s.g(st, "cur"), s.g(st, "D")
        if s.g(st, "kept") != C(0): s.bad("after-keep", "bytes are delivered after the buffer was shifted", st)
        if s.g(st, "act") != C(1): s.bad("no-length", "bytes are delivered although no length is outstanding", st); return st
        if S != cur and not s.prove(st, T_cmp("==", S, cur)): s.bad("not-at-cursor", f"bytes are delivered from offset {show(S)} although everything before {show(cur)} is consumed and nothing after it", st)
        ln = ladd(E, S, -1)
        if not s.prove(st, T_cmp("<=", ln, D)): s.bad("too-much", "more bytes may be delivered than the declared length", st)
        if not s.prove(st, T_cmp(">=", ln, C(0))): s.bad("negative", "the delivered range may be reversed", st)
        D2 = ladd(D, ln, -1)
        st = st.write((G, "cur"), E).write((G, "D"), D2).write((G, "short"), C(0))
        st.facts = st.facts | {x for x in (nn(D2),) if x[1][0] == "lin"}
        return st
    def extern(s, n, st, fr, name, short, obj, args, argn):
        if name.startswith("std::basic_string::") and short in ("append", "operator+=", "insert", "assign", "operator=", "push_back") or short in ("insert", "assign") and name.startswith("std::vector"):
            vals = [s.val(st, a) for a in args]
            t = None
            if len(vals) == 1: t = vals[0]
            elif len(vals) >= 2:
                b1, o1 = ptr(vals[-2])
                if b1 is not None: t = ("sv", b1, o1, ptr(vals[-1])[1] if ptr(vals[-1])[0] == b1 else ladd(o1, vals[-1]))
                elif len(vals) == 3 and s.mine(vals[0]): bb, S, E = view(vals[0]); t = ("sv", bb, ladd(S, vals[1]), ladd(S, ladd(vals[1], vals[2])))
            if t is not None and s.mine(t):
                if short in ("assign", "operator=") and isinstance(obj, Loc) and obj.p[:1] == THIS: s.bad("replaced", "the body collected so far is replaced", st)
                return [(s.deliver(st, fr, n, t), obj if obj is not None else ("void",))]
        return super().extern(n, st, fr, name, short, obj, args, argn)
    def on_call(s, st, fr, n, name, obj, args):
        fid = n.get("fn")
        if fid in s.radix and args: return s.length(st, fr, n, s.val(st, args[0]), s.radix[fid])
        g = s.m.fns.get(fid)
        if g is not None and g.coro and args and any(s.mine(s.val(st, a)) for a in args) and "AsyncFile" in g.clsn:
            return [(st, ("filewrite", g.short, *(s.val(st, a) for a in args)))]
        return super().on_call(st, fr, n, name, obj, args)
    def on_await(s, st, fr, n, v):
        t = s.val(st, v)
        if t[0] == "filewrite":
            s.throw(st, fr, "?", n)
            if "write" not in t[1]: return None
            return [(s.deliver(st, fr, n, t[2]), ("void",))]
        return super().on_await(st, fr, n, v)
    def length(s, st, fr, n, t, rad):
        s.throw(st, fr, "?", n)
        b, S, E = view(t); sym = ("u", "number", n.id)
        if b == s.buf0:
            if rad != 16: s.bad("radix", f"a chunk length is read in base {rad}", st)
            if s.g(st, "act") == C(1): s.bad("early-line", "a chunk length is read although the previous chunk is not finished", st)
            cur = s.g(st, "cur")
            if not s.prove(st, T_cmp("==", S, cur)): s.bad("line-start", f"the chunk length is read at offset {show(S)} although {show(cur)} bytes are consumed", st)
            if not any(x[0] == "ne0" and len(x[1][2]) == 1 and (y := x[1][2][0][0])[:2] == ("u", "find") and y[2] == b and y[5] == ("s", "\r\n") and ladd(y[3], y) == E and s.prove(st, T_cmp("<=", ladd(y[3], y[7]), S)) for x in st.facts):
                s.bad("line-end", "the chunk length line does not reach to the first CRLF after it", st)
            st = st.write((G, "line"), E)
            s.ctx.count("length lines")
        else:
            if rad != 10: s.bad("radix", f"the Content-Length is read in base {rad}", st)
            if "content-length" not in repr(t): s.bad("other-header", "the body length is taken from another header", st)
            if s.g(st, "act") == C(1): s.bad("restart", "the remaining length is replaced by the whole length while it is being read", st)
            st = st.write((G, "line"), C(-1))
        st = st.cp(); st._kill_site(sym)
        return [(st.write((G, "lp"), sym), sym)]
    def on_assign(s, st, fr, n, p, t):
        if p == s.R + ("*",):
            lp = s.g(st, "lp")
            if t == lp and lp != C(0):
                line = s.g(st, "line"); st = st.write((G, "D"), t).write((G, "act"), C(1)).write((G, "lp"), C(0)).write((G, "short"), C(0))
                if line != C(-1): st = st.write((G, "cur"), ladd(line, C(2)))
                return [st]
            if s.g(st, "act") == C(1) and t == s.g(st, "D"): return [st]
            if lp != C(0): s.bad("wrong-length", f"the remaining length becomes {show(t)}, not the length that was read", st)
        elif p == s.R and t[0] == "empty":
            if s.g(st, "act") == C(1) and s.f.short: s.bad("forgotten", "the remaining length is forgotten before the end of the chunk (its data and CRLF) was seen", st)
        return super().on_assign(st, fr, n, p, t)
    def on_branch(s, st, fr, n, t, val):
        st = s.refine(st)
        if s.g(st, "act") == C(1) and s.chunked(st) and st.holds(T_eq0(s.g(st, "D"))) is True:
            cur = s.g(st, "cur")
            for x in st.facts:
                if x[0] == "ne0" and x[1][1] == 0 and len(x[1][2]) == 1 and x[1][2][0][0][:2] == ("u", "bytes"):
                    y = x[1][2][0][0]
                    if y[2] == s.buf0 and y[5] == ("s", "\r\n") and s.prove(st, T_cmp("==", y[3], cur)) and (y[4] == C(0) or s.prove(st, T_cmp(">=", ladd(y[4], y[3], -1), C(2)))):
                        st = st.write((G, "cur"), ladd(cur, C(2))).write((G, "act"), C(0)).write((G, "short"), C(0)); break
        if s.g(st, "short") == C(0) and any_short(s, st): st = st.write((G, "short"), C(1))
        return [st]
    def on_throw(s, st, fr, n):
        if n is not None and n.k == "CXXThrowExpr" and s.g(st, "act") == C(1) and s.chunked(st) and not s.prove(st, T_cmp(">=", ladd(("m", "size", s.buf0), s.g(st, "cur"), -1), C(2))):
            s.bad("rejects", "a message may be rejected only because the end of a chunk has not arrived yet", st)
        return super().on_throw(st, fr, n)
    def chunked(s, st):
        return not any(x[0] == "ne0" and "content-length" in repr(x) and ("contains" in repr(x) or "count" in repr(x)) for x in st.facts) and not has(st, "content-length")
    def on_buf(s, st, fr, n, sh, p, v):
        if p != s.B: return st
        cur = s.g(st, "cur")
        if sh == "moveToHead":
            b, S, E = view(v[0])
            if b != s.buf0: s.bad("foreign", "the buffer is overwritten with bytes that are not its own", st); return st
            if not s.prove(st, T_cmp("==", E, ("m", "size", s.buf0))): s.bad("tail-lost", "the end of the buffered bytes is dropped", st)
        elif sh == "clear" or sh == "resetSize" and v == [C(0)]: S = ("m", "size", s.buf0)
        else: return st
        done = C(0)
        lp = s.g(st, "lp")
        if lp != C(0) and s.g(st, "line") != C(-1) and st.holds(T_eq0(lp)) is True:
            for x in st.facts:
                if x[0] == "ne0" and len(x[1][2]) == 1 and x[1][2][0][0][:2] == ("u", "find"):
                    y = x[1][2][0][0]
                    if y[2] == s.buf0 and y[5] == ("s", "\r\n\r\n") and s.prove(st, T_cmp("<=", ladd(y[3], y[7]), s.g(st, "line"))) and s.prove(st, T_cmp(">=", ladd(y[3], y[7]), cur)) and s.prove(st, T_cmp("==", S, ladd(ladd(y[3], y), C(4)))): done = C(1)
        if done != C(1) and not s.prove(st, T_cmp("==", S, cur)):
            s.bad("keep", f"the bytes from offset {show(S)} are kept although {show(cur)} bytes are consumed", st)
        if s.g(st, "kept") != C(0): s.bad("kept-twice", "the buffer is shifted twice", st)
        return st.write((G, "kept"), C(1)).write((G, "done"), done)

def has(st, key):
    """is a header known to be present / absent"""
    for x in st.facts:
        r = repr(x)
        if key in r and x[0] in ("ne0", "eq0") and ("contains" in r or "count" in r): return x[0] == "ne0"
        if key in r and "end" in r and x[0] in ("ne0", "eq0"): return x[0] == "ne0"
    return None

def parser(ctx, m, f, R, B, radix):
    seen = set()
    def bad(key, msg, st): ctx.violation(f"{key}:{f.n.split('<')[0]}::{f.short}", msg, f, path=steps(st))
    ctx.count("body parsers"); ctx.analysed(f); ctx.sample(f.full)
    e = P(m); e.setup(R, B, radix, bad, ctx, f)
    # both initial states
    first = P(m); first.setup(R, B, radix, bad, ctx, f)
    for st0 in e.begin(f):
        x = P(m); x.setup(R, B, radix, bad, ctx, f); x.buf0 = e.buf0
        for k, st, v in x.run(f, (), st0):
            if k != "ret": continue
            exit_(ctx, x, st, x.val(st, v), bad)

def exit_(ctx, x, st, t, bad):
    ctx.count("parser exits")
    act = x.g(st, "act"); D = x.g(st, "D"); cur = x.g(st, "cur"); N = ("m", "size", x.buf0)
    p = x.R; stored = st.holds(("ne0", lin(("ptr", p)))); rv = st.read(p + ("*",))
    if x.g(st, "kept") == C(0) and cur != C(0): bad("not-kept", "returns without removing the consumed bytes from the buffer", st)
    if act == C(1):
        if stored is not True or rv != D and not x.prove(st, T_cmp("==", rv, D)): bad("not-stored", f"the remaining length is {show(rv)} on return although {show(D)} bytes are still owed", st)
    elif stored is not False and not (act == C(0) and not x.chunked(st)): bad("stale", "a remaining length is left over although no chunk is being read", st)
    cl, te = has(st, "content-length"), has(st, "transfer-encoding")
    z = st.holds(T_eq0(t))
    if z is None and t == D and act == C(1): return
    if z is None:
        if x.prove(st, T_eq0(t)): z = True
        elif x.prove(st, T_not(T_eq0(t))): z = False
    if z is True:
        if x.g(st, "done") == C(1): return
        if cl is True and act == C(1) and x.prove(st, T_eq0(D)): return
        if cl is False and te is False: return
        bad("early-end", "the body is reported complete although it may not be", st)
    elif z is False:
        if x.g(st, "done") == C(1): bad("over-read", "more input is requested after the end of the body", st); return
        if x.g(st, "short") == C(1) or any_short(x, st): return
        bad("over-read", "more input is requested although nothing is known to be missing", st)
    else: bad("length-result", f"the number of bytes requested ({show(t)}) does not tell whether the body is complete", st)

def any_short(x, st):
    cur = x.g(st, "cur"); N = ("m", "size", x.buf0)
    if x.prove(st, T_cmp("<=", ladd(N, cur, -1), C(1))): return True
    for f in st.facts:
        if f[0] == "eq0" and len(f[1][2]) == 1 and abs(f[1][1]) == NPOS:
            y = f[1][2][0][0]
            if y[:2] == ("u", "find") and y[2] == x.buf0: return True
    return x.g(st, "act") == C(1) and x.prove(st, T_not(T_eq0(x.g(st, "D")))) and x.prove(st, T_cmp(">=", cur, N))

def buffers(ctx, m):
    """the shift to the head of the buffer keeps exactly the given bytes"""
    for f in m.fns.values():
        if not f.clsn.startswith("HX::container::ArrayBuf") or f.short != "moveToHead" or f.body is None: continue
        ctx.analysed(f); ctx.count("buffer shifts")
        c = cls_of(m, f); sz = fields_of(c, lambda t: t in ("unsigned long", "std::size_t", "size_t"))
        calls = [n for n in f.walk() if is_call(n)]
        if any(call_short(n) in ("memcpy", "copy", "copy_n", "copy_backward", "uninitialized_copy") and call_short(n) == "memcpy" or call_short(n) == "copy_backward" for n in calls): ctx.violation("shift-overlap", "overlapping bytes are moved with a copy that does not allow overlap", f)
        class E(Calls): pass
        e = E(m); got = []
        def hc(name, n, st, obj, args, eng, fr):
            sh = name.split("::")[-1]
            if sh in ("memmove", "memcpy", "copy_n", "copy"): return ("move", tuple(eng.val(st, a) for a in args))
            return None
        e.h_call = hc
        par = ("in", (("v", 1, f.params[0][0], f.params[0][1]),), ())
        for k, st, v in e.run(f, ()):
            if k != "ret": continue
            val = st.read(THIS + (sz[0],)) if sz else None
            if sz and not (val[0] == "m" and val[1] == "size"): ctx.violation("shift-size", f"after the shift the size is {show(val)}, not that of the given bytes", f, path=steps(st))
            mv = [x for x in st.mon if x[0] == "move"]
            if len(mv) != 1: 
                if sz and st.holds(T_eq0(val)) is not True: ctx.violation("shift-missing", "the bytes are not moved to the head of the buffer", f, path=steps(st))
                continue
            if "size" not in repr(mv[0][1][-1]) and "size" not in repr(mv[0][1]): ctx.violation("shift-length", "the number of bytes moved is not the number given", f, path=steps(st))
        for f2 in m.fns.values():
            if f2.clsn == f.clsn and f2.short == "addSize" and f2.body is not None and sz:
                for k, st, v in Calls(m).run(f2, ()):
                    d = ladd(st.read(THIS + (sz[0],)), St().read(THIS + (sz[0],)), -1)
                    if k == "ret" and not (d[0] == "in"): ctx.violation("grow", f"addSize changes the size by {show(d)}", f2)
        
