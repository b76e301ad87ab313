"""Byte ranges: what is asked for, what is announced and what is sent are the same bytes."""
from wire import *
META = dict(title="A byte-range request is answered with exactly the requested bytes",
    statement="A Range header `bytes=` with one range is answered with 206, `Content-Range: bytes a-b/size` and the bytes a..b of the file, where X-Y means X..min(Y, size-1), X- means X..size-1 and -N the last min(N, size) bytes, for every file size. A malformed or unsatisfiable range (not fully numeric, reversed, empty, beginning at or behind the end of the file) is answered with 416, `bytes */size` and no body, and is left out among several ranges; without a usable Range header the whole file is sent from its beginning with 200. A read never starts anywhere else than at the announced position.",
    over=["inputs"], q="every Range header text and every file size",
    why="Off-by-one, suffix, clamping and malformed cases are combinations of text and file size; tests request a few ranges of one file.",
    files=["net/protocol/http/Response.hpp", "net/protocol/http/Request.hpp", "utils/FileUtils.hpp"],
    mech=[("range parser", "net/protocol/http/Response.hpp _parseRange"), ("range transfer", "net/protocol/http/Response.hpp useRangeTransferFile"), ("file position", "utils/FileUtils.hpp AsyncFile::setOffset, read")],
    technique="path-sensitive abstract interpretation with linear arithmetic over the parsed numbers and the file size; case comparison with the meaning of a range",
    note="std::from_chars is modelled by its contract (fails, stops early, or consumes everything and yields the number). Several ranges are checked part by part, not for overlap.",
    design="""The range parser is recognised by its type (text and size to an optional pair) and executed on every path with from_chars forked on its three outcomes; each result must equal the meaning of the three range forms as linear terms
(min resolved by case), and a refusal needs a reason (no '-', a number that failed, n = 0, size = 0, reversed, or beginning behind the end) provable on that path. In the sending function the parser is replaced by this contract; the head automaton of H04 then checks status code, Content-Range,
Content-Length, the file offset of the first read and the stored parts against the parsed pair.""")
TUS = ["net"]
ASSUMES = ["std::from_chars follows its contract for unsigned integers", "H04 (as many bytes as announced)"]

class P(Wire):
    alone = True; unroll = 0
    def skey(s, st): return (super().skey(st), st.mon, frozenset(f for f in st.facts if f[0] == "eq0" and (abs(f[1][1]) == NPOS or s.size and f[1] == lin(s.size)) or any(isinstance(w, tuple) and w[:2] == ("u", "num") for w in walk_term(f))))
    size = None
    def viewcall(s, n, st, fr, name, short, obj, args, argn):
        if name in ("std::min", "std::max") and len(args) == 2:
            a, b = (s.val(st, x) for x in args)
            vs = (a, b) if name == "std::min" else (b, a)
            out = []
            for t, v, k in ((T_cmp("<=", a, b), vs[0], "first"), (T_cmp(">", a, b), vs[1], "second")):
                x = st.assume(t)
                if x is not None: x = x.cp(); x.mon = x.mon + (("min", k),); out.append((x, v))
            return out
        return super().viewcall(n, st, fr, name, short, obj, args, argn)
    def on_call(s, st, fr, n, name, obj, args):
        if name == "std::from_chars" and len(args) >= 3 and isinstance(args[2], Loc):
            p, q = s.val(st, args[0]), s.val(st, args[1]); b, S = ptr(p); b2, E = ptr(q)
            if b is None or b != b2: s.bad("number-text", "a number is parsed from a piece of text that is not understood", st); return [(st, ("fc",))]
            if len(args) > 3 and s.val(st, args[3]) != C(10): s.bad("number-base", "a position is not read as a decimal number", st)
            out = []; num = ("u", "num", b, S, E); 
            def res(x, kind, ptr_, ec): 
                if x is None: return
                x = x.cp(); x.mon = x.mon + (("fc", kind, num),)
                out.append((x, ("ctor", "std::from_chars_result", ptr_, ec)))
            res(st, "fail", p, C(22))
            w = st.assume(T_cmp(">", ladd(E, S, -1), C(0)))
            if w is not None:
                w = w.write(args[2].p, num).assume(nn(num)); res(w, "all", q, C(0))
                w = st.assume(T_cmp(">", ladd(E, S, -1), C(1)))
                if w is not None:
                    np = ("u", "numpart", b, S, E); w = w.write(args[2].p, np).assume(nn(np))
                    stop = ("sym", ("fcstop", n.id, fr.id)); w._kill_site(stop)
                    for t in (T_cmp("<", stop, q), T_cmp(">", stop, p)): w = w.assume(t)
                    res(w, "part", stop, C(0))
            return out
        return super().on_call(st, fr, n, name, obj, args)

def parser(ctx, m, f):
    e = P(m); e.noheads, e.heads = set(), set(); e.parts = e.reads = e.sends_seen = 0; e.loopids = set()
    bad = e.bad = lambda k, msg, st: ctx.violation(k, msg, f, path=steps(st))
    ti = next(i for i, (_, _, t) in enumerate(f.params) if "string" in t); zi = next(i for i, (_, _, t) in enumerate(f.params) if t in INTS)
    size = e.size = St().read((("v", 1, f.params[zi][0], f.params[zi][1]),))
    for k, st, v in e.run(f, (), St(mon=())):
        if k != "ret": continue
        t = v if isinstance(v, tuple) else st.read(v.p)
        fc = [x for x in st.mon if x[0] == "fc"]
        pos = {w for x in st.facts for w in walk_term(x) if isinstance(w, tuple) and w[:2] == ("u", "find") and w[5] in (C(45), ("s", "-"))}
        nums = {}
        for _, kind, num in fc:
            _, _, b, S, E = num
            w = [x for x in pos if x[2] == b and x[3] == S and ladd(E, S, -1) == x] or [x for x in pos if ladd(E, S, -1) == x]
            hi = [x for x in pos if ladd(S, x, -1) == ladd(x[3], C(1)) and E == x[4]]
            if w: nums["begin"] = (kind, num)
            elif hi: nums["end"] = (kind, num)
            else: bad("number-piece", f"a number is read from a piece of the range that is neither what stands before nor what stands behind the '-' ({show(S)}..{show(E)})", st); return
        P1 = lambda *c: all(e.prove(st, x) for x in c)
        inner = t[2] if t[0] == "ctor" and t[1] == OPT and len(t) == 3 else None
        if inner is not None and inner[0] == "ctor" and inner[1] == "std::pair":
            ctx.count("accepted paths")
            a, b = inner[2], inner[3]
            def eq(x, y): return x == y or P1(T_eq0(ladd(x, y, -1)))
            if any(kd != "all" for kd, _ in nums.values()): bad("range-loose", "a range whose numbers are not fully numeric is accepted", st); continue
            if not P1(nn(ladd(b, a, -1))): bad("range-reversed", f"a range {show(a)}-{show(b)} is accepted that may be reversed", st)
            if not P1(nn(ladd(ladd(size, b, -1), C(-1)))): bad("range-beyond", f"a range {show(a)}-{show(b)} is accepted that may end behind the file", st)
            last = ladd(size, C(-1))
            if "begin" in nums:
                X = nums["begin"][1]
                if not eq(a, X): bad("range-value", f"a range that begins at {show(X)} is taken to begin at {show(a)}", st)
                if "end" in nums:
                    Y = nums["end"][1]
                    if not (eq(b, last) and P1(nn(ladd(Y, last, -1))) or eq(b, Y) and P1(nn(ladd(last, Y, -1))) or ismin(b, Y, last)): bad("range-value", f"the end of X-{show(Y)} becomes {show(b)}", st)
                else:
                    pz = next(iter(pos))
                    if not P1(T_eq0(ladd(ladd(pz[4], ladd(pz, pz[3]), -1), C(-1)))) and not P1(nn(ladd(ladd(pz, pz[3]), ladd(pz[4], C(-1)), -1))): bad("range-value", "what stands behind the '-' is ignored", st)
                    if not eq(b, last): bad("range-value", f"the range X- ends at {show(b)} instead of the last byte", st)
            elif "end" in nums:
                N = nums["end"][1]
                if not (eq(a, C(0)) and P1(nn(ladd(N, size, -1))) or eq(a, ladd(size, N, -1)) and P1(nn(ladd(size, N, -1))) or ismin(ladd(size, a, -1), N, size)): bad("range-value", f"the last {show(N)} bytes are taken to begin at {show(a)}", st)
                if not eq(b, last): bad("range-value", f"the range -N ends at {show(b)} instead of the last byte", st)
            else: bad("range-value", "a range without any number is accepted", st)
        elif "nullopt" in repr(t) or t[0] == "empty":
            ctx.count("refused paths")
            neg = lambda x: P1(nn(ladd(C(0), x, -1)))
            why = any(kd != "all" for kd, _ in nums.values()) or neg(size) or any(P1(T_cmp("==", x, C(NPOS))) for x in pos) or not pos
            if not why and "end" in nums and "begin" in nums: why = P1(T_cmp("<", nums["end"][1], nums["begin"][1])) or st.holds(T_cmp("<=", nums["begin"][1], nums["end"][1])) is False
            if not why and "begin" in nums: why = P1(nn(ladd(nums["begin"][1], size, -1)))
            if not why and "begin" not in nums and "end" in nums: why = neg(nums["end"][1])
            if not why: bad("range-refused", "a range is refused although nothing on this path shows that it is malformed or unsatisfiable", st)
        else: bad("range-result", f"the result {show(t)} is not understood", st)
def ismin(t, a, b): return t in (("u", "min", a, b), ("u", "min", b, a))
def check(ctx):
    m = ctx.model("net")
    ctx.rule("X-Y, X-, -N give exactly their interval, clamped to the file; everything else is refused, nothing else is refused")
    ctx.rule("status, Content-Range, Content-Length, first file position and stored parts agree with the parsed interval")
    fs = [g for g in m.fns.values() if rangefn(g) and g.cls]
    for g in fs[:1]: ctx.analysed(g); ctx.count("range parsers"); parser(ctx, m, g)
    seen = set()
    for f in sendfns(m):
        if (f.rel, f.line, f.short) in seen: continue
        seen.add((f.rel, f.line, f.short))
        ctx.analysed(f); ctx.count("send functions")
        e, bad = runs(ctx, m, f, None, None, ranges=True)
        ctx.count("heads", e.heads_seen); ctx.count("announced sizes", e.ranges_seen); ctx.count("parsed ranges", e.parsed_ranges); ctx.count("range headers split", e.splits_seen); ctx.count("file reads", e.reads)
    ctx.at_least("range parsers", 1); ctx.at_least("parsed ranges", 1); ctx.at_least("announced sizes", 2); ctx.at_least("range headers split", 1)
    ctx.at_least("accepted paths", 3); ctx.at_least("refused paths", 3)
