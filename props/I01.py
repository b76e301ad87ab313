"""Byte transfers: end of stream, errors and time-outs end every receive loop; partial transfers are continued where they stopped."""
from xfer import *
META = dict(title="Byte transfers stop at end-of-stream and never lose, repeat or invent bytes",
    statement="Every loop that receives, sends, reads or writes bytes continues exactly where the previous partial transfer stopped and ends normally only when everything it promises has been transferred. End of stream, an error or a timeout ends it instead of being retried for ever, is reported to the caller (exception, or the distinguished result), and an error code is never used as a byte count.",
    over=["inputs", "fault_sequences", "schedules"], q="every sequence of partial transfers, ends of stream, errors and time-outs the kernel or TLS layer can deliver",
    why="Tests run over loopback, where transfers are whole and peers are polite; a half-closed peer, a short write or a reset in the middle of a message needs a particular fault sequence.",
    files=["net/socket/IO.hpp", "utils/FileUtils.hpp", "net/protocol/http/Request.hpp", "net/protocol/http/Response.hpp", "net/protocol/websocket/WebSocket.hpp", "net/protocol/proxy/Socks5Proxy.hpp"],
    mech=[("full receive/send loops", "net/socket/IO.hpp HttpIO, HttpsIO"), ("file read/write loops", "utils/FileUtils.hpp AsyncFile"), ("message receive loops", "net/protocol/http/Request.hpp, Response.hpp; net/protocol/websocket/WebSocket.hpp")],
    technique="path-sensitive abstract interpretation forking every awaited transfer on its outcome (bytes / end / error / timeout) with a linear offset domain",
    note="Every path through up to two transfers exactly and the joined state after that; byte contents are not modelled.",
    design="""A transfer is an awaited prepRecv/prepSend/prepRead/prepWrite, a linkTimeout over one, or a call of another class's recv/recvLinkTimeout/read.
Its outcome is forked into count > 0, count = 0, count < 0 and (linked) timeout. Obligations: after an outcome other than count > 0 no further transfer in that direction
is awaited by the same call; a coroutine without a result leaves by exception then, one with a bool result returns false, one with a count or
count-or-timeout result returns that outcome; a negative outcome reaches no length, offset or view; in full-transfer loops the next buffer is the previous one advanced by
exactly the count, and the normal exit requires the remainder to be empty; a TLS receive returns only plaintext results and feeds exactly the received bytes to the decryptor.""")
TUS = ["net"]
ASSUMES = ["a send or write of a non-empty buffer never reports zero bytes", "the kernel reports at most as many bytes as the buffer holds"]
LENUSE = {"addSize", "subspan", "substr", "first", "last", "append", "assign", "resize", "writeCiphertext", "next", "addLen", "basic_string_view", "span", "basic_string", "size", "operator+="}

NAMES = RECV + SEND + ("recvLinkTimeout", "recv", "read", "fullyRecv")
def transfers(g): return any(is_call(n) and n.name.split("::")[-1] in NAMES for n in g.walk())
def prim(g, e):
    if not g.cls: return None
    if g.short == "read" and "AsyncFile" in g.n: return ("fread", "count")
    if g.short == "recv" and "IO" in g.clsn: return ("recv", "int")
    if g.short == "recvLinkTimeout": return ("recv", "var")
    if g.short == "fullyRecv": return ("recv", "void")
    return None
small = {}
def little(g):
    if g not in small: small[g] = sum(1 for _ in g.walk()) < 160
    return small[g]
class X(IO):
    def force_inline(s, fn): return fn.file == s.entry.file and not prim(fn, s.entry) and transfers(fn) and fn.ret in RESULTS and not (fn.coro and fn.raw.get("acc") == "public") or super().force_inline(fn) and not fn.coro and (little(fn) or any(n.name.split("::")[-1] in NAMES for n in fn.walk() if is_call(n)))
RESULTS = ("HX::coroutine::Task<>", "HX::coroutine::Task<int>", "HX::coroutine::Task<bool>", "HX::coroutine::Task<unsigned long>", "int", "unsigned long", "bool", "void")

def check(ctx):
    m = ctx.model("net")
    for r in ("no transfer after end of stream / error / timeout in the same call", "the end is reported: exception, false, or the outcome itself", "a negative outcome is never a length",
              "the next buffer is the previous one advanced by exactly the bytes moved; normal exit only with nothing left"): ctx.rule(r)
    seen = set()
    for f in m.fns.values():
        if not f.coro or f.cls is None and not f.lam: continue
        if not transfers(f): continue
        key = (f.rel, f.line, f.clsn, f.n.split("<")[0])
        if f.rel.startswith("coroutine/") or not f.rel or f.rel.startswith("/"): continue
        if key in seen: continue
        seen.add(key)
        loop(ctx, m, f)
    offsets(ctx, m)
    ctx.at_least("transfer functions", 10); ctx.at_least("continued transfers", 4)

def loop(ctx, m, f):
    e = X(m); e.h_prim = prim; e.maxlen = 12; e.into = ("IoUringErrorHandlingTools::check",)
    name = f.n.split("<")[0] if not f.lam else f.rel
    def bad(key, msg, st, fn=f): ctx.violation(f"{key}:{f.n.split('<')[0]}:{f.rel}", msg, fn, path=steps(st))
    hit = [0]
    def step(st, fr, n, dir, buf, o):
        hit[0] = 1; ctx.sample(f"{f.n.split('<')[0]} {dir}") if o == 0 else None
        if o == 0: return
        if case_of(st, dir)[-1] == "pos" and used(st, dir) is False: bad("lost", f"the bytes of the previous transfer ({dir}) are neither used nor recorded before the next one overwrites them", st)
        pb = st.read((G, "buf", dir)); pn = st.read((G, "n", dir))
        b0, o0 = off_of(pb); b1, o1 = off_of(buf)
        if fr.depth == 0 and f.ret == VOID and b0 == b1 and b0[0] in ("in", "m") and o == 1:
            # same underlying view: must have advanced by exactly what was moved, or be a fresh use of a scratch buffer
            if not scratch(f, b0):
                ctx.count("continued transfers")
                if ladd(o1, o0, -1) != pn: bad("advance", f"the next transfer starts at offset {show(ladd(o1, o0, -1))} of the previous buffer, which moved {show(pn)} bytes", st)
    e.h_step = step
    e.h_again = lambda st, fr, n, dir, case: bad(f"again-{case}", f"after a transfer that ended with {dict(neg='an error', zero='end of stream', timeout='a timeout')[case]} the same call starts another transfer", st)
    def use(name, n, st, obj, args, eng, fr):
        sh = name.removesuffix("::(ctor)").split("::")[-1]; ev = None
        if sh in LENUSE or sh == "static_cast":
            for a in args:
                t = eng.val(st, a)
                for dir in ("recv", "send", "fread"):
                    pn = st.read((G, "n", dir))
                    if pn[0] == "in" or is_c(pn): continue
                    if mentions(t, pn): ev = ("use", dir, len(case_of(st, dir))) if len(case_of(st, dir)) < 3 else ev
                    
                    if t != pn and is_c(ladd(t, pn, -1)): bad("wrong-count", f"{sh} is given {show(t)} although {show(pn)} bytes were transferred", st)
                for x in io_syms(t):
                    if any(st.holds(T_cmp("<", y, C(0))) is True for y in (x, ("fld", x, ("get", "0")))):
                        bad("error-as-length", f"an error code is used as a byte count in {sh}", st)
        return ev
    e.h_call = use
    e.h_ctor = lambda name, p, args, st, n, eng: use(name, n, st, None, args, eng, None)
    def mark(st, t):
        for dir in ("recv", "send", "fread"):
            pn = st.read((G, "n", dir))
            if pn[0] == "in" or is_c(pn) or t == pn or not mentions(t, pn) or len(case_of(st, dir)) > 2: continue
            return ("use", dir, len(case_of(st, dir)))
    e.h_assign = lambda p, t, st, n: mark(st, t) if t[0] == "lin" else None
    def branch(st, fr, n, t, val):
        if t[0] in ("eq0", "ne0") and t[1][1] != 0 or t[0] in ("ge0", "eq0", "ne0") and len(t[1][2]) > 1:
            ev = mark(st, t[1])
            if ev: return [e.emit(st, fr, n, ev)]
        return None
    e.on_branch = branch
    outs = e.run(f, ())
    if not hit[0]: return
    ctx.analysed(f); ctx.count("transfer functions")
    for k, st, v in outs:
        for dir in ("recv", "send", "fread"):
            c = case_of(st, dir)
            if not c: continue
            ctx.count("transfer paths")
            if k == "exc":
                continue
            t = v if isinstance(v, tuple) else st.read(v.p)
            if c[-1] in ("neg", "timeout") or (c[-1] == "zero" and dir == "recv"): ends(f, st, t, c[-1], dir, bad)
            elif c[-1] == "pos" and used(st, dir) is False and st.read((G, "n", dir)) not in list(walk_term(t)) and not io_syms(t):
                bad("lost", f"returns although the bytes of the last transfer ({dir}) are neither used nor recorded", st)
            elif f.ret == VOID and c[-1] == "pos" and param_buf(f): fully(f, st, dir, bad)

def used(st, dir):
    """was the count of the last transfer used since?"""
    ev = [x for x in st.mon or () if x[0] in ("xfer", "use") and x[1] == dir]
    i = max(k for k, x in enumerate(ev) if x[0] == "xfer")
    if sum(1 for x in ev if x[0] == "xfer") > 2: return None
    return any(x[0] == "use" for x in ev[i:])
VOID = "HX::coroutine::Task<>"
def scratch(f, b): return b[0] != "in" or b[1][0][0] != "v"
def param_buf(f): return any("span<" in t or "string_view" in t for _, _, t in f.params)
def io_syms(t): return [x for x in walk_term(t) if isinstance(x, tuple) and len(x) == 2 and x[0] == "sym" and isinstance(x[1], tuple) and x[1][0] == "io"]
WHAT = dict(neg="an error", zero="end of stream", timeout="a timeout")
def ends(f, st, t, case, dir, bad):
    if f.ret == VOID: bad(f"silent-{case}", f"returns normally although the transfer ended with {WHAT[case]}", st)
    elif f.ret == "HX::coroutine::Task<bool>":
        if st.holds(t) is not False: bad(f"silent-{case}", f"reports success although the transfer ended with {WHAT[case]}", st)
    elif f.ret in ("HX::coroutine::Task<int>", "HX::coroutine::Task<unsigned long>") or VAR in f.ret:
        if case == "zero" and t == C(0): return
        if not io_syms(t): bad(f"outcome-replaced-{case}", f"the caller is told {show(t)} although the transfer ended with {WHAT[case]}", st)
def fully(f, st, dir, bad):
    buf = st.read((G, "buf", dir)); n = st.read((G, "n", dir)); b, o = off_of(buf)
    if b[0] != "in" or b[1][0][0] != "v" or b[1][0][2] not in [x for p in f.params for x in p]: return
    left = ladd(ladd(size_of(b), o, -1), n, -1)
    if st.holds(T_cmp("<=", left, C(0))) is not True: bad("short", "returns normally although bytes may remain to be transferred", st)

def offsets(ctx, m):
    """sequential file reads: each starts at the file position, which then advances by exactly the bytes read"""
    c = "HX::utils::AsyncFile"
    for f in m.fns.values():
        if f.clsn != c or not f.coro or f.short != "read": continue
        e = X(m); e.h_prim = prim; e.into = ("IoUringErrorHandlingTools::check",); ofs = fields_of(cls_of(m, f), lambda t: t in ("uint64_t", "unsigned long", "std::uint64_t", "std::size_t"))
        for k, st, v in e.run(f, ()):
            if k != "ret" or not case_of(st, "fread"): continue
            at = st.read((G, "off")); fld = [x for x in ofs if at == St().read((("root", "this"), x))]
            if not fld: ctx.violation(f"offset:{len(f.params)}", f"the read does not start at the file position but at {show(at)}", f, path=steps(st)); continue
            ctx.count("file positions"); p = (("root", "this"), fld[0])
            if ladd(st.read(p), St().read(p), -1) != st.read((G, "n", "fread")) and case_of(st, "fread")[-1] == "pos":
                ctx.violation(f"offset-advance:{len(f.params)}", f"the file position becomes {show(st.read(p))} after {show(st.read((G, 'n', 'fread')))} bytes were read", f, path=steps(st))
    ctx.at_least("file positions", 1)
