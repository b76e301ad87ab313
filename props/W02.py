"""WebSocket send."""
from bits import *
from W01 import swaps
META = dict(title="Every WebSocket message is sent as one well-formed frame",
    statement="Whatever message an endpoint sends, and whichever send call is used, the peer receives exactly one frame: final, with the message's opcode, the shortest length form RFC 6455 prescribes (7 bits up to 125, then a big-endian 16-bit and 64-bit length) and the message bytes, header before content, each once. A client frame carries the mask bit and a 4-byte key drawn afresh from its generator for this frame, and byte i of the content is XORed with key byte i mod 4; a server frame is unmasked and its bytes are unchanged.",
    over=["inputs"], q="every opcode, content and content length, for both roles",
    why="The tests exchange short texts between the library's own two ends, where a symmetric mistake cancels out; only a few lengths and masks are ever seen.",
    files=["net/protocol/websocket/WebSocket.hpp", "utils/ByteUtils.hpp", "utils/Random.hpp"],
    mech=[("frame writer", "net/protocol/websocket/WebSocket.hpp WebSocket::sendPacket"), ("prepared frame", "net/protocol/websocket/WebSocket.hpp makePacketView, WebSocket::sendPacketView"), ("mask generator", "utils/Random.hpp XorShift32")],
    technique="path-sensitive abstract interpretation with a byte-sequence domain; the bytes handed to the socket are compared with the frame grammar per length class",
    note="Content bytes stay symbolic; the masking loop is handled by induction. The key's statistical quality is not judged, only that each frame draws a new one and the generator cannot get stuck at zero.",
    design="""Every send call of both roles is run with its helpers inlined; the buffers passed to the awaited socket sends, in order, are byte sequences (the header vector) and content blocks. On each normal return they must be:
0x80+opcode, the length form for the class the path's conditions put the content length in (with the mask bit for a client), each length byte the right bit field of the length, for a client four bytes that equal
the XOR key applied to the content and derive from a generator call on this path, then the content, whole and once. The generator: every construction leaves a non-zero state and every call stores a value it computed from the old state.""")
TUS = ["net"]
ASSUMES = ["opcodes are those of the protocol (below 16)", "the socket's full send delivers all bytes it is given (I01)"]

def issend(g):
    return g.coro and g.params and "span<" in g.params[0][2] and ("HttpIO" in g.clsn or "HttpsIO" in g.clsn or g.clsn == "HX::net::IO")
def israng(g): return "XorShift" in g.clsn or g.short == "operator()" and g.rel.endswith("Random.hpp")

class R(Bits):
    mem = None
    def want_inline(s, g, fr): return not issend(g) and not israng(g) and super().want_inline(g, fr)
    def force_inline(s, g): return not issend(g) and not israng(g) and g.file == s.entry.file
    def skey(s, st): return (super().skey(st), st.env.get((G, "wire")), frozenset((k, v) for k, v in st.env.items() if k[:1] == (G,) and k[1] == "buf"))
    def on_return(s, st, fr, n, v):
        if fr.depth: return None
        if v is not None and (t := s.val(st, v))[0] == "lazy": return [x for x, _ in s.await_(n, st, fr, v)]
        if isinstance(v, tuple) and v[0] == "in": v = Loc(v[1])
        if v is not None and isinstance(v, Loc) and (st.env.get(v.p + ("head",)) or (G, "buf", v.p + ("head",)) in st.env):
            return [st.write((G, "rh"), st.env.get((G, "buf", v.p + ("head",)), ("?",))).write((G, "rc"), s.val(st, Loc(v.p + ("content",))))]
    def on_await(s, st, fr, n, v):
        t = s.val(st, v)
        if t[0] == "lazy" and issend(s.m.fns[t[1]]):
            a = t[3][0]; b = s.val(st, Loc(a[1]) if a[0] == "L" else a[1])
            return s.send(st, fr, n, b, s.m.fns[t[1]])
        return super().on_await(st, fr, n, v)
    def send(s, st, fr, n, sp, g):
        b, S, E = view(sp); tok = None
        if b[0] == "mem":
            q = st.env.get((G, "buf", b[1])); t = st.read(b[1])
            if q is not None:
                if S == C(0) and E == C(len(q) - 1): tok = q[1:]
            elif t[0] == "sv": tok = (("blk",) + tuple(t[1:]) + (None,),)
            else:
                x = t; m = None
                if x[0] == "xored": x, m = x[1], b[1]
                w, wS, wE = whole(x)
                if S == C(0) and same(s, st, E, s.sizeof(t)): tok = (("blk", w, wS, wE, m),)
        else:
            tok = (("blk", b, S, E, None),)
        if tok is None: tok = (("part", sp),)
        if "Link" in g.short or g.short in ("send",): tok = (("part", ("s", g.short)),)
        s.throw(st, fr, "io", n)
        st = st.cp(); st.env[(G, "wire")] = st.env.get((G, "wire"), ("seq",)) + tok
        return [(st, ("void",))]
    def on_call(s, st, fr, n, name, obj, args):
        sh = name.split("::")[-1]
        if "XorShift" in name and sh == "operator()":
            y = ("sym", ("rng", n.id, fr.id)); st = st.cp(); st._kill_site(y)
            return [(st, ("rng", y))]
        if name.endswith("reflection::toJson") and len(args) == 2 and isinstance(args[1], Loc):
            return [(st.write(args[1].p, ("json", s.val(st, args[0]))), ("void",))]
        return super().on_call(st, fr, n, name, obj, args)
def whole(x):
    return view(x)
def same(e, st, a, b): return a == b or unpack(a) == unpack(b) or e.prove(st, T_cmp("==", a, b))

def frame(e, st, q, op, want, client, bad):
    """q is exactly one frame with opcode op and content want (bytes, start, end)"""
    if any(t[0] == "part" for t in q): bad("partial", "part of a buffer is sent", st); return
    b, S, E = want; n = ladd(E, S, -1)
    hdr = [t for t in q if t[0] != "blk"]; i = next((k for k, t in enumerate(q) if t[0] == "blk"), len(q))
    if i != len(hdr): bad("order", "header bytes follow content", st); return
    blk = q[i:]
    if len(hdr) < 2: bad("header", f"only {len(hdr)} header bytes are sent", st); return
    if not same(e, st, bits(hdr[0], 0, 8), ladd(C(128), op)) and not same(e, st, hdr[0], ladd(C(128), op)): bad("first-byte", f"the first byte is {show(hdr[0])[:80]}, not 0x80 + {show(op)[:40]}", st); return
    for name, cond, k, code in (("7-bit", T_cmp("<=", n, C(125)), 0, n), ("16-bit", ("and", T_cmp(">=", n, C(126)), T_cmp("<=", n, C(65535))), 2, C(126)), ("64-bit", T_cmp(">=", n, C(65536)), 8, C(127))):
        x = st
        for c in cond[1:] if cond[0] == "and" else (cond,):
            x = x and x.assume(c)
        if x is None: continue
        need = 2 + k + (4 if client else 0)
        if not same(e, x, hdr[1], ladd(code, C(128 if client else 0))): bad(f"length-{name}", f"the second byte is {show(hdr[1])[:80]} for a content of the {name} class", x); return
        if len(hdr) != need: bad(f"header-{name}", f"{len(hdr)} header bytes are sent instead of {need} for a content of the {name} class", x); return
        for j in range(k):
            w = bits(n, 8 * (k - 1 - j), 8)
            if not same(e, x, bits(hdr[2 + j], 0, 8), w): bad(f"length-{name}", f"length byte {j} of the {name} form is {show(hdr[2 + j])[:80]}, not bits {8 * (k - 1 - j)}.. of the length", x); return
        if not blk:
            if not same(e, x, n, C(0)): bad("no-content", "the content is not sent", x)
            continue
        if len(blk) != 1: bad("content", f"{len(blk)} content blocks are sent", x); return
        _, cb, cS, cE, m = blk[0]
        if cb != b or not same(e, x, cS, S) or not same(e, x, cE, E): bad("content", f"what is sent is {show(cb)[:60]}[{show(cS)[:30]}..{show(cE)[:30]}], not the message", x); return
        if not client:
            if m is not None: bad("masked", "a server frame is masked", x)
            continue
        key = tuple(hdr[-4:])
        if m is None:
            if not same(e, x, n, C(0)): bad("unmasked", "a client frame is sent unmasked", x)
            continue
        w = e.xor_done(x, m, key, n)
        if w: bad("mask", w, x); return
        src = {t for kx in key for t in walk_term(kx) if isinstance(t, tuple) and t[:1] == ("rng",)}
        if not src: bad("fixed-key", f"the masking key {[show(kx)[:30] for kx in key]} does not come from the generator", x); return
        if any(not any(isinstance(t, tuple) and t[:1] == ("rng",) for t in walk_term(kx)) for kx in key) or len(set(key)) < 4: bad("weak-key", "the masking key does not use 4 different bytes of the drawn value", x); return

WRAP = {"sendText": 1, "sendBytes": 2, "ping": 9, "pong": 10, "resClose": 8, "sendJson": 1}
def check(ctx):
    m = ctx.model("net")
    for r in ("the bytes sent are one frame: 0x80+opcode, shortest length form, content, in this order", "client: mask bit, 4 key bytes drawn on this path, content byte i XORed with key byte i mod 4", "server: no mask bit, content unchanged", "each wrapper sends its own opcode and its argument"): ctx.rule(r)
    mk = [f for f in m.fns.values() if f.ret.endswith("WebSocketServerSendView") and f.rel.endswith("WebSocket.hpp")]
    for f in sorted((f for f in m.fns.values() if f.clsn.split("<")[0] == "HX::net::WebSocket" and not f.lam), key=lambda f: f.full):
        client = "WebSocketModel::Client" in f.full
        if f.ret != "HX::coroutine::Task<>" or f.short in ("close",): continue
        pt = [t for _, _, t in f.params]
        if f.short == "send" and len(pt) == 2: run(ctx, m, f, client, 0, 1)
        elif f.short in WRAP: run(ctx, m, f, client, C(WRAP[f.short]), 0)
        elif len(pt) == 1 and pt[0].endswith("WebSocketServerSendView"): view_(ctx, m, f)
    for f in mk: maker(ctx, m, f)
    rng(ctx, m); swaps(ctx, m)
    ctx.at_least("senders", 8); ctx.at_least("frames", 20); ctx.at_least("frame makers", 1)

def initial(f, e, op):
    st = St()
    if op is not None: st = st.assume(T_cmp(">=", op, C(0))); st = st.assume(T_cmp("<=", op, C(15)))
    return st
def par(f, i):
    pid, name, t = f.params[i]
    return (("root", name, pid),) if t.rstrip().endswith("&") else (("v", 1, pid, name),)
def run(ctx, m, f, client, op, ci, fresh=True):
    e = R(m); st0 = St()
    if op == 0: op = st0.read(par(f, 0))
    if op == ("packet",):
        p = par(f, 0); op = st0.read(p + ("opCode",)); cont = st0.read(p + ("content",))
    else: cont = st0.read(par(f, ci))
    outs = e.run(f, (), initial(f, e, op if not is_c(op) else None))
    ctx.analysed(f); ctx.count("senders")
    role = "client" if client else "server"
    def bad(key, msg, st): ctx.violation(f"{key}:{role}:{f.short}", f"{role} {f.short}: {msg}", f, path=steps(st))
    want = view(cont)
    if f.short == "sendJson": want = view(("json", cont))
    for k, st, v in outs:
        if k == "exc": continue
        q = st.env.get((G, "wire"), ("seq",))[1:]
        ctx.count("frames"); frame(e, st, q, op, want, client, bad)
def maker(ctx, m, f):
    e = R(m); st0 = St()
    ops = [i for i, p in enumerate(f.params) if "OpCode" in p[2]]; cs = [i for i, p in enumerate(f.params) if "string" in p[2]]
    op = st0.read(par(f, ops[0])); cont = st0.read(par(f, cs[0]))
    outs = e.run(f, (), initial(f, e, op))
    ctx.analysed(f); ctx.count("frame makers")
    def bad(key, msg, st): ctx.violation(f"{key}:view", f"prepared frame: {msg}", f, path=steps(st))
    for k, st, v in outs:
        if k == "exc": continue
        h = st.env.get((G, "rh"), ("?",)); c = st.env.get((G, "rc"), ("?",))
        if h[0] != "seq": bad("header", "the header bytes of the prepared frame cannot be followed", st); continue
        ctx.count("frames"); frame(e, st, h[1:] + (("blk",) + tuple(view(c)) + (None,),), op, view(cont), False, bad)
def view_(ctx, m, f):
    """the prepared head, then the prepared content, each once"""
    e = R(m); p = par(f, 0); st0 = St(); outs = e.run(f, ())
    ctx.analysed(f); ctx.count("senders")
    h, c = p + ("head",), p + ("content",)
    for k, st, v in outs:
        if k == "exc": continue
        q = st.env.get((G, "wire"), ("seq",))[1:]; hv, cv = st0.read(h), st0.read(c); ctx.count("frames")
        def is_(t, val, path): return t[0] == "blk" and t[1] in (val, ("addr", path)) and t[2] == C(0) and t[3] == vlen(val)
        if len(q) != 2 or not is_(q[0], hv, h) or not is_(q[1], cv, c):
            ctx.violation(f"view:{f.short}", f"{f.short} sends {[show(t)[:80] for t in q]} instead of the prepared head and then the content", f, path=steps(st))
def rng(ctx, m):
    """the mask generator is never constructed with state 0 and each call advances the state"""
    for f in sorted(m.fns.values(), key=lambda f: f.full):
        if "XorShift" not in f.clsn: continue
        e = Gen(m); c = cls_of(m, f); fl = [x["n"] for x in c.fields]
        if len(fl) != 1: continue
        p = (("root", "this"), fl[0])
        if f.short == "operator()":
            for k, st, v in e.run(f, ()):
                t = st.read(p); ctx.count("generator calls"); ctx.analysed(f)
                if t == St().read(p): ctx.violation("rng-stuck", "a call does not advance the generator", f, path=steps(st))
                elif not any(x == St().read(p) for x in walk_term(t)): ctx.violation("rng-const", f"the new state {show(t)[:80]} does not depend on the old one", f, path=steps(st))
        elif f.short == "(ctor)" and f.params and c.short not in f.params[0][2]:
            for k, st, v in e.run(f, ()):
                t = st.read(p); ctx.count("generator states"); ctx.analysed(f)
                if not (is_c(t) and t[1]) and st.holds(T_cmp("!=", t, C(0))) is not True: ctx.violation("rng-zero", f"the generator can start in state 0 ({show(t)[:60]}), in which every key is 0", f, path=steps(st))
class Gen(Bits): pass
