"""WebSocket receive."""
from bits import *
META = dict(title="WebSocket frames are decoded exactly as RFC 6455 says",
    statement="For every frame a peer can send, the receiver either accepts it or fails the connection as the protocol demands: reserved bits, reserved opcodes, the wrong masking for its role, control frames that are fragmented or longer than 125 bytes and out-of-order continuation frames are rejected, every other frame is accepted. An accepted frame consumes exactly the header, extended length (big-endian 16 or 64 bits), masking key and payload it announces, and yields its payload unmasked byte for byte with its own opcode. Fragments are joined in order into one message of the first fragment's type, control frames between fragments are delivered without disturbing the message, and nothing of one message leaks into the next.",
    over=["inputs", "histories"], q="every header byte pair, payload length, mask and sequence of frames, for both roles",
    why="The tests exchange a few short text frames between the library's own client and server; rejected headers, 16/64-bit lengths from a foreign peer and control frames inside fragmented messages need frames no test sends.",
    files=["net/protocol/websocket/WebSocket.hpp", "utils/ByteUtils.hpp"],
    mech=[("frame parser", "net/protocol/websocket/WebSocket.hpp WebSocket::recvPacket"), ("length conversion", "utils/ByteUtils.hpp ByteUtils::byteswapIfLittle")],
    technique="path-sensitive abstract interpretation with a bit-field and byte-buffer domain; each path's conditions are compared with the set of valid headers",
    note="Header bytes are bit-field terms, stream positions linear terms; payload bytes stay symbolic and the unmasking loop is handled by induction.",
    design="""The two header bytes are symbolic; every shift and mask becomes a bit field with its range. On each path that accepts a frame the conditions must imply validity for each opcode the path admits,
on each path that throws (other than a failed read) they must exclude every valid header; the payload's start and length must equal what the header announces for the length class in force; the unmasking pass must
have applied key byte i mod 4 to byte i for exactly that length (loop induction over a progress ghost); what is returned must be that payload with the header's opcode (control), or the fragment it was appended to, which must be cleared when handed over.""")
TUS = ["net"]
ASSUMES = ["the payload length fits in memory", "resize gives exactly the requested length"]
H0, H1 = ("byte", C(0)), ("byte", C(1))
OP = bits(H0, 0, 4); RSV = bits(H0, 4, 3); FIN = bits(H0, 7, 1); MASK = bits(H1, 7, 1); LEN = bits(H1, 0, 7)
VARIANT = "NonVoidVariant<"

def isread(g, c):
    """a receive primitive of the socket or of this class: fills the span it is given"""
    if not g.coro or len(g.params) != 1 or "span<char" not in g.params[0][2] or "const char" in g.params[0][2]: return None
    if "HttpIO" in g.clsn or "HttpsIO" in g.clsn or g.cls == c or g.clsn == "HX::net::IO":
        if g.ret == "HX::coroutine::Task<>": return "full"
        if VARIANT in g.ret: return "part"
    return None

class R(Bits):
    c = None; frag = None
    def want_inline(s, g, fr):
        if isread(g, s.c): return False
        return super().want_inline(g, fr)
    def force_inline(s, g): return not isread(g, s.c) and (g.clsn == s.entry.clsn and g.raw.get("acc") != "public" or g.file == s.entry.file and (g.lam or not g.cls))
    def skey(s, st):
        e = st.env.get
        p = s.fragpath + ("*",); q = (e((G, "o0")), e((G, "c0")), fld(st, Loc(p), "opCode"), fld(st, Loc(p), "content")) if e((G, "app")) and e((G, "frame")) else ()
        return (super().skey(st), q, e((G, "pos")), e((G, "frame")), e((G, "had")), st.holds(T_truth(("ptr", s.fragpath))), frozenset(f for f in st.facts if any(x in (H0, H1) for x in walk_term(f))))
    def val(s, st, x):
        if isinstance(x, Loc) and x.p + ("content",) in st.env: return ("init", "HX::net::WebSocketPacket", fld(st, x, "opCode"), st.env[x.p + ("content",)])
        return super().val(st, x)
    def on_ctor(s, st, fr, n, name, p, args):
        if name.startswith(OPT) and len(args) == 1 and isinstance(args[0], Loc) and args[0].p + ("content",) in st.env: return [st.write(p, ("ctor", OPT, s.val(st, args[0])))]
        return super().on_ctor(st, fr, n, name, p, args)
    # ---------------- receive
    def on_await(s, st, fr, n, v):
        t = s.val(st, v)
        if t[0] == "lazy" and (k := isread(s.m.fns[t[1]], s.c)):
            a = t[3][0]; b = s.val(st, Loc(a[1]) if a[0] == "L" else a[1])
            return s.receive(st, fr, n, k, b)
        return super().on_await(st, fr, n, v)
    def receive(s, st, fr, n, kind, sp):
        b, S, E = view(sp); pos = st.env.get((G, "pos"), C(0)); ln = ladd(E, S, -1)
        if b[0] != "mem": s.bad("unknown-buffer", f"receives into {show(sp)}", st); return []
        out = []
        if kind == "part":
            if st.env.get((G, "frame"), C(0)) != C(0): s.frame_end(st, fr, n)
            if not is_c(ln) or ln[1] > 4: s.bad("header-size", f"reads {show(ln)} header bytes at once", st); return out
            for st in s.fresh_frame(st):
                sym = ("sym", ("io", n.id, fr.id)); st._kill_site(sym)
                idx = ("m", "index", sym); r = ("fld", sym, ("get", "0"))
                def case(st2, tag):
                    if st2 is not None: out.append((s.emit(st2.write((G, "out"), ("s", tag)), fr, n, ("header", tag)), sym))
                case(st.assume(T_cmp("==", idx, C(1))), "timeout")
                st = st.assume(T_cmp("==", idx, C(0)))
                case(st.assume(T_cmp("<", r, C(0))), "error"); case(st.assume(T_eq0(r)), "end")
                for k in range(1, ln[1] + 1):
                    x = st.assume(T_cmp("==", r, C(k)))
                    if x is not None: case(s.fill(x, b[1], S, C(0), C(k)).write((G, "pos"), C(k)), "ok")
            return out
        s.throw(st.write((G, "out"), ("s", "io")), fr, "io", n)
        return [(s.fill(st, b[1], S, pos, ln).write((G, "pos"), ladd(pos, ln)), ("void",))]
    def fresh_frame(s, st):
        """the two cases (message under assembly or not) at the start of a frame"""
        st = st.cp()
        st.facts = frozenset(f for f in st.facts if not any(isinstance(x, tuple) and x[:1] in (("byte",), ("be",), ("le",)) for x in walk_term(f)))
        for g in ("xor", "done", "frame", "app", "out", "pos"): st.env.pop((G, g), None)
        c = s.fragpath + ("*", "content")
        if st.read(c)[0] != "in": st = st.havoc(c[:-1], ("frame",))
        st.env[(G, "frame")] = C(1); out = []
        for v in (True, False):
            x = st.assume(("ptr", s.fragpath), v)
            if x is not None:
                x = x.write((G, "had"), C(v)); out.append(x.write((G, "c0"), x.read(c)).write((G, "o0"), x.read(c[:-1] + ("opCode",))) if v else x)
        return out
    def fill(s, st, p, off, pos, n):
        if is_c(n) and is_c(off) and n[1] <= 16:
            t = st.env.get(p)
            if off == C(0) and (t is None or t[0] in ("undef", "in")) and s.scalar(p): return st.write(p, ("le", pos, n[1]))
            if t is None or t[0] in ("undef", "in", "empty", "init"):
                for k in range(n[1]): st = st.write(p + (("[]", ladd(off, C(k))),), ("byte", ladd(pos, C(k))))
                return st
        if off != C(0): s.bad("offset", f"the payload is received at offset {show(off)} of its buffer", st)
        return st.write(p, ("pay", pos, n))
    def scalar(s, p): return isinstance(p[-1], tuple) and p[-1][0] == "v" and s.scalars.get(p[-1][2], False)
    def on_throw(s, st, fr, n):
        return [st if st.env.get((G, "out")) in (("s", "io"),) else st.write((G, "out"), ("s", "reject"))]
    # ---------------- the message under assembly
    def on_call(s, st, fr, n, name, obj, args):
        sh = name.split("::")[-1]
        if name.startswith("HX::container::") and sh == "get" and n.get("ta"):
            o = args[0] if args else obj
            if isinstance(o, Loc): return [(st, Loc(o.p + (("get", str(n.get("ta")[0])),)))]
        if name.startswith("HX::container::") and sh == "index" and obj is not None: return [(st, ("m", "index", s.val(st, obj)))]
        if isinstance(obj, Loc) and sh in ("operator+=", "append") and name.startswith("std::basic_string") and s.infrag(obj.p) and len(args) == 1:
            t = s.val(st, args[0]); old = fld(st, Loc(obj.p[:-1]), obj.p[-1])
            return [(st.write(obj.p, ("cat", old, t)).write((G, "app"), C(1)), ("void",))]
        return super().on_call(st, fr, n, name, obj, args)
    def frame_end(s, st, fr, n):
        """a frame was consumed and the next header is about to be read"""
        if st.env.get((G, "app")) is None: s.bad("resync", "starts reading a new header although the previous frame was neither delivered nor appended", st); return
        if not header_ok(None, s.bad, st, s.server, True): return
        if st.holds(T_cmp("==", FIN, C(0))) is not True: s.bad("final-held", "the final fragment of a message does not end it", st); return
        p = s.fragpath + ("*",)
        if st.holds(T_truth(("ptr", s.fragpath))) is not True: s.bad("fragment-lost", "the message under assembly is dropped before its final fragment", st); return
        frag_end(s.bad, s, st, fld(st, Loc(p), "opCode"), fld(st, Loc(p), "content"), s.server)
    def on_return(s, st, fr, n, v):
        if fr.depth == 0 and v is not None: return [st.write((G, "rop"), fld(st, v, "opCode")).write((G, "rct"), fld(st, v, "content"))]
    def infrag(s, p): return p[:len(s.fragpath)] == s.fragpath

def check(ctx):
    m = ctx.model("net")
    for r in ("an accepted header is valid; a rejected one is not", "the payload starts where the header ends and is as long as announced", "server: byte i of the payload is XORed with key byte i mod 4, for every i",
              "a control frame is returned with its own opcode and payload, the message untouched", "a final fragment returns the joined message and clears it; other fragments are appended"): ctx.rule(r)
    for f in m.fns.values():
        if f.clsn.split("<")[0] != "HX::net::WebSocket" or not f.coro or "optional<HX::net::WebSocketPacket" not in f.ret or f.params: continue
        one(ctx, m, f)
    swaps(ctx, m)
    ctx.at_least("frame parsers", 2); ctx.at_least("accepted paths", 8); ctx.at_least("rejecting paths", 8)

def one(ctx, m, f):
    e = R(m); c = cls_of(m, f); e.c = f.cls; server = "WebSocketModel::Server" in f.full or "true" in f.clsfull.split(",")[0] if hasattr(f, "clsfull") else "Server" in f.full
    opt = [x for x in fields_of(c, lambda t: t.startswith("std::optional<") and "WebSocketPacket" in t)]
    ctx.require(len(opt) == 1, "the message under assembly")
    e.fragpath = (("root", "this"), opt[0])
    e.scalars = {v["id"]: csize(m.strs[v["t"]]) for n in f.walk() if n.k == "DeclStmt" for v in n.get("vars", [])}
    for g in m.fns.values():
        if g.cls == f.cls: e.scalars.update({v["id"]: csize(m.strs[v["t"]]) for n in g.walk() if n.k == "DeclStmt" for v in n.get("vars", [])})
    role = "server" if server else "client"
    def bad(key, msg, st): ctx.violation(f"{key}:{role}", f"{role}: {msg}", f, path=steps(st))
    e.bad = bad; e.server = server
    outs = e.run(f, ())
    ctx.analysed(f); ctx.count("frame parsers")
    has0 = T_truth(("ptr", e.fragpath))
    for k, st, v in outs:
        out = st.env.get((G, "out"), ("s", "?"))[1]
        if k == "exc":
            if out != "reject": continue
            ctx.count("rejecting paths"); reject(bad, st, server); continue
        accept(ctx, bad, e, st, v, server, out)

def hasfrag(st): return st.env.get((G, "had"))
def valid(op, server, had, ctl):
    """the header conditions a frame with opcode op must meet"""
    need = [T_eq0(RSV), T_cmp("==", MASK, C(1 if server else 0))]
    if op >= 8: need += [T_cmp("==", FIN, C(1)), T_cmp("<=", LEN, C(125))]
    return need
def admits(st, op):
    s = st.assume(T_cmp("==", OP, C(op)))
    if s is None: return None
    # facts that pin the opcode otherwise
    for f in st.facts:
        if mentions(f, OP):
            t = subst_any(f, OP, C(op)) if f[0] not in ("ge0", "eq0", "ne0") else (T_ge0 if f[0] == "ge0" else T_eq0 if f[0] == "eq0" else lambda L: T_not(T_eq0(L)))(subst_any(f[1], OP, C(op)))
            if t[0] == "c" and not t[1]: return None
    return s
def with_all(st, ts):
    for t in ts:
        if st is None: return None
        st = st.assume(t)
    return st
def reject(bad, st, server):
    for op in range(16):
        s = admits(st, op)
        if s is None: continue
        if op in (0, 1, 2):
            had = st.env.get((G, "had"))
            if had is not None and had[1] != (op == 0): continue
        elif op not in (8, 9, 10): continue
        s = with_all(s, valid(op, server, None, None))
        if s is not None: bad(f"rejects-valid-{op}", f"a valid frame with opcode {op} is rejected", st); return
WHY = {RSV: "reserved bits set", MASK: "the wrong masking", FIN: "FIN clear", LEN: "more than 125 payload bytes"}
def header_ok(ctx, bad, st, server, data):
    """the accepted header is valid for every opcode the path admits"""
    had = st.env.get((G, "had"), C(0))[1]
    for op in range(16):
        s = admits(st, op)
        if s is None: continue
        if op not in (0, 1, 2, 8, 9, 10): bad("accepts-opcode", f"a frame with the reserved opcode {op} is accepted", st); return False
        if (op < 3) != data: bad("class", f"a frame with opcode {op} is handled as a {'data' if data else 'control'} frame", st); return False
        if data and bool(had) != (op == 0): bad("sequence", f"a frame with opcode {op} is accepted {'inside' if had else 'outside'} a fragmented message", st); return False
        for t in valid(op, server, None, None):
            if s.holds(t) is not True:
                w = next(v for k, v in WHY.items() if mentions(t, k)); bad("accepts-" + w.split()[-1], f"a frame with opcode {op} and {w} is accepted", st); return False
    return True
def payload_ok(bad, e, st, t, server):
    """t is the unmasked payload the header announces, and exactly the frame was consumed"""
    x = st.env.get((G, "xor"))
    for cond, hdr, L in ((T_cmp("<=", LEN, C(125)), 2, LEN), (T_cmp("==", LEN, C(126)), 4, ("be", C(2), 2)), (T_cmp("==", LEN, C(127)), 10, ("be", C(2), 8))):
        s = st.assume(cond)
        if s is None: continue
        key = tuple(("byte", C(hdr + i)) for i in range(4)); at = hdr + (4 if server else 0)
        end = st.env.get((G, "pos"), C(0))
        if not same(e, s, end, ladd(C(at), L)):
            bad("consumed", f"a frame of {at} header bytes and {show(L)} payload bytes consumes {show(end)} bytes", st); return
        y = t; xk = None
        if y[0] == "xored": xk = y[2]; y = y[1]
        if y[0] == "sized" and same(e, s, y[1], C(0)) or y[0] == "empty" and same(e, s, L, C(0)): continue
        if y[0] != "pay" or not same(e, s, y[1], C(at)) or not same(e, s, y[2], L): bad("payload", f"the payload should be {show(L)} bytes from stream offset {at}, but it is {show(t)}", st); return
        if not server:
            if xk is not None: bad("xor-client", "the unmasked payload of a server frame is XORed", st); return
            continue
        if xk is None and not same(e, s, L, C(0)): bad("xor", "the payload is delivered still masked", st); return
        if xk is not None:
            w = e.xor_done(s, x[0], key, L) if x else "the payload is not XORed with the mask"
            if w: bad("xor", w, st); return
def same(e, s, a, b): return a == b or unpack(a) == unpack(b) or e.prove(s, T_cmp("==", a, b)) or e.prove(s, T_cmp("==", unpack(a), unpack(b)))
def fld(st, v, f):
    t = st.read(v.p + (f,)) if isinstance(v, Loc) else v
    if isinstance(v, Loc):
        if t[0] == "fld" and t[1][0] == "init": t = t[1]
        elif t[0] != "fld": return t
        else: t = st.read(v.p)
    while t[0] == "ctor" and t[1] == OPT and len(t) == 3: t = t[2]
    if t[0] == "addr": return st.read(t[1] + (f,))
    if t[0] == "init" and len(t) > 3 and "WebSocketPacket" in str(t[1]): return t[2 if f == "opCode" else 3]
    if t[0] == "in": return ("in", t[1] + (f,), t[2])
    return item(t, f)
def unwhole(st, t):
    """a field of a whole value is the field itself"""
    if t[0] == "fld" and t[1][0] == "in": return ("in", t[1][1] + (t[2],), t[1][2])
    return t
def isop(t, st):
    return t == OP or is_c(t) and st.holds(T_cmp("==", OP, t)) is True
def frag_end(bad, e, st, op, content, server):
    """content / opcode of the message under assembly after appending this frame's payload"""
    had = st.env.get((G, "had"), C(0))[1]
    if content[0] != "cat": bad("not-appended", f"the payload of a data frame is not appended to the message: {show(content)[:80]}", st); return
    old, new = content[1:]
    if had and old != st.env.get((G, "c0")): bad("fragment-lost", f"the earlier fragments are not kept: {show(old)}", st); return
    if not had and old not in (("s", ""),) and old[0] not in ("empty",) and not (old[0] == "ctor" and len(old) == 2): bad("leak", f"a new message does not start empty: {show(old)[:80]}", st); return
    if had and unwhole(st, op) != st.env.get((G, "o0")) or not had and not isop(op, st): bad("message-type", f"the message type is {show(op)[:80]}, not that of the first fragment", st); return
    payload_ok(bad, e, st, new, server)
def accept(ctx, bad, e, st, v, server, out):
    t = v if isinstance(v, tuple) else st.read(v.p)
    if "nullopt" in repr(t)[:60] or t[0] == "empty":
        if out == "ok": bad("dropped", "a frame was read but nothing is returned", st)
        return
    if out != "ok": bad("invented", f"a message is returned although reading the header ended with {out}", st); return
    ctx.count("accepted paths")
    op, content = st.env.get((G, "rop"), ("?",)), st.env.get((G, "rct"), ("?",))
    data = st.env.get((G, "app")) is not None
    if not header_ok(ctx, bad, st, server, data): return
    has = st.holds(T_truth(("ptr", e.fragpath))); had = st.env.get((G, "had"), C(0))[1]
    if not data:
        if not isop(op, st): bad("opcode", f"a control frame is returned with opcode {show(op)[:80]}", st)
        if has is not bool(had) or had and st.read(e.fragpath + ("*", "content")) != st.env.get((G, "c0")): bad("disturbed", "a control frame changes the message under assembly", st)
        payload_ok(bad, e, st, content, server); return
    if st.holds(T_cmp("==", FIN, C(1))) is not True: bad("early", "a message is returned before its final fragment", st); return
    if has is not False: bad("not-cleared", "the finished message is not cleared: the next one would be appended to it", st); return
    frag_end(bad, e, st, op, content, server)
class Swap(Bits):
    def on_call(s, st, fr, n, name, obj, args):
        g = s.m.fns.get(n.get("fn"))
        if fr.depth == 0 and args and (g is not None and "ByteUtils" in g.n or name in ("std::byteswap", "__builtin_bswap")): return [(st, ("swapped", s.val(st, args[0])))]
        return super().on_call(st, fr, n, name, obj, args)
    def on_return(s, st, fr, n, v):
        return [st.write((G, "whole"), v if isinstance(v, tuple) else st.read(v.p))] if fr.depth == 0 and v is not None else None
def swaps(ctx, m):
    """the byte order conversion reverses all bytes of every instantiated integer"""
    for g in m.fns.values():
        if not g.n.startswith("HX::utils::ByteUtils::") or len(g.params) != 1 or g.body is None: continue
        k = csize(g.params[0][2])
        if not k or k < 2: continue
        e = Swap(m); e.unroll = 16; e.local = False; ctx.analysed(g); ctx.count("byte order conversions")
        p = (("v", 1, g.params[0][0], g.params[0][1]),)
        for kind, st, v in e.run(g, ()):
            if kind != "ret": continue
            w = st.env.get((G, "whole"), ("?",))
            if w == ("swapped", St().read(p)): continue
            for i in range(k):
                x = st.read(p + (("[]", C(i)),))
                if x != St().read(p + (("[]", C(k - 1 - i)),)):
                    ctx.violation(f"byteswap:{g.short}:{k}", f"byte {i} of the converted {k}-byte integer is {show(x)}, not byte {k - 1 - i} of the original", g, path=steps(st)); break
