"""P01: the SOCKS5 client speaks RFC 1928/1929 and leaves the stream where the target's bytes begin."""
import re
from bits import *
TUS = ["net"]
META = dict(title="The SOCKS5 client follows the protocol and reads exactly the proxy's answers",
    statement="Connecting through a SOCKS5 proxy sends the greeting, the credentials if there are any, and a CONNECT request for the target's own host and port, each field preceded by a length byte that can hold it. Every answer is read whole, whatever its address type, so that the next byte read is the target's, and goes on only after an answer that is known to accept; a proxy that answers correctly is not refused.",
    over=["inputs", "histories"], q="every credential, host and port, every answer of the proxy",
    why="No test talks to a proxy; answers come in three address types and any of the four messages may be refused.",
    files=["net/protocol/proxy/Socks5Proxy.hpp"],
    mech=[("conversation", "net/protocol/proxy/Socks5Proxy.hpp connect, handshake, subNegotiation, socks5ConnectRequest")],
    technique="path-sensitive abstract interpretation recording the conversation as byte sequences; each path is checked against the protocol's automaton (RFC 1928, RFC 1929)",
    note="What the URL helpers extract (host, port, credentials) is taken as given; only that they are applied to the right URL is checked.",
    design="""connect is run with its helpers inlined and every full send and full read of the socket recorded: sends as sequences of byte terms and texts, reads with the position of each byte in the proxy's stream, so that a byte compared later is
known by its position. On each path that returns, the conversation must be the protocol's: version, methods that fit the credentials, the selected method known to be one offered, the credentials with provably sufficient length bytes and an
answer known to be 0, the request with host, length and port bytes in network order, the answer's code known to be 0 and as many bytes read as its address type, known on the path, prescribes. On each path that throws, the answers so far
must be inconsistent with correct ones, or a field too long to be sent.""")
ASSUMES = ["full sends and reads transfer everything (I01)", "the URL helpers extract host, port and credentials correctly"]
EV = (G, "talk"); POS = (G, "rxpos"); CRED = (("root", "cred"),); HAS = T_truth(("in", (("root", "hasuser"),), ()))
class Stop(Exception): pass
def tlen(t): return {"b": lambda: C(1), "t": lambda: ladd(t[3], t[2], -1), "fill": lambda: t[1]}[t[0]]()
def total(q):
    n = C(0)
    for t in q: n = ladd(n, tlen(t))
    return n
class Talk(Bits):
    bad = None
    def skey(s, st): return (st.env.get(EV), st.env.get(POS), st.facts, frozenset((k, v) for k, v in st.env.items() if k[:2] == (G, "sb")))
    def merge_out(s, sts, *a): return sts
    def force_inline(s, g): return g.file == s.entry.file
    def run_frame(s, fr, sts):
        if fr.depth == 0: s.url = St().read((("root", fr.fn.params[0][1], fr.fn.params[0][0]),))
        if fr.depth == 0:
            for p in fr.fn.params[:2]: sts = [x.write((("v", fr.id, p[0], p[1]),), x.read((("root", p[1], p[0]),))) for x in sts]
        return super().run_frame(fr, sts)
    def fail(s, st, n, key, msg): s.bad(key, msg, s.entry, n.l if n is not None else s.entry.line, st.tr); raise Stop
    def ev_ImplicitCastExpr(s, n, st, fr):
        r = super().ev_ImplicitCastExpr(n, st, fr)
        if n.s_("ck") == "LValueToRValue" and n.t.replace("const ", "") in ("char", "signed char", "int8_t"):
            r = [(x, ("schr",) + w[1:] if isinstance(w := s.val(x, v), tuple) and w[0] == "byte" else v) for x, v in r]
        return r
    ev_CXXStaticCastExpr = ev_CStyleCastExpr = ev_CXXFunctionalCastExpr = ev_CXXReinterpretCastExpr = ev_CXXConstCastExpr = ev_ImplicitCastExpr
    def trunc(s, st, v, w, frm): return ("byte",) + v[1:] if v[0] == "schr" and w == 8 else super().trunc(st, v, w, frm)
    # ---- buffers
    def seq(s, st, p):
        q = st.env.get((G, "sb", p))
        if q is not None: return q[1:]
        t = st.read(p)
        if t[0] in ("empty", "ctor") and len(t) <= 3: return ()
        if t[0] == "sized": return (("fill", t[1]),)
        return None
    def put(s, st, p, q): st = st.cp(); st.env[(G, "sb", p)] = ("seq",) + q; return st
    def sizeat(s, st, p):
        q = st.env.get((G, "sb", p))
        if q is None and st.read(p)[0] == "sized": return st.read(p)[1]
        return total(q[1:]) if q is not None else super().sizeat(st, p)
    def toks(s, st, v, n=None):
        """the bytes of a value appended"""
        if isinstance(v, Loc) and (q := s.seq(st, v.p)) is not None and st.read(v.p)[0] != "sv": return q
        v = s.val(st, v)
        if v[0] == "s": return tuple(("b", C(b)) for b in v[1].encode("latin1"))
        if n is not None:
            q, o = s.pointer(v)
            if q is not None and is_c(n):
                t = st.read(q)
                if t[0] == "be16" and o == C(0) and n == C(2): return s.be(t)
                el = [s.element(st, q, ladd(o, C(k))) or st.read(q + (("[]", ladd(o, C(k))),)) for k in range(n[1])] if n[1] <= 64 else None
                if el: return tuple(("b", x) for x in el)
            b, o = ptr(v); return (("t", b, o, ladd(o, n)),)
        return (("t",) + tuple(view(v)),)
    def be(s, t): return (("b", bits(t[1], 8, 8)), ("b", bits(t[1], 0, 8)))
    def patch(s, st, n, p, off, new):
        q = list(s.seq(st, p)); o = C(0); out = []; done = False
        for t in q:
            k = tlen(t)
            if not done and t[0] == "fill" and is_c(ladd(off, o, -1)) and is_c(k) and 0 <= (d := ladd(off, o, -1)[1]) and d + len(new) <= k[1]:
                out += [("fill", C(d))] * (d > 0) + list(new) + [("fill", C(k[1] - d - len(new)))] * (k[1] > d + len(new)); done = True
            else: out.append(t)
            o = ladd(o, k)
        if not done: s.fail(st, n, "buffer", f"writes position {show(off)} of a message, which has no room there")
        return s.put(st, p, tuple(out))
    def on_ctor(s, st, fr, n, name, p, args):
        base = name.removesuffix("::(ctor)")
        if base.endswith("UrlInfoExtractor"): return [st.write(p, ("urlinfo", s.val(st, args[0])))]
        if base == "std::span" and len(args) == 1 and isinstance(args[0], Loc) and (d := re.search(r"\[(\d+)\]", call_args(n)[0].t)):
            return [st.write(p, ("sv", ("mem", args[0].p), C(0), C(int(d[1]))))]
        if base == "std::basic_string" and len(args) in (1, 2) and isinstance(args[0], Loc) and (q := st.env.get((G, "sb", args[0].p))) is not None: return [s.put(st.write(p, ("ctor", base)), p, q[1:])]
        if base == "std::basic_string" and len(args) >= 2 and csize(call_args(n)[0].t): return [st.write(p, ("sized", s.val(st, args[0])))]
        return super().on_ctor(st, fr, n, name, p, args)
    def viewcall(s, n, st, fr, name, short, obj, args, argn):
        if name.startswith("std::optional::") and isinstance(obj, Loc) and st.read(obj.p)[0] == "optuser" or not isinstance(obj, Loc) and obj is not None and obj[0] == "optuser":
            if short in ("has_value", "operator bool"): return [(st, HAS)]
            if short in ("operator->",): return [(st, ("addr", CRED))]
            if short in ("operator*", "value"): return [(st, Loc(CRED))]
        if name.startswith("std::basic_string::") and isinstance(obj, Loc) and (q := s.seq(st, obj.p)) is not None:
            p = obj.p
            if short in ("operator+=", "push_back", "append"):
                if len(args) == 1 and (argn[0].t.replace("const ", "") in ("char", "int", "unsigned char") if argn else short == "push_back"): return [(s.put(st, p, q + (("b", s.val(st, args[0])),)), obj)]
                if len(args) == 1: return [(s.put(st, p, q + s.toks(st, args[0])), obj)]
                if len(args) == 2 and argn[0].t.endswith("*"): return [(s.put(st, p, q + s.toks(st, args[0], s.val(st, args[1]))), obj)]
                if len(args) == 2:
                    k, b = (s.val(st, a) for a in args); return [(s.put(st, p, q + ((("b", b),) * k[1] if is_c(k) and k[1] <= 16 and b != C(0) else (("fill", k),))), obj)]
            if short == "resize":
                d = ladd(s.val(st, args[0]), total(q), -1)
                if is_c(d) and d[1] >= 0: return [(s.put(st, p, q + ((("fill", d),) if d[1] else ())), ("void",))]
                return [(s.put(st.write(p, ("ctor", "std::basic_string")), p, (("fill", s.val(st, args[0])),)), ("void",))]
            if short in ("reserve", "shrink_to_fit"): return [(st, ("void",))]
            if short == "clear": return [(s.put(st, p, ()), ("void",))]
            if short in ("size", "length"): return [(st, total(q))]
            if short in ("data", "begin", "c_str"): return [(st, mkptr(("sbuf", p), C(0)))]
            if short in ("operator[]", "at"): return [(st, Loc((("*", mkptr(("sbuf", p), s.val(st, args[0]))),)))]
            if short == "back" : return [(st, Loc((("*", mkptr(("sbuf", p), ladd(total(q), C(-1)))),)))]
        return super().viewcall(n, st, fr, name, short, obj, args, argn)
    def on_assign(s, st, fr, n, p, t):
        if p and isinstance(p[0], tuple) and p[0][0] == "*":
            b, o = ptr(p[0][1])
            if len(p) == 2 and isinstance(p[1], tuple) and p[1][0] == "[]": o = ladd(o, p[1][1])
            if isinstance(b, tuple) and b[0] == "sbuf":
                st = st.cp(); st.env.pop(p, None)
                return [s.patch(st, n, b[1], o, s.be(t) if t[0] == "be16" else (("b", t),))]
        return super().on_assign(st, fr, n, p, t)
    def on_call(s, st, fr, n, name, obj, args):
        sh = name.split("::")[-1]; v = lambda k: s.val(st, args[k])
        if sh == "extractUser":
            if view(v(0)) != view(s.url): s.fail(st, n, "source", "the credentials are not taken from the proxy's own address")
        if sh == "extractUser": return [(st, ("optuser", v(0)))]
        if sh in ("htons", "__bswap_16", "__builtin_bswap16"): return [(st, ("be16", v(0)))]
        if sh == "getProtocolPort": return [(st, ("portof", v(0)))]
        if name.endswith("UrlInfoExtractor::getHostname"): u = st.read(obj.p)[1]; return [(st, ("sv", ("host", u), C(0), ("hostlen", u)))]
        if name.endswith("UrlInfoExtractor::getService"): return [(st, ("sv", ("service", st.read(obj.p)[1]), C(0), ("svclen",)))]
        if sh == "memcpy" and len(args) == 3:
            b, o = ptr(v(0))
            if isinstance(b, tuple) and b[0] == "sbuf": return [(s.patch(st, n, b[1], o, s.toks(st, args[1], v(2))), v(0))]
        return super().on_call(st, fr, n, name, obj, args)
    def on_await(s, st, fr, n, v):
        t = s.val(st, v)
        if t[0] == "lazy":
            g = s.m.fns[t[1]]
            if g.file != s.entry.file:
                a = t[3][0] if t[3] else None
                sp = s.val(st, Loc(a[1]) if a and a[0] == "L" else a[1]) if a else None
                if g.short in ("fullySend",): return s.sent(st, n, sp)
                if g.short in ("fullyRecv",) and sp is not None: return s.got(st, n, sp)
                if g.short in ("recvStruct",) or "recv" in g.short.lower() or "send" in g.short.lower(): s.fail(st, n, "io", f"{g.short} may transfer only part of a message")
        return super().on_await(st, fr, n, v)
    def sent(s, st, n, sp):
        s.cnt("messages sent"); b, S, E = view(sp); q = None
        if b[0] == "mem":
            q = s.seq(st, b[1]) if (G, "sb", b[1]) in st.env else None
            if q is not None: q = q if S == C(0) and ladd(E, total(q), -1) == C(0) else None
            elif is_c(S) and is_c(E) and E[1] - S[1] <= 64: q = tuple(("b", s.element(st, b[1], C(k)) or st.read(b[1] + (("[]", C(k)),))) for k in range(S[1], E[1]))
        elif b[0] == "sbuf":
            q = s.seq(st, b[1]); q = q if S == C(0) and ladd(E, total(q), -1) == C(0) else None
        else: q = (("t", b, S, E),)
        if q is None: s.fail(st, n, "part", "part of a message is sent")
        st = st.cp(); st.env[EV] = st.env.get(EV, ("seq",)) + (("send",) + q,)
        return [(st, ("void",))]
    def got(s, st, n, sp):
        s.cnt("replies read"); b, S, E = view(sp); k = ladd(E, S, -1); pos = st.env.get(POS, C(0)); st = st.cp()
        if b[0] == "mem" and is_c(S) and is_c(k) and k[1] <= 64 and (G, "sb", b[1]) not in st.env:
            if k[1] == 1 and S == C(0) and st.read(b[1])[0] not in ("undef", "init", "sized"): pass
            for i in range(k[1]): st = st.write(b[1] + (("[]", ladd(S, C(i))),), ("byte", ladd(pos, C(i))))
        elif b[0] == "mem" and (q := s.seq(st, b[1])) is not None and is_c(k) and k[1] <= 300: st = s.put(st, b[1], tuple(("b", ("byte", ladd(pos, C(i)))) for i in range(k[1])))
        st.env[POS] = ladd(pos, k); st.env[EV] = st.env.get(EV, ("seq",)) + (("recv", k),)
        return [(st, ("void",))]
def same(e, st, a, b): return a == b or e.prove(st, T_cmp("==", a, b))
def facts_of(e, st, pos, v): return any(e.prove(st, T_cmp("==", (h, pos), C(v))) for h in ("schr", "byte"))
def assumed(st, pos, v):
    for h in ("schr", "byte"):
        st = st.assume(T_cmp("==", (h, pos), C(v)))
        if st is None: return None
    return st
def conversation(e, st, url, target, whole, no):
    """checks the conversation; yields the states in which the proxy has answered correctly so far (for refusals)"""
    ev = []
    for x in st.env.get(EV, ("seq",))[1:]:
        if ev and ev[-1][0] == x[0]: ev[-1] = ("send",) + ev[-1][1:] + x[1:] if x[0] == "send" else ("recv", ladd(ev[-1][1], x[1]))
        else: ev.append(x)
    pos = C(0); i = 0
    hasu = st.holds(HAS) is True; nou = st.holds(T_not(HAS)) is True
    def take(kind):
        nonlocal i
        if i >= len(ev): return None
        if ev[i][0] != kind: no("order", f"{'sends' if ev[i][0] == 'send' else 'reads'} when it is to {'read the reply' if kind == 'recv' else 'send'}"); raise Stop
        i += 1; return ev[i - 1][1:]
    def octet(t): return bits(t[1], 0, 8) if t[0] == "b" else None
    def need(c, key, msg):
        if not c: no(key, msg); raise Stop
    def field(q, b, S, E, what):
        """q starts with length byte and the text"""
        n = ladd(E, S, -1)
        need(len(q) >= 1 and q[0][0] == "b" and same(e, st, q[0][1], n), "length", f"the {what} is not preceded by its length")
        need(e.prove(st, T_cmp("<=", n, C(255))), "toolong", f"the {what} may be longer than the 255 bytes its length byte can say")
        need(len(q) >= 2 and q[1] == ("t", b, S, E), "field", f"the {what} is not sent as it is")
        return q[2:]
    q = take("send")
    if q is None: return st
    need(len(q) >= 3 and octet(q[0]) == C(5) and is_c(octet(q[1])) and len(q) == 2 + octet(q[1])[1], "greeting", "the greeting is not version 5, a count and that many methods")
    ms = [octet(t) for t in q[2:]]
    need(all(m in (C(0), C(2)) for m in ms) and (hasu or C(2) not in ms) and (nou or C(2) in ms), "method", "the methods offered do not fit the credentials at hand")
    r = take("recv")
    if r is None: return assumed(assumed(st, C(0), 5), C(1), ms[-1][1]) if not whole and assumed(st, C(0), 5) else st
    if i == len(ev) and not whole:
        x = assumed(st, C(0), 5); return next((y for m in ms if x is not None and (y := assumed(x, C(1), m[1])) is not None), None)
    need(r[0] == C(2), "greeting-reply", "the reply to the greeting is two bytes, not what is read")
    need(facts_of(e, st, C(0), 5), "version", "the reply's version is not checked")
    m = next((m for m in ms if facts_of(e, st, C(1), m[1])), None)
    need(m is not None, "selected", "the method the proxy selected is not checked against the one offered")
    pos = C(2)
    if m == C(2):
        q = take("send")
        if q is None: need(not whole, "auth", "the credentials asked for are not sent"); return st
        need(q and octet(q[0]) == C(1), "auth", "the sub-negotiation does not start with version 1")
        q = q[1:]
        for f in ("account", "password"): q = field(q, *view(st.read(CRED + (f,))), f)
        need(not q, "auth", "something follows the password")
        r = take("recv")
        if r is None: need(not whole, "auth-reply", "the answer to the credentials is not read"); return st
        if i == len(ev) and not whole: return assumed(st, C(3), 0)
        need(r[0] == C(2), "auth-reply", "the answer to the credentials is two bytes, not what is read")
        need(facts_of(e, st, C(3), 0), "accepted", "it goes on without knowing that the credentials were accepted")
        pos = C(4)
    q = take("send")
    if q is None: need(not whole, "request", "the connection is not requested"); return st
    need(len(q) > 4 and [octet(t) for t in q[:4]] == [C(5), C(1), C(0), C(3)], "request", "the request is not CONNECT by name")
    q = field(q[4:], ("host", target), C(0), ("hostlen", target), "host name")
    port = ("portof", ("sv", ("service", target), C(0), ("svclen",)))
    need(len(q) == 2 and [octet(t) for t in q] == [bits(port, 8, 8), bits(port, 0, 8)], "port", "the request does not end with the target's port in network byte order")
    r = take("recv")
    if r is None: need(not whole, "reply", "the answer to the request is not read"); return st
    if not whole:
        x = assumed(st, ladd(pos, C(1)), 0)
        return next((y for a in (1, 3, 4) if x is not None and (y := assumed(x, ladd(pos, C(3)), a)) is not None), None)
    need(facts_of(e, st, ladd(pos, C(1)), 0), "granted", "it goes on without knowing that the connection was granted")
    at = ladd(pos, C(3)); n = r[0]
    k = next((a for a in (1, 3, 4) if facts_of(e, st, at, a)), None)
    want = {1: C(10), 4: C(22), 3: ladd(("byte", ladd(pos, C(4))), C(7))}.get(k)
    need(want is not None and same(e, st, n, want), "rest", "what is left of the proxy's answer is taken for the target's bytes (or the other way round): " + (f"address type {k} makes it {show(want)} bytes, {show(n)} are read" if k else f"{show(n)} bytes are read whatever the address type"))
    need(i == len(ev), "after", "more is exchanged after the answer")
    return st
ONLY = None
def check(ctx):
    m = ctx.model("net")
    ctx.rule("greeting, sub-negotiation and request are as the protocol wants, each answer is read whole and checked, and good answers are not refused")
    for f in sorted((f for f in m.fns.values() if f.body is not None and f.full.endswith("Socks5Proxy::connect")), key=lambda f: f.full):
        e = Talk(m); e.cnt = ctx.count; e.budget = 200000; e.entry = f; ctx.analysed(f); ctx.count("functions")
        e.bad = lambda key, msg, fn, line, path: ctx.violation(f"{key}", msg, fn=fn, line=line, path=path or ())
        url, target = (St().read((("root", p[1], p[0]),)) for p in f.params[:2])
        try:
            for kind, x, v in e.run(f, (), St()):
                ctx.count("paths")
                def no(key, msg): e.bad(key, msg, f, f.line, x.tr)
                y = conversation(e, x, url, target, kind == "ret", no)
                if kind != "ret" and y is not None and not any(e.prove(x, T_cmp(">", ladd(b[2], b[1], -1), C(255))) for b in [view(x.read(CRED + ("account",))), view(x.read(CRED + ("password",))), (0, C(0), ("hostlen", target))]):
                    no("refused", "a proxy that answers correctly may be refused"); raise Stop
        except Stop: pass
    ctx.at_least("functions", 1); ctx.at_least("paths", 6); ctx.at_least("messages sent", 3); ctx.at_least("replies read", 3)
