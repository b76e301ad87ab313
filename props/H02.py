"""Independence of successive requests on a connection."""
from views import *
META = dict(title="Requests on one connection are served in turn and do not influence each other",
    statement="On a connection, the next request is read only after the endpoint of the previous one has run, the part of its body that nobody read has been consumed, and everything the request and response objects hold about it (lines, headers, body, path parameters, progress flags, remaining length) has been reset; bytes that arrived early are kept. After a head that could not be read, an exception, 'Connection: close' or a server stop, no further request is read from the connection.",
    over=["inputs", "histories"], q="every sequence of requests on a kept-alive connection",
    why="Left-over state shows only for particular pairs of successive requests (length then chunked, parameter route then plain route, unread body), which tests sample sparsely.",
    files=["net/server/ConnectionHandler.hpp", "net/protocol/http/Request.hpp", "net/protocol/http/Response.hpp"],
    mech=[("request loop", "net/server/ConnectionHandler.hpp start"), ("reset of the request", "net/protocol/http/Request.hpp clear"), ("reset of the response", "net/protocol/http/Response.hpp clear")],
    technique="path-sensitive abstract interpretation: reset completeness over all members, event automaton over the connection loop",
    note="Reset means the member's empty value on every path of clear(); the receive buffer and references are the only members exempt. An endpoint that swallows a failed body read is outside the property.",
    design="""clear() of both classes is executed on every path; at each normal exit every data member except references and the receive buffer must hold its empty value (cleared, reset, assigned an empty value, zero, or end() for an iterator), set after the
body was drained; the body must be drained exactly on the paths where it was not read before, a failed drain must not be swallowed, and the receive buffer must stay untouched. The connection loop is executed with the outcomes of reading the head, running the
endpoint, the "close" comparison and the stop flag as events: between two heads there must be the endpoint, a negative "close" test (or no such header), a positive running test and both resets; after a failed head or an exception there must be none.""")
TUS = ["net"]
ASSUMES = ["an endpoint does not swallow the exception of a body read that failed midway"]
G = ("ghost",); THIS = (("root", "this"),)
BUF = ("ArrayBuf",)
EMPTY = ("init", "ctor")

class Reset(Views):
    lib_throws = lambda s, n, x: False
    broken = ()
    def mark(s, st, p, v):
        if p[:1] == THIS and len(p) >= 2 and p[1] in s.names:
            st = st.cp(); st.env[(G, "reset", p[1])] = C(v)
        return st
    def on_call(s, st, fr, n, name, obj, args):
        sh = name.split("::")[-1]
        if isinstance(obj, Loc) and obj.p[:1] == THIS and len(obj.p) >= 2 and not n.get("fn") in s.m.fns or isinstance(obj, Loc) and obj.p[:1] == THIS and len(obj.p) == 2 and obj.p[1] in s.bufs:
            f = obj.p[1]
            if f in s.bufs:
                if sh in ("clear", "moveToHead", "resetSize", "addSize"): s.bad("buffer-dropped", f"clear() calls {sh}() on the receive buffer, which may hold the beginning of the next message", st)
                return [(st, ("m", sh, st.read(obj.p)))]
            if sh in ("clear", "reset") and len(obj.p) == 2:
                r = super().on_call(st, fr, n, name, obj, args)
                if r is None: r = s.extern(n, st, fr, name, sh, obj, args, call_args(n))
                return [(s.mark(x, obj.p, 1), v) for x, v in r]
            if sh == "swap" or sh in ("append", "push_back", "emplace_back", "insert", "emplace", "assign", "resize", "try_emplace", "operator+="): st = s.mark(st, obj.p, 0)
            if sh == "resize" and s.val(st, args[0]) == C(0) and len(obj.p) == 2: st = s.mark(st, obj.p, 1)
        return super().on_call(st, fr, n, name, obj, args)
    def empty(s, t, ty):
        if t[0] == "c": return t[1] == 0
        if t[0] == "s": return t[1] == ""
        if t[0] in EMPTY: return len([x for x in t[1:] if isinstance(x, tuple) and s.empty(x, ty) is not True]) == 0
        if t[0] == "empty": return True
        if t[0] == "m" and t[1] in ("end", "cend"): return True
        if t[0] == "sv": return ladd(t[3], t[2], -1) == C(0)
        if t[0] == "u" and t[1] in ("null", "nullopt"): return True
        return "nullopt" in repr(t)
    def on_assign(s, st, fr, n, p, t):
        r = super().on_assign(st, fr, n, p, t)
        if p[:1] == THIS and len(p) >= 2 and p[1] in s.names:
            v = s.empty(t, s.names[p[1]]) and (len(p) == 2 or p[2:] == ("*",))
            return [s.mark(x, p, int(bool(v))) for x in (r if r is not None else [st])]
        return r
    def on_await(s, st, fr, n, v):
        t = s.val(st, v)
        g = s.m.fns.get(t[1]) if t[0] == "lazy" else None
        if g is not None and g.short in ("parseBody", "_drain", "discardBody") or g is not None and drains(s.m, g):
            x = s.emit(st, fr, n, ("drain",)).cp()
            for f in s.names: x.env[(G, "reset", f)] = C(0)
            x = x.havoc(THIS, ("drain", n.id))
            y = x.cp(); y.env[(G, "broken")] = C(1); s.throw(y, fr, "?", n)
            return [(x, ("void",))]
        return super().on_await(st, fr, n, v)
    def want_inline(s, fn, fr): return False if drains(s.m, fn) else super().want_inline(fn, fr)
    def skey(s, st): return st.env.get((G, "broken"))
def drains(m, g): return g.short == "parseBody" or g.clsn.endswith("HttpRequest") and g.coro and any(is_call(n) and n.get("fn") in m.fns and m.fns[n.get("fn")].short in ("_parserReqBody",) for n in g.walk())

def resets(ctx, m):
    for f in m.fns.values():
        if f.short != "clear" or f.body is None or not f.clsn.endswith(("net::HttpRequest", "net::HttpResponse")): continue
        c = cls_of(m, f); ctx.require(c is not None, "class of clear()")
        ctx.analysed(f); ctx.count("reset functions")
        names = {}; bufs = []
        for x in c.fields:
            ty = x["t"].strip()
            if ty.endswith("&"): continue
            if "ArrayBuf" in ty: bufs.append(x["n"]); continue
            names[x["n"]] = ty
        e = Reset(m); e.names, e.bufs = names, bufs
        def bad(k, msg, st): ctx.violation(k, msg, f, path=steps(st))
        e.bad = bad
        req = f.clsn.endswith("HttpRequest")
        flag = [k for k in names if "omplete" in k and "ody" in k] if req else []
        for k, st, v in e.run(f, ()):
            if k != "ret": continue
            ctx.count("reset paths")
            for x in names:
                ctx.count("member obligations")
                if st.env.get((G, "reset", x)) != C(1):
                    bad("kept", f"{x} still holds what the previous message left in it after {f.clsn.split('::')[-1]}::clear()", st)
            if st.env.get((G, "broken")) is not None: bad("drain-swallowed", "a body that could not be read to its end is ignored, and the next head is read from the middle of it", st)
            if req:
                was = None
                for y in flag:
                    was = St(mon=()).read(THIS + (y,))
                    if st.holds(("ne0", lin(was))) is True and ("drain",) in st.mon: bad("drained-twice", "a body that was already read is read again", st)
                    if st.holds(("ne0", lin(was))) is not True and ("drain",) not in st.mon: bad("not-drained", "the body nobody read is not consumed, so the next head is read from the middle of it", st)

class Flag(Views):
    lib_throws = lambda s, n, x: False
    def on_call(s, st, fr, n, name, obj, args):
        if name.split("::")[-1] in ("_parserReqBody", "_coParserReqBody"):
            st = s.emit(st, fr, n, ("parse",))
            if not any(st.read(THIS + (y,)) == C(1) for y in s.flag): s.bad("flag-unset", "the body is read without noting that it was read, so it is read again before the next request", st)
            st = st.havoc(THIS + ("_body",), ("b", n.id)).havoc(THIS + ("_recvBuf",), ("r", n.id)).havoc(THIS + ("_remainingBodyLen",), ("l", n.id))
            return s.fresh_pair(st, fr, n)
        return super().on_call(st, fr, n, name, obj, args)
    def fresh_pair(s, st, fr, n):
        sym = ("u", "left", n.id); st = st.cp(); st._kill_site(sym); return [(st, sym)]
    def on_await(s, st, fr, n, v):
        t = s.val(st, v)
        if t[:2] == ("u", "left"): return [(st, t)]
        return super().on_await(st, fr, n, v)
def flags(ctx, m):
    for f in m.fns.values():
        if f.body is None or not f.clsn.endswith("net::HttpRequest") or not drains(m, f) or f.lam: continue
        c = cls_of(m, f); e = Flag(m); ctx.analysed(f); ctx.count("body readers")
        e.flag = [x["n"] for x in c.fields if "omplete" in x["n"] and "ody" in x["n"]]
        if not e.flag: continue
        def bad(k, msg, st): ctx.violation(k, msg, f, path=steps(st))
        e.bad = bad
        for k, st, v in e.run(f, ()):
            if ("parse",) in st.mon and k == "ret" and not any(st.read(THIS + (y,)) == C(1) for y in e.flag): bad("flag-unset", "a body that was read is not marked as read, so the next request is read away as its body", st)
            if ("parse",) in st.mon and not all(st.holds(T_eq0(St(mon=()).read(THIS + (y,)))) is True for y in e.flag): bad("flag-ignored", "a body that was already read is read again", st)

class Loop(Views):
    lib_throws = lambda s, n, x: False
    rep = 3
    def branch2(s, st, fr, n, name):
        out = []; sym = ("u", name, n.id)
        st = st.cp(); st._kill_site(sym)
        for v in (1, 0):
            x = s.emit(st, fr, n, (name, v)).assume(("ne0", lin(sym)) if v else ("eq0", lin(sym)))
            if x is not None: out.append((x, sym))
        return out
    def on_call(s, st, fr, n, name, obj, args):
        sh = name.split("::")[-1]; g = s.m.fns.get(n.get("fn"))
        if sh == "operator()" and len(args) == 2 and n.t.startswith("HX::coroutine::Task"): return [(st, ("run",))]
        if sh == "parserReqHead": return [(st.havoc(obj.p, ("head", n.id)), ("head",))]
        if sh == "clear" and "HttpRequest" in name: return [(st.havoc(obj.p, ("clear", n.id)), ("creq",))]
        if sh == "clear" and "HttpResponse" in name: return [(s.emit(st, fr, n, ("cres",)).havoc(obj.p, ("clear", n.id)), ("void",))]
        if sh in ("load", "operator bool") and "atomic" in name: return s.branch2(st, fr, n, "running")
        if sh == "test" and "atomic" in name: return s.branch2(st, fr, n, "running")
        return super().on_call(st, fr, n, name, obj, args)
    def on_await(s, st, fr, n, v):
        t = s.val(st, v)
        if t == ("head",):
            s.throw(s.emit(st, fr, n, ("head", 2)), fr, "?", n)
            return s.branch2(st, fr, n, "head")
        if t == ("run",):
            s.throw(s.emit(st, fr, n, ("failed",)), fr, "?", n)
            return [(s.emit(st, fr, n, ("ran",)), ("void",))]
        if t == ("creq",):
            s.throw(s.emit(st, fr, n, ("failed",)), fr, "?", n)
            return [(s.emit(st, fr, n, ("creq",)), ("void",))]
        return super().on_await(st, fr, n, v)
    def on_branch(s, st, fr, n, t, val):
        if t[0] in ("ne0", "eq0") and any(isinstance(x, tuple) and x[:1] == ("s",) and isinstance(x[1], str) and x[1].lower() == "close" for x in walk_term(t)):
            same = (t[0] == "ne0") == bool(val) if any(isinstance(x, tuple) and x[:2] == ("u", "bytes") for x in walk_term(t)) else bool(val)
            st = s.emit(st, fr, n, ("close", int(same)))
        elif t[0] in ("ne0", "eq0") and "end" in repr(t) and "find" in repr(t) and any(isinstance(x, tuple) and x[:1] == ("s",) and isinstance(x[1], str) and x[1].lower() == "connection" for x in walk_term(t)):
            if (t[0] == "eq0") == bool(val): st = s.emit(st, fr, n, ("close", 0))
        return super().on_branch(st, fr, n, t, val)

def loop(ctx, m):
    for f in m.fns.values():
        if not (f.clsn.endswith("net::ConnectionHandler") and f.short == "start" and f.body is not None): continue
        ctx.analysed(f); ctx.count("connection loops")
        e = Loop(m); served = False
        def bad(k, msg, st): ctx.violation(k, msg, f, path=steps(st))
        for k, st, v in e.run(f, ()):
            ctx.count("connection paths")
            since = None; dead = None
            for ev in st.mon:
                if ev[0] == "head":
                    if dead: bad("read-after-end", f"another request is read after {dead}", st); break
                    if since is not None:
                        if ("ran",) not in since: bad("not-run", "another request is read although the endpoint of the last did not run", st); break
                        if ("creq",) not in since: bad("request-kept", "another request is read into a request object that was not reset", st); break
                        if ("cres",) not in since: bad("response-kept", "another request is answered with a response object that was not reset", st); break
                        i = since.index(("ran",))
                        if ("creq",) in since[:i] or ("cres",) in since[:i]: bad("reset-early", "request or response are reset before the endpoint runs", st); break
                        if ("close", 0) not in since: bad("close-untested", "another request is read without testing for 'Connection: close'", st); break
                        if ("running", 1) not in since: bad("stop-untested", "another request is read without testing whether the server is stopping", st); break
                        if since.index(("creq",)) < max(since.index(("close", 0)), 0): bad("close-late", "the headers are tested for 'close' after they were reset", st); break
                    since = []
                    if ev[1] != 1: dead = "a head that could not be read"
                else:
                    if ev == ("ran",):
                        served = True
                        if dead: bad("run-after-end", f"an endpoint runs after {dead}", st); break
                        if since is not None and ("ran",) in since: bad("run-twice", "an endpoint runs twice for one request", st); break
                    if ev == ("failed",): dead = "an exception"
                    if ev == ("close", 1): dead = "'Connection: close'"
                    if ev == ("running", 0): dead = "the server was told to stop"
                    if since is not None: since.append(ev)
        if not served: bad("never-served", "no endpoint ever runs", None)

def check(ctx):
    m = ctx.model("net")
    ctx.rule("every exit of clear(): each data member empty, the unread body drained, the receive buffer untouched")
    ctx.rule("between two heads: endpoint, no 'close', still running, both resets; nothing after a failure")
    resets(ctx, m); flags(ctx, m); loop(ctx, m)
    ctx.at_least("reset functions", 2); ctx.at_least("member obligations", 10), ("body readers", 1); ctx.at_least("connection loops", 1)
