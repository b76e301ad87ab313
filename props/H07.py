"""Interceptors around endpoints."""
from views import *
import re
META = dict(title="Interceptors run around the endpoint in order, and a refusal stops it",
    statement="For every endpoint registered with interceptors (including the error endpoint), the before() functions run in registration order until one returns false; the endpoint runs, exactly once and after all of them, if and only if none returned false. Afterwards the after() functions run in registration order until one returns false, whether or not the endpoint ran. Synchronous and coroutine interceptors are treated alike, an interceptor without one of the two functions is passed over, and none runs twice.",
    over=["inputs", "histories"], q="every combination of interceptors and of their answers, for all kinds of route",
    why="Tests use one or two interceptors that all answer true; a refusal in the middle, or a coroutine interceptor that is never awaited, is not exercised.",
    files=["net/router/Router.hpp"],
    mech=[("endpoint wrappers", "net/router/Router.hpp _addEndpoint, setErrorEndpointFunc"), ("interceptor calls", "net/router/Router.hpp doBefore, doAfter")],
    technique="path enumeration of every endpoint wrapper with awaited helpers inlined, event order checked against the registration order",
    note="Wrappers are analysed for sync, coroutine, before-only and after-only interceptors, none to four of them, and each kind of route.",
    design="""Every wrapper lambda that reaches the user's endpoint is explored with the awaited helper coroutines inlined; a call of before()/after() forks into its two answers (for a coroutine interceptor at the co_await, so one that is
never awaited gives no answer). On every path the sequence of answers must be: before() in registration order with nothing after the first refusal, the endpoint exactly when all agreed, then after() in registration order with nothing after the first refusal.""")
TUS = ["net"]
ASSUMES = ["an exception thrown by an interceptor or endpoint ends the request"]

class E(Views):
    lib_throws = lambda s, n, x: False
    max_depth = 12
    def force_inline(s, fn): return fn.rel == s.entry.rel or super().force_inline(fn)
    def ask(s, st, fr, n, ev):
        out = []
        for a in (1, 0):
            sym = ("u", "answer", n.id, a); x = s.emit(st, fr, n, ev + (a,)).cp(); x._kill_site(sym)
            x = x.assume(("ne0", lin(sym)) if a else ("eq0", lin(sym)))
            if x is not None: out.append((x, sym))
        return out
    def on_call(s, st, fr, n, name, obj, args):
        g = s.m.fns.get(n.get("fn")); sh = name.split("::")[-1]
        if sh in ("before", "after") and len(args) == 2 and fr.fn.rel == s.entry.rel:
            ev = (sh, "::".join(name.split("::")[:-1]))
            if g is not None and g.coro or n.t.startswith("HX::coroutine::Task"):
                return [(st, ("asked",) + ev)]
            return s.ask(st, fr, n, ev)
        if sh == "operator()" and len(args) == 2 and (g is None or g.rel != s.entry.rel) and fr.fn.rel == s.entry.rel:
            return [(st, ("endpoint",))]
        return super().on_call(st, fr, n, name, obj, args)
    def on_await(s, st, fr, n, v):
        t = s.val(st, v)
        if t[0] == "asked": return s.ask(st, fr, n, t[1:])
        if t[0] == "endpoint": return [(s.emit(st, fr, n, ("endpoint",)), ("void",))]
        return super().on_await(st, fr, n, v)

def wrappers(m):
    for f in m.fns.values():
        if not (f.lam and f.coro and f.body is not None and f.rel == "net/router/Router.hpp" and len(f.params) == 2 and f.short == "operator()"): continue
        if any(is_call(n) and call_short(n) == "operator()" and len(call_args(n)) >= 2 for n in f.walk()): yield f

def check(ctx):
    m = ctx.model("net")
    ctx.rule("on every path: before() in order until a refusal, the endpoint iff none refused, after() in order until a refusal")
    has = {"HSync": ("before", "after"), "HCo": ("before", "after"), "HBef": ("before",), "HAft": ("after",)}      # harness/net.cpp
    for f in wrappers(m):
        names = [x.group(1) for x in re.finditer(r"\b(HSync|HCo|HBef|HAft)\b", f.full.split("(anonymous class)")[0])]
        e = E(m); outs = e.run(f, ())
        ctx.analysed(f); ctx.count("wrappers"); ctx.count("interceptors", len(names))
        bef = [c for c in names if "before" in has.get(c, ())]; aft = [c for c in names if "after" in has.get(c, ())]
        for k, st, v in outs:
            if k != "ret": continue
            ctx.count("paths")
            def bad(key, msg): ctx.violation(f"{key}", msg + f" (answers on this path: {', '.join(x[0] + (' of ' + x[1] + (': true' if x[2] else ': false') if len(x) > 1 else '') for x in st.mon) or 'none'})", f, path=steps(st))
            mon = list(st.mon); i = 0
            def phase(want, name):
                nonlocal i
                for c in want:
                    if i >= len(mon) or mon[i][0] != name: bad(name + "-missing", f"{name}() of {c} does not run although nothing refused before it"); return None
                    if mon[i][1].split("::")[-1] != c: bad(name + "-order", f"{name}() of {mon[i][1]} runs where that of {c} is due"); return None
                    ans = mon[i][2]; i += 1
                    if not ans: return False
                return True
            r = phase(bef, "before")
            if r is None: continue
            if i < len(mon) and mon[i][0] == "before": bad("before-after-refusal", f"before() of {mon[i][1]} runs after a refusal or a second time"); continue
            ran = i < len(mon) and mon[i] == ("endpoint",)
            if ran and not r: bad("endpoint-refused", "the endpoint runs although an interceptor refused the request"); continue
            if not ran and r: bad("endpoint-missing", "the endpoint does not run although no interceptor refused the request"); continue
            i += ran
            if phase(aft, "after") is None: continue
            if i < len(mon): bad("extra", f"{mon[i][0]} runs where nothing more is due"); continue
    ctx.at_least("wrappers", 5); ctx.at_least("paths", 20); ctx.at_least("interceptors", 8)
