"""Request routing."""
from splits import *
META = dict(title="Requests reach exactly the endpoint whose route matches, with its parameters",
    statement="A request is handled by the endpoint registered for its method whose route matches the path (without the query) segment by segment, where empty segments do not count: a literal segment matches itself, {x} any single segment, ** one or more remaining segments; at each segment a literal is tried before {x} and {x} before **, with backtracking, and if nothing matches the not-found endpoint runs. The endpoint finds the segments that stand for its {x} as path parameters, in order, and what follows the fixed prefix as wildcard path. Registering a route for several methods registers it completely for each of them.",
    over=["inputs", "histories"], q="every set of registered routes and every request",
    why="Tests look up a handful of paths in one small tree; backtracking, repeated slashes, queries and overlapping routes are combinations they do not reach.",
    files=["net/router/Router.hpp", "net/router/RouterTree.hpp", "net/router/RequestParsing.hpp", "utils/StringUtils.hpp", "net/server/ConnectionHandler.hpp"],
    mech=[("tree", "net/router/RouterTree.hpp insert, find, _find"), ("registration and parameters", "net/router/Router.hpp addEndpoint, _addEndpoint, getEndpoint"), ("segments", "utils/StringUtils.hpp split, splitWithPos"), ("dispatch", "net/server/ConnectionHandler.hpp start")],
    technique="path-sensitive abstract interpretation with symbolic views; loop over the tree's alternatives unrolled, recursion summarised",
    note="The tree search is checked inductively (one level, the recursive call taken as correct); registration is analysed together with the closure it stores, so template and request positions are compared symbolically.",
    design="""The splitter is analysed with a ghost cursor: every piece must lie between consecutive delimiters from the cursor on, only empty pieces may be passed over, and it ends only when no delimiter follows.
The tree search must return the node's endpoint when no segment is left, otherwise try the children of the first segment, "*" and "**" in this order, each only after the previous is known to have failed, recurse on the rest
and return null only after all three failed. insert() must descend or create one child per segment with {..} mapped to "*" and store the endpoint in the last. Registration is run through to the insertion; the closure stored there is
then run with its captured values: before the endpoint runs, parameters must be the request's segments at the template's {} positions and the wildcard path must start behind the segments that precede **. The dispatcher must pass the
method and the path cut at the first '?', and run the endpoint it was given.""")
TUS = ["net"]
ASSUMES = ["std::unordered_map finds exactly the keys that were inserted", "routes have ** only as their last segment"]
THIS = (("root", "this"),)

class Keep(Views):
    lib_throws = lambda s, n, x: False
    unroll = 8
    def skey(s, st): return frozenset(f for f in st.facts if f[0] in ("eq0", "ne0") and len(f[1][2]) == 1 and f[1][2][0][0][:1] == ("u",) and f[1][2][0][0][1] in FINDS)

def check(ctx):
    m = ctx.model("net")
    ctx.rule("segments: pieces between consecutive delimiters, empty ones passed over")
    ctx.rule("search: end of path -> own endpoint; literal, then *, then **; null only when all failed")
    ctx.rule("registration: one child per segment; the stored closure's parameter positions agree with the template")
    ctx.rule("dispatch: method and path without query select the endpoint that runs")
    segs(ctx, m); methods_(ctx, m); hasheq(ctx, m); pure(ctx, m)
    for f in m.fns.values():
        if f.body is None or not f.cls: continue
        if f.clsn.endswith("net::RouterTree"):
            if f.short == "_find" or rec(f): tree_find(ctx, m, f)
            elif f.short == "insert": tree_insert(ctx, m, f)
            elif f.short == "find": tree_top(ctx, m, f)
        if f.clsn.endswith("net::Router"):
            if f.short == "getEndpoint": get_endpoint(ctx, m, f)
            elif f.short == "addEndpoint": several(ctx, m, f)
            elif f.short == "_addEndpoint": add(ctx, m, f)
        if f.clsn.endswith("net::ConnectionHandler") and f.short == "start": dispatch(ctx, m, f)
        if f.clsn.endswith("net::RequestTemplateParsing"): template(ctx, m, f)
    for k, n in (("splitters", 2), ("tree searches", 1), ("insertions", 1), ("registrations", 4), ("stored closures", 8), ("dispatchers", 1), ("lookups", 3)): ctx.at_least(k, n)

def rec(f): return any(is_call(n) and n.get("fn") == f.id for n in f.walk())
SPLITS = ("split", "splitWithPos")
def segs(ctx, m):
    for f in m.fns.values():
        if f.clsn.endswith("StringUtil") and f.short in SPLITS and f.body is not None and "basic_string_view" in f.full:
            e = Split(m)
            mode = e.go(f, lambda k, msg, st: ctx.violation(k, msg, f, path=steps(st)))
            ctx.count("splitters"); ctx.analysed(f)
            if mode != "skip" and "true" in f.full: ctx.violation("split-empty", "empty segments are kept, so repeated or trailing slashes make a route unreachable", f)

def methods_(ctx, m):
    en = m.enums.get("HX::net::HttpMethod")
    ctx.require(en is not None, "HttpMethod")
    want = {}
    for n, v in en["v"]:
        if v not in want: want[v] = "DELETE" if n == "DEL" else n
    for f in m.fns.values():
        if f.short != "getMethodStringView" or f.body is None: continue
        ctx.analysed(f); seen = {}
        for k, st, v in Keep(m).run(f, ()):
            t = Keep(m).val(st, v)
            for x in st.facts:
                if x[0] == "eq0" and len(x[1][2]) == 1 and abs(x[1][2][0][1]) == 1: seen[abs(x[1][1])] = t[1] if t[0] == "s" else show(t)
        for v, n in want.items():
            if n == "NIL": continue
            ctx.count("method names")
            if seen.get(v) != n: ctx.violation("method-name", f"routes for {n} are registered under {seen.get(v)!r}", f)

def hasheq(ctx, m):
    for f in m.fns.values():
        if f.short != "operator()" or not f.cls or f.body is None or f.rel != "net/router/RouterTree.hpp" or f.lam: continue
        e = Views(m); p = [(("v", 1, x[0], x[1]),) if not x[2].rstrip().endswith("&") else (("root", x[1], x[0]),) for x in f.params]
        for k, st, v in e.run(f, ()):
            t = e.val(st, v); ctx.analysed(f); ctx.count("key functions")
            ins = [("in", q, ()) for q in p]
            if len(p) == 2:
                ok = t[0] == "eq0" and {x for x, c in t[1][2]} == {st.read(q) for q in p} and t[1][1] == 0 or t[0] == "m" and t[1] in ("operator==", "==") or e.val(st, v) == C(1) and len({st.read(q) for q in p}) == 1
                if not ok: ctx.violation("key-equality", f"two path segments count as equal when {show(t)}", f, path=steps(st))
            elif len(p) == 1:
                if st.read(p[0]) not in list(walk_term(t)) or any(x[0] == "sv" for x in walk_term(t) if isinstance(x, tuple) and x and x[0] == "sv" and x != sv(st.read(p[0]))): ctx.violation("key-hash", f"a path segment is hashed as {show(t)}", f, path=steps(st))

def pure(ctx, m):
    for f in m.fns.values():
        if not (f.clsn.endswith("net::HttpRequest") and f.short == "getPureReqPath" and f.body is not None): continue
        e = Keep(m); ctx.analysed(f); src = None
        for g in m.fns.values():
            if g.clsn == f.clsn and g.short == "getReqPath" and g.body is not None and g.cls == f.cls:
                for k, st, v in Keep(m).run(g, ()):
                    if k == "ret": src = view(Keep(m).val(st, v))
        for k, st, v in e.run(f, ()):
            if k != "ret": continue
            b, S, E = view(e.val(st, v)); ctx.count("pure path results")
            if src is None or b != src[0] or S != src[1]: ctx.violation("path-source", f"the path without query is taken from {show(b)} at {show(S)}", f, path=steps(st)); continue
            q = ("u", "find", b, src[1], src[2], C(63), C(1), C(0)); q2 = ("u", "find", b, src[1], src[2], ("s", "?"), C(1), C(0)); q3 = ("u", "find_first_of") + q2[2:]; q4 = ("u", "find_first_of") + q[2:]
            found = next((x for x in (q, q2, q3, q4) if st.holds(T_cmp("!=", x, C(NPOS))) is True), None); none = any(st.holds(T_cmp("==", x, C(NPOS))) is True for x in (q, q2, q3, q4))
            if found is not None:
                if E != ladd(src[1], found): ctx.violation("path-query", f"with a query, the path ends at {show(E)}, not at the first '?'", f, path=steps(st))
            elif none:
                if E != src[2]: ctx.violation("path-whole", f"without a query, the path ends at {show(E)}", f, path=steps(st))
            elif not any(E == ladd(src[1], x) or x in list(walk_term(E)) for x in (q, q2, q3, q4)): ctx.violation("path-query", f"the path ends at {show(E)}, whatever follows", f, path=steps(st))

# ---------------------------------------------------------------- the tree
class Tree(Keep):
    """look(key) on a node's children; rec(link, node)"""
    local = True; quiet = False
    def begin(s, f, bad, ctx): s.bad, s.ctx, s.f = bad, ctx, f
    def node_of(s, st, p):
        """the pointer value whose pointee path p lies in"""
        return st.read(p)
    def keyterm(s, st, v):
        t = s.val(st, v)
        while t[0] == "ctor" and t[1].startswith("std::basic_string") and len(t) >= 3: t = t[2]
        return sv(t)
    def on_call(s, st, fr, n, name, obj, args):
        sh = name.split("::")[-1]
        if sh == "find" and name.startswith("std::unordered_map") and isinstance(obj, Loc) and args:
            ev = ("look", obj.p, s.keyterm(st, args[0]))
            st = s.look(st, fr, n, ev)
            return [(st if s.quiet else s.emit(st, fr, n, ev), ("m", "find", st.read(obj.p), ev[2]))]
        if n.get("fn") == s.f.id and args:
            link, node = s.val(st, args[0]), s.val(st, args[1])
            ev = ("rec", link, node)
            return [(s.emit(st, fr, n, ev), ("m", "rec", link, node))]
        return super().on_call(st, fr, n, name, obj, args)
    def look(s, st, fr, n, ev): return st
def second(find): return find
def tree_find(ctx, m, f):
    ctx.analysed(f); ctx.count("tree searches")
    lp = (("v", 1, f.params[0][0], f.params[0][1]),) if not f.params[0][2].rstrip().endswith("&") else (("root", f.params[0][1], f.params[0][0]),)
    npth = (("root", f.params[1][1], f.params[1][0]),) if f.params[1][2].rstrip().endswith("&") else (("v", 1, f.params[1][0], f.params[1][1]),)
    st0 = St(mon=()); L = st0.read(lp); front = st0.read(lp + (("[]", C(0)),))
    keys = [sv(front), sv(("s", "*")), sv(("s", "**"))]
    def bad(k, msg, st): ctx.violation(k, msg, f, path=steps(st))
    e = Tree(m); e.begin(f, bad, ctx)
    def failed(st, k, mon):
        """the alternative with key k is known to have failed on this path"""
        for x in mon:
            if x[0] == "look" and x[2] == k:
                fd = ("m", "find", st.read(x[1]), k)
                for y in st.facts:
                    if y[0] == "eq0" and {t for t, c in y[1][2]} >= {fd} and "end" in repr(y): return True
                for y in st.facts:
                    if y[0] == "eq0" and len(y[1][2]) == 1 and (t := y[1][2][0][0])[:2] == ("m", "rec") and fd in list(walk_term(t)): return True
                    if y[0] == "eq0" and "ptr" in repr(y) and fd in list(walk_term(y)): return True
        return False
    def look(st, fr, n, ev):
        ctx.count("lookups")
        if ev[2] not in keys: bad("search-key", f"the search looks for a child named {show(ev[2])}", st); return st
        i = keys.index(ev[2])
        for j in range(i):
            if not failed(st, keys[j], st.mon): bad("search-order", f"the child {show(ev[2])} is tried although {show(keys[j])} is not known to have failed", st)
        return st
    e.look = look
    for k, st, v in e.run(f, ()):
        if k != "ret": continue
        t = e.val(st, v)
        if st.holds(T_eq0(("m", "size", L))) is True:
            own = npth + ("*", "val")
            some = st.holds(("ne0", lin(("ptr", own))))
            if some is True and not (t[0] == "addr" and t[1][:len(own)] == own): bad("search-leaf", f"at the end of the path the search returns {show(t)} instead of the node's endpoint", st)
            elif some is False and t != C(0): bad("search-leaf", f"at the end of the path the search returns {show(t)} although the node has no endpoint", st)
            elif some is None: bad("search-leaf", "at the end of the path the search does not test whether the node has an endpoint", st)
            continue
        if st.holds(T_eq0(("m", "size", L))) is not False: bad("search-end", "the search does not test whether the path is used up", st); continue
        if t == C(0) or st.holds(T_eq0(t)) is True:
            for q in keys:
                if not failed(st, q, st.mon): bad("search-gives-up", f"the search gives up although the child {show(q)} is not known to have failed", st)
            continue
        hit = None
        for i, q in enumerate(keys):
            for x in st.mon:
                if x[0] == "look" and x[2] == q and ("m", "find", st.read(x[1]), q) in list(walk_term(t)):
                    hit = i
                    if x[1][:len(npth)] != npth or x[1][-1] != "child": bad("search-node", "the child is looked up in another node", st)
        if hit is None: bad("search-result", f"the search returns {show(t)}, which no matching child provides", st); continue
        for j in range(hit):
            if not failed(st, keys[j], st.mon): bad("search-order", f"the endpoint below {show(keys[hit])} is returned although {show(keys[j])} is not known to have failed", st)
        if t[:2] == ("m", "rec") and st.holds(T_eq0(t)) is not False:
            for j in range(hit + 1, 3):
                if not failed(st, keys[j], st.mon): bad("search-backtrack", f"a failure below {show(keys[hit])} ends the search although {show(keys[j])} has not been tried", st); break
        if t[:2] == ("m", "rec"):
            b, S, E = view(t[2])
            if hit < 2:
                if not (b == L and S == C(1) and E == ("m", "size", L)): bad("search-rest", f"the search goes on with {show(t[2])} instead of the segments after the first", st)
            elif ladd(E, S, -1) != C(0): bad("search-wild", f"below ** the search goes on with {show(t[2])}", st)
            if "second" not in repr(t[3]): bad("search-node", f"the search goes on in {show(t[3])}", st)

def tree_top(ctx, m, f):
    ctx.analysed(f)
    c = cls_of(m, f); e = Keep(m); e.opaque = ("_find",)
    lp = (("v", 1, f.params[0][0], f.params[0][1]),); L = St(mon=()).read(lp)
    def call(name, n, st, obj, args, eng, fr):
        if name.split("::")[-1] == "_find": return [(eng.emit(st, fr, n, ("rec",)), ("m", "rec", eng.val(st, args[0]), eng.val(st, args[1])))]
    e.h_call = call
    for k, st, v in e.run(f, ()):
        if k != "ret": continue
        rs = [x for y in st.facts for x in walk_term(y) if isinstance(x, tuple) and x[:2] == ("m", "rec")]
        if not rs: ctx.violation("top-search", "the tree is not searched for the request's path", f, path=steps(st)); continue
        r = rs[0]
        if sv(r[2]) != sv(L) or r[3] != St(mon=()).read(THIS + ("_root",)): ctx.violation("top-search", f"the search starts with {show(r[2])} in {show(r[3])}", f, path=steps(st))
        hit = st.holds(T_eq0(r)) is False
        p = v.p if isinstance(v, Loc) else ()
        isr = r in list(walk_term(p))
        if hit != isr: ctx.violation("top-result", "a match is answered with the not-found endpoint" if hit else "no match is answered with " + show_path(p), f, path=steps(st))
        if not hit and p[:1] != THIS: ctx.violation("top-result", f"no match is answered with {show_path(p)}", f, path=steps(st))

def brace_test(t, root):
    """does t say that an element of root starts with '{' (True) or that it does not (False)?"""
    if t[0] not in ("eq0", "ne0") or len(t[1][2]) != 1: return None
    if root is not None and not any(isinstance(y, tuple) and y[:1] == (root,) for y in walk_term(t)): return None
    u = t[1][2][0][0]
    if u[:2] == ("u", "bytes"): return (t[0] == "ne0") if u[5] in (C(123), ("s", "{")) and t[1][1] == 0 else None
    return (t[0] == "eq0") if abs(t[1][1]) == 123 else None
def tree_insert(ctx, m, f):
    ctx.analysed(f); ctx.count("insertions")
    link = (("root", f.params[0][1], f.params[0][0]),); ep = (("root", f.params[1][1], f.params[1][0]),)
    EP = St(mon=()).read(ep)
    def bad(k, msg, st): ctx.violation(k, msg, f, path=steps(st))
    class I(Tree):
        unroll = 0
        quiet = True
        def skey(s, st): return st.env.get((G, "brace")), st.env.get((G, "look"))
        def on_branch(s, st, fr, n, t, val):
            k = brace_test(t, link[0])
            if k is not None: st = st.cp(); st.env[(G, "brace")] = C(int(k == bool(val)))
            return [s.refine(st)]
        def look(s, st, fr, n, ev):
            k = ev[2][1]
            star = k == ("s", "*"); elem = st.env.get((G, "brace"))
            if elem is None: bad("insert-kind", f"the segment {show(k)} is entered without testing whether it is a {{..}} parameter", st)
            elif (elem == C(1)) != star: bad("insert-kind", ("a {..} segment" if elem == C(1) else "a literal segment") + f" is entered as {show(k)}", st)
            st = st.cp(); st.env.pop((G, "brace"), None); st.env[(G, "look")] = ev[2]
            if ev[1][-1] != "child": bad("insert-node", "the child is looked up in another table", st)
            return st
        def on_assign(s, st, fr, n, p, t):
            if t[0] in ("sym",) and "make_shared" in show(t) and p[-1][:1] == ("[]",):
                k = s.keyterm(st, p[-1][1])
                fd = ("m", "find", st.read(p[:-1]), k)
                if not any(x[0] == "eq0" and any(y == fd for y, c in x[1][2]) and "end" in repr(x) for x in st.facts): bad("insert-replace", "a child is replaced by a fresh one although it may exist, and everything below it is lost", st)
                if st.env.get((G, "look")) != k: bad("insert-name", f"the new child is filed under {show(k)}, not under the name looked up", st)
                return [st]
            if p[-1:] == ("val",) or p[-2:] == ("val", "*"):
                if not mentions(t, EP) and t != EP: bad("insert-endpoint", f"the endpoint stored is {show(t)}", st)
                return [s.emit(st, fr, n, ("stored",))]
            if p == THIS + ("_root",): bad("insert-root", "the root of the tree is replaced", st)
            return super().on_assign(st, fr, n, p, t)
    e = I(m); e.begin(f, bad, ctx)
    for k, st, v in e.run(f, ()):
        if k != "ret": continue
        if not st.mon or st.mon[-1] != ("stored",): bad("insert-lost", "the endpoint is not stored in the node reached", st)
        if any(x == ("stored",) for x in st.mon[:-1]): bad("insert-inner", "the endpoint is stored in a node on the way", st)

# ---------------------------------------------------------------- router
def pieces(e, st, n, args, sh):
    a = [e.val(st, x) for x in args]
    d = view(a[1])[0]
    if d == C(47) or a[1] == C(47): d = ("s", "/")
    return ("pieces", sh, sv(a[0]), d, a[2] if len(a) > 2 else ("empty",))
def firsts(t):
    """elements of an initialiser list of one"""
    for x in walk_term(t):
        if isinstance(x, tuple) and x and x[0] == "init" and len(x) == 3 and not (isinstance(x[2], tuple) and x[2][:1] == ("init",)): return x[2]
    return None
class Route(Keep):
    def want_inline(s, fn, fr):
        if fn.short in SPLITS: return False
        return super().want_inline(fn, fr)
    def on_call(s, st, fr, n, name, obj, args):
        sh = name.split("::")[-1]
        if sh in SPLITS and "StringUtil" in name: s.ctx.count("segmentations"); return [(st, pieces(s, st, n, args, sh))]
        if sh in ("getMethodStringView",): return [(st, ("method", s.val(st, args[0])))]
        r = s.route(st, fr, n, name, sh, obj, args)
        return r if r is not None else super().on_call(st, fr, n, name, obj, args)
    def route(s, st, fr, n, name, sh, obj, args): return None

def get_endpoint(ctx, m, f):
    ctx.analysed(f); ctx.count("lookups by request")
    mth, pth = ((("v", 1, p[0], p[1]),) for p in f.params[:2])
    s0 = St(mon=()); M, P = s0.read(mth), s0.read(pth)
    class E(Route):
        def route(s, st, fr, n, name, sh, obj, args):
            if sh == "find" and "RouterTree" in name:
                t = s.val(st, args[0]); t = t[1] if t[0] == "sv" else t
                if t[0] != "pieces" or t[2] != sv(P) or t[3] != ("s", "/") and t[3] != C(47): ctx.violation("lookup-path", f"the tree is searched for {show(t)} instead of the segments of the path", f, path=steps(st))
                elif firsts(t[4]) is None or sv(firsts(t[4])) != sv(M): ctx.violation("lookup-method", "the search does not start with the request's method", f, path=steps(st))
                return [(s.emit(st, fr, n, ("find",)), Loc((("found",),)))]
    e = E(m); e.ctx = ctx
    for k, st, v in e.run(f, ()):
        if k == "ret" and not (isinstance(v, Loc) and v.p == (("found",),)): ctx.violation("lookup-result", "the endpoint found is not the one returned", f, path=steps(st))

def several(ctx, m, f):
    """a route for several methods: nothing given away before the last registration"""
    ctx.analysed(f)
    calls = [n for n in f.walk() if is_call(n) and n.get("fn") in m.fns and m.fns[n.get("fn")].short == "_addEndpoint"]
    ms = [a for a in str(f.full).split("<")[1:] for a in ()]
    k = f.full.count("HttpMethod::")
    ctx.count("multi-method registrations", k > 1)
    if len(calls) < k: ctx.violation("several-missing", f"a route given for {k} methods is registered for {len(calls)}", f)
    for c in calls[:-1]:
        for a in call_args(c):
            for x in a.walk():
                if is_call(x) and x.name in ("std::move", "std::forward") and not x.get("lv"): ctx.violation("several-moved", f"what belongs to the route is moved into the registration of one method while another follows", f, line=c.l)
                elif is_call(x) and x.name == "std::move": ctx.violation("several-moved", f"what belongs to the route is moved into the registration of one method while another follows", f, line=c.l)

def template(ctx, m, f):
    ctx.analysed(f)
    p = (("v", 1, f.params[0][0], f.params[0][1]),); P = St(mon=()).read(p)
    def bad(k, msg, st): ctx.violation(k, msg, f, path=steps(st))
    vec = "vector" in f.ret
    class E(Route):
        unroll = 0
        def route(s, st, fr, n, name, sh, obj, args):
            if sh in ("push_back", "emplace_back") and isinstance(obj, Loc):
                t = s.val(st, args[0])
                ok = False
                for x in st.facts:
                    if brace_test(x, None) is True and any(isinstance(y, tuple) and (y == ("[]", t) or y[:1] == ("[]",) and len(y) == 2 and y[1][:1] == ("sym",) and y[1][1][0] == "elem") for y in walk_term(x)) and any(isinstance(y, tuple) and y[:1] == ("pieces",) and y[2] == sv(P) for y in walk_term(x)): ok = True
                if not ok: bad("template-index", f"position {show(t)} is recorded although the segment there is not known to start with '{{'", st)
                return [(s.emit(st, fr, n, ("push",)).havoc(obj.p, ("push", n.id)), ("void",))]
        def on_branch(s, st, fr, n, t, val):
            for y in walk_term(t):
                if isinstance(y, tuple) and y[:1] == ("pieces",): return [s.emit(s.refine(st), fr, n, ("test", val))]
            return [s.refine(st)]
    e = E(m); e.ctx = ctx
    for k, st, v in e.run(f, ()):
        if k != "ret": continue
        t = e.val(st, v)
        if vec: continue
        ps = [y for y in walk_term(t) if isinstance(y, tuple) and y[:1] == ("pieces",)]
        if not ps or ps[0][2] != sv(P) or t != ladd(("m", "size", ps[0]), C(-1)): bad("template-wild", f"the position of ** is {show(t)}", st); continue
    ctx.count("template functions")

def add(ctx, m, f):
    ctx.analysed(f); ctx.count("registrations")
    p = (("v", 1, f.params[0][0], f.params[0][1]),); P = St(mon=()).read(p)
    meth = f.full.split("_addEndpoint<")[-1].split(",")[0].split(">")[0].strip().split("::")[-1]
    en = {n: v for n, v in m.enums["HX::net::HttpMethod"]["v"]}
    REQ = (("root", "req"),)
    def bad(k, msg, st): ctx.violation(k, msg, f, path=steps(st))
    fields = {}
    for g in m.fns.values():
        if g.clsn.endswith("net::HttpRequest") and g.short in ("getPathParam", "getUniversalWildcardPath") and g.body is not None:
            for n in g.walk():
                if n.k == "MemberExpr" and n.mname and n.mname.startswith("_"): fields.setdefault(g.short, n.mname)
    PAR, WILD = fields.get("getPathParam"), fields.get("getUniversalWildcardPath")
    ctx.require(PAR and WILD, "request fields for path parameters")
    PURE = ("pure",)
    class E(Route):
        def skey(s, st):
            w = s.wild
            return (super().skey(st), st.holds(T_cmp(">", w, C(0))) if w is not None else None)
        wild = None; inside = False
        def on_assign(s, st, fr, n, p, t):
            if t[0] in ("eq0", "ne0") and isinstance(p[-1], tuple) and p[-1][0] == "v" and not s.inside:
                return [y for c, x in ((1, st.assume(t)), (0, st.assume(T_not(t)))) if x is not None for y in (s.refine(x).write(p, C(c)),)]
            if s.inside and p == REQ + (PAR,): return [s.emit(st, fr, n, ("params",))]
            if s.inside and p == REQ + (WILD,): return [s.emit(st, fr, n, ("wild", t, st.holds(T_cmp(">", s.wild, C(0))) if s.wild is not None else None, short(s, st)))]
            return super().on_assign(st, fr, n, p, t)
        def route(s, st, fr, n, name, sh, obj, args):
            if sh == "getPureReqPath": return [(st, PURE)]
            if sh in ("getPathWildcardAnalysisArr",): return [(st, ("braces", sv(s.val(st, args[0]))))]
            if sh == "getUniversalWildcardPathBeginIndex": return [(st, ("wildat", sv(s.val(st, args[0]))))]
            if sh in ("doBefore", "doAfter"): return [(st, ("asked",))]
            if s.inside and sh in ("push_back", "emplace_back") and isinstance(obj, Loc): return [(s.emit(st, fr, n, ("push", s.val(st, args[0]))).havoc(obj.p, ("push", n.id)), ("void",))]
            if s.inside and sh == "operator()" and len(args) == 2 and (s.m.fns.get(n.get("fn")) is None or s.m.fns[n.get("fn")].rel != f.rel): return [(s.emit(st, fr, n, ("endpoint",)), ("void",))]
            if sh == "insert" and "RouterTree" in name and not s.inside:
                lk, ep = s.val(st, args[0]), s.val(st, args[1])
                if lk[0] != "pieces" or lk[2] != sv(P) or lk[3] not in (("s", "/"), C(47)): bad("add-path", f"the route is entered as {show(lk)}, not by its segments", st)
                else:
                    fm = firsts(lk[4])
                    if fm is None or fm[0] != "method" or fm[1] != C(en.get(meth, -1)): bad("add-method", f"the route is entered under {show(fm) if fm else 'no method'} instead of {meth}", st)
                if ep[0] != "lam": bad("add-endpoint", f"what is entered as endpoint is {show(ep)}", st); return [(st, ("void",))]
                s.inside = True; s.closure(st, fr, n, ep); s.inside = False
                return [(s.emit(st, fr, n, ("inserted",)), ("void",))]
        def closure(s, st, fr, n, ep):
            ctx.count("stored closures")
            brace = any(st.holds(T_cmp("!=", ("u", k, P, C(0), ("m", "size", P), x, C(1), C(0)), C(NPOS))) is True for k in FINDS[:2] for x in (("s", "{"), C(123)))
            wild = any(x[0] == "ne0" and len(x[1][2]) == 1 and (y := x[1][2][0][0])[:3] == ("u", "find", P) and y[5][0] == "s" and "**" in y[5][1] for x in st.facts)
            nobrace = any(st.holds(T_cmp("==", ("u", k, P, C(0), ("m", "size", P), x, C(1), C(0)), C(NPOS))) is True for k in FINDS[:2] for x in (("s", "{"), C(123)))
            if not brace and not nobrace: bad("add-kind", "a route is registered without testing for {..} segments", st); return
            g = s.m.fns.get(ep[1])
            if g is None: bad("add-endpoint", "the endpoint stored has no body", st); return
            s.wild = None
            for c in ep[3]:
                if c[0] != "this" and c[1] != "ref" and c[2][0] in ("wildat", "m", "lin") and mentions_pieces(c[2]) or c[0] != "this" and c[1] != "ref" and c[2][0] == "wildat": s.wild = c[2]
            args = [Loc(REQ), Loc((("root", "res"),))]
            fr.exc, keep = [], fr.exc
            outs = s.inline(g, st.with_mon(()), fr, n, ("lam", ep), args)
            fr.exc = keep
            for s2, v in outs:
                mon = s2.mon; ctx.count("closure paths")
                if ("endpoint",) not in mon: continue
                pre = mon[:mon.index(("endpoint",))]
                def b2(k, msg): ctx.violation(k, msg, g, path=steps(s2))
                if brace and ("params",) not in pre: b2("params-unset", "the endpoint of a route with {..} runs without its path parameters")
                for x in pre:
                    if x[0] == "push": s.param(s2, x[1], b2)
                ws = [x for x in pre if x[0] == "wild"]
                if wild and not ws: b2("wild-unset", "the endpoint of a route with ** runs without its wildcard path")
                for x in ws: s.wildcard(s2, x, brace, b2)
        def param(s, st, t, b2):
            ok = any(isinstance(y, tuple) and y[:1] == ("pieces",) and y[2] == sv(PURE) and y[3] in (("s", "/"), C(47)) and y[4][0] in ("empty", "ctor") and firsts(y[4]) is None for y in walk_term(t))
            if not ok: b2("param-source", f"a path parameter is taken from {show(t)}, not from the segments of the request's path")
            idx = [y[1] for y in walk_term(t) if isinstance(y, tuple) and len(y) == 2 and y[0] == "[]"]
            if not any(x[0] == "sym" and x[1][0] == "elem" or "braces" in repr(x) for x in idx): b2("param-index", f"a path parameter is taken from segment {', '.join(map(show, idx))}, not from the position of its {{..}} in the route")
            elif any(x[0] == "lin" for x in idx): b2("param-index", f"a path parameter is taken from segment {show(idx[0])}, next to the position of its {{..}} in the route")
        def wildcard(s, st, ev, brace, b2):
            t, pos, few = ev[1:]
            b, S, E = view(t); w = s.wild
            if b != PURE:
                if t == ("s", "") or ladd(E, S, -1) == C(0):
                    if not few: b2("wild-empty", "the wildcard path is empty although the request has segments where ** stands")
                    return
                b2("wild-source", f"the wildcard path is taken from {show(b)}"); return
            if E != ("m", "size", PURE): b2("wild-end", f"the wildcard path ends at {show(E)}")
            ok = False
            at = wild_at(w, P)
            if at is None: b2("wild-position", f"the position of ** in the route is taken as {show(w) if w else 'unknown'}"); return
            if S == C(0): ok = pos is False
            else:
                ps = [y for y in walk_term(S) if isinstance(y, tuple) and y[:1] == ("pieces",)]
                ix = [y[1] for y in walk_term(S) if isinstance(y, tuple) and len(y) == 2 and y[0] == "[]"]
                if ps and ps[0][1] == "splitWithPos" and ps[0][2] == sv(PURE) and ix:
                    if all(i == w for i in ix) and S[0] in ("fld", "in", "m", "[]"): ok = "second" not in repr(S)
                    elif all(i == ladd(w, C(-1)) for i in ix): ok = pos is True and S[0] == "lin" and S[1] == 0 and len(S[2]) == 2 and all(c == 1 for _, c in S[2]) and "second" in repr(S) and "first" in repr(S)
            if not ok: b2("wild-start", f"the wildcard path starts at {show(S)}, which is not where the segments before ** end")
    def short(s, st): return any(x[0] == "ge0" and mentions_pieces(x) and s.wild is not None and mentions(x, s.wild) and st.holds(T_cmp("<=", ("m", "size", [y for y in walk_term(x) if isinstance(y, tuple) and y[:1] == ("pieces",) and y[2] == sv(PURE)][0]), s.wild)) is True for x in st.facts if any(isinstance(y, tuple) and y[:1] == ("pieces",) and y[2] == sv(PURE) for y in walk_term(x)))
    e = E(m); e.ctx = ctx
    for k, st, v in e.run(f, ()):
        if k == "ret" and ("inserted",) not in st.mon: bad("add-lost", "a route is not entered into the tree", st)
def mentions_pieces(t): return any(isinstance(y, tuple) and y[:1] == ("pieces",) for y in walk_term(t))
def wild_at(w, P):
    if w is None: return None
    if w[0] == "wildat": return True if w[1] == sv(P) else None
    ps = [y for y in walk_term(w) if isinstance(y, tuple) and y[:1] == ("pieces",)]
    if w[:2] == ("m", "size") and ps and w[2] == ps[0]:
        b, S, E = view(ps[0][2])
        if b == P and S == C(0) and E[:2] == ("u", "find") and E[5][0] == "s" and "**" in E[5][1]: return True
    if w == ladd(("m", "size", ps[0]), C(-1)) if ps else False: return True if ps[0][2] == sv(P) else None
    return None

# ---------------------------------------------------------------- dispatch
def dispatch(ctx, m, f):
    ctx.analysed(f); ctx.count("dispatchers")
    def bad(k, msg, st): ctx.violation(k, msg, f, path=steps(st))
    class E(Route):
        def route(s, st, fr, n, name, sh, obj, args):
            if sh in ("getPureReqPath", "getReqPath", "getReqType", "getProtocolVersion") and "HttpRequest" in name: return [(st, ("req", sh, obj.p if isinstance(obj, Loc) else ()))]
            if sh == "getEndpoint":
                a, b = (s.val(st, x) for x in args[:2])
                if view(a)[0][:2] != ("req", "getReqType"): bad("dispatch-method", f"the endpoint is looked up by {show(a)} instead of the request's method", st)
                bb, S, E2 = view(b)
                if bb[:2] == ("req", "getPureReqPath"):
                    if sv(b) != sv(bb): bad("dispatch-path", f"the endpoint is looked up by {show(b)}", st)
                elif bb[:2] == ("req", "getReqPath"):
                    if not (S == C(0) and "find" in repr(E2)): bad("dispatch-query", "the query string takes part in the choice of the endpoint", st)
                else: bad("dispatch-path", f"the endpoint is looked up by {show(b)} instead of the request's path", st)
                return [(s.emit(st, fr, n, ("found",)), Loc((("endpoint", (bb[2] if len(bb) > 2 else ())),)))]
            if sh == "operator()" and isinstance(obj, Loc) and obj.p[:1] and obj.p[0][0] == "endpoint":
                if not (isinstance(args[0], Loc) and args[0].p == obj.p[0][1]): bad("dispatch-args", "the endpoint is run for another request", st)
                return [(st, ("task",))]
        def on_await(s, st, fr, n, v):
            if s.val(st, v) == ("task",): return [(s.emit(st, fr, n, ("ran",)), ("void",))]
            t = s.val(st, v)
            if t[0] == "lazy" and s.m.fns[t[1]].short == "parserReqHead":
                sym = ("u", "head", n.id); st = s.emit(st, fr, n, ("head",)).cp(); st._kill_site(sym); return [(st, sym)]
            return super().on_await(st, fr, n, v)
    e = E(m); e.ctx = ctx; e.rep = 2
    for k, st, v in e.run(f, ()):
        mon = st.mon; i = 0
        while i < len(mon):
            if mon[i] == ("head",):
                if i + 1 < len(mon) and mon[i + 1] == ("found",):
                    if i + 2 >= len(mon) or mon[i + 2] != ("ran",): bad("dispatch-run", "the endpoint found is not run", st)
                elif i + 1 < len(mon): bad("dispatch-head", "a further request is read although the last was not dispatched", st)
            i += 1
    if not any(("ran",) in (st.mon or ()) for k, st, v in e.run(f, ())): bad("dispatch-run", "no endpoint is ever run", None)
