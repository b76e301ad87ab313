"""Every expression of the library that creates a lazily started coroutine or a prepared
asynchronous operation is followed to its consumer: it must be awaited, returned, stored where it
is awaited, or handed to a function; it may not be discarded or left in a variable nothing awaits."""
from rules import *
META = dict(title="No started-on-await operation is created and then dropped",
    statement="Every lazily started coroutine or prepared asynchronous operation that the library itself creates is awaited, returned or handed on, so the step it stands for really happens. None is created and discarded.",
    over=["programs", "inputs"], q="every expression in the library that creates such an operation, on every path",
    why="A forgotten await compiles, and a test sees it only if it observes the missing effect on the one path that forgot it.",
    files=["coroutine/task/Task.hpp", "coroutine/task/AioTask.hpp", "net/socket/IO.hpp", "net/server/ConnectionHandler.hpp", "net/client/HttpClient.hpp", "net/protocol/websocket/WebSocket.hpp", "net/router/Router.hpp"],
    mech=[("lazy tasks", "coroutine/task/Task.hpp"), ("prepared io_uring operations", "coroutine/task/AioTask.hpp")],
    technique="def-use (consumer) analysis of every task-typed expression, local and parameter in the resolved program",
    note="Every call returning a task type in every instantiated function.",
    design="""Each call whose type is a lazily started task or prepared I/O operation is followed to its consumer: expression statements, casts to void and
left operands of commas are violations; a task local must be used by an await, move, return or capture; a task parameter must be used.""")
TUS = ["coro", "net", "rpc", "ai"]
ASSUMES = ["functions that take a task by value or reference await or start it (checked for the library's own functions by the same rule: the parameter must be used)"]
LAZY = ("HX::coroutine::Task<", "HX::coroutine::AioTask", "HX::coroutine::RootTask<", "HX::coroutine::internal::AioTask")

def lazy(m, t):
    t = t.replace("const ", "").strip()
    if t.endswith(("&", "*")): return False
    if t.startswith(LAZY): return True
    return t.startswith("HX::coroutine::") and "AioTask" in t.split("<")[0]

def consumer(n):
    """-> (kind, node) of what uses the value of expression n"""
    c = n
    while True:
        p = c.parent
        if p is None: return ("stmt", None)
        if p.k in TRANSPARENT or p.k in ("CXXBindTemporaryExpr", "ExprWithCleanups", "MaterializeTemporaryExpr"):
            if p.s_("ck") == "ToVoid" or p.t == "void" and p.k != "CoawaitExpr": return ("void", p)
            c = p; continue
        if p.k == "BinaryOperator" and p.op == ",":
            if p.kid(0) is c: return ("void", p)
            c = p; continue
        if p.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and (p.get("cpy") or p.get("mov")): c = p; continue
        if p.k == "ConditionalOperator": c = p; continue
        if p.k == "DeclStmt": return ("decl", p)
        if p.k in ("CompoundStmt", "CaseStmt", "DefaultStmt", "LabelStmt", "AttributedStmt") : return ("stmt", p)
        if p.k in ("IfStmt", "WhileStmt", "ForStmt", "DoStmt", "CXXForRangeStmt", "SwitchStmt"):
            for key in ("then", "else", "body", "inc", "init"):
                if p.ref(key) is c: return ("stmt", p)
            return ("use", p)
        if p.k == "MemberExpr" or (p.k == "CXXMemberCallExpr"): return ("use", p)
        return ("use", p)

def uses(fn, d, skip):
    """references to local d outside its declaration that pass it on"""
    out = []
    for n in fn.walk():
        if n.k == "DeclRefExpr" and n.get("d") == d:
            k, c = consumer(n)
            if k == "use" or k == "decl": out.append(n)
    return out

def check(ctx):
    ctx.rule("a call whose result is a lazily started task or a prepared I/O operation is never discarded (expression statement, cast to void, left operand of a comma)")
    ctx.rule("a local of such a type is awaited, moved on, returned or captured")
    ctx.rule("a by-value or by-reference parameter of such a type of a library function is used by its body")
    seen = set()
    for tu in TUS:
        m = ctx.model(tu)
        for fn in m.fns.values():
            if fn.body is None or fn.rel.startswith("/") or not fn.file.startswith(ctx.root): continue
            key0 = fn.full
            if key0 in seen: continue
            seen.add(key0)
            hit = False
            for n in fn.walk():
                if n.k in CALLS and lazy(m, n.t):
                    hit = True; ctx.count("task-creating calls")
                    k, c = consumer(n)
                    if k in ("stmt", "void"): ctx.violation(f"dropped:{fn.n}:{n.name.split('::')[-1]}", f"the asynchronous operation {n.name} is created and never awaited: it does not run", fn, n.l)
                    elif k == "decl":
                        vs = [v for v in c.get("vars", []) if lazy(m, fn.model.strs[v["t"]].rstrip("& "))]
                        for v in vs:
                            ctx.count("task locals")
                            us = uses(fn, v["id"], c)
                            cap = any(l.encl == fn.id and any(x.k == "DeclRefExpr" and x.get("d") == v["id"] for x in l.walk()) for l in m.fns.values() if l.lam and l.encl == fn.id)
                            if not us and not cap: ctx.violation(f"dropped:{fn.n}:{v['n']}", f"the task kept in '{v['n']}' is never awaited", fn, n.l)
            for pid, pn, pt in fn.params:
                if lazy(m, pt.replace("&&", "").replace("&", "").strip()) and not fn.ctor and fn.body is not None and not fn.imp and not fn.raw.get("def"):
                    hit = True; ctx.count("task parameters")
                    if not any(x.k == "DeclRefExpr" and x.get("d") == pid for x in fn.walk()) and not any(x.k == "DeclRefExpr" and x.get("d") == pid for l in m.enclosed_lambdas(fn) for x in l.walk()):
                        ctx.violation(f"param-dropped:{fn.n}:{pn}", f"the task passed as '{pn}' is neither awaited nor passed on", fn)
            if hit: ctx.analysed(fn)
    ctx.at_least("task-creating calls", 60)
