"""X02: a token is sealed under a fresh nonce and opened only if it is authentic."""
from views import *
TUS = ["net"]
META = dict(title="Tokens are sealed under a fresh nonce and opened only if authentic",
    statement="A token is the base64url text of a random nonce, the AES-256-GCM ciphertext of the written value and the full authentication tag, and every cryptographic step is known to have succeeded before the token is returned. Opening one returns text only after the tag has been verified over exactly those bytes, under the object's key; anything shorter, altered or sealed under another key is refused. Keys that are not 32 bytes are refused without leaking.",
    over=["inputs", "fault_sequences"], q="every text and token, every outcome of every OpenSSL call, every key length",
    why="Tests round-trip one token and flip some of it; no test makes an OpenSSL call or the random generator fail, and none can show that two tokens never share a nonce.",
    files=["net/token/Token.hpp", "net/token/tools/Aes256Gcm.hpp"],
    mech=[("sealing and opening", "net/token/tools/Aes256Gcm.hpp encrypt, decrypt"), ("tokens", "net/token/Token.hpp toToken, fromToken")],
    technique="typestate of the OpenSSL calls along every path, with symbolic buffers",
    note="OpenSSL is taken at its documentation; that GCM is secure is not ours to show. Texts are shorter than 2 GiB.",
    design="""encrypt and decrypt are run on a symbolic text with every OpenSSL call recorded with its arguments and a symbolic outcome. On each path that returns, the calls must be initialise, update, finish and fetch (respectively set) the tag,
once each on one context and in an order that authenticates; each outcome must be known to be 1; cipher and key must be AES-256-GCM and the object's key; the nonce must be a buffer that a random-generator call known to have succeeded filled in
the same call of encrypt; what is encrypted must be exactly the text, what is returned nonce, ciphertext, tag with exactly their lengths, and opening must take apart the same layout. toToken and fromToken must chain the three steps, each on
the result of the one before. The constructor may return only with 32 key bytes and a context, and may throw only with the context freed.""")
ASSUMES = ["OpenSSL behaves as documented", "no text is longer than 2 GiB"]
G = ("ghost",); EV = (G, "ev")
IV, TAG = 12, 16
def q(st): return st.env.get(EV, ("q",))[1:]
class Seal(Views):
    lib_throws = lambda s, n, x: False
    bad = None
    def skey(s, st): return q(st)
    def fail(s, st, fr, n, key, msg): s.bad(key, msg, fr.fn, n.l if n is not None else fr.fn.line, st.tr)
    def force_inline(s, fn): return super().force_inline(fn) or "/token/" in fn.file
    def note(s, st, ev): st = st.cp(); st.env[EV] = ("q",) + q(st) + (ev,); return st
    def on_ctor(s, st, fr, n, name, p, args):
        base = name.removesuffix("::(ctor)"); v = [s.val(st, a) for a in args]; a = call_args(n)
        if base == "std::vector":
            v = [x for x in v if not (x[0] == "empty" and "allocator" in str(x))]
            if not v or len(v) <= 2 and not a[0].t.endswith("*") and "vector" not in a[0].t and "initializer" not in a[0].t: return [st.write(p, ("vec", v[0] if v else C(0), n.fn.id, n.id))]
            if len(v) == 2 and ptr(v[0])[0] == ptr(v[1])[0]: b, o = ptr(v[0]); return [st.write(p, ("copy", b, o, ladd(ptr(v[1])[1], o, -1)))]
        if base == "std::basic_string" and len(v) >= 2 and a[0].t.endswith("*"): return [st.write(p, ("cat", (v[0], v[1])))]
        if base == "std::basic_string" and not v: return [st.write(p, ("cat",))]
        return super().on_ctor(st, fr, n, name, p, args)
    def size(s, t):
        if t[0] == "vec": return t[1]
        if t[0] == "copy": return t[3]
        return vlen(t)
    def viewcall(s, n, st, fr, name, short, obj, args, argn):
        cls = name.rsplit("::", 1)[0]
        if cls in ("std::vector", "std::basic_string") and isinstance(obj, Loc):
            t = st.read(obj.p); v = [s.val(st, a) for a in args]
            if cls == "std::vector" or t[0] == "cat":
                if short in ("data", "begin") and t[0] != "cat": return [(st, mkptr(t, C(0)))]
                if short == "end" and t[0] != "cat": return [(st, mkptr(t, s.size(t)))]
                if short == "size" and t[0] in ("vec", "copy"): return [(st, s.size(t))]
                if short == "resize" and t[0] == "vec" and v: return [(st.write(obj.p, t[:1] + (v[0],) + t[2:]), ("void",))]
                if short == "reserve": return [(st, ("void",))]
                if short == "append" and t[0] == "cat" and len(v) == 2: return [(st.write(obj.p, t + ((v[0], v[1]),)), obj)]
                if short in ("append", "operator+=") and t[0] == "cat" and len(v) == 1 and v[0][0] == "cat": return [(st.write(obj.p, t + v[0][1:]), obj)]
        if name == "std::operator+" and len(args) == 2 and all((w := s.val(st, a))[0] == "cat" for a in args): return [(st, s.val(st, args[0]) + s.val(st, args[1])[1:])]
        return super().viewcall(n, st, fr, name, short, obj, args, argn)
    def on_call(s, st, fr, n, name, obj, args):
        if name.startswith(("EVP_", "RAND_")):
            v = tuple(s.val(st, a) for a in args); k = len(q(st)); r = ("sym", ("evp", name, k))
            if name in ("EVP_aes_256_gcm",): return [(st, ("cipher", name))]
            if name.startswith("EVP_aes") or name.startswith("EVP_chacha"): return [(st, ("cipher", name))]
            s.count_("cryptographic calls")
            st = s.note(st, (name, v, r))
            if name.endswith(("Update", "Final_ex", "Final")) and len(v) > 2 and v[2][0] == "addr": st = st.write(v[2][1], ("sym", ("outlen", k)))
            return [(st, r if name not in ("EVP_CIPHER_CTX_free",) else ("void",))]
        if name.split("::")[-1] in s.chain:
            v = tuple(s.val(st, a) for a in args); k = len(q(st))
            return [(s.note(st, (name.split("::")[-1], v, ("sym", ("step", k)))), ("sym", ("step", k)))]
        return super().on_call(st, fr, n, name, obj, args)
    chain = ()
    def is1(s, st, r): return s.prove(st, T_cmp("==", r, C(1)))
def same(s, st, a, b): return a == b or s.prove(st, T_cmp("==", a, b))
def ptrs(t, b, o, s, st):
    x, y = ptr(t); return x == b and same(s, st, y, o)
ONLY = None
def check(ctx):
    m = ctx.model("net")
    def engine(f, steps=()):
        e = Seal(m); e.chain = steps; e.budget = 200000; e.count_ = ctx.count
        e.bad = lambda key, msg, fn, line, path: ctx.violation(f"{key}:{f.short}", msg, fn=fn, line=line, path=path or ())
        ctx.analysed(f); ctx.count("functions"); return e
    cls = lambda n: sorted((f for f in m.fns.values() if f.body is not None and f.n == n), key=lambda f: f.full)
    A = "HX::net::token::Aes256Gcm::"
    ctx.rule("sealing: fresh random nonce, every step checked, nonce, ciphertext and tag written in the order opening expects")
    for f in cls(A + "encrypt"):
        e = engine(f)
        class FR: fn = f
        P = (("root", f.params[0][1], f.params[0][0]),)
        def no(msg, x, key="seal"): e.fail(x, FR, None, key, msg)
        for kind, x, v in e.run(f, (), St()):
            if kind != "ret": continue
            ctx.count("paths"); ev = q(x); names = [a[0] for a in ev]
            text = x.read(P); n = vlen(text); b0 = view(text)
            v = x.read(v.p) if isinstance(v, Loc) else v
            init = [a for a in ev if a[0] == "EVP_EncryptInit_ex"]; upd = [a for a in ev if a[0] == "EVP_EncryptUpdate"]; fin = [a for a in ev if a[0] == "EVP_EncryptFinal_ex"]
            tag = [a for a in ev if a[0] == "EVP_CIPHER_CTX_ctrl"]; rnd = [a for a in ev if a[0].startswith("RAND_")]
            if not (len(init) == len(upd) == len(fin) == len(tag) == 1) or [a[0] for a in ev if a in init + upd + fin + tag] != ["EVP_EncryptInit_ex", "EVP_EncryptUpdate", "EVP_EncryptFinal_ex", "EVP_CIPHER_CTX_ctrl"]: no("sealing does not run initialise, encrypt, finish, fetch tag", x); continue
            init, upd, fin, tag = init[0], upd[0], fin[0], tag[0]
            for a in (init, upd, fin, tag):
                if not e.is1(x, a[2]): no(f"{a[0]} may have failed and its result is used", x, "unchecked")
                if a[1][0] != init[1][0]: no(f"{a[0]} runs on another context", x)
            iv = init[1][4]; ib, io = ptr(iv)
            r = [a for a in rnd if ptr(a[1][0])[0] == ib and same(e, x, ptr(a[1][0])[1], io)]
            if init[1][1] != ("cipher", "EVP_aes_256_gcm"): no("the cipher is not AES-256-GCM", x, "cipher")
            if not is_key(e, x, init[1][3]): no("the key is not the object's key", x, "key")
            if len(r) != 1 or ev.index(r[0]) > ev.index(init) or not same(e, x, r[0][1][1], C(IV)): no("the nonce is not filled with random bytes before it is used", x, "nonce"); continue
            if not e.is1(x, r[0][2]): no("the random generator may have failed and its nonce is used", x, "nonce")
            if not ptrs(upd[1][3], b0[0], b0[1], e, x) or not same(e, x, upd[1][4], n): no("what is encrypted is not exactly the text", x, "text")
            cb, co = ptr(upd[1][1]); k = ev.index(upd); l1 = ("sym", ("outlen", k)); l2 = ("sym", ("outlen", ev.index(fin)))
            if not ptrs(fin[1][1], cb, ladd(co, l1), e, x): no("finishing does not write behind the ciphertext", x, "layout")
            if cb[0] == "vec" and not e.prove(x, T_cmp(">=", ladd(e.size(cb), co, -1), n)): no("the ciphertext buffer is too short", x, "room")
            if tag[1][2] != C(TAG) or tag[1][1] != C(16): no("the tag fetched is not the whole tag", x, "tag")
            tb, to = ptr(tag[1][3])
            if tb[0] == "vec" and not e.prove(x, T_cmp(">=", ladd(e.size(tb), to, -1), C(TAG))): no("the tag buffer is too short", x, "room")
            want = [(mkptr(ib, io), C(IV)), (mkptr(cb, co), ladd(l1, l2)), (mkptr(tb, to), C(TAG))]
            if v[0] != "cat" or len(v) != 4 or any(not (a[0] == w[0] and same(e, x, a[1], w[1])) for a, w in zip(v[1:], want)): no("the sealed text is not nonce, ciphertext, tag", x, "layout")
    ctx.rule("opening: nothing is returned unless the tag was set and verified over exactly the bytes sealed")
    for f in cls(A + "decrypt"):
        e = engine(f)
        class FR: fn = f
        P = (("root", f.params[0][1], f.params[0][0]),)
        def no(msg, x, key="open"): e.fail(x, FR, None, key, msg)
        for kind, x, v in e.run(f, (), St()):
            if kind != "ret": continue
            ctx.count("paths"); ev = q(x)
            text = x.read(P); b, S, E = view(text); n = ladd(E, S, -1)
            v = x.read(v.p) if isinstance(v, Loc) else v
            init = [a for a in ev if a[0] == "EVP_DecryptInit_ex"]; upd = [a for a in ev if a[0] == "EVP_DecryptUpdate"]; fin = [a for a in ev if a[0] == "EVP_DecryptFinal_ex"]
            tag = [a for a in ev if a[0] == "EVP_CIPHER_CTX_ctrl"]
            if not (len(init) == len(upd) == len(fin) == len(tag) == 1): no("opening does not initialise, decrypt, set the tag and finish once each", x); continue
            init, upd, fin, tag = init[0], upd[0], fin[0], tag[0]
            ix = ev.index
            if not ix(init) < ix(upd) < ix(fin) or not ix(init) < ix(tag) < ix(fin): no("the tag is not set before the text is verified", x, "order"); continue
            for a in (init, upd, fin, tag):
                if not e.is1(x, a[2]): no(f"{a[0]} may have failed and the text is returned", x, "unchecked")
                if a[1][0] != init[1][0]: no(f"{a[0]} runs on another context", x)
            if init[1][1] != ("cipher", "EVP_aes_256_gcm"): no("the cipher is not AES-256-GCM", x, "cipher")
            if not is_key(e, x, init[1][3]): no("the key is not the object's key", x, "key")
            if not e.prove(x, T_cmp(">=", n, C(IV + TAG))): no("the text may be shorter than nonce and tag", x, "short")
            if not ptrs(init[1][4], b, S, e, x): no("the nonce is not the first 12 bytes", x, "layout")
            if not ptrs(upd[1][3], b, ladd(S, C(IV)), e, x) or not same(e, x, upd[1][4], ladd(n, C(-IV - TAG))): no("what is decrypted is not exactly what lies between nonce and tag", x, "layout")
            if tag[1][1] != C(17) or tag[1][2] != C(TAG) or not ptrs(tag[1][3], b, ladd(E, C(-TAG)), e, x): no("the tag set is not the last 16 bytes", x, "layout")
            pb, po = ptr(upd[1][1]); l1 = ("sym", ("outlen", ix(upd))); l2 = ("sym", ("outlen", ix(fin)))
            if not ptrs(fin[1][1], pb, ladd(po, l1), e, x): no("finishing does not write behind the text", x, "layout")
            if pb[0] == "vec" and not e.prove(x, T_cmp(">=", ladd(e.size(pb), po, -1), upd[1][4])): no("the text buffer is too short", x, "room")
            if v[0] != "cat" or len(v) != 2 or v[1][0] != mkptr(pb, po) or not same(e, x, v[1][1], ladd(l1, l2)): no("the text returned is not exactly what was decrypted", x, "result")
    ctx.rule("tokens: written value, sealed, encoded; decoded, opened, read: each step takes the result of the one before")
    W, R = ["toJson", "encrypt", "base64UrlEncode"], ["base64UrlDecode", "decrypt", "fromJson"]
    for name, order in (("toToken", W), ("fromToken", R)):
        for f in cls("HX::net::token::TokenApi::" + name):
            e = engine(f, tuple(order))
            class FR: fn = f
            for kind, x, v in e.run(f, (), St()):
                if kind != "ret": continue
                ctx.count("paths"); ev = q(x)
                def no(msg): e.fail(x, FR, None, "chain", msg)
                if [a[0] for a in ev] != order: no(f"the steps are {[a[0] for a in ev]}, not {order}"); continue
                has = lambda i, t: any(t in walk_term(y) for y in ev[i][1])
                if not has(1, ev[0][2]) and name == "fromToken" or not has(2, ev[1][2]): no("a step does not take the result of the one before")
                if name == "toToken" and not (isinstance(v, tuple) and ev[2][2] in walk_term(v)): no("the token returned is not the encoded text")
    ctx.rule("a key that is not 32 bytes is refused, and a refused object leaves no context behind")
    for f in [f for f in m.fns.values() if f.body is not None and f.clsn == A[:-2] and f.short == "(ctor)" and len(f.params) == 1 and "basic_string" in f.params[0][2]]:
        e = engine(f)
        class FR: fn = f
        P = (("root", f.params[0][1], f.params[0][0]),)
        for kind, x, v in e.run(f, (), St()):
            ctx.count("paths"); ev = q(x); n = vlen(x.read(P))
            if kind == "ret" and not e.prove(x, T_cmp("==", n, C(32))): e.fail(x, FR, None, "keysize", "a key of another length than 32 bytes is accepted")
            new = [a for a in ev if a[0] == "EVP_CIPHER_CTX_new"]; free = [a for a in ev if a[0] == "EVP_CIPHER_CTX_free"]
            for a in new:
                if kind == "ret" and not e.prove(x, T_cmp("!=", a[2], C(0))): e.fail(x, FR, None, "context", "a missing context is accepted")
                if kind != "ret" and not any(a[2] in b[1] for b in free) and not e.prove(x, T_cmp("==", a[2], C(0))): e.fail(x, FR, None, "leak", "the constructor fails and leaves its context behind")
    ctx.at_least("functions", 5); ctx.at_least("paths", 6); ctx.at_least("cryptographic calls", 8)
def is_key(e, x, t):
    b, o = ptr(t); return x.read((("root", "this"), "_key")) == b and same(e, x, o, C(0)) or b == ("in", (("root", "this"), "_key"))
