"""The wire of an HTTP message: a grammar automaton over tape tokens with length accounting."""
from tape import *
DBG = 0
L = ("line", 0)

INTS = ("unsigned long", "uint64_t", "std::uint64_t", "size_t", "std::size_t")
def rangefn(g):
    """parses one byte range: text and file size in, closed interval or nothing out"""
    return g.body is not None and "optional<" in g.ret and g.ret.count("long") + g.ret.count("int64") + g.ret.count("size_t") == 2 and any("string" in t for _, _, t in g.params) and any(t in INTS for _, _, t in g.params)
class Wire(Tape):

    ghosts = ((G, "owed"), (G, "part"), (G, "sum"))
    probe = None            # collects the literals sent around multi-range parts
    overhead = None         # (end, per part)
    alone = ranges = False; parsed_ranges = splits_seen = 0
    def skey(s, st): return (super().skey(st), st.env.get((G, "rd")) is None, st.env.get((G, "exc")), st.env.get((G, "pr")) is None)
    def on_throw(s, st, fr, n): return [s.put1(st, exc=C(1))] if s.g(st, "exc") is None else None
    def relations(s, st):
        o = [(C(0), s.g(st, k)) for k in ("owed", "part") if s.g(st, k) is not None]
        return o
    def ishead(s, st):
        return any(f[0] == "ne0" and any(isinstance(x, tuple) and x == ("s", "HEAD") for x in walk_term(f)) for f in st.facts)
    def g(s, st, k, d=None): return st.env.get((G, k), d)
    def put1(s, st, **kw):
        st = st.cp()
        for k, v in kw.items():
            if v is None: st.env.pop((G, k), None)
            else: st.env[(G, k)] = v
        return st
    # ---------------------------------------------------------------- reading the file
    def on_call(s, st, fr, n, name, obj, args):
        sh = name.split("::")[-1]
        if name.endswith("AsyncFile::read") and args:
            p = args[0].p if isinstance(args[0], Loc) else None
            t = s.val(st, args[0]); b, S, E = view(t)
            lim = s.val(st, args[1]) if len(args) > 1 else ladd(E, S, -1)
            return [(st, ("rdcall", b, S, lim, n.id))]
        if name.endswith("AsyncFile::open"): return [(s.put1(st, at=None, from_=None), ("fileop", n.id))]
        if name.endswith("AsyncFile::close"): return [(st, ("fileop", n.id))]
        if name.endswith("AsyncFile::setOffset") and args:
            if s.g(st, "from_") is not None: s.bad("range-seek", "the file position is changed in the middle of a transfer", st)
            return [(s.put1(st, at=s.val(st, args[0])), ("void",))]
        g = s.m.fns.get(n.get("fn"))
        if g is not None and rangefn(g) and s.ranges:
            vs = [s.val(st, a) for a in args]; size = [v for (_, _, t), v in zip(g.params, vs) if t in INTS]
            s.sizecheck(st, size[0]); A, B = ("sym", ("ra", n.id, fr.id)), ("sym", ("rb", n.id, fr.id))
            st = st.cp(); st._kill_site(A); st._kill_site(B)
            none = s.put1(st, pr=None); s1 = s.put1(st, pr=("pair", A, B))
            for t in (nn(A), nn(ladd(B, A, -1)), nn(ladd(ladd(size[0], B, -1), C(-1)))): s1 = s1.assume(t)
            s.parsed_ranges += 1
            return [(none, ("ctor", "std::optional", ("in", (("v", 1, 0, "nullopt"),), ()))), (s1, ("ctor", "std::optional", ("ctor", "std::pair", A, B)))]
        if sh == "split" and args and s.ranges:
            b, S, E = view(s.val(st, args[0]))
            pre = [f[1][2][0][0][-1][1] for f in st.facts if f[0] == "ne0" and f[1][0] == "lin" and len(f[1][2]) == 1 and f[1][2][0][0][:2] == ("u", "bytes") and f[1][2][0][0][2] == b and f[1][2][0][0][3] == C(0) and f[1][2][0][0][-1][0] == "s"]
            if pre:
                s.splits_seen += 1
                if S != C(len(pre[0])) or not pre[0].startswith("bytes="): s.bad("range-prefix", f"the ranges are taken from offset {show(S)} of a header that starts with {pre[0]!r}", st)
                elif E != ("m", "size", b) and E[0] != "m": s.bad("range-prefix", "the end of the range header is cut off", st)
            elif "range" in repr(b): s.splits_seen += 1; s.bad("range-prefix", "the ranges are taken from a header whose unit was not checked", st)
        if sh in ("try_emplace", "emplace", "insert_or_assign") and isinstance(obj, Loc) and obj.p[:1] == THIS and len(obj.p) == 2 and len(args) == 2:
            kv = [s.val(st, a) for a in args]; key = obj.p + (("[]", kv[0]),)
            if sh == "insert_or_assign" or key not in st.env: st = st.write(key, kv[1])
            return [(st, ("u", "emplaced", n.id))]
        if sh in ("emplace_back", "push_back") and name.startswith("std::vector") and isinstance(obj, Loc) and s.partcls(n):
            return s.part(st, fr, n, obj, args)
        return super().on_call(st, fr, n, name, obj, args)
    def partcls(s, n):
        """the project class of the elements, when it is a head with the range it stands for"""
        o = call_obj(n); d = re.match(r"(?:const )?std::vector<([\w: ]+)>", o.t if o is not None else "")
        if not d: return None
        for c in s.m.classes.values():
            if c.full == d.group(1) or c.n == d.group(1):
                ts = [x["t"] for x in c.fields]
                if len([t for t in ts if "basic_string" in t]) == 1 and len([t for t in ts if t.startswith("unsigned")]) == 2: return c
        return None
    def part(s, st, fr, n, obj, args):
        c = s.partcls(n); names = [x["n"] for x in c.fields]; vals = dict.fromkeys(names)
        raw = None; s.partvecs = tuple(set(s.partvecs) | {obj.p})
        if len(args) == len(names):
            for x, a in zip(c.fields, args):
                vals[x["n"]] = s.val(st, a)
                if "basic_string" in x["t"]: raw = a
        elif len(args) == 1 and isinstance(args[0], Loc):
            for x in c.fields:
                q = args[0].p + (x["n"],); vals[x["n"]] = st.read(q)
                if "basic_string" in x["t"]: raw = Loc(q)
        elif len(args) == 1 and (t := s.val(st, args[0]))[0] in ("init", "ctor"):
            ts = t[-len(names):]
            for x, v in zip(c.fields, ts):
                vals[x["n"]] = v
                if "basic_string" in x["t"]: raw = v
        if raw is None or None in vals.values(): s.bad("part-unknown", "a part of a multi-range response is built in a way that is not understood", st); return [(st, ("void",))]
        toks = s.seq_of(st, raw); nums = [x["n"] for x in c.fields if x["t"].startswith("unsigned")]
        s.parts += 1
        cl = [t for t in toks if t[0] == "CL"]; cr = [t for t in toks if t[0] == "CR"]
        if not toks or toks[0][0] != "lit" or not toks[0][1].startswith("--"): s.bad("part-boundary", "a part of a multi-range response does not begin with the boundary line", st)
        elif toks[-1] != CRLF or not any(t[0] in ("H", "CL", "CR") for t in toks): s.bad("part-head", "the head of a part does not end with an empty line", st)
        r = s.crange(cr[0][1]) if cr else None
        if r is None: s.bad("range-part", "the head of a part has no Content-Range of the form a-b/size", st); return [(st.havoc(obj.p, ("parts", n.id)), ("void",))]
        a, b, size = r; ln = ladd(ladd(b, a, -1), C(1))
        for t, w in ((nn(ladd(b, a, -1)), "may be empty or reversed"), (nn(ladd(ladd(size, b, -1), C(-1))) if size else None, "may reach beyond the end of the file")):
            if t is not None and not s.prove(st, t): s.bad("range-invalid", f"a part {show(a)}-{show(b)} {w}", st)
        rem = [x for x in nums if ladd(vals[x], ln, -1) == C(0)]; beg = [x for x in nums if vals[x] == a]
        if not rem: s.bad("part-length", f"a part that is announced as {show(a)}-{show(b)} is not stored with that many bytes", st); return [(st.havoc(obj.p, ("parts", n.id)), ("void",))]
        if not beg: s.bad("range-part", f"a part that is announced as {show(a)}-{show(b)} is not stored with that beginning", st)
        s.fieldof = (next(x["n"] for x in c.fields if "basic_string" in x["t"]), (beg or [""])[0], rem[0])
        s.sizecheck(st, size)
        if cl and cl[0][1] != ("num", vals[rem[0]]): s.bad("part-length", f"the head of a part announces {show(cl[0][1])} bytes, its data has {show(ln)}", st)
        if s.g(st, "sum") is not None:
            st = s.put1(st, sum=ladd(ladd(s.g(st, "sum"), ladd(s.vsize(st, raw), ln)), C(s.overhead[1])))
        return [(st.havoc(obj.p, ("parts", n.id)), ("void",))]
    fieldof = None; partvecs = ()
    def join(s, a, b, site):
        n = super().join(a, b, site)
        for k in s.partvecs:
            if n.env.get(k, ("",))[0] == "phi": del n.env[k]
        return n
    def crange(s, toks):
        """(a, b, size) of 'bytes a-b/size'"""
        t = [x for x in toks if x != SP]
        if len(t) == 6 and t[0] == ("lit", "bytes") and t[2] == ("lit", "-") and t[4] == ("lit", "/") and t[1][0] == t[3][0] == "num":
            z = t[5][1] if t[5][0] == "num" else s.num_of(t[5])
            return t[1][1], t[3][1], z
    def num_of(s, t):
        b = t[1] if t[0] == "data" else t
        return b[1] if b[0] == "to_s" else None
    def sizecheck(s, st, z):
        s.ranges_seen += 1
        if z is None or not (z[0] == "u" and z[1] == "fsize" or "file_size" in repr(z) or "getFileSize" in repr(z)): s.bad("range-size", f"the size given in Content-Range is {show(z) if z else 'unknown'}, not that of the file", st)
    ranges_seen = 0
    def vsize(s, st, a): return vlen(s.val(st, a))
    def on_await(s, st, fr, n, v):
        t = s.val(st, v)
        if t[0] == "fileop": s.throw(st, fr, "?", n); return [(st, ("void",))]
        if t[0] == "rdcall":
            s.throw(st, fr, "?", n)
            old = s.g(st, "rd")
            if old is not None and s.g(st, "tape") != ("err",) and not s.prove(st, T_eq0(old[1])): s.bad("read-not-sent", "bytes read from the file are dropped: the file is read again before they were sent", st)
            sym = ("u", "rd", t[4]); st = st.cp(); st._kill_site(sym)
            st = st.assume(nn(sym)); st = st.assume(T_cmp("<=", sym, t[3])) if st is not None else None
            if st is None: return []
            s.reads += 1
            if s.g(st, "from_") is None and s.g(st, "tape") != ("err",):
                at = s.g(st, "at", C(0)); want = s.g(st, "want", C(0))
                if at != want and not s.prove(st, T_eq0(ladd(at, want, -1))): s.bad("range-start", f"the file is read from position {show(at)}, announced is {show(want)}", st)
                st = s.put1(st, from_=C(1))
            return [(s.put1(st, rd=("pair", sym, t[1], t[2])), sym)]
        return super().on_await(st, fr, n, v)
    # ---------------------------------------------------------------- the wire
    def headers(s, st):
        """values set in the header map, by lower-case name"""
        out = {}
        for p, v in st.env.items():
            if p[:1] == THIS and len(p) == 3 and "Headers" in str(p[1]) and isinstance(p[2], tuple) and p[2][0] == "[]":
                k = [x[1] for x in walk_term(p[2]) if isinstance(x, tuple) and len(x) == 2 and x[0] == "s" and isinstance(x[1], str)]
                if not k and (g := [x for x in walk_term(p[2]) if isinstance(x, tuple) and x[:1] == ("g",)]): k = [s.m.vars[g[0][2]].val["s"][1]] if g[0][2] in s.m.vars else []
                if k:
                    if v[0] == "addr": v = st.read(v[1])
                    out[k[0].lower()] = v
        return out
    def setval(s, v):
        b = view(v)[0]
        if b[0] == "ctor" and len(b) > 2: b = view(b[2])[0]
        if b[0] == "to_s": return ("num", b[1])
        if b[0] == "s": return ("lit", b[1])
        return ("data", b)
    def number(s, tok):
        if tok[0] == "num": return tok[1]
        if tok[0] == "lit" and tok[1].isdigit(): return C(int(tok[1]))
    def put(s, st, fr, n, toks):
        s.sends_seen += 1
        ph = s.g(st, "tape", L)
        for i, t in enumerate(toks):
            r = s.step(st, ph, t, n)
            if r is None: return st
            st, ph = r
        return s.put1(st, tape=ph)
    def step(s, st, ph, t, n):
        k = ph[0]
        def err(key, msg): s.bad(key, msg, st); return s.put1(st, tape=("err",)), ("err",)
        if k == "err": return st, ph
        if k == "line":
            if ph[1] % 2 == 1:
                if ph[1] == 5 and t == CRLF: return st, ("hdr", (), None)
                if ph[1] < 5 and t == SP: return st, ("line", ph[1] + 1)
            elif isval(t) and t[0] != "sp": 
                if t[0] == "data":
                    idx = [x for x in s.path_of(t[1]) if isinstance(x, tuple) and x[0] == "[]"] if s.path_of(t[1]) else []
                    if idx and idx[-1][1] != C(ph[1] // 2): return err("start-line", f"part {ph[1] // 2} of the start line is {show(t[1])}")
                return st, ("line", ph[1] + 1)
            return err("start-line", "the start line does not consist of three parts separated by single blanks and CRLF")
        if k == "hdr":
            if t[0] in ("H", "CL", "TE", "CR"): return st, ("hdr", tuple(sorted(set(ph[1]) | {t[0]})), t if t[0] in ("CL", "TE") else ph[2])
            if t == CRLF: return s.begin(st, ph, n, err)
            return err("header-line", f"something that is no header line ({show_ev(t)}) stands between the start line and the empty line")
        if k == "plain" or k == "none":
            return err("body-unannounced", "body bytes are sent although the head announces none")
        if k == "len": return s.body(st, ph, t, n, err)
        if k == "chunk":
            if ph[1] == "size":
                if t[0] == "hex":
                    return st, ("chunk", "crlf", t[1])
                return err("chunk-size", "a chunk does not start with its size in hexadecimal")
            if ph[1] == "crlf":
                if t != CRLF: return err("chunk-size", "the size of a chunk is not followed by CRLF")
                if ph[2] == C(0): return st, ("chunk", "last", 0)
                return st, ("chunk", "data", ph[2])
            if ph[1] == "data":
                if t[0] != "data" or ladd(t[3], t[2], -1) != ph[2]: return err("chunk-data", f"a chunk announces {show(ph[2])} bytes and carries something else")
                if not s.prove(st, ("ne0", lin(ph[2]))): return err("chunk-empty", "an empty chunk may be sent in the middle, which ends the body early")
                r = s.fromfile(st, t, err)
                return (s.put1(st, rd=None), ("chunk", "end", 0)) if r is None else r
            if ph[1] == "end":
                if t != CRLF: return err("chunk-end", "the data of a chunk is not followed by CRLF")
                return st, ("chunk", "size", 0)
            if ph[1] == "last":
                if t != CRLF: return err("chunk-last", "the closing chunk is not followed by an empty line")
                rd = s.g(st, "rd")
                if rd is None or not s.prove(st, T_eq0(rd[1])): return err("chunk-early", "the closing chunk is sent although the end of the file was not seen")
                return st, ("done",)
        if k == "done": return err("after-end", "something is sent after the message is complete")
        return st, ph
    def path_of(s, b): return b[1] if b[0] in ("in", "addr", "bufv") else None
    def begin(s, st, ph, n, err):
        hs = s.headers(st)
        if hs and "H" not in ph[1]:
            s.noheads.add(n.l); return st, ("err",)
        if "H" in ph[1]: s.heads.add(n.l)
        kinds = []
        if ph[2] is not None: kinds.append(ph[2])
        if "content-length" in hs: kinds.append(("CL", s.setval(hs["content-length"])))
        if "transfer-encoding" in hs: kinds.append(("TE", s.setval(hs["transfer-encoding"])[1]))
        if len(kinds) > 1: return err("two-framings", "the head announces its body in two ways")
        if not kinds:
            return st, ("stream",) if s.setval(hs.get("content-type", ("s", "")))[1] == "text/event-stream" else ("none",)
        if kinds[0][0] == "TE":
            if kinds[0][1] != "chunked": return err("te", "the transfer encoding announced is not 'chunked'")
            return st, ("chunk", "size", 0)
        v = s.number(kinds[0][1])
        if s.ranges: st = s.ranged(st, hs, v, ph)
        if v is None: return err("length-unknown", "the Content-Length sent is not a decimal number of bytes")
        st = s.put1(st, owed=v)
        if s.g(st, "sum") is not None and s.parts:
            d = ladd(v, s.g(st, "sum"), -1)
            if d == C(0) or s.prove(st, T_eq0(d)): return s.put1(st, part=C(0)), ("len", "multi")
            if s.multi(st): return err("total", "the Content-Length of a multi-range response is not the sum of what its parts and its end send")
        elif (s.probe is not None or s.ranges) and s.multi(st): return s.put1(st, part=C(0)), ("len", "multi")
        return st, ("len", "plain")
    heads_seen = 0
    def ranged(s, st, hs, v, ph):
        """status code, Content-Range and Content-Length of a head that is about to be sent"""
        code = None
        for p, t in st.env.items():
            if p[:1] == THIS and len(p) == 3 and p[2] == ("[]", C(1)) and t[0] == "to_s": code = t[1]
        if code is None or not is_c(code) or v is None: return st
        code = code[1]; cr = hs.get("content-range"); toks = None
        s.heads_seen += 1
        if cr is not None:
            toks = s.seq_of(st, cr); r = s.crange(toks)
            if r is not None:
                a, b, z = r; ln = ladd(ladd(b, a, -1), C(1))
                s.sizecheck(st, z)
                if code != 206: s.bad("range-status", f"a head with Content-Range {show(a)}-{show(b)} has the status {code}", st)
                if v != ln: s.bad("range-length", f"Content-Range {show(a)}-{show(b)} is sent with Content-Length {show(v)}", st)
                for t, w in ((nn(ladd(b, a, -1)), "may be empty or reversed"), (nn(ladd(ladd(z, b, -1), C(-1))) if z else None, "may reach beyond the end of the file")):
                    if t is not None and not s.prove(st, t): s.bad("range-invalid", f"the range {show(a)}-{show(b)} that is announced {w}", st)
                return s.put1(st, want=a)
            tx = [x for x in toks if x != SP]; flat = "".join(x[1] for x in tx if x[0] == "lit").replace(" ", "")
            if flat == "bytes*/" and tx[-1][0] == "num": s.sizecheck(st, tx[-1][1])
            else: s.bad("range-part", f"the Content-Range sent is neither 'bytes a-b/size' nor 'bytes */size'", st)
            if code != 416: s.bad("range-status", f"an unsatisfied range is answered with the status {code}", st)
            if v != C(0): s.bad("range-length", "an unsatisfied range is answered with a body", st)
            if s.g(st, "pr") is not None: s.bad("range-refused", "a valid range is refused", st)
            return st
        if s.multi(st):
            if code != 206: s.bad("range-status", f"a multi-range response has the status {code}", st)
            return st
        if code in (206, 416): s.bad("range-status", f"a head without Content-Range has the status {code}", st)
        elif code == 200 and s.isfile(v) is False: s.bad("range-length", f"the whole file is announced with Content-Length {show(v)}", st)
        return s.put1(st, want=C(0))
    def isfile(s, v): return "file_size" in repr(v) or "getFileSize" in repr(v) or v[0] == "u" and v[1] == "fsize" or None if is_c(v) or v[0] == "m" else "file_size" in repr(v) and v[0] == "sym"
    def multi(s, st):
        h = s.headers(st).get("content-type")
        return h is not None and "multipart/byteranges" in str(s.setval(h)[1])
    def fromfile(s, st, t, err):
        """the piece is the last read, or a whole buffer of the object; None when fine"""
        rd = s.g(st, "rd")
        if rd is not None:
            if t[1] == rd[2] and t[2] == rd[3] and ladd(ladd(t[3], t[2], -1), rd[1], -1) == C(0): return None
            return err("not-what-was-read", f"the bytes sent ({show(t[1])} from {show(t[2])}, {show(ladd(t[3], t[2], -1))} long) are not those the file gave")
        p = s.path_of(t[1])
        if p and p[:1] == THIS and t[2] == C(0) and t[3] == ("m", "size", t[1]): return None
        return err("data-origin", f"bytes are sent as body that neither the file nor the message body gave ({show(t[1])})")
    def size_of(s, t): return {"crlf": 2, "sp": 1, "col": 2}.get(t[0]) if t[0] != "lit" else len(t[1])
    def body(s, st, ph, t, n, err):
        if ph[1] == "multi":
            p = s.path_of(t[1]) if t[0] == "data" else None
            b = t[1] if t[0] == "data" else ("c", 0); sib = None
            if s.fieldof is not None and b[0] == "fld" and b[2] == s.fieldof[0]: sib = lambda x: item(b[1], x)
            elif p is not None and p[:1] != THIS and s.fieldof is not None and p[-1] == s.fieldof[0]: sib = lambda x: st.read(p[:-1] + (x,))
            if t[0] == "data" and s.g(st, "rd") is None and sib is not None:
                if s.g(st, "part") is not None and s.part_open(st): return err("part-short", "the next part begins before the bytes announced for this one were sent")
                return s.put1(st, part=sib(s.fieldof[2]), want=sib(s.fieldof[1]), from_=None), ph
            if t[0] == "data":
                r = s.fromfile(st, t, err)
                if r is not None: return r
                left = ladd(s.g(st, "part"), ladd(t[3], t[2], -1), -1)
                if not s.prove(st, nn(left)): return err("part-long", "more bytes are sent for a part than its head announces")
                return s.put1(st, part=left, rd=None), ph
            z = s.size_of(t)
            if z is None: return err("part-data", "something unexpected is sent in a multi-range body")
            if s.g(st, "part") is not None and s.part_open(st): return err("part-short", "a part ends before the bytes announced for it were sent")
            if s.probe is not None: s.probe.append((s.inloop(n), n.l, z))
            return st, ph
        if t[0] == "data":
            r = s.fromfile(st, t, err)
            if r is not None: return r
            left = ladd(s.g(st, "owed"), ladd(t[3], t[2], -1), -1)
            if not s.prove(st, nn(left)): return err("too-long", f"more body bytes are sent than announced ({show(left)} left)")
            return s.put1(st, owed=left, rd=None), ph
        return err("body-extra", f"something other than body bytes ({show_ev(t)}) is sent in a body of announced length")
    def part_open(s, st): return not s.prove(st, T_eq0(s.g(st, "part")))
    def inloop(s, n):
        return n.id in s.loopids

def runs(ctx, m, f, probe, overhead, ranges=False):
    e = Wire(m); e.noheads, e.heads = set(), set(); e.parts = e.reads = e.sends_seen = 0
    e.probe, e.overhead = probe, overhead
    e.ranges = ranges
    e.loopids = {x.id for l in f.walk() if l.k == "CXXForRangeStmt" for x in l.walk()}
    def bad(k, msg, st):
        if probe is None and k.startswith("range-") == ranges: ctx.violation(k, msg, f, path=steps(st))
    e.bad = bad
    st0 = St(mon=())
    if overhead is not None: st0.env[(G, "sum")] = C(overhead[0])
    e.out = e.run(f, (), st0)
    return e, bad
def sendfns(m):
    fs = [f for f in m.fns.values() if f.clsn.endswith(("net::HttpRequest", "net::HttpResponse")) and f.body is not None and not f.lam and f.coro]
    ids = {f.id for f in fs}
    called = {n.get("fn") for f in fs for n in f.walk() if is_call(n) and n.get("fn") in ids and n.get("fn") != f.id}
    return [f for f in fs if f.id not in called and sends(m, f)]
def sends(m, f, seen=()):
    for n in f.walk():
        if not is_call(n): continue
        if call_short(n) in Tape.sends: return True
        g = m.fns.get(n.get("fn"))
        if g is not None and g.clsn == f.clsn and g.coro and g.id not in seen and g.id != f.id and g.body is not None and sends(m, g, seen + (f.id,)): return True
    return False
def overhead(ctx, m, f):
    """literal bytes sent around the parts of a multi-range body: (once, per part)"""
    fs = [f] + [g for n in f.walk() if is_call(n) for g in [m.fns.get(n.get("fn"))] if g is not None and g.body is not None and g.clsn == f.clsn]
    if not any("multipart/byteranges" in (x or "") for g in fs for n in g.walk() for x in str_lits(n)): return None
    e, _ = runs(ctx, m, f, [], None)
    inl = {(l, z) for i, l, z in e.probe if i}; out = {(l, z) for i, l, z in e.probe if not i}
    return (sum(z for _, z in out), sum(z for _, z in inl))
