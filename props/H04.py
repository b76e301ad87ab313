"""Framing of outgoing HTTP messages."""
from wire import *
META = dict(title="Every HTTP message sent is framed completely and announces exactly its body",
    statement="Whatever request or response is sent - from memory, chunked from a file, as a whole file or as one or several ranges - the bytes on the wire are a start line of three parts, header lines and an empty line, followed by exactly the announced body: as many bytes as Content-Length says, or a sequence of chunks whose sizes match their data and which ends with the one empty chunk only at end of file. Every byte read from the file is sent once and in order, and a send that cannot keep the announcement ends with an exception instead of returning normally. Part headers of a multi-range response announce their own part correctly.",
    over=["inputs", "histories"], q="every body, header map, file size, list of ranges and sequence of short reads",
    why="A wrong length or a chunk boundary shows only for particular sizes, read boundaries or range lists, and tests compare a few small files.",
    files=["net/protocol/http/Request.hpp", "net/protocol/http/Response.hpp"],
    mech=[("request from memory / chunked", "net/protocol/http/Request.hpp sendHttpReq, sendChunkedReq"), ("response from memory", "net/protocol/http/Response.hpp sendRes, createResponseBuffer"), ("files and ranges", "net/protocol/http/Response.hpp useChunkedEncodingTransferFile, useRangeTransferFile")],
    technique="path-sensitive abstract interpretation of the send functions; what is sent is parsed by an HTTP grammar with linear length accounting",
    note="Header maps are taken as already valid lines. File contents, the correctness of std::format and std::to_string and what the operating system does with the bytes are outside.",
    design="""Each send function of the request and response classes is executed on every path (loops to a fixpoint) with its buffers as token sequences; every awaited send appends to an abstract wire that a grammar automaton parses. Content-Length
is kept as a linear term and reduced by each piece sent: it may never be exceeded and must be provably zero at a normal return. A data piece must be exactly what the last read of the file returned (or a whole body), a non-empty chunk must be proven non-empty, the closing
chunk needs a proven end of file, and bytes that were read must be sent before the next read. For multi-range bodies the sum over the parts is accounted for with the per-part overhead measured from the literals that are sent.""")
TUS = ["net"]
ASSUMES = ["header maps hold well-formed names and values and no second framing header", "the send buffer is empty when a response is started (H02)"]
def check(ctx):
    m = ctx.model("net")
    ctx.rule("tokens sent form start line, header lines, empty line, and the announced body; Content-Length minus bytes sent is zero at a normal return")
    ctx.rule("each piece of a file body is exactly the last read; the empty chunk exactly at end of file")
    overs = {}
    for f in sendfns(m):
        ctx.analysed(f); ctx.count("send functions")
        key = (f.rel, f.line, f.short)
        if key not in overs: overs[key] = overhead(ctx, m, f)
        over = overs[key]
        e, bad = runs(ctx, m, f, None, over)
        ctx.count("sends analysed", e.sends_seen); ctx.count("file reads", e.reads)
        complete = 0
        for k, st, v in e.out:
            if k != "ret": continue
            ctx.count("normal returns")
            ph = e.g(st, "tape", L)
            if ph == ("err",): continue
            complete += 1
            if ph[0] in ("line", "hdr"): bad("head-unfinished", "the function returns before a complete head was sent", st)
            elif ph[0] == "chunk": bad("chunks-unfinished", "the function returns before the closing chunk was sent", st)
            elif ph == ("len", "plain"):
                if not e.prove(st, T_eq0(e.g(st, "owed"))) and not (e.ishead(st) and e.reads >= 0 and e.g(st, "rd") is None): bad("too-short", f"the function returns normally with {show(e.g(st, 'owed'))} of the announced bytes unsent", st)
            elif ph == ("len", "multi") and e.g(st, "part") is not None and e.part_open(st): bad("part-short", "the last part is incomplete at a normal return", st)
        for l in e.noheads - e.heads: ctx.violation("headers-dropped", "the headers that were set are never sent", f, l)
        if not complete: ctx.violation("never-complete", "no path sends a complete message", f)
    ctx.at_least("send functions", 4); ctx.at_least("sends analysed", 8); ctx.at_least("normal returns", 4)
