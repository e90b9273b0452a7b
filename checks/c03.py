"""C03: every request is answered exactly once, in order, with its own id, whatever the framing."""
import json
import threading
import time

from vlib import core, hist, lsp

KNOWN_REQ = ["textDocument/codeLens", "textDocument/documentSymbol", "workspace/symbol", "textDocument/hover",
             "textDocument/definition", "textDocument/documentLink", "textDocument/foldingRange"]
UNKNOWN_REQ = ["textDocument/noSuchThing", "$/unknownRequest", "workspace/nothing", "foo", "é/日本"]
UNKNOWN_NOTE = ["$/cancelRequest", "$/setTrace", "workspace/noSuchNotification", "x", "textDocument/didNothing"]


def frame(body, r):
    h = [b"Content-Length: %d" % len(body)]
    if r.random() < .3:
        h.append(b"Content-Type: application/vscode-jsonrpc; charset=utf-8")
    if r.random() < .1:
        h.append(b"X-Custom:  a:b:c ")
    if r.random() < .5:
        h.reverse()
    return b"\r\n".join(h) + b"\r\n\r\n" + body


def enc(obj, r):
    k = r.random()
    if k < .4:
        s = json.dumps(obj)
    elif k < .7:
        s = json.dumps(obj, ensure_ascii=False, separators=(",", ":"))
    else:
        s = json.dumps(obj, indent=2, sort_keys=r.random() < .5, ensure_ascii=False)
    return s.encode("utf-8")


def text_of(n):
    return "<?php\nclass V%d { public function m%d() {} }\nfunction f%d() {}\n" % (n, n, n)


def pipeline_case(box, c, p):
    """A pipelined script of requests and notifications; replies are checked against the script."""
    r = core.rng_for("C03", p["seed"], p["i"])
    box.fresh_ws()
    s = box.session()
    s.write("a.php", text_of(0))
    s.start()
    u = s.uri("a.php")
    s.open(u, text_of(0))
    version = 0
    stream = []
    expect = []    # (key, kind, version)
    ids = iter(range(100000, 10**9, 7))

    def newid():
        k = r.random()
        n = next(ids)
        if k < .6:
            return n
        if k < .8:
            return "id-%d-é\"\\日" % n
        if k < .9:
            return "%d" % n
        return "x" * (1 + n % 50) + str(n)

    for _ in range(p["n"]):
        k = r.random()
        if k < .22:
            version += 1
            stream.append(frame(enc({"jsonrpc": "2.0", "method": "textDocument/didChange", "params": {
                "textDocument": {"uri": u, "version": version},
                "contentChanges": [{"text": text_of(version)}]}}, r), r))
        elif k < .55:
            i = newid()
            expect.append((s.srv.idkey(i), "symbols", version))
            s.srv.outstanding[s.srv.idkey(i)] = "documentSymbol"
            stream.append(frame(enc({"jsonrpc": "2.0", "id": i, "method": "textDocument/documentSymbol",
                                     "params": {"textDocument": {"uri": u}}}, r), r))
        elif k < .68:
            i = newid()
            expect.append((s.srv.idkey(i), "search", version))
            s.srv.outstanding[s.srv.idkey(i)] = "workspace/symbol"
            stream.append(frame(enc({"jsonrpc": "2.0", "id": i, "method": "workspace/symbol",
                                     "params": {"query": "v%d" % version}}, r), r))
        elif k < .8:
            i = newid()
            m = r.choice(UNKNOWN_REQ)
            expect.append((s.srv.idkey(i), "unknown", m))
            s.srv.outstanding[s.srv.idkey(i)] = m
            msg = {"jsonrpc": "2.0", "id": i, "method": m}
            if r.random() < .7:
                msg["params"] = r.choice([{}, [], {"a": [1, None, {"b": "é"}]}])
            stream.append(frame(enc(msg, r), r))
        elif k < .88:
            i = newid()
            m = r.choice(KNOWN_REQ[:6])
            expect.append((s.srv.idkey(i), "badparams", m))
            s.srv.outstanding[s.srv.idkey(i)] = m
            msg = {"jsonrpc": "2.0", "id": i, "method": m}
            if r.random() < .7:
                msg["params"] = r.choice([[1, 2], 5, "str", {"textDocument": 7}, {"textDocument": {"uri": 3}}])
                if m == "workspace/symbol" and isinstance(msg["params"], dict):
                    msg["params"] = {"query": 5}
                if m == "textDocument/codeLens":
                    expect[-1] = (expect[-1][0], "any", m)
            stream.append(frame(enc(msg, r), r))
        elif k < .95:
            msg = {"jsonrpc": "2.0", "method": r.choice(UNKNOWN_NOTE)}
            if r.random() < .8:
                msg["params"] = r.choice([{"id": 5}, [], {"value": "off"}, {"id": "zz"}])
            stream.append(frame(enc(msg, r), r))
        else:
            body = r.choice([b"{", b"[1,2", b"nonsense", b"{\"jsonrpc\":\"2.0\"", b"\xff\xfe", b"\"str\"", b"{}", b"[]", b"null",
                             b"{\"jsonrpc\":\"2.0\",\"id\":987654321,\"result\":null}",
                             b"{\"jsonrpc\":\"2.0\",\"id\":\"never\",\"error\":{\"code\":1,\"message\":\"m\"}}",
                             b"{\"jsonrpc\":\"2.0\",\"method\":5}"])
            stream.append(frame(body, r))
            c.note("malformed or stray message")
    blob = b"".join(stream)
    chunk = p["chunk"]

    def pump():
        k = 0
        rr = core.rng_for("C03pump", p["seed"], p["i"])
        while k < len(blob):
            n = len(blob) if chunk == 0 else rr.randrange(1, chunk + 1)
            try:
                s.srv.p.stdin.write(blob[k:k + n])
                s.srv.p.stdin.flush()
            except (BrokenPipeError, ValueError, OSError):
                return
            k += n
            if chunk and chunk < 2000 and rr.random() < .02:
                time.sleep(0.001)

    t = threading.Thread(target=pump, daemon=True)
    t.start()
    for key, kind, v in expect:
        msg = s.srv.wait(key, kind)
        c.evals += 1
        if kind == "symbols":
            if msg.get("error"):
                c.violate("error", "documentSymbol failed: %r" % msg)
                continue
            names = sorted(x["name"] for x in msg["result"] if x["name"].startswith("V"))
            if names != ["V%d" % v]:
                c.violate("order", "documentSymbol after change %d answered about %r" % (v, names))
        elif kind == "search":
            if msg.get("error"):
                c.violate("error", "workspace/symbol failed: %r" % msg)
        elif kind == "unknown":
            e = msg.get("error")
            if not e or e.get("code") != -32601:
                c.violate("unknown-method", "unknown method %r was answered with %r, expected error -32601" % (v, msg))
        elif kind == "badparams":
            e = msg.get("error")
            if not e or not isinstance(e.get("code"), int) or not isinstance(e.get("message"), str):
                c.violate("bad-params", "%s with invalid params was answered with %r, expected an error" % (v, msg))
            elif "did not reply" in e["message"]:
                c.violate("bad-params", "%s with invalid params made the handler give up: %r" % (v, msg))
        c.note("reply:" + kind)
    t.join(timeout=30)
    c.seen((p["i"], chunk, [e[1] for e in expect]))
    c.note("bytes sent", len(blob))
    # a large message in both directions
    big = "<?php\n" + "".join("function big%d_%s() {}\n" % (i, "x" * 40) for i in range(p["big"]))
    s.change(u, [{"text": big}])
    sy = s.srv.call("textDocument/documentSymbol", {"textDocument": {"uri": u}})
    c.evals += 1
    if len(sy) != p["big"]:
        c.violate("big", "a document with %d functions was answered with %d symbols" % (p["big"], len(sy)))
    for x in s.finish():
        c.violate("wire", x)


def overlap_script(r, n):
    """Edits of a declaring and a using document, requests about both; every request depends on the edits before it."""
    kinds = ["definition", "hover", "references", "completion", "signatureHelp", "documentSymbol", "symbol", "rename", "memberref"]
    state = dict(name="alpha", pad=1, uses=3, ret="One")
    out = []

    def decl():
        return ("<?php\n%sfunction %s(int $first, %s $second = null): %s { return new %s(); }\n"
                "class One { public function one_m() {} public $one_p; }\nclass Two { public function two_m() {} public $two_p; }\n%s" % (
                    "\n" * state["pad"], state["name"], state["ret"], state["ret"], state["ret"],
                    "".join("function fill_%d(int $a, string $b) { $c = $a; return $c . $b; }\n" % i for i in range(60))))

    def use():
        return "<?php\n$v = alpha(1, 2);\n$v->one_m();\nbeta(3, 4);\n$v->\n;alph\n%s%s" % (
            "alpha(5, 6);\nbeta(7);\n" * state["uses"], "".join("function ufill_%d() { alpha(1); }\n" % i for i in range(20)))
    out.append(("open", "a.php", decl()))
    out.append(("open", "b.php", use()))
    for _ in range(n):
        k = r.random()
        if k < .45:
            w = r.random()
            if w < .3:
                state["name"] = r.choice(["alpha", "beta"])
            elif w < .5:
                state["pad"] = r.randrange(1, 9)
            elif w < .75:
                state["ret"] = r.choice(["One", "Two"])
            else:
                state["uses"] = r.randrange(0, 9)
            f, t = r.choice([("a.php", decl()), ("b.php", use())]) if w < .75 else ("b.php", use())
            z = r.random()
            if z < .8:
                out.append(("change", f, t))
            else:
                out.append(("close", f, None))
                out.append(("open", f, t))
        else:
            kind = r.choice(kinds)
            pos = {"definition": ("b.php", r.choice([(1, 6), (2, 6), (3, 2)])), "hover": ("b.php", r.choice([(1, 6), (2, 6), (3, 2)])),
                   "references": ("b.php", r.choice([(1, 6), (3, 2)])), "memberref": ("b.php", (2, 6)),
                   "completion": ("b.php", r.choice([(4, 4), (5, 5)])), "signatureHelp": ("b.php", r.choice([(1, 11), (3, 7)])),
                   "rename": ("b.php", (2, 1)), "documentSymbol": (r.choice(["a.php", "b.php"]), None), "symbol": (None, None)}[kind]
            out.append((kind,) + pos)
    return out


def overlap_case(box, c, p):
    """The same script sent in one go and message by message: the requests must be answered alike."""
    r = core.rng_for("C03o", p["seed"], p["i"])
    script = overlap_script(r, p["n"])
    answers = []
    for pipelined in (False, True):
        box.fresh_ws()
        s = box.session()
        s.write("c.php", "<?php\nfunction gamma() { return alpha(); }\n")
        s.start()
        keys = []
        for kind, f, x in script:
            u = s.uri(f) if f else None
            if kind == "open":
                s.open(u, x)
            elif kind == "close":
                s.close(u)
            elif kind == "change":
                s.change(u, [{"text": x}])
            else:
                prm = {"textDocument": {"uri": u}}
                if x is not None:
                    prm["position"] = {"line": x[0], "character": x[1]}
                if kind in ("references", "memberref"):
                    prm["context"] = {"includeDeclaration": True}
                if kind == "rename":
                    prm["newName"] = "$renamed"
                m = "workspace/symbol" if kind == "symbol" else "textDocument/" + ("references" if kind == "memberref" else kind)
                if kind == "symbol":
                    prm = {"query": "beta"}
                k = s.srv.start(m, prm)
                keys.append((k, m, kind, None if pipelined else s.srv.wait(k, m)))
            if not pipelined:
                try:
                    s.srv.call("textDocument/codeLens", {"textDocument": {"uri": "file:///nowhere"}})
                except lsp.RPCError:
                    pass
        got = []
        for k, m, kind, msg in keys:
            msg = msg or s.srv.wait(k, m)
            got.append((kind, m, hist.canon(m, msg.get("result") if not msg.get("error") else {"error": msg["error"]})))
        answers.append(got)
        for x in s.finish():
            c.violate("wire", x)
    for k, (a, b) in enumerate(zip(*answers)):
        c.evals += 1
        c.note("overlap:" + a[0])
        if a[2] and a[2] != "null":
            c.seen(("overlap", a))
        if a != b:
            c.violate("overlap", "request %d (%s) of a pipelined script: answered %s, but %s when sent message by message" % (k, a[0], str(b[2])[:700], str(a[2])[:700]))


def lifecycle_case(box, c, p):
    """initialize / initialized / shutdown around real traffic, server to client requests, repeated initialize."""
    r = core.rng_for("C03l", p["seed"], p["i"])
    box.fresh_ws()
    replies = r.choice([None, "late", "error", "garbage"])

    def err(_):
        raise lsp.RPCError({"code": -32601, "message": "nope"})
    handlers = {}
    if replies == "late":
        handlers["client/registerCapability"] = lambda _: time.sleep(0.7)
    elif replies == "error":
        handlers["client/registerCapability"] = err
    elif replies == "garbage":
        handlers["client/registerCapability"] = lambda _: {"surprise": [1, 2, 3]}
    s = box.session(handlers=handlers)
    s.write("a.php", text_of(1))
    srv = s.spawn()
    try:
        srv.call("textDocument/documentSymbol", {"textDocument": {"uri": s.uri("a.php")}})
        c.note("request before initialize: result")
    except lsp.RPCError as ex:
        c.note("request before initialize: error")
        if "did not reply" in str(ex.err):
            c.violate("before-initialize", "a request before initialize made the handler give up: %s" % ex)
    res = srv.call("initialize", {"processId": None, "rootUri": core.path_uri(s.roots[0]), "capabilities": {},
                                  "workspaceFolders": [{"uri": core.path_uri(s.roots[0]), "name": "w"}]})
    if not res or "capabilities" not in res:
        c.violate("initialize", "initialize was answered with %r" % res)
    if r.random() < .5:
        try:
            srv.call("initialize", {"processId": None, "rootUri": None, "capabilities": {}})
        except lsp.RPCError:
            c.note("second initialize refused")
    srv.notify("initialized", {})
    ids = {}
    for k in range(p["n"]):
        ids[srv.start("textDocument/documentSymbol", {"textDocument": {"uri": s.uri("a.php")}})] = k
    for key in ids:
        m = srv.wait(key, "documentSymbol")
        c.evals += 1
        if m.get("error") or [x["name"] for x in m["result"]][:1] != ["V1"]:
            c.violate("startup", "documentSymbol during start-up was answered with %r" % (m,))
    rids = [m["id"] for m in srv.server_requests]
    if len(rids) != len(set(map(str, rids))):
        c.violate("ids", "the server reused request ids: %r" % rids)
    c.seen((p["i"], replies))
    c.note("client answers: %s" % replies)
    for x in s.finish():
        c.violate("wire", x)


def main():
    ck = core.Check("C03", rule="an evaluation is one request whose reply was compared with the script; distinct counts "
                                "different scripts of message kinds and chunkings",
                    assumptions=["headers are spelled as the LSP specifies; ids are integers or non-empty strings; "
                                 "the client answers the requests of the server (late, with errors or nonsense, but it answers)"])
    binary = core.build_server()
    base = dict(seed=ck.seed)
    n = ck.n(24, 300)
    chunks = [0, 1, 3, 7, 64, 4096, 100000, 0]
    ck.run_cases("pipeline", pipeline_case,
                 [dict(base, i=i, n=ck.n(150, 300), chunk=chunks[i % len(chunks)], big=400 + 997 * (i % 4)) for i in range(n)], binary=binary)
    ck.run_cases("overlap", overlap_case, [dict(base, i=i, n=ck.n(120, 300)) for i in range(ck.n(32, 400))], binary=binary)
    ck.run_cases("lifecycle", lifecycle_case, [dict(base, i=i, n=20) for i in range(ck.n(8, 60))], binary=binary)
    ck.finish()
