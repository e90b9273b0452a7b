"""C02: the server survives any document content, position and file system content."""
import os

from vlib import core, corpus, lsp

METHODS = ["textDocument/completion", "textDocument/hover", "textDocument/definition", "textDocument/references",
           "textDocument/signatureHelp", "textDocument/rename"]
GOOD = "<?php\nnamespace Alive;\nclass StillAlive { public function pulse() { return 1; } }\n$x = new StillAlive();\n$x->pulse();\n"


def ask(s, c, m, uri, line, ch):
    kw = {}
    if m.endswith("rename"):
        kw["newName"] = "zz"
    if m.endswith("references"):
        kw["context"] = {"includeDeclaration": True}
    try:
        s.pos(m, uri, line, ch, **kw)
    except lsp.RPCError as ex:
        if "did not reply" in str(ex.err):
            s.srv.wait_for(lambda: s.srv.eof, wall=20)
            raise s.srv.died() if s.srv.eof else ex
    c.evals += 1
    c.note(m.split("/")[1])


def alive(s, c):
    """The server still answers correctly about a well-formed document."""
    u = s.uri("alive.php")
    s.open(u, GOOD)
    r = s.pos("textDocument/definition", u, 4, 5)
    if not (r and r[0]["uri"] == u and r[0]["range"]["start"] == {"line": 2, "character": 19}):
        c.violate("not-working", "after the workload the server no longer answers about a well-formed document: %r" % r)
    sy = s.srv.call("textDocument/documentSymbol", {"textDocument": {"uri": u}})
    if not sy:
        c.violate("not-working", "documentSymbol of a well-formed document is empty after the workload")
    s.close(u)


def docs_case(box, c, p):
    r = core.rng_for("C02", p["seed"], p["i"])
    pf = core.ParseFilter(p["filter"])
    box.fresh_ws()
    s = box.session()
    for j in range(3):
        s.write("f%d.php" % j, "<?php\n")
    s.start()
    cur = None
    try:
        for n in range(p["n"]):
            f = "f%d.php" % r.randrange(3)
            u = s.uri(f)
            text = corpus.hostile(r)
            if not pf.ok(text):
                c.note("set aside: the parser library loops")
                continue
            cur = text
            mode = r.random()
            if mode < .25:
                s.write(f, text)
                s.watch((u, 2))
                if r.random() < .5:
                    s.settle()
                c.note("through the disk")
            elif mode < .5:
                s.open(u, text)
                c.note("opened")
            else:
                s.change(u, [{"text": text}])
                c.note("full change")
            lines = corpus.lsp_lines(text)
            for _ in range(7):
                ln = r.randrange(len(lines))
                ch = r.randrange(corpus.u16(lines[ln]) + 1)
                q = r.random()
                if q < .3:
                    ln = len(lines) - 1
                    ch = corpus.u16(lines[ln])
                elif q < .34:
                    ln, ch = r.choice([(len(lines) + 3, 0), (ln, 100000), (2**31 - 1, 2**31 - 1), (0, 0)])
                ask(s, c, r.choice(METHODS), u, ln, ch)
            s.srv.call("textDocument/documentSymbol", {"textDocument": {"uri": u}})
            s.srv.call("documentSignatures", {"uri": u})
            if r.random() < .15:
                s.symbols(r.choice(["a", "Foo", "", "é", "\\", "x\\y", "*", "(", "日"]))
            c.evals += 2
            c.seen(text)
            if r.random() < .3:
                s.close(u)
        alive(s, c)
        for x in s.finish():
            c.violate("wire", x)
    except (lsp.ServerDied, lsp.Hang) as ex:
        what = ex.stderr if isinstance(ex, lsp.ServerDied) else str(ex)
        c.violate("crash" if isinstance(ex, lsp.ServerDied) else "hang",
                  "document %r: %s\n%s" % (cur, ex, what[:3000]))
    finally:
        pf.close()
        s.abandon()


def typing_case(box, c, p):
    """Every prefix of a program, typed one edit at a time, asking at the cursor."""
    r = core.rng_for("C02t", p["seed"], p["i"])
    pf = core.ParseFilter(p["filter"])
    box.fresh_ws()
    s = box.session()
    s.write("t.php", "<?php\n")
    s.write("o.php", corpus.SEEDS[r.randrange(4)])
    s.start()
    u = s.uri("t.php")
    src = corpus.SEEDS[p["src"] % 4]
    a = r.randrange(max(1, len(src) - p["n"]))
    src = src[:a] + src[a:a + p["n"]]
    text = src[:a]
    cur = text
    try:
        if not pf.ok(text):
            text = "<?php\n"
            src = "<?php\n" + src[a:]
            a = 6
        s.open(u, text)
        k = a
        while k < len(src):
            step = r.choice([1, 1, 1, 2, 5])
            ins = src[k:k + step]
            k += step
            new = text + ins
            if not pf.ok(new):
                c.note("set aside: the parser library loops")
                s.change(u, [{"text": new[:len(text)]}])
                text = new
                # jump over the text the parser library cannot digest
                while k < len(src) and not pf.ok(text):
                    text += src[k]
                    k += 1
                if not pf.ok(text):
                    break
                s.change(u, [{"text": text}])
                continue
            lines = corpus.lsp_lines(text)
            pos = {"line": len(lines) - 1, "character": corpus.u16(lines[-1])}
            if text.endswith("\r") and ins.startswith("\n"):
                s.change(u, [{"text": new}])
            else:
                s.change(u, [{"range": {"start": pos, "end": pos}, "text": ins}])
            text = cur = new
            lines = corpus.lsp_lines(text)
            ln, ch = len(lines) - 1, corpus.u16(lines[-1])
            ask(s, c, "textDocument/completion", u, ln, ch)
            if r.random() < .4:
                ask(s, c, r.choice(METHODS[1:]), u, ln, max(0, ch - r.randrange(3)))
            c.seen(text)
        c.note("typed prefixes", 1)
        alive(s, c)
        for x in s.finish():
            c.violate("wire", x)
    except (lsp.ServerDied, lsp.Hang) as ex:
        what = ex.stderr if isinstance(ex, lsp.ServerDied) else str(ex)
        c.violate("crash" if isinstance(ex, lsp.ServerDied) else "hang",
                  "typed document %r: %s\n%s" % (cur, ex, what[:3000]))
    finally:
        pf.close()
        s.abandon()


def disk_case(box, c, p):
    """Folders no one would write by hand: bytes, links, odd names, odd types, vanished files."""
    r = core.rng_for("C02d", p["seed"], p["i"])
    pf = core.ParseFilter(p["filter"])
    ws = box.fresh_ws()
    try:
        names = ["a.php", "b b.php", "c%20d.php", "e#f.php", "ünï.php", "日本.php", "dir/x.php", "dir/deep/er/y.php",
                 "q?.php", "p+q.php", "[z].php", "'k'.php", ".hidden.php", "node_modules/n.php", "UP.PHP", "t.php.txt"]
        for n in names:
            q = os.path.join(ws, n)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            k = r.randrange(6)
            if k == 0:
                b = bytes(r.randrange(256) for _ in range(r.randrange(0, 400)))
            elif k == 1:
                b = b"<?php " + bytes(r.randrange(128, 256) for _ in range(60)) + b" class A" + str(r.randrange(9)).encode() + b" {}"
            elif k == 2:
                b = b""
            else:
                b = corpus.hostile(r).encode("utf-8", "surrogatepass")
            if not pf.ok(b):
                b = b"<?php"
            with open(q, "wb") as f:
                f.write(b)
        os.makedirs(os.path.join(ws, "folder.php"))
        os.symlink("nowhere", os.path.join(ws, "dangling.php"))
        os.symlink(".", os.path.join(ws, "loop"))
        os.symlink("a.php", os.path.join(ws, "link.php"))
        os.makedirs(os.path.join(ws, "locked"))
        os.chmod(os.path.join(ws, "locked"), 0)
        s = box.session()
        s.start()
        for n in names + ["folder.php", "dangling.php", "loop", "link.php", "gone.php", "locked"]:
            u = s.uri(n)
            try:
                s.watch((u, r.choice([1, 2, 3])))
                ask(s, c, r.choice(METHODS), u, r.randrange(3), r.randrange(9))
                s.srv.call("textDocument/documentSymbol", {"textDocument": {"uri": u}})
            except lsp.RPCError:
                c.note("answered with an error")
            c.evals += 1
        s.settle()
        # odd URIs
        for u in ["", "file://", "file:///", "untitled:Untitled-1", "http://x/y.php", "file:///%zz.php", "no scheme", "file://host/share/a.php"]:
            try:
                ask(s, c, r.choice(METHODS), u, 0, 0)
            except lsp.RPCError:
                c.note("answered with an error")
            s.watch((u, r.choice([1, 2])))
            c.seen(u)
        s.settle()
        c.seen((p["i"], "disk"))
        alive(s, c)
        for x in s.finish():
            c.violate("wire", x)
    finally:
        pf.close()
        os.chmod(os.path.join(ws, "locked"), 0o755)


def loop_probe(box, c, p):
    """Known: the parser library never returns on a stray backslash in a use clause."""
    box.fresh_ws()
    s = box.session()
    s.start()
    u = s.uri("t.php")
    s.srv.RUNAWAY_CPU = 12.0
    s.srv.RUNAWAY_RSS_MB = 1500.0
    try:
        s.open(u, "<?php\nuse A B\\;\n")
        s.srv.call("textDocument/documentSymbol", {"textDocument": {"uri": u}})
        c.note("the parser library terminates on the probe")
    except lsp.Hang as ex:
        c.violate("parser-loop-use-clause", "a document with `use A B\\;` is never answered: %s" % str(ex)[:300])
    finally:
        s.abandon()
    c.evals += 1
    c.seen("loop probe")


def main():
    ck = core.Check("C02", rule="an evaluation is one answered request (or file event) about a hostile document; "
                                "distinct counts the different document texts, prefixes and URIs the server was made to read",
                    assumptions=["documents on which the third-party parser library itself never returns are set aside "
                                 "(and counted); one such document is probed and listed as a known finding"])
    binary = core.build_server()
    filt = core.build_overlay("parsefilter", "parsefilter")
    jobs = []
    base = dict(seed=ck.seed, filter=filt)
    nd, nt, nk = ck.n((16, 16, 8), (200, 160, 60))
    ck.run_cases("probe", loop_probe, [dict(base)], binary=binary)
    ck.run_cases("disk", disk_case, [dict(base, i=i) for i in range(nk)], binary=binary)
    ck.run_cases("typing", typing_case, [dict(base, i=i, src=i, n=160) for i in range(nt)], binary=binary)
    ck.run_cases("docs", docs_case, [dict(base, i=i, n=110) for i in range(nd)], binary=binary)
    ck.finish()
