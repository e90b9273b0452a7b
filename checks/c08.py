"""C08: a kill at any moment leaves an index from which the next start recovers completely."""
import os
import random
import re
import shutil
import time

from vlib import core, hist, lsp

PROBE = "<?php\n$a = new \\ArrayObject();\n$a->offsetGet(1);\necho strlen('x') . array_map();\nnew \\PDO();\n$b = new \\DateTime();\n$b->format('Y');\nE_ALL;\nstr_rep"
STUB_PROBES = [("hover", 1, 12), ("hover", 2, 8), ("hover", 3, 8), ("hover", 3, 24), ("hover", 4, 7), ("hover", 6, 8), ("hover", 7, 3),
               ("signatureHelp", 3, 12), ("completion", 8, 7)]
CALLS = "pwrite64,write,writev,ftruncate,truncate,rename,renameat,renameat2,unlink,unlinkat,fsync,fdatasync,msync,fallocate"


def stub_probes(h):
    u = core.path_uri(os.path.join(h.ws, "zz_probe.php"))
    return [("textDocument/" + m, {"textDocument": {"uri": u}, "position": {"line": l, "character": ch}}) for m, l, ch in STUB_PROBES]


def verdict(h, c, r, what):
    """Restart was done; the answers equal those of a fresh index."""
    u = core.path_uri(os.path.join(h.ws, "zz_probe.php"))
    pr = h.probes(r)
    sp = stub_probes(h)
    h.s.open(u, PROBE)
    got = hist.ask(h.s, pr + sp)
    h.s.close(u)
    f = h.fresh()
    f.open(u, PROBE)
    want = hist.ask(f, pr + sp)
    f.finish()
    for x, (m, p) in zip(want[len(pr):], sp):
        if not x or x == "null":
            raise lsp.Inconclusive("the stub probes are vacuous: %s %s" % (m, p))
    return hist.compare(c, "crash", got, want, pr + sp, "%s\n history %s (first: the restarted server, second: a fresh one)" % (what, h.log[-40:]))


def history_case(box, c, p):
    r = core.rng_for("C08", p["seed"], p["i"])
    pf = core.ParseFilter(p["filter"])
    clock = random.Random()
    try:
        h = hist.Hist(box, c, r, hist.Pool(r, nfiles=r.choice([3, 6, 9])), ok=pf.ok, slash=False)
        h.hold = False
        for phase in range(p["phases"]):
            for _ in range(r.randrange(1, 3)):
                for _ in range(r.randrange(1, 7)):
                    h.step()
                time.sleep(r.choice([0, 0, .002, .005, .01, .02, .04]) * clock.random())
                h.restart(kill=True, offline=r.choice([0, 0, 1, 3]), reopen=r.random() < .5)
                if r.random() < .4:
                    h.steps(r.randrange(0, 3))
            if not verdict(h, c, r, "killed during a history"):
                break
            c.note("verdicts after kills in histories")
        c.sample = "history %s" % h.log[:25]
        for x in h.s.finish():
            c.violate("wire", x)
    finally:
        pf.close()


def start_case(box, c, p):
    """Kills while the first index (stubs and workspace) is being built."""
    r = core.rng_for("C08s", p["seed"], p["i"])
    pf = core.ParseFilter(p["filter"])
    clock = random.Random()
    try:
        h = hist.Hist(box, c, r, hist.Pool(r, nfiles=8), ok=pf.ok, slash=False)
        h.hold = False
        h.s.finish()
        home = box.new_home()
        h.s = box.session(home=home)
        for _ in range(r.randrange(1, 4)):
            s = h.s.spawn()
            s.start("initialize", {"processId": 1, "rootUri": core.path_uri(h.ws), "capabilities": {},
                                   "workspaceFolders": [{"uri": core.path_uri(h.ws), "name": "ws"}]})
            s.notify("initialized", {})
            time.sleep(clock.random() * r.choice([.05, .3, 1.5, 2.5]))
            s.kill()
            c.note("kills during the first index")
            h.log.append("kill at start")
            h.offline(r.choice([0, 1, 2]))
        h.s.start()
        h.s.settle()
        verdict(h, c, r, "killed during the first index")
        c.note("verdicts after kills at start")
        c.sample = "history %s" % h.log[:25]
        for x in h.s.finish():
            c.violate("wire", x)
    finally:
        pf.close()


CREATE = CALLS + ",openat,mkdirat,flock,fcntl"


def create_case(box, c, p):
    """The kill lands on one of the first calls of a server which creates its storage."""
    r = core.rng_for("C08c", p["seed"], p["i"])
    pf = core.ParseFilter(p["filter"])
    try:
        h = hist.Hist(box, c, r, hist.Pool(r, nfiles=3), ok=pf.ok, slash=False)
        h.hold = False
        h.s.finish()
        h.s = box.session(home=box.new_home())
        plain = h.s.binary
        sh = os.path.join(box.root, "create.sh")
        for n in p["calls"]:
            with open(sh, "w") as f:
                f.write("#!/bin/sh\nexec strace -f -qq -e trace=%s -o /dev/null --inject=%s:signal=SIGKILL:when=%d %s \"$@\"\n" % (
                    CREATE, CREATE, n, plain))
            os.chmod(sh, 0o755)
            h.s.binary = sh
            s = h.s.spawn()
            try:
                s.start("initialize", {"processId": 1, "rootUri": core.path_uri(h.ws), "capabilities": {},
                                       "workspaceFolders": [{"uri": core.path_uri(h.ws), "name": "ws"}]})
                s.notify("initialized", {})
            except lsp.ServerDied:
                pass
            t0 = time.time()
            while not s.eof and time.time() - t0 < 100:
                time.sleep(.01)
            if not s.eof:
                s.stop()
                raise lsp.Inconclusive("the injected kill was not reached")
            s.kill()
            c.note("kills while the storage is created")
            c.seen(("create", n))
            h.log.append("kill at call %d of the creation" % n)
            h.offline(r.choice([0, 0, 1]))
        h.s.binary = plain
        h.s.start()
        verdict(h, c, r, "killed at the calls %s of the creation of the storage" % p["calls"])
        c.note("verdicts after kills while the storage is created")
        for x in h.s.finish():
            c.violate("wire", x)
    finally:
        pf.close()


def inject_case(box, c, p):
    """The kill lands exactly in front of the n-th write of the storage."""
    r = core.rng_for("C08i", p["seed"], p["i"])
    pf = core.ParseFilter(p["filter"])
    try:
        h = hist.Hist(box, c, r, hist.Pool(r, nfiles=8), ok=pf.ok, slash=False)
        h.hold = False
        plain = h.s.binary
        ctl = os.path.join(box.root, "kill-at")
        for _ in range(p["rounds"]):
            n = r.choice([r.randrange(1, 30), r.randrange(1, 150), r.randrange(1, 600)])
            h.s.finish(drop=False)
            if r.random() < .6:
                h.offline(r.randrange(1, 5))
            for x in (ctl, ctl + ".log"):
                os.path.exists(x) and os.unlink(x)
            with open(ctl, "w") as f:
                f.write("%d" % n)
            h.s.binary = p["killable"]
            h.s.env["VERIF_KILL_FILE"] = ctl
            s = h.s.spawn()
            s.start("initialize", {"processId": 1, "rootUri": core.path_uri(h.ws), "capabilities": {},
                                   "workspaceFolders": [{"uri": core.path_uri(h.ws), "name": "ws"}]})
            s.notify("initialized", {})
            for nme, t in h.open.items():
                h.s.open(h.uri(nme), t)
            died = False
            for _ in range(12):
                if s.eof:
                    died = True
                    break
                h.step()
                k = s.start("textDocument/codeLens", {"textDocument": {"uri": "file:///nowhere"}})
                try:
                    s.wait(k)
                except lsp.ServerDied:
                    died = True
                    break
            if not died:
                # orderly end instead
                s.stop()
            else:
                s.kill()
            c.note("kills in front of a chosen write" if died else "injection not reached")
            if died:
                c.seen(("write", n, h.log[-1:] if h.log else []))
            h.s.binary = plain
            os.unlink(ctl)
            h.log.append("kill at write %d" % n)
            if r.random() < .5:
                h.open = {}
            h.offline(r.choice([0, 0, 2]))
            h.s.start()
            for nme, t in h.open.items():
                h.s.open(h.uri(nme), t)
            h.s.settle()
            if not verdict(h, c, r, "killed in front of write %d of its storage" % n):
                break
            c.note("verdicts after injected kills")
        c.sample = "history %s" % h.log[:25]
        for x in h.s.finish():
            c.violate("wire", x)
    finally:
        pf.close()


UNSAVED = ["open", "change", "close", "recreate", "new"]


def decls(t):
    return set(re.findall(r"(?:class|interface|trait|function|const|define\(')\s*(\w+)", t))


def unsaved_case(box, c, p):
    """An editor shows text which differs from the file when the server is killed; the text is
    lost with the editor. Kills on each write-like system call of the request in turn."""
    r = core.rng_for("C08u", p["seed"], p["i"])
    pf = core.ParseFilter(p["filter"])
    try:
        h = hist.Hist(box, c, r, hist.Pool(r, nfiles=3), ok=pf.ok, slash=False)
        h.hold = False
        for n in h.pool.names:
            if n not in h.disk:
                h._put(n, h._text(n))
        n = r.choice(h.pool.names)
        mode = p["mode"]
        saved = h.disk[n]
        text = next((t for t in (h._text(n) for _ in range(30)) if decls(t) - decls(saved)), None)
        if text is None:
            raise lsp.Inconclusive("no other text for the file")
        if mode == "new":
            os.unlink(os.path.join(h.ws, n))
            del h.disk[n]
        h.s.finish()
        h.s = box.session(binary=h.s.binary)
        h.s.start()
        h.s.settle()
        h.s.finish(drop=False)
        home, plain = h.s.home, h.s.binary
        ctl = os.path.join(box.root, "kill-at")

        def run(to, k):
            """The server does what the mode asks for and is killed in front of the k-th write of its
            storage from there on (0: not at all). Returns (killed, kinds of writes)."""
            for x in (ctl, ctl + ".log"):
                os.path.exists(x) and os.unlink(x)
            s = box.session(home=to, binary=p["killable"], env={"VERIF_KILL_FILE": ctl})
            try:
                s.start()
                if mode == "change":
                    s.open(h.uri(n), saved)
                elif mode == "close":
                    s.open(h.uri(n), text)
                s.settle()
                with open(ctl, "w") as f:
                    f.write("%d" % k)
                if mode in ("open", "new"):
                    s.open(h.uri(n), text)
                elif mode == "change":
                    s.change(h.uri(n), [{"text": text}], 2)
                elif mode == "close":
                    s.close(h.uri(n))
                elif mode == "recreate":
                    os.unlink(os.path.join(h.ws, n))
                    s.watch((h.uri(n), 3))
                s.settle()
                os.unlink(ctl)
                s.srv.stop()
                killed = False
            except lsp.ServerDied:
                s.srv.kill()
                killed = True
            finally:
                if mode == "recreate" and not os.path.exists(os.path.join(h.ws, n)):
                    h._put(n, saved)
            return killed, open(ctl + ".log").read() if os.path.exists(ctl + ".log") else ""

        def copy():
            to = box.new_home()
            shutil.rmtree(to)
            shutil.copytree(home, to, symlinks=True)
            return to

        to = copy()
        killed, kinds = run(to, 0)
        box.drop_home(to)
        if killed or not kinds:
            raise lsp.Inconclusive("no writes seen for %s" % mode)
        # the writes of symbols and names first
        ks = [k for k in range(1, len(kinds) + 1) if kinds[k - 1] == "l"]
        rest = [k for k in range(1, len(kinds) + 1) if k not in ks]
        r.shuffle(ks)
        r.shuffle(rest)
        ks = sorted((ks + rest)[:p["kills"]])
        words = sorted(decls(saved) | decls(text))
        probes = [("workspace/symbol", {"query": w}) for w in words] + h.probes(r, 4)
        f = h.fresh()
        want = hist.ask(f, probes)
        f.finish()
        for k in ks:
            to = copy()
            killed, _ = run(to, k)
            c.note("kills while unsaved text is stored: " + mode if killed else "kill not reached")
            if killed:
                c.seen(("unsaved", mode, k, kinds))
            s = box.session(home=to, binary=plain)
            s.start()
            s.settle()
            got = hist.ask(s, probes)
            okay = hist.compare(c, "unsaved", got, want, probes, "killed in front of write %d (of %s) while the text %r of %s was stored by %s, "
                                "with %r in the file (first: the restarted server, second: a fresh one)" % (k, kinds, text[:300], n, mode, saved[:300]))
            c.note("verdicts after kills with unsaved text")
            for x in s.finish():
                c.violate("wire", x)
            box.drop_home(to)
            if not okay:
                break
        box.drop_home(home)
    finally:
        pf.close()


def main():
    ck = core.Check("C08", rule="distinct (request, non-trivial answer) compared with a fresh index after kills, and distinct kill points",
                    assumptions=["a kill ends the process; what the kernel holds of its writes survives (no power loss)"])
    b = core.build_server()
    kb = core.build_killable()
    flt = core.build_overlay("parsefilter", "parsefilter")
    base = dict(seed=ck.seed, filter=flt)
    ck.run_cases("start", start_case, [dict(base, i=i) for i in range(ck.n(16, 150))], binary=b)
    ck.run_cases("hist", history_case, [dict(base, i=i, phases=2) for i in range(ck.n(32, 800))], binary=b)
    ck.run_cases("unsaved", unsaved_case, [dict(base, i=i, killable=kb, mode=UNSAVED[i % len(UNSAVED)], kills=ck.n(5, 60)) for i in range(ck.n(10, 120))], binary=b)
    ck.run_cases("inject", inject_case, [dict(base, i=i, killable=kb, rounds=3) for i in range(ck.n(16, 500))], binary=b)
    if shutil.which("strace"):
        r = core.rng_for("C08n", ck.seed)
        calls = list(range(1, 61)) if ck.tier == "thorough" else sorted(r.sample(range(1, 17), 6) + list(range(17, 31)) + r.sample(range(31, 61), 12))
        ck.run_cases("create", create_case, [dict(base, i=n, calls=[r.randrange(1, 40)] * (r.random() < .2) + [n]) for n in calls], binary=b)
    ck.finish()
