"""C22: concurrent work is free of data races and of deadlocks, and its outcome is that of a fresh server.

The server is built with the race detector; nothing is awaited between the steps, so requests, edits, the
indexing goroutines, the deletor, the debounced diagnostics and folder changes overlap."""
import os
import shutil
import threading
import time

from vlib import core, corpus, hist, lsp
from vlib.corpus import u16

STEPS = (["write"] * 4 + ["touch", "delete", "delete", "rename", "rmdir", "mvdir", "recreate", "flicker"] +
         ["open"] * 3 + ["edit"] * 12 + ["save", "save", "close"] + ["query"] * 12 + ["symbols"] * 2 + ["folder"] * 2)

OTHERS = ["ws2", "ws3"]


class Racy(hist.Hist):
    STEPS = STEPS
    added = ()

    def st_symbols(self):
        self.s.srv.start("workspace/symbol", {"query": self.r.choice(["gen_", "u", "Cl", "v0", "App"])})
        n = self._pick(list(self.disk) + list(self.open))
        if n:
            self.s.srv.start("textDocument/documentSymbol", {"textDocument": {"uri": self.uri(n)}})
        return []

    def st_folder(self):
        """Other folders come and go."""
        name = self.r.choice(OTHERS)
        f = {"uri": core.path_uri(os.path.join(self.box.root, name)), "name": name}
        gone = name in self.added
        self.s.srv.notify("workspace/didChangeWorkspaceFolders", {"event": {"added": [] if gone else [f], "removed": [f] if gone else []}})
        self.added = tuple(x for x in self.added if x != name) if gone else self.added + (name,)
        return []


def case(box, c, p):
    r = core.rng_for("C22", p["seed"], p["i"])
    pf = core.ParseFilter(p["filter"])
    try:
        others = [os.path.join(box.root, x) for x in OTHERS]
        for d in others:
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
        roots = [box.ws()] + others
        box.template(roots)
        for d, i in ((d, i) for d in others for i in range(12)):
            with open(os.path.join(d, "s%d.php" % i), "w") as f:
                f.write("<?php\nclass Second%d extends Second%d { function m%d() {} }\nfunction second_fn%d() { return new Second%d(); }\n" % (i, i + 1, i, i, i))
        pool = hist.Pool(r, nfiles=r.choice([3, 5, 8]))
        h = Racy(box, c, r, pool, ok=pf.ok, home=box.home_from_template(roots), wait=r.random() < .5, slash=False)
        for phase in range(p["phases"]):
            for _ in range(p["n"]):
                h.step()
                if r.random() < .05:
                    time.sleep(r.choice([.001, .01, .05, .3]))
            h.flush()
            while h.added:
                h.st_folder()
            h.s.settle()
            left = dict(h.s.srv.outstanding)
            if left:
                c.violate("unanswered", "requests never answered: %s" % list(left.items())[:5])
            h.s.srv.replies.clear()
            pr = h.probes(r, per_file=4)
            got = hist.ask(h.s, pr)
            f = h.fresh()
            want = hist.ask(f, pr)
            f.finish()
            c.note("overlapping histories compared")
            if not hist.compare(c, "stale", got, want, pr, "after %s (first: the running server, second: a fresh one)\n disk: %s open: %s" % (
                    h.log[-40:], sorted(h.disk), sorted(h.open))):
                break
        c.sample = "steps %s" % h.log[:40]
        for x in h.s.finish():
            c.violate(x.split("\n")[0] if x.startswith("race ") else "wire", x)
    finally:
        pf.close()


def removed(box, c, p):
    """A folder is removed while its files are being read into the index: reads of the store are slowed down."""
    r = core.rng_for("C22r", p["seed"], p["i"])
    d2 = os.path.join(box.root, "ws2")
    shutil.rmtree(d2, ignore_errors=True)
    os.makedirs(d2)
    f = {"uri": core.path_uri(d2), "name": "ws2"}
    box.template([box.ws(), d2])
    for i in range(10):
        with open(os.path.join(d2, "s%d.php" % i), "w") as fd:
            fd.write("<?php\nclass Gone%d extends Gone%d { function m%d() {} }\n" % (i, i + 1, i))
    box.fresh_ws()
    s = box.session(home=box.home_from_template([box.ws(), d2]), env={"VERIF_READ_DELAY_US": str(p["delay"])})
    s.write("a.php", "<?php\nfunction stays() {}\nclass Stays extends Gone3 {}\nstays();\n")
    s.start()
    try:
        for k in range(p["n"]):
            m = len(s.srv.server_requests)
            s.srv.notify("workspace/didChangeWorkspaceFolders", {"event": {"added": [f], "removed": []}})
            s.srv.wait_for(lambda: len(s.srv.server_requests) > m, "watching the added folder")
            for i in range(r.randrange(8)):
                s.watch((core.path_uri(d2 + "/s%d.php" % i), 2))
            time.sleep(r.random() * .1)
            s.srv.notify("workspace/didChangeWorkspaceFolders", {"event": {"added": [], "removed": [f]}})
            if r.random() < .7:
                s.settle()
            c.evals += 1
            c.note("folders removed while they were indexed")
            c.seen(("removed", p["delay"], k))
        s.settle()
        for q, want in (("Gone", []), ("stays", ["\\Stays", "\\stays"])):
            got = sorted(x["name"] for x in s.srv.call("workspace/symbol", {"query": q}) or [] if x["name"].lower().startswith(("\\gone", "\\stays")))
            if got != want:
                c.violate("removed folder", "after the second folder was removed %r finds %s" % (q, got))
        for x in s.finish():
            c.violate("wire", x)
    except lsp.ServerDied as e:
        c.violate("crash", "removing a folder whose files are being indexed: %s" % e)


def main():
    ck = core.Check("C22", rule="distinct (request, non-trivial answer) compared with a fresh server after overlapping work under the race detector")
    core.build_server()
    b = core.build_server(race=True)
    flt = core.build_overlay("parsefilter", "parsefilter")
    ck.run_cases("overlap", case, [dict(seed=ck.seed, i=i, filter=flt, phases=2, n=120) for i in range(ck.n(32, 800))], binary=b, race=True)
    ck.run_cases("removed", removed, [dict(seed=ck.seed, i=i, delay=[1000, 3000, 10000][i % 3], n=[16, 12, 4][i % 3]) for i in range(ck.n(12, 200))], binary=core.build_killable())
    ck.finish()
