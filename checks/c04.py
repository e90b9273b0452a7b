"""C04: work which is over leaves nothing behind: no goroutines, file descriptors, memory or space on the disk, however often it is repeated."""
import json
import os
import re
import signal
import time

from vlib import core, corpus, lsp

REQUESTS = ["definition", "hover", "references", "completion", "signatureHelp", "documentSymbol", "rename", "codeAction", "documentHighlight", "nothing"]


def body(r, tag, n):
    """A document of n classes."""
    return "<?php\nnamespace Work\\%s;\n" % tag + "".join(
        "/**\n * Number %d\n */\nclass A%d extends B%d {\n    public $p;\n    /** @return A%d */\n    public function m($x, array $l = []) {\n        $y = $x;\n        foreach ($l as $k => $v) { $y = fn() => $v->p ?? $k; }\n        return $this->m($y)->p;\n    }\n}\n"
        % (i, i, i % 7, (i * 3) % n) for i in range(n)) + "function run(A0 $a) {\n    $a->m(1, [])->p;\n    $unused = new A1();\n}\n"


class Probe:
    def __init__(self, s):
        self.s = s
        self.file = s.env["VERIF_PROBE_FILE"]

    def __call__(self):
        s = self.s
        s.settle()
        if os.path.exists(self.file):
            os.remove(self.file)
        s.srv.p.send_signal(signal.SIGUSR1)
        t = time.time()
        while not os.path.exists(self.file):
            time.sleep(.02)
            if s.srv.p.poll() is not None:
                raise lsp.ServerDied("the server ended", s.srv.stderr_tail())
            if time.time() - t > 120:
                raise lsp.Inconclusive("the probe does not answer")
        with open(self.file) as f:
            d = json.load(f)
        d["fds"] = len(os.listdir("/proc/%d/fd" % s.srv.p.pid))
        return d


def stacks(text):
    """Where goroutines are: top frames of this project -> how many."""
    out = {}
    for b in text.split("\n\n"):
        m = re.match(r"(?:goroutine profile.*\n)?(\d+) @", b)
        if m:
            fs = re.findall(r"^#\s+\S+\s+(\S+?)\+0x", b, re.M)
            k = next((f for f in fs if "phpintel" in f), fs[0] if fs else "?")
            out[k] = out.get(k, 0) + int(m.group(1))
    return out


class World:
    """Actions which end where they began."""

    def __init__(self, r, s, box, size):
        self.r, self.s, self.box, self.size = r, s, box, size
        self.k = 0
        self.seed = r.random()
        self.text = body(r, "Main", size)
        self.main = s.uri("main.php")
        s.open(self.main, self.text)

    def fresh(self):
        self.k += 1
        return self.k

    def edits(self):
        """Typing in an open document and undoing it."""
        s, lines = self.s, corpus.lsp_lines(self.text)
        for j in range(4):
            at = {"line": len(lines) - 2, "character": 0}
            end = {"line": len(lines) - 2, "character": len("$typed%d;;;" % j)}
            s.change(self.main, [{"range": {"start": at, "end": at}, "text": "$typed%d;;;" % j}])
            s.change(self.main, [{"range": {"start": at, "end": end}, "text": ""}])

    def full(self):
        self.s.change(self.main, [{"text": "<?php\nclass Other%d {}\n" % self.fresh()}])
        self.s.change(self.main, [{"text": self.text}])

    def reopen(self):
        self.s.close(self.main)
        self.s.settle()
        self.s.open(self.main, self.text)

    def unsaved(self):
        """A new document which is never saved."""
        u = self.s.uri("new%d.php" % self.fresh())
        self.s.open(u, self.text.replace("Main", "New"))
        self.s.change(u, [{"text": self.text.replace("Main", "Newer")}])
        self.s.close(u)

    def stray(self):
        u = "file:///elsewhere/new%d.php" % self.fresh()
        self.s.open(u, self.text)
        self.s.change(u, [{"text": self.text + "\n"}])
        self.s.close(u)

    def files(self):
        """A file comes, changes and goes."""
        rel = "lib/f%d.php" % self.fresh()
        u = self.s.uri(rel)
        for i, t in enumerate(["", "er"]):
            p = self.s.write(rel, self.text.replace("Main", "File%d%s" % (self.k % 3, t)))
            self.s.watch((u, 2 if i else 1))
            self.s.settle()
        os.remove(p)
        self.s.watch((u, 3))

    def folder(self):
        """A workspace folder comes and goes."""
        root = self.box.ws("second")
        os.makedirs(root, exist_ok=True)
        with open(os.path.join(root, "x.php"), "w") as f:
            f.write("<?php\nclass Second {}\n")
        ev = {"uri": core.path_uri(root), "name": "second"}
        n = len(self.s.srv.server_requests)
        self.s.srv.notify("workspace/didChangeWorkspaceFolders", {"event": {"added": [ev], "removed": []}})
        self.s.srv.wait_for(lambda: len(self.s.srv.server_requests) > n, "registration")
        self.s.settle()
        self.s.srv.notify("workspace/didChangeWorkspaceFolders", {"event": {"added": [], "removed": [ev]}})

    def ask(self):
        """Questions, sensible and senseless ones, some of which are cancelled."""
        r, s = core.rng_for("ask", self.seed), self.s
        lines = corpus.lsp_lines(self.text)
        ks = []
        for _ in range(12):
            m = r.choice(REQUESTS)
            i = r.randrange(len(lines))
            u = r.choice([self.main, self.main, s.uri("missing%d.php" % self.fresh()), "file:///elsewhere/%d.php" % self.k, "nonsense", "untitled:%d" % self.k])
            p = {"textDocument": {"uri": u}, "position": {"line": r.choice([i, i, i, 10 ** 6]), "character": r.randrange(len(lines[i]) + 3)},
                 "context": {"includeDeclaration": True}, "newName": "other"}
            k = s.srv.start("textDocument/" + m, p)
            ks.append((k, m))
            if r.random() < .3:
                s.srv.notify("$/cancelRequest", {"id": s.srv.next_id - 1})
        ks.append((s.srv.start("workspace/symbol", {"query": r.choice(["A1", "Work", "", "zzz", "run"])}), "symbol"))
        for k, m in ks:
            s.srv.wait(k, m)

    def garbage(self):
        """Messages which make no sense."""
        s = self.s
        for b in (b"{", b"[]", b"null", b"{\"jsonrpc\":\"2.0\",\"id\":%d,\"result\":null}" % (10 ** 6 + self.fresh()),
                  b'{"jsonrpc":"2.0","method":"textDocument/didChange","params":7}', b'{"jsonrpc":"2.0","method":"no/such","params":{}}'):
            s.srv.send_raw(b)
        s.change(s.uri("never-opened.php"), [{"text": "<?php\n"}])
        s.close(s.uri("never-opened.php"))


ACTIONS = ["edits", "full", "reopen", "unsaved", "stray", "files", "folder", "ask", "garbage"]


def growth(points, n):
    """What grew by about as much in each of the blocks of n cycles."""
    out = []
    for key, per in (("goroutines", .5), ("fds", .5), ("objects", .6), ("heap", 400)):
        steps = [b[key] - a[key] for a, b in zip(points, points[1:])]
        if min(steps) >= max(per * n, 3):
            out.append("%s: %s" % (key, [p[key] for p in points]))
    return out


def case(box, c, p):
    r = core.rng_for("C04", p["seed"], p["i"])
    box.fresh_ws()
    home = box.home_from_template([box.ws()])
    s = box.session(home=home, env={"VERIF_PROBE_FILE": os.path.join(home, "probe")})
    s.write("known.php", "<?php\nnamespace Work\\Main;\nclass B1 {}\n")
    s.start()
    w = World(r, s, box, p["size"])
    acts = [ACTIONS[p["i"] % len(ACTIONS)]] if p["i"] < len(ACTIONS) else r.sample(ACTIONS, r.randint(2, 4))
    n = p["n"]
    probe = Probe(s)

    def cycle():
        for a in acts:
            getattr(w, a)()
        s.settle()

    def block(k):
        for _ in range(k):
            cycle()
        time.sleep(2.3)  # delayed diagnostics hold their document for so long
        s.settle()
        return probe()
    block(4)
    points = [block(n) for _ in range(p["blocks"])]
    c.evals += 4 * (len(points) - 1)
    c.note("cycles", n * len(points))
    for a in acts:
        c.note("action " + a, n * len(points))
    for q in points:
        c.seen((tuple(acts), q["goroutines"], q["fds"], q["objects"]))
    bad = growth(points, n)
    if os.environ.get("VERIF_SHOW"):
        print(acts, [{k: v for k, v in q.items() if k not in ("stacks", "sites")} for q in points], flush=True)
    if os.environ.get("VERIF_SHOW"):
        a, b = points[0]["sites"], points[-1]["sites"]
        print("\n".join("%+d %s" % (b.get(k, 0) - a.get(k, 0), k) for k in sorted(set(a) | set(b), key=lambda k: -abs(b.get(k, 0) - a.get(k, 0)))[:12]))
    if bad:
        a, b = stacks(points[0]["stacks"]), stacks(points[-1]["stacks"])
        c.violate("grows " + bad[0].split(":")[0], "after each %d repetitions of %s: %s\ngoroutines: %s" % (
            n, acts, "; ".join(bad), {k: (a.get(k, 0), v) for k, v in b.items() if v > a.get(k, 0)}))
    c.sample = c.sample or "%s: %s" % (acts, [{k: v for k, v in q.items() if k not in ("stacks", "sites")} for q in points])
    for x in s.finish():
        c.violate("wire", x)


def stored(home):
    """Bytes of the lists of symbols on the disk."""
    n = 0
    for d, _, fs in os.walk(os.path.join(home, ".phpintel", "data")):
        n += sum(os.path.getsize(os.path.join(d, f)) for f in fs)
    return n


def disk(box, c, p):
    """A big document is edited until much of what is stored is overwritten; a restart gives the space back."""
    r = core.rng_for("C04d", p["seed"], p["i"])
    ws = box.fresh_ws()
    rel = "big.php"

    def text(k):
        return "<?php\nnamespace Big;\n" + "".join(
            "class Store%d {\n%s    function edit%dof%d() {}\n}\n" % (i, "".join("    const K%d_%d = %d;\n" % (i, j, k) for j in range(8)), k, i) for i in range(p["classes"]))
    home = box.home_from_template([ws])
    s = box.session(home=home)
    s.write(rel, text(0))
    s.start()
    first = stored(home)
    s.open(s.uri(rel), text(0))
    k = grown = 0
    while stored(home) < first + p["grow"] and k < 400:
        k += 1
        s.change(s.uri(rel), [{"text": text(k)}])
        s.settle()
        c.note("edits of a big document")
    s.write(rel, text(k))
    s.watch((s.uri(rel), 2))
    s.close(s.uri(rel))
    s.settle()
    left = [m for m in s.finish(drop=False)]
    grown = stored(home)
    qs = ["Store%d" % r.randrange(p["classes"]) for _ in range(6)] + ["K%d_3" % r.randrange(p["classes"]), "edit%dof" % k, "edit0of3", "edit%dof7" % (k - 1)]

    def ask(s):
        return [sorted(json.dumps(x, sort_keys=True) for x in s.srv.call("workspace/symbol", {"query": q}) or []) for q in qs]
    for _ in range(2):
        s = box.session(home=home)
        s.start()
        s.settle()
        got = ask(s)
        left += s.finish(drop=False)
    after = stored(home)
    f = box.session()
    f.start()
    f.settle()
    want = ask(f)
    fresh = stored(f.home)
    left += f.finish()
    c.evals += 1 + len(qs)
    c.seen(("disk", k, grown, after, fresh))
    if os.environ.get("VERIF_SHOW"):
        print("edits", k, "first", first, "grown", grown, "after", after, "fresh", fresh)
    c.sample = c.sample or "%d edits: %d bytes grew to %d, %d after a restart, fresh %d" % (k, first, grown, after, fresh)
    if after > fresh + p["grow"] / 2:
        c.violate("disk", "after %d edits of a big document %d bytes are stored, after two restarts still %d; a fresh server needs %d" % (k, grown, after, fresh))
    if got != want:
        i = next(i for i in range(len(qs)) if got[i] != want[i])
        c.violate("answers", "after the restart %r finds\n %s\na fresh server\n %s" % (qs[i], got[i][:3], want[i][:3]))
    for x in left:
        c.violate("wire", x)
    box.drop_home(home)


def main():
    ck = core.Check("C04", rule="distinct (actions, goroutines, descriptors, objects on the heap) after a block of repetitions")
    ck.run_cases("repeat", case, [dict(seed=ck.seed, i=i, n=8, blocks=4, size=12) for i in range(ck.n(20, 400))], binary=core.build_probed())
    ck.run_cases("disk", disk, [dict(seed=ck.seed, i=i, classes=400 + 50 * i, grow=40 << 20) for i in range(ck.n(1, 6))], binary=core.build_server())
    ck.finish()
