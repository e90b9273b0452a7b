"""Histories of a workspace: files on disk, documents open in the editor, events, restarts.

`Hist` applies random steps to the real server and to a model (what is on disk,
what the editor holds). `fingerprint` asks a server everything about a list of
files; two servers which know the same sources must answer the same.
"""
import json
import os
import shutil

from . import core, corpus, lsp, phpgen, world
from .corpus import u16

NAMES = ["a.php", "b.php", "src/c.php", "src/d e.php", "src/deep/e.php", "src/deep/f.php", "lib/ü/g.php", "lib/日本.php",
         "lib/100%.php", "lib/x#y.php", "srcx/h.php", "src/q?r.php", "lib/ü/ü.php"]
DIRS = ["src", "src/deep", "lib", "lib/ü", "srcx"]
OTHER = ["README.md", "src/data.phpx", "src/x.inc", "lib/ü/php", "noext"]


class Pool:
    """Texts for the files: several projects whose names clash, plus broken variants."""

    def __init__(self, r, nfiles=6, versions=3, prefix=""):
        self.names = r.sample(NAMES, min(nfiles, len(NAMES)))
        self.projects = []
        self.texts = {n: [] for n in self.names}
        for v in range(versions):
            P = phpgen.Project(r, nfiles=len(self.names), stmts=6, prefix="%sv%d" % (prefix, v), ns=["", "App", "App\\Sub"])
            self.projects.append(P)
            for n, f in zip(self.names, P.files.values()):
                self.texts[n].append(f.text)

        # files of some length whose versions only differ behind their beginning
        self.long = {n: r.choice([600, 5000, 5000, 20000, 70000]) for n in self.names if r.random() < .2}

    def text(self, r, name):
        t = self.short_text(r, name)
        if name in self.long and t.startswith("<?php\n"):
            return "<?php\n/*\n" + " * The same in every version.\n" * (self.long[name] // 30) + " */\n" + t[6:]
        return t

    def short_text(self, r, name):
        t = r.choice(self.texts[name])
        k = r.random()
        if k < .55:
            return t
        if k < .7:
            return world.scramble(r, t)
        if k < .78:
            lines = t.split("\n")
            return "\n".join(lines[:r.randrange(1, len(lines) + 1)]) + "\n"
        if k < .83:
            return ""
        if k < .9:
            return r.choice(self.texts[r.choice(self.names)])     # the same symbols in two files
        if k < .93:
            return "<?php\n" + "".join("function gen_%d() {}\n" % r.randrange(30) for _ in range(r.randrange(1, 6)))
        return kinds(r)


def kinds(r):
    """Few names which are declared as anything, in any case, so that an edit changes what a name is."""
    def case(n):
        return r.choice([n, n, n.lower(), n[0].upper() + n[1:], n.upper(), "_" + n])
    out = ["<?php"]
    if r.random() < .4:
        out.append("namespace %s;" % r.choice(["kind", "Kind", "kind\\subKind"]))
    for n in r.sample(["kindOne", "kindTwo", "kind_three", "kïndFour", "five"], r.randrange(1, 4)):
        n = case(n)
        body = "".join(r.choice(["const %s = 1;", "public $%s;", "function %s() {}", "static function %s() {}", "public static $%s = 2;"]) % case(m) + " "
                       for m in r.sample(["memOne", "memTwo", "mem_three"], r.randrange(0, 3)))
        k = r.choice(["function", "const", "define", "class", "interface", "trait", "use"])
        out.append({"function": "function %s() {}", "const": "const %s = 1;", "define": "define('%s', 1);", "use": "echo %s; %s(); new %s;"}.get(
            k, "/** @property int $tag%s */ " % n + k + " %s { " + body.replace("%", "%%") + "}").replace("%s", n))
    return "\n".join(out) + "\n"


class Hist:
    def __init__(self, box, c, r, pool, ok=None, home=None, allow=None, wait=True, slash=None):
        self.box, self.c, self.r, self.pool = box, c, r, pool
        self.ok = ok or (lambda t: True)
        self.ws = box.fresh_ws()
        self.disk = {}
        self.open = {}
        self.log = []
        self.allow = allow
        self.held = []
        self.hold = True
        # clients are free to end the URI of the folder with a slash
        self.slash = r.random() < .2 if slash is None else slash
        for n in pool.names:
            if r.random() < .6:
                self._put(n, self._text(n))
        for n in OTHER:
            if r.random() < .4:
                self._raw(n, "<?php\nclass NotPhpFile%d {}\n" % r.randrange(9))
        self.s = box.session(home=home, roots=[self.ws + ("/" if self.slash else "")])
        if self.slash:
            c.note("folder with a trailing slash")
        self.s.start(wait_index=wait)

    # -- helpers
    def _text(self, n):
        for _ in range(20):
            t = self.pool.text(self.r, n)
            if self.ok(t):
                return t
        return "<?php\n"

    def _raw(self, n, text):
        p = os.path.join(self.ws, n)
        if os.path.isdir(p):
            return
        self.mkdirs(os.path.dirname(n))
        if os.path.isdir(os.path.dirname(p)):
            with open(p, "wb") as f:
                f.write(text.encode("utf-8"))

    def mkdirs(self, d):
        os.makedirs(os.path.join(self.ws, d), exist_ok=True)

    def _put(self, n, text):
        self._raw(n, text)
        self.disk[n] = text

    def uri(self, n):
        return core.path_uri(os.path.join(self.ws, n))

    def _pick(self, names):
        names = sorted(names)
        return self.r.choice(names) if names else None

    # -- steps; each returns watch events to send (or None when not applicable)
    def st_write(self):
        n = self.r.choice(self.pool.names)
        ev = 2 if n in self.disk else 1
        self._put(n, self._text(n))
        return [(self.uri(n), ev)]

    def st_touch(self):
        n = self._pick(self.disk)
        if n is None:
            return None
        os.utime(os.path.join(self.ws, n))
        return [(self.uri(n), 2)]

    def st_delete(self):
        n = self._pick(self.disk)
        if n is None:
            return None
        os.unlink(os.path.join(self.ws, n))
        del self.disk[n]
        return [(self.uri(n), 3)]

    def st_rename(self):
        a = self._pick(self.disk)
        b = self._pick(x for x in self.pool.names if x not in self.disk)
        if a is None or b is None:
            return None
        self.mkdirs(os.path.dirname(b))
        os.rename(os.path.join(self.ws, a), os.path.join(self.ws, b))
        self.disk[b] = self.disk.pop(a)
        evs = [(self.uri(a), 3), (self.uri(b), 1)]
        self.r.shuffle(evs)
        return evs

    def st_rmdir(self):
        d = self._pick(d for d in DIRS if os.path.isdir(os.path.join(self.ws, d)))
        if d is None:
            return None
        shutil.rmtree(os.path.join(self.ws, d))
        gone = [n for n in self.disk if n.startswith(d + "/")]
        for n in gone:
            del self.disk[n]
        if self.r.random() < .7:
            return [(self.uri(d), 3)]
        return [(self.uri(n), 3) for n in gone] + [(self.uri(d), 3)]

    def st_mvdir(self):
        d = self._pick(d for d in DIRS if os.path.isdir(os.path.join(self.ws, d)))
        if d is None or self.r.random() < .3:
            return None
        aside = os.path.join(self.box.root, "aside")
        shutil.rmtree(aside, ignore_errors=True)
        os.rename(os.path.join(self.ws, d), aside)
        for n in [n for n in self.disk if n.startswith(d + "/")]:
            del self.disk[n]
        self.events([(self.uri(d), 3)])
        # a folder appears with files in it; only the folder is announced
        os.makedirs(os.path.dirname(os.path.join(self.ws, d)), exist_ok=True)
        os.makedirs(os.path.join(self.ws, d))
        for n in [n for n in self.pool.names if n.startswith(d + "/")]:
            if self.r.random() < .6:
                self._put(n, self._text(n))
        return [(self.uri(d), 1)]

    def st_recreate(self):
        """A file vanishes and is back before the server looks."""
        n = self._pick(self.disk)
        if n is None:
            return None
        os.unlink(os.path.join(self.ws, n))
        del self.disk[n]
        evs = [(self.uri(n), 3)]
        if self.r.random() < .5:
            self.events(evs)
            evs = []
        self._put(n, self._text(n))
        return evs + [(self.uri(n), 1)]

    def st_flicker(self):
        """A file appears and vanishes before the server looks."""
        n = self._pick(x for x in self.pool.names if x not in self.disk)
        if n is None:
            return None
        self._raw(n, self._text(n))
        self.events([(self.uri(n), 1)])
        os.unlink(os.path.join(self.ws, n))
        return [(self.uri(n), 3)]

    def st_churn(self):
        """A file is written and deleted several times, all announced at once."""
        n = self.r.choice(self.pool.names)
        evs = []
        for _ in range(self.r.randrange(2, 5)):
            if n in self.disk and self.r.random() < .5:
                os.unlink(os.path.join(self.ws, n))
                del self.disk[n]
                evs.append((self.uri(n), 3))
            else:
                evs.append((self.uri(n), 2 if n in self.disk else 1))
                self._put(n, self._text(n))
        self.s.watch(*evs)
        return []

    def st_other(self):
        n = self.r.choice(OTHER)
        p = os.path.join(self.ws, n)
        if os.path.exists(p):
            os.unlink(p)
            return [(self.uri(n), 3)]
        self._raw(n, "<?php\nclass NotPhpFile%d {}\n" % self.r.randrange(9))
        return [(self.uri(n), 1)]

    def st_open(self):
        n = self._pick(x for x in self.pool.names if x not in self.open)
        if n is None:
            return None
        t = self.disk[n] if n in self.disk and self.r.random() < .6 else self._text(n)
        self.open[n] = t
        self.s.open(self.uri(n), t)
        return []

    def st_edit(self):
        n = self._pick(self.open)
        if n is None:
            return None
        old = self.open[n]
        new = self._text(n)
        if self.r.random() < .4:
            new2 = world.scramble(self.r, old)
            new = new2 if self.ok(new2) else new
        self.open[n] = new
        self.s.change(self.uri(n), world.edit_path(self.r, old, new, self.r.random() < .7))
        return []

    def st_save(self):
        n = self._pick(self.open)
        if n is None:
            return None
        ev = 2 if n in self.disk else 1
        self._put(n, self.open[n])
        self.s.srv.notify("textDocument/didSave", {"textDocument": {"uri": self.uri(n)}})
        return [(self.uri(n), ev)]

    def st_close(self):
        n = self._pick(self.open)
        if n is None:
            return None
        del self.open[n]
        self.s.close(self.uri(n))
        return []

    def st_query(self):
        n = self._pick(list(self.disk) + list(self.open))
        if n is None:
            return None
        t = self.open.get(n, self.disk.get(n))
        lines = corpus.lsp_lines(t)
        l = self.r.randrange(len(lines))
        m = self.r.choice(["definition", "hover", "references", "completion", "signatureHelp"])
        self.s.srv.start("textDocument/" + m, {"textDocument": {"uri": self.uri(n)}, "context": {"includeDeclaration": True},
                                               "position": {"line": l, "character": self.r.randrange(u16(lines[l]) + 1)}})
        return []

    STEPS = ["write"] * 5 + ["touch", "delete", "delete", "rename", "rmdir", "mvdir", "recreate", "recreate", "flicker", "churn", "churn", "other",
                             "open", "open", "edit", "edit", "edit", "save", "close", "query"]

    def events(self, evs):
        r = self.r
        if not evs:
            return
        evs = self.held + evs
        self.held = []
        if self.hold and r.random() < .2:
            # clients collect events for a while
            self.held = evs
            return
        if r.random() < .3:
            for e in evs:
                self.s.watch(e)
        else:
            self.s.watch(*evs)
        if r.random() < .15:
            self.s.watch(*evs)

    def step(self):
        while True:
            k = self.r.choice(self.STEPS)
            if self.allow and k not in self.allow:
                continue
            ev = getattr(self, "st_" + k)()
            if ev is None:
                continue
            self.log.append(k)
            self.c.note("step " + k)
            self.events(ev)
            return k

    def steps(self, n, pause=.3):
        for _ in range(n):
            self.step()
            if self.r.random() < pause:
                self.s.settle()
        self.flush()
        self.s.settle()

    def flush(self):
        if self.held:
            self.s.watch(*self.held)
            self.held = []

    def offline(self, n):
        """Changes while no server runs."""
        live = self.s
        class Null:
            def __getattr__(self, k):
                return lambda *a, **kw: None
        self.s = Null()
        self.s.srv = Null()
        for _ in range(n):
            k = self.r.choice(["write", "write", "delete", "rename", "rmdir", "mvdir", "touch", "recreate", "other"])
            if getattr(self, "st_" + k)() is not None:
                self.log.append("offline " + k)
                self.c.note("offline " + k)
        self.s = live
        self.held = []

    def restart(self, kill=False, offline=0, reopen=True):
        self.held = []
        if kill:
            self.s.srv.kill()
        else:
            probs = self.s.finish(drop=False)
            for x in probs:
                self.c.violate("wire", x)
        self.offline(offline)
        self.log.append("kill" if kill else "restart")
        self.c.note("killed" if kill else "restarted")
        if not reopen:
            self.open = {}
        self.s.start()
        for n, t in self.open.items():
            self.s.open(self.uri(n), t)
        self.s.settle()

    # -- what a server which starts afresh answers
    def fresh(self):
        s = self.box.session(binary=self.box.plain)
        s.start()
        for n, t in self.open.items():
            s.open(self.uri(n), t)
        s.settle()
        return s

    def sources(self):
        d = dict(self.disk)
        d.update(self.open)
        return d

    def probes(self, r, per_file=8):
        """Requests to send to both servers."""
        out = []
        src = self.sources()
        words = set()
        for n, t in sorted(src.items()):
            u = self.uri(n)
            out.append(("textDocument/documentSymbol", {"textDocument": {"uri": u}}))
            lines = corpus.lsp_lines(t)
            import re
            spots = [(i, m) for i, x in enumerate(lines) for m in re.finditer(r"[\w\\$]+", x)]
            for i, m in (r.sample(spots, min(per_file, len(spots)))):
                x = lines[i]
                ch = u16(x[:r.randrange(m.start() + 1, m.end() + 1)])
                meth = r.choice(["definition", "definition", "hover", "references", "completion", "signatureHelp"])
                p = {"textDocument": {"uri": u}, "position": {"line": i, "character": ch}}
                if meth == "references":
                    p["context"] = {"includeDeclaration": True}
                out.append(("textDocument/" + meth, p))
                words.add(m.group(0).split("\\")[-1].strip("$"))
            for m in re.finditer(r"(?:class|interface|trait|function|const) (\w+)", t):
                words.add(m.group(1))
        gone = [n for n in self.pool.names if n not in src]
        for n in gone:
            out.append(("textDocument/documentSymbol", {"textDocument": {"uri": self.uri(n)}}))
        words = sorted(w for w in words if w)
        for w in r.sample(words, min(12, len(words))) + ["gen_", "NotPhpFile", "u"]:
            out.append(("workspace/symbol", {"query": w}))
        return out


def canon(method, res):
    """Order does not matter where the protocol gives it no meaning."""
    if res is None:
        res = []
    if method.endswith(("references", "definition", "workspace/symbol", "documentSymbol")):
        return sorted(json.dumps(x, sort_keys=True) for x in (res or []))
    if method.endswith("completion") and isinstance(res, dict):
        # cut lists are unspecified in which entries they keep
        if res.get("isIncomplete"):
            return ["cut"]
        return sorted(json.dumps({k: v for k, v in x.items() if k not in ("sortText", "data")}, sort_keys=True) for x in res.get("items") or [])
    return json.dumps(res, sort_keys=True)


def ask(s, probes):
    out = []
    for m, p in probes:
        try:
            res = s.srv.call(m, p)
        except lsp.RPCError as ex:
            res = {"error": str(ex)}
        out.append(canon(m, res))
    return out


def compare(c, sig, a, b, probes, what, src=None):
    n = 0
    for x, y, (m, p) in zip(a, b, probes):
        c.evals += 1
        c.note("compared " + m.split("/")[-1])
        if isinstance(x, list) and x or (isinstance(x, str) and len(x) > 8):
            c.seen((m, p.get("position"), p.get("query"), x))
        if x != y:
            n += 1
            if n <= 3:
                if isinstance(x, list) and isinstance(y, list):
                    d = "only in the first: %s\n only in the second: %s" % ([q for q in x if q not in y][:4], [q for q in y if q not in x][:4])
                    if not ([q for q in x if q not in y] or [q for q in y if q not in x]):
                        d = "equal but for repetitions: %d against %d" % (len(x), len(y))
                else:
                    d = "first: %s\n second: %s" % (x, y)
                c.violate(sig, "%s\n %s %s\n %s" % (what, m, json.dumps(p)[:300], d[:1500]))
    return n == 0
