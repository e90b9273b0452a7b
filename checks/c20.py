"""C20: every workspace folder is answered as if it were the only one, whatever other folders come and go."""
import json
import os
import shutil

from vlib import core, hist

# names which are beginnings of each other, and which change under escaping
NAMES = [["app", "app2", "app-tools"], ["ü", "ü b", "üb"], ["x", "x.y", "x.php"], ["a b", "a", "a%20b"], ["p+q", "p", "p q"], ["one/src", "two/src", "src"]]


class Folder(hist.Hist):
    """One folder of several in the same server."""

    def __init__(self, box, c, r, pool, ok, ws):
        self.box, self.c, self.r, self.pool, self.ok, self.ws = box, c, r, pool, ok, ws
        self.disk, self.open, self.log, self.held = {}, {}, [], []
        self.allow, self.hold, self.s = None, False, None
        self.here = False
        os.makedirs(ws, exist_ok=True)
        for n in pool.names:
            if r.random() < .6:
                self._put(n, self._text(n))

    def ev(self):
        return {"uri": core.path_uri(self.ws), "name": os.path.basename(self.ws)}


def empty(res):
    return res in (None, [], {}) or (isinstance(res, dict) and not res.get("items") and not res.get("signatures") and not res.get("contents")
                                     and not res.get("changes"))


def case(box, c, p):
    r = core.rng_for("C20", p["seed"], p["i"])
    pf = core.ParseFilter(p["filter"])
    try:
        top = os.path.join(box.root, "many")
        shutil.rmtree(top, ignore_errors=True)
        names = NAMES[p["names"]]
        roots = [os.path.join(top, n) for n in names]
        os.makedirs(top)
        box.template(roots)
        pool = hist.Pool(r, nfiles=r.choice([2, 3, 4]))
        fs = []
        for i, d in enumerate(roots):
            # the same names everywhere, with other meanings
            po = hist.Pool(r, nfiles=len(pool.names)) if r.random() < .5 else pool
            fs.append(Folder(box, c, r, po, pf.ok, d))
        log = []

        def start():
            now = [f for f in fs if f.here]
            s.roots = [f.ws for f in now]
            s.start()
            for f in fs:
                f.s = s
                for n, t in f.open.items():
                    s.open(f.uri(n), t)
            s.settle()

        def folders(added, removed):
            s.srv.notify("workspace/didChangeWorkspaceFolders", {"event": {"added": [f.ev() for f in added], "removed": [f.ev() for f in removed]}})
            for f in added:
                f.here, f.s = True, s
            for f in removed:
                f.here = False

        order = fs[:]
        r.shuffle(order)
        for f in order[:r.randrange(1, 4)]:
            f.here = True
        fs = order
        s = box.session(roots=roots, home=box.home_from_template(roots))
        start()
        for phase in range(p["phases"]):
            for _ in range(r.randrange(2, 9)):
                k = r.random()
                now, gone = [f for f in fs if f.here], [f for f in fs if not f.here]
                if k < .2 and gone:
                    add = r.sample(gone, r.randrange(1, len(gone) + 1))
                    rem = [r.choice(now)] if len(now) > 1 and r.random() < .3 else []
                    for f in rem:
                        leave(f, r, c)
                    folders(add, rem)
                    log.append("add %s remove %s" % ([f.ws for f in add], [f.ws for f in rem]))
                    c.note("folders added", len(add))
                    c.note("folders removed", len(rem))
                elif k < .4 and len(now) > 1:
                    f = r.choice(now)
                    leave(f, r, c)
                    folders([], [f])
                    log.append("remove %s" % f.ws)
                    c.note("folders removed")
                elif k < .5 and gone:
                    f = r.choice(gone)
                    f.s = s
                    f.offline(r.randrange(1, 3))
                    log.append("changes in %s which is not there" % f.ws)
                    f.allow = ["open", "edit", "edit", "close"]
                    if r.random() < .6:
                        for _ in range(r.randrange(1, 4)):
                            if f.open or r.random() < .5:
                                log.append("%s in it" % f.step())
                                c.note("documents opened or changed without their folder")
                    f.allow = None
                elif k < .55:
                    for x in s.finish(drop=False):
                        c.violate("wire", x)
                    start()
                    log.append("restart")
                    c.note("restarts")
                elif now:
                    f = r.choice(now)
                    for _ in range(r.randrange(1, 4)):
                        log.append("%s in %s" % (f.step(), f.ws))
                if r.random() < .3:
                    s.settle()
            s.settle()
            if not verdict(box, c, r, fs, s, roots, log):
                break
        c.sample = "history %s" % log[:25]
        for x in s.finish():
            c.violate("wire", x)
    finally:
        pf.close()


def leave(f, r, c):
    """The editor closes the documents of the folder before it takes the folder away, or goes on showing them."""
    if f.open and r.random() < .6:
        c.note("documents stay open without their folder", len(f.open))
        return
    for n in list(f.open):
        f.s.close(f.uri(n))
    f.open = {}


def verdict(box, c, r, fs, s, roots, log):
    now = [f for f in fs if f.here]
    what = "after %s\n folders %s (first: all in one server, second: a fresh server for the folder alone)" % (log[-30:], [f.ws for f in now])
    each, symbols = [], []
    for f in now:
        pr = f.probes(r, 5)
        each.append([x for x in pr if x[0] != "workspace/symbol"])
        symbols += [x for x in pr if x[0] == "workspace/symbol"]
    gone = []
    for f in fs:
        if not f.here:
            pr = f.probes(r, 3)
            gone += [x for x in pr if x[0] != "workspace/symbol"]
            symbols += [x for x in pr if x[0] == "workspace/symbol"][:4]
    symbols = [("workspace/symbol", {"query": q}) for q in sorted({p["query"] for _, p in symbols})]
    if len(symbols) > 24:
        symbols = r.sample(symbols, 24)
    want_sym = [set() for _ in symbols]
    good = True
    for f, pr in zip(now, each):
        one = box.session(roots=[f.ws], home=box.home_from_template(roots), binary=box.plain)
        one.start()
        for n, t in f.open.items():
            one.open(f.uri(n), t)
        one.settle()
        want = hist.ask(one, pr)
        for w, (m, q) in zip(want_sym, symbols):
            w |= {json.dumps(x, sort_keys=True) for x in one.srv.call(m, q) or []}
        one.finish()
        got = hist.ask(s, pr)
        good &= hist.compare(c, "isolation", got, want, pr, what)
        c.note("folders compared")
    for w, (m, q) in zip(want_sym, symbols):
        res = s.srv.call(m, q) or []
        got = [json.dumps(x, sort_keys=True) for x in res]
        c.evals += 1
        c.note("searches over %d folders" % len(now))
        if w:
            c.seen((q["query"], len(w)))
        if set(got) != w:
            good = False
            c.violate("search", "%s\n search for %r\n only in the answer: %s\n missing: %s" % (what, q["query"], sorted(set(got) - w)[:4], sorted(w - set(got))[:4]))
        if len(got) != len(set(got)):
            good = False
            c.violate("twice", "%s\n search for %r has %s twice" % (what, q["query"], [x for x in got if got.count(x) > 1][:2]))
    for m, q in gone:
        res = s.srv.call(m, q)
        c.evals += 1
        c.note("questions about folders which are not there")
        if not empty(res):
            good = False
            c.violate("gone", "%s\n %s %s of a folder which is not there: %s" % (what, m, q, json.dumps(res)[:400]))
    return good


def main():
    ck = core.Check("C20", rule="distinct (request, non-trivial answer) compared between a server with several folders and one with the folder alone")
    b = core.build_server()
    flt = core.build_overlay("parsefilter", "parsefilter")
    ck.run_cases("folders", case, [dict(seed=ck.seed, i=i, names=(i // 2) % len(NAMES), filter=flt, phases=3) for i in range(ck.n(24, 600))], binary=b)
    ck.finish()
