"""C19: what is stored is a function of the current texts: after any history the index on disk is the one which a first run would write."""
import json
import os
import subprocess
import time

from vlib import core, hist, lsp


def dump(tool, home):
    """{database: {key: value}} of the stopped server's index, without what says nothing of the sources"""
    top = os.path.join(home, ".phpintel", "data")
    out, stubs = {}, {}
    for folder in sorted(os.listdir(top)):
        p = subprocess.run([tool, os.path.join(top, folder)], capture_output=True)
        if p.returncode != 0:
            raise RuntimeError("dumpindex: " + p.stderr.decode()[-500:])
        for d in json.loads(p.stdout):
            es = out.setdefault((d["kind"], d["db"]), {})
            for e in d["entries"]:
                es[bytes.fromhex(e["k"])] = (e["n"], bytes.fromhex(e["v"]))
            stubs[(d["kind"], d["db"])] = (d["stubs"], d["hash"])
    return out, stubs


def show(k):
    return k.decode("utf-8", "backslashreplace").replace("\x00", "|")


def compare(c, sig, a, b, what, killed):
    (da, sa), (db, sb) = a, b
    ok = True
    if set(da) != set(db):
        c.violate(sig + "-databases", "databases %s instead of %s\n%s" % (sorted(da), sorted(db), what))
        return False
    for name in sorted(da):
        x, y = da[name], db[name]
        c.evals += len(x.keys() | y.keys())
        for k in y:
            c.seen((name, k.split(b"\0")[0], k.rsplit(b"/", 1)[-1], y[k]))
        # the lists of the symbols of each document are only overwritten: nothing finds those of deleted documents
        more = sorted(k for k in x if k not in y and name[0] != "pogreb")
        less = sorted(k for k in y if k not in x)
        diff = sorted(k for k in x if k in y and x[k] != y[k])
        if killed and name[0] == "pogreb":
            # (written once more without the stale symbols when these are deleted)
            diff = []
        for kind, ks in (("left-behind", more), ("missing", less), ("differs", diff)):
            if ks:
                ok = False
                c.violate("%s-%s" % (sig, kind), "%d entries of %r: %s\n%s%s" % (
                    len(ks), name, "\n ".join(show(k)[:200] for k in ks[:8]),
                    "".join("%s\n against %s\n" % (x[k], y[k]) for k in diff[:2]) if kind == "differs" else "", what))
        if sa[name] != sb[name]:
            ok = False
            c.violate(sig + "-stubs", "entries of the stubs in %r: %s instead of %s\n%s" % (name, sa[name], sb[name], what))
    return ok


def judge(box, c, h, p, what):
    """Stops the server and compares what it has stored; False when it differs."""
    f = h.fresh()
    for x in f.finish(drop=False) + h.s.finish(drop=False):
        c.violate("wire", x)
    a, b = dump(p["tool"], h.s.home), dump(p["tool"], f.home)
    box.drop_home(f.home)
    c.note("indexes compared " + what)
    c.note("entries", sum(len(x) for x in b[0].values()))
    return compare(c, "stored", a, b, "%s, after %s (the first is what the history left, the second what a first run writes)\n disk: %s open: %s" % (
        what, h.log[-40:], sorted(h.disk), sorted(h.open)), killed=what == "after kills")


def resume(h):
    h.s.start()
    for n, t in h.open.items():
        h.s.open(h.uri(n), t)
    h.s.settle()


def case(box, c, p):
    r = core.rng_for("C19", p["seed"], p["i"])
    pf = core.ParseFilter(p["filter"])
    try:
        h = hist.Hist(box, c, r, hist.Pool(r, nfiles=r.choice([2, 3, 5, 8])), ok=pf.ok, slash=False)
        for phase in range(p["phases"]):
            h.steps(r.randrange(1, 20), pause=r.choice([0, .1, .5]))
            if r.random() < .3:
                h.restart(offline=r.choice([0, 1, 4]), reopen=r.random() < .5)
            if not judge(box, c, h, p, "after histories"):
                return
            resume(h)
        c.sample = "history %s" % h.log[:25]
        for x in h.s.finish():
            c.violate("wire", x)
    finally:
        pf.close()


def kill_case(box, c, p):
    """Kills while work is in progress, at random times and in front of chosen writes of the storage."""
    r = core.rng_for("C19k", p["seed"], p["i"])
    pf = core.ParseFilter(p["filter"])
    ctl = os.path.join(box.root, "kill-at")
    try:
        h = hist.Hist(box, c, r, hist.Pool(r, nfiles=r.choice([2, 3, 5, 8])), ok=pf.ok, slash=False)
        h.hold = False
        plain = h.s.binary
        for phase in range(p["phases"]):
            if r.random() < .5:
                for _ in range(r.randrange(1, 8)):
                    h.step()
                time.sleep(r.choice([0, 0, .002, .01, .05, .2]))
                c.note("killed at a random moment")
            else:
                for x in h.s.finish(drop=False):
                    c.violate("wire", x)
                for x in (ctl, ctl + ".log"):
                    os.path.exists(x) and os.unlink(x)
                h.s.binary = p["killable"]
                h.s.env["VERIF_KILL_FILE"] = ctl
                n = r.choice([r.randrange(1, 15), r.randrange(1, 60), r.randrange(1, 200)])
                died = False
                try:
                    h.s.start()
                    with open(ctl, "w") as f:
                        f.write("%d" % n)
                    for nm, t in h.open.items():
                        h.s.open(h.uri(nm), t)
                    for _ in range(12):
                        h.step()
                        h.s.settle()
                except lsp.ServerDied:
                    died = True
                os.path.exists(ctl) and os.unlink(ctl)
                c.note("killed in front of a chosen write" if died else "chosen write not reached")
                c.seen(("kill", n, h.log[-1:]))
            h.s.srv.kill()
            h.s.binary = plain
            h.log.append("kill")
            h.offline(r.choice([0, 0, 1, 4]))
            if r.random() < .5:
                h.open = {}
            resume(h)
            if not judge(box, c, h, p, "after kills"):
                return
            resume(h)
        c.sample = "history %s" % h.log[:25]
        for x in h.s.finish():
            c.violate("wire", x)
    finally:
        pf.close()


def main():
    ck = core.Check("C19", rule="distinct (database, kind of entry, file, stored value), and distinct kill points",
                    assumptions=["the lists of the symbols of deleted documents are kept by the storage and found by nothing (they are only compared for documents which exist)",
                                 "a kill ends the process; what the kernel holds of its writes survives"])
    b = core.build_server()
    kb = core.build_killable()
    flt = core.build_overlay("parsefilter", "parsefilter")
    tool = core.build_overlay("dumpindex", "dumpindex")
    base = dict(seed=ck.seed, filter=flt, tool=tool)
    ck.run_cases("history", case, [dict(base, i=i, phases=3) for i in range(ck.n(48, 2500))], binary=b)
    ck.run_cases("kills", kill_case, [dict(base, i=i, phases=3, killable=kb) for i in range(ck.n(32, 1500))], binary=b)
    ck.finish()
