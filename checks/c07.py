"""C07: the index on disk survives orderly restarts, picks up offline changes, and is rebuilt for another version."""
from vlib import core, hist


def case(box, c, p):
    r = core.rng_for("C07", p["seed"], p["i"])
    pf = core.ParseFilter(p["filter"])
    try:
        h = hist.Hist(box, c, r, hist.Pool(r, nfiles=r.choice([3, 5, 8])), ok=pf.ok)
        h.steps(r.randrange(0, 8), pause=.3)
        for phase in range(p["phases"]):
            # 1. nothing changes: the same answers before and after
            pr = h.probes(r)
            before = hist.ask(h.s, pr)
            h.restart()
            after = hist.ask(h.s, pr)
            c.note("unchanged restarts")
            if not hist.compare(c, "restart", before, after, pr, "restart without changes after %s (first: before, second: after the restart)" % h.log[-30:]):
                break
            # 2. changes while no server runs; documents may stay open or not
            if r.random() < .3:
                h.s.binary = r.choice(p["others"])
                c.note("restarts with another version")
                h.log.append("other version")
            else:
                h.s.binary = box.binary
            h.restart(offline=r.randrange(1, 8), reopen=r.random() < .6)
            pr = h.probes(r)
            got = hist.ask(h.s, pr)
            f = h.fresh()
            want = hist.ask(f, pr)
            f.finish()
            if not hist.compare(c, "offline", got, want, pr, "restart after offline changes %s (first: the restarted server, second: a fresh one)" % h.log[-30:]):
                break
            c.note("offline restarts")
            h.steps(r.randrange(0, 6), pause=.3)
        c.sample = "history %s" % h.log[:25]
        for x in h.s.finish():
            c.violate("wire", x)
    finally:
        pf.close()


def main():
    ck = core.Check("C07", rule="distinct (request, non-trivial answer) compared across a restart or with a fresh index")
    b = core.build_server()
    others = [core.build_server(version="v0.0.12"), core.build_server(version="v1.2.3")]
    flt = core.build_overlay("parsefilter", "parsefilter")
    ck.run_cases("restart", case, [dict(seed=ck.seed, i=i, filter=flt, phases=2, others=others) for i in range(ck.n(70, 1500))], binary=b)
    ck.finish()
