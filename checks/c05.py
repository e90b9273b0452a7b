"""C05: after any history of file events and edits the index equals a fresh index of the current sources."""
from vlib import core, hist


def case(box, c, p):
    r = core.rng_for("C05", p["seed"], p["i"])
    pf = core.ParseFilter(p["filter"])
    try:
        h = hist.Hist(box, c, r, hist.Pool(r, nfiles=r.choice([3, 5, 8])), ok=pf.ok)
        for phase in range(p["phases"]):
            h.steps(r.randrange(2, 14), pause=r.choice([0, .1, .5]))
            pr = h.probes(r)
            got = hist.ask(h.s, pr)
            f = h.fresh()
            want = hist.ask(f, pr)
            f.finish()
            c.note("histories compared")
            if not hist.compare(c, "stale", got, want, pr, "after %s (first: the running server, second: a fresh one)\n disk: %s open: %s" % (
                    h.log[-40:], sorted(h.disk), sorted(h.open))):
                break
            if r.random() < .2:
                h.restart()
        c.sample = "history %s" % h.log[:25]
        for x in h.s.finish():
            c.violate("wire", x)
    finally:
        pf.close()


def main():
    ck = core.Check("C05", rule="distinct (request, non-trivial answer) on which the running server and a fresh one were compared")
    b = core.build_server()
    flt = core.build_overlay("parsefilter", "parsefilter")
    ck.run_cases("history", case, [dict(seed=ck.seed, i=i, filter=flt, phases=3) for i in range(ck.n(110, 2500))], binary=b)
    ck.finish()
