"""Shared by C10 and C11: go to definition and hover against the generator's truth."""
import re

from vlib import core, phpgen, world


def probe(w, c, ref, n, tag):
    s = w.s
    for l, ch in phpgen.probe_points(w.r, ref, n):
        uri = s.uri(ref.file)
        got = world.locs(s.pos("textDocument/definition", uri, l, ch))
        exp = world.expected_locs(s, ref.targets)
        c.evals += 1
        c.note("definition of " + ref.kind)
        if not ref.targets:
            c.note("names that must not resolve")
        c.seen((ref.kind, ref.text, [t.uid for t in ref.targets], w.P.files[ref.file].text))
        if got != exp:
            c.violate("definition-" + ref.kind, "definition of %r at %s:%d:%d (%s; file came by %s)\n line: %s\n got %s\n expected %s (%s)" % (
                ref.text, ref.file, l, ch, ref.x.get("why", ref.kind), w.how[ref.file], w.line(ref.file, l)[:160], got, exp,
                ref.targets))
            return False
        if w.r.random() < .5:
            hover(w, c, ref, uri, l, ch)
    return True


def hover(w, c, ref, uri, l, ch):
    h = w.s.pos("textDocument/hover", uri, l, ch)
    v = ((h or {}).get("contents") or {}).get("value", "") if h else ""
    c.evals += 1
    c.note("hover on " + ref.kind)

    def bad(why):
        c.violate("hover-" + ref.kind, "hover on %r at %s:%d:%d: %s\n line: %s\n got %r\n expected %s" % (
            ref.text, ref.file, l, ch, why, w.line(ref.file, l)[:160], h, ref.targets))
    if not ref.targets:
        if "```php" in v:
            bad("describes something although the name refers to nothing (%s)" % ref.x.get("why"))
        return
    t = ref.targets[0]
    docs = set(re.findall(r"doc-(u\w+)", v))
    if t.kind in ("class", "interface", "function", "method"):
        if docs != {t.doc[4:]}:
            bad("does not carry the description %s of the target" % t.doc)
        if t.kind in ("function", "method"):
            m = re.search(r"function &?" + re.escape(t.name) + r"\((.*?)\)", v)
            names = re.findall(r"\$\w+", m.group(1)) if m else None
            if names != [p[1] for p in t.params]:
                bad("parameters %s instead of %s" % (names, [p[1] for p in t.params]))
    elif t.kind == "prop" and getattr(t, "doc", None):
        if docs != {t.doc[4:]}:
            bad("does not carry the description %s of the target" % t.doc)
    elif docs:
        bad("carries the description of something else")
    if t.name not in v:
        bad("does not name the target")
    if hasattr(t, "owner"):
        own = re.findall(r"`(?:class|interface|trait) (\\[^`]*)`", v)
        if own != [t.owner.fqn]:
            bad("says it belongs to %s instead of %s" % (own, t.owner.fqn))
    if h:
        a, b = h["range"]["start"], h["range"]["end"]
        if not ((a["line"], a["character"]) <= (l, ch) <= (b["line"], b["character"])):
            bad("range does not contain the position")


def nav_case(kinds, salt):
    def fn(box, c, p):
        r = core.rng_for(salt, p["seed"], p["i"])
        P = phpgen.Project(r, nfiles=r.choice([2, 4, 6]), multi=r.choice([0, .3, .8]))
        w = world.World(box, r, P, restart=.15)
        refs = [x for x in P.refs if x.kind in kinds]
        r.shuffle(refs)
        bad = 0
        for ref in refs:
            if not probe(w, c, ref, r.choice([1, 1, 2]), salt):
                bad += 1
                if bad > 3:
                    break
        if refs:
            c.sample = "%d uses in %d files (%s), e.g. %r" % (len(refs), len(P.files), sorted(set(w.how.values())), refs[0])
        for m in w.how.values():
            c.note("files by " + m)
        w.end(c)
    return fn
