"""C17: the outline of a document and the symbols of the workspace are exactly the declarations in the sources."""
import os
import re

from vlib import core, phpgen, phptree, world

LIMIT = 1000
KIND = {"class": 5, "trait": 5, "method": 6, "prop": 7, "interface": 11, "function": 12, "const": 14, "define": 14}


class Files:
    """What world.World wants from a project."""

    def __init__(self, trees):
        self.files = {t.rel: t for t in trees}


def rng(d):
    return (d["start"]["line"], d["start"]["character"], d["end"]["line"], d["end"]["character"])


def flat(span):
    return span[0] + span[1]


def of_project(P):
    """Trees of a generated project: rel -> [Decl]"""
    out = {rel: [] for rel in P.files}
    where = {}
    for e in P.ents.values():
        d = phptree.Decl(KIND[e.kind], e.name, e.fqn, None, what=e.kind)
        d.span = e.span
        for m in e.members:
            name = ("$" if m.kind == "prop" and not m.name.startswith("$") else "") + m.name
            x = phptree.Decl(KIND[m.kind], name, name, d, what=m.kind, container=d)
            x.span = m.span
            d.children.append(x)
        out[e.file].append(d)
        where[e] = d
    for o, name, span in P.helpers:
        d = where.get(o)
        full = name if d else "\\" + (o.ns + "\\" if o.ns else "") + name
        x = phptree.Decl(KIND["method" if d else "function"], name, full, d, what="method" if d else "function", container=d)
        x.span = span
        (d.children if d else out[o.rel]).append(x)
    return out


def walk(ds):
    for d in ds:
        yield d
        yield from walk(d.children)


def same(d, name):
    if d.anon:
        return True
    return name == d.name or name == d.full or name == d.full[1:]


def outline(c, s, rel, decls, phase):
    res = s.srv.call("textDocument/documentSymbol", {"textDocument": {"uri": s.uri(rel)}})
    c.evals += 1
    if not isinstance(res, list):
        c.violate("outline", "the outline of %s (%s) is %r" % (rel, phase, res))
        return False
    bad = []

    def cmp(exp, got, where, outer):
        exp = {(d.kind, flat(d.span)): d for d in exp}
        seen = set()
        for g in got:
            a = rng(g["range"])
            k = (g["kind"], a)
            b = rng(g["selectionRange"])
            if not (a[:2] <= b[:2] and b[2:] <= a[2:]):
                bad.append("the selection %s of %r is outside of its range %s" % (b, g["name"], a))
            if outer and not (outer[:2] <= a[:2] and a[2:] <= outer[2:]):
                bad.append("%r at %s is not within its parent at %s" % (g["name"], a, outer))
            if k in seen:
                bad.append("%s twice in %s" % (k, where))
                continue
            seen.add(k)
            d = exp.get(k)
            if d is None:
                bad.append("%s %r at %s in %s is no declaration there" % (g["kind"], g["name"], a, where))
                continue
            if not same(d, g["name"]):
                bad.append("%s is called %r" % (d, g["name"]))
            c.note("outline " + d.what)
            cmp(d.children, g.get("children") or [], repr(d), a)
        for k in set(exp) - seen:
            bad.append("%s is missing in %s" % (exp[k], where))
    cmp(decls, res, rel, None)
    if bad:
        c.violate("outline", "the outline of %s (%s): %s" % (rel, phase, "; ".join(bad[:5])))
        return False
    return True


def tokens(name):
    """What a user can find the name by the beginnings of: the name itself, and its words."""
    n = name.lstrip("$")
    out = [n]
    for w in re.findall(r"[^\W\d_]+", n):
        # words of one letter are left out; an upper case letter in a word begins another one
        if len(w) > 1 and (w == w.lower() or w == w.upper() or w[1:] == w[1:].lower()):
            out.append(w)
    return out


def wsymbols(c, s, r, trees, phase, n, u2f):
    """trees: rel -> [Decl]"""
    every = {}
    for rel, ds in trees.items():
        for d in walk(ds):
            every[(rel, flat(d.span), d.kind)] = d
    named = [d for d in every.values() if not d.anon]
    if not named:
        return True
    full = {}
    for k, d in every.items():
        full.setdefault((k[0], d.what, d.full, d.container.full if d.container else None), []).append(k)
    for _ in range(n):
        d = r.choice(named)
        k = r.random()
        scope = ""
        if k < .35:
            q = d.name.lstrip("$")
        elif k < .6:
            q = r.choice(tokens(d.name))
            q = q[:r.randrange(1, len(q) + 1)]
        elif k < .75:
            q = d.name.lstrip("$")
            q = r.choice([q.upper(), q.lower(), q.swapcase()])
        elif d.container is None:
            scope, q = d.full.rpartition("\\")[0] + "\\", d.name
            if r.random() < .5:
                q = q[:r.randrange(1, len(q) + 1)]
            if r.random() < .5 and scope != "\\":
                scope = scope[1:]
        else:
            q = d.name if d.name.startswith("$") else d.name.lstrip("$")
        q = scope + q
        res = s.symbols(q)
        c.evals += 1
        c.note("asked for " + ("a qualified name" if scope else "a name") )
        got = {}
        per = {}
        for x in res:
            per[x["kind"]] = per.get(x["kind"], 0) + 1
            rel = u2f.get(x["location"]["uri"])
            if rel is None:
                if x["location"]["uri"].startswith("file://"):
                    c.violate("workspace-stale", "%r (%s) gives %r in a file which is not there" % (q, phase, x))
                    return False
                continue
            key = (rel, rng(x["location"]["range"]), x["kind"])
            e = every.get(key)
            if e is None:
                c.violate("workspace-wrong", "%r (%s) gives %r, which is no declaration" % (q, phase, x))
                return False
            if e.anon or x["name"] != e.full and x["name"] != e.name:
                c.violate("workspace-name", "%r (%s) gives %r for %s" % (q, phase, x, e))
                return False
            if e.container is not None and not e.container.anon and x.get("containerName") != e.container.full:
                c.violate("workspace-container", "%r (%s) gives %r for %s of %s" % (q, phase, x, e, e.container))
                return False
            if key in got:
                c.violate("workspace-twice", "%r (%s) gives %r twice" % (q, phase, x))
                return False
            got[key] = x
        c.note("symbols found", len(got))
        ql = q[len(scope):].lstrip("$").lower()
        for (rel, _, _), e in every.items():
            if e.anon:
                continue
            if scope:
                if e.container is not None or e.full.rpartition("\\")[0] + "\\" != "\\" + scope.lstrip("\\"):
                    continue
                # classes are searched with the exact letters, and all others without
                hit = e.name.startswith(q[len(scope):])
            else:
                if q.startswith("$") and e.kind != 7:
                    continue
                hit = any(t.lower().startswith(ql) for t in tokens(e.name))
            if not hit:
                continue
            c.note("symbols to be found")
            ks = full[(rel, e.what, e.full, e.container.full if e.container else None)]
            if not any(k2 in got for k2 in ks):
                if per.get(e.kind, 0) >= LIMIT and q.lower() != e.name.lstrip("$").lower():
                    c.note("beyond the limit of the search")
                    continue
                c.violate("workspace-missing", "%r (%s) does not give %s in %s; of this name there are %s" % (
                    q, phase, e, rel, [(k[0], d.what, d.full, d.container and d.container.full, d.span[0]) for k, d in every.items() if d.name.lower() == e.name.lower()]))
                return False
    return True


def case(box, c, p):
    r = core.rng_for("C17", p["seed"], p["i"])
    if p["i"] % 3 == 0:
        P = phpgen.Project(r, nfiles=r.choice([3, 6]), multi=r.choice([0, .3]), wraps=False)
        trees = of_project(P)
    else:
        ts = [phptree.Tree(r, "%sg%d.php" % (r.choice(["", "src/", "lib/ü é/"]), k), "t%d" % k, size=r.choice([4, 10, 20, 40])) for k in range(r.choice([2, 4, 6]))]
        P = Files(ts)
        trees = {t.rel: t.roots for t in ts}
        for t in ts:
            c.note("names declared again", t.again)
            for f in t.forms:
                c.note("form " + f[:20].replace("\n", " "))
    text = {f.rel: f.text for f in P.files.values()}
    w = world.World(box, r, P, restart=.15)
    s = w.s
    u2f = {s.uri(rel): rel for rel in text}
    phase = "as delivered"
    for step in range(r.randrange(1, 4)):
        for rel, ds in trees.items():
            how = w.how.get(rel)
            c.seen((text[rel], how))
            if not outline(c, s, rel, ds, "%s, by %s" % (phase, how)):
                w.end(c)
                return
        if not wsymbols(c, s, r, trees, phase, p["n"], u2f):
            w.end(c)
            return
        # replace, delete or create files
        phase = "after changes"
        gone = 0
        for rel in r.sample(sorted(text), r.randrange(1, len(text) + 1)):
            u = s.uri(rel)
            if r.random() < .25 and len(text) > 1 and rel not in w.opened:
                os.unlink(os.path.join(w.ws, rel))
                s.watch((u, 3))
                del text[rel], trees[rel], u2f[u]
                gone += 1
                continue
            t = phptree.Tree(r, rel, "s%d%s" % (step, "".join(ch for ch in rel if ch.isdigit())), size=r.choice([3, 10, 20]),
                             eol="\r\n" if "\r\n" in text[rel] else "\r" if "\r" in text[rel] else "\n")
            if rel in w.opened:
                s.change(u, world.edit_path(r, w.opened[rel], t.text, r.random() < .8))
                w.opened[rel] = t.text
            else:
                s.write(rel, t.text)
                s.watch((u, 2))
            text[rel], trees[rel] = t.text, t.roots
            c.note("files replaced")
        s.settle()
        if gone:
            c.note("files deleted", gone)
        if r.random() < .25:
            w.restart()
            phase = "after changes and a restart"
            c.note("restarts")
    c.sample = "%d declarations in %d files" % (sum(1 for ds in trees.values() for _ in walk(ds)), len(trees))
    w.end(c)


def main():
    ck = core.Check("C17", rule="distinct (text of a file, route by which it reached the server)",
                    assumptions=["of several declarations of one name in one file any one may be found by its name",
                                 "%d results of a kind end the search for names which the query is not the whole of" % LIMIT,
                                 "anonymous classes may have any name and need not be found"])
    b = core.build_server()
    ck.run_cases("outline", case, [dict(seed=ck.seed, i=i, n=ck.n(12, 30)) for i in range(ck.n(130, 3000))], binary=b)
    ck.finish()
