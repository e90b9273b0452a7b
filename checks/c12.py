"""C12: find references returns exactly the uses, after any history."""
import os

from vlib import core, corpus, phpgen, world


def key(rel, a, b):
    return (rel, a[0], a[1], b[0], b[1])


def truth(P):
    """group -> (label, must {range: probe point}, may set)"""
    groups = {}
    for e in P.ents.values():
        kinds = {"class": ("class", "parent", "doctype"), "interface": ("class", "doctype"), "trait": ("class", "doctype"),
                 "function": ("function",)}.get(e.kind)
        if not kinds:
            continue
        must, may = {}, set()
        for x in P.refs:
            if e in x.targets and x.kind in kinds:
                must[key(x.file, x.start, x.end)] = (x.start, x.end)
            elif e.kind == "function" and x.kind == "function" and x.text == e.name:
                may.add(key(x.file, x.start, x.end))
        k = key(e.file, *e.tok)
        if e.kind == "trait":
            may.add(k)      # the declaration of a trait is not counted among its uses
        else:
            must[k] = e.tok
        # a call names another function once its own is gone
        groups[e.uid] = (repr(e), must, may, e.file if e.kind == "function" else None)
    mem = {}
    for e in P.ents.values():
        for m in e.members:
            mem.setdefault((m.kind, m.name), {})[key(e.file, *m.tok)] = m.tok
    for x in P.refs:
        if x.kind in ("method", "prop", "const"):
            mem.setdefault((x.kind, x.text.lstrip("$")), {})[key(x.file, x.start, x.end)] = (x.start, x.end)
    for g, must in mem.items():
        groups["%s %s" % g] = ("%s named %s" % g, must, set(), None)
    return groups


class State:
    def __init__(self, P):
        self.text = {f.rel: f.text for f in P.files.values()}
        self.shift = {f.rel: [] for f in P.files.values()}   # (line, count)

    def map(self, k):
        rel, l1, c1, l2, c2 = k
        for at, n in self.shift[rel]:
            if l1 >= at:
                l1, l2 = l1 + n, l2 + n
        return (rel, l1, c1, l2, c2)


def ask_all(w, c, r, st, groups, phase):
    s = w.s
    u2f = {s.uri(f): f for f in w.P.files}
    for gid, (label, must, may, need) in groups.items():
        live = [k for k in must if k[0] in st.text]
        if not live or (need is not None and need not in st.text):
            continue
        exp = {st.map(k) for k in live}
        allow = exp | {st.map(k) for k in may if k[0] in st.text}
        for k in r.sample(live, min(len(live), r.choice([1, 1, 2]))):
            q = st.map(k)
            ch = r.randrange(q[2] + 1, q[4] + 1)
            res = s.pos("textDocument/references", s.uri(q[0]), q[1], ch, context={"includeDeclaration": True}) or []
            got = [(u2f.get(x["uri"], x["uri"]), x["range"]["start"]["line"], x["range"]["start"]["character"],
                    x["range"]["end"]["line"], x["range"]["end"]["character"]) for x in res]
            c.evals += 1
            c.note("asked " + phase.split(",")[0].split(" ")[0] + " history steps")
            c.note("uses expected", len(exp))
            c.seen((gid, sorted(exp), len(st.text)))
            missing = sorted(exp - set(got))
            extra = sorted(set(got) - allow)
            dup = sorted({g for g in got if got.count(g) > 1})
            if missing or extra or dup:
                c.violate("references", "references of %s asked at %s (%s): missing %s, extra %s, twice %s; %s" % (
                    label, q, phase, missing[:5], extra[:5], dup[:5], {k[0]: w.how[k[0]] for k in missing + extra if k[0] in w.how}))
                return False
    return True


def case(box, c, p):
    r = core.rng_for("C12", p["seed"], p["i"])
    P = phpgen.Project(r, nfiles=r.choice([2, 4, 6]), multi=r.choice([0, .3]))
    w = world.World(box, r, P, restart=.2)
    st = State(P)
    groups = truth(P)
    ok = ask_all(w, c, r, st, groups, "as delivered")
    for n in range(r.randrange(1, 4)):
        if not ok:
            break
        act = []
        for rel in r.sample(list(st.text), r.randrange(1, len(st.text) + 1)):
            u = w.s.uri(rel)
            k = r.random()
            old = st.text[rel]
            if k < .65:
                lines = corpus.lsp_lines(old)
                at = 1 if not lines[0].startswith("<html") else 2
                cnt = r.randrange(1, 4)
                off = 0
                for _ in range(at):
                    off = old.index("\n", off) + 1
                eol = P.files[rel].eol
                new = old[:off] + "".join("// é😀 %d%s" % (j, eol) for j in range(cnt)) + old[off:]
                st.shift[rel].append((at, cnt))
                act.append("shift " + rel)
            elif k < .8 and len(st.text) > 1 and rel not in w.opened:
                os.unlink(os.path.join(w.ws, rel))
                w.s.watch((u, 3))
                del st.text[rel]
                act.append("delete " + rel)
                continue
            else:
                new = old
                if rel in w.opened:
                    w.s.write(rel, old)
                    w.s.close(u)
                    del w.opened[rel]
                    act.append("close " + rel)
                else:
                    w.s.open(u, old)
                    w.opened[rel] = old
                    act.append("open " + rel)
                continue
            st.text[rel] = new
            if rel in w.opened:
                w.s.change(u, world.edit_path(r, old, new, r.random() < .8))
                w.opened[rel] = new
            else:
                w.s.write(rel, new)
                w.s.watch((u, 2))
        w.s.settle()
        if r.random() < .25:
            w.restart()
            act.append("restart")
        for a in act:
            c.note(a.split(" ")[0])
        ok = ask_all(w, c, r, st, groups, "after " + ", ".join(sorted({a.split(" ")[0] for a in act})))
    c.sample = "%d groups of uses in %d files" % (len(groups), len(P.files))
    w.end(c)


def main():
    ck = core.Check("C12", rule="distinct (symbol, set of its uses at the time, files alive)",
                    assumptions=["members are matched by name and kind, whatever their class, as the server documents",
                                 "unqualified calls in a namespace may count for the global function of the same name",
                                 "the declaration of a trait and names in use clauses and interface extends lists are not counted"])
    b = core.build_server()
    ck.run_cases("refs", case, [dict(seed=ck.seed, i=i) for i in range(ck.n(160, 3000))], binary=b)
    ck.finish()
