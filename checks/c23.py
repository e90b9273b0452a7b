"""C23: asking changes nothing: the same question has the same answer, whatever was asked before, in whatever order, one after the other or all at once."""
import json
import re

from vlib import core, corpus, hist, lsp, phpgen
from vlib.corpus import u16

METHODS = ["definition", "definition", "hover", "hover", "references", "completion", "completion", "signatureHelp", "documentHighlight", "prepareRename", "rename"]


def exact(method, res):
    """Only the order of locations has no meaning."""
    if res is None:
        res = []
    if method.endswith(("references", "definition", "workspace/symbol")):
        return sorted(json.dumps(x, sort_keys=True) for x in (res or []))
    if method.endswith("completion") and isinstance(res, dict):
        if res.get("isIncomplete"):
            return ["cut", len(res.get("items") or []) > 0]
        return sorted(json.dumps(x, sort_keys=True) for x in res.get("items") or [])
    if method.endswith("rename") and isinstance(res, dict):
        return sorted(json.dumps([u, sorted(json.dumps(e, sort_keys=True) for e in es)]) for u, es in (res.get("changes") or {}).items()) + \
            sorted(json.dumps(x, sort_keys=True) for x in res.get("documentChanges") or [])
    return json.dumps(res, sort_keys=True)


def questions(r, s, texts, n):
    out = []
    words = set()
    for rel, t in sorted(texts.items()):
        u = s.uri(rel)
        out.append(("textDocument/documentSymbol", {"textDocument": {"uri": u}}))
        lines = corpus.lsp_lines(t)
        spots = [(i, m) for i, x in enumerate(lines) for m in re.finditer(r"[\w\\$]+|->|::|\(|,", x)]
        for i, m in r.sample(spots, min(n, len(spots))):
            ch = u16(lines[i][:r.randrange(m.start(), m.end() + 1)])
            meth = r.choice(METHODS)
            p = {"textDocument": {"uri": u}, "position": {"line": i, "character": ch}}
            if meth == "references":
                p["context"] = {"includeDeclaration": r.random() < .5}
            if meth == "rename":
                p["newName"] = "renamed"
            out.append(("textDocument/" + meth, p))
            words.add(m.group(0).split("\\")[-1].strip("$"))
    words = sorted(w for w in words if re.match(r"\w", w))
    for w in r.sample(words, min(8, len(words))):
        out.append(("workspace/symbol", {"query": w}))
    return out


def answer(s, q):
    try:
        return exact(q[0], s.srv.call(*q))
    except lsp.RPCError as ex:
        return "error " + str(ex)


def flood(s, qs):
    ks = [s.srv.start(*q) for q in qs]
    out = []
    for k, q in zip(ks, qs):
        m = s.srv.wait(k, q[0])
        out.append("error %s" % m["error"] if "error" in m else exact(q[0], m.get("result")))
    return out


def case(box, c, p):
    r = core.rng_for("C23", p["seed"], p["i"])
    P = phpgen.Project(r, nfiles=r.choice([1, 3, 5]), stmts=r.choice([6, 14]), prefix="q", ns=["", "App", "App\\Sub"])
    box.fresh_ws()
    s = box.session()
    texts = {rel: f.text for rel, f in P.files.items()}
    opened = {}
    for rel, t in texts.items():
        if r.random() < .5:
            opened[rel] = t
            if r.random() < .5:
                s.write(rel, "<?php\n")
        else:
            s.write(rel, t)
    s.start()
    for rel, t in opened.items():
        s.open(s.uri(rel), t)
    s.settle()
    qs = questions(r, s, texts, p["n"])
    seen = {}
    bad = 0
    rounds = ["in order", "in order"] + [r.choice(["shuffled", "at once", "each twice", "at once, each three times", "reversed"]) for _ in range(p["rounds"])]
    for how in rounds:
        idx = list(range(len(qs)))
        if how != "in order":
            r.shuffle(idx)
        if how == "reversed":
            idx = list(range(len(qs)))[::-1]
        if how == "each twice":
            idx = [i for i in idx for _ in range(2)]
        if how.endswith("three times"):
            idx = [i for i in idx for _ in range(3)]
            r.shuffle(idx)
        got = flood(s, [qs[i] for i in idx]) if how.startswith("at once") else [answer(s, qs[i]) for i in idx]
        c.note("rounds " + how)
        for i, a in zip(idx, got):
            c.evals += 1
            if i not in seen:
                seen[i] = a
                if len(a) > 8 or isinstance(a, list) and a:
                    c.seen((qs[i][0], qs[i][1].get("position"), a))
            elif seen[i] != a:
                bad += 1
                b = seen[i]
                d = ("only first: %s\n only then: %s" % ([x for x in b if x not in a][:3], [x for x in a if x not in b][:3])) if isinstance(a, list) and isinstance(b, list) \
                    else "first %s\n then %s" % (b, a)
                c.violate("answer-changed", "%s %s, asked again (%s)\n %s\n%s" % (qs[i][0], json.dumps(qs[i][1]), how, d[:2000], "\n".join(
                    "--- %s %s\n%s" % (rel, rel in opened and "open" or "", t) for rel, t in texts.items())[:5000]))
                if bad > 2:
                    s.finish()
                    return
        s.settle()
    c.sample = c.sample or "%d questions, rounds %s" % (len(qs), rounds)
    for x in s.finish():
        c.violate("wire", x)


def main():
    ck = core.Check("C23", rule="distinct (question, answer) which stayed the same when it was asked again")
    ck.run_cases("ask", case, [dict(seed=ck.seed, i=i, n=30, rounds=4) for i in range(ck.n(80, 2000))], binary=core.build_server())
    ck.finish()
