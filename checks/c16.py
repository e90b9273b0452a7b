"""C16: signature help shows the function called at the cursor, as it is declared, and the argument the cursor is in."""
import re

from vlib import core, phpsig, world


def ask(s, uri, text, pos, trigger=None):
    p = world.pos_of(text, pos)
    kw = {}
    if trigger:
        kw["context"] = {"triggerKind": 2, "triggerCharacter": trigger, "isRetrigger": False}
    return s.srv.call("textDocument/signatureHelp", dict(textDocument={"uri": uri}, position=p, **kw))


def words(s):
    return re.findall(r"[^\W_]+", s or "")


def doc_of(x):
    return x.get("value", "") if isinstance(x, dict) else (x or "")


def judge(c, text, pos, help, D):
    why = judge_in(c, D.at(pos), pos, help)
    if why:
        # in front of an opening bracket the call may count as begun
        for g in D.at(pos).inner:
            if g.kind == "call" and g.start - 1 == pos and judge_in(c, g, g.start, help) is None:
                return None
    return why


def judge_in(c, g, pos, help):
    """-> None or (signature, what is wrong)"""
    got = (help or {}).get("signatures") or []
    labels = sorted(x["label"] for x in got)
    # brackets of other kinds: nothing, or what surrounds them
    p, inside = g, False
    while p is not None and p.kind != "call":
        p, inside = p.parent, True
    if p is None:
        c.note("positions outside of calls")
        if got:
            return "outside", "shows %s outside of any call" % labels
        return None
    if inside:
        c.note("positions within " + g.kind)
        if not got:
            return None
    if p.callee is None or p.callee == []:
        c.note("unknown callees")
        if got:
            return "unknown", "shows %s for a call of something unknown" % labels
        return None
    want = sorted(x.label for x in p.callee)
    c.note("signatures of " + p.callee[0].kind)
    if labels != want:
        return "signature", "shows %s instead of %s" % (labels, want)
    n = p.active(pos)
    act = help.get("activeParameter", 0)
    m = len(p.callee[0].params)
    if act != n and not (n >= m and act == max(0, m - 1)):
        return "active", "active parameter is %d instead of %d of %s" % (act, n, want)
    c.note("active parameter %s" % (n if n < 4 else ">3"))
    sig = got[help.get("activeSignature", 0)]
    fn = p.callee[0]
    at = 0
    ps = sig.get("parameters") or []
    if len(ps) != len(fn.params):
        return "parameters", "has the parameters %s" % ps
    for x, y in zip(ps, fn.params):
        if x["label"] != y.label:
            return "parameters", "parameter %r instead of %r" % (x["label"], y.label)
        at = sig["label"].find(x["label"], at)
        if at < 0:
            return "parameters", "parameter %r is not in the label %r" % (x["label"], sig["label"])
        at += len(x["label"])
        # the descriptions of parameters are not stored (pinned by a test)
        if x.get("documentation") and words(doc_of(x.get("documentation"))) != words(y.doc):
            return "documentation", "the documentation of %s is %r instead of %r" % (y.name, x.get("documentation"), y.doc)
        if y.doc:
            c.note("documented parameters")
    if words(doc_of(sig.get("documentation"))) != words(fn.doc):
        return "documentation", "the documentation is %r instead of %r" % (sig.get("documentation"), fn.doc)
    return None


def spots(r, D, n):
    """Positions worth asking: around every bracket and comma, and anywhere."""
    out = []

    def walk(g):
        if g.kind == "call":
            out.extend([g.start, g.end])
        for x in g.commas:
            out.extend([x, x + 1])
        for x in g.inner:
            walk(x)
    walk(D.root)
    out += [r.randrange(len(D.text) + 1) for _ in range(n // 3)]
    r.shuffle(out)
    return [p for p in out if not (0 < p < len(D.text) and D.text[p - 1] == "\r" and D.text[p] == "\n")][:n]


def annotations(c, s, uri, D):
    """Every argument is annotated with the name of the parameter it is for."""
    want = {}
    for g in D.calls():
        for (a, b), y in zip(g.spans, g.callee[0].params if g.callee else []):
            b = a + len(D.text[a:b].rstrip())
            want[b] = (a, b, y.name)
    wrong = []
    for e in s.srv.call("documentSignatures", {"uri": uri}) or []:
        a, b = (world.off_of(D.text, e["range"][k]) for k in ("start", "end"))
        w = want.pop(b, None)
        c.note("annotated arguments")
        if w is None or w[2] != e["newText"] or a not in (w[0], w[0] + 3 * D.text.startswith("...", w[0])):
            wrong.append("%r is annotated with %r instead of %r" % (D.text[a:b], e["newText"], w and (w[2], D.text[w[0]:w[1]])))
    for a, b, name in want.values():
        wrong.append("%r is not annotated with %r" % (D.text[a:b], name))
    return wrong


def case(box, c, p):
    r = core.rng_for("c16", p["seed"], p["i"])
    eol = r.choice(["\n", "\n", "\r\n"])
    S = phpsig.Sigs(r, r.choice([1, 2, 3]), eol)
    w = world.World(box, r, S, restart=.25)
    s = w.s
    bad = 0
    for k in range(2):
        D = phpsig.Calls(r, S, eol, n=p["n"])
        rel = "use%d.php" % k
        uri = s.uri(rel)
        first = r.random() < .3
        t = world.scramble(r, D.text) if first else D.text
        s.open(uri, t)
        if first:
            s.change(uri, world.edit_path(r, t, D.text, r.random() < .8))
        wrong = annotations(c, s, uri, D)
        c.evals += 1
        if wrong:
            c.violate("annotations", "%s\n%s" % ("\n".join(wrong[:5]), D.text))
        for pos in spots(r, D, p["spots"]):
            got = ask(s, uri, D.text, pos, r.choice([None, None, "(", ","]))
            c.evals += 1
            c.seen((D.text, pos))
            why = judge(c, D.text, pos, got, D)
            if why:
                c.violate(why[0], "%s\n at | in: %s\n%s\n answer: %s" % (why[1], D.text[max(0, pos - 120):pos] + "|" + D.text[pos:pos + 80],
                                                                    "restarted" if any("restart" in str(h) for h in w.how.values()) else "", got))
                bad += 1
                if bad > 3:
                    break
        s.close(uri)
    c.sample = "%d callables, calls such as %r" % (len(S.all), D.text[-300:-200])
    w.end(c)


def main():
    ck = core.Check("C16", rule="distinct (document, position) asked",
                    assumptions=["within arrays, closures and other brackets inside of an argument nothing may be shown",
                                 "behind the last declared parameter the active parameter may stay at the last one"])
    b = core.build_server()
    ck.run_cases("signatures", case, [dict(seed=ck.seed, i=i, n=ck.n(8, 14), spots=ck.n(90, 200)) for i in range(ck.n(150, 3000))], binary=b)
    ck.finish()
