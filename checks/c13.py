"""C13: renaming a variable changes all occurrences of this variable and nothing else."""
from vlib import core, phpvars, world


def run(box, c, p):
    r = core.rng_for("C13", p["seed"], p["i"])
    box.fresh_ws()
    s = box.session()
    s.start()
    for n in range(p["n"]):
        P = phpvars.Prog(r, r.choice([2, 5, 10]))
        rel = "v%d.php" % n
        uri = s.uri(rel)
        mode = r.random()
        if mode < .2:
            s.write(rel, P.text)
            s.watch((uri, 1))
            s.settle()
        elif mode < .6:
            s.open(uri, P.text)
        else:
            t = world.scramble(r, P.text)
            s.open(uri, t)
            s.change(uri, world.edit_path(r, t, P.text, r.random() < .8))
        for k, v in P.forms.items():
            c.note("occurrence: " + k, v)
        text = P.text
        for _ in range(p["asks"]):
            if not P.occ:
                break
            a, b, g, form = r.choice(P.occ)
            at = r.randrange(a + 1, b + 1) if r.random() < .8 else a
            ask(s, c, r, P, uri, at, g, form)
        for _ in range(2):
            if P.traps:
                a, b = r.choice(P.traps)
                at = r.randrange(a + 1, b)  if b - a > 1 else a
                pos = world.pos_of(text, at)
                res = s.pos("textDocument/rename", uri, pos["line"], pos["character"], newName="$zzNew")
                ch = [e for v in ((res or {}).get("changes") or {}).values() for e in v or []]
                c.evals += 1
                c.note("look-alikes asked")
                if ch:
                    c.violate("look-alike", "%r is no variable, but renaming it changes %s\n%s" % (
                        text[a:b], ch[:5], text[:at] + "|" + text[at:]))
        if mode >= .2:
            s.close(uri)
        if c.violations:
            break
    for x in s.finish():
        c.violate("wire", x)


def ask(s, c, r, P, uri, at, g, form):
    text = P.text
    full = r.choice(["$zzNew", "$x", "$ünïcode", "$a_much_longer_name"])
    new = full if r.random() < .8 else full[1:]     # the dollar sign is not a part of the word in some clients
    pos = world.pos_of(text, at)
    res = s.pos("textDocument/rename", uri, pos["line"], pos["character"], newName=new)
    changes = (res or {}).get("changes") or {}
    c.evals += 1
    group = [o for o in P.occ if o[2] == g]
    exp = {(a, b): f for a, b, gg, f in P.occ if gg == g}
    c.note("renames")
    c.note("occurrences renamed", len(exp))
    c.seen((text, at))
    if set(changes) - {uri}:
        c.violate("rename-uri", "renaming a variable changes other documents: %s" % sorted(changes))
    got = {}
    where = "asked at %s (%s)" % (pos, form)
    for e in changes.get(uri) or []:
        a, b = off(text, e["range"]["start"]), off(text, e["range"]["end"])
        if (a, b) in got:
            c.violate("rename-twice", "%r is changed twice, %s\n%s" % (text[a:b], where, mark(text, at)))
            return
        got[(a, b)] = e["newText"]
    missing = sorted(set(exp) - set(got))
    extra = sorted(set(got) - set(exp))
    wrong = [(t, text[a:b]) for (a, b), t in got.items() if t != (full if text[a] == "$" else full[1:])]
    if missing or extra or wrong:
        c.violate("rename", "renaming to %s, %s: missing %s, unexpected %s, wrong names %s\n%s" % (
            new, where,
            [(text[a:b], exp[(a, b)], world.pos_of(text, a)) for a, b in missing[:5]],
            [(text[a:b], world.pos_of(text, a)) for a, b in extra[:5]], wrong[:5], mark(text, at)))


def mark(text, at):
    return text[:at] + "|" + text[at:]


def off(text, p):
    from checks.c14 import off_of
    return off_of(text, p)


def main():
    ck = core.Check("C13", rule="distinct (text, position) whose rename was compared with the occurrences of the generated variable")
    b = core.build_server()
    ck.run_cases("renames", run, [dict(i=i, seed=ck.seed, n=12, asks=6) for i in range(ck.n(48, 1200))], binary=b)
    ck.finish()
