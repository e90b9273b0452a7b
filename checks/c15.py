"""C15: the published diagnostics are true of the latest text."""
import random
import re
import time

from checks.c14 import off_of
from vlib import core, phpgen, phpvars, world

UNREAD = re.compile(r"(\$\S+) is declared but its value is never read\.$")


def last(s, uri):
    return (s.srv.diags.get(uri) or [[]])[-1] or []


def wait_for(s, counts, timeout=30):
    """Waits until there are as many publications for each document; returns the ones without."""
    end = time.time() + timeout
    while time.time() < end:
        missing = [u for u, n in counts.items() if len(s.srv.diags.get(u) or []) < n]
        if not missing:
            return []
        time.sleep(.05)
    return missing


def span(rg):
    return ((rg["start"]["line"], rg["start"]["character"]), (rg["end"]["line"], rg["end"]["character"]))


def kind_of(d):
    if d.get("severity") == 1:
        return "error"
    if 2 in (d.get("tags") or []):
        return "deprecated"
    if UNREAD.search(d["message"]):
        return "variable"
    if 1 in (d.get("tags") or []):
        return "import"
    return "other"


def project(box, c, p):
    r = core.rng_for("C15p", p["seed"], p["i"])
    P = phpgen.Project(r, nfiles=r.choice([3, 5, 8]), deprecate=r.choice([.15, .3, .6]), multi=r.choice([0, .4]), docs=True)
    w = world.World(box, r, P, restart=.2)
    s = w.s
    rels = list(P.files)
    r.shuffle(rels)
    counts = {}
    for rel in rels:
        u = s.uri(rel)
        if rel in w.opened:
            counts[u] = len(s.srv.diags.get(u) or []) + 2
            s.change(u, [{"text": P.files[rel].text}])
        else:
            # the published ones of the time before a restart do not count
            counts[u] = len(s.srv.diags.get(u) or []) + 2
            s.open(u, P.files[rel].text)
            w.opened[rel] = P.files[rel].text
    s.settle()
    missing = wait_for(s, counts)
    if missing:
        c.violate("not-published", "no diagnostics of the deprecated names have been published for %s (%s)" % (
            missing, {u: s.srv.diags.get(u) for u in missing}))
        return
    for rel in rels:
        u = s.uri(rel)
        f = P.files[rel]
        got = {}
        for d in last(s, u):
            got.setdefault(kind_of(d), []).append(d)
        c.evals += 1
        c.note("files")
        c.seen((f.text, sorted(x.uid for x in list(P.ents.values()) if x.deprecated)))
        if got.get("error") or got.get("other"):
            c.violate("error", "%s of a valid program: %s\n%s" % (rel, (got.get("error") or got.get("other"))[:3], f.text))
        imports(c, P, rel, got.get("import") or [])
        deprecated(c, P, rel, got.get("deprecated") or [])
    w.end(c)


def imports(c, P, rel, diags):
    exp = {}
    for f in P.sections[rel]:
        for kind, alias, target, sp in f.import_toks:
            key = alias if kind == "class" else "f:" + alias
            used = key in f.used_aliases
            c.note("used imports" if used else "unused imports")
            if not used:
                exp[sp] = alias
    got = {span(d["range"]): d["message"].split(" ")[0] for d in diags}
    for sp in sorted(set(exp) - set(got)):
        c.violate("import-missed", "%s:%s import %s is not used, but not reported\n%s" % (rel, sp, exp[sp], P.files[rel].text))
    for sp in sorted(set(got) - set(exp)):
        c.violate("import-false", "%s:%s import %s is reported as unused\n%s" % (rel, sp, got[sp], P.files[rel].text))


def deprecated(c, P, rel, diags):
    exp, either = {}, set()
    for x in P.refs:
        if x.file == rel and (x.text.lower() in ("self", "static", "parent") or x.targets and x.targets[0].kind == "trait"):
            either.add((x.start, x.end))
        elif x.file == rel and x.kind in ("class", "doctype", "method", "prop", "const", "function", "constant") and x.targets and x.targets[0].deprecated:
            exp[(x.start, x.end)] = x
            c.note("deprecated " + x.kind)
    got = {}
    for d in diags:
        sp = span(d["range"])
        if re.match("(self|static|parent) is", d["message"]):
            continue
        if sp in got:
            c.violate("deprecated-twice", "%s:%s is reported twice: %s" % (rel, sp, d))
        got[sp] = d
    lines = P.files[rel].text.split("\n")
    for sp in sorted(set(exp) - set(got)):
        c.violate("deprecated-missed", "%s:%s %r means the deprecated %s, but is not reported\n line: %s" % (
            rel, sp, exp[sp].text, exp[sp].targets, lines[sp[0][0]]))
    for sp in sorted(set(got) - set(exp) - either):
        c.violate("deprecated-false", "%s:%s is reported as %r\n line: %s" % (rel, sp, got[sp]["message"], lines[sp[0][0]]))
    for sp in set(exp) & set(got):
        if not re.search(r"\b%s\b" % exp[sp].targets[0].uid, got[sp]["message"]):
            c.violate("deprecated-other", "%s:%s %r means %s, but is reported as %r" % (
                rel, sp, exp[sp].text, exp[sp].targets[0], got[sp]["message"]))


def variables(box, c, p):
    """Values which nothing reads, and only those."""
    r = core.rng_for("C15v", p["seed"], p["i"])
    box.fresh_ws()
    s = box.session()
    s.start()
    for n in range(p["n"]):
        P = phpvars.Prog(r, r.choice([1, 1, 3, 6]))
        uri = s.uri("v%d.php" % n)
        if r.random() < .6:
            s.open(uri, P.text)
        else:
            t = world.scramble(r, P.text)
            s.open(uri, t)
            s.change(uri, world.edit_path(r, t, P.text, r.random() < .8))
        s.pos("textDocument/hover", uri, 0, 0)
        ds = last(s, uri)
        c.evals += 1
        c.note("programs with variables")
        got = {}
        for d in ds:
            if kind_of(d) == "variable":
                a, b = (off_of(P.text, d["range"][k]) for k in ("start", "end"))
                if UNREAD.search(d["message"]).group(1) != P.text[a:b]:
                    c.violate("variable-range", "%s is reported at %r\n%s" % (d["message"], P.text[a:b], P.text))
                got[(a, b)] = d
            else:
                c.violate("error", "%s of a valid program\n%s" % (d, P.text))
        sure, maybe = P.unread()
        c.sample = "%s\n %s" % (P.text[:800], [d["message"] for d in ds])
        form = {(a, b): f for a, b, g, f in P.occ}
        for x in got:
            c.note("unread: %s" % form.get(x))
        c.seen((P.text, len(got)))
        c.note("values certainly unread", len(sure))
        for x in sorted(set(got) - maybe)[:2]:
            c.violate("variable-false", "this value is read, but reported as never read (%s):\n%s" % (
                form.get(x), P.text[:x[0]] + "|" + P.text[x[0]:]))
        for x in sorted(sure - set(got))[:2]:
            c.violate("variable-missed", "this value is never read, but not reported (%s):\n%s" % (
                form.get(x), P.text[:x[0]] + "|" + P.text[x[0]:]))
        s.close(uri)
        if c.violations:
            break
    for x in s.finish():
        c.violate("wire", x)


# code which no PHP parser accepts, in front of anything
BROKEN = ["$x = ;", "f(1;", "$a = [1, 2;", "if (true {", "function f( {}", "class {", "}", "$x = 1 +;", "foreach ($a as) {}", "echo ) 1;", "new;",
          "class K9 { public function }", "$a->;", "return return;", "try { }", "switch ($a) { echo 1; }", "use ;", "A::;", "function () {",
          "while {", "namespace ;", "interface I9 { public $a", "const = 1;", "$f = fn() =;", "else {}", "case 1:", "$x ===;", "class A extends {}", ") (", "]"]


def syntax(box, c, p):
    """Code which no parser accepts is reported, inside of the text, until it is repaired."""
    r = core.rng_for("C15s", p["seed"], p["i"])
    box.fresh_ws()
    s = box.session()
    s.start()
    for n in range(p["n"]):
        if r.random() < .7:
            text = phpvars.Prog(r, r.choice([0, 1, 3])).text
        else:
            P = phpgen.Project(r, nfiles=1)
            text = P.files[r.choice(list(P.files))].text
        if not text.startswith("<?php"):
            continue
        uri = s.uri("s%d.php" % n)
        how = r.choice(BROKEN)
        eol = "\r\n" if "\r\n" in text else "\n"
        if r.random() < .5:
            bad = text + r.choice(["", eol]) + " ?>" + eol + "<?php " + how + r.choice(["", eol, " ?>", " // é 😀"])
        else:
            bad = "<?php " + how + eol + "?>" + r.choice(["", "é 😀", "<b>"]) + text
        ok = [text, bad, text] if r.random() < .5 else [bad, text, bad]
        s.open(uri, ok[0])
        for k, t in enumerate(ok):
            if k:
                s.change(uri, world.edit_path(r, ok[k - 1], t, r.random() < .8))
            s.pos("textDocument/hover", uri, 0, 0)
            errors = [d for d in last(s, uri) if kind_of(d) == "error"]
            c.evals += 1
            c.seen((t, len(errors)))
            c.note("broken texts" if t is bad else "valid texts")
            if t is bad and not errors:
                c.violate("error-missed", "%r is not reported\n%s" % (how, t))
            if t is text and errors:
                c.violate("error-false", "%s is reported for a valid text%s\n%s" % (errors[:2], " which was broken by %r before" % how if k else "", t))
            rows = t.split("\n")
            for d in errors:
                a, b = span(d["range"])
                if a > b or b[0] >= len(rows) or b[1] > len(rows[b[0]].encode("utf-16-le")) // 2:
                    c.violate("error-range", "%s is outside of the text\n%s" % (d, t))
        s.close(uri)
        if c.violations:
            break
    for x in s.finish():
        c.violate("wire", x)


def latest(box, c, p):
    """The last diagnostics of a document are those of its last text, older ones do not follow newer ones."""
    r = core.rng_for("C15l", p["seed"], p["i"])
    clock = random.Random()
    box.fresh_ws()
    s = box.session()
    s.write("lib.php", "<?php\n/** @deprecated */\nfunction oldOne() {}\n")
    s.start()
    uris = [s.uri("d%d.php" % i) for i in range(p["docs"])]
    at, texts, is_open = {u: 0 for u in uris}, {}, {}
    reopened = {u: 0 for u in uris}
    n = 0

    def make(n):
        return "<?php\n%s\nfunction f%d() { $v%d = 1; }\n%s%s" % (
            "\n" * r.randrange(0, 3), n, n, "oldOne();\n" if r.random() < .7 else "", "broken%d(1 + );\n" % n if r.random() < .3 else "")
    for phase in range(p["phases"]):
        for _ in range(r.randrange(5, 60)):
            u = r.choice(uris)
            if not is_open.get(u):
                n += 1
                texts[u] = make(n)
                s.open(u, texts[u])
                is_open[u] = True
                at[u] = n
                c.note("opens")
            elif r.random() < .12:
                s.close(u)
                is_open[u] = False
                reopened[u] += 1
                c.note("closes")
            elif r.random() < .1:
                s.srv.start("textDocument/documentSymbol", {"textDocument": {"uri": u}})
            else:
                n += 1
                t = make(n)
                ch = [{"text": t}] if r.random() < .5 else world.edit_path(r, texts[u], t, r.random() < .8)
                s.change(u, ch)
                texts[u] = t
                at[u] = n
                c.note("edits")
        if r.random() < .5:
            time.sleep(clock.random() * r.choice([.1, 2.5]))
        else:
            time.sleep(1.9 + clock.random() * .2)       # about when the deferred ones are due
    for u in uris:
        if not is_open.get(u):
            n += 1
            texts[u] = make(n)
            s.open(u, texts[u])
            at[u] = n
    s.settle()
    end = time.time() + 30
    for u in uris:
        t = texts[u]
        want = {"variable": 1, "deprecated": 1 if "oldOne()" in t else 0}
        while time.time() < end:
            ds = last(s, u)
            if want["deprecated"] == len([d for d in ds if kind_of(d) == "deprecated"]):
                break
            time.sleep(.1)
    time.sleep(2.3)         # whatever is still deferred
    s.settle()
    for u in uris:
        t = texts[u]
        c.evals += 1
        hist = s.srv.diags.get(u) or []
        seen = []
        for ds in hist:
            for d in ds or []:
                m = re.match(r"\$v(\d+) ", d["message"])
                if m:
                    seen.append(int(m.group(1)))
                    c.note("publications")
        c.seen((u, tuple(seen)))
        if seen != sorted(seen):
            k = [i for i in range(1, len(seen)) if seen[i] < seen[i - 1]][0]
            c.violate("older", "diagnostics of text %d are published after those of text %d" % (seen[k], seen[k - 1]))
        if not seen or seen[-1] != at[u]:
            c.violate("stale", "the last diagnostics are of text %s, the last text is %d" % (seen[-1:], at[u]))
            continue
        final = last(s, u)
        kinds = sorted(kind_of(d) for d in final)
        want = ["deprecated"] * ("oldOne()" in t) + ["variable"]
        if [k for k in kinds if k != "error"] != want or ("error" in kinds) != ("broken" in t):
            c.violate("last", "the last diagnostics are %s, the text is\n%s" % (final, t))
        for d in final:
            row = t.split("\n")[d["range"]["start"]["line"]]
            word = row[d["range"]["start"]["character"]:d["range"]["end"]["character"]]
            if kind_of(d) == "variable" and word != "$v%d" % at[u] or kind_of(d) == "deprecated" and word != "oldOne":
                c.violate("position", "%s is at %r" % (d, word))
    for x in s.finish():
        c.violate("wire", x)


def main():
    ck = core.Check("C15", rule="distinct (text, diagnostics expected or published)")
    b = core.build_server()
    ck.run_cases("projects", project, [dict(i=i, seed=ck.seed) for i in range(ck.n(40, 600))], binary=b)
    ck.run_cases("variables", variables, [dict(i=i, seed=ck.seed, n=60) for i in range(ck.n(32, 800))], binary=b)
    ck.run_cases("syntax", syntax, [dict(i=i, seed=ck.seed, n=40) for i in range(ck.n(16, 400))], binary=b)
    ck.run_cases("latest", latest, [dict(i=i, seed=ck.seed, docs=r, phases=3) for i, r in enumerate([1, 2, 4, 1, 3, 2, 1, 5] * ck.n(1, 30))], binary=b)
    ck.finish()
