"""C14: accepting a completion makes the code refer to the completed symbol."""
import os
import re

from checks import nav  # noqa: F401
from vlib import core, corpus, phpgen, world
from vlib.phpgen import Out, PFile

NEW, WORDS = "\x01", re.compile(r"[A-Za-z0-9_\x80-\U0010ffff$]*\Z")
CLASSY = ("class", "interface", "trait")
CONTEXTS = {
    # name: (text around the word, kinds which are offered)
    "new": ("$q = new {}();", ("class",)),
    "new2": ("$q = new {};", ("class",)),
    "extends": ("class Zz%d extends {} {{}}", ("class",)),
    "implements": ("class Zz%d implements {} {{}}", ("interface",)),
    "iface": ("interface Zz%d extends {} {{}}", ("interface",)),
    "trait": ("class Zz%d {{ use {}; }}", ("trait",)),
    "param": ("function zz%d({} $a) {{}}", ("class", "interface")),
    "return": ("function zz%d(): {} {{}}", ("class", "interface")),
    "instanceof": ("$q instanceof {};", ("class", "interface")),
    "catch": ("try {{}} catch ({} $e) {{}}", ("class", "interface")),
    "name": ("{};", ("class", "interface", "function", "const", "define")),
    "echo": ("echo 1 + {};", ("class", "interface", "function", "const", "define")),
    "body": ("function zz%d() {{\n    {};\n}}", ("class", "interface", "function", "const", "define")),
}


def strip_php(text):
    """Comments and strings blanked out, lengths kept."""
    def blank(m):
        return re.sub(r"[^\r\n]", " ", m.group(0))
    return re.sub(r"/\*.*?\*/|(?://|#)[^\r\n]*|'[^'\r\n]*'|\"[^\"\r\n]*\"", blank, text, flags=re.S)


class Bad(Exception):
    pass


def read_blocks(text):
    """[(namespace, start, end, imports{kind:{alias:fqn}}, declared{kind:[names]})] by the rules of PHP."""
    m = re.search(r"<\?php\s", text)
    code = " " * m.end() + strip_php(text[m.end():])
    blocks = []
    cur = None
    depth = 0
    base = 0
    i = m.end()
    first = True

    def start(ns, at):
        b = dict(ns=ns, start=at, end=len(code), imports={"c": {}, "f": {}, "k": {}}, declared={"c": [], "f": [], "k": []})
        blocks.append(b)
        return b
    cur = start("", 0)
    stmt = re.compile(r"\s*(?:(declare\s*\([^)]*\)\s*;)|namespace(?:\s+([\w\\]+))?\s*([;{])|(use\s[^;]*;)|(?:abstract\s+|final\s+)?"
                      r"(class|interface|trait)\s+(\w+)|function\s+(\w+)|const\s+(\w+))")
    while i < len(code):
        if depth == base:
            m = stmt.match(code, i)
            if m and m.end() > i:
                if m.group(1):
                    if not first and "strict_types" in m.group(1):
                        raise Bad("strict_types declaration is not the very first statement any more")
                elif m.group(3):
                    if m.group(3) == "{":
                        depth += 1
                        base = 1
                    if blocks and cur is not None:
                        cur["end"] = min(cur["end"], m.start())
                    cur = start(m.group(2) or "", m.end())
                elif m.group(4):
                    if cur is None:
                        raise Bad("use statement outside of the namespace blocks")
                    add_use(cur, m.group(4))
                elif m.group(6):
                    cur["declared"]["c"].append(m.group(6))
                elif m.group(7):
                    cur["declared"]["f"].append(m.group(7))
                elif m.group(8):
                    cur["declared"]["k"].append(m.group(8))
                first = False
                i = m.end()
                continue
        ch = code[i]
        if ch == "{":
            depth += 1
        elif ch == "}":
            depth -= 1
            if base and depth == 0:
                cur["end"] = i
                cur = None
                base = 0
        if not ch.isspace() and cur is None and depth == 0 and ch != "}":
            raise Bad("code outside of the namespace blocks")
        if not ch.isspace():
            first = False
        # a statement starts after ; { } only
        j = i + 1
        if ch not in ";{}":
            while j < len(code) and code[j] not in ";{}":
                j += 1
        i = j
    for b in blocks:
        for k, names in b["declared"].items():
            low = [n if k == "k" else n.lower() for n in names]
            for a in b["imports"][k]:
                if (a if k == "k" else a.lower()) in low:
                    raise Bad("%s is imported although it is declared in the same namespace of the file" % a)
    return blocks


def add_use(b, text):
    body = re.sub(r"\s+", " ", text[3:-1]).strip()
    kind = "c"
    m = re.match(r"(function|const) ", body)
    if m:
        kind = m.group(1)[0] if m.group(1) == "function" else "k"
        body = body[m.end():]
    m = re.match(r"(.*)\\\{(.*)\}$", body)
    items = [x.strip() for x in (m.group(2) if m else body).split(",")]
    for it in items:
        w = re.match(r"(function|const) ", it) if m and kind == "c" else None
        k = {"function": "f", "const": "k"}[w.group(1)] if w else kind
        it = it[w.end():] if w else it
        it = re.match(r"(%s[\w\\]+)(?: as (\w+))?$" % ("" if m else r"\\?"), it)
        if not it:
            raise Bad("malformed use statement %r" % text)
        name = (m.group(1) + "\\" if m else "") + it.group(1)
        name = name[1:] if name.startswith("\\") else name
        alias = it.group(2) or name.split("\\")[-1]
        for a in b["imports"][k]:
            if a == alias or k != "k" and a.lower() == alias.lower():
                raise Bad("%s is imported twice" % alias)
        b["imports"][k][alias] = name


def resolve(P, blocks, off, name, kind, local):
    """FQN (with backslash) of the class / function / constant which `name` means at the offset."""
    b = [x for x in blocks if x["start"] <= off <= x["end"]]
    if not b:
        raise Bad("the name is outside of the namespace blocks")
    b = b[-1]
    if name.startswith("\\"):
        return name
    first, _, rest = name.partition("\\")
    table = b["imports"]["c"] if rest else b["imports"][kind]
    for a, t in table.items():
        if a.lower() == first.lower() if (kind != "k" or rest) else a == first:
            return "\\" + t + ("\\" + rest if rest else "")
    own = "\\" + (b["ns"] + "\\" if b["ns"] else "") + name
    if kind == "c" or rest:
        return own
    if P.lookup(kind, own) or (kind, own) in local:
        return own
    return "\\" + name


def group(kind):
    return {"class": "c", "interface": "c", "trait": "c", "function": "f"}.get(kind, "k")


class Doc:
    """An editor document with one spot where a name is being typed."""

    def __init__(self, r, P, spot):
        self.r, self.P = r, P
        o = P.o = Out(r.choice(["\n", "\n", "\r\n"]))
        self.local = set()
        secs = [PFile("ed.php", ns) for ns in r.sample(P.namespaces, min(len(P.namespaces), r.choice([1, 1, 1, 2, 3])))]
        braces = len(secs) > 1 and (any(f.ns == "" for f in secs) or r.random() < .5) or r.random() < .2
        where = r.randrange(len(secs))
        if r.random() < .1:
            o.put("<html>é</html>\n")
            o.put("<?php\n")
            declare = False
        else:
            o.put(r.choice(["<?php\n", "<?php\n\n", "<?php "]))
            declare = r.random() < .3
        if r.random() < .2:
            o.put("/* é notes */\n")
        if declare:
            o.put(r.choice(["declare(strict_types=1);\n", "declare( strict_types = 1 );\n\n"]))
        for n, f in enumerate(secs):
            P.f = f
            self.decl(f)
            if r.random() < .75:
                P._imports(f)
            if r.random() < .3:
                f.fimports = {}
                f.cimports = {}
            if braces:
                o.put("namespace %s{\n" % (f.ns + " " if f.ns else ""))
            elif f.ns:
                o.put("namespace %s;%s" % (f.ns, r.choice(["\n", "\n\n", " "])))
            if r.random() < .2:
                o.put("// é😀\n")
            P._uses()
            if f.decls:
                o.put(r.choice(["", "\n"]))
            for e in f.decls:
                o.put("%s %s {}\n" % (e.kind, e.name) if e.kind != "function" else "function %s() {}\n" % e.name)
            if r.random() < .4:
                o.put("$é = 'use A; namespace B { class X {';\n")
            if n == where:
                self.f = f
                o.put(spot)
                o.put("\n")
            if n == where:
                m = re.match("function (zz\\d+)", spot)
                if m:
                    self.local.add(("f", "\\" + (f.ns + "\\" if f.ns else "") + m.group(1)))
            if r.random() < .3:
                self.local.add(("f", "\\" + (f.ns + "\\" if f.ns else "") + "after%d" % n))
                o.put("function after%d() { return '}'; }\n" % n)
            if braces:
                o.put("}\n")
        t = o.text()
        self.at = t.index(NEW)
        self.text = t.replace(NEW, "")

    def decl(self, f):
        r, P = self.r, self.P
        for kind, pool in (("class", phpgen.CLASS_NAMES), ("function", phpgen.FUNC_NAMES)):
            if r.random() < .3:
                name = r.choice(pool)
                own = "\\" + (f.ns + "\\" if f.ns else "") + name
                if P.lookup(group(kind), own):
                    continue
                e = phpgen.Ent(P.uid(), kind, f.ns, name)
                f.decls.append(e)
                self.local.add((group(kind), own))


def accept(text, at, item):
    """The text after the item has been accepted, the word replaced by it, and where the word starts."""
    new = item.get("insertText") or item["label"]
    snippet = item.get("insertTextFormat") == 2
    if snippet:
        new = re.sub(r"\$0|\$\{0[^}]*\}", "", new)
    a = at - len(WORDS.search(text[:at]).group(0))
    edits = [(a, at, NEW + new)]
    for e in item.get("additionalTextEdits") or []:
        x, y = off_of(text, e["range"]["start"]), off_of(text, e["range"]["end"])
        if x != y:
            raise Bad("the additional edit replaces text: %r" % e)
        if not re.fullmatch(r"\s*use (function |const )?[\w\\]+( as \w+)?;\s*", e["newText"]):
            raise Bad("the additional edit is not a use statement: %r" % e)
        if a < x < at or x > a:
            raise Bad("the additional edit is behind the word: %r" % e)
        edits.append((x, y, e["newText"]))
    out = text
    for x, y, s in sorted(edits, reverse=True):
        out = out[:x] + s + out[y:]
    w = out.index(NEW)
    return out.replace(NEW, ""), w, new


_library = set()


def library():
    """Names of the functions in the library which the server ships, read from its sources."""
    if not _library:
        for d, _, fs in os.walk(os.path.join(core.REPO, "stub", "phpstorm-stubs")):
            for fn in fs:
                if not fn.endswith(".php"):
                    continue
                ns = ""
                with open(os.path.join(d, fn), encoding="utf-8", errors="replace") as f:
                    for line in f:
                        m = re.match(r"\s*namespace\s*([\w\\]*)\s*[;{]?\s*$", line)
                        if m:
                            ns = m.group(1)
                        m = re.match(r"\s*(?:namespace\s+([\w\\]+)\s*\{\s*)?(?:\{?\s*)function\s*&?\s*(\w+)\s*\(", line)
                        if m:
                            _library.add(("\\" + (ns + "\\" if ns else "") + m.group(2)).lower())
    return _library


def off_of(text, pos):
    lines = re.split(r"(?<=\n)|(?<=\r)(?!\n)", text)
    off = sum(len(x) for x in lines[:pos["line"]])
    u = 0
    for ch in lines[pos["line"]]:
        if u >= pos["character"]:
            break
        u += corpus.u16(ch)
        off += 1
    return off


def complete(s, uri, text, at):
    p = world.pos_of(text, at)
    res = s.pos("textDocument/completion", uri, p["line"], p["character"], context={"triggerKind": 1})
    return (res or {}).get("items") or [], bool((res or {}).get("isIncomplete"))


def names(w, c, box, r):
    s, P = w.s, w.P
    ctx = r.choice(list(CONTEXTS))
    tmpl, kinds = CONTEXTS[ctx]
    pool = [e for e in P.ents.values() if e.kind in kinds]
    if not pool:
        return
    target = r.choice(pool)
    n = r.choice([1, 2, 3, len(target.name)])
    typed = target.name[:n]
    qual = r.random()
    if qual < .25:
        typed = target.fqn[:len(target.fqn) - len(target.name)] + typed
    elif qual < .35 and target.ns:
        typed = target.ns + "\\" + typed
    spot = (tmpl % P.n if "%d" in tmpl else tmpl).format(typed + NEW)
    d = Doc(r, P, spot)
    uri = s.uri("ed.php")
    s.open(uri, d.text)
    items, incomplete = complete(s, uri, d.text, d.at)
    c.evals += 1
    c.note("completions of names")
    c.note("in " + ctx)

    def bad(sig, why, extra=""):
        c.violate(sig, "%s; completing %r (%s)\n%s\n text:\n%s\n%s" % (why, typed, ctx, extra, d.text[:d.at] + "|" + d.text[d.at:],
                                                                    "truth: " + ", ".join(repr(e) for e in pool)))
    found = set()
    r.shuffle(items)
    deep = 0
    for it in items:
        if it.get("kind") == 9:       # a namespace
            continue
        kk = {3: ("function",), 21: ("const", "define"), 8: ("interface",), 7: ("class", "interface", "trait")}.get(it.get("kind"))
        if kk is None:
            bad("item-kind", "item of unexpected kind: %s" % it)
            break
        kk = [k for k in kk if k in kinds]
        if not kk:
            bad("item-kind", "not usable here: %s" % it)
            break
        g = group(kk[0])
        try:
            text, at, new = accept(d.text, d.at, it)
            blocks = read_blocks(text)
            name = re.match(r"[\w\\\x80-\U0010ffff]*", new).group(0)
            m = re.search(r"[\w\\]*\Z", text[:at])
            full = m.group(0) + name
            fqn = resolve(P, blocks, at, full, g, d.local)
            ent = P.lookup(g, fqn)
            said = it["detail"].split("\n")[0].strip()
            if g == "k" and said == name and (said in ("null", "true", "false") or re.fullmatch("__[A-Z]+__", said)):
                continue
            if g == "c" and said.lstrip("\\") == name == "iterable":
                continue      # declared in the stubs, but it is a type and no class could have its name
            if ent is None and (g, fqn) not in d.local and (said == fqn if g != "f" else fqn.lower() in library()):
                c.note("items of the library")
                continue
            if ent is None and (g, fqn) not in d.local:
                raise Bad("afterwards %r means %s, which does not exist" % (full, fqn))
            if ent is not None and ent.kind not in kk:
                raise Bad("afterwards %r means %r (%s), documented by %r" % (full, ent, ent.file, ent.doc))
            if g != "f" and it["detail"].split("\n")[0].strip() != fqn:
                raise Bad("afterwards %r means %s instead of %s" % (full, fqn, it["detail"].split("\n")[0].strip()))
            if g == "f" and fqn.split("\\")[-1] != re.split(r"\(", it["detail"])[0].split("\\")[-1]:
                raise Bad("afterwards %r means %s instead of the function %s" % (full, fqn, it["detail"].split("\n")[0].strip()))
        except Bad as e:
            bad("accept", str(e), " item %s" % it)
            break
        if fqn in found:
            bad("twice", "two items for %s" % fqn, " item %s" % it)
            break
        found.add(fqn)
        c.seen((ctx, d.text, fqn))
        c.evals += 1
        c.note("items accepted" + (" with use" if it.get("additionalTextEdits") else ""))
        if ent is not None and ctx != "iface" and (ent is target or deep < 2):   # extended names are not navigable
            deep += 1
            if ctx in ("name", "echo", "body") and g == "c":
                text = text[:at + len(name)] + "::class" + text[at + len(name):]
            s.change(uri, world.edit_path(r, d.text, text, r.random() < .7))
            p = world.pos_of(text, at + max(1, len(name) - 1))
            got = world.locs(s.pos("textDocument/definition", uri, p["line"], p["character"]))
            s.change(uri, world.edit_path(r, text, d.text, r.random() < .7))
            if got != world.expected_locs(s, [ent]):
                bad("definition", "definition of the completed name is %s instead of %s" % (got, world.expected_locs(s, [ent])),
                    " item %s" % it)
                break
    else:
        if qual < .25 or qual >= .35:
            short = typed.split("\\")[-1]
            scope = typed[:len(typed) - len(short)]
            for e in pool:
                # a list that is cut short has at least what was typed out
                if (e.name == short and len(short) > 1 if incomplete else e.name.startswith(short)) and (not scope or e.fqn == scope + e.name) and e.fqn not in found:
                    bad("missing", "%r is not offered" % e, " items: %s" % [i["label"] for i in items])
                    break
            c.note("completeness decided" if not incomplete else "exact name decided")
    s.close(uri)


def members(w, c, box, r):
    s, P = w.s, w.P
    types = P.classes + P.interfaces
    if not types:
        return
    e = r.choice(types)
    inside = e.kind == "class" and r.random() < .35
    if inside:
        # the class is edited: an open document takes the place of the file
        sep, frm = r.choice([("$this->", e), ("self::", e), ("static::", e)])
    else:
        sep, frm = r.choice(["->", "->", "::", "::$"]), None
        if e.kind == "interface" and sep == "::$":
            sep = "::"
    kinds = ["method", "prop"] if "->" in sep else ["prop"] if "$" in sep[1:] else ["method", "prop", "const"]
    static = "->" not in sep
    pool = [m for k in kinds for m in P.visible(e, k, frm) if m.static == static]
    shown = {m: ("$" + m.name if m.kind == "prop" and static else m.name) for m in pool}
    pre = ""
    if pool and r.random() < .8:
        t = r.choice(pool)
        pre = t.name[:r.choice([1, 2, 3, len(t.name)])]
        if t.kind == "prop" and static and "$" not in sep:
            sep += "$"
            kinds = ["prop"]
            pool = [m for m in pool if m.kind == "prop"]
    if inside:
        rel = e.file
        text = P.files[rel].text
        eol = P.files[rel].eol
        a = off_of(text, {"line": e.span[1][0], "character": e.span[1][1]}) - 1
        head = eol + "    public function typing()" + eol + "    {" + eol + "        "
        spot = head + sep + pre + NEW + ";" + eol + "    }" + eol
        t = text[:a] + spot + text[a:]
    else:
        rel = "ed.php"
        v = "$é" if r.random() < .1 else "$x"
        if "->" in sep:
            if e.kind == "class" and r.random() < .5:
                spot = "%s = new %s();\n%s->%s%s;\n" % (v, e.fqn, v, pre, NEW)
            else:
                spot = "function typing(%s %s) {\n    %s->%s%s;\n}\n" % (e.fqn, v, v, pre, NEW)
        else:
            spot = "%s%s%s%s;\n" % (e.fqn, sep, pre, NEW)
        t = "<?php\n" + r.choice(["", "// é\n", "namespace Q;\n"]) + spot + r.choice(["", "function z() {}\n"])
        if r.random() < .3:
            t = t.replace("\n", "\r\n")
    at = t.index(NEW)
    t = t.replace(NEW, "")
    uri = s.uri(rel)
    if rel in w.opened:
        s.change(uri, world.edit_path(r, w.opened[rel], t, True))
    else:
        s.open(uri, t)
    items, incomplete = complete(s, uri, t, at)
    c.evals += 1
    c.note("completions of members after " + sep.replace("$this", "this"))

    def bad(sig, why, extra=""):
        c.violate(sig, "%s; completing %s%s of %r (inside: %s)\n%s\n line: %s\n file %s" % (
            why, sep, pre, e, bool(inside), extra, t[max(0, at - 60):at] + "|", t[:3000]))
    allm = [m for k in kinds for m in P.all_members(e, k)]
    # private members of parents are found from $this, by design; so are static members, and inherited protected ones
    got = {}
    for it in items:
        lab = it["label"]
        k = {2: "method", 10: "prop", 21: "const"}.get(it.get("kind"))
        if (k, lab) in got:
            bad("member-twice", "%r is offered twice" % lab)
        got[(k, lab)] = it
    for m in pool:
        if m.name.startswith(pre) and (m.kind, shown[m]) not in got and not incomplete:
            bad("member-missing", "%r is not offered" % m, " items: %s" % sorted(got))
            break
    byname = {}
    for m in allm:
        byname[(m.kind, "$" + m.name if m.kind == "prop" and static else m.name)] = m
    if inside:
        for k in kinds:
            for q in P.chain(e):
                for m in q.members:
                    if m.kind == k:
                        byname.setdefault((m.kind, "$" + m.name if m.kind == "prop" and static else m.name), m)
        for q in P.chain(e):
            byname[("method", "body_" + q.uid)] = None
        byname[("method", "typing")] = None
    elif e.kind == "class":
        for q in P.chain(e):
            byname[("method", "body_" + q.uid)] = None
    for (k, lab), it in sorted(got.items()):
        if (k, lab) not in byname:
            bad("member-unknown", "offers %s %r, which is no member" % (k, lab))
            break
        m = byname[(k, lab)]
        if m is None:
            continue
        if frm is None and not static and not m.static and (m.vis == "private" or m.vis == "protected" and m.owner is e and not any(
                x is not m and x.kind == m.kind and x.name == m.name for a in P.chain(e) for b in [a] + a.traits for x in b.members)):
            bad("member-hidden", "offers the %s %r from outside" % (m.vis, m))
            break
    cand = [m for m in pool if (m.kind, shown[m]) in got]
    r.shuffle(cand)
    cur = t
    for m in cand[:2]:
        try:
            text, wat, new = accept(t, at, got[(m.kind, shown[m])])
        except Bad as x:
            bad("accept-member", str(x))
            break
        if not re.fullmatch(re.escape(shown[m]) + (r"\(\)" if m.kind == "method" else ""), new):
            bad("member-text", "accepting %r writes %r" % (m, new))
            break
        s.change(uri, world.edit_path(r, cur, text, r.random() < .7))
        cur = text
        p = world.pos_of(text, wat + 1)
        # the text of the file has moved if it is the edited one
        res = world.locs(s.pos("textDocument/definition", uri, p["line"], p["character"]))
        c.evals += 1
        c.seen((sep, pre, m.uid, text))
        c.note("members accepted")
        exp = world.expected_locs(s, [m])
        if m.file == rel:
            res = [x[0] for x in res]
            exp = [x[0] for x in exp]
        if res != exp:
            bad("definition-member", "definition of the completed member is %s instead of %s" % (res, exp))
            break
    if rel in w.opened:
        s.change(uri, world.edit_path(r, cur, w.opened[rel], True))
    else:
        s.close(uri)


VARS = ["$user", "$users", "$userName", "$u", "$id", "$ids", "$total", "$été", "$_x"]


def variables(w, c, box, r):
    """Variables of the scope, and only those."""
    s = w.s
    lines = ["<?php"]
    spots = []
    top = r.sample(VARS, r.randrange(0, 4))
    for v in top:
        lines.append(assign(r, v))
    for i in range(r.randrange(1, 4)):
        ps = r.sample(VARS, r.randrange(0, 3))
        lines.append("function f%d(%s) {" % (i, ", ".join(ps)))
        have = list(ps)
        for v in r.sample(VARS, r.randrange(0, 4)):
            lines.append("    " + assign(r, v))
            have.append(v)
        if r.random() < .4:
            uses = r.sample(sorted(set(have)), min(len(set(have)), r.randrange(0, 3)))
            cps = [v for v in r.sample(VARS, r.randrange(0, 2)) if v not in uses]
            lines.append("    $fn = function (%s)%s {" % (", ".join(cps), " use (%s)" % ", ".join(uses) if uses else ""))
            inner = cps + uses
            for v in r.sample(VARS, r.randrange(0, 2)):
                lines.append("        " + assign(r, v))
                inner.append(v)
            spots.append((len(lines), inner))
            lines.append("        ;")
            lines.append("    };")
            have.append("$fn")
        spots.append((len(lines), have))
        lines.append("    ;")
        lines.append("}")
    for v in r.sample(VARS, r.randrange(0, 3)):
        lines.append(assign(r, v))
        top.append(v)
    spots.append((len(lines), top))
    lines.append(";")
    n, have = r.choice(spots)
    have = set(have)
    pre = "$"
    if have and r.random() < .7:
        v = r.choice(sorted(have))
        pre = v[:r.randrange(1, len(v) + 1)]
    lines[n] = lines[n].replace(";", "$q_ = " + pre + NEW + ";") if r.random() < .5 else lines[n].replace(";", pre + NEW + ";")
    t = r.choice(["\n", "\r\n"]).join(lines)
    at = t.index(NEW)
    t = t.replace(NEW, "")
    uri = s.uri("vars.php")
    s.open(uri, t)
    items, _ = complete(s, uri, t, at)
    c.evals += 1
    c.note("completions of variables")
    c.seen((t, at))
    got = {}
    for it in items:
        if it["label"] in got:
            c.violate("variable-twice", "%s is offered twice\n%s" % (it["label"], t[:at] + "|" + t[at:]))
        got[it["label"]] = it
    want = {v for v in have if v.startswith(pre)}
    if not want <= set(got):
        c.violate("variable-missing", "%s are not offered, only %s\n%s" % (sorted(want - set(got)), sorted(got), t[:at] + "|" + t[at:]))
    extra = {v for v in got if v not in have and v not in ("$q_", pre, "$this")}
    if extra:
        c.violate("variable-unknown", "%s are not variables of the scope\n%s" % (sorted(extra), t[:at] + "|" + t[at:]))
    for v in want & set(got):
        text, _, new = accept(t, at, got[v])
        if new != v:
            c.violate("variable-text", "accepting %s writes %r" % (v, new))
    s.close(uri)


def assign(r, v):
    return r.choice(["%s = 1;", "%s = [];", "foreach ([] as %s) {}", "list(%s) = [1];", "if (%s = 2) {}", "[%s] = [1];"]) % v


def run_case(box, c, p):
    r = core.rng_for("C14", p["seed"], p["i"])
    P = phpgen.Project(r, nfiles=r.choice([2, 3, 4]), usage=False, multi=r.choice([0, .3]))
    w = world.World(box, r, P, restart=.1)
    for _ in range(14):
        r.choice([names, names, names, members, members, variables])(w, c, box, r)
        if len(c.violations) > 3:
            break
    w.end(c)


def main():
    ck = core.Check("C14", rule="distinct (text, symbol) whose completion was accepted")
    b = core.build_server()
    ck.run_cases("completions", run_case, [dict(seed=ck.seed, i=i) for i in range(ck.n(400, 6000))], binary=b)
    ck.finish()
