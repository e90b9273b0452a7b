"""C01: the server works on exactly the text the editor shows.

Two modes. In `blocks` the text always consists of well-formed declarations with unique
names between noise, so the ranges of all declarations are known from the text alone.
In `free` the edits are arbitrary; the server with the history is compared with a second
server which only ever gets the final text in one didOpen."""
import os
import re

from vlib import core, hist, world
from vlib.corpus import u16

UNI = ["é", "ü", "日本", "😀", "👩‍👩‍👧", "\u2028", "\u2029", "\u0085", "\u00a0", "e\u0301", "𝔸", "\ufeff", "\u200b", "ß", "\u0b95", "\t"]
EOLS = ["\n", "\r\n", "\r"]


def noise(r):
    n = r.randrange(0, 6)
    return "".join(r.choice(UNI + ["a", " ", "word", "0", "//", "$x", "'"]) for _ in range(n))


class Gen:
    def __init__(self, r):
        self.r = r
        self.k = 0
        self.eol = r.choice(EOLS + [None, None])

    def nl(self):
        return self.eol if self.eol is not None else self.r.choice(EOLS)

    def name(self, kind):
        self.k += 1
        return "%s%d%s" % (kind, self.k, self.r.choice(["", "", "", "é", "日"]))

    def lines(self, *xs):
        return "".join(x + self.nl() for x in xs)

    def block(self):
        r = self.r
        k = r.randrange(9)
        q = noise(r).replace("'", "")
        pre = "/*%s*/ " % noise(r).replace("*/", "") if r.random() < .3 else ""
        if k == 0:
            return self.lines("// " + noise(r).replace("?>", ""))
        if k == 1:
            return self.lines("")
        if k == 2:
            return self.lines(pre + "function %s($a, $b = '%s') {" % (self.name("fn"), q), "    $local = $a . '%s'; return $local;" % q, "}")
        if k == 3:
            return self.lines(pre + "class %s {" % self.name("Cl"), "    public $%s = '%s';" % (self.name("pr"), q),
                              "    const %s = 1; /* %s */" % (self.name("CO"), noise(r).replace("*/", "")),
                              "    function %s($x) { return $x; }" % self.name("me"), "}")
        if k == 4:
            return self.lines("/**", " * %s doc" % noise(r).replace("*/", ""), " * @param int $p %s" % noise(r).replace("*/", ""), " */",
                              pre + "function %s($p) { }" % self.name("fn"))
        if k == 5:
            return self.lines(pre + "$v%d = '%s'; echo $v%d;" % (self.k, q, self.k))
        if k == 6:
            return pre + "function %s() {} " % self.name("fn") + ("" if r.random() < .5 else self.nl())
        if k == 7:
            return self.lines("/* %s" % noise(r).replace("*/", ""), noise(r).replace("*/", ""), "*/")
        return self.lines(pre + "interface %s { function %s(); }" % (self.name("In"), self.name("me")))


HEAD = re.compile(r"(?:function|class|interface|const) ((?:fn|Cl|In|CO|me)\d+\w*)|(\$pr\d+\w*)")


def decls(text):
    """name -> offset in the text of unique declarations"""
    return {m.group(1) or m.group(2): m.start(1) if m.group(1) else m.start(2) for m in HEAD.finditer(text)}


def flat(syms):
    for s in syms or []:
        yield s
        for x in flat(s.get("children")):
            yield x


def le(a, b):
    return (a["line"], a["character"]) <= (b["line"], b["character"])


def safe_cut(text, i):
    """Not between CR and LF."""
    return i - 1 if 0 < i < len(text) and text[i - 1] == "\r" and text[i] == "\n" else i


def as_changes(r, c, old, spots):
    """Incremental changes for edits [(start, end, replacement)] applied one after the other to `old`;
    returns (changes, text)."""
    out = []
    t = old
    for a, b, new in spots:
        a, b = safe_cut(t, min(a, len(t))), safe_cut(t, min(b, len(t)))
        if b < a:
            b = a
        s, e = world.pos_of(t, a), world.pos_of(t, b)
        removed = t[a:b]
        if r.random() < .12 and (b == len(t) or t[b] in "\r\n"):
            e = dict(e, character=e["character"] + r.choice([1, 7, 1000000]))
            c.note("range end past the end of the line")
        if b == len(t) and r.random() < .2:
            e = {"line": e["line"] + r.choice([1, 2, 500]), "character": r.choice([0, 3])}
            c.note("range end past the end of the text")
        ch = {"range": {"start": s, "end": e}, "text": new}
        if r.random() < .3:
            ch["rangeLength"] = sum(u16(x) for x in removed)
        out.append(ch)
        t = t[:a] + new + t[b:]
        c.note("changes in range")
        if a == 0 and b == len(old):
            c.note("changes of everything")
        if any(ord(x) > 0xffff for x in removed + new):
            c.note("changes over surrogate pairs")
        if any(x in removed + new for x in "\r"):
            c.note("changes over CR or CRLF")
        if r.random() < .04:
            out.append({"text": t})
            c.note("full changes in between")
    return out, t


def compare(c, r, box, A, B, uri, text, hlog, deep):
    """A has the history, B gets the text afresh."""
    B.open(uri, text)
    lines = world_lines(text)
    probes = [("textDocument/documentSymbol", {"textDocument": {"uri": uri}})]
    spots = [(i, u16(x[:m.start()]) + r.randrange(0, 2)) for i, x in enumerate(lines) for m in re.finditer(r"[$\w]+", x)]
    extra = [(r.randrange(len(lines) + 2), r.choice([0, 1, 5, 10**6])) for _ in range(2)]
    for l, ch in r.sample(spots, min(len(spots), deep)) + extra:
        m = r.choice(["definition", "hover", "references", "completion", "signatureHelp", "hover"])
        pr = {"textDocument": {"uri": uri}, "position": {"line": l, "character": ch}}
        if m == "references":
            pr["context"] = {"includeDeclaration": True}
        probes.append(("textDocument/" + m, pr))
    ga, gb = hist.ask(A, probes), hist.ask(B, probes)
    ok = hist.compare(c, "text", ga, gb, probes, "after %s\n (first: the edited document, second: the same text opened afresh)\n text: %r" % (hlog[-3:], text[:1500]))
    B.close(uri)
    return ok


def world_lines(text):
    return re.split(r"\r\n|\n|\r", text)


def truth(c, A, uri, text, hlog):
    want = decls(text)
    got = list(flat(A.srv.call("textDocument/documentSymbol", {"textDocument": {"uri": uri}})))
    names = [g["name"] for g in got]
    c.evals += 1
    c.note("declarations located", len(want))
    if sorted(names) != sorted(want):
        c.violate("symbols", "after %s the document has symbols %s instead of %s\n text %r" % (
            hlog[-3:], sorted(set(names) - set(want)), sorted(set(want) - set(names)), text[:1500]))
        return False
    for g in got:
        off = want[g["name"]]
        p = world.pos_of(text, off)
        rg = g["range"]
        good = le(rg["start"], p) and le(p, rg["end"]) and rg["start"]["line"] == p["line"]
        kw = {"fn": "function ", "Cl": "class ", "In": "interface "}.get(g["name"][:2])
        if kw:
            end = text.index("}", off) + 1
            if kw == "class ":
                end = text.index("}", end) + 1
            good = good and rg == {"start": world.pos_of(text, off - len(kw)), "end": world.pos_of(text, end)}
            c.note("exact ranges")
        if not good:
            c.violate("range", "after %s the range of %s is %s, its name is at %s\n text %r" % (
                hlog[-3:], g["name"], rg, p, text[:1500]))
            return False
    c.seen((text,))
    return True


def blocks_case(box, c, p):
    r = core.rng_for("C01b", p["seed"], p["i"])
    pf = core.ParseFilter(p["filter"])
    try:
        ws = box.fresh_ws()
        A, B = box.session(), box.session()
        A.start()
        B.start()
        g = Gen(r)
        head = r.choice(["", "", "é😀 text", "\ufeff"]) + "<?php" + g.nl()
        blocks = [head] + [g.block() for _ in range(r.randrange(0, 12))]
        uri = A.uri(r.choice(["a.php", "ü/日 b.php"]))
        text = "".join(blocks)
        A.open(uri, text)
        hlog = ["open"]
        for n in range(p["n"]):
            spots = []
            cur = text
            nb = list(blocks)
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                i = r.randrange(1, len(nb) + 1)
                j = min(len(nb), i + r.choice([0, 0, 1, 1, 2, 5]))
                new = [g.block() for _ in range(r.choice([0, 0, 1, 1, 2]))]
                if len(nb) - (j - i) + len(new) > 25:
                    new = []
                    j = len(nb)
                a = sum(map(len, nb[:i]))
                b = sum(map(len, nb[:j]))
                # within the replaced blocks, only what differs may be sent
                olds, news = "".join(nb[i:j]), "".join(new)
                k = 0
                if r.random() < .5:
                    while k < min(len(olds), len(news)) and olds[k] == news[k]:
                        k += 1
                    if k and (olds[k - 1] == "\r" or "\ud800" <= olds[k - 1] < "\ue000"):
                        k -= 1
                spots.append((a + k, b, news[k:]))
                nb[i:j] = new
            changes, text2 = as_changes(r, c, text, spots)
            if text2 != "".join(nb):        # blocks moved by cuts between CR and LF: start afresh from the text
                nb = None
            if nb is None or not pf.ok(text2):
                continue
            text, blocks = text2, nb
            k = r.random()
            if k < .08:
                A.change(uri, [{"text": text}])
                c.note("full changes")
            elif k < .13:
                A.close(uri)
                A.open(uri, text)
                c.note("closed and opened")
            elif k < .5:
                for ch in changes:
                    A.change(uri, [ch])
            else:
                A.change(uri, changes)
            hlog.append(changes)
            if r.random() < .7 and not truth(c, A, uri, text, hlog):
                break
            if r.random() < .25 and not compare(c, r, box, A, B, uri, text, hlog, 6):
                break
        c.sample = "last changes %r" % (hlog[-1],)
        for x in A.finish() + B.finish():
            c.violate("wire", x)
    finally:
        pf.close()


def free_case(box, c, p):
    r = core.rng_for("C01f", p["seed"], p["i"])
    pf = core.ParseFilter(p["filter"])
    try:
        ws = box.fresh_ws()
        A, B = box.session(), box.session()
        A.start()
        B.start()
        g = Gen(r)
        text = "<?php" + g.nl() + "".join(g.block() for _ in range(r.randrange(1, 8)))
        uri = A.uri("a.php")
        A.open(uri, text)
        hlog = ["open"]
        for n in range(p["n"]):
            spots = []
            t = text
            for _ in range(r.choice([1, 1, 2, 4])):
                k = r.random()
                L = len(t)
                a = r.randrange(L + 1)
                if k < .15:
                    a = r.choice([0, L])
                b = min(L, a + r.choice([0, 0, 1, 1, 2, 5, 20, 100]))
                if k > .96:
                    a, b = 0, L
                elif k > .9:
                    # whole lines
                    st = [0] + [m.end() for m in re.finditer(r"\r\n|\n|\r", t)]
                    a = r.choice(st)
                    b = r.choice([x for x in st if x >= a])
                m = r.random()
                new = ("" if m < .25 else noise(r) if m < .5 else g.block() if m < .75 else r.choice(EOLS) if m < .85
                       else r.choice(["{", "}", "/*", "*/", "'", "<?php ", "?>", "$", "\n\r", "\r\r\n", ";", "->", "é", "😀", "\x0b", "\x0c"]))
                if len(t) > 3000:
                    a, b, new = 100, len(t), ""
                a2, b2 = safe_cut(t, a), safe_cut(t, b)
                if b2 < a2:
                    b2 = a2
                if not pf.ok(t[:a2] + new + t[b2:]):
                    continue
                spots.append((a2, b2, new))
                t = t[:a2] + new + t[b2:]
            changes, text2 = as_changes(r, c, text, spots)
            if not changes or text2 != t:
                continue
            text = t
            if r.random() < .5:
                for ch in changes:
                    A.change(uri, [ch])
            else:
                A.change(uri, changes)
            hlog.append(changes)
            c.note("histories of notifications")
            if r.random() < .35:
                if not compare(c, r, box, A, B, uri, text, hlog, 8):
                    break
                c.seen((text,))
        c.sample = "last changes %r" % (hlog[-1],)
        for x in A.finish() + B.finish():
            c.violate("wire", x)
    finally:
        pf.close()


def main():
    ck = core.Check("C01", rule="distinct texts, reached by a history of changes, for which the server's answers were compared with the "
                    "model of the text (ranges of all declarations) or with a fresh open of the same text",
                    assumptions=["ranges do not start or end inside a surrogate pair or between CR and LF"])
    b = core.build_server()
    flt = core.build_overlay("parsefilter", "parsefilter")
    ck.run_cases("blocks", blocks_case, [dict(seed=ck.seed, i=i, filter=flt, n=150) for i in range(ck.n(72, 1500))], binary=b)
    ck.run_cases("free", free_case, [dict(seed=ck.seed, i=i, filter=flt, n=120) for i in range(ck.n(48, 1000))], binary=b)
    ck.finish()
