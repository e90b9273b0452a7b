"""C21: files and folders of any name are one and the same document however their URI is written."""
import os
import random
import urllib.parse

from vlib import core, lsp, phpgen, world

CH = list(" %#?&+=,;:@!$'()*[]{}|^~`\"<>\\-_.") + ["é", "ü", "日本", "😀", "e\u0301", "\u00a0", "%20", "%2F", "%", "..", "a+b", "C#", "100%", "(1)", "c++"]
ROOTS = ["ws", "my proj (1)", "c++", "50% #1?", "日本 é", "a&b=c;d", "it's [x]{y}", "e\u0301~!$@,:*"]


def enc(p, how, r):
    if how == "quote":
        s = urllib.parse.quote(p)
    elif how == "vscode":       # encodeURIComponent on everything but the slashes, and a few more
        s = urllib.parse.quote(p, safe="/-_.~")
    elif how == "js":           # encodeURI, plus what must not stay
        s = urllib.parse.quote(p, safe="/-_.!~*'();:@&=+$,")
    elif how == "lower":
        s = "".join("%%%02x" % b if (b >= 0x80 or not (chr(b).isalnum() or chr(b) in "/-_.~")) else chr(b) for b in p.encode())
    elif how == "all":
        s = "".join(chr(b) if chr(b) == "/" or (b < 0x80 and chr(b).isalnum() and r.random() < .7) else "%%%02X" % b for b in p.encode())
    else:
        s = urllib.parse.quote(p, safe="/:@$&+,;=")      # what Go writes
    return "file://" + s


HOW = ["quote", "vscode", "js", "lower", "all", "go"]


def dec(uri):
    if not uri.startswith("file:///"):
        return uri
    for ch in uri[7:]:
        if ord(ch) > 126 or ch in " #?":
            return "not a URI: " + uri
    return urllib.parse.unquote(uri[7:])


class Enc:
    """Chooses an encoding for every message, or one for the whole session."""

    def __init__(self, r, c):
        self.r, self.c = r, c
        self.one = r.choice(HOW + [None])

    def __call__(self, path):
        h = self.one or self.r.choice(HOW)
        self.c.note("URIs written as " + h)
        return enc(path, h, self.r)


def name(r, k):
    if r.random() < .08:
        return r.choice([".php", ".hidden.php", "dir.php/x.php", "%25.php", "a.php.php", "-.php", "~.php", "x" * 240 + ".php", "%2e%2e.php"])
    n = "".join(r.choice(CH + ["a", "b", "Z", "9"]) for _ in range(r.randrange(1, 7)))
    d = "".join(r.choice(CH + ["d", "e"]) for _ in range(r.randrange(1, 4))) if r.random() < .4 else ""
    d = d.replace("/", "") + "/" if d and d.strip(".") else ""
    return d + n + r.choice(["", "%d" % k]) + ".php"


def text(i, n, v):
    return ("<?php\n// version %d é\nclass Cu_%dx { function mu_%dx() {} }\nfunction fu_%dx() {}\nnew \\Cu_%dx();\nnew \\Cu_%dx();\n\\fu_%dx();\n%s" % (
        v, i, i, i, (i + 1) % n, i, (i + 1) % n, "new \\Cu_%dx();\n" % ((i + 2) % n) * (v % 3)))


def case(box, c, p):
    r = core.rng_for("C21", p["seed"], p["i"])
    root = os.path.join(box.root, ROOTS[p["i"] // 8 % len(ROOTS)])
    import shutil
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    home = box.home_from_template([root])
    E = Enc(r, c)
    names = []
    while len(names) < 6:
        n = name(r, len(names))
        if n not in names and not any(x.startswith(n + "/") or n.startswith(x + "/") for x in names):
            names.append(n)
    N = len(names)
    P = [os.path.join(root, n) for n in names]
    how = [r.choice(["disk", "watch", "open", "both"]) for _ in names]
    ver = [r.randrange(3) for _ in names]
    s = box.session(roots=[root], home=home)
    roots_enc = E(root) + r.choice(["", "", "/"])
    if r.random() < .3:
        roots_enc = core.path_uri(root)

    def put(i, v):
        os.makedirs(os.path.dirname(P[i]), exist_ok=True)
        with open(P[i], "w") as f:
            f.write(text(i, N, v))
    for i in range(N):
        if how[i] in ("disk", "both"):
            put(i, ver[i])
    srv = s.spawn()

    def boot():
        srv = s.srv
        srv.call("initialize", {"processId": None, "rootUri": roots_enc, "capabilities": {}, "workspaceFolders": [{"uri": roots_enc, "name": "w"}]})
        srv.notify("initialized", {})
        s.wait_indexed(1)
    boot()
    opened = {}
    for i in range(N):
        if how[i] == "watch":
            put(i, ver[i])
            s.watch((E(P[i]), 1))
        elif how[i] in ("open", "both"):
            s.open(E(P[i]), text(i, N, 2 - ver[i]))
            s.change(E(P[i]), world.edit_path(r, text(i, N, 2 - ver[i]), text(i, N, ver[i])))
            opened[i] = True
    s.settle()
    alive = set(range(N))

    def check(when):
        for i in range(N):
            c.evals += 1
            want = 1 if i in alive else 0
            for q in ("Cu_%dx" % i, "mu_%dx" % i, "fu_%dx" % i):
                got = [x for x in s.symbols(q) if x["name"].strip("\\") == q]
                if len(got) != want or any(dec(x["location"]["uri"]) != P[i] for x in got):
                    c.violate("identity", "%s: %s of %r (by %s) is found %s times: %s" % (when, q, P[i], how[i], len(got), [x["location"]["uri"] for x in got]))
                    return False
            if i not in alive:
                continue
            # the same document under each way to write its URI
            a = srv_call("textDocument/documentSymbol", P[i])
            if [x["name"] for x in a] != ["Cu_%dx" % i, "fu_%dx" % i]:
                c.violate("symbols", "%s: %r (by %s) has symbols %s" % (when, P[i], how[i], [x["name"] for x in a]))
                return False
            j = (i + 1) % N
            d = s.pos("textDocument/definition", E(P[i]), 4, 7) or []
            wantd = [P[j]] if j in alive else []
            if [dec(x["uri"]) for x in d] != wantd:
                c.violate("definition", "%s: from %r (by %s) to %r (by %s) leads to %s" % (when, P[i], how[i], P[j], how[j], [x["uri"] for x in d]))
                return False
            for x in d:     # what the server answers is a URI it understands
                b = s.srv.call("textDocument/documentSymbol", {"textDocument": {"uri": x["uri"]}})
                if [y["name"] for y in b] != ["Cu_%dx" % j, "fu_%dx" % j]:
                    c.violate("returned-uri", "%s: %r was answered, but its document has %s" % (when, x["uri"], [y["name"] for y in b]))
                    return False
            refs = s.pos("textDocument/references", E(P[i]), 2, 8, context={"includeDeclaration": True}) or []
            wantr = []
            for k in alive:
                t = text(k, N, ver[k]).split("\n")
                wantr += [(P[k], l) for l, x in enumerate(t) if "Cu_%dx" % i in x]
            gotr = sorted((dec(x["uri"]), x["range"]["start"]["line"]) for x in refs)
            if gotr != sorted(wantr):
                c.violate("references", "%s: references of Cu_%dx in %r: %s instead of %s" % (when, i, P[i], gotr, sorted(wantr)))
                return False
            c.seen((os.path.basename(root), names[i], how[i], E.one, ver[i]))
        for u in s.srv.diags:
            if dec(u) not in P:
                c.violate("diagnostics", "%s: diagnostics for %r" % (when, u))
                return False
        return True

    def srv_call(m, path):
        return s.srv.call(m, {"textDocument": {"uri": E(path)}}) or []

    ok = check("first")
    for step in range(p["n"]):
        if not ok:
            break
        k = r.choice(["edit", "edit", "write", "delete", "close", "open", "restart", "create"])
        i = r.randrange(N)
        if k == "edit" and i in opened and i in alive:
            v = r.randrange(3)
            s.change(E(P[i]), world.edit_path(r, text(i, N, ver[i]), text(i, N, v), r.random() < .5))
            ver[i] = v
        elif k == "write" and i in alive and i not in opened and os.path.exists(P[i]):
            ver[i] = r.randrange(3)
            put(i, ver[i])
            s.watch((E(P[i]), 2))
        elif k == "delete" and i in alive and i not in opened:
            os.unlink(P[i])
            s.watch((E(P[i]), 3))
            alive.discard(i)
        elif k == "create" and i not in alive:
            put(i, ver[i])
            s.watch((E(P[i]), 1))
            alive.add(i)
        elif k == "close" and i in opened:
            put(i, ver[i])
            s.watch((E(P[i]), r.choice([1, 2])))
            s.close(E(P[i]))
            del opened[i]
        elif k == "open" and i in alive and i not in opened:
            s.open(E(P[i]), text(i, N, ver[i]))
            opened[i] = True
        elif k == "restart" and r.random() < .4:
            for j in list(opened):
                put(j, ver[j])
            opened.clear()
            for x in s.finish(drop=False):
                c.violate("wire", x)
            s.spawn()
            boot()
        else:
            continue
        c.note("step " + k)
        s.settle()
        ok = check("after " + k)
    c.sample = "folder %r, files %s, URIs as %s" % (os.path.basename(root), names, E.one or "any")
    for x in s.finish():
        c.violate("wire", x)
    shutil.rmtree(root, ignore_errors=True)


def main():
    ck = core.Check("C21", rule="distinct (folder name, file name, how it reached the server, encoding of its URIs, content) whose definitions, references, "
                    "symbols and diagnostics were checked to be one document")
    b = core.build_server()
    ck.run_cases("names", case, [dict(seed=ck.seed, i=i, n=14) for i in range(ck.n(72, 4000))], binary=b)
    ck.finish()
