"""C09: what is said about a declaration is what its text says, from the open document and from the index."""
import re

from vlib import core
from vlib.world import edit_path, pos_of

WORDS = ["alpha", "Größe", "delta", "naïve", "Zähler", "omega", "returns", "the", "値", "of", "a", "class", "function", "if", "none", "e.g.", "x,", "(y)", "don't",
         "50%", "кот", "and/or", "🙂", "$this", "foreach", "it:", "use", "self", "a@b.c"]
SCALARS = ["int", "string", "bool", "float", "array", "callable"]
VALUES = ["1", "-1", "0x1F", "1.5e3", "'a'", "'it\\'s'", '"b\\n"', "null", "true", "[]", "[1, 2]", "array('k' => [1], 2 => 'x')", "PHP_INT_MAX", "1 + 2 * 3",
          "'é😀'", "'a,b'", "'(' . ')'", "!true", "1 <=> 2", "true ? 1 : 2", "\\PHP_EOL", "['a' => 1,]", "\\E_ALL & ~\\E_NOTICE", "\"=\""]


class F:
    """The facts of one declaration."""

    def __init__(self, kind, name, **kw):
        self.kind, self.name, self.owner, self.doc = kind, name, None, []
        self.vis, self.static, self.params, self.returns, self.types, self.value = "public", False, [], set(), set(), None
        self.__dict__.update(kw)


def by_design(m):
    """Members of traits which the server does not resolve."""
    # and methods of interfaces cannot be called by the interface's name
    return m.owner.kind == "trait" and (m.kind == "prop" or m.static) or m.owner.kind == "interface" and m.static


class Out:
    def __init__(self, nl):
        self.parts, self.n, self.nl, self.refs = [], 0, nl, []

    def add(self, s):
        s = s.replace("\n", self.nl)
        self.parts.append(s)
        self.n += len(s)

    def ref(self, s, fact, how):
        self.refs.append((self.n, s, fact, how))
        self.add(s)

    def text(self):
        return "".join(self.parts)


class Proj:
    def __init__(self, r, nfiles):
        self.r, self.n = r, 0
        self.simple = False
        spaces = r.sample(["", "A", "A\\B", "Ünï\\X", "Zed"], r.randrange(1, 4))
        self.files = {}
        for i in range(nfiles):
            ns = r.choice(spaces)
            decls = []
            for _ in range(r.randrange(2, 7)):
                k = r.choice(["class", "class", "class", "interface", "trait", "function", "function", "const", "define"])
                decls.append(self.shape(k, ns))
            self.files["%s%d.php" % (r.choice(["d", "sub/d", "dé"]), i)] = (ns, decls)
        self.cls = [d for _, ds in self.files.values() for d in ds if d.kind in ("class", "interface")]
        self.traits = [d for _, ds in self.files.values() for d in ds if d.kind == "trait"]

    def uid(self, p):
        self.n += 1
        return p + "%d" % self.n + self.r.choice(["", "", "x", "é", "_b"])

    def shape(self, k, ns):
        """The names, which stay; the facts are chosen again for each text."""
        r = self.r
        d = F(k, self.uid({"class": "Cls", "interface": "Intf", "trait": "Trt", "function": "func", "const": "CON", "define": "DEF"}[k]))
        d.fqn = "\\" + (ns + "\\" if ns else "") + d.name
        if k == "define":
            d.fqn = "\\" + r.choice([d.name, "N\\M\\" + d.name])
        d.members = []
        if k in ("class", "interface", "trait"):
            kinds = {"class": ["method"] * 3 + ["prop"] * 2 + ["cconst", "ptag", "mtag"], "interface": ["method", "cconst"], "trait": ["method", "prop"]}[k]
            for _ in range(r.randrange(0, 6)):
                m = F(r.choice(kinds), self.uid({"method": "meth", "prop": "prop", "cconst": "KON", "ptag": "magic", "mtag": "call"}["method"] if False else "m"))
                m.owner = d
                d.members.append(m)
            if k == "class" and r.random() < .3:
                m = F("method", "__construct")
                m.owner = d
                d.members.append(m)
        return d

    # ---- facts
    def words(self, p=.7):
        r = self.r
        if r.random() > p:
            return []
        self.n += 1
        lines = [["w%du" % self.n] + [r.choice(WORDS) for _ in range(r.randrange(0, 6))]]
        while r.random() < .3:
            lines.append([r.choice(WORDS) for _ in range(r.randrange(1, 5))] if r.random() < .8 else [])
        if not lines[-1]:
            lines.pop()
        return lines

    def ty(self, env, native, many=True):
        """(as written, the set which it means)"""
        r = self.r
        if native:
            t = self.one(env, native)
            return (r.choice(["", "", "?"]) + t[0], {t[1]})
        ts = [self.one(env, native) for _ in range(r.choice([1, 1, 2, 3]) if many else 1)]
        return "|".join(t[0] for t in ts), {t[1] for t in ts}

    def one(self, env, native):
        r = self.r
        if r.random() < .5 or not self.cls:
            t = r.choice(SCALARS if native else SCALARS + ["mixed", "null", "int[]", "string[]"])
            return t, t
        d = r.choice(self.cls)
        w = env.spell(d)
        if not native and r.random() < .3:
            return w + "[]", d.fqn + "[]"
        if env.cls and r.random() < .15:
            return "self", env.cls.fqn
        return w, d.fqn

    def value(self, nl):
        return self.r.choice(["1", "null", "true", "[]"] if self.simple else VALUES)

    def params(self, env, tags):
        r = self.r
        out, texts = [], []
        for i in range(r.choice([0, 1, 1, 2, 3, 5])):
            name = "$" + r.choice(["a", "b", "ünï", "value", "x"]) + str(i)
            if out and r.random() < .25:    # names which differ little from another one
                name = out[-1][1] + r.choice(["s", "_b", "é"]) if r.random() < .5 else out[-1][1][:-1] if out[-1][1][:-1] not in ["$"] + [x[1] for x in out] else name
            types, t = set(), ""
            if r.random() < .5:
                w, types = self.ty(env, True)
                t = w + " "
            doc = []
            if r.random() < .4:
                w, more = self.ty(env, False)
                types = types | more
                doc = self.words(.6)[:1]
                tags.append("@param %s %s%s" % (w, name, "".join(" " + " ".join(l) for l in doc)))
            val = None
            t += r.choice(["", "", "", "&"]) + name
            if r.random() < .35:
                val = self.value(env.nl)
                t += r.choice([" = ", "=", "  =  "]) + val
            out.append((types, name, val, doc))
            texts.append(t)
        return out, (", " if self.simple else r.choice([", ", ",", " , ", ",\n            "])).join(texts)

    def doc(self, o, ind, lines, tags):
        """Writes a doc comment; the tags may be in any order."""
        r = self.r
        if not lines and not tags:
            return r.random() < .5 and o.add(ind + r.choice(["// not a doc\n", "/* neither */\n", "# no\n"]))
        if r.random() < .25:
            tags.append(r.choice(["@author Some One <a@b.c>", "@see somewhere", "@throws \\Exception sometimes", "@internal", "@since 1.0"]))
        r.shuffle(tags)
        if len(lines) + len(tags) == 1 and r.random() < .6:
            return o.add("%s/** %s */\n" % (ind, (" ".join(lines[0]) if lines else tags[0])))
        body = [" ".join(l) for l in lines]
        if tags and body and r.random() < .7:
            body.append("")
        body += tags
        bare = r.choice([" * "] * 5 + [" *  ", "   * "])
        first = r.random() < .1 and lines
        o.add(ind + "/**" + (" " + body.pop(0) if first else "") + "\n")
        for b in body:
            o.add(ind + (bare + b).rstrip() + "\n")
        o.add(ind + " */\n")

    # ---- texts
    def render(self, rel):
        r = self.r
        ns, decls = self.files[rel]
        nl = r.choice(["\n", "\n", "\r\n"])
        o = Out(nl)
        env = Env(self, ns, nl)
        o.add("<?php\n")
        if ns:
            o.add("namespace %s;\n" % ns)
        for d in self.cls:
            if r.random() < .2 and (ns or "\\" in d.fqn[1:]):
                al = r.choice(["", " as Al%d" % self.uidn()])
                env.imports[d.fqn] = al[4:] or d.name
                o.add("use %s%s;\n" % (d.fqn[1:], al))
        if r.random() < .3:
            o.add("/** the file */\n\n")
        order = decls[:]
        r.shuffle(order)
        for d in order:
            self.decl(o, env, d)
            o.add(r.choice(["", "\n"]))
        return o

    def uidn(self):
        self.n += 1
        return self.n

    def decl(self, o, env, d):
        r = self.r
        env.cls = None
        k = d.kind
        if k in ("const", "define"):
            d.doc, d.value = self.words(), self.value(o.nl)
            self.doc(o, "", d.doc, [])
            if k == "const":
                o.add("const %s%s%s;\n" % (d.name, r.choice([" = ", "=", " =  "]), d.value))
            else:
                q = r.choice("'\"")
                o.add("define(%s%s%s, %s);\n" % (q, d.fqn[1:].replace("\\", r.choice(["\\\\", "\\\\"])), q, d.value))
            return
        if k == "function":
            return self.func(o, env, d, "", "function %s" % d.name)
        # classes
        tags = []
        d.doc = self.words()
        env.cls = d
        for m in d.members:
            if m.kind == "ptag":
                w, m.types = self.ty(env, False)
                m.doc = self.words(.5)[:1]
                tags.append("%s %s $%s%s" % (r.choice(["@property", "@property-read", "@property-write"]), w, m.name, "".join(" " + " ".join(l) for l in m.doc)))
            elif m.kind == "mtag":
                w, m.returns = self.ty(env, False, False)
                m.static = r.random() < .2
                t = []
                self.simple = True      # (a tag takes only values of one word)
                m.params, ps = self.params(env, t)
                self.simple = False
                if t or "\n" in ps or "&" in ps or "?" in ps:
                    m.params, ps = [(set(), "$q", None, [])], "$q"
                m.doc = self.words(.5)[:1]
                tags.append("@method %s%s %s(%s)%s" % ("static " if m.static else "", w, m.name, ps, "".join(" " + " ".join(l) for l in m.doc)))
        self.doc(o, "", d.doc, tags)
        head = {"class": r.choice(["", "", "abstract ", "final "]) + "class ", "interface": "interface ", "trait": "trait "}[k]
        d.abstract = "abstract" in head
        head += d.name
        d.extends, d.impl = [], []
        if k == "class":
            i = [x for x in self.cls if x.kind == "interface"]
            if r.random() < .2:
                d.extends = ["\\Exception"]
                head += " extends \\Exception"
            if i and r.random() < .3:
                d.impl = [x for x in r.sample(i, r.randrange(1, min(3, len(i) + 1)))]
                head += " implements " + ", ".join(env.spell(x) for x in d.impl)
        one = r.random() < .12
        o.add(head + r.choice([" ", "\n"]) * (not one) + " {" + ("" if one else "\n"))
        ind = "" if one else r.choice(["    ", "\t", "  "])
        end = " " if one else "\n"
        d.uses = []
        if k == "class" and self.traits and r.random() < .3:
            t = r.choice(self.traits)
            d.uses = [t]
            o.add(ind + "use ")
            o.ref(t.fqn, t, "trait")
            o.add(";" + end)
        ms = [m for m in d.members if m.kind in ("method", "prop", "cconst")]
        r.shuffle(ms)
        for m in ms:
            self.member(o, env, d, m, ind, one)
            o.add(end)
        if k != "interface" and ms:
            o.add(ind + "public function probe%d() {" % self.uidn() + end)
            for m in r.sample(ms, min(3, len(ms))):
                if m.name == "__construct" or by_design(m):
                    continue
                o.add(ind * 2)
                if m.kind == "cconst":
                    o.add(r.choice(["self", "static"]) + "::")
                    o.ref(m.name, m, "member")
                elif m.kind == "prop":
                    o.add(r.choice(["self::", "static::"]) if m.static else "$this->")
                    o.ref(("$" if m.static else "") + m.name, m, "member")
                else:
                    o.add(r.choice(["self::", "static::"]) if m.static else "$this->")
                    o.ref(m.name, m, "member")
                    o.add("()")
                o.add(";" + end)
            o.add(ind + "}" + end)
        o.add("}\n")
        env.cls = None

    def member(self, o, env, d, m, ind, one):
        r = self.r
        vis = r.choice(["public", "public", "protected", "private"]) if d.kind != "interface" else "public"
        m.vis = vis
        if m.kind == "cconst":
            m.value = self.value(o.nl)
            m.doc = [] if one else self.words()
            if not one:
                self.doc(o, ind, m.doc, [])
            w = vis + " " if vis != "public" or r.random() < .5 else ""
            o.add("%s%sconst %s%s%s;" % (ind, w, m.name, r.choice([" = ", "=", " =  "]), m.value))
        elif m.kind == "prop":
            m.static = r.random() < .3
            m.types = set()
            m.doc, tags = [] if one else self.words(), []
            if not one:
                if r.random() < .6:
                    w, m.types = self.ty(env, False)
                    t = "@var " + w
                    if r.random() < .4 and not m.doc:
                        m.doc = self.words(1)[:1]
                        tags.append(t + " " + " ".join(m.doc[0]))
                        self.doc(o, ind, [], tags)
                    else:
                        tags.append(t)
                        self.doc(o, ind, m.doc, tags)
                else:
                    self.doc(o, ind, m.doc, [])
            native = ""
            if r.random() < .3:
                w, t = self.ty(env, True)
                # (several parts: unknown to the parser)
                if "callable" not in w and "\\" not in w:
                    native, m.types = w + " ", m.types | t
            mods = [vis, "static"] if m.static else [vis]
            if vis == "public" and r.random() < .3:
                mods[0] = "var" if not m.static else "static"
                mods = mods[:1]
            elif r.random() < .3:
                mods.reverse()
            o.add("%s%s %s$%s%s;" % (ind, " ".join(mods), native, m.name, r.choice(["", " = null", " = [1]", "='x'"])))
        else:
            m.static = r.random() < .3 and m.name != "__construct"
            mods = [vis] if vis != "public" or r.random() < .7 else []
            if m.name == "__construct":
                m.vis, mods = "public", ["public"]
            if m.static:
                mods.append("static")
            body = True
            if d.kind == "interface":
                body = False
            elif d.kind == "class" and d.abstract and m.vis != "private" and r.random() < .3 and m.name != "__construct":
                mods.append("abstract")
                body = False
            elif r.random() < .1 and m.vis != "private":
                mods.append("final")
            r.shuffle(mods)
            self.func(o, env, m, ind, " ".join(mods + ["function"]) + " " + r.choice(["", "", "&"]) + m.name, body, one)

    def func(self, o, env, f, ind, head, body=True, one=False):
        r = self.r
        tags = []
        f.doc = [] if one else self.words()
        f.params, ps = self.params(env, tags if not one else Drop())
        f.returns = set()
        if not one and r.random() < .5 and f.name != "__construct":
            w, f.returns = self.ty(env, False)
            tags.append("@return " + w + r.choice(["", " " + " ".join(r.choice(WORDS) for _ in range(2))]))
        if one:
            # there is no comment: only what is declared
            f.params, ps = [], ""
        else:
            self.doc(o, ind, f.doc, tags)
        o.add("%s%s(%s)%s" % (ind, head, ps, r.choice(["", "", ": int", " : ?string"]) if f.name != "__construct" else ""))
        if not body:
            return o.add(";")
        o.add(" {" if one else r.choice([" {", "\n%s{" % ind]) + "\n")
        if f.params and not one:
            p = r.choice(f.params)
            o.add(ind + "  echo ")
            o.ref(p[1], (f, p), "param")
            o.add(";\n")
        o.add(("}" if one else ind + "}") + ("\n" if not ind and not one else ""))


class Drop(list):
    def append(self, x):
        pass


class Env:
    def __init__(self, P, ns, nl):
        self.P, self.ns, self.nl, self.imports, self.cls = P, ns, nl, {}, None

    def spell(self, d):
        o = [d.fqn]
        if d.fqn in self.imports:
            o += [self.imports[d.fqn]] * 2
        elif d.fqn == "\\" + (self.ns + "\\" if self.ns else "") + d.name:
            o += [d.name] * 2
        elif self.ns and d.fqn.startswith("\\" + self.ns + "\\"):
            o += [d.fqn[len(self.ns) + 2:]]
        return self.P.r.choice(o)


# ---- the uses from elsewhere
def uses(P, r):
    o = Out("\n")
    o.add("<?php\n")
    for ns, ds in P.files.values():
        for d in ds:
            if d.kind == "function":
                o.ref(d.fqn, d, "function")
                o.add("();\n")
            elif d.kind in ("const", "define"):
                o.add("echo ")
                o.ref(d.fqn, d, "constant")
                o.add(";\n")
            elif d.kind == "trait":
                o.add("class U%d { use " % P.uidn())
                o.ref(d.fqn, d, "trait")
                o.add("; }\n")
            else:
                v = "$v%d" % P.uidn()
                o.add("function u%d(" % P.uidn())
                o.ref(d.fqn, d, "type")
                o.add(" %s) {\n" % v)
                if d.kind == "interface":
                    o.add("new class implements ")
                    o.ref(d.fqn, d, "type")
                    o.add(" {};\n")
                else:
                    o.add("%s instanceof " % v)
                    o.ref(d.fqn, d, "type")
                    o.add(";\n")
                    if not d.abstract:
                        con = [m for m in d.members if m.name == "__construct"]
                        # (inherited constructors are the subject of C11)
                        if con or not d.extends and not d.uses:
                            o.add("new ")
                            o.ref(d.fqn, con[0] if con else d, "new")
                            o.add("();\n")
                pool = d.members + [m for t in getattr(d, "uses", []) for m in t.members]
                for m in pool:
                    if m.vis != "public" or m.name == "__construct" or by_design(m):
                        continue
                    if m.kind == "cconst" or m.static:
                        o.add(d.fqn + "::")
                    else:
                        o.add(v + "->")
                    o.ref(("$" if m.kind == "prop" and m.static else "") + m.name, m, "member")
                    o.add("();\n" if m.kind in ("method", "mtag") else ";\n")
                o.add("}\n")
    return o


BLOCK = re.compile(r"```(?:php\n<\?php)?\n(.*?)\n```\n", re.S)


def norm(s):
    return re.sub(r"\s+", " ", s.replace("\r\n", "\n")).strip()


def expect(f):
    """The code which is shown for a declaration (types as sets)"""
    if f.kind == "class":
        return "class " + f.name + (" extends " + f.extends[0] if f.extends else ""), [x.name for x in f.impl]
    return None


def plist(ps, strict=True):
    return [(frozenset(t), n, v) for t, n, v, _ in ps]


def split_params(s, vals):
    """Splits the shown parameters by the names and values which are expected."""
    out, rest = [], s
    for i, (t, n, v) in enumerate(vals):
        want = n + (" = " + v if v is not None else "")
        j = rest.find(want)
        if j < 0:
            return None
        ty = rest[:j].strip()
        rest = rest[j + len(want):]
        if i + 1 < len(vals):
            if not rest.startswith(", "):
                return None
            rest = rest[2:]
        out.append((frozenset(ty.split("|")) if ty else frozenset(), n, v))
    return out if rest == "" else None


def desc_words(s):
    return re.sub(r"\\(.)", r"\1", s).split()


def judge(f, how, v):
    """None, or what is wrong with the hover `v` on a use of `f`"""
    if how == "param":
        fn, (types, name, val, doc) = f
        m = re.match(r"```\n(?:(\S+) )?(\$\S+)\n```\n(.*)\Z", v, re.S)
        if not m or m.group(2) != name:
            return "not the parameter %s" % name
        if frozenset((m.group(1) or "").split("|")) - {""} != frozenset(types):
            return "types %s instead of %s" % (m.group(1), sorted(types))
        got, want = desc_words(m.group(3).replace("____", "")), [w for l in doc for w in l]
        return None if got in ([], want) else "description %s instead of %s" % (got, want)
    blocks = BLOCK.findall(v)
    if len(blocks) != 1:
        return "%d declarations instead of one" % len(blocks)
    code = blocks[0]
    rest = BLOCK.sub("", v)
    scope = re.findall(r"`(class|interface|trait) (\\\S*)`", rest)
    rest = re.sub(r"`(class|interface|trait) (\\\S*)`", "", rest).replace("____", "")
    if f.owner:
        if scope != [(f.owner.kind, f.owner.fqn)]:
            return "belongs to %s instead of %s" % (scope, (f.owner.kind, f.owner.fqn))
    elif scope:
        return "belongs to %s" % scope
    got = desc_words(rest)
    want = [w for l in f.doc for w in l]
    if f.kind in ("const", "define"):
        pre = desc_words("%s = %s; " % (f.fqn, f.value))
        if " ".join(want) not in " ".join(got) or (not want and "u" in "".join(re.findall(r"w\d+u", rest))):
            return "description %s instead of %s" % (got, want)
    elif got != want and (f.kind != "trait" or got):
        # (those of traits are not read yet)
        return "description %s instead of %s" % (got, want)
    if f.kind == "class":
        m = re.fullmatch(r"class (\S+?)(?: extends (\S+))?(?: implements (.*))?", code)
        if not m or m.group(1) != f.name:
            return "not class " + f.name
        if m.group(2) != (f.extends[0] if f.extends else None):
            return "extends %s instead of %s" % (m.group(2), f.extends)
        im = [x.split("\\")[-1] for x in m.group(3).split(", ")] if m.group(3) else []
        if len(im) != len(f.impl):
            return "implements %s instead of %s" % (im, [x.name for x in f.impl])
        return None
    if f.kind == "interface":
        return None if code == "interface " + f.name else "not interface " + f.name
    if f.kind == "trait":
        return None if code == "trait " + f.name else "not trait " + f.name
    if f.kind == "const":
        return None if code == "const %s = %s" % (f.name, f.value) else "not %s = %s" % (f.name, f.value)
    if f.kind == "cconst":
        return None if code == "const %s = %s" % (f.name, f.value) else "not %s = %s" % (f.name, f.value)
    if f.kind == "define":
        return None if code == "define('%s', %s)" % (f.fqn, f.value) else "not define %s, %s" % (f.fqn, f.value)
    if f.kind in ("prop", "ptag"):
        m = re.fullmatch(r"(public|private|protected)( static)? (\$\S+?)(?:: (\S+))?", code)
        if not m or m.group(3) != "$" + f.name:
            return "not the property " + f.name
        if m.group(1) != f.vis or bool(m.group(2)) != f.static:
            return "modifiers %s%s instead of %s %s" % (m.group(1), m.group(2) or "", f.vis, "static" if f.static else "")
        if frozenset((m.group(4) or "").split("|")) - {""} != frozenset(f.types):
            return "types %s instead of %s" % (m.group(4), sorted(f.types))
        return None
    m = re.fullmatch(r"(?:(public|private|protected)( static)? )?function (\S+?)\((.*)\)(?:: (\S+))?", code, re.S)
    if not m or m.group(3) != f.name:
        return "not the function " + f.name
    if f.kind != "function" and (m.group(1) != f.vis or bool(m.group(2)) != f.static):
        return "modifiers %s%s instead of %s %s" % (m.group(1), m.group(2) or "", f.vis, "static" if f.static else "")
    want = plist(f.params)
    if split_params(m.group(4), want) != want:
        return "parameters (%s) instead of %s" % (m.group(4), want)
    if frozenset((m.group(5) or "").split("|")) - {""} != frozenset(f.returns):
        return "returns %s instead of %s" % (m.group(5), sorted(f.returns))
    return None


def named(f):
    if f.kind == "function":
        return f.name, f.fqn
    return (" ".join([f.vis] + ["static"] * f.static + [f.name]),)


def judge_signature(f, h):
    """None, or what is wrong with the signature help `h` between the brackets of a call of `f`"""
    sigs = (h or {}).get("signatures") or []
    if len(sigs) != 1:
        return "%d signatures instead of one" % len(sigs)
    g = sigs[0]
    m = re.fullmatch(r"(.*?)\((.*)\)", g["label"], re.S)
    if not m or m.group(1) not in named(f):
        return "not a signature of %s" % named(f)
    want = plist(f.params)
    if split_params(m.group(2), want) != want:
        return "parameters (%s) instead of %s" % (m.group(2), want)
    labels = [x["label"] for x in g.get("parameters") or []]
    if ", ".join(labels) != m.group(2) or len(labels) != len(want):
        return "the labels of the parameters %s are not those of the signature" % labels
    for x, (_, n, _, words) in zip(g.get("parameters") or [], f.params):
        d = x.get("documentation") or ""
        got, words = desc_words(d if isinstance(d, str) else d.get("value", "")), [w for l in words for w in l]
        if got not in ([], words):
            return "description %s of %s instead of %s" % (got, n, words)
    doc = g.get("documentation") or ""
    got, words = desc_words(doc if isinstance(doc, str) else doc.get("value", "")), [w for l in f.doc for w in l]
    return None if got == words else "description %s instead of %s" % (got, words)


def judge_item(f, res):
    """None, or what is wrong with the completion of the whole name of the member `f`"""
    items = [x for x in (res or {}).get("items") or [] if x["label"].lstrip("$") == f.name]
    if len(items) != 1:
        return "%d items instead of one" % len(items)
    x = items[0]
    if f.kind in ("method", "mtag"):
        want = plist(f.params)
        m = re.fullmatch(r"(.*?)\((.*)\)", x.get("detail") or "", re.S)
        if not m or m.group(1) not in named(f) or split_params(m.group(2), want) != want:
            return "detail %r instead of %s" % (x.get("detail"), want)
    elif f.kind in ("prop", "ptag"):
        if frozenset((x.get("detail") or "").split("|")) - {""} != frozenset(f.types):
            return "detail %r instead of %s" % (x.get("detail"), sorted(f.types))
    elif f.kind == "cconst" and x.get("detail") not in (None, "", f.value):
        return "detail %r instead of %s" % (x.get("detail"), f.value)
    doc = x.get("documentation") or ""
    doc = doc if isinstance(doc, str) else doc.get("value", "")
    scope = re.findall(r"`(?:class|interface|trait) (\\\S*)`", doc)
    if scope and scope != [f.owner.fqn]:
        return "belongs to %s instead of %s" % (scope, f.owner.fqn)
    got, words = desc_words(re.sub(r"`(class|interface|trait) (\\\S*)`", "", doc)), [w for l in f.doc for w in l]
    return None if got == words else "description %s instead of %s" % (got, words)


def case(box, c, p):
    r = core.rng_for("C09", p["seed"], p["i"])
    P = Proj(r, r.choice([1, 2, 3]))
    box.fresh_ws()
    s = box.session()
    cur, opened = {}, {}
    for rel in P.files:
        cur[rel] = P.render(rel)
        if r.random() < .6:
            s.write(rel, cur[rel].text())
        else:
            opened[rel] = cur[rel].text()
            if r.random() < .5:
                s.write(rel, "<?php\nclass Old {}\n")
    s.start()
    for rel, t in opened.items():
        s.open(s.uri(rel), t)
    q, bad, vers = s.uri("use.php"), 0, 1
    qt = None
    for phase in range(p["phases"]):
        if phase:
            k = r.random()
            if k < .5:
                for rel in r.sample(list(P.files), r.randrange(1, len(P.files) + 1)):
                    old = cur[rel].text()
                    cur[rel] = P.render(rel)
                    new = cur[rel].text()
                    if rel in opened:
                        s.change(s.uri(rel), edit_path(r, old, new, r.random() < .8))
                        opened[rel] = new
                        how = "edited"
                    elif r.random() < .5:
                        s.write(rel, new)
                        s.watch((s.uri(rel), 2))
                        how = "rewritten"
                    else:
                        s.open(s.uri(rel), new)
                        opened[rel] = new
                        how = "opened"
                    c.note("files " + how)
            else:
                for rel, t in opened.items():
                    s.write(rel, t)
                s.settle()
                for x in s.finish(drop=False):
                    c.violate("wire", x)
                opened = {rel: t for rel, t in opened.items() if r.random() < .4}
                s.start()
                for rel, t in opened.items():
                    s.open(s.uri(rel), t)
                qt = None
                c.note("restarts")
        u = uses(P, r)
        if qt is None:
            s.open(q, u.text())
        else:
            s.change(q, [{"text": u.text()}])
        qt = u.text()
        s.settle()
        todo = [(q, u, x) for x in u.refs] + [(s.uri(rel), o, x) for rel, o in cur.items() for x in o.refs]
        r.shuffle(todo)
        for uri, o, (off, text, f, how) in todo[:p["cap"]]:
            name = text.split("\\")[-1]
            at = off + len(text) - len(name) + r.randrange(0, max(1, len(name)))
            ps = pos_of(o.text(), at)
            h = s.pos("textDocument/hover", uri, ps["line"], ps["character"])
            v = ((h or {}).get("contents") or {}).get("value", "") if h else ""
            c.evals += 1
            fact = f[0] if how == "param" else f
            c.note("hover on %s as %s" % (fact.kind, how))
            c.seen("%s %s %s" % (fact.kind, how, v))
            why = judge(f, how, v)
            if not why and how != "param" and o.text()[off + len(text):][:2] == "()":
                ps = pos_of(o.text(), off + len(text) + 1)
                v = s.pos("textDocument/signatureHelp", uri, ps["line"], ps["character"])
                c.evals += 1
                c.note("signature of " + f.kind)
                c.seen("sig %s" % v)
                why = f.kind in ("function", "method", "mtag") and judge_signature(f, v)
            if not why and how == "member":
                ps = pos_of(o.text(), off + len(text))
                v = s.pos("textDocument/completion", uri, ps["line"], ps["character"])
                c.evals += 1
                c.note("completion of " + f.kind)
                why = judge_item(f, v)
                v = [x for x in (v or {}).get("items") or [] if x["label"].lstrip("$") == f.name]
                c.seen("item %s" % v)
            if why:
                bad += 1
                c.violate("facts-%s-%s" % (fact.kind, how), "%s\n got %r\n line %r of %s at %s, phase %d, declared in %s\n text of the declarations:\n%s" % (
                    why, v, o.text().split("\n")[ps["line"]], uri, ps, phase, fact.owner and (fact.owner.kind, fact.owner.fqn), "\n".join("--- %s %s\n%s" % (rel, "open" if rel in opened else "", x.text()) for rel, x in cur.items())[:6000]))
                if bad > 2:
                    s.finish()
                    return
    c.sample = c.sample or "%d files, %d hovers in the last phase" % (len(P.files), len(todo))
    for x in s.finish():
        c.violate("wire", x)


def main():
    ck = core.Check("C09", rule="distinct (kind of declaration, way it is used, text of the answer)",
                    assumptions=["native return types are not shown, by decision of the server", "the words of a description are compared, not its layout"])
    ck.run_cases("facts", case, [dict(seed=ck.seed, i=i, phases=3, cap=60) for i in range(ck.n(120, 2500))], binary=core.build_server())
    ck.finish()
