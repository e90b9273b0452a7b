"""Random PHP projects together with the truth about them.

The generator never asks the code under test anything: while it writes the text
it records where every declaration and every use is (UTF-16 positions) and what
each use refers to, following the PHP language rules it was written from.
"""
from .corpus import u16

CLASS_NAMES = ["Kestrel", "KestrelBox", "Quokka", "Quok", "Wombat", "WombatTwo", "Numbat", "Gecko", "Heron", "Ibex_Herd", "Größe", "Élan"]
FUNC_NAMES = ["burrow", "burrow_all", "graze", "molt", "roost", "zburrow", "füttern", "été"]
CONST_NAMES = ["HERD_MAX", "HERD", "PAWS", "TAIL_LEN", "ÖL_MAX"]
METHODS = ["hop", "hopAll", "dig", "swim", "nest", "chirp", "größerAls"]
PROPS = ["fur", "furColor", "claws", "beak", "den", "öl"]
CCONSTS = ["LEGS", "LEGS_MAX", "WINGS", "SPOTS", "ÄHRE"]
NAMESPACES = ["", "App", "App\\Sub", "Lib\\Deep", "AppX", "Lib"]
# places in which any expression can be: (before, after)
WRAPS = [
    ("print ", ""), ("echo 1, ", ", 2"), ("$q = $q2 ?? ", ""), ("$q = 1 & ", ""), ("$q = 2 ** ", ""), ("$q = 1 << ", ""), ("$q .= ", ""),
    ("$q += ", ""), ("$q = & ", ""), ("$q = -", ""), ("$q = (int) ", ""), ("@", ""), ("$q = !", ""), ("$q = ", " ? 1 : 2"), ("$q = 1 ?: ", ""),
    ("$q = 1 <=> ", ""), ("exit(", ")"), ("include ", ""), ("require_once ", ""), ("list($q, list($q2)) = ", ""), ("[$q] = ", ""),
    ("foreach (", " as $q => $q2) {}"), ("foreach ([", "] as $q => list($q2)) {}"), ("foreach ([1] as $q) ", ""), ("for ($q = ", "; 1; ) {}"),
    ("for (;", ";) {}"), ("for (;;", ") {}"), ("while (", ") {}"), ("while ($q) ", ""), ("do { } while (", ")"), ("if (", ") {}"),
    ("if ($q) {} elseif (", ") {}"), ("if ($q) {} else ", ""), ("switch (", ") {}"), ("switch ($q) { case ", ": }"),
    ("try {} finally { ", "; }"), ("try {} catch (\\Exception $q) { ", "; }"), ("throw ", ""), ("return ", ""), ("$q = [1, ", ", 2]"),
    ("$q = ['a' => ", "]"), ("$q = [", " => 1]"), ("$q[", "] = 1"), ("$q = $q2[", "]->q"), ("$q2[", "]->q(1)"), ("isset($q[", "])"),
    ("empty(", ")"), ("clone ", ""), ("$q->q(1, ", ")"), ("$q->q(...", ")"), ("$q->q()->q2(", ")"), ("unknown_fn(1, ", ")"), ("$q(", ")"),
    ("Unknown_Cls::q(", ")"), ("new Unknown_Cls(", ")"), ("$q->{", "}"), ("static $q3 = ", ""), ("$q = (", ")"), ("$q = $q2 && ", " || 1"),
    ("$q = 1 == ", ""), ("$q = 1 + ", " * 2"), ("$q = $q2 = ", ""), ("if ($q = ", ") {}"), ("$q->q = ", ""), ("unset($q[", "])"),
    ("$q = 'a' . ", " . 'b'"), ("$q = `ls {$q[", "]}`"), ("$q = \"a {$q[", "]} b\""), ("$q = <<<EOT\n a {$q[", "]}\nEOT"), ("$q = fn() => ", ""),
    ("$q = fn($q2) => fn($q3) => ", ""), ("$q = [", "][0]->q()"), ("$q instanceof Unknown_Cls && ", ""), ("declare(ticks=1) { ", "; }"), ("{ ", "; }"),
    ("; ?> html <?= ", " ?> <?php "),
]
# only for expressions which begin with a variable
VWRAPS = [("$q = \"a {", "} b\""), ("$q = <<<EOT\n a {", "}\nEOT"), ("$q = `ls {", "}`")]
# only for expressions which need no variable
CWRAPS = [("$q = function () { ", "; }"), ("$q = function ($q2 = ", ") {}"), ("$q = static function () use (&$q2) { return ", "; }"),
          ("$q = new class { private $q = ", "; }"), ("$q = new class { function q() { ", "; } }"), ("$q = function () { yield ", "; }"),
          ("$q = function () { yield from ", "; }"), ("$q = function () { yield 1 => ", "; }")]
NOISE = ["/* é */ ", "/* 日本語 😀 */ ", "/* plain */ ", "# x\n", "// naïve 😀😀\n", ""]


class Ent:
    """A class, interface, trait, function, constant or define."""

    def __init__(self, uid, kind, ns, name):
        self.uid, self.kind, self.ns, self.name = uid, kind, ns, name
        self.file = None
        self.span = None       # whole declaration
        self.tok = None        # name token
        self.extends = None    # class: Ent, interface: list
        self.ifaces = []
        self.traits = []
        self.members = []
        self.abstract = self.final = False
        self.deprecated = False
        self.params = []
        self.ret = None
        self.doc = "doc-%s" % uid

    @property
    def fqn(self):
        return "\\" + (self.ns + "\\" if self.ns else "") + self.name

    def __repr__(self):
        return "%s %s" % (self.kind, self.fqn)


class Mem:
    def __init__(self, uid, kind, name, owner, vis="public", static=False):
        self.uid, self.kind, self.name, self.owner, self.vis, self.static = uid, kind, name, owner, vis, static
        self.span = self.tok = None
        self.type = None       # Ent: property type / return type
        self.params = []
        self.deprecated = False
        self.doc = "doc-%s" % uid

    @property
    def file(self):
        return self.owner.file

    def __repr__(self):
        return "%s %s::%s" % (self.kind, self.owner.fqn, self.name)


class Ref:
    def __init__(self, file, start, end, text, kind, targets, **kw):
        self.file, self.start, self.end, self.text, self.kind = file, start, end, text, kind
        self.targets = list(targets)
        self.x = kw

    def __repr__(self):
        return "%s %s:%d:%d %r -> %r" % (self.kind, self.file, self.start[0], self.start[1], self.text, self.targets)


class Out:
    """Collects text while keeping the UTF-16 position of its end."""

    def __init__(self, eol="\n"):
        self.parts = []
        self.line = 0
        self.col = 0
        self.eol = eol

    def put(self, s):
        if not s:
            return
        segs = s.split("\n")
        if len(segs) > 1:
            self.line += len(segs) - 1
            self.col = u16(segs[-1])
        else:
            self.col += u16(s)
        self.parts.append(s.replace("\n", self.eol))

    def pos(self):
        return (self.line, self.col)

    def tok(self, s):
        a = self.pos()
        self.put(s)
        return (a, self.pos())

    def text(self):
        return "".join(self.parts)


class PFile:
    def __init__(self, rel, ns):
        self.rel, self.ns = rel, ns
        self.imports = {}        # alias -> fqn without leading backslash (classes and namespaces)
        self.fimports = {}       # alias -> Ent
        self.cimports = {}
        self.import_toks = []    # (kind, alias, target text, span)
        self.decls = []
        self.text = ""
        self.used_aliases = set()


class Project:
    def __init__(self, r, nfiles=5, usage=True, eol=None, members=True, noise=True, docs=True, prefix="", deprecate=0.0,
                 unused=0.0, stmts=14, ns=None, multi=0.25, negatives=True, wraps=True):
        self.r = r
        self.n = 0
        self.files = {}
        self.ents = {}
        self.refs = []
        self.prefix = prefix
        self.eol = eol
        self.noise = noise
        self.docs = docs
        self.deprecate = deprecate
        self.unused = unused
        self.stmts = stmts
        self.unused_imports = []
        self.helpers = []        # declarations only there to hold uses: (class or PFile, name, span)
        self.multi = multi
        self.negatives = negatives
        self.wraps = wraps
        self.wrapped = set()
        self.sections = {}       # rel -> namespace blocks of the file
        self.namespaces = ns or r.sample(NAMESPACES, r.randrange(2, 5))
        self._model(nfiles, members)
        for fs in self.sections.values():
            for f in fs:
                self._imports(f)
        for f in self.files.values():
            self._render(f, usage)

    # -- model -------------------------------------------------------------
    def uid(self):
        self.n += 1
        return "u%s%d" % (self.prefix, self.n)

    def _model(self, nfiles, members):
        r = self.r
        for i in range(nfiles):
            ns = self.namespaces[i % len(self.namespaces)] if i < len(self.namespaces) else r.choice(self.namespaces)
            d = r.choice(["", "", "src/", "src/In ner/", "lib/ü/"])
            f = PFile("%s%sf%d.php" % (d, self.prefix, i), ns)
            self.files[f.rel] = f
            self.sections[f.rel] = [f]
            if r.random() < self.multi:
                for ns2 in r.sample([n for n in self.namespaces if n != ns], min(len(self.namespaces) - 1, r.randrange(1, 3))):
                    self.sections[f.rel].append(PFile(f.rel, ns2))
        allf = [f for fs in self.sections.values() for f in fs]
        order = []
        for f in allf:
            k = r.randrange(1, 4)
            for _ in range(k):
                self._ent(f, r.choice(["class"] * 5 + ["interface"] * 2 + ["trait"]), CLASS_NAMES)
            for _ in range(r.randrange(0, 3)):
                self._ent(f, "function", FUNC_NAMES)
            if r.random() < .6:
                self._ent(f, "const", CONST_NAMES)
            if r.random() < (.6 if f.ns == "" else .25):
                self._ent(f, "define", CONST_NAMES)
        order = list(self.ents.values())
        classes = [e for e in order if e.kind == "class"]
        ifaces = [e for e in order if e.kind == "interface"]
        traits = [e for e in order if e.kind == "trait"]
        done = []
        for e in r.sample(classes, len(classes)):
            if done and r.random() < .6:
                e.extends = r.choice([d for d in done])
                e.extends.final = False
            e.ifaces = r.sample(ifaces, min(len(ifaces), r.choice([0, 0, 1, 1, 2])))
            e.traits = r.sample(traits, min(len(traits), r.choice([0, 0, 1])))
            e.abstract = r.random() < .2
            if not e.abstract and r.random() < .1:
                e.final = True
            done.append(e)
        for e in classes:
            if any(x.extends is e for x in classes):
                e.final = False
        dones = []
        for e in r.sample(ifaces, len(ifaces)):
            e.extends = r.sample(dones, min(len(dones), r.choice([0, 0, 1, 2])))
            dones.append(e)
        if members:
            for e in order:
                if e.kind in ("class", "interface", "trait"):
                    self._members(e)
        for e in order:
            if e.kind == "function":
                e.params = self._params()
                e.ret = r.choice(classes + ifaces) if (classes or ifaces) and r.random() < .5 else None
            if self.deprecate and r.random() < self.deprecate:
                e.deprecated = True
            for m in e.members:
                if m.kind in ("method", "prop") and r.random() < .5 and (classes or ifaces):
                    m.type = r.choice(classes + ifaces)
                if self.deprecate and r.random() < self.deprecate:
                    m.deprecated = True
        self.classes, self.interfaces, self.traits = classes, ifaces, traits
        self.functions = [e for e in order if e.kind == "function"]
        self.consts = [e for e in order if e.kind in ("const", "define")]

    def _ent(self, f, kind, pool):
        r = self.r
        for _ in range(6):
            name = r.choice(pool)
            group = {"class": "c", "interface": "c", "trait": "c", "function": "f"}.get(kind, "k")
            ns = f.ns
            if kind == "define":                      # define() always takes the full name
                ns = r.choice(self.namespaces) if r.random() < .4 else ""
            key = (group, ns, name)
            if key in self.ents:
                continue
            e = Ent(self.uid(), kind, ns, name)
            e.file = f.rel
            self.ents[key] = e
            f.decls.append(e)
            return e

    def _params(self):
        r = self.r
        ps = []
        for i in range(r.choice([0, 1, 1, 2, 3])):
            ty = r.choice(["", "", "int ", "string ", "array "])
            ps.append((ty, "$a%d" % i, r.choice([None, None, "1", "'x'", "null"]) if i else None))
        seen = False
        out = []
        for ty, n, d in ps:
            seen = seen or d is not None
            out.append((ty, n, (d or "1") if seen else None))
        return out

    def _members(self, e):
        r = self.r
        used = set()

        def add(kind, pool, **kw):
            name = r.choice(pool)
            if (kind, name) in used:
                return
            used.add((kind, name))
            m = Mem(self.uid(), kind, name, e, **kw)
            if m.vis == "private":
                m.name = name + "_p" + m.uid
            m.params = self._params() if kind == "method" else []
            e.members.append(m)
        if e.kind == "interface":
            for _ in range(r.randrange(0, 3)):
                # names of interface members are unique, so that inheriting from several is no conflict
                m = Mem(self.uid(), "method", "", e)
                m.name = r.choice(METHODS) + "_i" + m.uid
                m.params = self._params()
                e.members.append(m)
            if r.random() < .5:
                m = Mem(self.uid(), "const", "", e, static=True)
                m.name = r.choice(CCONSTS) + "_" + m.uid.upper()
                e.members.append(m)
            return
        if e.kind == "trait":
            for _ in range(r.randrange(1, 3)):
                m = Mem(self.uid(), "method", "", e, static=r.random() < .3)
                m.name = ("s" if m.static else "") + r.choice(METHODS)
                if r.random() < .4 or ("method", m.name) in used:
                    m.name = r.choice(METHODS) + "_t" + m.uid
                used.add(("method", m.name))
                m.params = self._params()
                e.members.append(m)
            return
        for _ in range(r.randrange(1, 5)):
            add("method", METHODS, vis=r.choice(["public"] * 4 + ["protected", "private"]), static=False)
        for _ in range(r.randrange(0, 3)):
            add("method", ["s" + x for x in METHODS], vis=r.choice(["public"] * 4 + ["protected", "private"]), static=True)
        for _ in range(r.randrange(0, 4)):
            add("prop", PROPS, vis=r.choice(["public"] * 4 + ["protected", "private"]), static=False)
        for _ in range(r.randrange(0, 2)):
            add("prop", ["s" + x for x in PROPS], vis=r.choice(["public"] * 4 + ["protected", "private"]), static=True)
        for _ in range(r.randrange(0, 3)):
            add("const", CCONSTS, vis=r.choice(["public"] * 5 + ["private", "protected"]), static=True)

    # -- PHP semantics -------------------------------------------------------
    def chain(self, e):
        out = []
        while e is not None and e not in out:
            out.append(e)
            e = e.extends if e.kind == "class" else None
        return out

    def all_ifaces(self, e):
        out = []

        def walk(i):
            if i in out:
                return
            out.append(i)
            for x in (i.extends or []):
                walk(x)
        if e.kind == "interface":
            walk(e)
        else:
            for c in self.chain(e):
                for i in c.ifaces:
                    walk(i)
        return out

    def all_members(self, e, kind):
        """(member) in lookup order, shadowed ones left out."""
        seen = set()
        out = []

        def take(ms):
            for m in ms:
                if m.kind == kind and m.name not in seen:
                    seen.add(m.name)
                    out.append(m)
        if e.kind == "class":
            for c in self.chain(e):
                take(c.members)
                for t in c.traits:
                    take(t.members)
        elif e.kind == "trait":
            take(e.members)
        for i in self.all_ifaces(e):
            take(i.members)
        return out

    def visible(self, e, kind, frm):
        """Members of e which code inside class `frm` (None: outside) may use."""
        out = []
        for m in self.all_members(e, kind):
            if m.vis == "public":
                out.append(m)
            elif frm is not None and m.owner is frm:
                out.append(m)
            elif frm is not None and m.vis == "protected" and m.owner in self.chain(frm):
                out.append(m)
        return out

    # -- imports --------------------------------------------------------------
    def _imports(self, f):
        r = self.r
        local = {e.name.lower() for e in f.decls}
        types = [e for e in self.ents.values() if e.kind in ("class", "interface", "trait")]
        taken = set(local)
        for e in r.sample(types, len(types)):
            if e.ns == f.ns and r.random() < .8:
                continue
            k = r.random()
            if k < .35:
                alias = e.name
                target = e.fqn[1:]
            elif k < .5:
                alias = r.choice(["As", "Bq", "Zed"]) + e.name
                target = e.fqn[1:]
            elif k < .65 and e.ns:
                alias = e.ns.split("\\")[-1] if r.random() < .6 else r.choice(["Nsa", "Nsb"])
                target = e.ns
            else:
                continue
            if alias.lower() in taken:
                continue
            # an alias also captures unqualified names of the own namespace and first segments
            if any(x.ns == f.ns and x.name.lower() == alias.lower() and x.fqn[1:] != target for x in types):
                continue
            taken.add(alias.lower())
            f.imports[alias] = target
        for e in self.ents.values():
            if e.kind == "function" and e.ns != f.ns and e.ns and r.random() < .4:
                alias = e.name if r.random() < .6 else "al_" + e.name
                if alias.lower() in local or alias in f.fimports:
                    continue
                if any(x.kind == "function" and x.ns == f.ns and x.name == alias for x in self.ents.values()):
                    continue
                f.fimports[alias] = e
            if e.kind in ("const", "define") and e.ns != f.ns and e.ns and r.random() < .4:
                alias = e.name if r.random() < .6 else "AL_" + e.name
                if alias in f.cimports or any(x.kind in ("const", "define") and x.ns == f.ns and x.name == alias
                                              for x in self.ents.values()):
                    continue
                f.cimports[alias] = e

    def class_forms(self, f, e):
        """All the ways to write the name of e in f: (text, alias used)."""
        out = [(e.fqn, None)]
        low = {a.lower() for a in f.imports}
        fq = e.fqn[1:]
        for a, t in f.imports.items():
            if t == fq:
                out.append((a, a))
            elif fq.startswith(t + "\\") and t != "":
                out.append((a + fq[len(t):], a))
        if e.ns == f.ns and e.name.lower() not in low:
            out.append((e.name, None))
        if f.ns == "":
            if "\\" in fq and fq.split("\\")[0].lower() not in low:
                out.append((fq, None))
        elif fq.startswith(f.ns + "\\"):
            rest = fq[len(f.ns) + 1:]
            if "\\" in rest and rest.split("\\")[0].lower() not in low:
                out.append((rest, None))
        return out

    def func_forms(self, f, e):
        imps = f.fimports if e.kind == "function" else f.cimports
        kinds = ("function",) if e.kind == "function" else ("const", "define")
        if e.kind == "define":
            out = [(e.fqn, None)]
        else:
            out = [(e.fqn, None)]
        low = {a.lower() for a in f.imports}
        fq = e.fqn[1:]
        for a, t in imps.items():
            if t is e:
                out.append((a, "f:" + a))
        for a, t in f.imports.items():
            if fq.startswith(t + "\\"):
                out.append((a + fq[len(t):], a))
        if e.ns == f.ns and e.name not in imps:
            out.append((e.name, None))
        if e.ns == "" and f.ns != "" and e.name not in imps and not any(
                x.kind in kinds and x.ns == f.ns and x.name == e.name for x in self.ents.values()):
            out.append((e.name, None))
        if f.ns == "":
            if "\\" in fq and fq.split("\\")[0].lower() not in low:
                out.append((fq, None))
        elif fq.startswith(f.ns + "\\"):
            rest = fq[len(f.ns) + 1:]
            if "\\" in rest and rest.split("\\")[0].lower() not in low:
                out.append((rest, None))
        return out

    # -- rendering ------------------------------------------------------------
    def _render(self, main, usage):
        r = self.r
        o = Out(self.eol or r.choice(["\n", "\n", "\r\n"]))
        self.o = o
        secs = self.sections[main.rel]
        braces = len(secs) > 1 and (any(f.ns == "" for f in secs) or r.random() < .4)
        if r.random() < .1 and len(secs) == 1:
            o.put("<html>é</html>\n")
        o.put("<?php\n")
        var = 0
        for f in secs:
            self.f = f
            f.var = var
            f.start = o.pos()
            self._noise()
            if braces:
                o.put("namespace %s{\n" % (f.ns + " " if f.ns else ""))
            elif f.ns:
                o.put("namespace %s;\n" % f.ns)
            self._uses()
            for e in f.decls:
                self._noise()
                getattr(self, "_decl_" + e.kind)(e)
                o.put(r.choice(["\n", "\n\n", "\n"]))
            if usage:
                for _ in range(r.randrange(1, 4)):
                    self._usage_function()
                self._toplevel()
            if braces:
                o.put("}\n")
            var = f.var
        main.text = o.text()
        main.eol = o.eol

    def _noise(self):
        if self.noise and self.r.random() < .35:
            self.o.put(self.r.choice(NOISE))

    def _uses(self):
        r, o, f = self.r, self.o, self.f
        left = [("class", t, a) for a, t in f.imports.items()]
        left += [("function", e.fqn[1:], a) for a, e in f.fimports.items()]
        left += [("const", e.fqn[1:], a) for a, e in f.cimports.items()]
        r.shuffle(left)
        if r.random() < .5:
            left.sort(key=lambda x: ["class", "function", "const"].index(x[0]))

        def take(some, n):
            for x in [x for x in left if some(x)][:n]:
                left.remove(x)
                yield x

        def clause(word, full, alias, shown, written):
            w = "" if written or word == "class" else word + " "
            sp = o.tok(w + shown + ("" if full.split("\\")[-1] == alias else " as " + alias))
            f.import_toks.append((word, alias, full, sp))

        while left:
            first = left.pop(0)
            word, full, alias = first
            segs = full.split("\\")
            k = r.random()
            if k < .4 and len(segs) > 1:
                prefix = "\\".join(segs[:r.randrange(1, len(segs))])
                its = [first] + list(take(lambda x: x[1].startswith(prefix + "\\"), r.randrange(0, 5)))
                r.shuffle(its)
                words = {x[0] for x in its}
                one = len(words) == 1 and r.random() < .7
                o.put("use %s%s\\{" % (word + " " if one and word != "class" else "", prefix))
                sep = r.choice([", ", ", ", ",\n    ", " , "])
                o.put(r.choice(["", " ", "\n    "]))
                for i, (w, t, a) in enumerate(its):
                    o.put(sep if i else "")
                    clause(w, t, a, t[len(prefix) + 1:], one)
                o.put(r.choice(["", "", "\n"]) + "};\n")
            else:
                its = [first] + list(take(lambda x: x[0] == word, r.randrange(0, 3) if k > .8 else 0))
                o.put("use " + (word + " " if word != "class" else ""))
                for i, (w, t, a) in enumerate(its):
                    o.put(", " if i else "")
                    # the parser knows the leading backslash only there
                    o.put("\\" if i == 0 and r.random() < .15 else "")
                    clause(w, t, a, t, True)
                o.put(";\n")

    def _doclines(self, e):
        return [e.doc] + (["@deprecated since " + e.uid] if e.deprecated else [])

    def _doc(self, lines, indent=""):
        o = self.o
        if not self.docs:
            return
        o.put(indent + "/**\n")
        for ln in lines:
            if callable(ln):
                o.put(indent + " * ")
                ln()
                o.put("\n")
            else:
                o.put(indent + " * " + ln + "\n")
        o.put(indent + " */\n")

    def cref(self, e, kind="class", **kw):
        text, alias = self.r.choice(self.class_forms(self.f, e))
        if alias:
            self.f.used_aliases.add(alias)
        a, b = self.o.tok(text)
        self.refs.append(Ref(self.f.rel, a, b, text, kind, [e], **kw))

    def ref(self, text, kind, targets, **kw):
        a, b = self.o.tok(text)
        rf = Ref(self.f.rel, a, b, text, kind, targets, **kw)
        self.refs.append(rf)
        return rf

    def fref(self, e):
        text, alias = self.r.choice(self.func_forms(self.f, e))
        if alias:
            self.f.used_aliases.add(alias)
        self.ref(text, "function" if e.kind == "function" else "constant", [e])

    def _decl_class(self, e):
        o, r = self.o, self.r
        ls = self._doclines(e)
        self._doc(ls)
        a = o.pos()
        o.put("abstract " if e.abstract else "final " if e.final else "")
        o.put("class ")
        e.tok = o.tok(e.name)
        if e.extends:
            o.put(" extends ")
            self.cref(e.extends)
        for i, x in enumerate(e.ifaces):
            o.put(" implements " if i == 0 else ", ")
            self.cref(x)
        o.put(r.choice(["\n{\n", " {\n"]))
        for t in e.traits:
            o.put("    use ")
            self.cref(t)
            o.put(";\n")
        for m in r.sample(e.members, len(e.members)):
            self._member(e, m)
        o.put("    ")
        b = o.pos()
        o.put("public function body_%s()\n    {\n" % e.uid)
        self._body(e)
        o.put("    }")
        self.helpers.append((e, "body_" + e.uid, (b, o.pos())))
        o.put("\n}")
        e.span = (a, o.pos())

    def _decl_interface(self, e):
        o, r = self.o, self.r
        self._doc(self._doclines(e))
        a = o.pos()
        o.put("interface ")
        e.tok = o.tok(e.name)
        for i, x in enumerate(e.extends or []):
            o.put(" extends " if i == 0 else ", ")
            # extended interface names are not navigable, only their members count
            text, alias = r.choice(self.class_forms(self.f, x))
            if alias:
                self.f.used_aliases.add(alias)
            o.put(text)
        o.put(" {\n")
        for m in e.members:
            self._member(e, m)
        o.put("}")
        e.span = (a, o.pos())

    def _decl_trait(self, e):
        o = self.o
        self._doc(self._doclines(e))
        a = o.pos()
        o.put("trait ")
        e.tok = o.tok(e.name)
        o.put("\n{\n")
        for m in e.members:
            self._member(e, m)
        o.put("}")
        e.span = (a, o.pos())

    def _sig(self, params):
        o = self.o
        o.put("(")
        for i, (ty, n, d) in enumerate(params):
            if i:
                o.put(", ")
            o.put(ty)
            o.put(n)
            if d is not None:
                o.put(" = " + d)
        o.put(")")

    def _member(self, e, m):
        o, r = self.o, self.r
        if m.kind == "const":
            if m.deprecated:
                self._doc(["@deprecated since " + m.uid], "    ")
            o.put("    " + ("" if m.vis == "public" and r.random() < .5 else m.vis + " ") + "const ")
            a = o.pos()
            m.tok = o.tok(m.name)
            o.put(" = %d" % r.randrange(99))
            m.span = (a, o.pos())
            o.put(";\n")
            return
        if m.kind == "prop":
            ls = self._doclines(m)
            if m.type:
                ls.append(lambda: (o.put("@var "), self.cref(m.type, "doctype")))
            self._doc(ls, "    ")
            o.put("    %s %s" % (m.vis, "static " if m.static else ""))
            a = o.pos()
            m.tok = o.tok("$" + m.name)
            if r.random() < .4:
                o.put(" = " + r.choice(["1", "'é'", "null", "[]"]))
            m.span = (a, o.pos())
            o.put(";\n")
            return
        ls = self._doclines(m)
        if m.type:
            ls.append(lambda: (o.put("@return "), self.cref(m.type, "doctype")))
        self._doc(ls, "    ")
        o.put("    ")
        a = o.pos()
        o.put(m.vis + " " + ("static " if m.static else "") + "function ")
        m.tok = o.tok(m.name)
        self._sig(m.params)
        if e.kind == "interface":
            o.put(";")
        else:
            o.put(r.choice([" {}", " { return null; }", "\n    {\n    }"]))
        m.span = (a, o.pos())
        o.put("\n")

    def _decl_function(self, e):
        o, r = self.o, self.r
        ls = self._doclines(e)
        if e.ret:
            ls.append(lambda: (o.put("@return "), self.cref(e.ret, "doctype")))
        self._doc(ls)
        a = o.pos()
        o.put("function ")
        e.tok = o.tok(e.name)
        self._sig(e.params)
        o.put(r.choice([" {}", "\n{\n    return null;\n}"]))
        e.span = (a, o.pos())

    def _decl_const(self, e):
        o = self.o
        if e.deprecated:
            self._doc(["@deprecated since " + e.uid])
        o.put("const ")
        a = o.pos()
        e.tok = o.tok(e.name)
        o.put(" = %d" % self.r.randrange(99))
        e.span = (a, o.pos())
        o.put(";")

    def _decl_define(self, e):
        o = self.o
        if e.deprecated:
            self._doc(["@deprecated since " + e.uid])
        a = o.pos()
        o.put("define('" + (e.ns + "\\").replace("\\", self.r.choice(["\\", "\\\\"])) if e.ns else "define('")
        e.tok = o.tok(e.name)
        o.put("', %d)" % self.r.randrange(99))
        e.span = (a, o.pos())
        o.put(";")

    # -- uses -------------------------------------------------------------
    def wrap(self, *more, default=""):
        """Opens a random construct around an expression; returns what closes it."""
        r = self.r
        if not self.wraps or r.random() < .4:
            self.o.put(default)
            return ""
        a, b = r.choice(r.choice([WRAPS, WRAPS] + list(more)))
        self.wrapped.add(a)
        self.o.put(a)
        return b

    def newvar(self):
        self.f.var += 1
        return "$v%d" % self.f.var

    def args(self, m):
        return "(" + ", ".join(["1"] * len(m.params)) + ")"

    def member_access(self, e, frm, head, sep, kind, static, targets_of=None, this=False):
        """head is already written; writes sep and a member of e."""
        o, r = self.o, self.r
        cands = [m for m in (targets_of or self.visible(e, kind, frm)) if m.kind == kind and m.static == static]
        if not cands:
            return None
        m = r.choice(cands)
        o.put(sep)
        name = ("$" + m.name) if kind == "prop" and sep == "::" else m.name
        self.ref(name, kind, [m], access=sep)
        if kind == "method":
            o.put(self.args(m))
        return m

    def follow(self, m, frm):
        """Chain further through declared types."""
        o, r = self.o, self.r
        depth = 0
        while m is not None and m.type is not None and depth < 3 and r.random() < .7:
            depth += 1
            kind = r.choice(["method", "method", "prop"])
            m = self.member_access(m.type, None, None, "->", kind, False)

    def _receiver(self, e):
        """Writes statements which give a variable the type e; returns its name."""
        o, r = self.o, self.r
        v = self.newvar()
        k = r.randrange(3 if self.docs else 2)
        if e.kind == "class" and k == 0:
            o.put("%s = new " % v)
            self.cref(e)
            o.put(r.choice(["();\n", ";\n"]))
        elif e.kind == "class" and k == 1:
            w = self.newvar()
            o.put("%s = new " % w)
            self.cref(e)
            o.put("();\n    %s = %s;\n" % (v, w))
        else:
            fs = [x for x in self.functions if x.ret is e]
            if fs and r.random() < .5 and self.docs:
                x = r.choice(fs)
                o.put("%s = " % v)
                self.fref(x)
                o.put(self.args(x) + ";\n")
            elif self.docs:
                o.put("/** @var ")
                self.cref(e, "doctype")
                o.put(" */\n    %s = unknown_thing();\n" % v)
            else:
                return None
        return v

    def _stmt(self, frm, indent="    "):
        o, r = self.o, self.r
        k = r.random()
        types = self.classes + self.interfaces
        o.put(indent)
        if r.random() < .1:
            self._noise()
            if o.col == 0:
                o.put(indent)
        if self.negatives and r.random() < .1:
            self._negative(frm)
        elif k < .3 and types:
            e = r.choice(types)
            v = self._receiver(e)
            if v is None:
                o.put("\n")
                return
            kind = r.choice(["method", "method", "prop"])
            # the type is used from outside of its class
            pub = [m for m in self.visible(e, kind, None) if not m.static]
            o.put(indent)
            if not pub:
                o.put(v + ";\n")
                return
            end = self.wrap(VWRAPS)
            o.put(v)
            m = self.member_access(e, None, v, "->", kind, False)
            self.follow(m, None)
            o.put(end + ";\n")
        elif k < .42 and types:
            e = r.choice(types)
            kind = r.choice(["method", "prop", "const", "const"])
            cands = [m for m in self.visible(e, kind, None) if m.static]
            if not cands or e is frm or (frm and (e in self.chain(frm) or frm in self.chain(e))):
                o.put("1;\n")
                return
            end = self.wrap(CWRAPS)
            self.cref(e, "class")
            self.member_access(e, None, None, "::", kind, True)
            o.put(end + ";\n")
        elif k < .5 and types:
            e = r.choice(types)
            o.put("if ($u%s instanceof " % self.uid())
            self.cref(e)
            o.put(") {}\n")
        elif k < .55 and self.classes:
            e = r.choice(self.classes)
            v = self.newvar()
            o.put("try {} catch (" + r.choice(["", "", "\\Unknown_Cls | "] if self.wraps else [""]))
            self.cref(e)
            o.put(" %s) {" % v)
            if self.wraps and any(not m.static for m in self.visible(e, "method", None)):
                o.put(r.choice([" ", "\n"]))
                o.put(v)
                self.follow(self.member_access(e, None, v, "->", "method", False), None)
                o.put("; ")
            o.put("}\n")
        elif k < .6 and types and self.wraps:
            self._typed(r.choice(types))
        elif k < .7 and self.functions:
            e = r.choice(self.functions)
            end = self.wrap(CWRAPS)
            self.fref(e)
            o.put(self.args(e))
            if e.ret is not None and self.docs and r.random() < .6:
                m = self.member_access(e.ret, None, None, "->", "method", False)
                self.follow(m, None)
            o.put(end + ";\n")
        elif k < .78 and self.consts:
            end = self.wrap(CWRAPS, default="echo ")
            self.fref(r.choice(self.consts))
            o.put(end + ";\n")
        elif k < .86 and self.classes:
            e = r.choice(self.classes)
            end = self.wrap(CWRAPS)
            o.put("(new ")
            self.cref(e)
            o.put("())")
            m = self.member_access(e, None, None, "->", "method", False)
            self.follow(m, None)
            o.put(end + ";\n")
        elif frm is not None:
            self._inside(frm)
        else:
            v = self.newvar()
            o.put("%s = 'é😀' . \"日 {%s} x\";\n" % (v, v))

    def _typed(self, e):
        """A type in one of the places where types can be."""
        o, r = self.o, self.r
        a, b = r.choice([("$q = function (", " $q2) {};\n"), ("$q = function (): ", " {};\n"), ("$q = fn(", " $q2) => 1;\n"),
                         ("$q = fn(): ", " => 1;\n"), ("$q = function (", " ...$q2) {};\n"),
                         ("$q = new class { private ", " $q; };\n"), ("$q = new class { function q(): ", " {} };\n"),
                         ("$q = new class { function q(?", " $q2 = null) {} };\n"), ("$q = [", "::class];\n")])
        if a.endswith("private "):
            # the parser knows no names of several parts there
            if e.ns:
                a, b = "$q = function (", " $q2) {};\n"
            else:
                o.put(a)
                self.ref(e.fqn, "class", [e])
                o.put(b)
                return
        o.put(a)
        self.cref(e)
        o.put(b)

    def lookup(self, group, fqn):
        for e in self.ents.values():
            if e.fqn == fqn and {"class": "c", "interface": "c", "trait": "c", "function": "f"}.get(e.kind, "k") == group:
                return e
        return None

    def _negative(self, frm):
        """A use of something which does not exist there (although its name exists elsewhere)."""
        o, r, f = self.o, self.r, self.f
        types = self.classes + self.interfaces
        low = {a.lower() for a in f.imports}
        k = r.choice([0, 1, 2, 3, 4, 4])
        if k == 0 and types:
            e = r.choice(types)
            own = "\\" + (f.ns + "\\" if f.ns else "") + e.name
            if e.name.lower() not in low and self.lookup("c", own) is None:
                o.put("if ($q instanceof ")
                self.ref(e.name, "class", [], why="a class of another namespace, not imported")
                o.put(") {}\n")
                return
        elif k == 1 and types:
            e = r.choice(types)
            ns = r.choice([n for n in self.namespaces if n != e.ns] or ["Void"])
            fq = "\\" + (ns + "\\" if ns else "") + e.name
            if self.lookup("c", fq) is None:
                o.put("new ")
                self.ref(fq, "class", [], why="no class of this name in that namespace")
                o.put("();\n")
                return
        elif k == 2 and self.functions and f.ns:
            e = r.choice(self.functions)
            own = "\\" + f.ns + "\\" + e.name
            glob = self.lookup("f", "\\" + e.name)
            if e.name not in f.fimports and self.lookup("f", own) is None and glob is None:
                self.ref(e.name, "function", [], why="a function of another namespace, not imported")
                o.put("();\n")
                return
        elif k == 3 and self.functions and f.ns:
            e = r.choice(self.functions)
            seg = r.choice(["Void", "Sub", "Deep"])
            own = "\\" + f.ns + "\\" + seg + "\\" + e.name
            if seg.lower() not in low and self.lookup("f", own) is None:
                self.ref(seg + "\\" + e.name, "function", [], why="a qualified name does not fall back to the global function")
                o.put("();\n")
                return
        elif k == 4 and self.classes:
            e = r.choice(self.classes)
            # static members named through their class and inherited protected ones are found from anywhere, by design
            hid = [m for m in self.all_members(e, "method") + self.all_members(e, "prop") if not m.static and
                   (m.vis == "private" or (m.vis == "protected" and m.owner is e and not any(
                       x is not m and x.kind == m.kind and x.name == m.name for a in self.chain(e)
                       for b in [a] + a.traits for x in b.members)))]
            if frm is None and hid:
                m = r.choice(hid)
                o.put("(new ")
                self.cref(e)
                o.put("())->")
                self.ref(m.name, m.kind, [], why="a %s member used from outside" % m.vis, access="->")
                o.put("();\n" if m.kind == "method" else ";\n")
                return
        o.put("1;\n")

    def _inside(self, c):
        o, r = self.o, self.r
        k = r.random()
        if k < .5:
            kind = r.choice(["method", "prop"])
            end = self.wrap(VWRAPS, CWRAPS[:2])
            o.put("$this")
            m = self.member_access(c, c, None, "->", kind, False)
            self.follow(m, c) if m is not None and m.vis == "public" else None
            o.put(end + ";\n")
        elif k < .8:
            kind = r.choice(["method", "prop", "const"])
            end = self.wrap(CWRAPS[:3])
            o.put(r.choice(["self", "static"]))
            m = self.member_access(c, c, None, "::", kind, True)
            if m is None:
                o.put("::class")
            o.put(end + ";\n")
        else:
            p = c.extends
            if p is None:
                o.put("1;\n")
                return
            kind = r.choice(["method", "const"])
            cands = [m for m in self.visible(p, kind, c) if m.static or kind == "method"]
            if not cands:
                o.put("1;\n")
                return
            m = r.choice(cands)
            self.ref("parent", "parent", [p])
            o.put("::")
            self.ref(m.name, kind, [m], access="::")
            if kind == "method":
                o.put(self.args(m))
            o.put(";\n")

    def _body(self, c):
        for _ in range(self.r.randrange(0, max(1, self.stmts // 2))):
            self._stmt(c, "        ")

    def _usage_function(self):
        o, r = self.o, self.r
        types = self.classes + self.interfaces
        uid = self.uid()
        a = o.pos()
        o.put("function use_%s(" % uid)
        ps = []
        for i in range(r.randrange(0, 3)):
            if not types:
                break
            e = r.choice(types)
            if i:
                o.put(", ")
            o.put(r.choice(["", "", "?"]) if self.wraps else "")
            self.cref(e)
            o.put((r.choice([" ", " ", " ", " &"]) if self.wraps else " ") + "$p%d" % i)
            ps.append(("$p%d" % i, e))
        o.put(")")
        if self.wraps and types and r.random() < .5:
            o.put(r.choice([": ", " : ", ": ?"]))
            self.cref(r.choice(types))
        o.put("\n{\n")
        for v, e in ps:
            o.put("    " + v)
            self.member_access(e, None, v, "->", r.choice(["method", "prop"]), False)
            o.put(";\n")
        for _ in range(r.randrange(0, self.stmts)):
            self._stmt(None)
        o.put("}")
        self.helpers.append((self.f, "use_" + uid, (a, o.pos())))
        o.put("\n")

    def _toplevel(self):
        for _ in range(self.r.randrange(1, self.stmts)):
            self._stmt(None, "")


def probe_points(r, ref, n=1):
    """Positions inside the token of a reference."""
    (l, a), (_, b) = ref.start, ref.end
    return [(l, r.randrange(a + 1, b + 1)) for _ in range(n)]


def lsp_range(span):
    (a, b), (c, d) = span
    return {"start": {"line": a, "character": b}, "end": {"line": c, "character": d}}
