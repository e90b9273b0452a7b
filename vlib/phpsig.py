"""Random callables with rich parameter lists, and nested calls of them; knows what is called at every position.

All positions are string offsets into the texts (vlib.world.pos_of turns them into LSP positions).
"""
WORDS = "alpha beta gamma delta omega kappa sigma tau rho phi été größe 値".split()
PROSE = "adds makes returns the first value of every row when given nothing else twice über 値".split()
# what a parameter's type is shown as: (text, shown)
TYPES = [("", ""), ("", ""), ("int ", "int"), ("string ", "string"), ("array ", "array"), ("callable ", "callable"), ("?int ", "int"),
         ("bool ", "bool"), ("iterable ", "iterable"), ("?array ", "array"), ("\\Out\\Side ", "\\Out\\Side"), ("float ", "float"), ("object ", "object")]
VALUES = ["1", "-1", "null", "'a, b)'", '"x,(y"', "[1, 2]", "array( 'a' , [1, 2] )", "PHP_INT_MAX", "1 + 2", "true", "[]", "'é😀'", "['k' => [1, 2], 'l' => 3]",
          "1.5", "'it\\'s'", "\\Out\\Side::K", "null ?? 3", "!true", "1 ? 2 : 3", "(1)", "0x1F", "__LINE__", "\"\"", "~1", "'a' . 'b'", "Out::K[1]", "self::K"]


class Param:
    def __init__(self, ty, shown, mods, name, value):
        self.ty, self.shown, self.mods, self.name, self.value = ty, shown, mods, name, value
        self.doc = None

    @property
    def label(self):
        return (self.shown + " " if self.shown else "") + self.name + (" = " + self.value if self.value is not None else "")


class Callable:
    def __init__(self, uid, kind, name, owner=None, static=False, vis="public"):
        self.uid, self.kind, self.name, self.owner, self.static, self.vis = uid, kind, name, owner, static, vis
        self.params, self.doc, self.fqn, self.ret = [], None, None, None

    @property
    def label(self):
        head = self.name if self.kind == "function" else self.vis + (" static" if self.static else "") + " " + self.name
        return head + "(" + ", ".join(p.label for p in self.params) + ")"

    def __repr__(self):
        return "%s %s" % (self.kind, self.label)


class Cls:
    def __init__(self, kind, name, ns):
        self.kind, self.name, self.ns = kind, name, ns
        self.extends, self.ifaces, self.traits, self.members = None, [], [], []

    @property
    def fqn(self):
        return "\\" + (self.ns + "\\" if self.ns else "") + self.name

    def chain(self):
        c, out = self, []
        while c:
            out.append(c)
            c = c.extends
        return out

    def methods(self):
        """name -> the method which is called (public ones, from outside)"""
        out = {}
        for c in reversed(self.chain()):
            for m in c.members:
                out[m.name.lower()] = m
        return out

    def ctor(self):
        return self.methods().get("__construct")


class F:
    def __init__(self, rel, ns):
        self.rel, self.ns, self.text = rel, ns, ""


class Sigs:
    def __init__(self, r, nfiles=3, eol="\n"):
        self.r, self.eol = r, eol
        self.n = 0
        self.files, self.functions, self.classes = {}, [], []
        self.all = []
        nss = ["", "App", "App\\Deep", "Lib"]
        for i in range(nfiles):
            f = F("%s%d.php" % (r.choice(["a", "dir/b", "c c/d"]), i), r.choice(nss))
            self.files[f.rel] = f
            self._file(f)

    def fresh(self, pre):
        self.n += 1
        return pre + self.r.choice(WORDS).capitalize() + str(self.n)

    def prose(self):
        return " ".join(self.r.choice(PROSE) for _ in range(self.r.randrange(2, 6)))

    # -- declarations -------------------------------------------------------
    def _params(self, c, cls):
        r = self.r
        opt = False
        n = r.choice([0, 1, 1, 2, 2, 3, 4, 5])
        for i in range(n):
            ty, shown = r.choice(TYPES)
            if r.random() < .2 and self.classes:
                t = r.choice(self.classes)
                ty, shown = t.fqn + " ", t.fqn
            mods = "&" if r.random() < .15 else ""
            opt = opt or r.random() < .3
            v = None
            if i == n - 1 and r.random() < .2:
                mods += "..."
            elif opt:
                v = r.choice(VALUES)
                if v == "self::K" and cls is None:
                    v = "2"
            name = "$" + r.choice(WORDS) + str(i)
            c.params.append(Param(ty, shown, mods, name, v))

    def _doc(self, c, ind):
        """Doc comment; may give parameters types and descriptions."""
        r = self.r
        if r.random() < .25:
            return ""
        lines = []
        if r.random() < .85:
            c.doc = self.prose()
            lines.append(c.doc)
            if r.random() < .3:
                more = self.prose()
                c.doc += "\n" + more
                lines.append(more)
        for p in r.sample(c.params, len(c.params)):
            if r.random() < .7:
                ty = ""
                if p.shown == "" and r.random() < .6:
                    ty = r.choice(["int", "string|null", "\\Out\\Doc", "bool"])
                    p.shown = ty
                elif p.shown and r.random() < .3:
                    ty = p.shown.split("|")[0]
                elif not p.shown:
                    ty = ""
                if not ty and p.shown:
                    ty = p.shown.split("|")[0]
                if not ty:
                    continue
                p.doc = self.prose() if r.random() < .8 else ""
                lines.append("@param %s %s%s" % (ty, p.name, " " + p.doc if p.doc else ""))
        if r.random() < .3:
            c.ret = r.choice(["int", "\\Out\\Ret"])
            lines.append("@return " + c.ret + r.choice(["", " " + self.prose()]))
        if not lines:
            return ""
        if len(lines) == 1 and r.random() < .4:
            return ind + "/** " + lines[0] + " */\n"
        return ind + "/**\n" + "".join("%s * %s\n" % (ind, x) for x in lines) + ind + " */\n"

    def sp(self):
        return self.r.choice(["", "", "", " ", "\n      ", " /* , ) */ ", " # , (\n"])

    def _sig(self, c):
        sp = self.sp
        out = [c.name, self.r.choice(["", " "]), "("]
        for i, p in enumerate(c.params):
            if i:
                out.append("," + self.r.choice(["", " ", "\n   "]))
            out += [sp(), p.ty, p.mods, p.name]
            if p.value is not None:
                out += [self.r.choice([" ", "", "\n   "]), "=", self.r.choice([" ", "", "\n      "]), p.value]
            out.append(sp())
        out.append(")")
        return "".join(out)

    def _function(self, f, ind=""):
        c = Callable(self.fresh("u"), "function", self.fresh("fn"))
        self._params(c, None)
        c.fqn = "\\" + (f.ns + "\\" if f.ns else "") + c.name
        doc = self._doc(c, ind)
        self.functions.append(c)
        self.all.append(c)
        return doc + ind + "function " + self._sig(c) + self.r.choice([" {}\n", "\n{\n    return 1;\n}\n"])

    def _method(self, cls, name, static, redeclare=None):
        c = Callable(self.fresh("u"), "method", name, cls, static)
        if redeclare is not None and self.r.random() < .3:
            # the same parameters
            c.params = [Param(p.ty, p.ty.strip() and dict(TYPES).get(p.ty, p.ty.strip()), p.mods, p.name, p.value) for p in redeclare.params]
        else:
            self._params(c, cls)
        doc = self._doc(c, "    ")
        cls.members.append(c)
        self.all.append(c)
        mods = self.r.choice(["public ", "public "] if cls.kind == "interface" or name == "__construct" else ["public ", ""]) + ("static " if static else "")
        return doc + "    " + mods + "function " + self._sig(c) + (";" if cls.kind == "interface" else self.r.choice([" {}", "\n    {\n    }"])) + "\n"

    def _class(self, f):
        r = self.r
        kind = r.choice(["class", "class", "class", "interface"])
        c = Cls(kind, self.fresh("Cls"), f.ns)
        out = [kind + " " + c.name]
        parents = [x for x in self.classes if x.kind == kind]
        if parents and r.random() < .5 and kind == "class":
            c.extends = r.choice(parents)
            out.append(" extends " + c.extends.fqn)
        out.append("\n{\n")
        out.append("    const K = [1];\n")
        inherited = c.extends.methods() if c.extends else {}
        if kind == "class" and r.random() < .6:
            out.append(self._method(c, "__construct", False, inherited.get("__construct")))
        for _ in range(r.randrange(1, 4)):
            old = [m for m in inherited.values() if m.name != "__construct" and m.name.lower() not in {x.name.lower() for x in c.members}]
            if old and r.random() < .4:
                m = r.choice(old)
                out.append(self._method(c, m.name, m.static, m))
            else:
                out.append(self._method(c, self.fresh("mt"), r.random() < .35))
        out.append("}\n")
        self.classes.append(c)
        return "".join(out)

    def _file(self, f):
        r = self.r
        out = ["<?php\n"]
        if f.ns:
            out.append("namespace %s;\n" % f.ns)
        for _ in range(r.randrange(2, 5)):
            out.append(r.choice([self._function, self._class, self._class])(f))
            out.append(r.choice(["", "\n", "// é\n"]))
        f.text = "".join(out).replace("\n", self.eol)


class Region:
    """Between brackets: `call` is None or (callables, None if nothing is known to be called)."""

    def __init__(self, kind, start, parent, callee=None, arg=0):
        self.kind, self.start, self.parent, self.callee = kind, start, parent, callee
        self.end = None
        self.commas = []
        self.spans = []  # of the arguments
        self.inner = []
        if parent is not None:
            parent.inner.append(self)

    def active(self, pos):
        return sum(1 for c in self.commas if c < pos)


class Calls:
    """A document which calls them."""

    def __init__(self, r, S, eol="\n", n=6):
        self.r, self.S, self.eol = r, S, eol
        self.parts, self.len = [], 0
        self.root = self.cur = Region("file", 0, None)
        self.nv = 0
        self.frm = None
        self.aliases = {}
        self.ns = r.choice(["", "Use", "App"])
        self.put("<?php\n" + ("namespace %s;\n" % self.ns if self.ns else ""))
        for e in r.sample(S.classes, min(2, len(S.classes))):
            a = "Al%d" % len(self.aliases)
            self.aliases[e] = a
            self.put("use %s as %s;\n" % (e.fqn[1:], a))
        for e in r.sample(S.functions, min(2, len(S.functions))):
            a = "af%d" % len(self.aliases)
            self.aliases[e] = a
            self.put("use function %s as %s;\n" % (e.fqn[1:], a))
        for _ in range(n):
            self.stmt(0)
        classes = [c for c in S.classes if c.kind == "class"]
        if classes:
            e = r.choice(classes)
            self.put("class User%d extends %s\n{\n    public function go()\n    {\n" % (r.randrange(99), self.cname(e)))
            self.frm = e
            for _ in range(3):
                self.stmt(0)
            self.put("    }\n}\n")
            self.frm = None
        self.root.end = self.len
        self.text = "".join(self.parts)

    def put(self, s):
        s = s.replace("\n", self.eol)
        self.parts.append(s)
        self.len += len(s)

    def open(self, kind, tok, callee=None):
        self.put(tok)
        self.cur = Region(kind, self.len, self.cur, callee)

    def close(self, tok):
        self.cur.end = self.len
        self.cur = self.cur.parent
        self.put(tok)

    def body(self):
        self.open("body", "{ ")
        self.put("public $a = [1, 2]; ")
        self.close("}")

    def comma(self):
        self.cur.commas.append(self.len)
        self.put(",")

    def gap(self):
        self.put(self.r.choice(["", "", "", " ", " ", "\n        ", " /* , ( */ ", " // ), (\n    ", "\t"]))

    def cname(self, e):
        a = self.aliases.get(e)
        return a if a and self.r.random() < .6 else e.fqn

    def var(self):
        self.nv += 1
        return "$v%d" % self.nv

    def stmt(self, depth):
        r = self.r
        self.put("    ")
        k = r.random()
        if k < .6:
            self.call(depth)
        elif k < .75:
            self.put("$r = ")
            self.call(depth)
        elif k < .85:
            self.put("if (")
            self.call(depth)
            self.put(") { ")
            self.call(depth)
            self.put("; }")
        else:
            self.put("return ")
            self.call(depth)
        self.put(r.choice([";\n", " ;\n", ";\n\n"]))

    def args(self, callee, depth, least=0):
        """The argument list of a call."""
        r = self.r
        self.put(r.choice(["", "", "", " ", " /* , */ "]))
        self.open("call", "(", callee)
        mine = self.cur
        n = max(least, r.choice([0, 1, 1, 2, 2, 3, 4]))
        self.gap()
        for i in range(n):
            if i:
                self.comma()
                self.gap()
            at = self.len
            if r.random() < .08:
                self.put("...")
            self.expr(depth + 1)
            mine.spans.append((at, self.len))
            self.gap()
        if n and r.random() < .06:
            self.comma()
            self.gap()
        self.close(")")

    def call(self, depth):
        r, S = self.r, self.S
        k = r.random()
        if k < .3 and S.functions:
            c = r.choice(S.functions)
            a = self.aliases.get(c)
            self.put(a if a and r.random() < .6 else c.fqn)
            self.args([c], depth)
        elif k < .45 and any(c.kind == "class" for c in S.classes):
            e = r.choice([c for c in S.classes if c.kind == "class"])
            self.put("new ")
            self.put(self.cname(e))
            self.args([e.ctor()] if e.ctor() else [], depth)
        elif k < .6 and S.classes:
            e = r.choice(S.classes)
            ms = [m for m in e.methods().values() if m.static]
            if not ms:
                return self.call(depth)
            m = r.choice(ms)
            self.put(self.cname(e) + r.choice(["::", "::", " :: "]) + self.case(m.name))
            self.args([m], depth)
        elif k < .72 and any(c.kind == "class" for c in S.classes):
            e = r.choice([c for c in S.classes if c.kind == "class"])
            ms = [m for m in e.methods().values() if not m.static and m.name != "__construct"]
            if not ms:
                return self.call(depth)
            m = r.choice(ms)
            self.open("paren", "(")
            self.put("new " + self.cname(e))
            self.args([e.ctor()] if e.ctor() else [], depth)
            self.close(")")
            self.put(r.choice(["->", "->", "\n        ->"]) + self.case(m.name))
            self.args([m], depth)
        elif k < .82 and self.frm is not None:
            ms = [m for m in self.frm.methods().values()]
            if not ms:
                return self.call(depth)
            m = r.choice(ms)
            if m.name == "__construct" and not m.static:
                head = "parent::"
            else:
                head = r.choice(["self::", "static::", "parent::"]) if m.static else r.choice(["$this->", "parent::"])
            if head == "parent::" and m.owner not in self.frm.chain():
                head = "$this->"
            if head in ("parent::",) and not m.static and m.name != "__construct":
                head = "$this->"
            self.put(head + m.name)
            self.args([m], depth)
        elif k < .88:
            self.put(r.choice(["$f", "unknown_fn", "Unknown_C::m", "$q->m", "$q['a']", "$f::m", "$q->{$p}"]))
            self.args(None, depth)
        elif k < .93 and depth < 3:
            self.put("new class")
            es = [c for c in S.classes if c.kind == "class" and c.ctor()]
            e = r.choice(es) if es and r.random() < .6 else None
            if e is None:
                self.open("call", "(")
                self.put("1")
                self.close(")")
                self.put(" ")
                self.body()
                return
            self.args([e.ctor()], depth)
            self.put(" extends " + self.cname(e) + " ")
            self.body()
        else:
            # a method of what a method gives is not known: the receiver's is
            es = [c for c in S.classes if c.kind == "class"]
            if not es:
                return self.put("1")
            e = r.choice(es)
            ms = [m for m in e.methods().values() if not m.static and m.name != "__construct" and m.ret is None]
            if not ms:
                return self.call(depth)
            m = r.choice(ms)
            self.open("paren", "(")
            self.put("new " + self.cname(e))
            self.close(")")
            self.put("->" + m.name)
            self.args([m], depth)
            self.put("->zzz")
            self.args(None, depth)

    def case(self, name):
        return name.upper() if self.r.random() < .1 and name.isascii() else name

    def expr(self, depth):
        r = self.r
        k = r.random()
        if depth < 4 and k < .3:
            return self.call(depth)
        if depth < 4 and k < .36:
            self.open("array", "[")
            for i in range(r.randrange(0, 3)):
                if i:
                    self.comma()
                    self.put(" ")
                if r.random() < .3:
                    self.put("'k,' => ")
                self.expr(depth + 1)
            self.close("]")
        elif depth < 4 and k < .4:
            self.open("array", "array(")
            self.expr(depth + 1)
            self.comma()
            self.expr(depth + 1)
            self.close(")")
        elif depth < 4 and k < .45:
            h = r.choice(["function ($p, $q = [1, 2]) ", "function ($p) use ($a, $b) ", "static function () "])
            self.open("parameters", h[:h.index("(") + 1])
            self.put(h[h.index("(") + 1:-2])
            self.close(h[-2])
            self.put(" ")
            self.open("closure", "{ ")
            self.stmt(depth + 1)
            self.close("}")
        elif depth < 4 and k < .48:
            self.put("fn($p, $q) => ")
            self.expr(depth + 1)
        elif depth < 4 and k < .53:
            self.open("paren", "(")
            self.expr(depth + 1)
            self.close(")")
        elif depth < 4 and k < .57:
            self.put("$c ? ")
            self.expr(depth + 1)
            self.put(" : ")
            self.expr(depth + 1)
        elif depth < 4 and k < .6:
            self.open("index", "$a[")
            self.expr(depth + 1)
            self.close("]")
        elif depth < 4 and k < .63:
            self.put("1 + ")
            self.expr(depth + 1)
        elif depth < 4 and k < .66:
            self.put("$y = ")
            self.expr(depth + 1)
        elif k < .7:
            self.put(r.choice(["isset($a, $b)", "list_of", "(int) $x", "!$x", "-1", "$a->b", "$a['k,']", "\\Out\\Side::K", "static::class", "new \\Out\\Side"]))
        elif k < .8:
            self.put(r.choice(["'a, (b'", '"x, (y"', '"v {$x}, ("', "'é😀, '", '"a $x[0], b"', "'it\\'s, )'", "<<<EOT\n, ( é {$x}\nEOT\n", "`ls, (`"]))
        else:
            self.put(r.choice(["1", "$x", "null", "PHP_EOL", "1.5", "$値", "true"]))

    def at(self, pos):
        """Innermost region at the offset."""
        g = self.root
        while True:
            for x in g.inner:
                if x.start <= pos <= x.end:
                    g = x
                    break
            else:
                return g

    def calls(self):
        todo, out = [self.root], []
        while todo:
            g = todo.pop()
            todo.extend(g.inner)
            if g.kind == "call":
                out.append(g)
        return out
