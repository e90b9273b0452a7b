"""Random PHP programs whose variables are known: every occurrence, and which ones are the same variable."""

NAMES = ["$a", "$ab", "$row", "$été", "$_", "$item2", "$Row"]


class Scope:
    def __init__(self, kind, parent=None):
        self.kind, self.parent = kind, parent
        self.own = {}
        self.shared = set()     # names a closure uses
        self.params = set()     # parameters of an arrow function
        self.globals = set()
        self.base = 0           # number of loops around the function

    def group(self, name, gen):
        if self.kind == "closure" and name in self.shared or self.kind == "arrow" and name not in self.params:
            return self.parent.group(name, gen)
        if name in self.globals:
            return gen.top.group(name, gen)
        if name not in self.own:
            gen.ngroups += 1
            self.own[name] = gen.ngroups
        return self.own[name]

    def home(self, name):
        """The scope which the value of the variable belongs to."""
        return self.parent.home(name) if self.kind == "arrow" and name not in self.params else self


# occurrences which only give the variable a value, and ones which are neither that nor a use of the value
WRITES = {"assigned", "assigned inside", "destructured [", "destructured l", "destructured key", "foreach", "foreach key", "foreach destructured",
          "catch", "parameter", "variadic parameter", "closure use", "for assigned", "compound"}
NEUTRAL = {"increment", "element assigned", "object assigned", "unset", "foreach by reference", "closure use by reference", "global", "static",
           "parameter by reference", "reference"}
# what is assigned to the variable can be seen elsewhere
SHARED = {"foreach by reference", "closure use by reference", "global", "static", "parameter by reference", "reference in an array", "reference",
          "referenced"}


class Use:
    """One occurrence: role is w (gives a value), r (uses the value) or n."""

    def __init__(self, key, start, end, role, loops, form):
        self.key, self.start, self.end, self.role, self.loops, self.form = key, start, end, role, loops, form
        self.until = end        # end of the assigned value


class Prog:
    """text; occ: [(start, end, group)]; traps: offsets inside look-alikes which are no variables."""

    def __init__(self, r, size=14):
        self.r = r
        self.names = r.sample(NAMES, r.randrange(2, 5))
        self.buf, self.n = [], 0
        self.occ, self.traps = [], []
        self.uses, self.loops = [], []
        self.ngroups = 0
        self.count = 0
        self.forms = {}
        self.eol = r.choice(["\n", "\n", "\r\n"])
        self.indent = 0
        self.body(size)
        self.text = "".join(self.buf)

    # -- output
    def put(self, s):
        s = s.replace("\n", self.eol)
        self.buf.append(s)
        self.n += len(s)

    def nl(self):
        self.put("\n" + "    " * self.indent)

    def tok(self, sc, name=None, form="plain", bare=False):
        name = name or self.r.choice(self.names)
        text = name[1:] if bare else name
        self.occ.append((self.n, self.n + len(text), sc.group(name, self), form))
        self.forms[form] = self.forms.get(form, 0) + 1
        role = "w" if form in WRITES else "n" if form in NEUTRAL else "r"
        home = sc.home(name)
        self.uses.append(Use((home, name), self.n, self.n + len(text), role, self.loops[home.base:], form))
        if form.startswith("closure use"):
            self.uses.append(Use((sc.parent.home(name), name), self.n, self.n + len(text), "r", list(self.outer_loops), form))
        self.put(text)
        return name

    def unread(self):
        """(occurrences whose value certainly nothing uses, occurrences whose value may be unused): {(start, end)}."""
        keys, groups = {}, {}
        group_of = {(a, b): g for a, b, g, form in self.occ}
        for u in self.uses:
            keys.setdefault(u.key, []).append(u)
            groups.setdefault(group_of[(u.start, u.end)], []).append(u)
        sure, maybe = set(), set()

        def after(x, u):
            return x.start >= u.until or set(x.loops) & set(u.loops)

        def unused(u, us, group):
            others = [x for x in us if x is not u]
            if any(x.role == "r" and after(x, u) for x in others):
                return False
            if u.form in SHARED:
                return not any(x.form != "reference" and after(x, u) for x in others)
            if any(x.form in SHARED and after(u, x) for x in others):
                return False
            if u.key[0].kind == "closure":
                return True
            return not (any(x.form == "global" for x in group) and any(x.role == "r" and x.key != u.key for x in group))
        for key, us in keys.items():
            for u in us:
                group = groups[group_of[(u.start, u.end)]]
                if all(x.form == "assigned" for x in group):
                    sure.add((u.start, u.end))
                if unused(u, us, group):
                    maybe.add((u.start, u.end))
        return sure, maybe

    def trap(self, text):
        self.traps.append((self.n, self.n + len(text)))
        self.put(text)

    def word(self):
        return self.r.choice(self.names)[1:]

    def ascii_name(self):
        # the lexer of the parser library misplaces ${été} by a byte
        return self.r.choice([v for v in self.names if v[1].isascii()])

    def uid(self):
        self.count += 1
        return self.count

    # -- program
    def body(self, size):
        r = self.r
        if r.random() < .1:
            self.put("<b>$a é</b>\n")
        self.put("<?php")
        if r.random() < .3:
            self.put("\nnamespace App;")
        self.top = top = Scope("file")
        for _ in range(size):
            self.nl()
            k = r.random()
            if k < .3:
                self.fn(top)
            elif k < .45:
                self.cls(top)
            else:
                self.stmt(top, 3)
        self.put("\n")

    def block(self, sc, depth, n=None, declare=False):
        self.put("{")
        self.indent += 1
        if declare and self.r.random() < .2:
            # at the start, before any other use of the name in the function
            names = [v for v in self.r.sample(self.names, self.r.randrange(1, 3)) if v not in sc.own and v not in sc.shared]
            if names:
                sc.globals = set(names)
                self.nl()
                self.put("global ")
                for i, v in enumerate(names):
                    self.put(", " if i else "")
                    self.tok(sc, v, "global")
                self.put(";")
        for _ in range(self.r.randrange(1, 4) if n is None else n):
            self.nl()
            self.stmt(sc, depth - 1)
        self.indent -= 1
        self.nl()
        self.put("}")

    def params(self, sc, names=None):
        r = self.r
        names = r.sample(self.names, r.randrange(0, min(3, len(self.names)) + 1)) if names is None else names
        for i, v in enumerate(names):
            self.put(", " if i else "")
            self.put(r.choice(["", "", "int ", "?Foo ", "array "]))
            ref = r.random() < .15
            if ref:
                self.put("&")
            if i == len(names) - 1 and r.random() < .1:
                self.put("...")
                self.tok(sc, v, "parameter by reference" if ref else "variadic parameter")
                continue
            self.tok(sc, v, "parameter by reference" if ref else "parameter")
            if r.random() < .2:
                self.put(" = " + r.choice(["1", "null", "[]", "self::A", "'$a'"]))
        return names

    def fn(self, sc):
        loops, self.loops = self.loops, []
        self.fn_(sc)
        self.loops = loops

    def fn_(self, sc):
        f = Scope("function")
        self.put("function %s%s%d(" % (self.r.choice(["", "&"]), self.word(), self.uid()))
        self.params(f)
        self.put(")" + self.r.choice(["", ": int", ": ?Foo"]) + " ")
        self.block(f, 3, self.r.randrange(1, 6), True)

    def cls(self, sc):
        r = self.r
        self.put("%s K%d%s {" % (r.choice(["class", "class", "abstract class", "trait"]), self.uid(), ""))
        self.members()
        self.put("}")

    def members(self):
        loops, self.loops = self.loops, []
        self.members_()
        self.loops = loops

    def members_(self):
        r = self.r
        self.indent += 1
        for v in r.sample(self.names, r.randrange(0, 2)):
            self.nl()
            self.put(r.choice(["public ", "private static ", "var ", "protected "]))
            self.trap(v)
            self.put(r.choice(["", " = 1", " = '%s'" % v]) + ";")
        for _ in range(r.randrange(1, 3)):
            self.nl()
            m = Scope("function")
            self.put("%sfunction %s%d(" % (r.choice(["public ", "private static ", "", "final "]), self.word(), self.uid()))
            self.params(m)
            self.put(") ")
            self.block(m, 3, r.randrange(1, 4), True)
        self.indent -= 1
        self.nl()

    def target(self, sc, depth=2):
        """Something which is assigned to."""
        r = self.r
        k = r.random()
        if k < .5 or depth <= 0:
            self.tok(sc, form="assigned")
        elif k < .62:
            self.tok(sc, form="element assigned")
            self.put("[")
            if r.random() < .5:
                self.expr(sc, 1)
            self.put("]")
        elif k < .7:
            self.tok(sc, form="object assigned")
            self.put("->" + self.word())
        elif k < .85:
            a, b = r.choice([("[", "]"), ("list(", ")")])
            self.put(a)
            for i in range(r.randrange(1, 3)):
                self.put(", " if i else "")
                self.tok(sc, form="destructured " + a[0])
            self.put(b)
        elif k < .92:
            self.put("['k' => ")
            self.tok(sc, form="destructured key")
            self.put(", " + "'l' => ")
            self.tok(sc, form="destructured key")
            self.put("]")
        else:
            self.put(r.choice(["self", "K1"]) + "::")
            self.trap(r.choice(self.names))

    def stmt(self, sc, depth):
        r = self.r
        opts = ["assign"] * 5 + ["op", "incr", "echo", "expr", "expr", "unset", "comment"]
        if depth > 0:
            opts += ["foreach"] * 2 + ["for", "while", "if", "switch", "try", "do", "inline"]
        if sc.kind == "function":
            opts += ["static", "return", "return"]
        if sc.kind == "closure":
            opts += ["return", "return"]
        opts += ["reference"]
        k = r.choice(opts)
        if k in ("foreach", "for", "while", "do"):
            self.loops = self.loops + [self.uid()]
            self.loop(k, sc, depth)
            self.loops = self.loops[:-1]
            return
        e = lambda d=2: self.expr(sc, d)  # noqa: E731
        if k == "assign":
            first = len(self.uses)
            self.target(sc)
            new = self.uses[first:]
            self.put(" = ")
            e(3)
            for u in new:
                u.until = self.n
            self.put(";")
        elif k == "op":
            self.tok(sc, form="compound")
            u = self.uses[-1]
            self.put(r.choice([" .= ", " += ", " *= ", " |= "]))
            e()
            u.until = self.n
            self.put(";")
        elif k == "incr":
            if r.random() < .5:
                self.put("++")
                self.tok(sc, form="increment")
            else:
                self.tok(sc, form="increment")
                self.put("--")
            self.put(";")
        elif k == "echo":
            self.put("echo ")
            e()
            if r.random() < .3:
                self.put(", ")
                e()
            self.put(";")
        elif k == "expr":
            self.put("f(")
            e(3)
            self.put(");")
        elif k == "unset":
            self.put("unset(")
            self.tok(sc, form="unset")
            if r.random() < .5:
                self.put(", ")
                self.tok(sc, form="unset")
                self.put("['k']")
            self.put(");")
        elif k == "comment":
            self.put(r.choice(["// ", "# ", "/* "]))
            n = self.r.choice(self.names)
            self.traps.append((self.n, self.n + len(n)))
            self.put(n + (" é */" if self.buf[-1] == "/* " else " é\n" + "    " * self.indent) + ";")
        elif k == "reference":
            self.tok(sc, form="reference")
            u = self.uses[-1]
            self.put(r.choice([" = &", " =& "]))
            self.tok(sc, form="referenced")
            u.until = self.n
            self.put(";")
        elif k == "if":
            self.put("if (")
            e()
            self.put(") ")
            self.block(sc, depth)
            if r.random() < .3:
                self.put(" elseif (")
                e(1)
                self.put(") ")
                self.block(sc, depth)
            if r.random() < .4:
                self.put(" else ")
                self.block(sc, depth)
        elif k == "switch":
            self.put("switch (")
            e(1)
            self.put(") { case ")
            e(1)
            self.put(": ")
            self.stmt(sc, 0)
            self.put(" break; default: ")
            self.stmt(sc, 0)
            self.put(" }")
        elif k == "try":
            self.put("try ")
            self.block(sc, depth)
            self.put(" catch (%s " % r.choice(["Foo", "Foo | \\Bar", "\\Exception"]))
            self.tok(sc, form="catch")
            self.put(") ")
            self.block(sc, depth)
            if r.random() < .3:
                self.put(" finally ")
                self.block(sc, depth)
        elif k == "inline":
            self.put("?> ")
            self.trap(r.choice(self.names))
            self.put(" <b><?= ")
            e(1)
            self.put(" ?></b> <?php ;")
        elif k == "static":
            self.put("static ")
            self.tok(sc, form="static")
            self.put(" = 1")
            if r.random() < .4:
                self.put(", ")
                self.tok(sc, form="static")
            self.put(";")
        elif k == "return":
            self.put("return ")
            e(3)
            self.put(";")

    def loop(self, k, sc, depth):
        r = self.r
        e = lambda d=2: self.expr(sc, d)  # noqa: E731
        if k == "foreach":
            self.put("foreach (")
            loops, self.loops = self.loops, self.loops[:-1]
            e()
            self.loops = loops
            self.put(" as ")
            if r.random() < .4:
                self.tok(sc, form="foreach key")
                self.put(" => ")
            q = r.random()
            if q < .2:
                self.put("&")
                self.tok(sc, form="foreach by reference")
            elif q < .4:
                a, b = r.choice([("[", "]"), ("list(", ")")])
                self.put(a)
                self.tok(sc, form="foreach destructured")
                self.put(", ")
                self.tok(sc, form="foreach destructured")
                self.put(b)
            else:
                self.tok(sc, form="foreach")
            self.put(") ")
            q = r.random()
            if q < .7:
                self.block(sc, depth)
            elif q < .85:
                self.stmt(sc, 0)
            else:
                self.put(": ")
                self.stmt(sc, 0)
                self.put(" endforeach;")
        elif k == "for":
            self.put("for (")
            v = self.tok(sc, form="for assigned")
            self.put(" = 0; ")
            self.tok(sc, v, form="for")
            self.put(" < ")
            e(1)
            self.put("; ++")
            self.tok(sc, v, form="for")
            self.put(") ")
            self.block(sc, depth)
        elif k == "while":
            self.put("while (")
            e()
            self.put(") ")
            self.block(sc, depth)
        elif k == "do":
            self.put("do ")
            self.block(sc, depth)
            self.put(" while (")
            e()
            self.put(");")

    def string(self, sc, heredoc=False):
        r = self.r
        for _ in range(r.randrange(1, 3)):
            self.put(r.choice(["", "x", "é😀 ", " \\$a ", "{ "]))
            k = r.randrange(9)
            if k == 7:
                self.put("${")
                self.tok(sc, self.ascii_name(), form="${name} in a string", bare=True)
                self.put("}")
            elif k == 8:
                self.put("${")
                self.tok(sc, self.ascii_name(), form="${name[]} in a string", bare=True)
                self.put("[")
                self.tok(sc, form="index in a string")
                self.put("]}")
            elif k == 0:
                self.tok(sc, form="in a string")
                self.put(" ")
            elif k == 1:
                self.tok(sc, form="element in a string")
                self.put("[%s]" % r.choice(["0", "key"]))
            elif k == 2:
                self.tok(sc, form="property in a string")
                self.put("->" + self.word() + " ")
            elif k == 3:
                self.put("{")
                self.tok(sc, form="braces in a string")
                self.put("}")
            elif k == 4:
                self.put("{")
                self.tok(sc, form="braces in a string")
                self.put("->%s['k']}" % self.word())
            elif k == 5:
                self.put("{")
                self.tok(sc, form="braces in a string")
                self.put("[")
                self.tok(sc, form="index in a string")
                self.put("]}")
            else:
                self.tok(sc, form="element in a string")
                self.put("[")
                self.tok(sc, form="index in a string")
                self.put("]")

    def expr(self, sc, depth):
        r = self.r
        if depth <= 0:
            if r.random() < .8:
                self.tok(sc)
            else:
                self.put(r.choice(["1", "'$a'", "null", "X"]))
            return
        e = lambda: self.expr(sc, depth - 1)  # noqa: E731
        k = r.randrange(31)
        if k < 5:
            self.tok(sc)
        elif k == 5:
            self.put('"')
            self.string(sc)
            self.put('"')
        elif k == 6:
            self.tok(sc, form="property of")
            self.put("->" + self.word())
        elif k == 7:
            self.tok(sc, form="method of")
            self.put("->%s(" % self.word())
            e()
            self.put(")")
        elif k == 8:
            self.put(r.choice(["self", "K1", "static", "\\App\\K2"]) + "::")
            self.trap(r.choice(self.names))
        elif k == 9:
            self.put(r.choice(["$o", "$this"]) + "->")
            self.tok(sc, form="member name")
        elif k == 10:
            self.tok(sc, form="called")
            self.put("(")
            e()
            self.put(")")
        elif k == 11:
            self.put("new ")
            self.tok(sc, form="new")
            self.put("(")
            e()
            self.put(")")
        elif k == 12:
            self.tok(sc, form="scope")
            self.put("::")
            if r.random() < .5:
                self.put("X")
            else:
                self.trap(r.choice(self.names))
        elif k == 13:
            self.put("[")
            e()
            self.put(" => ")
            if r.random() < .3:
                self.put("&")
                self.tok(sc, form="reference in an array")
            else:
                e()
            self.put("]")
        elif k == 14:
            self.tok(sc, form="indexed")
            self.put("[")
            e()
            self.put("]")
        elif k == 15:
            self.put(r.choice(["isset(", "empty("]))
            self.tok(sc, form="isset")
            self.put(")")
        elif k == 16:
            self.put(r.choice(["(int) ", "-", "!", "@", "clone ", "print ", "(array)"]))
            self.tok(sc, form="unary")
        elif k == 17:
            self.put("(")
            e()
            self.put(r.choice([" ? ", " ?: "]))
            if self.buf[-1] == " ? ":
                e()
                self.put(" : ")
            e()
            self.put(")")
        elif k == 18:
            self.put("(")
            e()
            self.put(r.choice([" + ", " . ", " && ", " ?? ", " <=> ", " xor "]))
            e()
            self.put(")")
        elif k == 19:
            self.put("(")
            self.tok(sc, form="instanceof")
            self.put(" instanceof ")
            if r.random() < .5:
                self.put("Foo")
            else:
                self.tok(sc, form="instanceof")
            self.put(")")
        elif k in (20, 21, 22):
            self.closure(sc, depth)
        elif k in (23, 24):
            self.arrow(sc, depth)
        elif k == 25:
            self.put("f(")
            e()
            self.put(", ...")
            self.tok(sc, form="spread")
            self.put(")")
        elif k == 26:
            self.put("$")
            self.tok(sc, form="variable variable")
        elif k == 27:
            self.put("${")
            self.tok(sc, form="variable variable")
            self.put("}")
        elif k == 28:
            lab = "EOT%d" % self.uid()
            self.put("f(<<<%s%s\n" % (lab, ""))
            self.string(sc)
            self.put("\n%s\n)" % lab)
        elif k == 29:
            self.put("(")
            self.tok(sc, form="assigned inside")
            u = self.uses[-1]
            self.put(" = ")
            e()
            u.until = self.n
            self.put(")")
        else:
            self.put("new class(")
            e()
            self.put(") {")
            self.members()
            self.put("}")

    def closure(self, sc, depth):
        loops, self.loops = self.loops, []
        self.outer_loops = loops
        self.closure_(sc, depth)
        self.loops = loops

    def closure_(self, sc, depth):
        r = self.r
        f = Scope("closure", sc)
        self.put(r.choice(["", "", "static "]) + "function (")
        ps = r.sample(self.names, r.randrange(0, 2))
        uses = [v for v in r.sample(self.names, r.randrange(0, len(self.names))) if v not in ps]
        f.shared = set(uses)
        self.params(f, ps)
        self.put(")")
        if uses:
            self.put(" use (")
            for i, v in enumerate(uses):
                self.put(", " if i else "")
                if r.random() < .35:
                    self.put("&")
                    self.tok(f, v, "closure use by reference")
                else:
                    self.tok(f, v, "closure use")
            self.put(")")
        self.put(" ")
        self.block(f, min(depth, 2), r.randrange(1, 3))

    def arrow(self, sc, depth):
        r = self.r
        f = Scope("arrow", sc)
        f.base = len(self.loops)
        ps = r.sample(self.names, r.randrange(0, 2))
        f.params = set(ps)
        self.put("(" + r.choice(["", "static "]) + "fn(")
        self.params(f, ps)
        self.put(") => ")
        self.expr(f, depth - 1)
        self.put(")")
