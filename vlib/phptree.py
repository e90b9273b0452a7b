"""Random PHP files in which declarations are nested in everything that can hold one, and the tree of them."""
from .phpgen import Out, WRAPS, CWRAPS, NOISE, lsp_range
from . import corpus

CLASS, METHOD, PROP, IFACE, FUNC, CONST = 5, 6, 7, 11, 12, 14
WORDS = ["heron", "ibex", "quoll", "newt", "tapir", "okapi", "loris", "gecko", "zorilla", "été", "ñandú", "vole2", "x9"]
# statements: before, after of a block
BLOCKS = [("if (1) {\n", "}\n"), ("if (1) { f(); } else {\n", "}\n"), ("if (1) { f(); } elseif (2) {\n", "} else { g(); }\n"),
          ("if (1):\n", "endif;\n"), ("if (1): f(); else:\n", "endif;\n"), ("while ($a) {\n", "}\n"), ("while ($a):\n", "endwhile;\n"),
          ("do {\n", "} while ($a);\n"), ("for ($i = 0; $i < 2; $i++) {\n", "}\n"), ("for ($i = 0; ; ):\n", "endfor;\n"),
          ("foreach ($a as $k => $v) {\n", "}\n"), ("foreach ($a as $v):\n", "endforeach;\n"), ("switch ($a) { case 1:\n", " break; default: }\n"),
          ("switch ($a): default:\n", "endswitch;\n"), ("try {\n", "} finally { }\n"), ("try { } catch (\\Exception $e) {\n", "}\n"),
          ("try { } catch (A | B $e) { } finally {\n", "}\n"), ("declare(ticks=1) {\n", "}\n"), ("{\n", "}\n"), ("lbl%d: ", "goto lbl%d;\n")]
CLOSURES = [("$f = function () {\n", "};\n"), ("$f = static function ($a) use (&$b, $c) {\n", "};\n"), ("f(1, function () {\n", "});\n"),
            ("return function (): int {\n", "};\n"), ("$a = ['k' => function () {\n", "}];\n"), ("(function () {\n", "})();\n"),
            ("$o->m(function ($x = [1]) {\n", "})->n();\n"), ("C::m(1, static function () {\n", "}, 2);\n")]
LINES = ["$a = \"}{ class Fake {\"; \n", "f($a, \"{$b->c} function fake() {\");\n", "# class Fake {\n", "// function fake() {\n", "/* const FAKE = 1; */\n",
         "/** class Fake */\n", "$s = <<<EOT\nclass Fake { function x() {} }\ndefine('FAKE', 1);\nEOT;\n",
         "?> class Fake { function fake() {} } é😀 <?php\n", "$class = $function . 'class Fake {}';\n", "echo Fake::class, $a->class->const;\n",
         "$x = '\\'; class Fake {}';\n", "f(function () { return 1; });\n", "$a->define('FAKE', 1); A::define('FAKE', 2); \n", "static $st = 1, $st2;\n",
         "use_fake(); $interface->trait(); \n", "$q = fn($x) => $x * 2;\n", "global $gl;\n", "unset($a); ; ;\n", ""]
SOFT = ["list", "print", "use", "echo", "default", "switch", "namespace", "clone", "new"]


class Decl:
    def __init__(self, kind, name, full, parent, container=None, anon=False, what=None):
        self.kind, self.name, self.full, self.parent, self.container, self.anon = kind, name, full, parent, container, anon
        self.what = what
        self.children = []
        self.span = None

    def __repr__(self):
        return "%s %s at %s" % (self.what, self.full, self.span)


class Tree:
    def __init__(self, r, rel, salt, size=14, eol=None):
        self.r, self.rel, self.salt = r, rel, salt
        self.eol = eol or r.choice(["\n", "\n", "\r\n", "\r"])
        self.o = Out(self.eol)
        self.n = 0
        self.left = size
        self.again = 0
        self.roots = []
        self.all = []
        self.forms = set()
        o = self.o
        if r.random() < .15:
            o.put("<html> class Fake { é😀\n")
        o.put("<?php\n")
        self.ns = ""
        style = r.choice(["none", "none", "one", "many", "braced"])
        if style == "none":
            self.block(None, 0, True)
        elif style == "one":
            self.ns = r.choice(["Zoo", "Zoo\\Ñu", "Z\\Y\\X"])
            o.put("namespace %s;\n" % self.ns)
            self.block(None, 0, True)
        else:
            for k in range(r.randrange(2, 4)):
                self.ns = ["Zoo", "Zoo\\Sub", ""][k] if style == "braced" else ["Zoo", "Zoo\\Sub", "Ab\\C"][k]
                o.put("namespace %s%s\n" % (self.ns, " {" if style == "braced" else ";"))
                self.left = size // 2
                self.block(None, 0, True)
                if style == "braced":
                    o.put("}\n")
        self.text = o.text()

    def fresh(self, case="lower", within=None):
        """A name; some have been used for something else before (but not within the same declaration)."""
        r = self.r
        if r.random() < .12:
            taken = {d.name.lower() for d in within.children} if within else set()
            old = [d.name.lstrip("$") for d in self.all if d.name and not d.name.startswith("__") and d.name.lower() not in taken]
            if old:
                self.again += 1
                return r.choice(old)
        self.n += 1
        w = r.sample(WORDS, r.choice([1, 1, 2]))
        s = "%s%d" % (self.salt, self.n)
        if case == "upper":
            return "_".join(w + [s]).upper()
        if case == "camel":
            return "".join(x.capitalize() for x in w) + s.capitalize()
        k = r.random()
        if k < .4:
            return w[0] + "".join(x.capitalize() for x in w[1:]) + s.capitalize()
        return ("_" if k > .9 else "") + "_".join(w + [s])

    def fqn(self, name):
        return "\\" + (self.ns + "\\" if self.ns else "") + name

    def add(self, kind, name, full, parent, what, **kw):
        d = Decl(kind, name, full, parent, what=what, **kw)
        (parent.children if parent else self.roots).append(d)
        self.all.append(d)
        self.left -= 1
        return d

    def block(self, parent, depth, top=False):
        r = self.r
        for _ in range(r.randrange(2, 6) if top else r.randrange(1, 4)):
            self.statement(parent, depth, top)

    def statement(self, parent, depth, top):
        r, o = self.r, self.o
        if r.random() < .25:
            o.put(r.choice(NOISE))
        if self.left <= 0 or depth > 6:
            o.put(r.choice(LINES))
            return
        k = r.choice(["class", "class", "iface", "trait", "func", "func", "define", "anon", "closure", "block", "block", "line"] + (["const"] * 2 if top else []))
        getattr(self, "s_" + k)(parent, depth)

    def s_line(self, parent, depth):
        self.o.put(self.r.choice(LINES))

    def s_block(self, parent, depth):
        a, b = self.r.choice(BLOCKS)
        self.forms.add(a)
        if "%d" in a:
            self.n += 1
            a, b = a % self.n, b % self.n
        self.o.put(a)
        self.block(parent, depth + 1)
        self.o.put(b)

    def s_closure(self, parent, depth):
        a, b = self.r.choice(CLOSURES)
        self.forms.add(a)
        self.o.put(a)
        self.block(parent, depth + 1)
        self.o.put(b)

    def s_define(self, parent, depth):
        r, o = self.r, self.o
        a, b = r.choice(WRAPS) if r.random() < .5 else ("", "")
        if "{$q[" in a:
            a, b = "", ""
        name = self.fresh("upper")
        full = "\\" + name
        lit = name
        if r.random() < .3:
            full, lit = "\\Zoo\\" + name, "Zoo\\\\" + name
        o.put(a)
        self.forms.add(a)
        d = self.add(CONST, name, full, parent, "define")
        p = o.pos()
        q = r.choice(["'", '"'])
        o.put("%s(%s%s%s, %s)" % (r.choice(["define", "define", "\\define"]), q, lit, q, r.choice(["1", "'v'", "[1, 2]", "A::B", "1 + 2", "true, false"])))
        d.span = (p, o.pos())
        o.put(b + ";\n")

    def s_const(self, parent, depth):
        r, o = self.r, self.o
        o.put("const ")
        for k in range(r.choice([1, 1, 2, 3])):
            if k:
                o.put(", ")
            name = self.fresh("upper")
            d = self.add(CONST, name, self.fqn(name), parent, "const")
            p = o.pos()
            o.put("%s = %s" % (name, r.choice(["1", "'}{'", "[1, 2]", "A::B", "1 << 2"])))
            d.span = (p, o.pos())
        o.put(";\n")

    def s_func(self, parent, depth):
        r, o = self.r, self.o
        if r.random() < .3:
            o.put("/** é\n * function fake() {}\n */\n")
        name = self.fresh()
        d = self.add(FUNC, name, self.fqn(name), parent, "function")
        p = o.pos()
        o.put("function %s%s(%s)%s {\n" % (r.choice(["", "", "&", "& "]), name, r.choice(["", "$a", "int $a, ?\\X $b = null", "...$a", "&$a = [1], $b = A::B"]),
                                         r.choice(["", ": int", ": ?X", " : \\A\\B"])))
        if r.random() < .7:
            self.block(d, depth + 1)
        o.put("}")
        d.span = (p, o.pos())
        o.put("\n")

    def members(self, d, depth, kind):
        r, o = self.r, self.o
        for _ in range(r.randrange(0, 5)):
            if r.random() < .2:
                o.put(r.choice(["/** é */ ", "// class Fake {\n", "# x\n", "/* function fake(); */ "]))
            k = r.choice(["method", "method", "const", "prop", "prop", "use"])
            if kind == "iface" and k in ("prop", "use") or kind == "trait" and k == "const":
                continue
            if k == "use":
                o.put(r.choice(["use Ta, \\Tb;\n", "use Ta { Ta::fake as fake2; fake3 as protected; }\n", "use Ta { a as private b; Ta::c insteadof Tb; }\n"]))
            elif k == "const":
                o.put(r.choice(["", "", "public ", "private ", "protected "] if kind != "iface" else ["", "public "]) + "const ")
                for i in range(r.choice([1, 1, 2])):
                    if i:
                        o.put(r.choice([", ", ",\n"]))
                    name = self.fresh("upper", d)
                    m = self.add(CONST, name, name, d, "class constant", container=d)
                    p = o.pos()
                    o.put("%s = %s" % (name, r.choice(["1", "'}'", "[self::A]", "1 + X"])))
                    m.span = (p, o.pos())
                o.put(";\n")
            elif k == "prop":
                o.put(r.choice(["public ", "private ", "protected ", "var ", "static ", "public static ", "private static "]))
                for i in range(r.choice([1, 1, 2])):
                    if i:
                        o.put(", ")
                    name = "$" + self.fresh("lower", d)
                    m = self.add(PROP, name, name, d, "property", container=d)
                    p = o.pos()
                    o.put(name + r.choice(["", " = 1", " = [1, '{']", " = self::A"]))
                    m.span = (p, o.pos())
                o.put(";\n")
            else:
                name = self.fresh("lower", d)
                if r.random() < .1:
                    name = r.choice(["__construct", "__get"])
                    if any(x.name == name for x in d.children):
                        continue
                abstract = kind == "iface" or r.random() < .15 and kind in ("trait", "abstract")
                m = self.add(METHOD, name, name, d, "method", container=d)
                p = o.pos()
                mods = r.choice(["", "public ", "public static ", "static "]) if kind == "iface" else r.choice(
                    ["", "public ", "protected ", "private static ", "final public ", "static "]) if not abstract else r.choice(["abstract ", "abstract public ", "protected abstract "])
                o.put("%sfunction %s%s(%s)%s" % (mods, r.choice(["", "", "&"]), name, r.choice(["", "$a", "int $a, $b = 1", "self $c"]), r.choice(["", "", ": self", ": ?int"])))
                if abstract:
                    o.put(";")
                else:
                    o.put(" {\n")
                    if r.random() < .5:
                        self.block(m, depth + 1)
                    o.put("}")
                m.span = (p, o.pos())
                o.put("\n")

    def s_class(self, parent, depth):
        r, o = self.r, self.o
        if r.random() < .3:
            o.put("/** class Fake {} */\n")
        name = self.fresh("camel")
        d = self.add(CLASS, name, self.fqn(name), parent, "class")
        p = o.pos()
        mod = r.choice(["", "", "abstract ", "final "])
        o.put("%sclass %s%s%s {\n" % (mod, name, r.choice(["", " extends \\X", " extends X\\Y"]), r.choice(["", " implements I, \\J\\K"])))
        self.members(d, depth + 1, "abstract" if mod == "abstract " else "class")
        o.put("}")
        d.span = (p, o.pos())
        o.put("\n")

    def s_iface(self, parent, depth):
        r, o = self.r, self.o
        name = self.fresh("camel")
        d = self.add(IFACE, name, self.fqn(name), parent, "interface")
        p = o.pos()
        o.put("interface %s%s {\n" % (name, r.choice(["", " extends \\X, Y"])))
        self.members(d, depth + 1, "iface")
        o.put("}")
        d.span = (p, o.pos())
        o.put("\n")

    def s_trait(self, parent, depth):
        r, o = self.r, self.o
        name = self.fresh("camel")
        d = self.add(CLASS, name, self.fqn(name), parent, "trait")
        p = o.pos()
        o.put("trait %s {\n" % name)
        self.members(d, depth + 1, "trait")
        o.put("}")
        d.span = (p, o.pos())
        o.put("\n")

    def s_anon(self, parent, depth):
        r, o = self.r, self.o
        a, b = r.choice(WRAPS + CWRAPS)
        if "{$q[" in a or "class {" in a or r.random() < .3:
            a, b = "$q = ", ""
        self.forms.add(a)
        o.put(a + "new ")
        d = self.add(CLASS, "", "", parent, "anonymous class", anon=True)
        p = o.pos()
        o.put("class%s%s%s {\n" % (r.choice(["", "()", "(1, $a)"]), r.choice(["", " extends \\X"]), r.choice(["", " implements I"])))
        self.members(d, depth + 1, "class")
        o.put("}")
        d.span = (p, o.pos())
        o.put(b + ";\n")
