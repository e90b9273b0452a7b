"""C10: names resolve as PHP resolves them."""
from checks import nav
from vlib import core

case = nav.nav_case(("class", "doctype", "parent", "function", "constant"), "C10")


def run_case(box, c, p):
    case(box, c, p)


def main():
    ck = core.Check("C10", rule="distinct (name as written, its kind, its target, text of the file it is in); each is asked by definition, "
                    "half of them by hover", assumptions=["names which PHP would reject or which are not written in their declared case are not generated"])
    b = core.build_server()
    ck.run_cases("names", run_case, [dict(seed=ck.seed, i=i) for i in range(ck.n(220, 4000))], binary=b)
    ck.finish()
