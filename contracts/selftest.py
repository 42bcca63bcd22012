"""Soundness checks of the verifier itself: small functions with claims that are false (must never be proved).  Not a property; run by
tests/engine.py."""
from pyvc.harness import Raised, contract
from pyvc.terms import *
from pyvc.values import S
from pyvc.z3load import z3
HERE = "contracts.selftest."


def late_write(n):
    flag, out = False, [0.0]
    for i in range(n):
        if flag:
            out[0] = 1.0
        flag = True
    return out[0]


@contract("SELF", HERE + "late_write")
def false_late_write(c):
    n = c.int("n", lo=0)
    c.ensure("false", zr(c.returns(c.call(HERE + "late_write", n))) == 0)


def late_var(n):
    k, out = 0, 5.0
    for i in range(n):
        if k > 3:
            out = 7.0
        k += 1
    return out


@contract("SELF", HERE + "late_var")
def false_late_var(c):
    n = c.int("n", lo=0)
    c.ensure("false", zr(c.returns(c.call(HERE + "late_var", n))) == 5)


def recursion(n):
    out = [1.0]
    for i in range(n):
        out.append(out[-1] + 1)
    return out


@contract("SELF", HERE + "recursion")
def false_recursion(c):
    n = c.int("n", lo=0)
    r = c.call(HERE + "recursion", n)
    c.raises(r, TypeError)


def prefix_equal(n):
    out, same = [1.0], 0
    for i in range(n):
        same += 1 if out[i] == 1.0 else 0
        out.append(1.0)
    return same


@contract("SELF", HERE + "prefix_equal")
def false_prefix_equal(c):
    n = c.int("n", lo=0)
    c.ensure("false", zi(c.returns(c.call(HERE + "prefix_equal", n))) == 0)


def raises_late(n):
    k = 0
    for i in range(n):
        if k > 2:
            raise ValueError
        k = 1
    return k


@contract("SELF", HERE + "raises_late")
def false_raises(c):
    n = c.int("n", lo=3)
    c.raises(c.call(HERE + "raises_late", n), ValueError)


def constant_list(n):
    names = None
    for i in range(n):
        if names is None:
            names = ["a", "b"]
        else:
            names.append("c")
    return names


@contract("SELF", HERE + "constant_list")
def false_constant_list(c):
    "the list that the loop keeps is changed later"
    n = c.int("n", lo=2)
    c.ensure("false", zb(len(c.returns(c.call(HERE + "constant_list", n)).items) == 2))


def first_names(n):
    names = None
    for i in range(n):
        if names is None and i > 1:
            names = ["a", "b"]
    return names


@contract("SELF", HERE + "first_names")
def true_first_names(c):
    n = c.int("n", lo=3)
    S.skolems += [zi(2), zi(3)]
    r = c.returns(c.call(HERE + "first_names", n))
    c.ensure("the names", zb(r is not None and r.items == ["a", "b"]))


@contract("SELF", HERE + "first_names")
def false_first_names(c):
    n = c.int("n", lo=1)
    c.ensure("false", zb(c.returns(c.call(HERE + "first_names", n)) is not None))


def attribute_late(n):
    b = Counter()
    for i in range(n):
        b.count = b.count + 1
    return b.count


class Counter:
    def __init__(self):
        self.count = 0


@contract("SELF", HERE + "attribute_late")
def false_attribute(c):
    "an attribute carried from one iteration to the next"
    n = c.int("n", lo=2)
    c.ensure("false", zi(c.returns(c.call(HERE + "attribute_late", n))) == 1)


def leaves_early(n):
    k = 0
    try:
        for i in range(n):
            k += 1
            if i == 3:
                raise ValueError
    except ValueError:
        pass
    return k


@contract("SELF", HERE + "leaves_early")
def false_leaves_early(c):
    "what a loop left by an exception has computed"
    n = c.int("n", lo=5)
    c.ensure("false", zi(c.returns(c.call(HERE + "leaves_early", n))) == n)


def steps(n):
    return [x for x in range(0, n, 3)]


@contract("SELF", HERE + "steps")
def false_steps(c):
    n = c.int("n", lo=4)
    r = c.returns(c.call(HERE + "steps", n))
    c.ensure("false", zi(r.length()) * 3 == n)


@contract("SELF", HERE + "steps")
def true_steps(c):
    n = c.int("n", lo=4)
    r = c.returns(c.call(HERE + "steps", n))
    c.ensure("number", z3.And(zi(r.length()) * 3 >= n, zi(r.length()) * 3 < n + 3))
    i = c.skolem(r.length())
    c.ensure("entries", zi(r.get(i)) == 3 * i)


def numbered(n):
    return dict(enumerate(range(5, 5 + n)))[3]


@contract("SELF", HERE + "numbered")
def false_numbered(c):
    n = c.int("n", lo=4)
    c.ensure("false", zi(c.returns(c.call(HERE + "numbered", n))) == 7)
