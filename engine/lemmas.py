#!/usr/bin/env python3-vt
"""Lemmas the engine uses as axioms, proved here over the mathematical integers.

absdiv (machine.py) represents x / y and x % y (unsigned) by uninterpreted functions with these
facts; unsigned machine division is integer division, so proofs over Int carry over."""
import sys
import z3

x, y, q, r, a, b, k = z3.Ints('x y q r a b k')
DIV = z3.And(x >= 0, y > 0, x == y * q + r, 0 <= r, r < y)
LEMMAS = [
    # q >= 0: otherwise y*q <= -y
    ('div_nonneg', DIV, q >= 0, [z3.Implies(q <= -1, y * q <= -y)]),
    ('div_le', z3.And(DIV, q >= 0), q <= x, [z3.Implies(z3.And(q >= 0, y >= 1), y * q >= q)]),
    ('rem_lt', DIV, z3.And(r < y, 0 <= r), []),
    ('rem_le', z3.And(DIV, q >= 0), r <= x, [z3.Implies(z3.And(q >= 0, y >= 1), y * q >= 0)]),
    ('div_half', z3.And(DIV, q >= 0, y >= 2), 2 * q <= x, [z3.Implies(z3.And(q >= 0, y >= 2), y * q >= 2 * q)]),
    ('div_small', z3.And(DIV, q >= 0, x < y), z3.And(q == 0, r == x), [z3.Implies(q >= 1, y * q >= y)]),
    ('div_big', z3.And(DIV, x >= y), q != 0, []),
    # (x / y) / b = x / (y * b): the two-step quotient and remainder satisfy the definition of the one-step division
    ('div_div', z3.And(DIV, b > 0, q == b * a + k, 0 <= k, k < b),
     z3.And(x == (y * b) * a + (y * k + r), 0 <= y * k + r, y * k + r < y * b),
     [y * (b * a + k) == (y * b) * a + y * k, z3.Implies(k <= b - 1, y * k <= y * (b - 1)), y * (b - 1) == y * b - y, z3.Implies(k >= 0, y * k >= 0)]),
]
# the hints above, each proved separately (products of non-negative factors)
HINTS = [
    ('h1', z3.And(q <= -1, y > 0), y * q <= -y),
    ('h2', z3.And(q >= 0, y >= 1), y * q >= q),
    ('h3', z3.And(q >= 0, y >= 1), y * q >= 0),
    ('h4', z3.And(q >= 0, y >= 2), y * q >= 2 * q),
    ('h6', z3.BoolVal(True), y * (b * a + k) == (y * b) * a + y * k),
    ('h7', z3.And(k <= b - 1, y > 0), y * k <= y * (b - 1)),
    ('h8', z3.BoolVal(True), y * (b - 1) == y * b - y),
    ('h9', z3.And(k >= 0, y > 0), y * k >= 0),
    ('h5', z3.And(q >= 1, y > 0), y * q >= y),
]


def prove(name, hyp, goal, hints=()):
    s = z3.Solver()
    s.set('timeout', 20000)
    s.add(hyp, *hints)
    s.add(z3.Not(goal))
    res = s.check()
    if res != z3.unsat:
        print('LEMMA NOT PROVED', name, res)
        return False
    return True


def main():
    ok = True
    for n, h, g in HINTS:
        ok &= prove(n, h, g)
    for n, h, g, hints in LEMMAS:
        ok &= prove(n, h, g, hints)
    try:
        import extra_lemmas
        ok &= extra_lemmas.main(prove)
    except ImportError:
        pass
    print('lemmas:', 'all proved' if ok else 'FAILED')
    return 0 if ok else 1


if __name__ == '__main__':
    sys.exit(main())
