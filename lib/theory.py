"""Independent statement of the linear-theory two-point function.

Every contribution is a differential operator acting on one Gaussian field
P = inverse-Laplacian of the density; correlating two of them is applying both
operators to <P P>(r).  With F_m = (1/r d/dr)^m <PP>,
  F_m = (-1)^m r^(4-2m) I^(4-m)_m ,   I^n_l(r) = Int dk k^2/(2 pi^2) P(k) j_l(kr)/(kr)^n,
and the recurrence  I^n_(l-1) + I^n_(l+1) = (2l+1) I^(n+1)_l  everything is a
polynomial in the geometry times five radial functions.
No formula is taken from the program."""
from fractions import Fraction
from itertools import combinations

import z3

from symex import toz, isz

Q = Fraction


def pairings(idx):
    """all (pairs, unpaired) of a list of indices"""
    idx = list(idx)
    if not idx:
        yield [], []
        return
    h, t = idx[0], idx[1:]
    for p, u in pairings(t):
        yield p, [h] + u
    for j in range(len(t)):
        for p, u in pairings(t[:j] + t[j + 1:]):
            yield [(h, t[j])] + p, u


class Theory:
    """algebra over an Exec's atoms"""

    def __init__(self, ex):
        self.ex = ex

    # --- radial functions: dict base -> z3 term;  base in 40,31,22,13,04 (stored normalisation r^(n-l) if n>l)
    def basis(self, r, ren=None):
        ex = self.ex
        I = lambda n, l: ex.uf("I(%d,%d)" % (n, l), r)
        B = {"40": I(4, 0), "31": I(3, 1), "22": I(2, 2), "13": I(1, 3), "04": I(0, 4)}
        if ren is not None:
            B["40"] = B["40"] - ren
        return B

    def reduce(self, r, r2):
        """rules rewriting the other stored integrals in terms of the five (z3 substitutions)"""
        ex = self.ex
        I = lambda n, l: ex.uf("I(%d,%d)" % (n, l), r)
        i22, i13, i04, i31 = I(2, 2), I(1, 3), I(0, 4), I(3, 1)
        i11 = 5 * i22 - i13
        i02 = 7 * i13 - i04
        i00 = 3 * i11 - i02
        i20 = 3 * i31 - toz(r2) * i22
        return [(I(1, 1), i11), (I(0, 2), i02), (I(0, 0), i00), (I(2, 0), i20)]

    def F(self, B, m, ir2):
        """(1/r d/dr)^m <PP>, ir2 = 1/r^2"""
        if m == 0:
            return B["40"]
        if m == 1:
            return -B["31"]
        if m == 2:
            return B["22"]
        if m == 3:
            return -B["13"] * toz(ir2)
        if m == 4:
            return B["04"] * toz(ir2) * toz(ir2)
        raise ValueError(m)

    def deriv(self, B, vecs, ur, uu, r2, ir2, lap):
        """apply directional derivatives vecs (names) and lap Laplacians to <PP>; ur[v] = v.r, uu[(v,w)] = v.w"""
        # Laplacian as a sum over a basis: treat radial operator exactly through F recursion:
        # lap^k <PP> has its own tower  L_m = r^2 F_(m+2) + (2m+3) F_(m+1)  applied k times
        def tower(k, m):
            if k == 0:
                return self.F(B, m, ir2)
            return toz(r2) * tower(k - 1, m + 2) + (2 * m + 3) * tower(k - 1, m + 1)
        out = z3.RealVal(0)
        n = len(vecs)
        for pr, un in pairings(range(n)):
            t = None
            for i, j in pr:
                x = toz(uu[tuple(sorted((vecs[i], vecs[j])))])
                t = x if t is None else t * x
            for i in un:
                x = toz(ur[vecs[i]])
                t = x if t is None else t * x
            w = tower(lap, len(pr) + len(un))
            out = out + (w if t is None else t * w)
        return out

    def correlate(self, ops1, ops2, B, chi1, chi2, cos, r2, ir2):
        """ops: list of (coefficient, number of n.grad, number of Laplacians)"""
        ur = {"1": -(toz(chi2) * toz(cos) - toz(chi1)),      # n1.grad_1 = -n1.grad_r
              "2": toz(chi2) - toz(chi1) * toz(cos)}
        uu = {("1", "1"): Q(1), ("2", "2"): Q(1), ("1", "2"): -toz(cos)}
        out = z3.RealVal(0)
        for c1, d1, l1 in ops1:
            for c2, d2, l2 in ops2:
                out = out + toz(c1) * toz(c2) * self.deriv(B, ["1"] * d1 + ["2"] * d2, ur, uu, r2, ir2, l1 + l2)
        return out
