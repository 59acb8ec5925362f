"""The scalar functions of the master equations, written from their definitions (independent of the code)."""
from functools import lru_cache

import numpy as np
from scipy.integrate import quad
from scipy.special import psi

PI = np.pi


def fermi(x):
    if x > 700:
        return 0.
    return 1 / (np.exp(x) + 1)


def softlog(x):
    """log(1 + exp(-x))"""
    return np.logaddexp(0., -x)


def _pv(f, a, lo, hi, feats=()):
    """Principal value of the integral of f(x)/(x - a) over [lo, hi]."""
    brk = sorted({lo, hi} | {p for p in (list(feats) + [a, a - 1, a + 1, a - 8, a + 8]) if lo < p < hi})
    inside = lo < a < hi
    fa = f(a) if inside else 0.

    def g(x):
        if abs(x - a) < 1e-9:
            h = 1e-4
            return (f(a + h) - f(a - h)) / (2 * h) if inside else f(x) / (x - a)
        return (f(x) - fa) / (x - a)
    tot = 0.
    for p, q in zip(brk[:-1], brk[1:]):
        tot += quad(g, p, q, epsabs=1e-11, epsrel=1e-11, limit=400)[0]
    if inside:
        tot += fa * np.log(abs((hi - a) / (lo - a)))
    return tot


@lru_cache(100000)
def pauli(E, mu, T, Dm, Dp, itype):
    """Golden-rule rates per squared amplitude: into the dot, out of the dot."""
    if itype in (1, 3) or Dm < E < Dp:
        f = fermi((E - mu) / T)
        return 2 * PI * f, 2 * PI * (1 - f)
    return 0., 0.


@lru_cache(100000)
def first_order(E, mu, T, Dm, Dp, itype):
    """Complex amplitudes (F0, F1, G0, G1) of 1vN/Redfield: particle, hole, and weighted with energy."""
    a = (E - mu) / T
    band = Dm < E < Dp
    f = fermi(a)
    if itype == 0:
        lo, hi = (Dm - mu) / T, (Dp - mu) / T
        c0 = _pv(fermi, a, lo, hi, (0., -8., 8., -30., 30.)) - (1j * PI * f if band else 0)
        c1 = c0 + np.log(abs((lo - a) / (hi - a))) + (1j * PI if band else 0)
        k0 = T * (softlog(lo) - softlog(hi))
        return c0, c1, k0 + E * c0, k0 + Dm - Dp + E * c1
    if itype == 1:
        c0 = psi(0.5 + 1j * a / (2 * PI)).real - np.log(abs(Dm) / T / (2 * PI)) - 1j * PI * f
        c1 = c0 + np.log(abs(Dm / Dp)) + 1j * PI
        return c0, c1, -Dm + E * c0, -Dp + E * c1
    if itype == 2:
        c0 = -1j * PI * f if band else 0.
        c1 = c0 + (1j * PI if band else 0)
    else:
        c0 = -1j * PI * f
        c1 = c0 + 1j * PI
    return c0, c1, E * c0, E * c1


def bose(x):
    return 1 / np.expm1(x) if x < 700 else 0.


def _phonon_scale(E, T, om, op, eps):
    a = max(abs(E / T), eps) * (1 if E >= 0 else -1)
    return a, max(om / T, 0.9 * eps), op / T


def phonon_rate(E, T, om, op, dos, eps):
    """Golden-rule rate per squared coupling of a phonon process that raises the dot energy by E."""
    a, lo, hi = _phonon_scale(E, T, om, op, eps)
    if lo < a < hi:
        return 2 * PI * bose(a) * dos(T * a)
    if lo < -a < hi:
        return 2 * PI * (1 + bose(-a)) * dos(-T * a)
    return 0.


def phonon_first_order(E, T, om, op, itype, dos, eps):
    a, lo, hi = _phonon_scale(E, T, om, op, eps)

    def plus(x):
        return dos(T * x) * bose(x)

    def minus(x):
        return -dos(T * x) * (1 + bose(x))
    if itype == 0:
        feats = [lo * 2, lo * 10, lo * 100, lo * 1e3, lo * 1e4, .01, .1, 1., 5., 30.]
        return tuple(_pv(f, a, lo, hi, feats) + (-1j * PI * f(a) if lo < a < hi else 0) for f in (plus, minus))
    return tuple(-1j * PI * f(a) if lo < a < hi else 0. for f in (plus, minus))
