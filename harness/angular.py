"""Exact angular-momentum oracles of the harnesses, written independently of the package and of sympy.

`six_sum` and `three_sum` are the alternating sums of Racah's formulas without their (positive) square-root factors, so
that they vanish exactly where the coefficient does; they work on numbers and on symbolic values alike as long as the
differences of the momenta are concrete."""
from fractions import Fraction
from math import factorial


def prod(xs):
    out = 1
    for x in xs:
        out = out * x
    return out


def six_sum(J, I, n, dJ, dF, k):
    """proportional (with a positive factor up to sign) to {J F I; F' J' k}, F = J-I+n, F' = F+dF, J' = J+dJ, when
    the triangle rules hold"""
    al = [n, dJ + k, 2 * n - 2 * I + dF + k, n + dF + dJ]
    be = [n + dJ + k, n + dF + k]
    lo, hi = int(max(al)), int(min(be))
    tot = 0
    for u in range(lo, hi + 1):
        term = (-1) ** u / prod(float(factorial(int(u - a))) for a in al)
        term = term / prod(float(factorial(int(b - u))) for b in be)
        term = term * prod(2 * J + i + 1 for i in range(lo + 1, u + 1))
        term = term * prod(2 * J - 2 * I + 2 * n + dF + dJ - lo - i for i in range(u - lo))
        tot = tot + term
    return tot


def three_sum(F, s, k, dF, q):
    """proportional to (F k F'; -m q m') with F' = F + dF, m = F - s, m' = m - q, when the selection rules hold.
    Racah: t with factors t! (F+k-F'-t)! (F+m-t)! (k+q-t)! (F'-k-m+t)! (F'-F-q+t)!, written for (F, -m) first"""
    # (j1 j2 j3; m1 m2 m3), j1=F m1=-m, j2=k m2=q, j3=F' m3=m'
    # sum_t (-1)^t / [t! (j1+j2-j3-t)! (j1-m1-t)! (j2+m2-t)! (j3-j2+m1+t)! (j3-j1-m2+t)!]
    a = k - dF                  # j1+j2-j3
    b = k + q                   # j2+m2
    c = dF - q                  # j3-j1-m2
    d = dF - k + s              # j3-j2+m1  (m1 = -F+s)
    lo = max(0, -c, -d) if isinstance(s, (int, float)) else max(0, -c)
    hi = min(a, b)
    tot = 0
    # 1/(2F-s-t)! relative to t=lo: falling product; 1/(d+t)! relative to t=hi: rising product
    for t in range(int(lo), int(hi) + 1):
        term = (-1) ** t / float(factorial(t) * factorial(int(a - t)) * factorial(int(b - t)) * factorial(int(c + t)))
        term = term * prod(2 * F - s - i for i in range(int(lo), t))
        term = term * prod(d + i for i in range(t + 1, int(hi) + 1))
        tot = tot + term
    return tot


def fact(x):
    return factorial(int(x))


def integer(x):
    return x == int(x)


def tri2(a, b, c):
    return a + b >= c and b + c >= a and c + a >= b and integer(a + b + c)


def delta(a, b, c):
    return Fraction(fact(a + b - c) * fact(a - b + c) * fact(-a + b + c), fact(a + b + c + 1))


def sixj(a, b, c, d, e, f):
    """(sign, square) of a concrete 6j symbol"""
    if not (tri2(a, b, c) and tri2(a, e, f) and tri2(d, b, f) and tri2(d, e, c)):
        return 0, Fraction(0)
    al = [a + b + c, a + e + f, d + b + f, d + e + c]
    be = [a + b + d + e, b + c + e + f, a + c + d + f]
    s = Fraction(0)
    t = max(al)
    while t <= min(be):
        s += Fraction((-1) ** int(t) * fact(t + 1),
                      prod(fact(t - x) for x in al) * prod(fact(x - t) for x in be))
        t += 1
    sq = delta(a, b, c) * delta(a, e, f) * delta(d, b, f) * delta(d, e, c) * s * s
    return (s > 0) - (s < 0), sq


def threej(j1, j2, j3, m1, m2, m3):
    """(sign, square) of a concrete 3j symbol"""
    if m1 + m2 + m3 != 0 or not tri2(j1, j2, j3):
        return 0, Fraction(0)
    for j, m in ((j1, m1), (j2, m2), (j3, m3)):
        if abs(m) > j or not integer(j - m):
            return 0, Fraction(0)
    s = Fraction(0)
    t = max(0, j2 - j3 - m1, j1 - j3 + m2)
    while t <= min(j1 + j2 - j3, j1 - m1, j2 + m2):
        s += Fraction((-1) ** int(t), fact(t) * fact(j1 + j2 - j3 - t) * fact(j1 - m1 - t) * fact(j2 + m2 - t)
                      * fact(j3 - j2 + m1 + t) * fact(j3 - j1 - m2 + t))
        t += 1
    sq = delta(j1, j2, j3) * prod(fact(j + m) * fact(j - m) for j, m in ((j1, m1), (j2, m2), (j3, m3))) * s * s
    sg = (s > 0) - (s < 0)
    return (sg if int(j1 - j2 - m3) % 2 == 0 else -sg), sq


def value(sgsq):
    return sgsq[0] * float(sgsq[1]) ** 0.5
