"""Series of the geodesic integrals on the ellipsoid, derived from the integrals in exact arithmetic.

Polynomials are dicts from (power of eps, power of n) to Fractions; Fourier series are lists of them, cos(2 l sigma) at l."""
from fractions import Fraction as F

ORDER = 6


def add(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
    return {k: v for k, v in r.items() if v}


def mul(a, b, order=ORDER, total=False):
    r = {}
    for (i, j), v in a.items():
        for (k, m), w in b.items():
            if i + k <= order and (not total or i + k + j + m <= order):
                r[i + k, j + m] = r.get((i + k, j + m), 0) + v * w
    return {k: v for k, v in r.items() if v}


def inv(a, order=ORDER, total=False):
    """1 / a for a series with constant term"""
    c = a[0, 0]
    rest = {k: -v / c for k, v in a.items() if k != (0, 0)}
    out, p = {(0, 0): F(1)}, {(0, 0): F(1)}
    for _ in range(2 * order + 2):
        p = mul(p, rest, order, total)
        if not p:
            break
        out = add(out, p)
    return {k: v / c for k, v in out.items()}


def binom(r, m):
    x = F(1)
    for i in range(m):
        x = x * (r - i) / (i + 1)
    return x


def modulus(r):
    """|1 - eps e^(2 i sigma)|^(2 r) as cosine series: [constant, coefficient of cos 2 sigma, ...]"""
    a = [binom(r, m) * (-1) ** m for m in range(ORDER + 1)]
    out = []
    for l in range(ORDER + 1):
        out.append({(2 * m + l, 0): (1 if l == 0 else 2) * a[m] * a[m + l] for m in range(ORDER + 1) if m + l <= ORDER and 2 * m + l <= ORDER})
    return out


def integral(cos):
    """constant A and coefficients of sin(2 l sigma) in the integral, divided by A"""
    A = cos[0]
    i = inv(A)
    return A, [mul({k: v / (2 * l) for k, v in c.items()}, i) for l, c in enumerate(cos) if l]


def A1C1():
    """A1 (1 - eps) and C1"""
    return integral(modulus(F(1, 2)))


def A2C2():
    """A2 / (1 - eps) and C2"""
    return integral(modulus(F(-1, 2)))


def C1p():
    """reversion of tau = sigma + sum C1 sin 2 l sigma, by Lagrange's theorem on Fourier polynomials in z = e^(2 i sigma)"""
    C = A1C1()[1]
    # u(sigma) = -sum C sin: in powers of z, with imaginary unit taken out: sin 2 l s = (z^l - z^-l) / 2i
    u = {}
    for l, c in enumerate(C, 1):
        u[l] = {k: -v / 2 for k, v in c.items()}
        u[-l] = {k: v / 2 for k, v in c.items()}
    # (factor 1/i for each power of u; d/dtau brings 2 i l)
    out = {}
    p = {0: {(0, 0): F(1)}}
    fact = 1
    for m in range(1, ORDER + 1):
        q = {}
        for a, x in p.items():
            for b, y in u.items():
                z = mul(x, y)
                if z:
                    q[a + b] = add(q.get(a + b, {}), z)
        p = q
        fact *= m
        # sigma = tau + sum_m 1/m! d^(m-1)/dtau^(m-1) [u(tau)^m]; u^m has 1/i^m, the derivative (2 i l)^(m-1): together (2l)^(m-1)/i
        for l, x in p.items():
            if l > 0:
                k = F((2 * l) ** (m - 1), fact)
                # (x z^l - x z^-l) / i = 2 x sin(2 l tau)
                out[l] = add(out.get(l, {}), {e: 2 * k * v for e, v in x.items()})
    return [out.get(l, {}) for l in range(1, ORDER + 1)]


def A3C3():
    """integral of 2 / ((1 + n) + (1 - n) R / (1 - eps)), to total order five in eps and n"""
    O = 5
    R = modulus(F(1, 2))
    geo = {(k, 0): F(1) for k in range(O + 1)}
    half = {(0, 0): F(1, 2), (0, 1): F(-1, 2)}
    # D = ((1 + n) + (1 - n) R / (1 - eps)) / 2 as Fourier polynomial in z
    D = {0: add({(0, 0): F(1, 2), (0, 1): F(1, 2)}, mul(mul(half, geo, 9), R[0], 9))}
    for l in range(1, O + 1):
        c = mul(mul(half, geo, 9), {k: v / 2 for k, v in R[l].items()}, 9)
        D[l] = c
        D[-l] = c
    lim = lambda x: {k: v for k, v in x.items() if sum(k) <= O}
    rest = {l: lim({k: -v for k, v in x.items() if not (l == 0 and k == (0, 0))}) for l, x in D.items()}
    assert D[0][0, 0] == 1
    out, p = {0: {(0, 0): F(1)}}, {0: {(0, 0): F(1)}}
    for _ in range(O):
        q = {}
        for a, x in p.items():
            for b, y in rest.items():
                z = lim(mul(x, y, 9))
                if z:
                    q[a + b] = add(q.get(a + b, {}), z)
        p = q
        for l, x in p.items():
            out[l] = add(out.get(l, {}), x)
    A = out[0]
    i = inv(A, O, True)
    C = []
    for l in range(1, O + 1):
        c = {k: v / l for k, v in out.get(l, {}).items()}
        C.append(lim(mul(c, i, 9)))
    return A, C


def C4():
    """C4[l] as a polynomial in (k2, ep2), from -integral of (t(ep2) - t(k2 sin^2)) / (ep2 - k2 sin^2) sin / 2 with
    t(x) = x + sqrt(1 + 1/x) asinh sqrt x"""
    # sqrt(1 + x) asinh(sqrt x) / sqrt x = sum t_n x^n solves 2 x (1 + x) y' + (1 + 0 x) y = 1 + x for y as a function of x
    t = [F(1)]
    for n in range(1, 8):
        # coefficient of x^n: 2 n t_n + 2 (n - 1) t_(n-1) + t_n = [n == 1]
        t.append((F(1 if n == 1 else 0) - 2 * (n - 1) * t[n - 1]) / (2 * n + 1))
    t[1] += 1
    C = [{} for _ in range(6)]
    for j in range(6):
        for l in range(j + 1):
            c = F((-1) ** l) * binom(F(2 * j + 1), j - l) / 4 ** j
            for i in range(6 - j):
                C[l][j, i] = t[i + j + 1] * c / 2 / (2 * l + 1)
    return C
