"""Reference Gauss-Legendre data for any degree, independent of the analysed code.

u(t) = sqrt(sin t) P_n(cos t) solves u'' + (N^2 + 1/(4 sin^2 t)) u = 0 with N = n + 1/2.  Writing
u = phi'^(-1/2) sqrt(phi) J0(N phi) gives phi'^2 (N^2 + 1/(4 phi^2)) + {phi, t}/2 = N^2 + 1/(4 sin^2 t), solved
by phi = t + phi_1/N^2 + phi_2/N^4 + ... with phi_m a polynomial in 1/t and cot t (derived here by
undetermined coefficients).  Zero k: phi(t) = j_k/N; weight 2 sin t/(N^2 phi phi' J1(j_k)^2).
For n > 100 five terms leave an error below 1e-21; it is cross-checked against the recurrence."""
from fractions import Fraction
import math
import mpmath
from mpmath import mpf, mp

M = 5
# polynomials in t = 1/theta and c = cot(theta): {(i, j): coeff}


def add(p, q, s=1):
    r = dict(p)
    for k, v in q.items():
        x = r.get(k, 0) + s * v
        if x:
            r[k] = x
        else:
            r.pop(k, None)
    return r


def mul(p, q):
    r = {}
    for (a, b), v in p.items():
        for (c, d), w in q.items():
            k = (a + c, b + d)
            x = r.get(k, 0) + v * w
            if x:
                r[k] = x
            else:
                r.pop(k, None)
    return r


def sc(p, s):
    return {k: v * s for k, v in p.items()} if s else {}


def der(p):
    r = {}
    for (i, j), v in p.items():
        if i:
            r = add(r, {(i + 1, j): -v * i})
        if j:
            r = add(r, {(i, j - 1): -v * j, (i, j + 1): -v * j})
    return r


def smul(x, y, m):
    """product of power series in u^2 up to order m"""
    out = [{} for _ in range(m + 1)]
    for i, p in enumerate(x):
        for j, q in enumerate(y):
            if i + j <= m and p and q:
                out[i + j] = add(out[i + j], mul(p, q))
    return out


ONE = {(0, 0): Fraction(1)}


def solve():
    phi = [None] + []          # phi[m], m >= 1 (phi[0] = theta is kept apart)
    for m in range(1, M + 1):
        # series known up to order m-1; unknown phi_m enters order m of phi'^4 - phi'^2 as 2 phi_m'
        d1 = [ONE] + [der(phi[k]) for k in range(1, m)] + [{}]
        d2 = [{}] + [der(d1[k]) for k in range(1, m)] + [{}]
        d3 = [{}] + [der(d2[k]) for k in range(1, m)] + [{}]
        # 1/phi = t (1 + x)^-1, x = t (u^2 phi_1 + ...)
        x = [{}] + [mul({(1, 0): Fraction(1)}, phi[k]) for k in range(1, m)] + [{}]
        g = [ONE] + [{} for _ in range(m)]
        pw = [ONE] + [{} for _ in range(m)]
        for q in range(1, m + 1):
            pw = smul(pw, [sc(p, -1) for p in x], m)
            g = [add(a, b) for a, b in zip(g, pw)]
        g2 = smul(g, g, m)
        q4 = [sc(mul({(2, 0): Fraction(1)}, p), Fraction(1, 4)) for p in g2]
        shift = lambda s: [{}] + s[:-1]
        s1 = smul(d1, d1, m)
        s2 = smul(s1, s1, m)
        left = [add(a, b) for a, b in zip(s2, shift(smul(s2, q4, m)))]
        sch = [add(a, b, -1) for a, b in zip(smul(d1, d3, m), [sc(p, Fraction(3, 2)) for p in smul(d2, d2, m)])]
        left = [add(a, b) for a, b in zip(left, shift([sc(p, Fraction(1, 2)) for p in sch]))]
        csc = {(0, 0): Fraction(1, 4), (0, 2): Fraction(1, 4)}
        right = [add(a, b) for a, b in zip(s1, shift([mul(p, csc) for p in s1]))]
        rest = add(right[m], left[m], -1)
        rhs = sc(rest, Fraction(1, 2))           # phi_m'
        phi.append(integrate(rhs, 2 * m - 1))
    return phi


def integrate(r, deg):
    """polynomial p of degree <= deg, odd, with p' = r"""
    mons = [(i, j) for i in range(deg + 1) for j in range(deg + 1 - i) if (i + j) % 2 == 1]
    cols = [der({m: Fraction(1)}) for m in mons]
    rows = sorted({k for c in cols for k in c} | set(r))
    A = [[c.get(k, Fraction(0)) for c in cols] + [r.get(k, Fraction(0))] for k in rows]
    n = len(mons)
    piv, row = [], 0
    for c in range(n):
        p = next((i for i in range(row, len(A)) if A[i][c]), None)
        if p is None:
            continue
        A[row], A[p] = A[p], A[row]
        x = A[row][c]
        A[row] = [v / x for v in A[row]]
        for i in range(len(A)):
            if i != row and A[i][c]:
                f = A[i][c]
                A[i] = [a - f * b if b else a for a, b in zip(A[i], A[row])]
        piv.append(c)
        row += 1
    assert all(not a[n] for a in A[row:]), "not integrable"
    return {mons[c]: A[i][n] for i, c in enumerate(piv) if A[i][n]}


_phi = None
_j = {}


def phis():
    global _phi
    if _phi is None:
        _phi = solve()
    return _phi


def j0(k):
    """k-th positive zero of J0 and J1 there squared"""
    if k not in _j:
        with mp.workdps(40):
            if k <= 40:
                z = mpmath.besseljzero(0, k)
            else:
                b = (mpf(k) - mpf(1) / 4) * mp.pi
                e = 8 * b
                # McMahon's expansion (A&S 9.5.12), then Newton with the Hankel expansions of J0, J1
                z = b + 1 / e - mpf(124) / 3 / e ** 3 + mpf(120928) / 15 / e ** 5 - mpf(401743168) / 105 / e ** 7
                for _ in range(2):
                    a, c = hankel(0, z), hankel(1, z)
                    z += a / c
            _j[k] = (z, hankel(1, z) ** 2 if k > 40 else mpmath.besselj(1, z) ** 2)
    return _j[k]


def hankel(nu, z):
    """J_nu(z) for z > 100"""
    P, Q, a = mpf(0), mpf(0), mpf(1)
    mu = 4 * nu * nu
    for k in range(0, 60):
        if k % 2 == 0:
            P += a * (-1) ** (k // 2)
        else:
            Q += a * (-1) ** (k // 2)
        b = a * (mu - (2 * k + 1) ** 2) / ((k + 1) * 8 * z)
        if abs(b) < mpf(10) ** -45 or abs(b) > abs(a):
            break
        a = b
    x = z - nu * mp.pi / 2 - mp.pi / 4
    return mpmath.sqrt(2 / (mp.pi * z)) * (P * mpmath.cos(x) - Q * mpmath.sin(x))


def pair(n, k):
    """(theta, node, weight) number k = 1..n counted from the largest node"""
    if 2 * k > n + 1:
        t, x, w = pair(n, n + 1 - k)
        return mp.pi - t, -x, w
    N = mpf(n) + mpf(1) / 2
    lost = max(0.0, math.log10(float(N) / (2.0 * k)))
    with mp.workdps(int(45 + 2 * M * lost)):
        N = mpf(n) + mpf(1) / 2
        j, j1 = j0(k)
        y = j / N
        th = y
        u2 = 1 / N ** 2
        ph = phis()

        def f(th):
            t, c = 1 / th, mpmath.cot(th)
            tp, cp = [mpf(1)], [mpf(1)]
            for _ in range(2 * M + 1):
                tp.append(tp[-1] * t)
                cp.append(cp[-1] * c)
            s, ds, u = th, mpf(1), mpf(1)
            for m in range(1, M + 1):
                u *= u2
                p = sum(mpf(v.numerator) / v.denominator * tp[a] * cp[b] for (a, b), v in ph[m].items())
                d = sum(mpf(v.numerator) / v.denominator * (-(a * tp[a + 1] * cp[b] if a else 0) - (b * tp[a] * cp[b - 1] * (1 + cp[2]) if b else 0)) for (a, b), v in ph[m].items())
                s += u * p
                ds += u * d
            return s, ds
        for _ in range(4):
            s, ds = f(th)
            step = (s - y) / ds
            th -= step
            if abs(step) < mpf(10) ** -28 * th:
                break
        s, ds = f(th)
        w = 2 * mpmath.sin(th) / (N * N * s * ds * j1)
        if 2 * k == n + 1:
            th = mp.pi / 2
        return +th, mpmath.cos(th) if 2 * k != n + 1 else mpf(0), w


def recurrence(n, k, start=None):
    """(node, weight) by Newton's method on the three-term recurrence"""
    with mp.workdps(50):
        x = mpmath.cos(mp.pi * (4 * k - 1) / (4 * n + 2)) if start is None else start
        for _ in range(12):
            a, b = mpf(1), x
            for m in range(2, n + 1):
                a, b = b, ((2 * m - 1) * x * b - (m - 1) * a) / m
            if n == 0:
                break
            d = n * (a - x * b) / (1 - x * x) if n > 1 else mpf(1)
            h = b / d
            x -= h
            if abs(h) < mpf(10) ** -25:
                break
        a, b = mpf(1), x
        for m in range(2, n + 1):
            a, b = b, ((2 * m - 1) * x * b - (m - 1) * a) / m
        d = n * (a - x * b) / (1 - x * x) if n > 1 else mpf(1)
        return x, 2 / ((1 - x * x) * d * d)
