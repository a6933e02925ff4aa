"""Two-body motion with 60 digits, by the classical formulae (no universal variables)."""
import math
from decimal import Decimal as D, getcontext

getcontext().prec = 60
PI = D("3.14159265358979323846264338327950288419716939937510582097494459")


def sincos(x):
    """sin and cos of a Decimal."""
    x = D(x)
    x -= 2 * PI * (x / (2 * PI)).to_integral_value()
    n = 0
    while abs(x) > D("0.05"):
        x, n = x / 2, n + 1
    s, c, t, k = x, D(1), x, 1
    x2 = x * x
    tc = D(1)
    while True:
        tc = -tc * x2 / (k * (k + 1))
        t = -t * x2 / ((k + 1) * (k + 2))
        c, s = c + tc, s + t
        k += 2
        if abs(t) + abs(tc) < D("1e-62"):
            break
    for _ in range(n):
        s, c = 2 * s * c, c * c - s * s
    return s, c


def sinhcosh(x):
    e = D(x).exp()
    return (e - 1 / e) / 2, (e + 1 / e) / 2


def plane(mu, q, e, dt):
    """Position and velocity in the orbital plane (perihelion along x) a time dt after perihelion."""
    mu, q, e, dt = D(mu), D(q), D(e), D(dt)
    if e < 1:
        a = q / (1 - e)
        n = (mu / a ** 3).sqrt()
        M = n * dt
        M -= 2 * PI * (M / (2 * PI)).to_integral_value()
        sgn = -1 if M < 0 else 1
        M = abs(M)
        # bracketed Newton iteration
        lo, hi = D(0), PI
        f = float(e)
        m = float(M)
        E = m + f * math.sin(m) if f < 0.8 else math.pi
        if f >= 0.8 and m < 0.3:
            E = min(math.pi, (6 * m) ** (1 / 3) if 1 - f < (6 * m) ** (2 / 3) else m / max(1 - f, 1e-300))
        E = min(max(D(E), lo), hi)
        for _ in range(400):
            s, c = sincos(E)
            g = E - e * s - M
            if g > 0:
                hi = E
            else:
                lo = E
            d = 1 - e * c
            N = E - g / d if d > 0 else (lo + hi) / 2
            if not lo <= N <= hi:
                N = (lo + hi) / 2
            if abs(N - E) <= D("1e-50") * abs(N) or N == E:
                E = N
                break
            E = N
        s, c = sincos(E)
        x, y = a * (c - e), a * (1 - e * e).sqrt() * s * sgn
    elif e > 1:
        a = q / (e - 1)
        M = (mu / a ** 3).sqrt() * dt
        sgn = -1 if M < 0 else 1
        M = abs(M)
        lo, hi = D(0), D(math.asinh(float(M / e)) + 1) if float(M) > 1 else D(10)
        while True:
            s, c = sinhcosh(hi)
            if e * s - hi > M:
                break
            hi *= 2
        F = min(hi, D(max(math.asinh(float(M / e)), 1e-300)))
        for _ in range(400):
            s, c = sinhcosh(F)
            g = e * s - F - M
            if g > 0:
                hi = F
            else:
                lo = F
            N = F - g / (e * c - 1)
            if not lo <= N <= hi:
                N = (lo + hi) / 2
            if abs(N - F) <= D("1e-50") * abs(N) or N == F:
                F = N
                break
            F = N
        s, c = sinhcosh(F)
        x, y = a * (e - c), a * (e * e - 1).sqrt() * s * sgn
    else:
        W = abs(3 * (mu / (2 * q ** 3)).sqrt() * dt / 2)
        w = (((W + (W * W + 1).sqrt()).ln()) / 3).exp()
        s = (w - 1 / w) * (-1 if dt < 0 else 1)
        x, y = q * (1 - s * s), 2 * q * s
    r = (x * x + y * y).sqrt()
    h = (mu * q * (1 + e)).sqrt()
    return (x, y), (-mu / h * y / r, mu / h * (e + x / r))


def turned(p, inc, node, arg):
    (si, ci), (sO, cO), (sw, cw) = (sincos(a) for a in (inc, node, arg))
    x, y = p[0] * cw - p[1] * sw, p[0] * sw + p[1] * cw
    y, z = y * ci, y * si
    return [x * cO - y * sO, x * sO + y * cO, z]


def state(mu, q, e, inc, node, arg, dt):
    """Exact state of the given (binary) numbers; angles in radians, floats or Decimals."""
    p, v = plane(mu, q, e, dt)
    return turned(p, inc, node, arg), turned(v, inc, node, arg)


def rad(x):
    return D(x) * PI / 180
