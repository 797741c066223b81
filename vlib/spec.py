"""Closed-form reference expressions for the one-loop functions, written down
independently of the Rust code (literature forms; cf. CHECKS.md, which names an
independent numerical implementation as the repository's own yardstick).

Everything is a term over the complex numbers."""
import term as t_
from term import I, ONE, PI, T, TWO, ZERO, exp, ln, num, sqrt, tonum, var

PI2 = PI * PI


def R(a, b=1):
    from fractions import Fraction

    return num(Fraction(a, b))


# ---------------------------------------------------------------- vacuum


def _r(s):
    return sqrt((s + 4) / s)


def _la(s):
    return ln((_r(s) - 1) / (_r(s) + 1))


def f(s):
    la = (3 * s**3 - 34 * s**2 - 28 * s - 24) / s * _r(s) * _la(s)
    lb = 2 * (1 + s) ** 2 / s**3 * (3 * s**3 - 20 * s**2 + 11 * s - 2) * ln(1 + s)
    lc = (2 - 3 * s**2) * ln(s)
    ra = -(4 + s) / s * (s**2 - 20 * s + 12)
    rb = 2 * (1 + s) ** 2 / s**2 * (s**2 - 10 * s + 1)
    rc = 2 / s**2 + 2 - s**2
    return (la + lb + lc + ra + rb + rc) / 72 + R(5, 8) / s


def f_xi(s):
    return R(1, 4) / s - (2 * s * ln(s) - 2 * (1 - s) * (1 - s**3) / s**3 * ln(1 + s) + (3 * s**2 - 3 * s + 2) / s**2) / 12


def f_q(s):
    return R(4, 9) * ((s - 2) / (2 * s) * _r(s) * _la(s) - 2 / s + R(5, 6))


def f_q_crossed(s):
    return R(4, 9) * ((s**2 + 2 * s + 16) / (2 * s * (4 + s)) * _r(s) * _la(s) + 4 / s - R(1, 6))


def g(s):
    return ((1 + s) ** 2 * (2 * s - 1) / s**2 * ln(1 + s) - 2 * s * ln(s) + 1 / s + 2) / 12


def g_xi(s):
    return -ln(s) / 12


def sep_shift(fn, s, d, d1):
    """change of a vacuum function when ln s and ln(1 + s) are moved by d, d1"""
    if fn == "f":
        a = (3 * s**3 - 34 * s**2 - 28 * s - 24) / s * _r(s) + 2 - 3 * s**2
        return (a * d + 2 * (1 + s) ** 2 / s**3 * (3 * s**3 - 20 * s**2 + 11 * s - 2) * d1) / 72
    if fn == "f_xi":
        return -(s * d - (1 - s) * (1 - s**3) / s**3 * d1) / 6
    if fn == "g":
        return ((1 + s) ** 2 * (2 * s - 1) / s**2 * d1 - 2 * s * d) / 12
    return -d / 12


# ---------------------------------------------------------------- thermal


def sq(m):
    """square of a mass, which may be given as the root of one"""
    return m.a[0] if isinstance(m, T) and m.op == "sqrt" else m * m


def en(q, m):
    return sqrt(q * q + sq(m))


def bose(e, beta):
    return 1 / (exp(beta * e) - 1)


def fermi(e, beta, mu):
    return 1 / (exp(beta * (e - mu)) + 1)


def fermi2(e, beta, mu):
    return fermi(e, beta, mu) + fermi(e, beta, -mu)


def j_m_i(q, m, beta):
    e = en(q, m)
    return q**2 * bose(e, beta) / (2 * e * PI2)


def j_m_l_i(q, m, beta):
    e = en(q, m)
    return -(q**2) * bose(e, beta) * e / (2 * PI2)


def j_m_t_i(q, m, beta):
    e = en(q, m)
    return q**4 * bose(e, beta) / (6 * e * PI2)


def d_j_m_i(q, m, beta):
    e = en(q, m)
    return -bose(e, beta) / (4 * e * PI2)


def d2_j_m_i(q, m, beta):
    e = en(q, m)
    b, bm = bose(e, beta), bose(-e, beta)
    return (b / e**3 - beta * b * bm / e**2) / (8 * PI2)


def d_j_m_l_i(q, m, beta):
    e = en(q, m)
    return e * bose(e, beta) / (4 * PI2)


def d2_j_m_l_i(q, m, beta):
    e = en(q, m)
    b, bm = bose(e, beta), bose(-e, beta)
    return b / (8 * e * PI2) + beta * b * bm / (8 * PI2)


def d_j_m_t_i(q, m, beta):
    return -j_m_i(q, m, beta) / 2


def d2_j_m_t_i(q, m, beta):
    return -d_j_m_i(q, m, beta) / 2


def tlog(q, om, p, e, delta):
    r = om**2 + p**2 + 2 * I * e * om + delta
    return ln((r + 2 * q * p) / (r - 2 * q * p))


def tlog_l(q, om, p, e, delta):
    return (om**2 + 2 * I * om * e + delta + p**2 * (2 * I * e / om + 1)) ** 2 * tlog(q, om, p, e, delta)


def tlog_t(q, om, p, e, delta):
    r = om**2 + p**2 + 2 * I * e * om + delta
    return (r + 2 * q * p) * (r - 2 * q * p) * tlog(q, om, p, e, delta)


def _two(q, om, p, m1, m2, beta, h):
    """sum over the two thermal poles of bose/energy times h(e, delta)"""
    e1, e2 = en(q, m1), en(q, m2)
    d = sq(m2) - sq(m1)
    return bose(e1, beta) / e1 * h(e1, d) + bose(e2, beta) / e2 * h(e2, -d)


def i_m_m_i(q, om, p, m1, m2, beta):
    return _two(q, om, p, m1, m2, beta, lambda e, d: tlog(q, om, p, e, d) + tlog(q, -om, p, e, d)) * q / (16 * p * PI2)


def i_m_m_l_i(q, om, p, m1, m2, beta):
    h = lambda e, d: (tlog_l(q, om, p, e, d) + tlog_l(q, -om, p, e, d)) / 2 - 4 * q * p * (om**2 + p**2 + d)
    return om**2 / (om**2 + p**2) * _two(q, om, p, m1, m2, beta, h) * q / (32 * p**3 * PI2)


def i_m_m_t_i(q, om, p, m1, m2, beta):
    h = lambda e, d: (tlog_t(q, om, p, e, d) + tlog_t(q, -om, p, e, d)) / 2 - 4 * q * p * (om**2 + p**2 + d)
    return -_two(q, om, p, m1, m2, beta, h) * q / (64 * p**3 * PI2)


def _pm(q, om, p, e1, m2):
    """1/((+-om + i e1)^2 + (q+-p)^2 + m2^2) for the four sign choices"""
    return {(so, sp): 1 / ((so * om + I * e1) ** 2 + (q + sp * p) ** 2 + m2**2) for so in (1, -1) for sp in (1, -1)}


def d_i_m_m_i(q, om, p, m1, m2, beta):
    e1, e2 = en(q, m1), en(q, m2)
    b1, b2 = bose(e1, beta) / e1, bose(e2, beta) / e2
    r1, r2 = _pm(q, om, p, e1, m2), _pm(q, om, p, e2, m1)
    s1 = r1[1, 1] + r1[1, -1] + r1[-1, 1] + r1[-1, -1]
    a1 = r1[1, 1] - r1[1, -1] + r1[-1, 1] - r1[-1, -1]
    a2 = r2[1, 1] - r2[1, -1] + r2[-1, 1] - r2[-1, -1]
    return (-b1 * s1 + (b2 * a2 - b1 * a1) * q / p) / (16 * PI2)


def d_i_m_m_l_i(q, om, p, m1, m2, beta):
    e1, e2 = en(q, m1), en(q, m2)
    b1, b2 = bose(e1, beta) / e1, bose(e2, beta) / e2

    def X(so, e, m):
        z = so * om + I * e
        return z**2 + q**2 + m**2 + p**2 * (so * 2 * z / om - 1)

    r1, r2 = _pm(q, om, p, e1, m2), _pm(q, om, p, e2, m1)
    d = m2**2 - m1**2
    t1 = -b1 * sum(((r1[so, 1] + r1[so, -1]) * X(so, e1, m2) ** 2 for so in (1, -1)), ZERO) / 4
    t2 = b1 * (om**2 + p**2 + d)
    t3 = 2 * q**2 * (b1 - b2)
    t4 = q / p * sum((b2 * X(so, e2, m1) * tlog(q, so * om, p, e2, -d) - b1 * X(so, e1, m2) * tlog(q, so * om, p, e1, d) for so in (1, -1)), ZERO) / 2
    t5 = q / p * sum((b2 * X(so, e2, m1) ** 2 * (r2[so, 1] - r2[so, -1]) - b1 * X(so, e1, m2) ** 2 * (r1[so, 1] - r1[so, -1]) for so in (1, -1)), ZERO) / 4
    return om**2 / (om**2 + p**2) * (t1 + t2 + t3 + t4 + t5) / (16 * p**2 * PI2)


def d_i_m_m_t_i(q, om, p, m1, m2, beta):
    e1, e2 = en(q, m1), en(q, m2)
    b1, b2 = bose(e1, beta) / e1, bose(e2, beta) / e2
    d = m2**2 - m1**2

    def Y(so, e, m):
        return (so * om + I * e) ** 2 + m**2 + q**2 + p**2

    t1 = -q / p * b1 * (tlog(q, om, p, e1, d) + tlog(q, -om, p, e1, d)) / 32
    t2 = q**2 / p**2 * (b2 - b1) / 8
    t31 = b1 * sum((Y(so, e1, m2) * tlog(q, so * om, p, e1, d) for so in (1, -1)), ZERO) / 2
    t32 = b2 * sum((Y(so, e2, m1) * tlog(q, so * om, p, e2, -d) for so in (1, -1)), ZERO) / 2
    return (t1 + t2 + q / p**3 * (t31 - t32) / 32) / PI2


def ghost_se(q, om, p, m, beta):
    s = om * om + p * p
    m2 = m * m
    a = s + m2
    t = -s * a / (2 * m2) * i_m_m_i(q, om, p, m, ZERO, beta)
    t += s * s / (2 * m2) * i_m_m_i(q, om, p, ZERO, ZERO, beta)
    t += (2 * s - m2) / (4 * m2) * (j_m_i(q, m, beta) - j_m_i(q, ZERO, beta))
    t += a * a / 4 * d_i_m_m_i(q, om, p, m, ZERO, beta)
    t += -(s - m2) / 4 * d_j_m_i(q, m, beta)
    return t


def gluon_pol(q, om, p, m, beta, comp):
    s = om * om + p * p
    s2 = s * s
    m2 = m * m
    m4 = m2 * m2
    z = ZERO
    if comp == "l":
        i2, di2 = i_m_m_l_i, d_i_m_m_l_i
        j = lambda mm: (p * p * j_m_l_i(q, mm, beta) + om * om * j_m_t_i(q, mm, beta)) / s
        dj = (p * p * d_j_m_l_i(q, m, beta) + om * om * d_j_m_t_i(q, m, beta)) / s
        d2j = (p * p * d2_j_m_l_i(q, m, beta) + om * om * d2_j_m_t_i(q, m, beta)) / s
    else:
        i2, di2 = i_m_m_t_i, d_i_m_m_t_i
        j = lambda mm: j_m_t_i(q, mm, beta)
        dj, d2j = d_j_m_t_i(q, m, beta), d2_j_m_t_i(q, m, beta)
    t = (3 * s2 / (2 * m4) - 1) * i2(q, om, p, z, z, beta)
    t += (4 + (3 * s2 + 8 * m2 * s + 4 * m4) / (2 * m4)) * i2(q, om, p, m, m, beta)
    t += -(3 * s2 + 4 * m2 * s + m4) / m4 * i2(q, om, p, m, z, beta)
    t += 2 * s * (s + 2 * m2) / m2 * i_m_m_i(q, om, p, m, m, beta)
    t += -2 * s * (s + m2) / m2 * i_m_m_i(q, om, p, m, z, beta)
    t += -(2 * s + 3 * m2) / m2 * j_m_i(q, m, beta)
    t += (2 * s + m2) / m2 * j_m_i(q, z, beta)
    t += -(8 * m2 + (s + 2 * m2) ** 2 / m2) * di2(q, om, p, m, m, beta)
    t += (s + m2) ** 2 / m2 * di2(q, om, p, m, z, beta)
    t += -2 * s * (s + 4 * m2) * d_i_m_m_i(q, om, p, m, m, beta)
    t += (s + m2) ** 2 * d_i_m_m_i(q, om, p, m, z, beta)
    t += (s + 3 * m2) * d_j_m_i(q, m, beta)
    t += -m4 * d2_j_m_i(q, m, beta)
    t += (j(m) - j(z)) / m2 - dj + m2 / 2 * d2j
    return t


def quark_pol(q, om, p, m, nc, stat, comp):
    """stat: the sum of quark and antiquark occupation numbers at energy e"""
    s = om * om + p * p
    e = en(q, m)
    occ = stat(e)
    tl, to = tlog(q, om, p, e, ZERO), tlog(q, -om, p, e, ZERO)
    l = -(s / (p * p)) * occ * q**2 / e * (1 - ((s - 4 * e**2 + 4 * I * e * om) * tl + (s - 4 * e**2 - 4 * I * e * om) * to) / (8 * q * p)) / (2 * nc * PI2)
    if comp == "l":
        return l
    tr = -occ * q**2 / e * (1 - (s - 2 * m * m) * (tl + to) / (8 * q * p)) / (nc * PI2)
    return (tr - l) / 2
