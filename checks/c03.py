"""Ultraviolet running and infrared limits of the vacuum functions."""
import spec
from alg import diff
from fractions import Fraction as Fr
from util import *

TITLE = "UV running and IR limits"
LG, LH = "low_level::oneloop::gluon", "low_level::oneloop::ghost"
S, EPS = var("s"), var("eps")
ASSUMPTIONS = ["limits are taken by exact Laurent/logarithmic expansion of the encoded term in the vanishing parameter; coefficients are compared as real numbers"]


def obligations(env):
    A = Api(env.api)
    obs = []
    dom = Domain({"eps": ("1/100", "1/10", 0, 1), "s": "pos", "xi": "real", "f0": "real", "g0": "real", "mq": "pos"})

    def at(t, x):
        return t_.subst(t, {S: x})

    def uv(mod, fn, c):
        def go(cx):
            y = Fx(cx, A)(mod, fn, s=S)
            d = S * diff(y, S)
            cx.limit(at(d, ONE / EPS), EPS, num(c), "s d/ds as s -> infinity")

        obs.append(Ob("C03.uv.%s" % fn, go, dom))

    uv(LG, "f", Fr(13, 18))
    uv(LG, "f_xi", Fr(-1, 6))
    uv(LH, "g", Fr(1, 4))
    uv(LH, "g_xi", Fr(-1, 12))
    uv(LG, "f_q", Fr(-2, 9))
    uv(LG, "f_q_crossed", Fr(-2, 9))

    def ir(mod, fn, order, c):
        def go(cx):
            y = at(Fx(cx, A)(mod, fn, s=S), EPS * EPS)  # s = eps^2
            cx.limit(y, EPS, c, "s -> 0", order=2 * order)

        obs.append(Ob("C03.ir.%s" % fn, go, dom))

    ir(LG, "f", -1, num(Fr(5, 8)))
    ir(LG, "f_q", 0, ZERO)
    ir(LG, "f_q_crossed", 0, ZERO)
    ir(LH, "g", 0, num(Fr(5, 24)))
    XI = var("xi")

    def run(tag, mod, fn, c, **kw):
        def go(cx):
            y = Fx(cx, A)(mod, fn, s=S, **kw)
            d = S * diff(y, S)
            cx.limit(at(d, ONE / EPS), EPS, c, "running of " + fn)

        obs.append(Ob("C03.running." + tag, go, dom.extend(CFGD)))

    run("ym_gluon", "ym::gluon", "dressing_inv", num(Fr(13, 18)) - XI / 6)
    run("ym_ghost", "ym::ghost", "dressing_inv", num(Fr(1, 4)) - XI / 12)
    q = num(Fr(-2, 9))
    run("qcd_gluon", "qcd::gluon", "dressing_inv", num(Fr(13, 18)) - XI / 6 + q / 3)
    run("qcd_gluon_crossed", "qcd::gluon", "dressing_crossed_inv", num(Fr(13, 18)) - XI / 6 + q / 3)
    run("qcd_gluon_fields", "qcd::gluon", "dressing_inv_w_field_config", num(Fr(13, 18)) - XI / 6 + q * 3 / 4)
    run("qcd_gluon_fields_crossed", "qcd::gluon", "dressing_crossed_inv_w_field_config", num(Fr(13, 18)) - XI / 6 + q * 3 / 4)

    def mass(mod, fn, kw):
        def go(cx):
            y = at(Fx(cx, A)(mod, fn, s=S, **kw), EPS * EPS)
            cx.limit(y, EPS, num(Fr(5, 8)) + (XI / 4 if fn.find('landau') < 0 else ZERO), "s J^-1 at s = 0", order=-2)

        obs.append(Ob("C03.mass.%s.%s" % (mod.replace("::", "_"), fn), go, dom.extend(CFGD)))

    for fn in ("dressing_inv_landau", "dressing_inv"):
        mass("ym::gluon", fn, {})
    for fn in ("dressing_inv", "dressing_inv_w_field_config", "dressing_crossed_inv", "dressing_crossed_inv_w_field_config"):
        mass("qcd::gluon", fn, {})

    def crossed(cx):
        F = Fx(cx, A)
        a, b = F(LG, "f_q", s=S), F(LG, "f_q_crossed", s=S)
        cx.equal(S * diff(b, S), S * diff(a + 2 * S * diff(a, S), S), "s d/ds of the two quark functions")

    obs.append(Ob("C03.crossed", crossed, dom))
    return obs
