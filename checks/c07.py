"""Global settings: exact bookkeeping, purity of every entry point."""
import itertools

from util import *

TITLE = "settings and purity"
ASSUMPTIONS = ["setting histories of up to three assignments in every order, with symbolic values, from the initial state; single thread"]

SETTERS = [(SETNC, "U"), (SETNF, "U"), (SETMQ, "R"), (SETTOL, "R"), (SETIT, "U"), (SETREG, "R")]
GETTERS = [x.replace("_set_", "_get_") for x, _ in SETTERS]
DEFAULT = [num(3), num(1), num("1/2"), num("1/10000000000"), num(50), num("1/100000")]
NAMES = ["nc", "nf", "mq", "tol", "it", "reg"]
INT = ("1", 8, 1, 10**6)
ALLINTS = [p + n for p in ("s", "h0", "h1", "h2") for n in ("nc", "nf", "it")]


def settings(pre="s"):
    return [(sid, var(pre + n)) for (sid, _), n in zip(SETTERS, NAMES)]


def setd(pre="s"):
    r = {}
    for (sid, ty), n in zip(SETTERS, NAMES):
        r[pre + n] = INT if ty == "U" else "pos"
    r[pre + "tol"] = ("1/1000", "1/10", 0, 1)
    return r


def reads_settings(e):
    """settings a result may depend on (documented meaning of each setting)"""
    m, s = e["mod"], e["sym"]
    names = [n for n, _ in e["args"]]
    cfg = any(t == "F" for _, t in e["args"])
    meth = any(t == "M" for _, t in e["args"])
    r = set()
    integ = not s.endswith("_i") and not meth and "zero_temp" not in s
    if m.startswith("low_level::oneloop::thermal") and ("self_energy" in s or "polarization" in s) and not s.endswith("_i"):
        if not meth:
            r |= {"tol", "it"}
        if "quark" in s:
            r.add("nc")
        if "zero_matsubara" in m:
            r.add("reg")
    if "quark" in s and s.endswith("_i"):
        r.add("nc")
    if m == "qcd::gluon" and not cfg:
        r |= {"nc", "nf", "mq"}
        if "mq" in names:
            r.discard("mq")
    if m.startswith(("qcd::thermal", "ym::thermal")):
        if not meth:
            r |= {"tol", "it"}
        if "zero_matsubara" in m:
            r.add("reg")
        if m.startswith("qcd") and not cfg:
            r |= {"nc", "nf", "mq"} if "mq" not in names else {"nc", "nf"}
        if m == "qcd::thermal::quark":
            r = {"nc"} | ({"tol", "it"} if not meth else set())
    return r


def entries(api):
    for e in api.values():
        if e.get("kind") == "native" and e["inst"] in ("R", "RR", "", "CR", "C") and not ("chemical_potential" in e["sym"] and "zero_temp" not in e["sym"]):
            yield e


def edomc(e, **kw):
    d = edom(e)
    if any(t == "C" for _, t in e["args"]):
        d = d.extend({n + "_i": UPPER for n, t in e["args"] if t == "C"})
    return d.extend(kw, ints=ALLINTS)


def obligations(env):
    obs = []

    def initial(cx):
        for g, d in zip(GETTERS, DEFAULT):
            cx.equal(cx.call(g), d, "initial value of " + g)

    obs.append(Ob("C07.initial", initial, Domain({})))

    for i, (sid, ty) in enumerate(SETTERS):
        hd = {}
        for k in range(3):
            hd.update(setd("h%d" % k))

        def hist(cx, i=i):
            for n in (1, 2, 3):
                for rest in itertools.product(range(6), repeat=n - 1):
                    seq = (i,) + rest
                    cur = list(DEFAULT)
                    calls = []
                    for k, j in enumerate(seq):
                        v = var("h%d%s" % (k, NAMES[j]))
                        calls.append((SETTERS[j][0], v))
                        cur[j] = v
                    r = cx.seq(calls + [(g,) for g in GETTERS])[len(calls):]
                    for g, a, b in zip(GETTERS, r, cur):
                        cx.equal(a, b, "%s after %s" % (g, [NAMES[j] for j in seq]))

        obs.append(Ob("C07.history." + NAMES[i], hist, Domain(hd, ints=ALLINTS)))

        if ty == "R" and i != 2:

            def reject(cx, sid=sid, i=i):
                v = var("v")
                r = cx.seq([(sid, v), (GETTERS[i],)], panics=True)
                if r[-1] == "panic":
                    cx.holds(lt(ZERO, v), "only non-positive values are rejected", False)
                else:
                    cx.holds(lt(ZERO, v), "non-positive values are rejected")
                    cx.equal(r[-1], v, "accepted value")

            obs.append(Ob("C07.reject." + NAMES[i], reject, Domain({"v": "real"})))

    for e in entries(env.api):
        args = mk_args(e)
        ty = dict(e["args"])
        other = {}
        over = {}
        for n, t in e["args"]:
            if t == "R":
                other[n] = var("o_" + n)
                over["o_" + n] = "pos" if n in POS or n == "om" else "real"
            elif t == "C":
                other[n] = var("o_" + n + "_r") + I * var("o_" + n + "_i")
                over["o_" + n + "_r"] = ("1/10", 3, -(BIG), BIG) if n in POS else "real"
                over["o_" + n + "_i"] = UPPER
        dom = edomc(e, **setd())
        cfg1 = (4, var("cmg"), [(2, var("cmq0"))])
        ap = mk_args(e, cfg1)
        tier = "quick" if e["inst"] in ("R", "RR", "") else "thorough"
        cfg2 = (2, var("ocmg"), [(1, var("ocmq0"))])
        a2 = mk_args(e, cfg2, (var("omtol"), 11), other)
        d2 = dom.extend(over).extend({"ocmg": "pos", "ocmq0": "pos", "omtol": ("1/100", "1/10", 0, 1)})

        def keeps(cx, e=e, args=args):
            st = settings()
            r = cx.seq(st + [(e["id"],) + tuple(args)] + [(g,) for g in GETTERS])
            for g, a, (s, v) in zip(GETTERS, r[len(st) + 1:], st):
                cx.equal(a, v, "a call leaves " + g)

        def pure(cx, e=e, args=ap, a2=a2, rel=reads_settings(e)):
            # a previous call, with arguments and settings of its own (the
            # engine also follows the cases in which some of them coincide)
            st = settings()
            old = [(sid, var("h0" + n)) for (sid, _), n in zip(SETTERS, NAMES) if n in rel]
            x = cx.seq(old + [(e["id"],) + tuple(a2)] + st + [(e["id"],) + tuple(args)])[-1]
            y = cx.seq(st + [(e["id"],) + tuple(args)])[-1]
            cx.same(x, y, "a previous call does not matter")

        obs.append(Ob("C07.keeps." + e["id"][2:], keeps, dom, tier))
        if len(args) > 0:
            facts = []
            if "zero_temp" in e["sym"] and "o_mu" in over:
                # the previous call goes the long way (a filled Fermi sea)
                m = "ocmq0" if "F" in ty.values() else "o_mq" if "o_mq" in over else "h0mq"
                facts = [(lt(var(m), var("o_mu")), True)]
            obs.append(Ob("C07.pure." + e["id"][2:], pure, d2.extend(setd("h0"), facts), tier))
        rel = reads_settings(e)
        irr = [k for k, n in enumerate(NAMES) if n not in rel]

        def unrel(cx, e=e, args=args, irr=irr):
            st = settings()
            x = cx.seq(st + [(e["id"],) + tuple(args)])[-1]
            y = cx.seq([s for k, s in enumerate(st) if k not in irr] + [(e["id"],) + tuple(args)])[-1]
            cx.same(x, y, "unrelated settings do not matter: %s" % [NAMES[k] for k in irr])

        def over_(cx, e=e, args=args, rel=rel):
            """overwritten values, zero flavours among them, leave no trace"""
            st = [x for k, x in enumerate(settings()) if NAMES[k] in rel]
            k = cx.choose(3)
            if k == 2:
                x = cx.seq(st[::-1] + [(e["id"],) + tuple(args)])[-1]
            else:
                h = {"nf": ZERO, "mq": ZERO, "it": num(1)} if k == 0 else {}
                old = [(sid, h.get(n, var("h0" + n))) for (sid, _), n in zip(SETTERS, NAMES) if n in rel]
                x = cx.seq(old + st + [(e["id"],) + tuple(args)])[-1]
            y = cx.seq(st + [(e["id"],) + tuple(args)])[-1]
            cx.same(x, y, "only the last values written matter")

        if rel:
            obs.append(Ob("C07.overwritten." + e["id"][2:], over_, dom.extend(setd("h0")), tier))
        if irr:
            obs.append(Ob("C07.unrelated." + e["id"][2:], unrel, dom, tier))
    return obs
