"""The planner: from a property and one integer, everything a simulated run does.

A plan is data: the world (clock, entropy, memory contents, options), the operations of each
epoch (an epoch is one life of the process), and the faults inside them.  worker.R carries plans
out; nothing is decided there.
"""
import random

RNG_KINDS = ["Mersenne-Twister", "Wichmann-Hill", "Marsaglia-Multicarry", "Super-Duper",
             "Knuth-TAOCP-2002", "Knuth-TAOCP", "L'Ecuyer-CMRG"]
NORMAL_KINDS = ["Inversion", "Box-Muller", "Ahrens-Dieter", "Kinderman-Ramage"]
SAMPLE_KINDS = ["Rejection", "Rounding"]

# (thetas, betas, can it be fitted and printed)
SHAPES = {
    "two_level": (1, 2), "icept": (1, 1), "nofix": (1, 0), "two_x": (1, 3), "corr": (3, 2),
    "uncorr": (2, 2), "crossed": (2, 2), "three_level": (2, 2), "pair": (1, 1), "pairobs": (2, 2),
    "pair2": (1, 1),
}
SCALAR = ["two_level", "icept", "two_x"]           # one scalar random effect: AGQ works
SUBS = ["pair", "pairobs", "pair2"]


def shape(spec):
    t, b = SHAPES[spec["kind"]]
    return t, b + (1 if spec.get("home") else 0)


class Gen:
    def __init__(self, prop, seed, tier):
        self.r = random.Random("%s/%s" % (prop, seed))
        self.prop, self.seed, self.tier = prop, seed, tier
        self.n = 0
        self.models = {}      # id -> spec
        self.funs = {}        # id -> (model, method, control)
        self.fits = {}        # id -> (model, method, control)
        self.pts = {}         # id -> points used
        self.deep = tier == "thorough"

    # ---------------------------------------------------------------- small things
    def id(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def p(self, x):
        return self.r.random() < x

    def pick(self, *xs):
        return self.r.choice(xs)

    def world(self, **kw):
        r = self.r
        w = {"entropy": r.randrange(1, 1 << 20), "epoch": r.randrange(0, 10 ** 9),
             "tick_ns": self.pick(0, 1, 1000, 10 ** 6)}
        if self.p(0.5):
            w["poison"] = r.randrange(1, 6)
        if self.p(0.5):
            w["quarantine"] = self.pick(16, 256)
        w.update(kw)
        return w

    def rng(self, absent=False):
        if absent and self.p(0.25):
            return {"absent": True}
        return {"kind": self.pick(*RNG_KINDS), "normal": self.pick(*NORMAL_KINDS),
                "sample": self.pick(*SAMPLE_KINDS), "seed": self.r.randrange(1, 10 ** 6)}

    # ---------------------------------------------------------------- models
    def spec(self, kinds=None, small=False, fit=False, **kw):
        r = self.r
        k = kinds and r.choice(kinds) or r.choices(
            ["two_level", "icept", "nofix", "two_x", "corr", "uncorr", "crossed", "three_level", "pair", "pairobs", "pair2"],
            [6, 2, 0 if fit else 1, 2, 2, 2, 2, 3, 3, 2, 1])[0]
        s = {"kind": k, "variant": r.randrange(1, 100000)}
        if k == "crossed":
            s["groups"], s["per"] = self.pick((3, 3), (4, 3), (3, 4), (4, 4))
        elif k in SUBS:
            s["groups"], s["per"] = self.pick(4, 5, 6), self.pick(4, 5)
        elif k == "three_level":
            s["groups"], s["per"] = self.pick(4, 6, 8), self.pick(3, 4)
        else:
            s["groups"], s["per"] = self.pick(4, 5, 6, 8), self.pick(3, 4, 5, 6)
        s["sd"] = self.pick(0.5, 1, 1.5)
        u = r.random()
        if u < 0.12:
            s["family"] = "poisson"
        elif u < 0.35:
            s["link"] = "probit"
        elif u < 0.4:
            s["link"] = "cloglog"
        if self.p(0.2):
            s["weights"] = True
        if k == "pair" and self.p(0.3):
            s["home"] = True
        if k == "pair" and self.p(0.15):
            s["offset"] = True
        s["resp"] = r.choices(["int", "factor", "logical"], [8, 1, 1])[0] if "weights" not in s and s.get("family") != "poisson" else "int"
        s.update(kw)
        return s

    def sibling(self, s):
        """A model of exactly the same dimensions that differs in one thing."""
        r = self.r
        t = dict(s)
        what = self.pick("data", "data", "link", "sd", "resp", "weights")
        if what == "link" and t.get("family") != "poisson":
            t["link"] = "probit" if t.get("link", "logit") != "probit" else "logit"
        elif what == "weights" and t.get("family") != "poisson" and t.get("resp", "int") == "int":
            if t.pop("weights", None) is None:
                t["weights"] = True
        elif what == "sd":
            t["sd"] = 0.5 if t["sd"] != 0.5 else 1.5
        else:
            t["variant"] = r.randrange(1, 100000)
        return t

    def method(self, s, only=None, fit=False):
        """A method and its control that work for this model."""
        r = self.r
        ok = ["Laplace"]
        fam, link = s.get("family", "binomial"), s.get("link", "probit" if False else "logit")
        if fam == "binomial" and link in ("logit", "probit") and not s.get("offset"):
            ok += ["SR"] * 3
        if s["kind"] != "nofix" and not s.get("offset"):
            ok += ["IS"]
        if s["kind"] in SCALAR:
            ok += ["AGQ"]
        if s["kind"] != "nofix" and not s.get("offset") and ((fam == "poisson") or link == "logit") and s["kind"] != "corr" and not s.get("weights"):
            ok += ["Laplace2"]
        if only:
            ok = [m for m in ok if m in only] or ["Laplace"]
        m = r.choice(ok)
        if m == "Laplace":
            c = {} if self.p(0.5) else {"order": 1}
            return "Laplace", c
        if m == "Laplace2":
            return "Laplace", {"order": 2}
        if m == "AGQ":
            return "AGQ", {"nAGQ": self.pick(2, 5, 9, 15)}
        if m == "IS":
            return "IS", {"nIS": self.pick(20, 50, 200)}
        k = s["kind"]
        if k in ("two_level", "icept", "nofix", "two_x"):
            l = self.pick(0, 1, 2, 3, 4) if not fit else self.pick(0, 1, 2, 3)
        elif k == "three_level":
            l = self.pick(0, 1, 2, 3) if not fit else self.pick(0, 1, 2)
        elif k in ("corr", "uncorr"):
            l = self.pick(0, 1, 2) if not fit else self.pick(0, 1)
        else:
            l = self.pick(0, 1, 1) if s["groups"] <= 5 and not fit else self.pick(0, 1)
        return "SR", {"nSL": l}

    # ---------------------------------------------------------------- parameter points
    def fresh(self, s):
        t, b = shape(s)
        r = self.r
        return [round(r.choice([r.uniform(0.1, 1.8), 0.5, 1.0]), 3) for _ in range(t)] + \
               [round(r.uniform(-1, 1), 3) for _ in range(b)]

    def move(self, s, hist):
        """Another point for a function that has been evaluated at hist."""
        r = self.r
        t, b = shape(s)
        good = [h for h in hist if len(h) == t + b and all(isinstance(v, (int, float)) for v in h)]
        if not good or self.p(0.15):
            return self.fresh(s)
        x = list(r.choice(good[-4:]) if self.p(0.8) else r.choice(good))
        u = r.random()
        if u < 0.18:
            return x                                                # again
        if u < 0.24:
            return list(good[0])
        if u < 0.46:                                                # one coordinate, perhaps barely
            i = r.randrange(len(x))
            x[i] += r.choice([-1, 1]) * 10.0 ** -r.choice([0.3, 1, 2, 3, 4, 5, 6, 7])
            return x
        if u < 0.54:                                                # only the thetas / only the betas
            y = self.fresh(s)
            return y[:t] + x[t:] if self.p(0.5) else x[:t] + y[t:]
        if u < 0.62 and len(x) > 1:                                 # same numbers, other places
            i, j = r.sample(range(len(x)), 2)
            x[i], x[j] = x[j], x[i]
            return x
        if u < 0.68 and len(x) > 1:                                 # same sum
            i, j = r.sample(range(len(x)), 2)
            d = r.choice([0.125, 0.25, 0.01])
            x[i] += d
            x[j] -= d
            return x
        if u < 0.74:                                                # mirrored
            k = self.pick("theta", "beta", "all", "one")
            if k == "one":
                i = r.randrange(len(x))
                x[i] = -x[i]
            else:
                for i in range(len(x)):
                    if k == "all" or (k == "theta") == (i < t):
                        x[i] = -x[i]
            return x
        if u < 0.79:
            i = r.randrange(t)
            x[i] = r.choice([0, 0.0, 1e-8, 4.9, 5.1, 12.0])
            return x
        if u < 0.83 and b:
            i = t + r.randrange(b)
            x[i] = r.choice([0, 20.0, -20.0, 3.0])
            return x
        if u < 0.88:
            i = r.randrange(len(x))
            x[i] = r.choice(["NaN", "Inf", "-Inf", "NA"])
            return x
        if u < 0.92:
            return x[:-1] if self.p(0.5) else x + [0.1]
        return [round(v * r.choice([0.5, 2, 1.1]), 6) for v in x]

    # ---------------------------------------------------------------- operations
    def o_modfr(self, s=None, **kw):
        s = s or self.spec()
        i = self.id("m")
        self.models[i] = s
        return {"op": "modfr", "id": i, "spec": s, **kw}

    def o_lfun(self, m, mc=None, **kw):
        i = self.id("f")
        meth, con = mc or self.method(self.models[m])
        self.funs[i] = (m, meth, con)
        self.pts[i] = []
        o = {"op": "lfun", "id": i, "m": m, "method": meth, "control": con, **kw}
        if meth == "IS" and "rng" not in o:
            o["rng"] = self.rng()
        return o

    def o_fit(self, m, mc=None, **kw):
        i = self.id("a")
        meth, con = mc or self.method(self.models[m], only=["Laplace", "SR", "Laplace", "AGQ"], fit=True)
        if meth == "Laplace" and self.p(0.25) and "order" not in con and self.models[m]["kind"] != "corr" and \
                self.models[m].get("link", "logit") == "logit" and not self.models[m].get("weights") and not self.models[m].get("offset"):
            con = {**con, "check_Laplace": True}
        self.fits[i] = (m, meth, con)
        self.pts[i] = []
        o = {"op": "fit", "id": i, "m": m, "method": meth, "control": con, "verbose": 0, **kw}
        if meth == "IS" and "rng" not in o:
            o["rng"] = self.rng()
        return o

    def spec_of(self, f):
        m = (self.funs.get(f) or self.fits.get(f))[0]
        return self.models[m]

    def o_eval(self, f, x=None, **kw):
        s = self.spec_of(f)
        x = x if x is not None else self.move(s, self.pts[f])
        self.pts[f].append(x)
        return {"op": "eval", "f": f, "x": x, **kw}

    def o_draw(self):
        return {"op": "draw", "how": self.pick("unif", "norm", "int"), "n": self.pick(1, 2, 3, 5)}

    def f_alloc(self, early=0.5):
        r = self.r
        u = r.random()
        ln = self.pick(1, 1, 1, 2, 5, 40, 10 ** 9)
        if self.p(0.45):
            return {"kind": "alloc", "site": round(r.random(), 5), "frac": round(r.random() ** self.pick(1, 3), 5), "len": ln}
        if u < 0.72:
            if self.p(early):
                return {"kind": "alloc", "frac": round(r.random() ** 2 * 0.12, 5), "len": ln}
            return {"kind": "alloc", "frac": round(r.random(), 5), "len": ln}
        if u < 0.82:
            return {"kind": "alloc", "frac": round(r.random(), 5), "len": ln, "min": self.pick(64, 256, 1024)}
        if u < 0.92:
            return {"kind": "budget", "frac": round(r.random(), 4)}
        return {"kind": "rvec", "frac": round(r.random(), 4), "min": self.pick(256, 1024, 4096)}

    def f_err(self, **kw):
        return {"kind": "err", "msg": "lost contact with node %d" % self.r.randrange(1000),
                "cls": self.pick("plain", "plain", "numericError", "simpleError"), **kw}

    def region(self, s):
        """A half-space of trial points away from the starting value."""
        r = self.r
        t, _ = shape(s)
        u = r.random()
        if u < 0.6:
            return {"a": [r.choice([1, 1, 1, -1])] + [r.choice([0, 1, -1]) for _ in range(t - 1)], "c": round(r.uniform(0.52, 1.4), 3)}
        if u < 0.8:
            return {"a": [1] * t, "c": round(0.5 * t + r.uniform(0.02, 0.7), 3)}
        return {"a": [0] * t, "b": r.choice([1, -1]), "c": round(r.uniform(0.01, 0.5), 3)}

    def setup(self, n_models, n_funs, kinds=None, methods=None, siblings=False, **kw):
        ops = []
        ms = []
        for i in range(n_models):
            if siblings and ms and self.p(0.75):
                s = self.sibling(self.models[self.r.choice(ms)])
            else:
                s = self.spec(kinds)
            o = self.o_modfr(s, **kw)
            ops.append(o)
            ms.append(o["id"])
        for i in range(n_funs):
            m = ms[i % len(ms)] if i < len(ms) else self.r.choice(ms)
            mc = self.method(self.models[m], methods)
            if siblings and self.funs and self.p(0.6):      # the same method as another, perhaps another level
                (_, meth, con) = self.r.choice(list(self.funs.values()))
                names = {"Laplace": ["Laplace"], "SR": ["SR"], "IS": ["IS"], "AGQ": ["AGQ"]}[meth]
                alt = self.method(self.models[m], names)
                if alt[0] == meth:
                    mc = (meth, dict(con)) if self.p(0.5) and (meth != "Laplace" or con.get("order", 1) == 1) and meth != "SR" else alt
            ops.append(self.o_lfun(m, mc, **kw))
        return ops

    # ================================================================ one generator per property
    def C01(self):
        """Long histories on one or two likelihood functions."""
        if self.p(0.1):
            return self.marathon()
        ops = self.setup(self.pick(1, 1, 2), self.pick(1, 1, 2, 3))
        fs = list(self.funs)
        n = self.pick(15, 30, 60) * (3 if self.deep and self.p(0.4) else 1)
        if any(self.models[m]["kind"] in ("crossed", "pair", "pairobs", "pair2", "corr") and meth == "SR" for m, meth, _ in self.funs.values()):
            n = min(n, 30)
        for i in range(n):
            f = self.r.choice(fs)
            u = self.r.random()
            if u < 0.90:
                o = self.o_eval(f)
                if self.p(0.05):
                    o["fault"] = [self.f_err(at=1)]
                elif self.p(0.03):
                    o["fault"] = [{"kind": "dev", "value": self.pick("NaN", "Inf", "-Inf"), "at": 1}]
                elif self.p(0.05):
                    o["fault"] = [self.f_check("limit")]
                ops.append(o)
            elif u < 0.93:
                ops.append({"op": "gc"})
            elif u < 0.95 and len(self.funs) < 5:
                ops.append(self.o_lfun(self.funs[f][0], (self.funs[f][1], self.funs[f][2]) if self.p(0.5) else None))
                fs = list(self.funs)
            elif u < 0.965 and not self.fits and self.spec_of(f)["kind"] in ("two_level", "icept", "pair"):
                o = self.o_fit(self.funs[f][0])
                ops.append(o)
                ops.append(self.o_eval(o["id"]))
            else:
                ops.append(self.o_draw())
        return self.plan([ops])

    def marathon(self):
        """One function, evaluated hundreds of times at a few points."""
        r = self.r
        s = self.spec(["icept", "two_level", "nofix"])
        ops = [self.o_modfr(s)]
        o = self.o_lfun(list(self.models)[0], self.pick(("Laplace", {}), ("SR", {"nSL": self.pick(0, 1)}), self.method(s)))
        ops.append(o)
        f = o["id"]
        for _ in range(self.pick(4, 8, 12)):
            self.move(s, self.pts[f])
            self.pts[f].append(self.move(s, self.pts[f]))
        pts = list(self.pts[f])
        w = [r.choice([1, 1, 5]) for _ in pts]
        for _ in range(self.pick(150, 300, 600) * (2 if self.deep else 1)):
            e = {"op": "eval", "f": f, "x": r.choices(pts, w)[0]}
            if self.p(0.01):
                e["fault"] = [self.f_err(at=1)]
            ops.append(e)
        return self.plan([ops])

    def C02(self):
        """Several likelihoods, some of them look-alikes, whose computations interleave."""
        sib = self.p(0.8)
        ops = self.setup(self.pick(1, 2, 2, 3), self.pick(2, 3, 4), siblings=sib)
        fs = list(self.funs)
        pool = {}
        for i in range(self.pick(12, 20, 30)):
            f = self.r.choice(fs)
            u = self.r.random()
            t = shape(self.spec_of(f))
            # the same numbers given to different functions
            x = None
            if pool.get(t) and self.p(0.5):
                x = self.r.choice(pool[t])
            if u < 0.72:
                o = self.o_eval(f, x)
                if len(o["x"]) == sum(t) and all(isinstance(v, (int, float)) for v in o["x"]):
                    pool.setdefault(t, []).append(o["x"])
                if self.p(0.5) and len(fs) > 1:
                    o["fault"] = [self.nest([g for g in fs if g != f], pool)]
                    if self.p(0.4):
                        o["fault"] = [self.f_check("event", ops=o["fault"][0]["ops"])]
                ops.append(o)
            elif u < 0.80:
                sub = [self.o_eval(self.r.choice(fs), x if self.p(0.3) and x and sum(shape(self.spec_of(f))) == sum(t) else None) for _ in range(self.pick(1, 2, 3))]
                ops.append({"op": "fork", "ops": sub})
            elif u < 0.86 and len(self.fits) < 2 and self.spec_of(f)["kind"] in ("two_level", "icept", "three_level", "pair"):
                o = self.o_fit(self.funs[f][0], fault=[self.nest(fs, pool, frac=True)])
                if self.p(0.5):
                    o["fault"] = [self.f_check("event", ops=o["fault"][0]["ops"])]
                ops.append(o)
                ops.append(self.o_eval(o["id"]))
                if self.p(0.5):
                    ops.append({"op": "post", "f": o["id"], "what": self.pick("coef", "vcov", "print")})
            elif u < 0.93:
                m = self.funs[f][0]
                ev = self.f_check("event", ops=self.nest(fs, pool)["ops"]) if self.p(0.5) else None
                o = self.o_lfun(m, (self.funs[f][1], self.funs[f][2]) if self.p(0.5) else None)
                if ev and o["method"] != "IS":
                    o["fault"] = [ev]
                ops.append(o)
                fs = list(self.funs)
            else:
                victim = self.r.choice(fs)
                if len(fs) > 2:
                    ops.append({"op": "drop", "ids": [victim], "gc": True})
                    fs.remove(victim)
        return self.plan([ops])

    def nest(self, fs, pool, frac=False):
        sub = []
        for _ in range(self.pick(1, 1, 2)):
            g = self.r.choice(fs)
            t = shape(self.spec_of(g))
            o = self.o_eval(g, self.r.choice(pool[t]) if pool.get(t) and self.p(0.4) else None)
            others = [h for h in fs if h != g]
            if others and self.p(0.15):
                o["fault"] = [{"kind": "nest", "at": 1, "where": self.pick("before", "after"),
                               "ops": [self.o_eval(self.r.choice(others))]}]
            sub.append(o)
        d = {"kind": "nest", "where": self.pick("before", "after"), "ops": sub}
        if frac:
            d["frac"] = round(self.r.random(), 3)
        else:
            d["at"] = 1
        return d

    def C03(self):
        """Memory runs out inside operations; life goes on afterwards."""
        kinds = self.pick(None, ["pair", "pairobs", "three_level", "uncorr", "corr"], ["two_level", "three_level"])
        ops = self.setup(1, self.pick(1, 2), kinds=kinds, methods=["SR", "SR", "IS", "Laplace", "Laplace2", "AGQ"] if self.p(0.4) else ["SR"])
        fs = list(self.funs)
        m = list(self.models)[0]
        for i in range(self.pick(6, 10, 16)):
            f = self.r.choice(fs)
            u = self.r.random()
            if u < 0.72:
                bad = self.o_eval(f, fault=[self.f_alloc(0.6)])
                ops.append(bad)
                k = self.pick(1, 1, 2)
                for j in range(k):
                    x = bad["x"] if self.p(0.7) else None
                    o = self.o_eval(f, x)
                    if self.p(0.15):
                        o["fault"] = [self.f_alloc()]
                    ops.append(o)
                if self.p(0.2):
                    ops.append(self.o_eval(self.r.choice(fs)))
            elif u < 0.82:
                o = self.o_lfun(m)
                o["fault"] = [self.f_alloc(0.2)]
                del self.funs[o["id"]]
                ops.append(o)
                ops.append({**{k: v for k, v in o.items() if k != "fault"}, "id": o["id"] + "b"})
                ops.append({"op": "eval", "f": o["id"] + "b", "x": self.fresh(self.models[m])})
            elif u < 0.9 and len(self.fits) < 1 and self.models[m]["kind"] in ("two_level", "icept", "two_x", "pair", "three_level"):
                o = self.o_fit(m, trace=True, fault=[self.f_alloc(0.1)], snap=True)
                ops.append(o)
                for g in fs:
                    ops.append(self.o_eval(g))
            else:
                ops.append({"op": "gc"})
        ops.append({"op": "heap"})
        for o in ops:
            if o.get("fault") and o["op"] in ("eval", "lfun") and self.p(0.3):
                o["snap"] = True
        return self.plan([ops], poison=self.pick(0, 1, 2, 3, 4, 5), quarantine=self.pick(0, 64, 512))

    def f_intr(self, frac=False):
        u = self.r.random()
        if u < 0.35:
            d = {"kind": "intr", "where": self.pick("before", "after")}
            if frac:
                # anywhere, but often where an operation starts and ends
                d["frac"] = round(self.pick(self.r.random(), self.r.random(), self.r.random() ** 4, 1 - self.r.random() ** 6 * 0.5 - 1e-6), 6)
            else:
                d["at"] = 1
            return d
        if u < 0.65:
            d = {"kind": "intr_alloc", "frac": round(self.r.random() if self.p(0.6) else self.r.random() * 0.1, 5)}
            if self.p(0.5):
                d["site"] = round(self.r.random(), 5)
            return d
        return self.f_check("pending")

    def f_check(self, kind, **kw):
        """At one of R's checks for events: first by the function that is at work, then by when."""
        return {"kind": kind, "phase": self.r.randrange(0, 1000), "lab": round(self.r.random(), 4), "frac": round(self.r.random(), 5), **kw}

    def f_edge(self, of=None, mx=None):
        return {"kind": "edge", "of": of or self.pick(1, 2, 3, 7, 20, 60), "max": mx or self.pick(4, 12, 25), "seed": self.r.randrange(1, 1 << 30)}

    BAD = ["nocol", "nogroup", "onelevel", "na", "nax", "noresp", "short", "noterm", "nosub", "respchar", "family"]

    def bad_modfr(self, **kw):
        """A model frame that cannot be made."""
        s = dict(self.spec())
        s["bad"] = self.pick(*self.BAD, *(["badsub"] * 4 if s["kind"] == "pair" else []))
        o = self.o_modfr(s, **kw)
        self.models.pop(o["id"])
        return o

    def bad_lfun(self, m, **kw):
        """A likelihood function that cannot be made."""
        meth, con = self.pick(("XX", {}), ("SR", {"nSLL": 2}), ("Laplace", {"order": 3}), ("AGQ", {"nAGQ": -1}), ("IS", {"nIS": 0}), ("SR", {"nSL": -1}), ("IS", {"nIS": "many"}))
        o = self.o_lfun(m, (meth, con), **kw)
        self.funs.pop(o["id"])
        o.pop("rng", None)
        return o

    def bad_post(self, f, **kw):
        """A fit somebody has been at is printed."""
        return {"op": "post", "f": f, "what": self.pick("print", "summary", "print", "summary", "coef", "vcov"), "check": False,
                "broken": {self.pick("estim", "Sigma", "modfr", "method", "control", "laplace_divergence"): self.pick("NULL", "junk", [], [1.5])}, **kw}

    def C04(self):
        """The user interrupts operations, and then carries on."""
        ops = self.setup(1, self.pick(1, 2, 3))
        fs = list(self.funs)
        m = list(self.models)[0]
        fitted = False
        for i in range(self.pick(6, 10, 14)):
            f = self.r.choice(fs)
            u = self.r.random()
            if u < 0.6 or (self.models[m]["kind"] not in ("two_level", "icept", "two_x", "pair", "three_level", "pairobs")):
                bad = self.o_eval(f, fault=[self.f_intr()], snap=self.p(0.4))
                ops.append(bad)
                ops.append(self.o_eval(f, bad["x"] if self.p(0.6) else None))
                if self.p(0.3):
                    ops.append(self.o_eval(self.r.choice(fs)))
            elif u < 0.72:
                o = self.o_lfun(m, fault=[self.f_intr()])
                del self.funs[o["id"]]
                ops.append(o)
                ops.append(self.o_eval(f))
            elif u < 0.95:
                fl = [self.f_intr(frac=True)]
                o = self.o_fit(m, fault=fl, snap=True, verbose=self.pick(0, 0, 1, 2), capture=True)
                if o["method"] == "IS":
                    continue
                if o["method"] == "Laplace" and o["control"].get("order", 1) == 1 and self.models[m]["kind"] != "corr" and \
                        self.models[m].get("link", "logit") == "logit" and not self.models[m].get("weights") and not self.models[m].get("offset") and self.p(0.6):
                    o["control"] = {**o["control"], "check_Laplace": True}
                    if self.p(0.7):
                        fl[0] = self.f_check("pending")
                if self.p(0.25):
                    fl.append(self.f_err(frac=0.2))
                if not fitted and self.p(0.6):
                    del self.fits[o["id"]]
                    ops.append(o)
                    o2 = self.o_fit(m, (o["method"], o["control"]))
                    ops.append(o2)
                    ops.append(self.o_eval(o2["id"]))
                    fitted = True
                else:
                    del self.fits[o["id"]]
                    ops.append(o)
                ops.append(self.o_eval(f))
            else:
                ops.append({"op": "gc"})
        return self.plan([ops])

    def fit_model(self, methods=("Laplace", "SR"), kinds=("two_level", "icept", "two_x", "three_level", "pair", "pairobs", "uncorr")):
        s = self.spec(list(kinds), fit=True)
        s.pop("offset", None)
        if s["kind"] in ("uncorr", "pairobs") and "SR" in methods:
            methods = [m for m in methods if m != "SR"] or ["Laplace"]
        return s, list(methods)

    def C05(self):
        """Fits in which the likelihood cannot be computed at some of the trial points."""
        r = self.r
        ops = []
        s, methods = self.fit_model(("Laplace", "SR", "SR", "Laplace2"))
        o = self.o_modfr(s)
        ops.append(o)
        m = o["id"]
        f = None
        if self.p(0.4):
            f = self.o_lfun(m)
            ops.append(f)
            ops.append(self.o_eval(f["id"]))
        for i in range(self.pick(1, 2, 2)):
            mc = self.method(s, methods, fit=True)
            u = r.random()
            kw = {"trace": True, "snap": self.p(0.3)}
            if u < 0.42:                       # a region of failing points, and its twin
                rg = self.region(s)
                e = {"kind": "err", "msg": "no approximation here", "cls": self.pick("plain", "numericError"), "region": rg}
                kw["fault"] = [e]
                kw["twin"] = [{"kind": "dev", "value": "Inf", "region": rg}]
            elif u < 0.55:
                rg = self.region(s)
                kw["fault"] = [{"kind": "dev", "value": self.pick("Inf", "Inf", "NaN"), "region": rg}]
                if kw["fault"][0]["value"] == "NaN":
                    kw["fault"] = [{"kind": "err", "msg": "not a number", "cls": "plain", "region": rg}]
                    kw["twin"] = [{"kind": "dev", "value": "Inf", "region": rg}]
            elif u < 0.75:                     # transient failures
                kw["fault"] = [self.f_err(frac=round(r.uniform(0.05, 0.95), 3), len=self.pick(1, 1, 2, 3))]
                if self.p(0.4):
                    kw["fault"].append(self.f_err(frac=round(r.uniform(0.05, 0.95), 3)))
                for q in kw["fault"]:
                    q["past"] = 2
            elif u < 0.92:                     # the starting value itself
                kw["fault"] = [self.f_err(at=1)]
                kw["startfail"] = True
                kw["check"] = False
            elif u < 0.96:
                kw["fault"] = [self.f_alloc(0.0)]
            else:
                kw["fault"] = [self.f_check("limit")]
            if self.p(0.3):
                kw["startx"] = [round(v, 3) for v in self.fresh(s)]
                if "region" in (kw["fault"][0] if kw.get("fault") else {}):
                    kw.pop("startx")
            a = self.o_fit(m, mc, **kw)
            a["control"] = {k: v for k, v in a["control"].items() if k != "check_Laplace"}
            ops.append(a)
            if f and self.p(0.7):
                ops.append(self.o_eval(f["id"]))
            if self.p(0.3) and not kw.get("startfail"):
                ops.append(self.o_eval(a["id"]))
        if self.p(0.3):
            ops.append(self.o_fit(m, self.method(s, methods, fit=True)))
        return self.plan([ops])

    def C06(self):
        """Nobody's variables change, however operations end."""
        r = self.r
        w = {"rng": self.rng(absent=True)}
        if self.p(0.6):
            w["options"] = {}
            for k, vs in (("digits", [4, 7, 10]), ("OutDec", ["."]), ("width", [60, 100]), ("warn", [0, 1]),
                          ("stringsAsFactors", [False]), ("scipen", [0, 5]),
                          ("expressions", [5000, 3000]), ("max.print", [200])):
                if self.p(0.3):
                    w["options"][k] = r.choice(vs)
        if self.p(0.8):
            w["globals"] = {}
            for k in ("weights", "offset", "off", "data", "family", "theta", "x", "y", "g", "formula", "modfr", "pars",
                      "count", "print_gap", "started", "con", "lfun", "mu", "ability", "p1", "control", "method", "subvar", "T"):
                if self.p(0.3):
                    w["globals"][k] = r.choice([1.5, [1, 2, 3], "mine", True])
            for k in ("ability", "p1", "y", "g", "x", "T", "off"):
                w["globals"].pop(k, None) if self.p(0.5) else None
        ops = []
        for _ in range(self.pick(1, 2)):
            ops.append(self.o_modfr(self.spec(weights=True) if self.p(0.4) else self.spec(), snap=True))
        for mo in list(ops):
            if mo["spec"].get("weights"):
                mo["spec"]["resp"] = "int"
        ms = list(self.models)
        for i in range(self.pick(7, 10, 14)):
            u = r.random()
            m = r.choice(ms)
            fl = None
            v = r.random()
            if u < 0.2:
                o = self.o_lfun(m, snap=True)
                if self.p(0.5):
                    o.pop("rng", None)
                if self.p(0.25):
                    o["fault"] = [self.pick(self.f_intr(), self.f_alloc(), self.f_check("limit"))]
                    self.funs.pop(o["id"])
                ops.append(o)
            elif u < 0.48 and self.funs:
                o = self.o_eval(r.choice(list(self.funs)), snap=True, capture=self.p(0.3))
                if v < 0.15:
                    o["fault"] = [self.f_alloc()]
                elif v < 0.30:
                    o["fault"] = [self.f_intr()]
                elif v < 0.42:
                    o["fault"] = [self.f_err(at=1)]
                elif v < 0.52:
                    o["fault"] = [self.f_check("limit")]
                ops.append(o)
            elif u < 0.68 and self.models[m]["kind"] in ("two_level", "icept", "two_x", "pair", "three_level", "corr"):
                kw = {"snap": True, "capture": True, "verbose": self.pick(0, 1, 2)}
                prior = [a for a in self.fits if self.models[self.fits[a][0]] == self.models[m]]
                if prior and self.p(0.5):
                    kw["prev"] = r.choice(prior)
                if self.models[m]["kind"] == "corr":
                    o = self.o_fit(m, ("Laplace", {}), **kw)
                else:
                    o = self.o_fit(m, self.method(self.models[m], ["Laplace", "SR", "IS"] if self.p(0.2) else ["Laplace", "SR"], fit=True), **kw)
                    if self.p(0.5):
                        o.pop("rng", None)
                w_ok = self.models[m]["kind"] != "corr"
                if v < 0.12:
                    o["fault"] = [self.f_err(at=1, )]
                    o["check"] = False
                    w_ok = False
                elif v < 0.30:
                    o["fault"] = [self.f_intr(frac=True)]
                    w_ok = False
                elif v < 0.42:
                    o["fault"] = [self.f_err(frac=round(r.random(), 2))]
                elif v < 0.47:
                    o["fault"] = [{"kind": "stdout"}]
                elif v < 0.5:
                    o["fault"] = [{"kind": "pipe", "frac": round(r.random(), 3)}]
                    w_ok = False
                elif v < 0.56:
                    o["fault"] = [self.f_check("limit")]
                    w_ok = False
                elif v < 0.62:
                    o["fault"] = [self.f_alloc(0.1)]
                    w_ok = False
                o["check"] = False
                if not w_ok:
                    self.fits.pop(o["id"])
                ops.append(o)
            elif self.fits and self.p(0.6):
                f = r.choice(list(self.fits))
                if self.p(0.3):
                    ops.append(self.bad_post(f, snap=True))
                    continue
                o = {"op": "post", "f": f, "what": self.pick("coef", "vcov", "print", "print", "summary", "summary"), "snap": True, "check": False}
                if v < 0.45:
                    o["fault"] = [self.f_check(self.pick("pending", "limit"))]
                elif v < 0.6:
                    o["fault"] = [{"kind": "stdout"}]
                ops.append(o)
                if self.p(0.5):
                    ops.append(dict(o, fault=[self.f_check(self.pick("pending", "limit"))]))
            elif v < 0.25:
                ops.append(self.bad_modfr(snap=True))
            elif v < 0.35:
                ops.append(self.bad_lfun(m, snap=True))
            else:
                s2 = self.spec()
                o = self.o_modfr(s2, snap=True)
                if v < 0.75:
                    o["fault"] = [self.f_check(self.pick("pending", "limit")) if self.p(0.6) else self.pick(self.f_intr(), self.f_alloc())]
                    self.models.pop(o["id"])
                else:
                    ms.append(o["id"])
                ops.append(o)
        for o in ops:
            o["check"] = False
        return self.plan([ops], **w)

    def C07(self):
        """The user's random numbers, between and around everything glmmsr does."""
        r = self.r
        w = {"rng": self.rng()}
        ops = []
        for _ in range(self.pick(1, 1, 2)):
            ops.append(self.o_modfr())
        ms = list(self.models)
        ops.append(self.o_draw())
        for i in range(self.pick(8, 12, 18)):
            u = r.random()
            m = r.choice(ms)
            if u < 0.25 or not self.funs:
                o = self.o_lfun(m)
                if self.p(0.5):
                    o.pop("rng", None)
                    o["norng"] = True
                    o["check"] = False
                ops.append(o)
            elif u < 0.62:
                f = r.choice(list(self.funs))
                o = self.o_eval(f)
                fo = [q for q in ops if q.get("id") == f][0]
                if fo.get("norng") and fo["method"] == "IS":
                    o["check"] = False
                if self.p(0.1):
                    o["fault"] = [self.f_err(at=1)]
                elif self.p(0.06):
                    o["fault"] = [self.f_check("limit")]
                elif self.p(0.1):
                    o["fault"] = [self.f_intr()]
                ops.append(o)
                if self.p(0.4):
                    ops.append(self.o_eval(f, o["x"], **({"check": False} if o.get("check") is False else {})))
            elif u < 0.76 and self.models[m]["kind"] in ("two_level", "icept", "pair"):
                mc = self.method(self.models[m], ["Laplace", "SR", "AGQ", "IS"], fit=True)
                kw = {"verbose": self.pick(0, 0, 1, 2)}
                prior = [a for a in self.fits if shape(self.spec_of(a)) == shape(self.models[m])]
                if prior and self.p(0.7):
                    kw["prev"] = r.choice(prior)
                elif self.p(0.3):
                    kw["startx"] = [round(v, 3) for v in self.fresh(self.models[m])]
                if self.p(0.15) and mc[0] != "IS":
                    kw["fault"] = [self.f_err(frac=round(r.random(), 2), len=self.pick(1, 2, 3))] if self.p(0.5) else [self.f_intr(frac=True)]
                    kw["check"] = False
                o = self.o_fit(m, mc, **kw)
                if kw.get("fault"):
                    self.fits.pop(o["id"])
                if mc[0] == "IS":
                    o["control"] = {"nIS": 20}
                    o["check"] = False
                    if self.p(0.5):
                        o.pop("rng")
                ops.append(o)
            elif u < 0.82 and self.fits:
                ops.append({"op": "post", "f": r.choice(list(self.fits)), "what": self.pick("coef", "print", "summary"), "check": False})
            elif u < 0.9:
                ops.append({"op": "rng", "rng": self.rng()})
            ops.append(self.o_draw())
        for o in ops:
            o.pop("norng", None)
        p = self.plan([ops], **w)
        p["stream"] = True
        return p

    def C08(self):
        """Clocks of every kind, and whatever is or is not printed."""
        r = self.r
        ops = []
        s, methods = self.fit_model(("Laplace", "SR", "Laplace", "Laplace2", "AGQ"))
        o = self.o_modfr(s)
        ops.append(o)
        m = o["id"]
        if self.p(0.3):
            f = self.o_lfun(m)
            ops.append(f)
            ops.append(self.o_eval(f["id"], capture=True))
        for i in range(self.pick(1, 2, 3)):
            mc = self.method(s, methods, fit=True)
            vb = self.pick(0, 0, 1, 1, 1, 2, 2)
            fl = []
            cost = None
            if self.p(0.8):
                cost = self.pick(0, 1e-6, 0.0004, 0.003, 0.02, 0.08, 0.12, 0.3, 0.7, 1.3, 3.0, 20.0, 400.0)
                fl.append({"kind": "clock", "cost": cost})
            jumps = 0
            for _ in range(self.pick(0, 0, 1, 2)):
                d = self.pick(-3600.0, -1.0, 0.5, 5.0, 86400.0, -1e9, 1e7)
                q = {"kind": "jump", "real": d}
                if self.p(0.4):
                    q["mono"] = abs(d)
                if self.p(0.5):
                    q["cpu"] = abs(d) if self.p(0.5) or d > 0 else d
                if self.p(0.5):
                    q["at"] = self.pick(1, 2, 2, 3)
                else:
                    q["frac"] = round(r.random(), 3)
                fl.append(q)
                jumps += 1
            kw = {"verbose": vb, "capture": True, "fault": fl}
            if self.p(0.15):
                fl.append({"kind": "stdout"})
            elif self.p(0.22):
                fl.append({"kind": "pipe", "frac": round(r.random(), 3)} if self.p(0.8) else {"kind": "pipe"})
                kw["verbose"] = self.pick(1, 2, 2)
                kw.pop("capture")
            if self.p(0.2):
                kw["startx"] = [round(v, 3) for v in self.fresh(s)]
            a = self.o_fit(m, mc, **kw)
            ops.append(a)
            if any(q["kind"] == "pipe" for q in fl):
                self.fits.pop(a["id"])
                continue
            if self.p(0.4):
                ops.append({"op": "post", "f": a["id"], "what": self.pick("print", "summary", "coef", "vcov")})
            if self.p(0.4):
                ops.append(self.o_eval(a["id"], capture=True, fault=[{"kind": "clock", "cost": self.pick(0.2, 50.0)}] if self.p(0.5) else []))
        return self.plan([ops])

    def C12(self):
        """What a fit says while it works."""
        r = self.r
        ops = []
        s, methods = self.fit_model(("Laplace", "SR", "Laplace", "Laplace2", "AGQ"))
        o = self.o_modfr(s)
        ops.append(o)
        m = o["id"]
        for i in range(self.pick(1, 2, 3)):
            mc = self.method(s, methods, fit=True)
            vb = self.pick(0, 1, 1, 1, 2, 2, 2)
            two = mc[1].get("order", 1) == 2
            fl = []
            kw = {"verbose": vb, "capture": True}
            if self.p(0.9):
                cost = self.pick(0, 1e-6, 0.0004, 0.003, 0.02, 0.05, 0.08, 0.12, 0.2, 0.3, 0.45, 0.7, 1.3, 3.0, 20.0, 400.0)
                if two:
                    cost = cost / 2
                fl.append({"kind": "clock", "cost": cost})
                kw["cadence"] = vb == 1 and not two and cost > 0
            else:
                fl.append({"kind": "jump", "real": self.pick(-3600.0, 86400.0, 7.0), "at": self.pick(1, 2, 3, 9)})
            if self.p(0.35):
                if self.p(0.5):
                    fl.append({"kind": "err", "msg": "no approximation here", "cls": "plain", "region": self.region(s)})
                else:
                    for _ in range(self.pick(1, 2)):
                        fl.append(self.f_err(at=r.randrange(3, 40), len=self.pick(1, 1, 2, 3)))
            elif self.p(0.25):
                kw["startx"] = [round(v, 3) for v in self.fresh(s)]
            kw["fault"] = fl
            if vb == 2 and not two:
                kw["trace"] = True
                kw["transcript"] = True
            if self.p(0.25):
                fl.append(self.pick(self.f_intr(frac=True), self.f_intr(frac=True), self.f_check("pending"), self.f_check("limit")))
            a = self.o_fit(m, mc, check=False, **kw)
            a["control"].pop("check_Laplace", None)
            ops.append(a)
            if any(q["kind"] in ("intr", "intr_alloc", "pending", "limit") for q in fl):
                self.fits.pop(a["id"])
            if self.p(0.3):
                f = self.o_lfun(m, capture=True, check=False)
                ops.append(f)
                for _ in range(self.pick(1, 2)):
                    ops.append(self.o_eval(f["id"], capture=True, check=False,
                               fault=[{"kind": "clock", "cost": self.pick(0.2, 50.0)}] if self.p(0.5) else []))
        return self.plan([ops])

    def C09(self):
        """Results are kept, the process ends somewhere, another takes over."""
        r = self.r
        s, methods = self.fit_model(("Laplace", "SR", "SR", "AGQ", "Laplace2"))
        e1 = []
        o = self.o_modfr(s)
        e1.append(o)
        m = o["id"]
        saved = []       # (id, file, kind)
        for i in range(self.pick(1, 1, 2)):
            mc = self.method(s, methods, fit=True)
            a = self.o_fit(m, mc)
            e1.append(a)
            fn = "%s.rds" % a["id"]
            e1.append({"op": "save", "id": a["id"], "file": fn, "compress": self.p(0.3), "version": self.pick(2, 3)})
            saved.append((a["id"], fn, "fit", m))
            if self.p(0.5):
                e1.append({"op": "post", "f": a["id"], "what": self.pick("coef", "summary")})
        if self.p(0.6):
            fn = "%s.rds" % m
            e1.append({"op": "save", "id": m, "file": fn})
            saved.append((m, fn, "modfr", m))
        if self.p(0.5):
            f = self.o_lfun(m)
            e1.append(f)
            e1.append(self.o_eval(f["id"]))
            fn = "%s.rds" % f["id"]
            e1.append({"op": "save", "id": f["id"], "file": fn})
            saved.append((f["id"], fn, "lfun", m))
        if self.p(0.7):
            k = self.pick("exit", "die", "die")
            if k == "exit":
                e1.append({"op": "exit"})
            else:
                q = self.o_fit(m, self.method(s, methods, fit=True), fault=[{"kind": "die", "frac": round(r.random(), 3)}])
                self.fits.pop(q["id"])
                e1.append(q)
        epochs = [e1]
        for ep in range(self.pick(1, 1, 2)):
            e = []
            have = []
            for (i, fn, kind, mm) in saved:
                n = self.id({"fit": "L", "modfr": "M", "lfun": "F"}[kind])
                e.append({"op": "load", "id": n, "file": fn, "as": kind})
                if kind == "fit":
                    self.fits[n] = self.fits[i]
                    self.pts[n] = list(self.pts[i])
                elif kind == "lfun":
                    self.funs[n] = self.funs[i]
                    self.pts[n] = list(self.pts[i])
                else:
                    self.models[n] = self.models[i]
                have.append((n, kind, i))
            r.shuffle(have)
            for (n, kind, i) in have:
                if kind == "fit":
                    for w in r.sample(["coef", "vcov", "print", "summary"], self.pick(1, 2, 4)):
                        e.append({"op": "post", "f": n, "what": w})
                    for _ in range(self.pick(0, 1, 3)):
                        e.append(self.o_eval(n))
                    if self.p(0.5):
                        # continue from the kept fit
                        m2 = self.o_modfr(s)
                        e.append(m2)
                        e.append(self.o_fit(m2["id"], self.method(s, methods, fit=True), prev=n))
                        if self.p(0.3):
                            e.append(self.o_eval(e[-1]["id"]))
                elif kind == "modfr":
                    f = self.o_lfun(n)
                    self.funs[f["id"]] = (m, f["method"], f["control"])
                    e.append(f)
                    for _ in range(self.pick(1, 3)):
                        e.append(self.o_eval(f["id"]))
                else:
                    for _ in range(self.pick(1, 3)):
                        e.append(self.o_eval(n))
            if ep == 0 and self.p(0.3):
                e.append({"op": "exit"})
            epochs.append(e)
        return self.plan(epochs)

    def C10(self):
        """Garbage collections anywhere, memory full of anything."""
        r = self.r
        ops = self.setup(self.pick(1, 2), self.pick(2, 3), methods=["Laplace2"] if self.p(0.25) else None)
        fs = list(self.funs)
        budget = 6
        for i in range(self.pick(8, 12, 16)):
            u = r.random()
            f = r.choice(fs)
            if u < 0.62:
                o = self.o_eval(f)
                if self.p(0.4):
                    o["fault"] = [self.f_edge()]
                elif budget and self.p(0.3):
                    o["fault"] = [{"kind": "torture", "step": self.pick(200, 50, 997, 400), "wait": r.randrange(0, 500)}]
                    budget -= 1
                elif self.p(0.4):
                    o["fault"] = [{"kind": "gc", "at": 1}]
                ops.append(o)
            elif u < 0.74:
                # forget what the function was made from; it must live on
                m = self.funs[f][0]
                ops.append({"op": "drop", "ids": [m], "gc": True})
                ops.append(self.o_eval(f))
                o = self.o_modfr(self.models[m])
                ops.append(o)
                g = self.o_lfun(o["id"])
                if self.p(0.5):
                    g["fault"] = [self.f_edge()]
                elif budget and self.p(0.4):
                    g["fault"] = [{"kind": "torture", "step": self.pick(300, 1000, 2500), "wait": r.randrange(0, 900)}]
                    budget -= 1
                ops.append(g)
                fs.append(g["id"])
            elif u < 0.84:
                if len(fs) > 1:
                    fs.remove(f)
                    ops.append({"op": "drop", "ids": [f], "gc": True})
                    ops.append({"op": "heap"})
            elif u < 0.9:
                ops.append({"op": "gc"})
            elif not self.fits and self.spec_of(f)["kind"] in ("two_level", "icept", "pair"):
                o = self.o_fit(self.funs[f][0])
                o["fault"] = [{"kind": "torture", "step": self.pick(2000, 5000), "wait": r.randrange(0, 900)}] if self.p(0.5) else [{"kind": "gc", "frac": round(r.random(), 3)}]
                # the model may have been dropped
                if any(q["op"] == "drop" and self.funs[f][0] in q["ids"] for q in ops):
                    self.fits.pop(o["id"])
                    continue
                ops.append(o)
                ops.append({"op": "post", "f": o["id"], "what": self.pick("summary", "vcov")})
                ops.append(self.o_eval(o["id"]))
        ops.append({"op": "heap"})
        w = {"rng": self.rng()} if self.p(0.7) else {}
        return self.plan([ops], poison=r.randrange(1, 6), quarantine=self.pick(0, 64, 1024), zone=1 + self.pick(0, 0x3F, 0x40, 0x7F, 0xBF, 0xFF, 0xD7), **w)

    def C11(self):
        """The same work over and over: memory comes back, whatever way the work ends."""
        r = self.r
        ops = []
        s = self.spec()
        t = self.o_modfr(s)
        ops.append(t)
        m = t["id"]
        base = []
        fail = self.p(0.7)
        n = self.pick(1, 2, 3)
        with_make = self.p(0.6)
        if not with_make:
            f = self.o_lfun(m)
            ops.append(f)
        body = []
        meth = self.method(s)
        if with_make:
            f = self.o_lfun(m, meth)
            if fail and self.p(0.25):
                f["fault"] = [self.pick({"kind": "alloc", "frac": round(r.random(), 4)}, {"kind": "intr_alloc", "frac": round(r.random(), 4)},
                                        {"kind": "alloc", "site": round(r.random(), 5), "frac": round(r.random(), 5)})]
            body.append(f)
        for i in range(n):
            o = self.o_eval(f["id"], check=False)
            if fail and self.p(0.35):               # one that fails, or finds nothing, by itself
                x = self.fresh(s)
                u = r.random()
                if u < 0.35:
                    x = x[:-1] if self.p(0.5) else x + [0.1]
                elif u < 0.7:
                    x[r.randrange(len(x))] = self.pick("NaN", "Inf", "-Inf", "NA")
                else:
                    x[r.randrange(len(x))] = self.pick(12.0, 40.0, -60.0, 1e8)
                o["x"] = x
            elif fail and self.p(0.7):
                o["fault"] = [self.pick(self.f_alloc(), self.f_alloc(), self.f_err(at=1), {"kind": "intr", "at": 1, "where": self.pick("before", "after")},
                                        {"kind": "intr_alloc", "frac": round(r.random(), 4)})]
                if o["fault"][0]["kind"] == "rvec":
                    o["fault"] = [{"kind": "alloc", "frac": round(r.random(), 4)}]
            body.append(o)
        if self.p(0.15) and s["kind"] in ("two_level", "icept"):
            o = self.o_fit(m, check=False)
            body.append(o)
        if self.p(0.15):
            # also what is made before a function is
            t2 = self.o_modfr(s)
            body.insert(0, t2)
        # the same points in every cycle, or others each time: what is kept for a point is then never used again
        drift = self.p(0.4)
        cycles = self.pick(7, 8)
        for c in range(cycles):
            for o in body:
                q = dict(o)
                if drift and q["op"] == "eval":
                    q["x"] = [round(v + (0.003 + 0.0007 * j) * c, 5) if v and not isinstance(v, str) else v for j, v in enumerate(q["x"])]
                ops.append(q)
            ids = [o["id"] for o in body if o["op"] in ("lfun", "fit", "modfr")]
            if ids:
                ops.append({"op": "drop", "ids": ids, "gc": True})
            ops.append({"op": "mem"})
        for o in ops:
            o["check"] = False
        p = self.plan([ops], quarantine=0, tick_ns=0)
        p["memory"] = True
        p["drift"] = drift
        return p

    OPTIONS = (("digits", [1, 2, 3, 22]), ("OutDec", [","]), ("width", [10, 40, 200]), ("warn", [-1, 0, 1]), ("scipen", [-100, 100]),
               ("max.print", [5]), ("warnPartialMatchDollar", [True]), ("warnPartialMatchArgs", [True]),
               ("warnPartialMatchAttr", [True]), ("check.bounds", [True]), ("keep.source", [True]), ("verbose", [True]), ("useFancyQuotes", [False, True]),
               ("digits.secs", [6]), ("warning.length", [100]), ("expressions", [5000, 3000]), ("nwarnings", [50]), ("showErrorCalls", [False]),
               ("show.error.messages", [False]), ("deparse.max.lines", [1]), ("deparse.cutoff", [20]), ("stringsAsFactors", [False]), ("na.action", ["na.exclude", "na.fail", "na.pass"]),
               ("ts.eps", [1.0]), ("encoding", ["latin1"]), ("echo", [False]), ("browserNLdisabled", [True]), ("CBoundsCheck", [True]), ("add.smooth", [False]),
               ("verbose.glmmsr", [True]), ("nIS", [7]), ("nSL", [0]), ("nAGQ", [1]), ("method", ["Laplace"]), ("order", [2]), ("glmmsr.debug", [True]))
    VALUES = ("weights", "offset", "off", "data", "family", "theta", "x", "y", "g", "formula", "modfr", "pars", "count", "print_gap", "started", "con",
              "lfun", "mu", "ability", "p", "p1", "p2", "control", "method", "subvar", "T", "F", "pi", "w", "a", "b", "h", "gr", "nAGQ", "nSL", "nIS", "order",
              "beliefs", "devfun_laplace", "n_fixed", "n_random", "verbose", "prev_fit", "subformula", "link", "n", "fit", "estim", "d0", "big", "z_poss")
    FUNCTIONS = ("mean", "sum", "solve", "chol", "diag", "t", "optim", "dnorm", "pnorm", "rnorm", "terms", "crossprod", "lapply", "sapply", "vapply",
                 "rbind", "is.na", "ifelse", "paste", "names", "lfun", "optimize_glmm", "find_lfun_SR", "find_modfr", "parse_formula", "cluster_graph", "nobars",
                 "glFormula", "hessian", "as.matrix", "length", "attr", "exp", "log", "max", "which", "get", "exists", "identical", "stop", "warning",
                 "tryCatch", "try", "eval", "drop.terms", "update.formula", "model.response", "model.weights", "model.matrix", "na.fail", "glm", "lm", "gaussian", "print", "cat", "format", "binomial", "poisson")

    def session(self, n):
        """Things a user's session may contain that are nobody else's business."""
        r = self.r
        d = {}
        for _ in range(n):
            u = r.random()
            if u < 0.4:
                k, vs = r.choice(self.OPTIONS if self.p(0.6) else self.OPTIONS[:6])
                d.setdefault("options", {})[k] = r.choice(vs)
            elif u < 0.6:
                d.setdefault("globals", {})[r.choice(self.VALUES)] = r.choice([1.5, [1, 2, 3], "mine", True, False, 0, 1000])
            elif u < 0.85:
                d.setdefault("masks", {})[r.choice(self.FUNCTIONS)] = self.pick("stop", "odd")
            else:
                k, v = self.pick(("OMP_NUM_THREADS", "7"), ("COLUMNS", "20"), ("TZ", "Asia/Tokyo"), ("LANGUAGE", "de"), ("NO_COLOR", "1"), ("HOME", "/nowhere"),
                                 ("TMPDIR", "/nowhere"), ("R_BATCH", "1"), ("TESTTHAT", "true"), ("NOT_CRAN", "true"), ("DEBUG", "1"), ("CI", "true"), ("R_TESTS", "startup.Rs"))
                d.setdefault("env", {})[k] = v
        return d

    def everything(self):
        """A value of the user's under every name that the code could ask for."""
        return {"of": self.pick(["globals"], ["globals"], ["options"], ["env"], ["globals", "options", "env"]),
                "value": self.pick(2, 2, 7, 0, 1.5, "mine", True, False, [1, 2, 3])}

    def plain(self, m, fit=False):
        """A method with its control mostly left to the defaults."""
        meth, con = self.method(self.models[m], fit=fit, only=["Laplace", "SR", "AGQ"] if fit else None)
        if self.p(0.6) and (meth == "AGQ" or meth == "IS" and not fit or meth == "SR" and self.models[m]["kind"] in SCALAR):
            con = {}
        return meth, con

    def C21(self):
        """Sessions full of other things, which change between and inside operations."""
        r = self.r
        w = self.session(self.pick(4, 8, 15, 30))
        if self.p(0.4):
            w["every"] = self.everything()
        if self.p(0.4):
            w["attach"] = {k: r.choice([1.5, [1, 2, 3], "mine", True]) for k in r.sample(self.VALUES, self.pick(1, 4, 10))}
        if self.p(0.15):
            w["notmp"] = True
        if self.p(0.15):
            w["nowd"] = True
        if self.p(0.5):
            w["stale"] = self.pick(12, 33, 34, 4, 11)
        if self.p(0.1):
            w["locale"] = "C"
        ops = []
        for _ in range(self.pick(1, 2)):
            ops.append(self.o_modfr())
        ms = list(self.models)
        for _ in range(self.pick(1, 2)):
            m = r.choice(ms)
            ops.append(self.o_lfun(m, self.plain(m)))
        fs = list(self.funs)

        def change():
            e = {"op": "env", **self.session(self.pick(1, 2, 5))}
            e["set"] = e.pop("globals", {})
            if self.p(0.12):
                e["every"] = self.everything()
            if self.p(0.3):
                e["forget"] = r.sample(self.VALUES + self.FUNCTIONS, 6)
            if self.p(0.15):
                e["notmp"] = True
            return e

        def midway(frac):
            u = r.random()
            if u < 0.45:
                return []
            if u < 0.75:
                return [{"kind": "nest", "where": self.pick("before", "after"), "ops": [change()], **({"frac": round(r.random(), 3)} if frac else {"at": 1})}]
            return [self.f_check("event", ops=[change()])]
        for i in range(self.pick(5, 8, 12)):
            u = r.random()
            m = r.choice(ms)
            if u < 0.2:
                ops.append(change())
            elif u < 0.6:
                o = self.o_eval(r.choice(fs))
                fl = midway(False)
                if fl:
                    o["fault"] = fl
                ops.append(o)
            elif u < 0.72:
                o = self.o_lfun(m, self.plain(m))
                fs.append(o["id"])
                fl = midway(True)
                if fl and fl[0]["kind"] == "event" and o["method"] != "IS":
                    o["fault"] = fl
                ops.append(o)
                ops.append(self.o_eval(o["id"]))
            elif u < 0.8:
                o = self.o_modfr()
                ops.append(o)
                ms.append(o["id"])
            elif self.models[m]["kind"] in ("two_level", "icept", "two_x", "three_level", "pair") and len(self.fits) < 3:
                kw = {"verbose": self.pick(0, 0, 1, 2)}
                prior = [a for a in self.fits if shape(self.spec_of(a)) == shape(self.models[m])]
                if prior and self.p(0.5):
                    kw["prev"] = r.choice(prior)
                fl = midway(True)
                if self.p(0.2):
                    fl.append(self.f_err(frac=round(r.random(), 2), len=self.pick(1, 2)))
                    kw["trace"] = True
                o = self.o_fit(m, self.plain(m, fit=True) if self.p(0.3) else None, fault=fl, **kw)
                ops.append(o)
                ops.append(self.o_eval(o["id"]))
                if self.p(0.5) and not kw.get("trace"):
                    ops.append({"op": "post", "f": o["id"], "what": self.pick("coef", "vcov")})
                if kw.get("trace"):
                    self.fits.pop(o["id"])          # where it ended is its own affair
        p = self.plan([ops], **w)
        p["neutral"] = True
        return p

    def C22(self):
        """Workers forked from a session: they compute, wait, are killed."""
        r = self.r
        ops = self.setup(self.pick(1, 1, 2, 2), self.pick(1, 2, 3), siblings=self.p(0.7))
        fs = list(self.funs)
        ms = list(self.models)
        held = []
        pool = []

        def work(n):
            sub = []
            mine = []
            for _ in range(n):
                u = r.random()
                m = r.choice(ms)
                if u < 0.7 or (u >= 0.85 and self.models[m]["kind"] not in ("two_level", "icept", "two_x", "pair", "three_level")):
                    f = r.choice(fs + mine)
                    x = r.choice(pool)[1] if pool and self.p(0.5) else None
                    if x is not None and sum(shape(self.spec_of(f))) != len(x):
                        x = None
                    o = self.o_eval(f, x)
                    pool.append((f, o["x"]))
                elif u < 0.85:
                    o = self.o_lfun(m)
                    mine.append(o["id"])
                else:
                    o = self.o_fit(m)
                    del self.fits[o["id"]]
                sub.append(o)
            for i in mine:
                del self.funs[i]
            return sub

        def workers():
            sub = work(self.pick(1, 2, 3))
            o = {"op": "fork", "id": self.id("k"), "ops": sub}
            if self.p(0.3):
                q = r.choice(sub)
                if q["op"] == "fit":
                    q["fault"] = [{"kind": "die", "frac": round(r.random(), 3)}]
                elif q["op"] == "eval":
                    q["fault"] = [{"kind": "die", "at": 1}]
            if self.p(0.6):
                o["hold"] = self.pick(0, 1, 1, 2, 2, 3, 5, 20, 60)
                if len(sub) > 1 and self.p(0.4):        # between two operations
                    o["hold"], o["hold_op"] = 10 ** 8, r.randrange(2, len(sub) + 1)
            return o

        def join(k):
            j = {"op": "join", "f": k}
            if self.p(0.35):
                j["die"] = True
            return j
        def rival(m, x, mc):
            """A function of one's own, of the same method and at the same point as another's."""
            o = self.o_lfun(m, mc)
            return [o] + [self.o_eval(o["id"], x) for _ in range(self.pick(1, 1, 2))]

        def rivals():
            """Workers and the parent make functions at the same time, for data of their own."""
            a = r.choice(ms)
            same = [m for m in ms if shape(self.models[m]) == shape(self.models[a])]
            mc = self.method(self.models[a], ["Laplace", "AGQ"] if self.p(0.4) else None)
            x = r.choice(pool)[1] if pool and self.p(0.3) else None
            if x is None or len(x) != sum(shape(self.models[a])):
                x = self.fresh(self.models[a])
            out, waiting = [], []
            for _ in range(self.pick(1, 2, 2, 3)):
                m = r.choice(same)
                o = {"op": "fork", "id": self.id("k"), "ops": rival(m, x, mc if m == a or mc[0] == "Laplace" and not mc[1].get("order") else None)}
                if self.p(0.85):
                    o["hold"] = self.pick(1, 1, 2, 2, 3, 4, 6)
                    if self.p(0.6):
                        o["hold"], o["hold_op"] = 10 ** 8, r.randrange(2, len(o["ops"]) + 1)
                    waiting.append(o["id"])
                out.append(o)
                if self.p(0.6):
                    m = r.choice(same)
                    q = rival(m, x, mc if m == a or mc[0] == "Laplace" and not mc[1].get("order") else None)
                    out += q
                    fs.append(q[0]["id"])
            r.shuffle(waiting)
            return out + [join(k) for k in waiting]
        if self.p(0.5):
            ops.append(self.o_eval(r.choice(fs)))
        for i in range(self.pick(4, 7, 11)):
            u = r.random()
            if u < 0.2:
                ops += rivals()
            elif u < 0.45:
                o = workers()
                ops.append(o)
                if "hold" in o:
                    held.append(o["id"])
            elif u < 0.6 and held:
                k = r.choice(held)
                held.remove(k)
                ops.append(join(k))
            else:
                o = work(1)[0]
                if o["op"] == "eval" and self.p(0.4):
                    w = workers()
                    o["fault"] = [{"kind": "nest", "at": 1, "where": self.pick("before", "after"), "ops": [w]}]
                    if "hold" in w:
                        held.append(w["id"])
                if o["op"] in ("lfun", "fit"):
                    self.funs[o["id"]] = (o["m"], o["method"], o["control"])
                    if o["op"] == "lfun":
                        fs.append(o["id"])
                ops.append(o)
        r.shuffle(held)
        for k in held:
            ops.append(join(k))
            if self.p(0.3):
                ops += [o for o in work(1) if o["op"] == "eval"]
        for f in fs[:2]:
            ops.append(self.o_eval(f))
        return self.plan([ops])

    def plan(self, epochs, **world):
        w = self.world(**world)
        if self.prop not in ("C21", "C10", "C11") and self.p(0.3):
            w["stale"] = self.pick(12, 33, 34)
        return {"prop": self.prop, "seed": self.seed, "world": w, "epochs": epochs}


def make(prop, seed, tier="quick"):
    g = Gen(prop, seed, tier)
    p = getattr(g, prop)()
    mx = 6000
    p["world"].setdefault("max_steps", mx)
    if prop in ("C10", "C11") or g.p(0.1):
        p["world"]["full_gc"] = True
    return p


if __name__ == "__main__":
    import json, sys
    print(json.dumps(make(sys.argv[1], sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else "quick"), indent=1))
