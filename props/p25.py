"""P25  Well architecture: strings made of sections."""
from copy import deepcopy

from vmon.core import Scenario
from vmon.env import np, we
from vmon.purity import Watch

META = dict(
    title='Strings are gap-free stacks of sections from their top to their bottom',
    statement=('A string (well bore, BHA or casing) built from the bottom up or from the top down holds its '
               'sections in depth order, indexed from 0 at the top, each starting where the one above ends, '
               'with the attributes it was given. From the bottom up a section takes its length, or extends '
               'to its given top, or to the top of the string when neither is given, and is cut off at the '
               'top of the string. The string is complete exactly when its sections reach from its top to '
               'its bottom, and sections outside of it or in an unknown order are refused. Running a '
               'complete string to a shallower depth keeps its sections measured from the bottom up, cuts '
               'them off at the top, gives a complete string again and leaves the original unchanged.'),
    over=['inputs', 'histories'],
    quantifier='all sequences of section additions in both orders, all depths to which a string is run',
    why='No test builds a string; torque and drag rests on it.',
    files=['welleng/architecture.py'],
    mechanism=[('stack', 'welleng/architecture.py:String.add_section_bottom_up'),
               ('stack', 'welleng/architecture.py:String.add_section_top_down'),
               ('depth', 'welleng/architecture.py:String.depth')],
)
PROPERTY, LEVEL = "P25", "exploration"
RULE = ("a case builds one string by a random sequence of additions against a list model that is compared "
        "after every step; distinct classes are (class, method, how the sections were given, number) tuples")
ASSUMPTIONS = ["section lengths are multiples of 1/8 m in cases that must be complete by exact sums"]


def attrs(rng, cls):
    d = dict(name=str(rng.choice(["pipe", "collar", "casing 9 5/8"])), od=float(rng.choice([.127, .2, .24])))
    if rng.random() < .5:
        d["unit_weight"] = float(np.round(rng.uniform(100, 2000), 1))
    if cls == "WellBore":
        d["coeff_friction_sliding"] = float(np.round(rng.uniform(.1, .4), 2))
        d["id"] = float(rng.choice([.2, .3]))
    if cls != "BHA" or rng.random() < .5:
        d["density"] = float(rng.choice([7.85, 2.7]))
    if rng.random() < .3:
        d["tooljoint_od"] = .17
    return d


def same(ctx, s, model, top, bottom, name):
    """model: list of (top, bottom, attributes), shallowest first."""
    ks = list(s.sections.keys())
    if not ctx.check(ks == list(range(len(model))), f"{name}-index", keys=ks, want=len(model)):
        return
    for k, (t, b, d) in enumerate(model):
        v = s.sections[k]
        ctx.close(v["top"], t, f"{name}-top", rtol=1e-12, atol=1e-9, section=k)
        ctx.close(v["bottom"], b, f"{name}-bottom", rtol=1e-12, atol=1e-9, section=k)
        ctx.check(all(v.get(a) == d[a] for a in d), f"{name}-attributes", section=k, want=d, got=dict(v))
        if "length" in v:
            ctx.close(v["length"], b - t, f"{name}-length", rtol=1e-9, atol=1e-9, section=k)
        if k:
            ctx.check(v["top"] == s.sections[k - 1]["bottom"], f"{name}-gap", section=k)
    full = bool(model) and model[0][0] == top and model[-1][1] == bottom
    ctx.check(bool(s.complete) == full, f"{name}-complete", complete=s.complete, want=full)
    ctx.event("states")


def run_to(ctx, s, model, cls):
    """Run the complete string to a shallower depth."""
    rng = ctx.rng
    before = deepcopy(s.sections)
    for _ in range(3):
        how = rng.choice(["any", "bottom", "edge", "near"])
        md = {"any": float(np.round(rng.uniform(s.top + .5, s.bottom), int(rng.integers(0, 6)))),
              "bottom": s.bottom, "near": s.top + .125,
              "edge": s.top + (s.bottom - float(rng.choice([m[0] for m in model])))}[str(how)]
        md = min(md, s.bottom)
        if not s.top < md <= s.bottom:
            continue
        with Watch(ctx, "depth", s=s):
            r = s.depth(md)
        want, b = [], md
        for t0, b0, d in model[::-1]:
            t = max(b - (b0 - t0), s.top)
            if t < b - 1e-9 * md:
                want.insert(0, (t, b, d))
            b = t
        if want:
            want[0] = (s.top, *want[0][1:])
        n = len(r.sections)
        # a section of no length at the very top is of no consequence
        sec = [v for v in r.sections.values() if v["bottom"] - v["top"] > 1e-9 * md]
        ctx.close(len(sec), len(want), "depth-sections", n=n)
        if len(sec) == len(want):
            for v, (t, b, d) in zip(sec, want):
                ctx.close(v["top"], t, "depth-top", rtol=1e-12, atol=1e-8)
                ctx.close(v["bottom"], b, "depth-bottom", rtol=1e-12, atol=1e-8)
                ctx.check(all(v.get(a) == d[a] for a in d), "depth-attributes", want=d, got=dict(v))
        ctx.check(bool(r.complete), "depth-complete", md=md, top=r.sections[0]["top"])
        ctx.check(r.bottom == md and r.top == s.top, "depth-range")
        ctx.event("runs")
    for md in (s.top, s.bottom + .5, s.top - 1):
        ctx.raises(lambda: s.depth(md), "depth-out-of-range", md=md)
    ctx.check(s.sections == before, "depth-changed-string")


def build(ctx):
    rng = ctx.rng
    cls = str(rng.choice(["String", "WellBore", "BHA"]))
    C = getattr(we.architecture, cls)
    method = str(rng.choice(["bottom_up", "bottom_up", "top_down"]))
    top = float(rng.choice([0., 0., 0., 125.5]))
    exact = rng.random() < .6
    dec = (lambda x: np.round(x * 8) / 8) if exact else (lambda x: np.round(x, 2))
    bottom = top + float(dec(rng.uniform(200, 6000)))
    s = C("s", top, bottom, method=method) if method != "bottom_up" or rng.random() < .5 else C("s", top, bottom)
    model, n, hows = [], int(rng.integers(1, 7)), []
    ctx.case = dict(cls=cls, method=method, top=top, bottom=bottom, steps=hows)
    if method == "bottom_up":
        for k in range(n):
            b = model[0][0] if model else bottom
            if b <= top + 1e-6:
                break
            d = attrs(rng, cls)
            how = str(rng.choice(["length", "length", "top", "rest", "long", "all", "both"])) if k < n - 1 else "rest"
            L = float(dec(rng.uniform(.05, .5) * (bottom - top)))
            if how in ("length", "long", "all", "both"):
                L = {"length": L, "both": L, "long": float(bottom - top + 1000), "all": b - top}[how]
                kw = dict(length=L)
                t = max(b - L, top)
                if how == "both":
                    # as sections of another string have: the length counts
                    kw["top"] = float(dec(rng.uniform(top, b)))
            elif how == "top":
                t = float(dec(max(top, b - L)))
                if t >= b or t < top:
                    continue
                kw = dict(top=t)
            else:
                kw, t = {}, top
                if rng.random() < .3:
                    kw = dict(length=None)
            hows.append((how, kw))
            s.add_section(**d, **kw)
            if cls == "BHA":
                d = {"density": 7.85, **d}
            model.insert(0, (t, b, d))
            same(ctx, s, model, top, bottom, "up")
    else:
        for k in range(n):
            t = model[-1][1] if model else top
            if t >= bottom:
                break
            d = attrs(rng, cls)
            b = bottom if k == n - 1 else min(float(dec(t + rng.uniform(.05, .5) * (bottom - top))), bottom)
            if k < n - 1 and rng.random() < .15:
                b = bottom - float(rng.choice([.125, .25, .5, 1.]))      # almost there
            if b <= t:
                continue
            hows.append(("bottom", b))
            s.add_section(bottom=b, **d)
            if cls == "BHA":
                d = {"density": 7.85, **d}
            model.append((t, b, d))
            same(ctx, s, model, top, bottom, "down")
    if rng.random() < .3:
        # a section below the string can't be added
        if method == "top_down":
            r = C("r", top, bottom, method=method)
            ctx.raises(lambda: r.add_section(bottom=bottom + 10, **attrs(rng, cls)), "below-the-string")
        ctx.raises(lambda: C("r", top, bottom, method="sideways"), "unknown-order")
        if cls == "WellBore":
            a = attrs(rng, cls)
            a.pop(str(rng.choice(["id", "coeff_friction_sliding"])))
            r = C("r", top, bottom)
            ctx.raises(lambda: r.add_section(**a), "missing-parameter")
    if s.complete:
        run_to(ctx, s, model, cls)
    ctx.key(cls, method, tuple(h[0] for h in hows), top > 0, bool(s.complete))


SCENARIOS = [Scenario("build", build, 1500, 40000)]
