"""P24  Torque and drag."""
from copy import deepcopy

from vmon import gen, ref
from vmon.core import Scenario
from vmon.env import np, we
from vmon.purity import Watch
from vmon.wells import Curve

META = dict(
    title='Torque and drag is the soft-string sum of its published interval equations',
    statement=('The tension and torque of a string in a well bore are those of the soft-string equations of '
               'SPE 11380 summed from the bit to surface over the survey stations and the bottoms of all '
               'sections: each interval takes the weight, buoyancy and contact radius of the string section '
               'and the friction of the well bore section it lies in, and the azimuth change the short way '
               'round. The bottom carries the weight, torque and overpull on the bit it is given, without '
               'friction pickup, slack-off and rotating are equal, pickup is never below and slack-off never '
               'above rotating, and turning the whole well about the vertical changes nothing. A hook load '
               'at each depth and friction factor is the surface tension of the string run to that depth. '
               'The survey and the well bore are not changed.'),
    over=['inputs', 'configurations'],
    quantifier='all surveys, well bores and strings inside them, fluids, friction factors and bit loads, all azimuth references',
    why='No test touches torque and drag, and its sums hide swapped or misplaced intervals.',
    files=['welleng/torque_drag.py', 'welleng/architecture.py', 'welleng/survey.py'],
    mechanism=[('tension and torque', 'welleng/torque_drag.py:TorqueDrag.get_forces_and_torsion'),
               ('sections', 'welleng/torque_drag.py:TorqueDrag.get_weight_buoyed_and_radius'),
               ('stations', 'welleng/torque_drag.py:TorqueDrag.add_survey_points_from_strings'),
               ('hook load', 'welleng/torque_drag.py:HookLoad.get_data')],
)
PROPERTY, LEVEL = "P24", "exploration"
RULE = ("a case is one string in one well bore against a naive bit-to-surface sum; distinct classes are "
        "(sections, load case, azimuth reference, coincident section bottoms) tuples")
ASSUMPTIONS = ["depths are in metres and the string is inside the well bore, which is inside the survey"]


def well(rng):
    kind, md, inc, azi = gen.traj(rng, step=float(rng.choice([30., 100., 200.])), n=int(rng.integers(6, 30)))
    md = np.round(md - md[0], 3)
    kw = {}
    if rng.random() < .4:
        kw["start_nev"] = np.round(rng.normal(0, 300, 3), 1)
    s = we.survey.Survey(md=md, inc=inc, azi=azi, header=gen.header(rng), **kw)
    return kind, s


def stack(rng, bottom, n, marks):
    """n section bottoms down to `bottom`, some of them on given depths."""
    b = set()
    for _ in range(n - 1):
        c = float(rng.choice(marks)) if len(marks) and rng.random() < .4 else float(np.round(rng.uniform(.05, .95) * bottom, 1))
        if 1 < c < bottom - 1 and all(abs(c - q) > 1 for q in b):
            b.add(c)
    return sorted(b) + [bottom]


def equip(rng, s, ff=None):
    """-> well bore, string and their plain section lists."""
    end = float(s.md[-1])
    wb_bottom = end if rng.random() < .5 else min(end, float(np.round(rng.uniform(.6, 1) * end, 1)))
    wb = we.architecture.WellBore("bore", 0., wb_bottom, method="top_down")
    bore = []
    for b in stack(rng, wb_bottom, int(rng.integers(1, 4)), s.md[1:]):
        f = float(np.round(rng.uniform(0.05, .45), 3)) if ff is None else ff
        wb.add_section(bottom=b, id=.3, coeff_friction_sliding=f, name=f"to {b}")
        bore.append((b, f))
    st_bottom = wb_bottom if rng.random() < .4 else float(np.round(rng.uniform(.4, 1) * wb_bottom, 1))
    st_bottom = min(st_bottom, wb_bottom)
    C = we.architecture.BHA if rng.random() < .7 else we.architecture.String
    st = C("string", 0., st_bottom)
    pipe = []
    bottoms = stack(rng, st_bottom, int(rng.integers(1, 5)), [b for b, _ in bore] + s.md[1:].tolist())
    for k in range(len(bottoms) - 1, -1, -1):
        d = dict(od=float(np.round(rng.uniform(.08, .3), 3)), unit_weight=float(np.round(rng.uniform(150, 3000), 1)), name=str(k))
        if rng.random() < .4:
            d["tooljoint_od"] = float(np.round(d["od"] + .03, 3))
        if C is not we.architecture.BHA or rng.random() < .5:
            d["density"] = float(rng.choice([7.85, 2.8, 4.5]))
        top = bottoms[k - 1] if k else 0.
        if k == 0:
            st.add_section(**d)
        else:
            # exactly onto the depth, since lengths add up with rounding
            st.add_section(top=top, **d)
        pipe.insert(0, (bottoms[k], d["unit_weight"], d.get("density", 7.85), d.get("tooljoint_od", d["od"]) / 2))
    return wb, st, bore, pipe


def pick(table, md):
    return next((r for r in table if md <= r[0] + 1e-9), table[-1])


def soft(md, inc, azi, pipe, bore, mud, wob=0, tob=0, over=0):
    """Scalar bit-to-surface sum; rows (pickup, slackoff, rotating, torque)."""
    F = [over if over else 0.0, -wob, -wob]
    T = tob
    out = [(*F, T)]
    for k in range(len(md) - 1, 0, -1):
        L, m = md[k] - md[k - 1], md[k]
        _, w, rho, r = pick(pipe, m)
        mu = pick(bore, m)[1]
        W = w * L * (1 - mud / rho)
        ia, di = (inc[k] + inc[k - 1]) / 2, inc[k] - inc[k - 1]
        da = float(ref.wrap(azi[k] - azi[k - 1]))
        N = [np.hypot(f * da * np.sin(ia), f * di + W * np.sin(ia)) for f in F]
        F = [f + W * np.cos(ia) + mu * n * s for f, n, s in zip(F, N, (1, -1, 0))]
        T = T + mu * N[2] * r
        out.append((*F, T))
    return np.array(out[::-1])


def stations(ctx, td, s, pipe, bore):
    """The survey it works on is the given well path with the section bottoms added."""
    want = sorted({*map(float, s.md), *[b[0] for b in pipe], *[b[0] for b in bore]})
    got = np.asarray(td.survey.md, float)
    if not ctx.check(len(got) == len(want) and np.allclose(got, want, rtol=0, atol=1e-6), "stations", got=got, want=want):
        return False
    c = Curve(s.md, s.inc_rad, s.azi_grid_rad, [s.n[0], s.e[0], s.tvd[0]])
    g = Curve(got, td.survey.inc_rad, td.survey.azi_grid_rad, [s.n[0], s.e[0], s.tvd[0]])
    ctx.close(g.p, c.at_md(got), "stations-off-path", rtol=0, atol=1e-6 * (1 + got[-1]))
    return True


def strip(sections):
    return {k: {a: b for a, b in v.items() if a != "buoyancy_factor"} for k, v in sections.items()}


def loads(ctx):
    rng = ctx.rng
    kind, s = well(rng)
    wb, st, bore, pipe = equip(rng, s, ff=0.0 if rng.random() < .1 else None)
    mud = float(np.round(rng.uniform(0, 2), 2))
    case = str(rng.choice(["none", "bit", "bit+pull", "pull"]))
    kw = {}
    if "bit" in case:
        kw.update(wob=float(np.round(rng.uniform(1e3, 2e5))), tob=float(np.round(rng.uniform(100, 2e4))))
    if "pull" in case:
        kw.update(overpull=float(np.round(rng.uniform(1e3, 5e5))))
    ctx.case = dict(kind=kind, md=s.md, inc=s.inc_deg, azi=s.azi_grid_deg, bore=bore, pipe=pipe, mud=mud, load=kw)
    before = strip(deepcopy(st.sections))
    with Watch(ctx, "TorqueDrag", s=s, wb=wb):
        td = we.torque_drag.TorqueDrag(s, wb, st, mud, name="t", **kw)
    ctx.check(strip(st.sections) == before, "string-changed")
    if not stations(ctx, td, s, pipe, bore):
        return
    n = int(np.searchsorted(td.survey.md, pipe[-1][0] - 1e-6)) + 1
    md, inc, azi = (np.asarray(a, float)[:n] for a in (td.survey.md, td.survey.inc_rad, td.survey.azi_grid_rad))
    base = soft(md, inc, azi, pipe, bore, mud)
    scale = float(np.abs(base[:, :3]).max()) + sum(kw.values())
    tq = float(np.abs(base[:, 3]).max()) + kw.get("tob", 0) + 1.0

    def cmp(got, want, name, sc):
        ctx.close(got, want, name, rtol=0, atol=1e-8 * sc, case=case)
    want = dict(pickup=base[:, 0], slackoff=base[:, 1], rotating=base[:, 2])
    torque = dict(rotating=base[:, 3])
    if kw:
        w = soft(md, inc, azi, pipe, bore, mud, kw.get("wob", 0), kw.get("tob", 0), kw.get("overpull", 0))
        if "bit" in case:
            want.update(drilling=w[:, 2], sliding=w[:, 1])
            torque.update(drilling=w[:, 3])
        if "pull" in case:
            want.update(overpull=w[:, 0])
    ctx.check(set(td.tension) == set(want) and set(td.torque) == set(torque), "cases", tension=sorted(td.tension), torque=sorted(td.torque), case=case)
    for k in set(want) & set(td.tension):
        cmp(td.tension[k], want[k], f"tension-{k}", scale)
    for k in set(torque) & set(td.torque):
        cmp(td.torque[k], torque[k], f"torque-{k}", tq)
    T = td.tension
    if {"pickup", "slackoff", "rotating"} <= set(T):
        p, q, r = (np.asarray(T[k], float) for k in ("pickup", "rotating", "slackoff"))
        e = 1e-8 * scale
        ctx.check(np.all(p >= q - e) and np.all(q >= r - e), "tension-order")
        if all(f == 0 for _, f in bore):
            ctx.close(p, r, "frictionless", rtol=0, atol=e)
        ctx.check(np.all(np.isfinite(p)) and np.all(np.isfinite(r)), "finite")
    if "bit" in case:
        for bad in (dict(wob=kw["wob"]), dict(tob=kw["tob"])):
            ctx.raises(lambda: we.torque_drag.TorqueDrag(s, wb, st, mud, **bad), "bit-load-half-given")
    both = set(b[0] for b in bore) & set(p[0] for p in pipe) - set(map(float, s.md))
    ctx.key("loads", len(bore), len(pipe), case, s.header.azi_reference, bool(both))
    ctx.event("intervals", n - 1)


def turned(ctx):
    rng = ctx.rng
    kind, md, inc, azi = gen.traj(rng, step=100.)
    md = np.round(md - md[0], 3)
    c = float(rng.choice([rng.uniform(0, 360), 360 - azi[len(azi) // 2] + .01]))
    h = gen.header()
    a = we.survey.Survey(md=md, inc=inc, azi=azi, header=h)
    b = we.survey.Survey(md=md, inc=inc, azi=np.mod(azi + c, 360), header=gen.header())
    wb, st, bore, pipe = equip(rng, a)
    ctx.case = dict(kind=kind, md=md, inc=inc, azi=azi, turn=c, bore=bore, pipe=pipe)
    x, y = (we.torque_drag.TorqueDrag(s, wb, st, 1.2) for s in (a, b))
    m = np.sin(np.minimum(x.survey.inc_rad, 3)).max()
    if not len(x.survey.md) == len(y.survey.md):
        return ctx.fail("turned-stations")
    # the azimuth of an added vertical station isn't defined
    ok = np.sin(x.survey.inc_rad) > 1e-5
    if ok.all() and m > 0:
        for k in x.tension:
            s = float(np.abs(x.tension[k]).max()) + 1
            ctx.close(y.tension[k], x.tension[k], f"turned-{k}", rtol=0, atol=1e-7 * s)
        ctx.close(y.torque["rotating"], x.torque["rotating"], "turned-torque", rtol=0, atol=1e-7 * (np.abs(x.torque["rotating"]).max() + 1))
        ctx.event("turned")
    ctx.key("turned", kind)


def hook(ctx):
    rng = ctx.rng
    kind, s = well(rng)
    wb, st, bore, pipe = equip(rng, s)
    mud = float(np.round(rng.uniform(0, 2), 2))
    bottom = pipe[-1][0]
    step = float(np.round(rng.uniform(.15, .6) * bottom, 1))
    ffr = [(.1, .4, .1), (0., .3, .15), (.2, .25, .05)][int(rng.integers(3))]
    ctx.case = dict(kind=kind, md=s.md, inc=s.inc_deg, azi=s.azi_grid_deg, bore=bore, pipe=pipe, mud=mud, step=step, ff=ffr)
    with Watch(ctx, "HookLoad", s=s, wb=wb, st=st):
        h = we.torque_drag.HookLoad(s, wb, st, mud, step=step, name="h", ff_range=ffr)
    depths = [float(d) for d in h.md_range]
    ctx.close(depths[-1], bottom, "hook-bottom", rtol=1e-12)
    ctx.check(np.all(np.diff(depths) > 0) and np.all(np.diff([0, *depths]) <= step + 1e-6), "hook-depths", depths=depths, step=step)
    ctx.close(min(h.data), ffr[0], "hook-lowest-factor", rtol=0, atol=1e-12)
    ctx.close(max(h.data), ffr[1], "hook-highest-factor", rtol=0, atol=1e-12)
    for ff in h.data:
        got = h.data[ff]
        ctx.check(set(got) == {"pickup", "slackoff", "rotating"}, "hook-cases", got=sorted(got))
        for j in range(len(depths)):
            d = depths[j]
            # the string run to d keeps its sections measured from the bit
            p = [(b - (bottom - d), w, rho, r) for b, w, rho, r in pipe if b - (bottom - d) > 1e-9]
            marks = sorted({*map(float, s.md), *[q[0] for q in p], *[b for b, _ in bore]})
            marks = [m for k, m in enumerate(marks) if k == 0 or m - marks[k - 1] > 1e-7]
            marks = [m for m in marks if m <= d + 1e-7]
            t = ref.tangent(s.inc_rad, s.azi_grid_rad)
            inc, azi = np.empty(len(marks)), np.empty(len(marks))
            for k, m in enumerate(marks):
                i = min(max(int(np.searchsorted(s.md, m, side="left")) - 1, 0), len(s.md) - 2)
                if abs(s.md[i + 1] - m) < 1e-7 or abs(s.md[i] - m) < 1e-7:
                    i = i + 1 if abs(s.md[i + 1] - m) < 1e-7 else i
                    inc[k], azi[k] = s.inc_rad[i], s.azi_grid_rad[i]
                    continue
                g = float(ref.angle(t[i], t[i + 1]))
                f = (m - s.md[i]) / (s.md[i + 1] - s.md[i])
                v = t[i] if g < 1e-12 else (np.sin((1 - f) * g) * t[i] + np.sin(f * g) * t[i + 1]) / np.sin(g)
                inc[k], azi[k] = (float(np.ravel(q)[0]) for q in ref.inc_azi(v))
                if np.sin(inc[k]) < 1e-6:
                    azi[k] = s.azi_grid_rad[i]
            if np.sin(inc).min() < 1e-5:
                ctx.event("hook-vertical")
                if np.any(np.sin(inc) > 1e-5):
                    continue        # the azimuth of added vertical stations isn't defined
            w = soft(marks, inc, azi, p, [(b, ff) for b, _ in bore], mud)[0]
            sc = float(np.abs(w[:3]).max()) + 1
            for name, x in zip(("pickup", "slackoff", "rotating"), w):
                ctx.close(got[name][j], x, f"hook-{name}", rtol=0, atol=1e-6 * sc, depth=d, ff=ff)
            ctx.event("hook-loads")
    ctx.key("hook", len(pipe), len(bore), kind, ffr)


SCENARIOS = [
    Scenario("loads", loads, 400, 8000),
    Scenario("turned", turned, 200, 4000),
    Scenario("hook", hook, 60, 1000),
]
