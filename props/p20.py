"""P20  Projecting ahead from the end of a survey."""
from vmon import gen, ref
from vmon.core import Scenario, Skip
from vmon.env import np, we
from vmon.purity import Watch
from vmon.wells import Curve
from props.p16 import UNIT_LEN, aim, direction

META = dict(
    title='Projections continue the well from where its survey ends',
    statement=('Projecting ahead moves along a circular arc of the given dog-leg severity that starts in '
               'the given direction and bends towards the given gravity toolface, or straight ahead for a '
               'severity of zero, and reports the position, direction and depth at the end of it; two '
               'projections in a row along one arc are the same as one. Projecting a survey to the bit '
               'starts at its last station and, by default, continues its last arc. Projecting to a target '
               'returns a survey that starts at the last station, passes through the bit and ends at the '
               'target position, direction or depth, no tighter than the design severity, and carries on '
               'the covariance, unit and radius of the survey. This holds in metres and in feet, whatever '
               'the azimuth reference, and the survey and target are not changed.'),
    over=['inputs', 'configurations'],
    quantifier='all surveys, projection lengths, severities and toolfaces, targets ahead of the well, both units, all azimuth references',
    why='Nothing in the test suite calls the projections.',
    files=['welleng/survey.py', 'welleng/connector.py', 'welleng/node.py'],
    mechanism=[('arc', 'welleng/survey.py:project_ahead'),
               ('bit', 'welleng/survey.py:Survey.project_to_bit'),
               ('target', 'welleng/survey.py:project_to_target')],
)
PROPERTY, LEVEL = "P20", "exploration"
RULE = ("a case is one projection checked against the closed-form arc; distinct classes are (kind, unit, "
        "azimuth reference, defaults used) tuples")
ASSUMPTIONS = ["targets are at least five turning radii away and within 60 degrees of straight ahead",
               "the default toolface is not defined when the last interval is straight and is then not used"]


def arc_end(p, v, inc, azi, L, R, tf):
    h, l, a = ref.hla_axes(inc, azi)
    o = np.cos(tf) * h + np.sin(tf) * l
    th = L / R
    return p + R * (np.sin(th) * v + (1 - np.cos(th)) * o), np.cos(th) * v + np.sin(th) * o


def ahead(ctx):
    rng = ctx.rng
    inc, azi, v = direction(rng, .5, 150)
    if rng.random() < .15:
        inc = float(10 ** rng.uniform(-4, 0))                 # almost vertical
        azi = float(rng.uniform(0, 360))
        v = ref.tangent(np.radians(inc), np.radians(azi)).reshape(3)
    if inc == 0:
        azi, v = 0.0, np.array([0., 0., 1.])
    p = np.round(rng.normal(0, 1500, 3), 2)
    dls = float(rng.choice([0., .5, 1., 3., 8., 15.]))
    L = float(rng.choice([0., np.round(rng.uniform(.5, 60), 2), np.round(rng.uniform(60, 600), 1)]))
    tf = float(rng.choice([0., np.pi / 2, np.pi, 3 * np.pi / 2, rng.uniform(0, 2 * np.pi), rng.uniform(-np.pi, 0)]))
    md = float(rng.choice([0., np.round(rng.uniform(0, 5000), 2)]))
    ctx.case = dict(pos=p, inc=inc, azi=azi, dls=dls, L=L, tf=tf, md=md)
    with Watch(ctx, "project_ahead", p=p, v=v):
        n = we.survey.project_ahead(p, v, L, dls, tf, md)
    if dls == 0:
        want = p + v * L, v
    else:
        R = 30 / np.radians(dls)
        want = arc_end(p, v, np.radians(inc), np.radians(azi), L, R, tf)
    ctx.close(n.pos_nev, want[0], "ahead-position", rtol=0, atol=1e-7 * (1 + L))
    ctx.close(n.vec_nev, want[1], "ahead-direction", rtol=0, atol=1e-8)
    ctx.close(n.md, md + L, "ahead-md", rtol=1e-12)
    i, a = ref.inc_azi(want[1])
    ctx.close(n.inc_rad, i, "ahead-inc", rtol=0, atol=1e-6)
    if np.sin(i) > 1e-3:
        ctx.close(ref.wrap(n.azi_rad - a), 0, "ahead-azi", rtol=0, atol=1e-6)
    # a part of the way, then the rest
    if dls and L > 1 and np.sin(i) > 1e-3 and L / R < 3:
        f = float(rng.uniform(.1, .9))
        a1 = we.survey.project_ahead(p, v, L * f, dls, tf, md)
        m, u = np.array(a1.pos_nev), np.array(a1.vec_nev)
        im, am = (float(np.ravel(q)[0]) for q in ref.inc_azi(u))
        if np.sin(im) > 1e-2:
            h, l, _ = ref.hla_axes(im, am)
            o = want[1] - u * (u @ want[1])
            tf2 = float(np.arctan2(o @ l, o @ h))
            a2 = we.survey.project_ahead(m, u, L * (1 - f), dls, tf2, a1.md)
            ctx.close(a2.pos_nev, n.pos_nev, "ahead-in-two", rtol=0, atol=1e-6 * (1 + L))
            ctx.close(a2.md, n.md, "ahead-in-two-md", rtol=1e-12)
    ctx.key("ahead", dls == 0, inc == 0, L == 0, int(np.degrees(tf) // 90))
    ctx.event("projections")


def make(rng, curved=None, model=False):
    unit = str(rng.choice(["meters", "feet"]))
    kind, md, inc, azi = gen.traj(rng)
    md = md * (3 if unit == "feet" else 1)
    h = gen.header(rng, depth_unit=unit, surface_unit=unit)
    kw = {}
    if model and unit == "meters" and rng.random() < .5:
        kw["error_model"] = "ISCWSA MWD Rev4"
    s = we.survey.Survey(md=md, inc=inc, azi=azi, header=h, unit=unit, radius=np.round(rng.uniform(.1, 1., len(md)), 3) if rng.random() < .4 else float(rng.choice([.1, .2, 1.])),
                         start_nev=np.round(rng.normal(0, 500, 3), 1), **kw)
    return kind, unit, s


def bit(ctx):
    rng = ctx.rng
    kind, unit, s = make(rng)
    nev = np.column_stack([s.n, s.e, s.tvd])
    v0, v = s.vec_nev[-2], s.vec_nev[-1]
    i, a = (float(np.ravel(q)[0]) for q in ref.inc_azi(v))
    d = float(ref.angle(v0, v))
    Llast = float(s.md[-1] - s.md[-2])
    L = float(np.round(rng.uniform(1, 60), 2))
    default = bool(rng.random() < .5) and d > 1e-4 and np.sin(i) > .02 and d < 2.5
    ctx.case = dict(kind=kind, unit=unit, md=s.md, inc=s.inc_deg, azi=s.azi_grid_deg, L=L, default=default)
    if default:
        with Watch(ctx, "project_to_bit", s=s):
            n = s.project_to_bit(L)
        # the arc goes on bending the same way
        lat = v * (v0 @ v) - v0
        lat = lat / np.linalg.norm(lat)
        th = d * L / Llast
        R = Llast / d
        want = nev[-1] + R * (np.sin(th) * v + (1 - np.cos(th)) * lat), np.cos(th) * v + np.sin(th) * lat
    else:
        dls = float(rng.choice([0., 1., 3., 6.])) if np.sin(i) > 1e-9 else 0.0
        tf = float(rng.uniform(0, 2 * np.pi))
        with Watch(ctx, "project_to_bit", s=s):
            n = s.project_to_bit(L, dls=dls, toolface=tf)
        want = (nev[-1] + v * L, v) if dls == 0 else arc_end(nev[-1], v, i, a if np.sin(i) > 1e-9 else 0.0, L, UNIT_LEN[unit] / np.radians(dls), tf)
    tol = 1e-6 * (1 + L) * (1 if not default else 1 + 1e-4 / min(d, 1))
    ctx.close(n.pos_nev, want[0], "bit-position", rtol=0, atol=tol, default=default, dogleg=d)
    ctx.close(n.vec_nev, want[1], "bit-direction", rtol=0, atol=tol, default=default, dogleg=d)
    ctx.close(n.md, s.md[-1] + L, "bit-md", rtol=1e-12)
    ctx.check(n.unit == unit, "bit-unit", unit=n.unit)
    ctx.key("bit", unit, default, s.header.azi_reference, kind)
    ctx.event("projections")


def target(ctx):
    rng = ctx.rng
    kind, unit, s = make(rng, model=True)
    nev = np.column_stack([s.n, s.e, s.tvd])
    v = np.array(s.vec_nev[-1])
    i, a = (float(np.ravel(q)[0]) for q in ref.inc_azi(v))
    dd = float(rng.choice([1., 2., 3., 5.]))
    R = UNIT_LEN[unit] / np.radians(dd)
    kw = {}
    p0, v0, md0 = nev[-1], v, float(s.md[-1])
    if rng.random() < .6:
        L = float(np.round(rng.uniform(5, 60), 2))
        bd = float(rng.choice([0., 1., 3., 6.])) if np.sin(i) > 1e-9 else 0.0
        tf = float(rng.uniform(0, 2 * np.pi))
        kw = dict(delta_md=L, dls=bd, toolface=tf)
        d = float(ref.angle(s.vec_nev[-2], v))
        if rng.random() < .5 and 1e-4 < d < 2.5 and np.sin(i) > .02:
            # what is not given is that of the last interval
            Rb = UNIT_LEN[unit] / np.radians(bd) if bd else None
            left = str(rng.choice(["dls", "toolface", "both"]))
            if left in ("dls", "both"):
                del kw["dls"]
                Rb = float(s.md[-1] - s.md[-2]) / d
            if left in ("toolface", "both"):
                del kw["toolface"]
                lat = v * (s.vec_nev[-2] @ v) - s.vec_nev[-2]
                lat = lat / np.linalg.norm(lat)
                if Rb:
                    th = L / Rb
                    p0, v0 = nev[-1] + Rb * (np.sin(th) * v + (1 - np.cos(th)) * lat), np.cos(th) * v + np.sin(th) * lat
                else:
                    p0 = nev[-1] + v * L
            else:
                p0, v0 = arc_end(nev[-1], v, i, a, L, Rb, tf)
        else:
            p0, v0 = (nev[-1] + v * L, v) if bd == 0 else arc_end(nev[-1], v, i, a if np.sin(i) > 1e-9 else 0.0, L, UNIT_LEN[unit] / np.radians(bd), tf)
        md0 += L
    what = str(rng.choice(["pos", "pose", "vec", "md", "vecmd"]))
    N, nk = we.node.Node, dict(unit=unit)
    u = aim(rng, v0, float(rng.uniform(.03, 1.0)))
    p2 = p0 + u * R * float(rng.uniform(5.5, 14))
    v2 = aim(rng, u, float(rng.uniform(.02, 1.)))
    if what in ("pos", "pose"):
        nk["pos"] = p2.copy()
    if what in ("pose", "vec", "vecmd"):
        nk["vec"] = v2.copy()
    if what in ("md", "vecmd"):
        nk["md"] = md0 + R * float(rng.uniform(2.5, 5))
    t = N(**nk)
    step = float(rng.choice([10., 30., 100.]))
    m = rng.random() < .5
    ctx.case = dict(kind=kind, unit=unit, what=what, bit=kw, dls=dd, md=s.md, inc=s.inc_deg, azi=s.azi_grid_deg, target=nk)
    with Watch(ctx, "project_to_target", s=s, t=t):
        r = s.project_to_target(t, dls_design=dd, step=step, **kw) if m else \
            we.survey.project_to_target(s, t, dls_design=dd, step=step, **kw)
    pos = np.column_stack([r.n, r.e, r.tvd])
    L = float(r.md[-1] - r.md[0])
    tol = 1e-7 * (L + np.abs(nev[-1]).max()) + 5e-3
    ctx.close(r.md[0], s.md[-1], "target-start-md", rtol=1e-12, atol=1e-6)
    ctx.close(pos[0], nev[-1], "target-start", rtol=0, atol=1e-5)
    ctx.close(r.vec_nev[0], v, "target-start-direction", rtol=0, atol=1e-6)
    ctx.check(np.all(np.diff(r.md) > 0), "target-md-order")
    if kw:
        k = int(np.argmin(np.abs(r.md - md0)))
        ctx.close(r.md[k], md0, "target-bit-md", rtol=0, atol=1e-3)
        ctx.close(pos[k], p0, "target-bit-position", rtol=0, atol=tol, bit=kw)
        ctx.close(r.vec_nev[k], v0, "target-bit-direction", rtol=0, atol=1e-5)
    if what in ("pos", "pose"):
        ctx.close(pos[-1], p2, "target-missed", rtol=0, atol=tol)
    if what in ("pose", "vec", "vecmd"):
        ctx.close(r.vec_nev[-1], v2, "target-direction-missed", rtol=0, atol=1e-5)
    if what in ("md", "vecmd"):
        ctx.close(r.md[-1], nk["md"], "target-md-missed", rtol=1e-12, atol=1e-3)
    ctx.close(pos, Curve(r.md, r.inc_rad, r.azi_grid_rad, nev[-1]).p, "target-path", rtol=0, atol=1e-6 * (1 + L))
    # severity
    late = np.asarray(r.md)[:-1] >= md0 - 1e-3
    rate = ref.angle(r.vec_nev[:-1], r.vec_nev[1:]) / np.diff(r.md)
    ok = late & (np.diff(r.md) > .5)
    if ok.any():
        ctx.check(rate[ok].max() <= 1.02 / R + 1e-5 , "target-tighter-than-design", worst=float(rate[ok].max() * R))
        if what in ("pos", "vec"):
            ctx.close(rate[ok].max(), 1 / R, "target-design-severity", rtol=2e-2, atol=1e-5)
    ctx.check(r.unit == unit and r.header.depth_unit == unit, "target-unit", unit=r.unit)
    ctx.close(r.radius, np.full(len(r.md), s.radius[-1]), "target-radius", rtol=1e-12)
    ctx.check(r.error_model == s.error_model, "target-error-model")
    if s.cov_nev is not None:
        ctx.close(r.cov_nev[0], s.cov_nev[-1], "target-start-covariance", rtol=1e-9, scale=float(np.abs(s.cov_nev[-1]).max()))
    ctx.key("target", what, unit, *sorted(kw), s.header.azi_reference, s.cov_nev is not None)
    ctx.event("projections")


SCENARIOS = [
    Scenario("ahead", ahead, 600, 15000),
    Scenario("bit", bit, 300, 8000),
    Scenario("target", target, 250, 4000),
]
