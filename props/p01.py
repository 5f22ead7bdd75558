"""P01  Station positions are the minimum-curvature well path."""
from vmon import gen, ref
from vmon.core import Scenario
from vmon.env import np, we
from vmon.monitors import check_survey

META = dict(
    title='Stations lie on the minimum-curvature path',
    statement=('For any listing of measured depth, inclination and azimuth, the north, east and '
               'vertical positions of every station equal the start position plus the integral of '
               "the unit tangent that turns at constant rate on a circular arc from each station's "
               'direction to the next, in every unit, angle unit and azimuth reference. Splitting an '
               'interval at points of its own arc does not move any station. Positions supplied by '
               'the caller are kept as given.'),
    over=['inputs', 'configurations'],
    quantifier='all station listings (vertical, horizontal, overbend, turning, duplicate attitudes, irregular and long listings), both depth units, three azimuth references, degrees and radians, any start position',
    why='Tests compare one ISCWSA data set; they do not reach start offsets with xyz, overbends, near-180 degree doglegs or radians input, and cannot quantify over listings.',
    files=['welleng/survey.py', 'welleng/utils.py'],
    mechanism=[('minimum curvature', 'welleng/utils.py:MinCurve'),
 ('survey construction', 'welleng/survey.py:Survey._min_curve / Survey.__init__'),
 ('start offset', 'welleng/survey.py:Survey._process_start / pos_nev, pos_xyz')],
)

PROPERTY, LEVEL = "P01", "exploration"
RULE = ("a case is one generated survey (13 trajectory families, metres/feet, random "
        "start position, random station spacing); distinct classes are (family, unit, "
        "azimuth reference, input angle unit, start kind, dogleg decade) tuples")
ASSUMPTIONS = ["tangent quadrature (24-point Gauss-Legendre) is exact to 1e-12 for "
               "doglegs below 170 deg"]


def _survey(ctx, **kw):
    rng = ctx.rng
    kind, md, inc, azi = gen.traj(rng)
    unit = str(rng.choice(["meters", "feet"]))
    aref = str(rng.choice(["grid", "true", "magnetic"]))
    deg = bool(rng.random() < .6)
    hdr = gen.header(rng, azi_reference=aref, depth_unit=unit, surface_unit=unit)
    start_nev = [0., 0., 0.] if rng.random() < .4 else np.round(rng.normal(0, 3000, 3), 3).tolist()
    start_xyz = [0., 0., 0.] if rng.random() < .5 else np.round(rng.normal(0, 3000, 3), 3).tolist()
    ctx.case = dict(kind=kind, md=md, inc=inc, azi=azi, unit=unit, azi_reference=aref,
                    deg=deg, start_nev=start_nev, start_xyz=start_xyz,
                    convergence=hdr.convergence, declination=hdr.declination)
    a = (inc, azi) if deg else (np.radians(inc), np.radians(azi))
    s = we.survey.Survey(md=md, inc=a[0], azi=a[1], header=hdr, deg=deg, unit=unit,
                         start_nev=start_nev, start_xyz=start_xyz, **kw)
    corr = {"grid": 0.0, "true": -hdr.convergence,
            "magnetic": hdr.declination - hdr.convergence}[aref]
    return s, kind, unit, aref, deg, md, np.radians(inc), np.radians(azi) + corr, start_nev, start_xyz


def positions(ctx):
    s, kind, unit, aref, deg, md, inc, azi, sn, sx = _survey(ctx)
    check_survey(ctx, s, who="online")
    L = md[-1] - md[0]
    P = ref.path(md, inc, azi, sn)
    tol = 1e-9 * (L + np.abs(sn).max() + np.abs(sx).max()) + 1e-7
    got = np.column_stack([s.n, s.e, s.tvd])
    ctx.close(got, P, "nev", rtol=0, atol=tol)
    ctx.close(s.get_nev_arr(), P, "nev-array", rtol=0, atol=tol)
    ctx.close(s.pos_nev, P, "pos_nev", rtol=0, atol=tol)
    X = (P - np.array(sn))[:, [1, 0, 2]] + np.array(sx)
    ctx.close(s.pos_xyz, X, "pos_xyz", rtol=0, atol=tol)
    ctx.close(np.column_stack([s.x, s.y, s.z]), X, "xyz", rtol=0, atol=tol)
    t = ref.tangent(inc, azi)
    D = np.concatenate([[0], ref.angle(t[:-1], t[1:])])
    dmd = np.diff(md)
    base = 30.0 if unit == "meters" else 100.0
    # an arccos/arcsin is only good to sqrt(eps) at the ends of its range
    ctx.close(s.dogleg, D, "dogleg", rtol=1e-9, atol=3e-8)
    ctx.close(s.dls[1:], np.degrees(D[1:]) / dmd * base, "dls", rtol=1e-8,
              atol=float(np.degrees(3e-8) * base / dmd.min()))
    ctx.close(s.delta_md[1:], dmd, "delta_md", rtol=1e-9, atol=1e-9)
    ctx.close(s.vec_nev, t, "vec_nev", rtol=0, atol=1e-9)
    # global sanity of a path: chord never longer than the along-hole length
    chord = np.linalg.norm(np.diff(got, axis=0), axis=1)
    ctx.check(np.all(chord <= dmd * (1 + 1e-9) + 1e-7), "chord-longer-than-arc")
    ctx.key(kind, unit, aref, deg, "n0" if not any(sn) else "n", "x0" if not any(sx) else "x",
            int(np.floor(np.log10(max(D.max(), 1e-12)))))
    ctx.event("stations", len(md))


def primitives(ctx):
    """The exported geometry primitives against the reference, tiny to near-straight-back."""
    rng, u = ctx.rng, we.utils
    i1, i2 = rng.uniform(0, np.pi, 2)
    a1, a2 = rng.uniform(-2 * np.pi, 4 * np.pi, 2)
    mode = str(rng.choice(["any", "tiny", "same", "polar", "wrap"]))
    if mode == "tiny":
        e = 10.0 ** rng.uniform(-12, -3)
        i2, a2 = i1 + e * rng.normal(), a1 + e * rng.normal()
    elif mode == "same":
        i2, a2 = i1, a1 + 2 * np.pi * rng.integers(-1, 2)
    elif mode == "polar":
        i1 = float(rng.choice([0.0, 1e-9, np.pi / 2]))
    elif mode == "wrap":
        a1, a2 = rng.uniform(0, .1), 2 * np.pi - rng.uniform(0, .1)
    t1, t2 = ref.tangent(i1, a1), ref.tangent(i2, a2)
    D = float(ref.angle(t1, t2))
    if D > 3.0:
        i2 = i1
        a2 = a1 + 0.3
        t2 = ref.tangent(i2, a2)
        D = float(ref.angle(t1, t2))
    L = float(10.0 ** rng.uniform(-1, 3))
    ctx.case = dict(mode=mode, i1=i1, a1=a1, i2=i2, a2=a2, L=L)
    ctx.close(u.get_dogleg(i1, a1, i2, a2), D, "get_dogleg", rtol=1e-9, atol=3e-8)
    ctx.close(u.get_rf(D), 1.0 if D < 1e-9 else np.tan(D / 2) / (D / 2), "get_rf",
              rtol=1e-9, atol=1e-12)
    want = ref.arc_step(t1, t2, L)
    ctx.close(np.asarray(u.min_curve_step(L, i1, a1, i2, a2)).ravel(), want, "min_curve_step",
              rtol=0, atol=1e-8 * L + 1e-9)
    unit = str(rng.choice(["meters", "feet"]))
    sx = rng.normal(0, 500, 3)
    m0 = float(rng.uniform(0, 1000))
    mc = u.MinCurve(np.array([m0, m0 + L, m0 + 2 * L]), np.array([i1, i2, i2]),
                    np.array([a1, a2, a2]), sx, unit)
    W = np.array([[0, 0, 0], want, want + t2 * L])[:, [1, 0, 2]] + sx
    ctx.close(mc.poss, W, "MinCurve.poss", rtol=0, atol=1e-8 * L + 1e-8)
    ctx.close(mc.dls[1], np.degrees(D) / L * (30 if unit == "meters" else 100),
              "MinCurve.dls", rtol=1e-8, atol=1e-4 / L)
    ctx.close(np.asarray(u.get_vec(i1, a1, nev=True, deg=False)).ravel(), t1, "get_vec", rtol=0, atol=1e-12)
    ctx.close(np.asarray(u.get_vec(np.degrees(i1), np.degrees(a1), nev=False, deg=True)).ravel()[[1, 0, 2]],
              t1, "get_vec-xyz", rtol=0, atol=1e-10)
    ang = np.asarray(u.get_angles(t1, nev=True)).ravel()
    ctx.close(ref.tangent(ang[0], ang[1]), t1, "get_angles", rtol=0, atol=3e-8)
    ctx.check(0 <= ang[1] < 2 * np.pi + 1e-12 and -1e-12 <= ang[0] <= np.pi + 1e-12,
              "get_angles-range", got=ang)
    ctx.key(mode, int(np.floor(np.log10(max(D, 1e-13)))), unit)


def refine(ctx):
    """Splitting an interval at a station on its own arc changes nothing else."""
    s, kind, unit, aref, deg, md, inc, azi, sn, sx = _survey(ctx)
    rng = ctx.rng
    t = ref.tangent(inc, azi)
    rows = []
    ins = rng.random(len(md) - 1) < .5
    ins[rng.integers(len(ins))] = True
    keep = []
    for i in range(len(md)):
        keep.append(len(rows))
        rows.append((md[i], inc[i], azi[i]))
        if i < len(md) - 1 and ins[i]:
            for f in np.sort(rng.uniform(.05, .95, rng.integers(1, 4))):
                v = ref.slerp(t[i], t[i + 1], f)
                ii, aa = ref.inc_azi(v)
                rows.append((md[i] + f * (md[i + 1] - md[i]), ii, aa))
    r = np.array(rows)
    h = gen.header(azi_reference="grid", depth_unit=unit, surface_unit=unit)
    s2 = we.survey.Survey(md=r[:, 0], inc=r[:, 1], azi=r[:, 2], deg=False, header=h,
                          unit=unit, start_nev=sn)
    got = np.column_stack([s2.n, s2.e, s2.tvd])[keep]
    L = md[-1] - md[0]
    ctx.close(got, np.column_stack([s.n, s.e, s.tvd]), "refinement-moves-stations", rtol=0,
              atol=1e-8 * L + 1e-6)
    ctx.key(kind, unit, int(ins.sum()) > 3)
    ctx.event("stations-inserted", len(r) - len(md))


def long_listing(ctx):
    """Thousands of stations: no drift."""
    rng = ctx.rng
    n = int(rng.integers(800, 3000))
    kind, md, inc, azi = gen.traj(rng, "walk", n, step=10.)
    ctx.case = dict(kind=kind, n=n)
    s = we.survey.Survey(md=md, inc=inc, azi=azi, header=gen.header())
    P = ref.path(md, np.radians(inc), np.radians(azi))
    ctx.close(np.column_stack([s.n, s.e, s.tvd]), P, "drift", rtol=0, atol=1e-5)
    ctx.key("long", n // 500)
    ctx.event("stations", n)


def provided(ctx):
    """Positions, when the caller supplies them, are kept."""
    rng = ctx.rng
    kind, md, inc, azi = gen.traj(rng)
    sn = rng.normal(0, 1000, 3)
    P = ref.path(md, np.radians(inc), np.radians(azi), sn) + rng.normal(0, .02, (len(md), 3))
    ctx.case = dict(kind=kind, md=md, inc=inc, azi=azi)
    s = we.survey.Survey(md=md, inc=inc, azi=azi, n=P[:, 0], e=P[:, 1], tvd=P[:, 2],
                         header=gen.header())
    ctx.close(np.column_stack([s.n, s.e, s.tvd]), P, "given-positions-kept", rtol=1e-12, atol=1e-9)
    ctx.close(s.start_nev, P[0], "given-start", rtol=1e-12, atol=1e-9)
    ctx.close(s.pos_nev - s.pos_nev[0], ref.path(md, np.radians(inc), np.radians(azi)),
              "given-positions-shape", rtol=0, atol=1e-6)
    ctx.key(kind)


SCENARIOS = [
    Scenario("positions", positions, 400, 8000),
    Scenario("primitives", primitives, 1500, 40000),
    Scenario("refine", refine, 200, 4000),
    Scenario("long_listing", long_listing, 6, 60, batch=1),
    Scenario("provided", provided, 80, 1500),
]
