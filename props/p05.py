"""P05  Interpolation in true vertical depth lands on the path at that depth."""
from vmon import gen, ref
from vmon.core import Scenario, Skip
from vmon.env import np, we
from vmon.purity import Watch

META = dict(
    title='Interpolating at a vertical depth lands on it',
    statement=('A node interpolated at a true vertical depth within a survey is a point of the path '
               'at exactly that depth, and re-sampling by vertical depth returns the original '
               'stations plus one point of the path on each grid depth crossed. Units, azimuth '
               'references and start offsets carry over and the survey is left unchanged.'),
    over=['inputs', 'configurations'],
    quantifier='all surveys whose depth increases, plus turning wells for the depths they cross, at, beside and between stations',
    why='Tests cover one vertical-depth query; convergence of the solve for every arc, start offset and unit is an input-quantified claim.',
    files=['welleng/survey.py'],
    mechanism=[('vertical depth solve',
  'welleng/survey.py:interpolate_tvd, Survey.interpolate_tvd, interpolate_survey_tvd, '
  'get_node_tvd')],
)

PROPERTY, LEVEL = "P05", "exploration"
RULE = ("a case is one generated survey queried at hostile vertical depths (stations, beside "
        "stations, random) or re-sampled at one vertical step; classes are (family, reference, "
        "unit, start offset)")

MONO = ["vertical", "slant", "jwell", "swell", "spiral", "walk", "northwrap", "backvertical", "dupes", "creep", "creep"]


def make(ctx, limit=88.0):
    rng = ctx.rng
    kind, md, inc, azi = gen.traj(rng, str(rng.choice(MONO)))
    inc = np.minimum(inc, limit)
    unit = str(rng.choice(["meters", "feet"]))
    aref = str(rng.choice(["grid", "true", "magnetic"]))
    h = gen.header(rng, azi_reference=aref, depth_unit=unit, surface_unit=unit)
    sn = np.round(rng.normal(0, 1000, 3), 2) if rng.random() < .6 else np.zeros(3)
    ctx.case = dict(kind=kind, md=md, inc=inc, azi=azi, unit=unit, aref=aref, start=sn)
    s = we.survey.Survey(md=md, inc=inc, azi=azi, header=h, unit=unit, start_nev=sn)
    off = {"grid": 0.0, "true": -h.convergence, "magnetic": h.declination - h.convergence}[aref]
    P = ref.Path(md, np.radians(inc), np.radians(azi) + off, sn)
    return kind, s, P, h


def tol_of(P):
    return 1e-8 * (P.md[-1] - P.md[0] + np.abs(P.pos).max()) + 1e-5


def at_tvd(ctx):
    rng = ctx.rng
    kind, s, P, h = make(ctx)
    v = np.asarray(s.tvd, float)
    if np.any(np.diff(v) <= 1e-3):
        raise Skip("tvd not increasing")
    i = int(rng.integers(0, len(v) - 1))
    q = list(rng.choice(v[1:-1], 2)) + list(rng.uniform(v[0], v[-1], 5)) + [
        v[i] + 1e-3 * (v[i + 1] - v[i]), v[i + 1] - 1e-3 * (v[i + 1] - v[i]),
        v[0] + 1e-6 * (v[1] - v[0]), v[-1]]
    with Watch(ctx, "interpolate_tvd", survey=s):
        nodes = [(float(t), s.interpolate_tvd(float(t))) for t in q]
    tol = tol_of(P)
    for t, nd in nodes:
        ctx.close(nd.pos_nev[2], t, "tvd-depth", rtol=0, atol=tol, tvd=t)
        if ctx.check(P.md[0] - 1e-6 <= nd.md <= P.md[-1] + 1e-6, "tvd-md-range", tvd=t, md=nd.md):
            p, tan = P.at(nd.md)
            ctx.close(nd.pos_nev, p, "tvd-position", rtol=0, atol=tol, tvd=t)
            ctx.close(nd.vec_nev, tan, "tvd-tangent", rtol=0, atol=1e-6, tvd=t)
        ctx.check(nd.unit == s.unit, "tvd-unit")
    ctx.key(kind, s.unit, h.azi_reference, bool(np.any(s.start_nev)))
    ctx.event("nodes", len(nodes))


def resample(ctx):
    rng = ctx.rng
    kind, s, P, h = make(ctx, 80.0)
    v = P.pos[:, 2]
    if np.any(np.diff(v) <= 1e-2):
        raise Skip("tvd not increasing")
    span = v[-1] - v[0]
    step = float(rng.choice([span / 5.3, span / 17.0, 10.0, 30.0]))
    step = max(step, span / 60)
    g0, kw = v[0], {}
    if rng.random() < .5:
        g0 = float(rng.choice([v[0], v[0] - 2.5 * step, v[0] - 40 * step, v[0] - 3 * step, v[0] + .3 * step,
                               v[0] + .4 * span, v[-1] + step, np.floor(v[0] / step) * step]))
        kw["start"] = g0
    ctx.case.update(step=step, **kw)
    with Watch(ctx, "interpolate_survey_tvd", survey=s):
        r = s.interpolate_survey_tvd(step=step, **kw)
    tol = 3 * tol_of(P)
    got = np.asarray(r.md)
    ctx.check(np.all(np.diff(got) > 0), "survey-order", md=got)
    near = np.abs(got[:, None] - P.md[None, :])
    ctx.check(np.all(near.min(axis=0) <= 1e-6), "survey-loses-station", lost=P.md[near.min(axis=0) > 1e-6])
    inside = np.clip(got, P.md[0], P.md[-1])
    pos, tan = map(np.array, zip(*[P.at(m) for m in inside]))
    ctx.close(np.column_stack([r.n, r.e, r.tvd]), pos, "survey-position", rtol=0, atol=tol)
    ctx.close(r.vec_nev, tan, "survey-tangent", rtol=0, atol=1e-6)
    ctx.close(r.inc_rad, ref.inc_azi(tan)[0], "survey-inc", rtol=0, atol=1e-6)
    # every whole step of vertical depth is hit
    want = g0 + step * np.arange(max(0, np.ceil((v[0] - g0) / step)), max(0, np.ceil((v[-1] - g0) / step)) + 1)
    want = want[want < v[-1] - 1e-3]
    if len(want):
        miss = np.abs(np.asarray(r.tvd)[:, None] - want[None, :]).min(axis=0)
        ctx.check(np.all(miss <= tol), "survey-misses-depth", worst=float(miss.max()),
                  at=float(want[miss.argmax()]))
    flag = np.asarray(r.interpolated, bool)
    far = near.min(axis=1) > 1e-3
    ctx.check(np.all(flag[far]), "survey-flag-interpolated")
    k = (np.asarray(r.tvd)[far] - g0) / step
    ctx.close(k * step, np.round(k) * step, "survey-off-grid", rtol=0, atol=tol)
    ctx.check(np.all(k > -1e-3), "survey-before-start", first=float(k.min()) if len(k) else 0.)
    ctx.check(not np.any(flag[near.min(axis=1) < 1e-9]), "survey-flag-original")
    ctx.check(r.unit == s.unit, "survey-unit")
    ctx.key(kind, s.unit, h.azi_reference, bool(kw), bool(g0 < v[0]))
    ctx.event("stations", len(got))


def turning(ctx):
    """Wells that go through horizontal and climb: any depth between the
    shallowest and deepest station still resolves to a point of the well."""
    rng = ctx.rng
    kind, md, inc, azi = gen.traj(rng, str(rng.choice(["overbend", "tightwalk", "horizontal"])))
    h = gen.header(rng)
    sn = np.round(rng.normal(0, 1000, 3), 2)
    ctx.case = dict(kind=kind, md=md, inc=inc, azi=azi, start=sn)
    s = we.survey.Survey(md=md, inc=inc, azi=azi, header=h, start_nev=sn)
    P = ref.Path(md, s.inc_rad, s.azi_grid_rad, sn)
    v = np.asarray(s.tvd)
    if np.ptp(v) < 1:
        raise Skip("flat")
    for t in list(rng.uniform(v.min(), v.max(), 6)) + [float(v.max()), float(rng.choice(v))]:
        nd = s.interpolate_tvd(float(t))
        p, tan = P.at(nd.md)
        ctx.close(nd.pos_nev[2], t, "turning-depth", rtol=0, atol=tol_of(P), tvd=t)
        ctx.close(nd.pos_nev, p, "turning-position", rtol=0, atol=tol_of(P), tvd=t)
        ctx.event("nodes")
    ctx.key(kind, bool(v.argmax() < len(v) - 1))


def turning_resample(ctx):
    """Re-sampled wells that turn up: every station is kept, every extra one is
    a point of the path on the grid of depths, and every crossing has one."""
    rng = ctx.rng
    kind, md, inc, azi = gen.traj(rng, str(rng.choice(["overbend", "tightwalk", "horizontal", "overbend"])))
    h = gen.header(rng)
    sn = np.round(rng.normal(0, 500, 3), 2)
    ctx.case = dict(kind=kind, md=md, inc=inc, azi=azi, start=sn)
    s = we.survey.Survey(md=md, inc=inc, azi=azi, header=h, start_nev=sn)
    P = ref.Path(md, s.inc_rad, s.azi_grid_rad, sn)
    v = np.asarray(s.tvd)
    span = np.ptp(v)
    if span < 1:
        raise Skip("flat")
    step = max(float(rng.choice([span / 5.3, span / 17.0, 10.0, 30.0])), span / 60)
    ctx.case["step"] = step
    with Watch(ctx, "interpolate_survey_tvd", survey=s):
        r = s.interpolate_survey_tvd(step=step)
    tol = 3 * tol_of(P)
    got = np.asarray(r.md)
    ctx.check(np.all(np.diff(got) > 0), "survey-order", md=got)
    near = np.abs(got[:, None] - P.md[None, :])
    ctx.check(np.all(near.min(axis=0) <= 1e-6), "survey-loses-station", lost=P.md[near.min(axis=0) > 1e-6])
    inside = np.clip(got, P.md[0], P.md[-1])
    pos, tan = map(np.array, zip(*[P.at(m) for m in inside]))
    ctx.close(np.column_stack([r.n, r.e, r.tvd]), pos, "survey-position", rtol=0, atol=tol)
    ctx.close(r.vec_nev, tan, "survey-tangent", rtol=0, atol=1e-6)
    extra = np.asarray(r.tvd)[near.min(axis=1) > 1e-3]
    k = (extra - v[0]) / step
    ctx.close(k * step, np.round(k) * step, "survey-off-grid", rtol=0, atol=tol)
    # every crossing of a grid depth (between a station above and one below it)
    tv = np.asarray(r.tvd)
    for i in range(len(md) - 1):
        lo, hi = sorted((v[i], v[i + 1]))
        g = v[0] + step * np.arange(np.ceil((lo - v[0]) / step), np.floor((hi - v[0]) / step) + 1)
        g = g[(g > lo + 1e-3) & (g < hi - 1e-3)]
        here = tv[(got >= md[i] - 1e-6) & (got <= md[i + 1] + 1e-6)]
        for x in g:
            ctx.check(np.abs(here - x).min() <= tol, "crossing-missed", depth=x, rising=bool(v[i + 1] < v[i]), interval=i)
            ctx.event("crossings")
    ctx.key("resample", kind, bool(v.argmax() < len(v) - 1))


SCENARIOS = [
    Scenario("turning", turning, 100, 2000),
    Scenario("turning_resample", turning_resample, 60, 1500),
    Scenario("at_tvd", at_tvd, 300, 6000),
    Scenario("resample", resample, 100, 2000),
]
