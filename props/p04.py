"""P04  Interpolation in measured depth stays on the well path."""
from vmon import gen, ref
from vmon.core import Scenario
from vmon.env import np, we
from vmon.purity import Watch

META = dict(
    title='Interpolating at a depth stays on the path',
    statement=('Interpolating a survey at any measured depth within it returns the position and '
               'direction of the path there, and re-sampling at any step returns every original '
               'station unchanged plus points of the path on the requested grid, with interpolated '
               'flags that tell them apart. Covariances at original stations are those of the '
               "original survey, the result keeps the survey's unit, start and azimuth reference, "
               'and the survey is left unchanged.'),
    over=['inputs', 'configurations'],
    quantifier='all surveys, depths at, next to and between stations, any step, with and without covariances or an error model',
    why='Tests check a single well and one step; depth rounding at stations, feet, non-grid references and covariances are never sampled.',
    files=['welleng/survey.py'],
    mechanism=[('interpolation',
  'welleng/survey.py:_interpolate_survey, interpolate_md, interpolate_survey, '
  'Survey.interpolate_md')],
)

PROPERTY, LEVEL = "P04", "exploration"
RULE = ("a case is one generated survey interpolated at hostile measured depths (stations, just "
        "beside stations, span ends, random) or re-sampled at one step; classes are (family, "
        "reference, unit, what was interpolated)")


def make(ctx, cov=True):
    rng = ctx.rng
    kind, md, inc, azi = gen.traj(rng)
    unit = str(rng.choice(["meters", "feet"]))
    aref = str(rng.choice(["grid", "true", "magnetic"]))
    h = gen.header(rng, azi_reference=aref, depth_unit=unit, surface_unit=unit)
    sn = np.round(rng.normal(0, 1000, 3), 2)
    rad = rng.uniform(.05, .5, len(md)) if rng.random() < .5 else None
    c = None
    if cov and rng.random() < .5:
        c = np.array([gen.psd(rng) for _ in md])
        if rng.random() < .5:       # accumulating, or of unrelated tie-ins
            c = np.cumsum(c, axis=0)
    ctx.case = dict(kind=kind, md=md, inc=inc, azi=azi, unit=unit, aref=aref, start=sn, cov=c is not None)
    s = we.survey.Survey(md=md, inc=inc, azi=azi, header=h, unit=unit, start_nev=sn, radius=rad,
                         cov_nev=None if c is None else c.copy())
    off = {"grid": 0.0, "true": -h.convergence, "magnetic": h.declination - h.convergence}[aref]
    P = ref.Path(md, np.radians(inc), np.radians(azi) + off, sn)
    return kind, s, P, c, rad, h


def tol_of(md, P):
    # the direction between almost parallel stations is only good to ~1e-7
    D = ref.angle(P.t[:-1], P.t[1:])
    w = np.diff(md)[(D > 0) & (D < 1e-3)]
    return 1e-9 * (md[-1] - md[0] + np.abs(P.pos).max()) + 1e-6 + 3e-7 * (w.max() if len(w) else 0.0)


def points(rng, md):
    out = list(rng.choice(md, 3)) + [md[0], md[-1]]
    out += list(rng.uniform(md[0], md[-1], 5))
    i = int(rng.integers(0, len(md) - 1))
    out += [md[i] + 1e-3, md[i + 1] - 1e-3, 0.5 * (md[i] + md[i + 1])]
    return [float(x) for x in out]


def at_md(ctx):
    rng = ctx.rng
    kind, s, P, c, rad, h = make(ctx)
    md, tol = P.md, tol_of(P.md, P)
    with Watch(ctx, "interpolate_md", survey=s):
        nodes = [(m, s.interpolate_md(m)) for m in points(rng, md)]
    for m, nd in nodes:
        if not ctx.check(nd is not None, "md-inside-gives-none", m=m):
            continue
        p, t = P.at(m)
        ctx.close(nd.md, m, "md-node-md", rtol=0, atol=1e-9)
        ctx.close(nd.pos_nev, p, "md-position", rtol=0, atol=tol, m=m)
        ctx.close(np.asarray(nd.pos_xyz)[[1, 0, 2]], p, "md-position-xyz", rtol=0, atol=tol, m=m)
        ctx.close(nd.vec_nev, t, "md-tangent", rtol=0, atol=1e-7, m=m)
        i, a = ref.inc_azi(t)
        ctx.close(nd.inc_rad, i, "md-inc", rtol=0, atol=1e-7)
        if np.sin(i) > 1e-3:
            ctx.close(ref.wrap(nd.azi_rad - a), 0.0, "md-azi", atol=1e-6)
        ctx.check(nd.unit == s.unit, "md-node-unit", got=nd.unit)
        if c is not None:
            k = int(np.clip(np.searchsorted(md, m, side="right") - 1, 0, len(md) - 2))
            f = (m - md[k]) / (md[k + 1] - md[k])
            if ctx.check(nd.cov_nev is not None, "md-cov-lost", m=m):
                ctx.close(np.asarray(nd.cov_nev).reshape(3, 3), c[k] + f * (c[k + 1] - c[k]), "md-cov",
                          rtol=1e-7, scale=float(np.abs(c).max()), m=m)
        ctx.check(bool(nd.interpolated) == bool(np.abs(md - m).min() > 1e-9), "md-flag", m=m)
    ctx.check(s.interpolate_md(md[-1] + 1.0) is None, "md-beyond-end")
    ctx.key(kind, s.unit, h.azi_reference)
    ctx.event("nodes", len(nodes))
    if c is not None:
        ctx.event("node-covariances", len(nodes))


def resample(ctx):
    rng = ctx.rng
    kind, s, P, c, rad, h = make(ctx)
    md, tol = P.md, tol_of(P.md, P)
    span = (md[-1] - md[0])
    step = float(rng.choice([span / 7.3, span / 41.0, 30.0, np.diff(md).min() / 2, np.diff(md)[0],
                             span * 2]))
    step = max(step, span / 300)
    ctx.case["step"] = step
    with Watch(ctx, "interpolate_survey", survey=s):
        i_s = s.interpolate_survey(step=step)
    got = np.asarray(i_s.md)
    ctx.check(np.all(np.diff(got) > 0), "survey-order", md=got)
    ctx.check(np.all(np.diff(got) <= step * (1 + 1e-9) + 1e-3), "survey-step",
              worst=float(np.diff(got).max()), step=step)
    near = np.abs(got[:, None] - md[None, :])
    ctx.check(np.all(near.min(axis=0) <= 1e-9), "survey-loses-station",
              lost=md[near.min(axis=0) > 1e-9])
    flag = np.asarray(i_s.interpolated, bool)
    ctx.check(np.array_equal(flag, near.min(axis=1) > 1e-9), "survey-flags")
    pos, tan = map(np.array, zip(*[P.at(m) for m in got]))
    ctx.close(np.column_stack([i_s.n, i_s.e, i_s.tvd]), pos, "survey-position", rtol=0, atol=tol * 3)
    ctx.close(i_s.vec_nev, tan, "survey-tangent", rtol=0, atol=1e-6)
    ctx.check(i_s.unit == s.unit, "survey-unit")
    ctx.check(i_s.header.azi_reference == h.azi_reference, "survey-reference")
    k = np.clip(np.searchsorted(md, got + 1e-9, side="right") - 1, 0, len(md) - 1)
    ctx.close(i_s.radius, np.asarray(s.radius)[k], "survey-radius", rtol=0, atol=1e-12)
    if c is not None:
        k2 = np.minimum(k, len(md) - 2)
        f = ((got - md[k2]) / (md[k2 + 1] - md[k2]))[:, None, None]
        want = c[k2] + f * (c[k2 + 1] - c[k2])
        if ctx.check(i_s.cov_nev is not None, "survey-cov-lost"):
            ctx.close(i_s.cov_nev, want, "survey-cov", rtol=1e-7, scale=float(np.abs(c).max()))
            A = np.array([ref.hla_axes(a, b) for a, b in zip(i_s.inc_rad, i_s.azi_grid_rad)])
            ctx.close(i_s.cov_hla, A @ want @ A.transpose(0, 2, 1), "survey-cov-hla", rtol=1e-6,
                      scale=float(np.abs(c).max()))
    # resampling a resampled survey changes nothing but the stations
    j_s = i_s.interpolate_survey(step=step * 1.7)
    ctx.close(j_s.get_nev_arr()[-1], P.pos[-1], "survey-twice", rtol=0, atol=tol * 5)
    ctx.key(kind, s.unit, h.azi_reference, c is not None, rad is not None)
    ctx.event("stations", len(got))


def error_cov(ctx):
    """Covariances of a survey with an error model are carried the same way."""
    rng = ctx.rng
    kind, md, inc, azi = gen.build(rng, n=int(rng.integers(4, 12)), md0=0.0)
    inc[0] = 0.0
    s = we.survey.Survey(md=md, inc=inc, azi=azi, header=gen.header(), error_model="ISCWSA MWD Rev4")
    ctx.case = dict(kind=kind, md=md, inc=inc, azi=azi)
    i_s = s.interpolate_survey(step=float(rng.uniform(5, 40)))
    got = np.asarray(i_s.md)
    k = np.clip(np.searchsorted(md, got + 1e-9, side="right") - 1, 0, len(md) - 2)
    f = ((got - md[k]) / (md[k + 1] - md[k]))[:, None, None]
    want = s.cov_nev[k] + f * (s.cov_nev[k + 1] - s.cov_nev[k])
    ctx.close(i_s.cov_nev, want, "survey-cov-model", rtol=1e-7, scale=float(np.abs(want).max()))
    ctx.key(kind)


SCENARIOS = [
    Scenario("at_md", at_md, 250, 5000),
    Scenario("resample", resample, 150, 3000),
    Scenario("error_cov", error_cov, 30, 600),
]
