"""P30  Maximum curvature: midpoints bent by the extra severity, stations untouched."""
from vmon import gen, ref
from vmon.core import Scenario
from vmon.env import np, we
from vmon.purity import Watch

META = dict(
    title='Maximum curvature adds midpoints bent by the severity noise',
    statement=('The maximum-curvature alternative of a survey holds the original stations with their depths and '
               'attitudes, plus one flagged station halfway along each interval whose attitude has been turned '
               'from the station above, in the plane the interval bends in, at the interval\'s own dogleg '
               'severity plus the noise asked for, in metres and in feet; positions follow by minimum '
               'curvature, no noise gives the original path, and the survey itself is unchanged.'),
    over=['inputs'],
    quantifier='all well paths, severity noises (including zero), units and azimuth references',
    why='No test looks at the midpoints; unit, plane or straight-interval errors give plausible surveys.',
    files=['welleng/survey.py', 'welleng/utils.py'],
    mechanism=[('maximum curvature', 'welleng/survey.py:Survey.maximum_curvature'),
 ('radius', 'welleng/utils.py:radius_from_dls')],
)

PROPERTY, LEVEL = "P30", "exploration"
RULE = ("a case draws a well path and a noise, and derives every midpoint attitude from the tangents of the "
        "interval; classes are (path kind, unit, reference, noise class)")


def midpoints(ctx):
    rng = ctx.rng
    unit = str(rng.choice(["meters", "feet"]))
    base = 30. if unit == "meters" else 100.
    h = gen.header(rng, depth_unit=unit, surface_unit=unit)
    kind, md, inc, azi = gen.traj(rng)
    if unit == "feet":
        md = md * 3
    start = np.round(rng.normal(0, 300, 3), 2) if rng.random() < .6 else np.zeros(3)
    noise = [0.0, 1.0, float(rng.uniform(.05, 3)), None][int(rng.choice(4, p=[.25, .15, .4, .2]))]
    s = we.survey.Survey(md=md, inc=inc, azi=azi, header=h, unit=unit, start_nev=list(start),
                         start_xyz=[start[1], start[0], start[2]])
    ctx.case = dict(kind=kind, unit=unit, reference=h.azi_reference, noise=noise, md=md, inc=inc, azi=azi, start=start)
    with Watch(ctx, "maximum_curvature", survey=s):
        t = s.maximum_curvature() if noise is None else s.maximum_curvature(noise)
    nz = 1.0 if noise is None else noise
    n = len(md)
    if not ctx.check(len(t.md) == 2 * n - 1, "stations", got=len(t.md), n=n):
        return
    ctx.check(t.unit == unit and t.header.depth_unit == unit, "unit", got=t.unit)
    ctx.close(t.md[::2], md, "station-md", rtol=1e-12, atol=1e-9)
    ctx.close(t.inc_deg[::2], s.inc_deg, "station-inc", rtol=0, atol=1e-7)
    for a in ("azi_grid_rad", "azi_true_rad", "azi_mag_rad"):
        ctx.close(ref.wrap(getattr(t, a)[::2] - getattr(s, a)), 0, "station-azi", rtol=0, atol=1e-8, which=a)
    ctx.close(t.md[1::2], (md[:-1] + md[1:]) / 2, "midpoint-md", rtol=1e-9, atol=1e-6)
    ctx.check(np.array_equal(np.asarray(t.interpolated).astype(bool), np.arange(2 * n - 1) % 2 == 1), "flags",
              got=t.interpolated)
    # tangents at stations and midpoints
    v = ref.tangent(s.inc_rad, s.azi_grid_rad)
    m = ref.tangent(t.inc_rad, t.azi_grid_rad)[1::2]
    L = np.diff(md)
    dog = ref.angle(v[:-1], v[1:])
    for i in range(n - 1):
        turn = [dog[i] / 2 + np.radians(nz * k / base) * L[i] / 2 for k in ((1.,) if unit == "meters" else (1., 1.016))]
        if turn[-1] > 3.0:
            ctx.event("turns-too-far")
            continue
        got = float(ref.angle(v[i], m[i]))
        tol = 2e-7 + 1e-6 * turn[-1]
        ctx.check(turn[0] - tol <= got <= turn[-1] + tol, "midpoint-turn", i=i, got=got, want=turn, dogleg=dog[i])
        if dog[i] > 1e-4 and dog[i] < 3.1 and turn[0] > 1e-6:
            o = v[i + 1] - v[i] * (v[i] @ v[i + 1])
            o /= np.linalg.norm(o)
            want = np.cos(got) * v[i] + np.sin(got) * o
            ctx.close(m[i], want, "midpoint-plane", rtol=0, atol=2e-6 + 3e-9 / dog[i], i=i)
            ctx.event("bent-intervals")
    # positions are the minimum-curvature path through all of them
    p = ref.path(t.md, t.inc_rad, t.azi_grid_rad, start)
    ctx.close(np.array([t.n, t.e, t.tvd]).T, p, "positions", rtol=0, atol=1e-7 * (1 + md[-1] - md[0]) + 1e-6)
    if nz == 0:
        ctx.close(np.array([t.n, t.e, t.tvd]).T[::2], np.array([s.n, s.e, s.tvd]).T, "no-noise-path", rtol=0,
                  atol=1e-6 * (1 + md[-1] - md[0]))
        ctx.event("no-noise")
    ctx.key(kind, unit, h.azi_reference, "none" if noise is None else "zero" if noise == 0 else "some")


SCENARIOS = [Scenario("midpoints", midpoints, 150, 2500)]
