"""P21  Slicing a survey and splicing surveys: stations, positions and uncertainty survive."""
from vmon import gen, ref
from vmon.core import Scenario
from vmon.env import np, we
from vmon.purity import Watch

META = dict(
    title='Slicing and splicing surveys preserve every station',
    statement=('A slice of a survey holds exactly the stations asked for, with their depths, attitudes in '
               'all references, positions, radii and covariances unchanged; splicing consecutive surveys '
               'of a well (whatever their error models, azimuth references or units) gives the same well '
               'path as one survey, with each section\'s own covariances, so that splicing what was sliced '
               'returns the original; when a section has no covariances the result has none.'),
    over=['inputs', 'histories'],
    quantifier='all well paths, cut points, azimuth references, units, error models and radii',
    why='Tests never slice or splice; section-wise error models depend on the boundary stations and references being carried over.',
    files=['welleng/survey.py'],
    mechanism=[('slice', 'welleng/survey.py:slice_survey'),
 ('splice', 'welleng/survey.py:SurveyData, splice_surveys')],
)

PROPERTY, LEVEL = "P21", "exploration"
RULE = ("a case draws a well path, cuts it at random stations (slices, or sections surveyed on their own) "
        "and compares slices and splices station by station with the whole; classes are "
        "(operation, reference, unit, kind of covariance)")

AZIS = ["azi_grid_rad", "azi_true_rad", "azi_mag_rad", "azi_grid_deg", "azi_true_deg", "azi_mag_deg"]
MODELS = ["ISCWSA MWD Rev4", "ISCWSA MWD Rev5"]


def models():
    return [m for m in we.error.ERROR_MODELS if m.startswith("ISCWSA") or "MWD" in m][:6]


def same_stations(ctx, mech, got, whole, sl, cov=True, scale=None):
    n = len(whole.md[sl])
    ctx.check(len(got.md) == n, f"{mech}-stations", got=len(got.md), want=n)
    if len(got.md) != n:
        return False
    sc = scale or 1 + float(np.abs(whole.md).max())
    ctx.close(got.md, whole.md[sl], f"{mech}-md", rtol=0, atol=1e-9 * sc)
    ctx.close(got.inc_rad, whole.inc_rad[sl], f"{mech}-inc", rtol=0, atol=1e-10)
    ctx.close(got.inc_deg, whole.inc_deg[sl], f"{mech}-inc", rtol=0, atol=1e-8)
    for a in AZIS:
        w = np.asarray(getattr(whole, a))[sl]
        k = 180 / np.pi if a.endswith("deg") else 1
        ctx.close(ref.wrap((np.asarray(getattr(got, a)) - w) / k), 0, f"{mech}-azi", rtol=0, atol=1e-9, which=a)
    for a in ("n", "e", "tvd", "x", "y", "z", "pos_nev", "pos_xyz"):
        ctx.close(getattr(got, a), np.asarray(getattr(whole, a))[sl], f"{mech}-position", rtol=0,
                  atol=1e-8 * sc, which=a)
    for a in ("vec_nev", "vec_xyz"):
        ctx.close(getattr(got, a), np.asarray(getattr(whole, a))[sl], f"{mech}-tangent", rtol=0, atol=1e-8, which=a)
    for a in ("dogleg", "dls", "delta_md"):
        ctx.close(getattr(got, a)[1:], np.asarray(getattr(whole, a))[sl][1:], f"{mech}-interval", rtol=1e-6,
                  atol=1e-6, which=a)
    ctx.close(got.radius, np.asarray(whole.radius)[sl], f"{mech}-radius", rtol=1e-12, atol=0)
    ctx.check(got.unit == whole.unit and got.header.depth_unit == whole.unit, f"{mech}-unit", got=got.unit)
    ctx.event("stations", n)
    return True


def draw(ctx):
    rng = ctx.rng
    unit = str(rng.choice(["meters", "meters", "feet"]))
    h = gen.header(rng, depth_unit=unit, surface_unit=unit)
    kind, md, inc, azi = gen.traj(rng, n=int(rng.integers(5, 26)))
    if unit == "feet":
        md = md * 3
    start = np.round(rng.normal(0, 300, 3), 2) if rng.random() < .7 else np.zeros(3)
    radius = rng.choice([0, 1, 2])
    radius = [None, .2, np.round(rng.uniform(.05, .4, len(md)), 3)][radius]
    ctx.case = dict(kind=kind, unit=unit, reference=h.azi_reference, n=len(md), md=md, inc=inc, azi=azi, start=start,
                    declination=h.declination, convergence=h.convergence)
    return h, unit, md, inc, azi, start, radius


def build(h, unit, md, inc, azi, start, radius, **kw):
    return we.survey.Survey(md=md, inc=inc, azi=azi, header=h, unit=unit, radius=radius,
                            start_nev=list(start), start_xyz=[start[1], start[0], start[2]], **kw)


def slices(ctx):
    rng = ctx.rng
    h, unit, md, inc, azi, start, radius = draw(ctx)
    n = len(md)
    cov = str(rng.choice(["none", "given", "model"]))
    kw = {}
    if cov == "given":
        kw["cov_nev"] = np.cumsum([gen.psd(rng, .1) for _ in range(n)], axis=0)
    elif cov == "model":
        kw["error_model"] = str(rng.choice(models()))
    s = build(h, unit, md, inc, azi, start, radius, **kw)
    ctx.case.update(cov=cov, model=kw.get("error_model"))
    for _ in range(4):
        i = int(rng.integers(0, n - 1))
        j = int(rng.integers(i + 2, n + 1))
        a, b = i, j
        m = rng.random()
        if m < .25:
            b, j = None, n
        elif m < .4:
            a = i - n
        elif m < .5 and j < n:
            b = j - n
        ctx.case.update(start_index=a, stop_index=b)
        with Watch(ctx, "slice_survey", survey=s):
            t = we.survey.slice_survey(s, a, b) if b is not None or rng.random() < .5 else we.survey.slice_survey(s, a)
        sl = slice(i, j)
        if not same_stations(ctx, "slice", t, s, sl):
            continue
        if cov == "none":
            ctx.check(t.cov_nev is None and t.cov_hla is None, "slice-cov-none")
        else:
            sc = float(np.abs(s.cov_nev).max()) or 1
            ctx.close(t.cov_nev, s.cov_nev[sl], "slice-cov", rtol=1e-9, atol=1e-9 * sc)
            ctx.close(t.cov_hla, s.cov_hla[sl], "slice-cov", rtol=1e-7, atol=1e-8 * sc)
        # positions along the slice are positions along the well
        k = int(rng.integers(i, j - 1))
        x = float(md[k] + rng.uniform(0, 1) * (md[k + 1] - md[k]))
        p, q = t.interpolate_md(x), s.interpolate_md(x)
        ctx.close(np.array(p.pos_nev), q.pos_nev, "slice-interpolate", rtol=0, atol=1e-7 * (1 + md[-1]))
    ctx.key("slice", h.azi_reference, unit, cov)


def cut(rng, n):
    k = int(rng.integers(1, min(4, n - 1) + 1))
    c = np.sort(rng.choice(np.arange(1, n - 1), size=min(k, n - 2), replace=False))
    return [0, *c.tolist(), n - 1]


def resplice(ctx):
    rng = ctx.rng
    h, unit, md, inc, azi, start, radius = draw(ctx)
    n = len(md)
    cov = str(rng.choice(["none", "given", "model"]))
    kw = {}
    if cov == "given":
        kw["cov_nev"] = np.cumsum([gen.psd(rng, .1) for _ in range(n)], axis=0)
    elif cov == "model":
        kw["error_model"] = str(rng.choice(models()))
    s = build(h, unit, md, inc, azi, start, radius, **kw)
    c = cut(rng, n)
    ctx.case.update(cov=cov, cuts=c)
    parts = [we.survey.slice_survey(s, a, b + 1) for a, b in zip(c, c[1:])]
    with Watch(ctx, "splice_surveys", parts=parts):
        t = we.survey.splice_surveys(parts)
    if same_stations(ctx, "resplice", t, s, slice(None)):
        if cov == "none":
            ctx.check(t.cov_nev is None and t.cov_hla is None, "resplice-cov-none")
        else:
            sc = float(np.abs(s.cov_nev).max()) or 1
            ctx.close(t.cov_nev, s.cov_nev, "resplice-cov", rtol=1e-9, atol=1e-9 * sc)
            ctx.close(t.cov_hla, s.cov_hla, "resplice-cov", rtol=1e-7, atol=1e-8 * sc)
    if len(parts) > 2:
        m = int(rng.integers(1, len(parts)))
        u = we.survey.splice_surveys([we.survey.splice_surveys(parts[:m]), we.survey.splice_surveys(parts[m:])])
        same_stations(ctx, "resplice-grouped", u, s, slice(None))
    ctx.key("resplice", h.azi_reference, unit, cov, len(parts))


def sections(ctx):
    """Sections surveyed with their own tools, references and error models."""
    rng = ctx.rng
    h, unit, md, inc, azi, start, radius = draw(ctx)
    n = len(md)
    whole = build(h, unit, md, inc, azi, start, radius)
    c = cut(rng, n)
    grid = whole.azi_grid_deg
    mixed = rng.random() < .5
    lacking = rng.random() < .25
    parts, refs, mods = [], [], []
    cov0 = None
    for k, (a, b) in enumerate(zip(c, c[1:])):
        r = str(rng.choice(["grid", "true", "magnetic"])) if mixed and k else h.azi_reference
        hk = gen.header(latitude=h.latitude, longitude=h.longitude, b_total=h.b_total, dip=np.degrees(h.dip) if
                        abs(h.dip) < 1.6 else h.dip, declination=np.degrees(h.declination),
                        convergence=np.degrees(h.convergence), G=h.G, azi_reference=r, depth_unit=unit,
                        surface_unit=unit)
        x = np.asarray(getattr(whole, dict(grid="azi_grid_deg", true="azi_true_deg", magnetic="azi_mag_deg")[r]))
        kw = {} if lacking and k == len(c) - 2 else dict(error_model=str(rng.choice(models())))
        if kw and cov0 is not None:
            kw["start_cov_nev"] = cov0
        p = build(hk, unit, md[a:b + 1], inc[a:b + 1], x[a:b + 1],
                  [whole.n[a], whole.e[a], whole.tvd[a]],
                  whole.radius[a:b + 1], **kw)
        cov0 = None if p.cov_nev is None else p.cov_nev[-1]
        parts.append(p)
        refs.append(r)
        mods.append(kw.get("error_model"))
    ctx.case.update(cuts=c, references=refs, models=mods)
    with Watch(ctx, "splice_surveys", parts=parts):
        t = we.survey.splice_surveys(list(parts))
    if not same_stations(ctx, "splice", t, whole, slice(None)):
        return
    if any(p.cov_nev is None for p in parts):
        ctx.check(t.cov_nev is None and t.cov_hla is None, "splice-cov-none")
    else:
        for kind in ("cov_nev", "cov_hla"):
            want = np.concatenate([getattr(p, kind)[1 if k else 0:] for k, p in enumerate(parts)])
            ctx.close(getattr(t, kind), want, "splice-cov", rtol=1e-6,
                      atol=1e-7 * (float(np.abs(want).max()) or 1), which=kind)
    ctx.check(t.header.azi_reference == h.azi_reference, "splice-header", got=t.header.azi_reference)
    ctx.key("splice", h.azi_reference, "mixed" if mixed else "same", unit, "lacking" if lacking else "models", len(parts))


SCENARIOS = [
    Scenario("slices", slices, 60, 700),
    Scenario("resplice", resplice, 60, 700),
    Scenario("sections", sections, 60, 700),
]
