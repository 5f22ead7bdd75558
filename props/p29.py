"""P29  Exports: control points, listings (.csv) and tables of a survey."""
import os
import tempfile

from vmon import gen, ref, wells
from vmon.core import Scenario
from vmon.env import np, we
from vmon.purity import Watch

META = dict(
    title='Control points and listings of a survey reproduce its path',
    statement=('The sections of a planned well are its holds and arcs: their control points are the stations where '
               'they end, with the attitude, position, dogleg severity, toolface and turn rate of the section, and '
               'a survey through just those points passes through every station. An exported listing (data frame '
               'or .csv, with the asked decimals) holds stations of the survey from first to last with grid '
               'azimuths and says so, and that of a planned well ends within the tolerance of the original, for metres and feet and any '
               'azimuth reference. The survey table lists every station. None of this changes the survey.'),
    over=['inputs'],
    quantifier='all planned and drilled well paths, units, azimuth references, tolerances and decimals',
    why='Tests never export: defects depend on units, references and section boundaries.',
    files=['welleng/survey.py', 'welleng/exchange/csv.py'],
    mechanism=[('sections', 'welleng/survey.py:get_sections'),
 ('listing', 'welleng/survey.py:export_csv, get_data, func; welleng/exchange/csv.py:export_csv'),
 ('table', 'welleng/survey.py:survey_to_df')],
)

PROPERTY, LEVEL = "P29", "exploration"
RULE = ("a case draws a planned well of known holds and arcs or a drilled one, and compares sections, listings "
        "and tables with the plan and with a path rebuilt from what was exported; classes are "
        "(output, unit, reference, number of sections)")
from welleng.exchange import csv as XC  # noqa: E402

COLS = ['MD', 'INC (deg)', 'AZI (deg)', 'NORTHING (m)', 'EASTING (m)', 'TVDSS (m)', 'DLS', 'TOOLFACE', 'BUILD RATE',
        'TURN RATE']


def make(ctx, planned=True):
    """A survey of a plan; the azimuths given in a random reference."""
    rng = ctx.rng
    unit = str(rng.choice(["meters", "feet"]))
    h = gen.header(rng, depth_unit=unit, surface_unit=unit)
    md0 = float(np.round(rng.uniform(0, 2000), 1)) if rng.random() < .4 else 0.0
    if planned:
        p = wells.plan(rng, unit, md0=md0)
        md, inc, azi = p["md"], p["inc"], p["azi"]
    else:
        _, md, inc, azi = gen.traj(rng, md0=md0)
        p = None
    shift = dict(grid=0.0, true=np.degrees(h.convergence), magnetic=np.degrees(h.convergence - h.declination))
    start = np.round(rng.normal(0, 500, 3), 2) if rng.random() < .6 else np.zeros(3)
    s = we.survey.Survey(md=md, inc=inc, azi=np.mod(azi + shift[h.azi_reference], 360), header=h, unit=unit,
                         start_nev=list(start), start_xyz=[start[1], start[0], start[2]])
    ctx.case = dict(unit=unit, reference=h.azi_reference, declination=h.declination, convergence=h.convergence,
                    start=start, md=md, inc=inc, azi=azi, corners=None if p is None else p["corners"])
    if float(np.abs(ref.wrap(s.azi_grid_rad - np.radians(azi))).max()) > 1e-9:
        # a matter for the property about azimuth references
        s = None
    return unit, h, p, s


def sections(ctx):
    rng = ctx.rng
    unit, h, p, s = make(ctx)
    if s is None:
        return
    base = 30. if unit == "meters" else 100.
    kw = dict(dls_cont=bool(rng.random() < .5))
    with Watch(ctx, "get_sections", survey=s):
        sec = we.survey.get_sections(s, **kw)
    t, sec = sec[0], sec[1:]
    ctx.check(bool(t.tie_on) and not any(bool(x.tie_on) for x in sec), "tie-on")
    ctx.close(t.md, s.md[0], "tie-on-md", atol=1e-9)
    got = np.array([x.md for x in sec], float)
    want = s.md[p["corners"]]
    if kw["dls_cont"]:
        # an arc's rounded severities may split it further
        ok = all(np.abs(got - w).min() < 1e-6 for w in want)
        ctx.check(ok, "corners-missing", got=got, want=want)
        if not ok:
            return
    elif not ctx.check(len(got) == len(want) and np.allclose(got, want, rtol=0, atol=1e-6), "corners", got=got,
                       want=want):
        return
    idx = np.array([int(np.argmin(np.abs(s.md - m))) for m in got])
    nev = np.array([s.n, s.e, s.tvd]).T
    ctx.close([x.inc for x in sec], s.inc_deg[idx], "section-inc", rtol=0, atol=1e-7)
    ctx.close(ref.wrap(np.radians([float(x.azi) for x in sec]) - s.azi_grid_rad[idx]), 0, "section-azi", rtol=0,
              atol=1e-8)
    loc = np.array([x.location for x in sec], float)
    ctx.close(loc[:, [1, 0]], nev[idx][:, :2], "section-location", rtol=0, atol=1e-6)
    ctx.close(np.abs(loc[:, 2]), np.abs(nev[idx][:, 2]), "section-location", rtol=0, atol=1e-6)
    ctx.close([sec[0].dls, sec[0].toolface, sec[0].turn_rate], 0, "first-section")
    for k in range(1, len(sec)):
        a, b, x = idx[k - 1], idx[k], sec[k]
        row = int(np.searchsorted(want, (s.md[a] + s.md[b]) / 2)) - 1
        dls = p["rows"][row][1]
        ctx.close(x.dls, dls, "section-dls", rtol=1e-4, atol=1e-6, section=k)
        da = np.degrees(float(ref.wrap(s.azi_grid_rad[b] - s.azi_grid_rad[a])))
        L = s.md[b] - s.md[a]
        if dls:
            if abs(da) < 179.9:
                ctx.close(x.turn_rate, da / L * base, "section-turn", rtol=1e-6,
                          atol=1e-6, section=k)
            ctx.close(abs(x.build_rate), abs(s.inc_deg[b] - s.inc_deg[a]) / L * base, "section-build", rtol=1e-6,
                      atol=1e-6, section=k)
            v1, v2 = ref.tangent(s.inc_rad[a], s.azi_grid_rad[a]), ref.tangent(s.inc_rad[a + 1], s.azi_grid_rad[a + 1])
            H, La, _ = ref.hla_axes(s.inc_rad[a], s.azi_grid_rad[a])
            tf = float(np.arctan2(v2 @ La, v2 @ H))
            if ref.angle(v1, v2) > 1e-3:
                ctx.close(ref.wrap(np.radians(x.toolface) - tf), 0, "section-toolface", rtol=0, atol=1e-5, section=k,
                          toolface=x.toolface, expected=np.degrees(tf))
                ctx.check(-180 - 1e-9 <= x.toolface <= 180 + 1e-9, "toolface-range", got=x.toolface)
        else:
            ctx.close([x.toolface, x.build_rate, x.turn_rate], 0, "hold-section", section=k)
        ctx.event("sections")
    # the control points alone make the same well
    c = wells.Curve(got, np.radians([float(x.inc) for x in sec]), np.radians([float(x.azi) for x in sec]), nev[0])
    ctx.close(c.at_md(s.md), nev, "rebuilt-path", rtol=0, atol=1e-3 + 1e-6 * (s.md[-1] - s.md[0]))
    ctx.key("sections", unit, h.azi_reference, len(p["rows"]), kw["dls_cont"])


def verify_listing(ctx, name, s, D, tolerance, atol):
    """D: rows of a listing against the survey."""
    md = s.md
    ctx.check(np.isfinite(D).all(), f"{name}-finite")
    ctx.check(len(D) >= 2 and bool(np.all(np.diff(D[:, 0]) > -1e-9)), f"{name}-order", md=D[:, 0])
    ctx.close(D[[0, -1], 0], md[[0, -1]], f"{name}-ends", rtol=0, atol=atol)
    idx = np.array([int(np.argmin(np.abs(md - m))) for m in D[:, 0]])
    nev = np.array([s.n, s.e, s.tvd]).T
    ctx.close(D[:, 0], md[idx], f"{name}-md", rtol=0, atol=atol)
    ctx.close(D[:, 1], s.inc_deg[idx], f"{name}-inc", rtol=0, atol=atol)
    ctx.close(np.degrees(ref.wrap(np.radians(D[:, 2]) - s.azi_grid_rad[idx])), 0, f"{name}-azi", rtol=0, atol=atol)
    ctx.close(D[:, 3:5], nev[idx][:, :2], f"{name}-position", rtol=0, atol=atol)
    ctx.close(np.abs(D[:, 5]), np.abs(nev[idx][:, 2]), f"{name}-position", rtol=0, atol=atol)
    ctx.event("listed-points", len(D))
    keep = np.append(True, np.diff(D[:, 0]) > 1e-6)
    c = wells.Curve(D[keep, 0], np.radians(D[keep, 1]), np.radians(D[keep, 2]), nev[0])
    # what rounding of the angles and depths can do to the end position
    slack = atol * 4 + np.radians(2 * atol) * (md[-1] - md[0]) if atol > 1e-6 else 1e-6 * (1 + md[-1] - md[0])
    err = float(np.abs(c.p[-1] - nev[-1]).max())
    if tolerance is not None:
        ctx.check(err <= tolerance + slack, f"{name}-tolerance", error=err, tolerance=tolerance)


def listing(ctx):
    rng = ctx.rng
    unit, h, p, s = make(ctx, planned=bool(rng.random() < .6))
    if s is None:
        return
    tol = float(rng.choice([.1, .1, 1., .01]))
    kw = {} if tol == .1 and rng.random() < .5 else dict(tolerance=tol)
    kw["dls_cont"] = bool(rng.random() < .5)
    ctx.case.update(kw)
    f = [we.survey.export_csv, XC.export_csv][int(rng.integers(2))]
    with Watch(ctx, "export_csv", survey=s):
        df = f(s, None, **kw)
    if ctx.check(df is not None and list(df.columns)[:3] == COLS[:3] and df.shape[1] == 10, "frame-columns",
                 got=None if df is None else list(df.columns)):
        verify_listing(ctx, "frame", s, df.to_numpy(float), tol if p is not None else None, 1e-7 * (1 + float(s.md[-1])))
    dec = int(rng.choice([1, 2, 3, 3, 6]))
    with tempfile.TemporaryDirectory(prefix="p29-") as d:
        path = os.path.join(d, "out.csv")
        if rng.random() < .3:
            open(path, "w").write("rubbish,\n" * 50)
        save = rng.random() < .3
        ctx.case.update(decimals=dec, save=save)
        with Watch(ctx, "export_csv-file", survey=s):
            if save:
                s.save(path)
                dec, tol = 3, .1
            elif dec == 3:
                f(s, path, **kw)
            else:
                f(s, path, decimals=dec, **kw)
        text = open(path).read().splitlines()
    if not ctx.check("MD,INC (deg),AZI (deg)" in "\n".join(text), "file-header", head=text[:25]):
        return
    k = next(i for i, t in enumerate(text) if t.startswith("MD,INC (deg),AZI (deg)"))
    meta = dict(t.split(", ", 1) for t in text[:k] if ", " in t)
    ctx.check(meta.get("azi_reference", "grid") == "grid" and meta.get("depth_unit", unit) == unit, "file-reference",
              meta={q: meta.get(q) for q in ("azi_reference", "depth_unit")})
    ctx.check(float(meta.get("latitude", h.latitude)) == h.latitude, "file-location", got=meta.get("latitude"))
    rows = [t.split(",") for t in text[k + 1:] if t.strip()]
    ctx.check(all(len(x.split(".")[1]) == dec for r in rows for x in r), "file-decimals", row=rows[0], decimals=dec)
    D = np.array(rows, float)
    if ctx.check(D.ndim == 2 and D.shape[1] == 10, "file-columns", shape=D.shape):
        verify_listing(ctx, "file", s, D, tol if p is not None else None, .5001 * 10. ** -dec + 1e-7 * (1 + float(s.md[-1])))
    ctx.key("listing", unit, h.azi_reference, p is not None, dec, save)


def table(ctx):
    rng = ctx.rng
    unit, h, p, s = make(ctx, planned=bool(rng.random() < .3))
    if s is None or unit != "meters":
        return
    with Watch(ctx, "survey_to_df", survey=s):
        df = we.survey.survey_to_df(s)
    n = len(s.md)
    if not ctx.check(len(df) == n, "table-rows", got=len(df), want=n):
        return
    want = {
        'MD (m)': s.md, 'INC (deg)': s.inc_deg, 'NORTHING (m)': s.pos_nev[:, 0], 'EASTING (m)': s.pos_nev[:, 1],
        'TVDSS (m)': s.pos_nev[:, 2], 'X (m)': s.x, 'Y (m)': s.y, 'Z (m)': s.z, 'DLS (deg/30m)': s.dls,
        'BUILD RATE (deg)': np.nan_to_num(s.build_rate), 'TURN RATE (deg)': np.nan_to_num(s.turn_rate)}
    for k, w in want.items():
        ctx.close(df[k].to_numpy(float), w, "table", rtol=1e-9, atol=1e-7, column=k)
    ctx.close(s.pos_nev, np.array([s.n, s.e, s.tvd]).T, "table-positions", rtol=1e-9, atol=1e-6)
    for k, w in (('AZI_GN (deg)', s.azi_grid_rad), ('AZI_TN (deg)', s.azi_true_rad), ('TOOLFACE (deg)', s.toolface)):
        g = df[k].to_numpy(float)
        ctx.close(ref.wrap(np.radians(g) - w), 0, "table-angle", rtol=0, atol=1e-8, column=k)
    tf = df['TOOLFACE (deg)'].to_numpy(float)
    ctx.check(bool(np.all((tf >= 0) & (tf <= 360))), "table-toolface-range", got=tf)
    ctx.key("table", h.azi_reference, p is not None)


SCENARIOS = [
    Scenario("sections", sections, 80, 1200),
    Scenario("listing", listing, 60, 900),
    Scenario("table", table, 40, 400),
]
