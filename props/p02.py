"""P02  The same well gives the same answer in every reference, unit and frame."""
from vmon import gen, ref
from vmon.core import Scenario
from vmon.env import np, we

META = dict(
    title='One well, one answer in every reference, unit and frame',
    statement=('Stating the same physical well with true, magnetic or grid azimuths, in degrees or '
               'radians, in metres or feet gives the same positions, doglegs and azimuths in every '
               'reference after conversion. Rotating the well about the vertical or moving its start '
               'rotates or moves its positions and changes no dogleg, toolface or curvature.'),
    over=['inputs', 'configurations'],
    quantifier='all surveys and all header convergence/declination values of either sign, azimuth references, units and rigid motions',
    why='Tests use one reference with zero convergence; metamorphic relations between statements of one well need arbitrary listings and header values.',
    files=['welleng/survey.py', 'welleng/units.py'],
    mechanism=[('azimuth references',
  'welleng/survey.py:Survey._get_azi_mag_and_true_rad, _get_azi_ref'),
 ('header units', 'welleng/survey.py:SurveyHeader._validate_date, deg handling'),
 ('unit base', 'welleng/survey.py:Survey unit / dls')],
)

PROPERTY, LEVEL = "P02", "exploration"
RULE = ("a case states one physical well several ways (true/magnetic/grid azimuths, degrees/"
        "radians, metres/feet, rotated, translated) and compares what the objects report; "
        "classes are (trajectory family, transformation, sign of convergence/declination)")

FT = 0.3048


def _mk(md, inc, azi_grid, conv, dec, aref, deg, base, **kw):
    azi = azi_grid + {"grid": 0, "true": conv, "magnetic": conv - dec}[aref]
    hd = dict(base, convergence=conv, declination=dec, azi_reference=aref)
    if kw.pop("hdr_rad", False):
        hd = {k: (np.radians(v) if k in ("convergence", "declination", "dip") else v)
              for k, v in hd.items()}
        hd["deg"] = False
        hd["vertical_inc_limit"] = np.radians(0.0001)
    h = we.survey.SurveyHeader(**hd)
    a = (inc, azi) if deg else (np.radians(inc), np.radians(azi))
    return we.survey.Survey(md=md, inc=a[0], azi=a[1], header=h, deg=deg, **kw)


BASE = dict(latitude=58.0, longitude=2.0, b_total=50100.0, dip=71.0, G=9.81)


def references(ctx):
    rng = ctx.rng
    kind, md, inc, azi = gen.traj(rng)
    conv, dec = [float(x) for x in np.round(rng.uniform([-4, -25], [4, 25]), 3)]
    model = None if rng.random() < .6 else str(rng.choice(["ISCWSA MWD Rev4", "ISCWSA MWD Rev5.11"]))
    ctx.case = dict(kind=kind, md=md, inc=inc, azi=azi, conv=conv, dec=dec, model=model)
    tol = 1e-9 * (md[-1] - md[0]) + 1e-6
    out = []
    for aref in ("grid", "true", "magnetic"):
        for deg in (True, False):
            s = _mk(md, inc, azi, conv, dec, aref, deg, BASE, error_model=model,
                    hdr_rad=bool(rng.random() < .5))
            out.append((aref, deg, s))
            w = f"ref={aref},deg={deg}"
            ctx.close(ref.wrap(s.azi_grid_rad - np.radians(azi)), 0 * azi, "grid-azimuth", atol=1e-9, at_=w)
            ctx.close(ref.wrap(s.azi_true_rad - np.radians(azi + conv)), 0 * azi, "true-azimuth", atol=1e-9, at_=w)
            ctx.close(ref.wrap(s.azi_mag_rad - np.radians(azi + conv - dec)), 0 * azi, "magnetic-azimuth", atol=1e-9, at_=w)
            for nm in ("grid", "true", "mag"):
                ctx.close(ref.wrap(np.radians(getattr(s, f"azi_{nm}_deg")) - getattr(s, f"azi_{nm}_rad")),
                          0 * azi, f"deg-vs-rad-{nm}", atol=1e-9, at_=w)
            ctx.close(s.inc_deg, inc, "inc_deg", atol=1e-9, at_=w)
            ctx.close(s.inc_rad, np.radians(inc), "inc_rad", atol=1e-12, at_=w)
            ctx.close(np.column_stack([s.survey_deg[:, 0], s.survey_deg[:, 1]]), np.column_stack([md, inc]),
                      "survey_deg", atol=1e-9)
            ctx.close(s.survey_rad[:, :2], np.column_stack([md, np.radians(inc)]), "survey_rad", atol=1e-9)
            ctx.close(ref.wrap(s.survey_rad[:, 2] - np.radians(azi)), 0 * azi, "survey_rad-azi", atol=1e-9)
            ctx.close(ref.wrap(np.radians(s.survey_deg[:, 2]) - np.radians(azi)), 0 * azi, "survey_deg-azi", atol=1e-9)
    s0 = out[0][2]
    for aref, deg, s in out[1:]:
        ctx.close(np.column_stack([s.n, s.e, s.tvd]), np.column_stack([s0.n, s0.e, s0.tvd]),
                  "positions-depend-on-reference", rtol=0, atol=tol, ref_=aref, deg=deg)
        ctx.close(s.dls[1:], s0.dls[1:], "dls-depends-on-reference", rtol=1e-6, atol=1e-5)
        if model:
            ctx.close(s.cov_nev, s0.cov_nev, "covariance-depends-on-reference", rtol=1e-6,
                      atol=1e-7 * max(1, np.abs(s0.cov_nev).max()), ref_=aref, deg=deg)
            ctx.event("covariances-compared", len(md))
    ctx.key(kind, "model" if model else "-", conv > 0, dec > 0)


def units(ctx):
    rng = ctx.rng
    kind, md, inc, azi = gen.traj(rng)
    ctx.case = dict(kind=kind, md=md, inc=inc, azi=azi)
    sn = np.round(rng.normal(0, 500, 3), 2)
    m = we.survey.Survey(md=md, inc=inc, azi=azi, header=gen.header(), start_nev=sn)
    f = we.survey.Survey(md=md / FT, inc=inc, azi=azi, start_nev=sn / FT, unit="feet",
                         header=gen.header(depth_unit="feet", surface_unit="feet"))
    ctx.close(np.column_stack([f.n, f.e, f.tvd]) * FT, np.column_stack([m.n, m.e, m.tvd]),
              "feet-positions", rtol=1e-9, atol=1e-6)
    ctx.close(f.dls[1:], m.dls[1:] * 30.48 / 30, "feet-dls", rtol=1e-7, atol=1e-6)
    D = m.dogleg[1:]
    ok = D > 1e-4
    ctx.close(f.curve_radius[1:][ok] * FT, m.curve_radius[1:][ok], "feet-radius", rtol=1e-6)
    tf = ref.wrap(f.toolface[:-1] - m.toolface[:-1])
    ctx.close(tf[ok], 0 * tf[ok], "feet-toolface", atol=1e-6)
    ok2 = np.concatenate([[False], ok]) & (m.inc_rad > 1e-3)
    for a in ("build_rate", "turn_rate"):
        ctx.close(getattr(f, a)[ok2], getattr(m, a)[ok2] * 30.48 / 30, f"feet-{a}", rtol=1e-6, atol=1e-6)
    ctx.close(f.vertical_section * FT, m.vertical_section, "feet-vertical-section", rtol=1e-9, atol=1e-5)
    ctx.key(kind)


def frames(ctx):
    """Rotating all azimuths / translating the start rotates / translates the well."""
    rng = ctx.rng
    kind, md, inc, azi = gen.traj(rng)
    th = float(np.round(rng.uniform(-400, 400), 2))
    d = np.round(rng.normal(0, 2000, 3), 2)
    ctx.case = dict(kind=kind, md=md, inc=inc, azi=azi, theta=th, shift=d)
    k = rng.integers(-1, 2, len(md)) * 360.0     # azimuths are angles: whole turns are free
    a = we.survey.Survey(md=md, inc=inc, azi=azi, header=gen.header())
    b = we.survey.Survey(md=md, inc=inc, azi=azi + th + k, header=gen.header(), start_nev=d)
    c, s = np.cos(np.radians(th)), np.sin(np.radians(th))
    want = np.column_stack([a.n * c - a.e * s, a.n * s + a.e * c, a.tvd]) + d
    ctx.close(np.column_stack([b.n, b.e, b.tvd]), want, "rotation", rtol=1e-9, atol=1e-6)
    ctx.close(b.dogleg, a.dogleg, "rotation-dogleg", rtol=1e-8, atol=6e-8)
    ok = a.dogleg[1:] > 1e-4
    tf = ref.wrap(b.toolface[:-1] - a.toolface[:-1])
    ctx.close(tf[ok], 0 * tf[ok], "rotation-toolface", atol=1e-6)
    # measured-depth datum
    m = float(np.round(rng.uniform(0, 500), 2))
    e = we.survey.Survey(md=md + m, inc=inc, azi=azi, header=gen.header())
    ctx.close(np.column_stack([e.n, e.e, e.tvd]), np.column_stack([a.n, a.e, a.tvd]), "md-datum",
              rtol=1e-9, atol=1e-6)
    ctx.close(e.dls[1:], a.dls[1:], "md-datum-dls", rtol=1e-7, atol=1e-6)
    ctx.key(kind, th > 0, bool(k.any()))


def headers(ctx):
    """Degrees and radians headers describe the same well site."""
    rng = ctx.rng
    v = dict(latitude=float(rng.uniform(-89, 89)), longitude=float(rng.uniform(-179, 179)),
             b_total=float(rng.uniform(2e4, 7e4)), dip=float(rng.uniform(-89, 89)),
             declination=float(rng.uniform(-30, 30)), convergence=float(rng.uniform(-5, 5)),
             vertical_section_azimuth=float(rng.uniform(0, 360)), vertical_inc_limit=1e-4)
    ctx.case = v
    hd = we.survey.SurveyHeader(**v)
    rad = {k: (np.radians(x) if k in ("dip", "declination", "convergence", "vertical_section_azimuth",
                                      "vertical_inc_limit") else x) for k, x in v.items()}
    hr = we.survey.SurveyHeader(**rad, deg=False)
    for k in v:
        want = np.radians(v[k]) if k in ("dip", "declination", "convergence", "vertical_section_azimuth",
                                         "vertical_inc_limit") else v[k]
        ctx.close(getattr(hd, k), want, "header-degrees", rtol=1e-12, atol=1e-15, field=k)
        ctx.close(getattr(hr, k), want, "header-radians", rtol=1e-12, atol=1e-15, field=k)
    # fields left out: same defaults whichever unit the rest is in
    h1 = we.survey.SurveyHeader(deg=True)
    h2 = we.survey.SurveyHeader(deg=False)
    for k in ("b_total", "dip", "declination", "convergence", "G", "latitude", "longitude"):
        ctx.close(getattr(h2, k), getattr(h1, k), "header-defaults", rtol=1e-9, field=k)
    for bad in (dict(latitude=91), dict(latitude=-90.5), dict(longitude=181), dict(longitude=-180.5),
                dict(azi_reference="mag"), dict(survey_date="31/12/2020")):
        try:
            we.survey.SurveyHeader(**bad)
            ctx.fail("header-accepts-invalid", given=bad)
        except (AssertionError, ValueError):
            ctx.event("invalid-headers-rejected")
    ctx.key("hdr", v["dip"] > 0, v["convergence"] > 0)


SCENARIOS = [
    Scenario("references", references, 150, 3000),
    Scenario("units", units, 300, 5000),
    Scenario("frames", frames, 300, 5000),
    Scenario("headers", headers, 100, 1500),
]
