"""P28  Site data: map factors, coordinate transforms and magnetic data of a header."""
from datetime import datetime

from pyproj import CRS, Geod

from vmon import ref
from vmon.core import Scenario
from vmon.env import np, we
from vmon.purity import Watch

META = dict(
    title='Map factors, transforms and looked-up magnetic data of a site',
    statement=('The latitude and longitude of map coordinates map back to them, and the convergence and scale '
               'factor are those of short lines on the ellipsoid: a line\'s grid azimuth is its true azimuth less '
               'the convergence and its map length the scale factor times its length. Coordinates transformed to '
               'another system keep their shape, order and points, are undone by the reverse transform and are '
               'the same for lists, tuples and arrays. A header that is not given magnetic values takes the '
               'looked-up ones for its position and date (or its defaults when the lookup fails), as if they had '
               'been given. A header keeps every value, unit and date it was given, has the stated defaults for the rest and '
               'refuses positions, references and dates that are none, as a survey does a unit that is not its header\'s.'),
    over=['inputs', 'fault_sequences'],
    quantifier='all UTM-like systems and coordinates in them, all headers, with lookups that answer or fail',
    why='The only tests compare one known location, and the lookup needs a network that tests do not have.',
    files=['welleng/survey.py'],
    mechanism=[('map factors', 'welleng/survey.py:SurveyParameters.get_factors_from_x_y'),
 ('transforms', 'welleng/survey.py:SurveyParameters.transform_coordinates'),
 ('lookup', 'welleng/survey.py:SurveyHeader._get_mag_data')],
)

PROPERTY, LEVEL = "P28", "exploration"
RULE = ("a case is one map system with random points, or one header with a stand-in for the magnetic field "
        "service that records its calls and answers or fails; classes are (operation, system or outcome)")
ASSUMPTIONS = ["the magnetic field service is replaced by a stand-in with the same interface",
               "map systems are easting/northing ordered and conformal"]

SYSTEMS = ["EPSG:23031", "EPSG:32631", "EPSG:25831", "EPSG:23032", "EPSG:28992", "EPSG:32633", "EPSG:32719",
           "EPSG:32755", "EPSG:27700", "EPSG:26915", "EPSG:23095"]
# within one zone, overlapping areas
FAMILY = [["EPSG:23031", "EPSG:32631", "EPSG:25831", "EPSG:28992"], ["EPSG:23032", "EPSG:32632", "EPSG:25832"]]


def bounds(srs):
    a = CRS(srs).area_of_use
    return a.west, a.south, a.east, a.north


def point(rng, srs):
    """A point of the system (x, y), drawn from inside its area of use."""
    w, s, e, n = bounds(srs)
    lon = float(rng.uniform(w + .05 * (e - w), e - .05 * (e - w)))
    lat = float(rng.uniform(s + .05 * (n - s), n - .05 * (n - s)))
    return lon, lat


class Field:
    """Stand-in for the magnetic field service."""
    calls, outcomes, value = [], [], {}

    def __init__(self, *a, **k):
        pass

    def calculate(self, **kw):
        Field.calls.append(kw)
        o = Field.outcomes.pop(0) if Field.outcomes else "fail"
        if o == "fail":
            raise OSError("service unavailable")
        return {'field-value': {'total-intensity': {'value': Field.value['b'], 'units': 'nT'},
                                'inclination': {'value': Field.value['dip'], 'units': 'deg (down)'},
                                'declination': {'value': Field.value['dec'], 'units': 'deg (east)'}}}


class service:
    """Install the stand-in; `outcomes` of the calls in order, then failures."""

    def __init__(self, outcomes, rng):
        self.o = list(outcomes)
        self.v = dict(b=float(rng.uniform(2e4, 7e4)), dip=float(rng.uniform(-85, 85)), dec=float(rng.uniform(-30, 30)))

    def __enter__(self):
        m = we.survey
        self.old = (m.MAG_CALC, getattr(m, "MagneticFieldCalculator", None))
        Field.calls, Field.outcomes, Field.value = [], self.o, self.v
        m.MAG_CALC, m.MagneticFieldCalculator = True, Field
        return self.v

    def __exit__(self, *a):
        we.survey.MAG_CALC, we.survey.MagneticFieldCalculator = self.old
        return False


def factors(ctx):
    rng = ctx.rng
    srs = str(rng.choice(SYSTEMS))
    calc = we.survey.SurveyParameters(srs)
    lon, lat = point(rng, srs)
    x, y = calc(lon, lat)
    if rng.random() < .3:
        x, y = float(np.round(x)), float(np.round(y))
    kw = {}
    if rng.random() < .5:
        kw["date"] = f"{int(rng.integers(2000, 2026))}-0{int(rng.integers(1, 10))}-1{int(rng.integers(0, 10))}"
    if rng.random() < .4:
        kw["altitude"] = float(np.round(rng.uniform(-50, 500), 1))
    look = str(rng.choice(["none", "answer", "fail"]))
    ctx.case = dict(srs=srs, x=x, y=y, look=look, **kw)
    if look == "none":
        d, v = calc.get_factors_from_x_y(x, y, **kw), None
    else:
        with service(["ok"] if look == "answer" else [], rng) as v:
            d = calc.get_factors_from_x_y(x=x, y=y, **kw)
            calls = list(Field.calls)
    for k, w in (("x", x), ("y", y), ("easting", x), ("northing", y)):
        ctx.close(d[k], w, "factors-coordinates", rtol=1e-12, field=k)
    ctx.check(d["srs"] == srs, "factors-srs", got=d["srs"])
    today = datetime.today().strftime('%Y-%m-%d')
    ctx.check(d["date"] == kw.get("date", today), "factors-date", got=d["date"])
    lon, lat = d["longitude"], d["latitude"]
    u = calc(lon, lat)
    ctx.close(u, (x, y), "factors-position", rtol=0, atol=1e-3)
    w_, s_, e_, n_ = bounds(srs)
    ctx.check(w_ - 1 <= lon <= e_ + 1 and s_ - 1 <= lat <= n_ + 1, "factors-area", lon=lon, lat=lat)
    # short lines on the ellipsoid
    g = Geod(a=calc.crs.ellipsoid.semi_major_metre, b=calc.crs.ellipsoid.semi_minor_metre)
    for _ in range(4):
        az, L = float(rng.uniform(0, 360)), 50.0
        p = [g.fwd(lon, lat, az + t, L / 2)[:2] for t in (0, 180)]
        (x1, y1), (x0, y0) = (calc(*q) for q in p)
        bearing = np.arctan2(x1 - x0, y1 - y0)
        ctx.close(np.degrees(ref.wrap(bearing - np.radians(az - d["convergence"]))), 0, "convergence", rtol=0, atol=2e-4,
                  azimuth=az)
        ctx.close(np.hypot(x1 - x0, y1 - y0) / L, d["scale_factor"], "scale-factor", rtol=0, atol=2e-6)
        ctx.event("lines")
    if v is not None and look == "answer":
        c = calls[0]
        ctx.close([c["latitude"], c["longitude"]], [lat, lon], "lookup-position")
        ctx.check(c.get("date") == d["date"] and c.get("altitude") == kw.get("altitude", 0), "lookup-arguments", call=c)
        ctx.close(d["magnetic_field_intensity"], v["b"], "lookup-intensity")
        ctx.close(d["declination"], v["dec"], "lookup-declination")
        ctx.close(abs(d["dip"]), abs(v["dip"]), "lookup-dip")
    else:
        ctx.check(d["magnetic_field_intensity"] is None and d["declination"] is None and d["dip"] is None,
                  "lookup-none", got=d["dip"])
    # the header made from it agrees with the map about directions
    h = we.survey.SurveyHeader(latitude=lat, longitude=lon, convergence=d["convergence"], b_total=5e4, dip=60.,
                               declination=0., azi_reference="true")
    az = float(rng.uniform(0, 360))
    s = we.survey.Survey(md=[0, 50], inc=[90, 90], azi=[az, az], header=h)
    p1 = g.fwd(lon, lat, az, 50.0)[:2]
    x1, y1 = calc(*p1)
    ctx.close([s.e[1], s.n[1]], np.array([x1 - x, y1 - y]) / d["scale_factor"], "survey-on-map", rtol=0, atol=2e-3)
    ctx.key("factors", srs, look, sorted(kw))


def transforms(ctx):
    rng = ctx.rng
    fam = FAMILY[int(rng.integers(len(FAMILY)))]
    a, b, c = (str(q) for q in rng.choice(fam, 3))
    n = int(rng.choice([1, 2, 5]))
    dim = int(rng.choice([2, 2, 3]))
    ca, cb = we.survey.SurveyParameters(a), we.survey.SurveyParameters(b)
    lim = [bounds(q) for q in fam]
    w, s = max(q[0] for q in lim) + .1, max(q[1] for q in lim) + .1
    e, nn = min(q[2] for q in lim) - .1, min(q[3] for q in lim) - .1
    P = np.array([ca(float(rng.uniform(w, e)), float(rng.uniform(s, nn))) for _ in range(n)])
    if dim == 3:
        P = np.column_stack([P, np.round(rng.uniform(-3000, 100, n), 2)])
    ctx.case = dict(a=a, b=b, c=c, points=P)
    with Watch(ctx, "transform_coordinates", P=P):
        Q = ca.transform_coordinates(P, b)
    if not ctx.check(np.shape(Q) == P.shape, "transform-shape", got=np.shape(Q), want=P.shape):
        return
    ctx.check(np.isfinite(Q).all(), "transform-finite", got=Q)
    for form in (P.tolist(), tuple(map(tuple, P.tolist()))):
        ctx.close(ca.transform_coordinates(form, b), Q, "transform-container", rtol=1e-12, kind=type(form).__name__)
    one = ca.transform_coordinates(P[0], b)
    ctx.close(np.asarray(one).reshape(-1), Q[0], "transform-single", rtol=1e-12)
    one = ca.transform_coordinates(tuple(P[0].tolist()), b)
    ctx.close(np.asarray(one).reshape(-1), Q[0], "transform-single", rtol=1e-12)
    if a == b:
        ctx.close(Q, P, "transform-identity", rtol=0, atol=1e-6)
    R = cb.transform_coordinates(Q, a)
    ctx.close(R[:, :2], P[:, :2], "transform-back", rtol=0, atol=2e-2)
    # the same place: geographic positions differ by a datum shift at most
    u, v = (np.array(q(*p[:2], inverse=True)) for q, p in ((ca, P[0]), (cb, Q[0])))
    d = Geod(ellps="WGS84").inv(*u, *v)[2]
    ctx.check(d < 400, "transform-place", apart=d)
    if a == b:
        ctx.check(d < 1e-3, "transform-place", apart=d)
    if dim == 3:
        ctx.close(Q[:, 2], P[:, 2], "transform-height", rtol=0, atol=1e-6)
    k = np.argsort(rng.random(n))
    ctx.close(ca.transform_coordinates(P[k], b), Q[k], "transform-order", rtol=1e-12)
    ctx.key("transform", a, b, n, dim)


def lookups(ctx):
    rng = ctx.rng
    deg = bool(rng.random() < .7)
    outcome = str(rng.choice(["answer", "second", "fail", "off"]))
    k = 1.0 if deg else np.pi / 180
    given = {}
    full = dict(b_total=float(rng.uniform(2e4, 7e4)), dip=float(rng.uniform(-89, 89)) * k,
                declination=float(rng.uniform(-30, 30)) * k)
    for f, v in full.items():
        if rng.random() < .4:
            given[f] = v
    site = dict(latitude=float(np.round(rng.uniform(-80, 80), 3)), longitude=float(np.round(rng.uniform(-179, 179), 3)))
    if rng.random() < .5:
        site["altitude"] = float(np.round(rng.uniform(0, 500)))
    date = None
    if rng.random() < .7:
        date = f"{int(rng.integers(1985, 2026))}-1{int(rng.integers(0, 3))}-0{int(rng.integers(1, 10))}"
        site["survey_date"] = date
    md = None
    if rng.random() < .4:
        md = dict(b_total=float(rng.uniform(2e4, 7e4)), dip=float(rng.uniform(-85, 85)), declination=float(rng.uniform(-30, 30)))
        site["mag_defaults"] = md
    ctx.case = dict(deg=deg, outcome=outcome, given=given, **site)
    outcomes = dict(answer=["ok"], second=["fail", "ok"], fail=[], off=[])[outcome]
    if outcome == "off":
        with Watch(ctx, "SurveyHeader", site=site, given=given):
            h = we.survey.SurveyHeader(deg=deg, **site, **given)
        calls, v = [], None
    else:
        with service(outcomes, rng) as v, Watch(ctx, "SurveyHeader", site=site, given=given):
            h = we.survey.SurveyHeader(deg=deg, **site, **given)
            calls = list(Field.calls)
    today = datetime.today().strftime('%Y-%m-%d')
    ctx.check(h.survey_date == (date or today), "date-kept", got=h.survey_date, given=date)
    if calls:
        c = calls[0]
        ctx.close([c["latitude"], c["longitude"], c["altitude"]], [site["latitude"], site["longitude"],
                  site.get("altitude", 0.)], "lookup-site")
        ctx.check(c["date"] == (date or today), "lookup-date", got=c["date"])
    d = md or dict(b_total=50000., dip=70., declination=0.)
    look = dict(b_total=v["b"], dip=v["dip"], declination=v["dec"]) if outcome in ("answer", "second") else d
    if outcome == "second" and len(calls) < 2:
        look = d                     # a second try is not promised
    for f in ("b_total", "dip", "declination"):
        q = 1.0 if f == "b_total" else np.pi / 180
        want = look[f] * q if f not in given else given[f] * (q if deg else 1.0)
        ctx.close(getattr(h, f), want, "given-value" if f in given else "looked-up-value", rtol=1e-10, field=f,
                  outcome=outcome)
    # as if they had been given
    e = we.survey.SurveyHeader(deg=deg, **site, **{f: getattr(h, f) / (np.pi / 180 if deg and f != "b_total" else 1.0)
                                                   for f in full})
    for f in ("b_total", "dip", "declination", "convergence", "latitude", "longitude", "altitude", "G",
              "vertical_inc_limit", "vertical_section_azimuth"):
        ctx.close(getattr(e, f), getattr(h, f), "as-if-given", rtol=1e-10, field=f)
    ctx.event("lookups", len(calls))
    ctx.key("lookup", deg, outcome, len(given), md is not None, date is not None)


def headers(ctx):
    """What is given to a header is what it states."""
    rng = ctx.rng
    deg = bool(rng.random() < .7)
    q = np.pi / 180 if deg else 1.0
    unitname = {"m": "meters", "meters": "meters", "ft": "feet", "feet": "feet"}
    full = dict(name="W-7", latitude=float(np.round(rng.uniform(-90, 90), 4)),
                longitude=float(np.round(rng.uniform(-180, 180), 4)), altitude=float(np.round(rng.uniform(-50, 900), 1)),
                survey_date="2021-03-04", G=9.81, b_total=float(rng.uniform(2e4, 7e4)), earth_rate=.2625,
                dip=float(rng.uniform(-80, 80)) * (1 if deg else np.pi / 180),
                declination=float(rng.uniform(-20, 20)) * (1 if deg else np.pi / 180),
                convergence=float(rng.uniform(-4, 4)) * (1 if deg else np.pi / 180),
                azi_reference=str(rng.choice(["true", "grid", "magnetic"])),
                vertical_inc_limit=float(rng.choice([1e-4, .01])),
                depth_unit=str(rng.choice(list(unitname))), surface_unit=str(rng.choice(list(unitname))),
                vertical_section_azimuth=float(rng.uniform(-180, 360)) * (1 if deg else np.pi / 180),
                grid_scale_factor=float(rng.uniform(.9, 1.1)))
    edge = rng.random()
    if edge < .1:
        full.update(latitude=float(rng.choice([-90, 0, 90])), longitude=float(rng.choice([-180, 0, 180])))
    given = {k: v for k, v in full.items() if rng.random() < .6}
    default = dict(name=None, latitude=51.4934, longitude=.0098, altitude=0., G=9.80665, b_total=50000.,
                   earth_rate=.26251614, dip=np.radians(70.), declination=0., convergence=0., azi_reference="true",
                   vertical_inc_limit=.0001 * q, depth_unit="meters", surface_unit="meters",
                   vertical_section_azimuth=0., grid_scale_factor=1.0)
    ctx.case = dict(deg=deg, given=given)
    with Watch(ctx, "SurveyHeader", given=given):
        h = we.survey.SurveyHeader(deg=deg, **given)
    for k, d in default.items():
        v = given.get(k, d)
        if k in given and k in ("dip", "declination", "convergence", "vertical_inc_limit", "vertical_section_azimuth"):
            v = v * q
        if k in given and k.endswith("_unit"):
            v = unitname[v]
        if isinstance(v, float):
            ctx.close(getattr(h, k), v, "given-header" if k in given else "header-default", rtol=1e-12, atol=1e-15, field=k)
        else:
            ctx.check(getattr(h, k) == v, "given-header" if k in given else "header-default", field=k, value=repr(getattr(h, k)))
    # from a table of the header's own attributes
    table = {k: getattr(h, k) for k in default if rng.random() < .6}
    table["note"] = "x"
    with Watch(ctx, "make_survey_header", table=table):
        m = we.survey.make_survey_header(table)
    other = we.survey.SurveyHeader()
    for k in default:
        want = table.get(k, getattr(other, k))
        ctx.check(getattr(m, k) == want, "header-of-table", field=k, value=repr(getattr(m, k)), expected=repr(want))
    ctx.check(m.note == "x", "header-of-table-extra")
    for k, bad in (("latitude", 90.1), ("latitude", -91), ("longitude", 180.01), ("longitude", -200),
                   ("azi_reference", "north"), ("survey_date", "04-03-2021"), ("survey_date", "2021-13-01")):
        ctx.raises(lambda: we.survey.SurveyHeader(**{k: bad}), "header-accepted", field=k, value=bad)
    # a survey without a header has the default one
    n = int(rng.integers(2, 8))
    md, inc, azi = np.cumsum(rng.uniform(10, 200, n)), rng.uniform(0, 100, n), rng.uniform(0, 360, n)
    a = we.survey.Survey(md=md, inc=inc, azi=azi)
    b = we.survey.Survey(md=md, inc=inc, azi=azi, header=we.survey.SurveyHeader())
    for k in ("n", "e", "tvd", "azi_grid_rad", "azi_true_rad", "azi_mag_rad", "dls"):
        ctx.close(getattr(a, k), getattr(b, k), "survey-without-header", rtol=0, atol=0, of=k)
    wrong = {"unit": "feet"} if h.depth_unit == "meters" else {"unit": "meters"}
    ctx.raises(lambda: we.survey.Survey(md=md, inc=inc, azi=azi, header=h, **wrong), "unit-mismatch-accepted")
    ctx.raises(lambda: we.survey.Survey(md=md, inc=inc, azi=azi, header=dict(table)), "header-not-a-header")
    ctx.key("header", deg, len(given) // 4, edge < .1)
    ctx.event("headers")


SCENARIOS = [
    Scenario("factors", factors, 60, 600),
    Scenario("transforms", transforms, 40, 400),
    Scenario("lookups", lookups, 80, 1000),
    Scenario("headers", headers, 80, 1000),
]
