"""P09  Error sources follow the published weighting functions and magnitudes."""
import json
import os
import warnings

from vmon import gen, iscwsa
from vmon.core import Scenario, Skip
from vmon.env import VERIF, np, we
from welleng.errors import tool_errors

META = dict(
    title='Error sources follow the published weighting functions and magnitudes',
    statement=('For the magnetic and inclination-only tool models (MWD, EMS, film, INC-ONLY, BLIND, '
               'UNKNOWN, ISCWSA Rev4/Rev5.11), every source\'s covariance along a survey equals the '
               'propagation of its published depth, inclination and azimuth weighting function times '
               'its published magnitude with its published propagation mode, with the limit of the '
               'weighting function at vertical stations and the course-length terms added directly to '
               'the position.'),
    over=['inputs', 'configurations'],
    quantifier='all surveys (any inclination below 180 deg, any azimuth and reference, vertical and near vertical stations, short and long courses), all dips, fields and gravities, all table models and all their sources',
    why='Workbook tests compare three wells and one field vector for two models: signs, vertical limits, short courses and the sources of the other forty-odd models never show.',
    files=['welleng/errors/tool_errors.py', 'welleng/errors/tool_codes', 'welleng/errors/tool_index.yaml'],
    mechanism=[('weighting functions', 'welleng/errors/tool_errors.py'),
               ('dispatch by code', 'welleng/errors/tool_errors.py:ToolError.call_func'),
               ('published tables', 'welleng/errors/tool_codes/*.yaml')],
)

PROPERTY, LEVEL = "P09", "exploration"
RULE = ("a case is one survey with one model; every source's covariance is recomputed from "
        "independent weighting functions; classes are (model or source, station class)")
ASSUMPTIONS = ["data/models.json holds the published magnitudes, cross-checked against the "
               "ISCWSA JSON form of the same models",
               "magnetically east/west horizontal stations (singular for axial correction) excluded"]

TABLE = json.load(open(os.path.join(VERIF, "data", "models.json")))
MODELS = sorted(m for m, e in TABLE.items() if e["kind"] == "yaml")
FUNCTIONS = sorted(f for f in vars(tool_errors) if f.isupper() and f not in iscwsa.XCL and callable(getattr(tool_errors, f))
                   and iscwsa.weights(f, dict(inc=np.ones(2), azt=np.ones(2), azm=np.ones(2), md=np.arange(2.), tvd=np.ones(2),
                                              G=1., B=1., dip=1.)) is not None)
LOW = {"INC-ONLY": 29, "INC-ONLY_Fl": 29, "INC-ONLY_PLANNED_5_DEG": 4.9,
       "INC-ONLY_PLANNED_5_DEG_Fl": 4.9}


# between them these have all of the weighting functions
FULL = ["ISCWSA MWD Rev5.11", "ISCWSA MWD Rev4"]
_seen = {t[0] for m in FULL for t in TABLE[m]["terms"].values()}
for _m in MODELS:
    if {t[0] for t in TABLE[_m]["terms"].values()} - _seen:
        FULL.append(_m)
        _seen |= {t[0] for t in TABLE[_m]["terms"].values()}


def cap_of(model):
    e = TABLE[model]
    v = e.get("inc_max")
    return float(str(v).split()[0]) if v is not None else 180.0


def setup(s, h):
    return dict(inc=np.asarray(s.inc_rad, float), azt=np.asarray(s.azi_true_rad, float),
                azm=np.asarray(s.azi_mag_rad, float), md=np.asarray(s.md, float), tvd=np.asarray(s.tvd, float),
                G=h.G, B=h.b_total, dip=h.dip, vlim=h.vertical_inc_limit)


def expected(code, model, st, star, nxt):
    fn, mag, kind, unit = TABLE[model]["terms"][code]
    if fn == "XCL":
        fn = "XCLA" if code == "XCLA" else "XCLH"
    if fn in iscwsa.XCL:
        tort = TABLE[model]["tort"] or np.radians(1) / 30.48
        e = iscwsa.xcl(fn, st, tort) * mag
        return kind, e, e, fn
    w = iscwsa.weights(fn, st) * mag
    vert = st["inc"] < st["vlim"]
    if fn in iscwsa.VERT:
        w[vert] = 0.0
    en, es = iscwsa.to_nev(w, star, nxt)
    if fn in iscwsa.VERT and vert.any():
        lim = iscwsa.vertical_limit(fn, st) * mag
        L = np.diff(st["md"])
        half = np.concatenate([[0], L]) / 2
        both = half + np.concatenate([L, [0]]) / 2
        es[vert] = (lim * half[:, None])[vert]
        en[vert] = (lim * both[:, None])[vert]
        # the Rev 5 workbooks count the first interval in full for these
        c = {"XYM3L": 0, "XYM3E": 0, "XYM4L": 1, "XYM4E": 1, "ABIXY_TI2": 1,
             "ABXY_TI2": 1}.get(fn)
        if vert[1] and c is not None and not (fn == "ABXY_TI2" and model == "ISCWSA MWD Rev4"):
            extra = lim[1, c] * half[1]
            es[1, c] += extra
            en[1, c] += extra
        es[0] = en[0] = 0.0
    return {"XYM2": "systematic", "XYM4L": "random"}.get(fn, kind), en, es, fn


def make(ctx, model, mode="any"):
    rng = ctx.rng
    n = int(rng.integers(2, 14))
    step = float(rng.choice([3., 8., 10., 12., 30., 100.]))
    kind, md, inc, azi = gen.traj(rng, None, n, None, step)
    cap = LOW.get(model, min(cap_of(model) - 1, 175.0))
    inc = np.minimum(inc, cap) if cap < 30 else np.where(inc > cap, cap * .9, inc)
    if mode == "vertical":
        inc = inc.copy()
        inc[rng.random(n) < .4] = 0.0
        if rng.random() < .5:
            inc[-1] = 0.0
        if rng.random() < .3:
            inc[:] = 0.0
    elif mode == "near":
        inc = np.where(rng.random(n) < .5, 10 ** rng.uniform(-2, 0, n), inc)
    h = gen.header(rng, dip=float(rng.uniform(-84, 84)))
    ctx.case = dict(model=model, kind=kind, md=md, inc=inc, azi=azi, aref=h.azi_reference,
                    convergence=h.convergence, declination=h.declination, dip=h.dip, G=h.G, b=h.b_total)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s = we.survey.Survey(md=md, inc=inc, azi=azi, header=h, error_model=model)
    return kind, s, h


def compare(ctx, model, s, h, kind):
    st = setup(s, h)
    q = 1 - (np.sin(st["inc"]) * np.sin(st["azm"])) ** 2
    if q.min() < 1e-3:
        raise Skip("east-west horizontal")
    star, nxt = iscwsa.derivatives(st["md"], st["inc"], st["azt"], model == "ISCWSA MWD Rev4")
    vert = st["inc"] < st["vlim"]
    errs = s.err.errors.errors
    terms = TABLE[model]["terms"]
    ctx.check(set(errs) == set(terms), "sources-listed", missing=sorted(set(terms) - set(errs)),
              extra=sorted(set(errs) - set(terms)))
    total = np.zeros((len(s.md), 3, 3))
    for code in terms:
        if code not in errs:
            continue
        pk, en, es, fn = expected(code, model, st, star, nxt)
        cov = iscwsa.propagate(pk, en, es)
        total = total + cov
        sc = float(np.abs(cov).max()) + 1e-300
        loose = fn in iscwsa.XCL and not TABLE[model]["tort"]
        ctx.close(errs[code].cov_NEV, cov, "source:" + fn, rtol=3e-4 if loose else 1e-6, atol=1e-13, scale=sc,
                  code=code, vertical=bool(vert.any()))
        ctx.event("sources-compared")
        ctx.key(fn, pk, "vertical" if vert.any() else "inclined", "short" if np.diff(st["md"]).min() < 10 else "long")
    sc = float(np.abs(total).max()) + 1e-9
    ctx.close(s.cov_nev, iscwsa.turn(total, h.convergence), "total", rtol=3e-4, atol=1e-9, scale=sc)
    ctx.key(model, kind)


def _scen(mode):
    def fn(ctx):
        # every other survey with one of the models with functions of their own
        model = MODELS[ctx.index // 2 % len(MODELS)] if ctx.index % 2 else FULL[ctx.index // 2 % len(FULL)]
        kind, s, h = make(ctx, model, mode)
        compare(ctx, model, s, h, kind)
    fn.__name__ = mode
    return fn


def direct(ctx):
    """Weighting functions that a user's own table may name."""
    rng = ctx.rng
    kind, s, h = make(ctx, "ISCWSA MWD Rev5.11", "any")
    st = setup(s, h)
    if (1 - (np.sin(st["inc"]) * np.sin(st["azm"])) ** 2).min() < 1e-3 or (st["inc"] < 1e-3).any():
        raise Skip("singular")
    star, nxt = iscwsa.derivatives(st["md"], st["inc"], st["azt"], False)
    for fn in rng.permutation(FUNCTIONS)[:12]:
        fn = str(fn)
        mag, pk = float(10 ** rng.uniform(-3, 1)), str(rng.choice(["systematic", "random", "global"]))
        ctx.case["function"] = fn
        got = getattr(tool_errors, fn)(fn, s.err, mag=mag, propagation=pk, NEV=True)
        en, es = iscwsa.to_nev(iscwsa.weights(fn, st) * mag, star, nxt)
        cov = iscwsa.propagate({"XYM2": "systematic", "XYM4L": "random"}.get(fn, pk), en, es)
        ctx.close(got.cov_NEV, cov, "direct:" + fn, rtol=1e-6, atol=1e-13, scale=float(np.abs(cov).max()) + 1e-300, propagation=pk)
        ctx.key("direct", fn, pk)
        ctx.event("sources-compared")


def workbook_frame(ctx):
    """Rotating the whole problem (azimuths only, magnetic = true = grid) about
    the vertical rotates every source's covariance for isotropic sources."""
    rng = ctx.rng
    model = MODELS[ctx.index % len(MODELS)]
    n = int(rng.integers(3, 12))
    kind, md, inc, azi = gen.traj(rng, None, n, None, float(rng.choice([10., 30., 100.])))
    inc = np.clip(inc, .5, LOW.get(model, min(cap_of(model) - 1, 84.)))
    rot = float(rng.uniform(5, 355))
    covs = []
    for a in (azi, (azi + rot) % 360):
        h = gen.header(azi_reference="true")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            covs.append(we.survey.Survey(md=md, inc=inc, azi=a, header=h, error_model=model).err.errors.errors)
    c, d = np.cos(np.radians(rot)), np.sin(np.radians(rot))
    R = np.array([[c, -d, 0], [d, c, 0], [0, 0, 1]])
    iso = {"DREF", "DSF", "DST", "SAG", "SAGE", "XYM1", "XYM2", "AZ", "DBH", "CNI"}
    rev4 = model == "ISCWSA MWD Rev4"
    ctx.case = dict(model=model, md=md, inc=inc, azi=azi, rot=rot)
    for code, (fn, mag, pk, unit) in TABLE[model]["terms"].items():
        if code not in covs[0] or fn not in iso:
            continue
        # the Rev 5 first-interval convention is stated in north only
        if fn not in ("DREF", "DSF", "DST", "XYM2", "AZ", "DBH") and not rev4:
            continue
        want = R @ covs[0][code].cov_NEV @ R.T
        ctx.close(covs[1][code].cov_NEV, want, "isotropy:" + fn, rtol=1e-8, scale=float(np.abs(want).max()) + 1e-12, code=code)
        ctx.key(fn, "rotated")
    ctx.key(model)


def scaling(ctx):
    """Field strength enters as 1/B for magnetometer biases, gravity as 1/G for
    accelerometer biases, and not at all for the other sources."""
    rng = ctx.rng
    model = str(rng.choice(["ISCWSA MWD Rev4", "ISCWSA MWD Rev5.11", "MWD+SRGM", "MWD+IFR1+SAG+MS"]))
    kind, md, inc, azi = gen.traj(rng, None, int(rng.integers(3, 10)), None, 30.)
    inc = np.clip(inc, 1, 80)
    fb, fg = float(rng.uniform(1.1, 1.6)), float(rng.uniform(1.01, 1.2))
    out = []
    for b, g in ((40000., 9.8), (40000. * fb, 9.8), (40000., 9.8 * fg)):
        h = gen.header(azi_reference="true", b_total=b, G=g)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out.append(we.survey.Survey(md=md, inc=inc, azi=azi, header=h, error_model=model).err.errors.errors)
    inB = {"MBXY_TI1", "MBXY_TI2", "MBZ", "AMIL", "DBH", "MBIXY_TI1", "MBIXY_TI2", "MFI", "DBHR"}
    inG = {"ABXY_TI1", "ABXY_TI2", "ABZ", "ABIXY_TI1", "ABIXY_TI2", "ABIZ"}
    ctx.case = dict(model=model, md=md, inc=inc, azi=azi, fb=fb, fg=fg)
    for code, (fn, *_) in TABLE[model]["terms"].items():
        if code not in out[0]:
            continue
        base = out[0][code].cov_NEV
        sc = float(np.abs(base).max()) + 1e-15
        ctx.close(out[1][code].cov_NEV, base / (fb ** 2 if fn in inB else 1), "field:" + fn, rtol=1e-8, scale=sc)
        ctx.close(out[2][code].cov_NEV, base / (fg ** 2 if fn in inG else 1), "gravity:" + fn, rtol=1e-8, scale=sc)
        ctx.key(fn)


SCENARIOS = [
    Scenario("inclined", _scen("any"), 500, 8000),
    Scenario("vertical", _scen("vertical"), 600, 8000),
    Scenario("near_vertical", _scen("near"), 200, 3000),
    Scenario("direct", direct, 120, 2000),
    Scenario("workbook_frame", workbook_frame, 60, 600),
    Scenario("scaling", scaling, 20, 200),
]
