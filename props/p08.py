"""P08  Positional uncertainty is propagated along the well from its sources."""
import warnings

from vmon import gen, iscwsa, ref
from vmon.core import Scenario
from vmon.env import np, we
from vmon.purity import Watch

META = dict(
    title='Uncertainty propagates along the well from its error sources',
    statement=('With any error model, the covariance at each station is the sum over the model\'s '
               'sources of systematic, random or global propagation of that source\'s measurement '
               'errors along the stations up to there, plus the start covariance, and is symmetric, '
               'finite and positive semi-definite. It does not depend on deeper stations, splits '
               'into its random, systematic, global and well parts without remainder, is stated in '
               'the frame of the positions and agrees with its high side form.'),
    over=['inputs', 'configurations'],
    quantifier='all surveys inside a model\'s range (inclined, vertical, ending vertical, short courses), all loadable models, all header fields and start covariances',
    why='Tests compare three workbook wells for two models; they cannot reach the other sixty models, vertical ends, short surveys or non-zero convergence.',
    files=['welleng/error.py', 'welleng/errors/tool_errors.py', 'welleng/survey.py'],
    mechanism=[('position derivatives', 'welleng/error.py:ErrorModel._drdp, _e_NEV, _e_NEV_star'),
               ('propagation', 'welleng/error.py:ErrorModel._generate_error'),
               ('partition', 'welleng/errors/tool_errors.py:ToolError.__init__'),
               ('survey covariances', 'welleng/survey.py:Survey._get_errors')],
)

PROPERTY, LEVEL = "P08", "exploration"
RULE = ("a case is one generated survey with one error model; every source of the model is "
        "re-propagated from its measurement errors with independent derivatives; classes are "
        "(model, trajectory family, vertical stations, source propagation kinds)")
ASSUMPTIONS = ["measurement errors of each source are judged by P09/P10, not here",
               "wells that axial-correction models exclude (horizontal east/west) are not generated"]

MODELS = [m for m in we.error.ERROR_MODELS if not m.startswith("spe-")]
JSON = [m for m in MODELS if m.startswith(("GYRO", "CB_Film_G"))]
LOW = {"INC-ONLY": 29, "INC-ONLY_Fl": 29, "INC-ONLY_PLANNED_5_DEG": 4.9,
       "INC-ONLY_PLANNED_5_DEG_Fl": 4.9}


def make(ctx, model=None, vertical=True, kinds=None):
    rng = ctx.rng
    if model is None:
        model = str(rng.choice(MODELS)) if rng.random() < .6 else str(
            rng.choice(["ISCWSA MWD Rev4", "ISCWSA MWD Rev5.11"]))
    n = int(rng.integers(2, 16)) if rng.random() < .5 else None
    step = float(rng.choice([4., 10., 30., 100.])) if rng.random() < .6 else None
    kind, md, inc, azi = gen.traj(rng, kinds and str(rng.choice(kinds)), n, None, step)
    cap = LOW.get(model, 88.0 if model in JSON else 84.0)
    inc = np.minimum(inc, cap)
    if not vertical or model.startswith("CB_Film_G"):
        inc = np.maximum(inc, .3)
    elif rng.random() < .25:
        inc = inc.copy()
        inc[-1] = 0.0
    h = gen.header(rng)
    if abs(h.dip) > 1.45 or abs(h.dip) < 0:
        h = gen.header(rng, dip=70.0)
    ctx.case = dict(model=model, kind=kind, md=md, inc=inc, azi=azi, aref=h.azi_reference,
                    convergence=h.convergence, declination=h.declination, dip=h.dip, G=h.G, b=h.b_total,
                    lat=h.latitude)
    s = survey(md, inc, azi, h, model)
    return model, kind, s, h


def survey(md, inc, azi, h, model, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return we.survey.Survey(md=md, inc=inc, azi=azi, header=h, error_model=model, **kw)


def sources(ctx):
    model, kind, s, h = make(ctx)
    n = len(s.md)
    errs = s.err.errors
    star, nxt = iscwsa.derivatives(s.md, s.inc_rad, s.azi_true_rad,
                                   model.lower().split()[-1] == "rev4")
    vert = s.inc_rad < h.vertical_inc_limit
    total = np.zeros((n, 3, 3))
    part = {}
    codes = errs.em["codes"]
    for name, want in (("drk_dDepth", star[:, 0]), ("drk_dInc", star[:, 1]), ("drk_dAz", star[:, 2]),
                       ("drkplus1_dDepth", nxt[:, 0]), ("drkplus1_dInc", nxt[:, 1]), ("drkplus1_dAz", nxt[:, 2])):
        f = getattr(s.err, name, None)
        if f is not None:
            ctx.close(f(s.err.survey_rad), want, "position-derivative", rtol=1e-9, atol=1e-9,
                      scale=float(np.abs(want).max()), of=name)
    ctx.check(set(errs.errors) == set(codes), "missing-sources")
    for code, e in errs.errors.items():
        ctx.event("sources-propagated")
        fn = codes[code].get("function", "")
        en, es = iscwsa.to_nev(e.e_DIA, star, nxt)
        direct = fn in iscwsa.XCL
        sc = float(np.abs(en).max() + np.abs(es).max()) + 1e-300
        if not direct:
            reg = ~vert if fn in iscwsa.VERT else np.ones(n, bool)
            ctx.close(np.asarray(e.e_NEV)[reg], en[reg], f"e_NEV", rtol=1e-7, atol=1e-12, scale=sc, code=code)
            ctx.close(np.asarray(e.e_NEV_star)[reg], es[reg], "e_NEV_star", rtol=1e-7, atol=1e-12, scale=sc, code=code)
        cov = iscwsa.propagate(e.propagation, np.asarray(e.e_NEV), np.asarray(e.e_NEV_star))
        cs = float(np.abs(cov).max()) + 1e-300
        ctx.check(e.propagation in ("random", "systematic", "global", "within_pad"),
                  "propagation-kind", code=code, kind=e.propagation)
        ctx.close(e.cov_NEV, cov, "propagation", rtol=1e-9, atol=1e-14, scale=cs, code=code, kind=e.propagation)
        total += cov
        part.setdefault(e.propagation, np.zeros((n, 3, 3)))
        part[e.propagation] += cov
    sc = float(np.abs(total).max()) + 1e-9
    want = iscwsa.turn(total, h.convergence)
    ctx.close(errs.cov_NEVs, total, "sum-of-sources", rtol=1e-9, scale=sc)
    ctx.close(s.cov_nev, want, "survey-cov", rtol=1e-9, scale=sc)
    left = np.zeros((n, 3, 3))
    for k in ("random", "systematic", "global", "within_pad"):
        got = getattr(s, f"cov_nev_{k}")
        ctx.close(got, iscwsa.turn(part.get(k, np.zeros((n, 3, 3))), h.convergence), f"part-{k}", rtol=1e-9, scale=sc)
        left = left + got
    ctx.close(left, s.cov_nev, "partition", rtol=1e-9, scale=sc)
    ctx.check(np.all(np.isfinite(s.cov_nev)) and np.all(np.isfinite(s.cov_hla)), "finite")
    ctx.close(s.cov_nev, np.swapaxes(s.cov_nev, 1, 2), "symmetric", rtol=1e-12, scale=sc)
    ev = np.linalg.eigvalsh(s.cov_nev)
    ctx.check(ev.min() >= -1e-9 * sc, "positive-semidefinite", min=float(ev.min()))
    R = ref.hla_axes(s.inc_rad, s.azi_grid_rad)
    ctx.close(s.cov_hla, R @ s.cov_nev @ np.swapaxes(R, 1, 2), "hla", rtol=1e-9, atol=1e-9, scale=sc)
    ctx.close(s.cov_nev[0], 0.0, "tie-on-zero", rtol=0, atol=1e-12)
    ctx.key(model, kind, bool(vert.any()), bool(vert[-1]), *sorted(part))


def prefix(ctx):
    """The uncertainty at a station does not depend on deeper stations."""
    rng = ctx.rng
    model, kind, s, h = make(ctx)
    n = len(s.md)
    if n < 3:
        k = 2
    else:
        k = int(rng.integers(2, n))
    c = ctx.case
    t = survey(c["md"][:k], c["inc"][:k], c["azi"][:k], h, model)
    sc = float(np.abs(s.cov_nev[:k]).max()) + 1e-9
    ctx.close(t.cov_nev, s.cov_nev[:k], "depends-on-deeper-stations", rtol=1e-9, scale=sc, k=k)
    ctx.key(model, kind, "end-vertical" if c["inc"][k - 1] == 0 else "end-inclined")


def frames_and_start(ctx):
    """Reference, order of calls, start covariance and start position."""
    rng = ctx.rng
    model, kind, s, h = make(ctx)
    c = ctx.case
    sc = float(np.abs(s.cov_nev).max()) + 1e-9
    off = {"grid": 0.0, "true": -h.convergence, "magnetic": h.declination - h.convergence}
    ag = np.radians(c["azi"]) + off[h.azi_reference]
    for r in ("grid", "true", "magnetic"):
        h2 = gen.header(None, latitude=h.latitude, longitude=h.longitude, b_total=h.b_total,
                        dip=np.degrees(h.dip), declination=np.degrees(h.declination),
                        convergence=np.degrees(h.convergence), G=h.G, azi_reference=r)
        t = survey(c["md"], c["inc"], np.degrees(ag - off[r]), h2, model)
        ctx.close(t.cov_nev, s.cov_nev, "azimuth-reference", rtol=1e-7, scale=sc, ref=r)
        ctx.event("references-compared")
    # constructing with a model equals asking for it afterwards
    plain = we.survey.Survey(md=c["md"], inc=c["inc"], azi=c["azi"], header=h)
    pos = (plain.n.copy(), plain.e.copy(), plain.tvd.copy())
    other = str(rng.choice(["ISCWSA MWD Rev4", "ISCWSA MWD Rev5.11"]))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            plain.get_error(other)
        except AssertionError:
            pass
        got = plain.get_error(model)
    ctx.close(got.cov_nev, s.cov_nev, "get_error", rtol=1e-12, scale=sc)
    ctx.check(np.array_equal(pos[0], got.n) and np.array_equal(pos[1], got.e) and np.array_equal(pos[2], got.tvd),
              "get_error-moves-stations")
    st = gen.psd(rng, 5.0)
    keep = st.copy()
    u = survey(c["md"], c["inc"], c["azi"], h, model, start_cov_nev=st)
    ctx.close(u.cov_nev, s.cov_nev + st, "start-covariance", rtol=1e-9, scale=sc + 10)
    ctx.check(np.array_equal(st, keep), "start-covariance-mutated")
    R = ref.hla_axes(u.inc_rad, u.azi_grid_rad)
    ctx.close(u.cov_hla, R @ u.cov_nev @ np.swapaxes(R, 1, 2), "start-hla", rtol=1e-9, atol=1e-9, scale=sc + 10)
    v = survey(c["md"], c["inc"], c["azi"], h, model, start_nev=[300., -200., 0.])
    ctx.close(v.cov_nev, s.cov_nev, "start-position", rtol=1e-9, scale=sc)
    ctx.key(model, kind, h.azi_reference)


def diagnostic(ctx):
    model, kind, s, h = make(ctx)
    with Watch(ctx, "make_diagnostic_data", survey=s.cov_nev, md=s.md):
        d = we.error.make_diagnostic_data(s)
    cov = s.err.errors.cov_NEVs
    sc = float(np.abs(cov).max()) + 1e-9
    ctx.check(len(d) == len(set(np.asarray(s.md).tolist())), "diagnostic-stations")
    for i, m in enumerate(s.md):
        if (np.asarray(s.md) == m).sum() > 1:
            continue
        c = cov[i]
        ctx.close(d[m]["TOTAL"], [c[0, 0], c[1, 1], c[2, 2], c[0, 1], c[0, 2], c[1, 2]], "diagnostic-total",
                  rtol=1e-9, scale=sc)
        code = list(s.err.errors.errors)[int(ctx.rng.integers(len(s.err.errors.errors)))]
        e = s.err.errors.errors[code].cov_NEV[i]
        ctx.close(d[m][code], [e[0, 0], e[1, 1], e[2, 2], e[0, 1], e[0, 2], e[1, 2]], "diagnostic-source",
                  rtol=1e-12, scale=1e-12)
    ctx.key(model, kind)


def units_probe(ctx):
    """The same well in metres and in feet has the same uncertainty."""
    md = np.arange(0, 3001, 100.)
    inc = np.clip((md - 500) / 20, 0.5, 85.)
    azi = np.full(len(md), 40. + ctx.index)
    cov = []
    for unit, f in (("meters", 1.0), ("feet", .3048)):
        h = gen.header(azi_reference="true", declination=3.0, depth_unit=unit, surface_unit=unit)
        s = survey(md / f, inc, azi, h, "ISCWSA MWD Rev5.11", unit=unit)
        cov.append(s.cov_nev * f ** 2)
    ctx.case = dict(azi=azi[0])
    ctx.close(cov[1], cov[0], "feet-error-model", rtol=1e-6, scale=1.0)
    ctx.key("feet")


SCENARIOS = [
    Scenario("sources", sources, 260, 6000),
    Scenario("prefix", prefix, 200, 4000),
    Scenario("frames_and_start", frames_and_start, 60, 1500),
    Scenario("diagnostic", diagnostic, 40, 600),
    Scenario("units_probe", units_probe, 1, 1),
]
