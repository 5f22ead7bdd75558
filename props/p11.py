"""P11  The error model asked for is the one used, within its range."""
import json
import os
import warnings

from vmon import gen
from vmon.core import Scenario
from vmon.env import VERIF, np, we

META = dict(
    title='The error model asked for is the one used, within its range',
    statement=('Every listed error model can be used by its short name and applies its own sources '
               '(a floating rig variant its own file), giving finite covariances for any well inside '
               'its inclination range from two stations up. A well at or above the range\'s maximum '
               'and a name that is not listed are refused instead of answered; the deprecated Rev5 '
               'name warns and equals Rev5.11. Survey parts and re-requests keep the model.'),
    over=['inputs', 'configurations'],
    quantifier='all listed models, all surveys inside and outside their ranges including two-station and vertical ones, all header settings',
    why='Tests load the models used by the workbooks and a few others; they neither visit every model nor its range limits nor minimal surveys.',
    files=['welleng/error.py', 'welleng/errors/tool_errors.py', 'welleng/errors/tool_index.yaml', 'welleng/survey.py'],
    mechanism=[('model lookup', 'welleng/error.py:ErrorModel.__init__'),
               ('file lookup', 'welleng/errors/tool_errors.py:_resolve_json_model'),
               ('range check', 'welleng/errors/tool_errors.py:ToolError.__init__')],
)

PROPERTY, LEVEL = "P11", "exploration"
RULE = "a case is one model and one survey inside or outside its range; classes are (model, kind of case)"
ASSUMPTIONS = ["data/models.json lists each model's sources and inclination range"]

TABLE = json.load(open(os.path.join(VERIF, "data", "models.json")))
LISTED = sorted(TABLE_M for TABLE_M in TABLE if TABLE_M in we.error.ERROR_MODELS)


def cap(model):
    v = TABLE[model].get("inc_max")
    return float(str(v).split()[0]) if v is not None else None


def mk(md, inc, azi, h, model):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return we.survey.Survey(md=md, inc=inc, azi=azi, header=h, error_model=model)


def listing(ctx):
    want = {m for m in TABLE if TABLE[m]["kind"] == "yaml" or m in LISTED}
    names = set(we.error.get_error_models()) if hasattr(we.error, "get_error_models") else set(we.error.ERROR_MODELS)
    ctx.check(want <= names, "model-not-listed", missing=sorted(want - names))
    ctx.check(len(we.error.ERROR_MODELS) == len(set(we.error.ERROR_MODELS)), "duplicate-names")
    ctx.case = dict(n=len(names))
    md, inc, azi = np.arange(0, 301, 30.), np.linspace(1, 4, 11), np.full(11, 40.)
    h = gen.header()
    for m in sorted(names - want):
        try:
            s = mk(md, inc, azi, h, m)
            ctx.check(np.all(np.isfinite(s.cov_nev)), f"unusable-model:{m}", why="not finite")
        except FileNotFoundError as e:
            ctx.fail(f"unusable-model:{m}", why=str(e)[:100])
        ctx.key(m)
    ctx.key("listing")


def inside(ctx):
    rng = ctx.rng
    model = LISTED[ctx.index % len(LISTED)]
    c = cap(model) or 180.
    n = int(rng.choice([2, 2, 3, 4, 8]))
    top = min(c, 180.) - .01
    mode = str(rng.choice(["vertical", "vertical-end", "low", "limit", "any"]))
    md = np.concatenate([[0.0], np.cumsum(rng.choice([1., 9., 30., 200.], n - 1))]) + float(rng.choice([0., 1234.5]))
    azi = rng.uniform(0, 360, n)
    inc = {"vertical": np.zeros(n), "low": rng.uniform(0, min(top, 5), n), "limit": np.full(n, min(top, 179.9)),
           "any": rng.uniform(0, top, n), "vertical-end": np.concatenate([rng.uniform(.1, min(top, 20), n - 1), [0.]])}[mode]
    film = model.startswith("CB_Film_G")
    if film:
        inc = np.maximum(inc, .2)
    if model in ("GYRO-NS", "GYRO-MWD", "GYRO-NS-CT") or model.startswith("GYRO"):
        inc = np.where(np.abs(inc - 90) < .5, 88.5, inc)
    # axial corrections are singular at magnetic east/west horizontal
    azi = np.where((np.abs(inc - 90) < 3) & (np.abs(np.sin(np.radians(azi))) > .99), 20., azi)
    h = gen.header(rng, declination=0.0, convergence=0.0, dip=float(rng.uniform(-80, 80)))
    ctx.case = dict(model=model, mode=mode, md=md, inc=inc, azi=azi)
    s = mk(md, inc, azi, h, model)
    ctx.check(s.cov_nev.shape == (n, 3, 3), "shape")
    ctx.check(np.all(np.isfinite(s.cov_nev)) and np.all(np.isfinite(s.cov_hla)), "not-finite", model=model, mode=mode)
    ctx.check(set(s.err.errors.errors) == set(TABLE[model]["terms"]), "wrong-sources", model=model,
              diff=sorted(set(s.err.errors.errors) ^ set(TABLE[model]["terms"])))
    ctx.check(s.error_model == model, "survey-error-model", got=s.error_model)
    # only models without any source (none listed) may give no uncertainty
    if TABLE[model]["terms"]:
        ctx.check(np.linalg.eigvalsh(s.cov_nev[-1]).max() > 0, "no-uncertainty")
    # asking again, or for another model and back
    e = s.get_error(model)
    ctx.close(e.cov_nev, s.cov_nev, "get_error-again", rtol=1e-12, atol=1e-15)
    ctx.key(model, mode, n if n < 4 else "many")


def outside(ctx):
    rng = ctx.rng
    capped = [m for m in LISTED if cap(m) is not None and cap(m) < 180]
    model = capped[ctx.index % len(capped)]
    c = cap(model)
    n = int(rng.integers(2, 9))
    md = np.cumsum(rng.uniform(5, 60, n))
    inc = rng.uniform(0, c * .9, n)
    k = int(rng.integers(n))
    inc[k] = c if rng.random() < .3 else min(179.0, c + float(rng.choice([1e-3, .5, 5., 20.])))
    ctx.case = dict(model=model, inc=inc, at=k)
    h = gen.header(azi_reference=str(rng.choice(["true", "grid"])))
    try:
        s = mk(md, inc, rng.uniform(0, 360, n), h, model)
    except Exception:
        ctx.event("out-of-range-refused")
        ctx.check(True, "")
    else:
        ctx.check(False, "out-of-range-accepted", cov=s.cov_nev[-1])
    ctx.key(model, "at" if inc[k] == c else "above")


def unknown(ctx):
    rng = ctx.rng
    base = str(rng.choice(LISTED))
    name = [base + "x", base[:-1], base.lower() if base.lower() != base else base + "_", "", "iscwsa_mwd_rev4", base + " ",
            "A001Mc", "MWD", "ISCWSA", "ISCWSA MWD Rev6"][ctx.index % 10]
    if name in we.error.ERROR_MODELS or name in ("ISCWSA MWD Rev5",):
        name += "??"
    md, inc, azi = np.arange(0, 301, 30.), np.linspace(1, 4, 11), np.full(11, 40.)
    ctx.case = dict(name=name)
    s = we.survey.Survey(md=md, inc=inc, azi=azi, header=gen.header())
    try:
        we.error.ErrorModel(s, error_model=name)
    except Exception:
        ctx.event("unknown-refused")
        ctx.check(True, "")
    else:
        ctx.check(False, "unknown-model-accepted", name=name)
    ctx.key(name)


def deprecated(ctx):
    rng = ctx.rng
    kind, md, inc, azi = gen.traj(rng, None, int(rng.integers(3, 12)), None, 30.)
    inc = np.minimum(inc, 80)
    h = gen.header(rng)
    plain = we.survey.Survey(md=md, inc=inc, azi=azi, header=h)
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        old = we.error.ErrorModel(plain, error_model="ISCWSA MWD Rev5")
    ctx.check(any(issubclass(w.category, DeprecationWarning) for w in rec), "no-deprecation-warning")
    new = we.error.ErrorModel(plain, error_model="ISCWSA MWD Rev5.11")
    with warnings.catch_warnings(record=True) as rec2:
        warnings.simplefilter("always")
        default = we.error.ErrorModel(plain)
    ctx.check(not any(issubclass(w.category, DeprecationWarning) and "error_model" in str(w.message) for w in rec2), "default-warns")
    sc = float(np.abs(new.errors.cov_NEVs).max()) + 1e-9
    ctx.close(old.errors.cov_NEVs, new.errors.cov_NEVs, "deprecated-alias", rtol=1e-12, scale=sc)
    ctx.close(default.errors.cov_NEVs, new.errors.cov_NEVs, "default-model", rtol=1e-12, scale=sc)
    rev4 = we.error.ErrorModel(plain, error_model="ISCWSA MWD Rev4")
    ctx.check(set(rev4.errors.errors) != set(new.errors.errors), "rev4-is-rev5")
    ctx.case = dict(kind=kind, md=md, inc=inc, azi=azi)
    ctx.key(kind)


def floating(ctx):
    """A floating rig variant differs from its fixed rig tool (depth terms)."""
    fl = sorted(m for m in LISTED if m.endswith("_Fl") and m[:-3] in LISTED)
    model = fl[ctx.index % len(fl)]
    md = np.arange(0, 1001, 50.)
    inc = np.linspace(.5, 4., len(md))
    h = gen.header()
    a, b = mk(md, inc, np.full(len(md), 30.), h, model), mk(md, inc, np.full(len(md), 30.), h, model[:-3])
    ctx.case = dict(model=model)
    differs = TABLE[model]["terms"] != TABLE[model[:-3]]["terms"]
    ctx.check((not np.allclose(a.cov_nev, b.cov_nev, rtol=1e-9)) == differs, "floating-variant", model=model)
    ctx.key(model, differs)


def film_vertical(ctx):
    """Fixed probe: gyro film tools at exactly vertical stations."""
    for model in ("CB_Film_GMS", "CB_Film_GMS_Fl", "CB_Film_GSS", "CB_Film_GSS_Fl"):
        s = mk(np.arange(0, 301, 30.), np.zeros(11), np.zeros(11), gen.header(), model)
        ctx.check(np.all(np.isfinite(s.cov_nev)), f"film-gyro-vertical:{model}", model=model)
        ctx.key(model)
    ctx.case = dict(inc=0)


SCENARIOS = [
    Scenario("listing", listing, 1, 1),
    Scenario("inside", inside, len(LISTED) * 6, len(LISTED) * 80),
    Scenario("outside", outside, 60, 1000),
    Scenario("unknown", unknown, 40, 200),
    Scenario("deprecated", deprecated, 30, 300),
    Scenario("floating", floating, 40, 40),
    Scenario("film_vertical", film_vertical, 1, 1),
]
