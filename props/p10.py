"""P10  Tool model formulas mean what they say and can do nothing else."""
import glob
import json
import os
import warnings

from vmon import formula, gen, iscwsa
from vmon.core import Scenario, Skip
from vmon.env import REPO, VERIF, np, we
from welleng.errors.interpreter import evaluate_formula

META = dict(
    title='Tool model formulas mean what they say and can do nothing else',
    statement=('Every weighting formula (published in a JSON tool model or well-formed in the same '
               'Excel-style language) evaluates, elementwise over the stations, to its arithmetic '
               'value; anything outside the language (attributes, subscripts, lambdas, unknown '
               'functions or names) is rejected, and evaluation never changes its bindings or '
               'anything else. Surveys with a JSON (gyro) tool model get from every source its '
               'formulas times its magnitude in its declared unit, and zero with a warning when '
               'the formula refers to a quantity the survey cannot supply.'),
    over=['inputs', 'configurations'],
    quantifier='all formulas of the language, all published formulas, all bindings (scalars and station arrays), all hostile strings, all listed gyro models and surveys in their range',
    why='Tests evaluate a handful of published formulas on three wells; neither arbitrary formulas nor hostile ones, nor units and propagation of the gyro models, are observed.',
    files=['welleng/errors/interpreter.py', 'welleng/errors/tool_errors.py', 'welleng/errors/iscwsa_json'],
    mechanism=[('formula evaluation', 'welleng/errors/interpreter.py:evaluate_formula'),
               ('language whitelist', 'welleng/errors/interpreter.py:_validate'),
               ('gyro model terms', 'welleng/errors/tool_errors.py:ToolError._call_interpreter')],
)

PROPERTY, LEVEL = "P10", "exploration"
RULE = ("a case is one formula (published, generated or hostile) evaluated on random bindings, or one "
        "survey with one JSON model whose every source is recomputed; classes are formula operators, "
        "hostile kinds, (model, source)")
ASSUMPTIONS = ["chained powers and a minus directly before a power are outside the generated language "
               "(Excel and VBA disagree about them)"]

FILES = sorted(glob.glob(os.path.join(REPO, "welleng/errors/iscwsa_json/*/*.json")))
TABLE = json.load(open(os.path.join(VERIF, "data", "models.json")))
LISTED = [m for m in we.error.ERROR_MODELS if m in TABLE and TABLE[m]["kind"] == "json"]
VARS = ["MD", "Inc", "AzT", "AzM", "Az", "TVD", "Gfield", "GField", "Dip", "BField", "Bfield", "EarthRate", "Latitude",
        "RAD", "MDPrev", "IncPrev", "AzPrev", "XCLTortuosity", "NoiseReductionFactor", "Z_Gyro_Drift",
        "GZRunningSpeed", "GXYRunningSpeed", "XY_Gyro_Drift", "XY_Gyro_Random_Walk", "MinIncidence",
        "SinSum", "Max1", "pix"]
UNIT = {"deg": np.pi / 180, "deg/hr": np.pi / 180, "deg/nT": np.pi / 180}


def bindings(rng, n=None):
    n = n or int(rng.integers(1, 7))
    out = {}
    for v in VARS:
        k = 1 if v in ("Gfield", "GField", "Dip", "BField", "Bfield", "EarthRate", "Latitude", "RAD") else n
        x = rng.uniform(.05, 3.0, n) if k > 1 else float(rng.uniform(.05, 1.5))
        out[v] = x * (1000 if v in ("MD", "TVD") else 1)
    if rng.random() < .2:
        out["Inc"] = np.zeros(n)
    return out, n


def same(ctx, got, want, mech, n, **d):
    with np.errstate(all="ignore"):
        w = np.broadcast_to(np.asarray(want, float), (n,)) if np.ndim(want) <= 1 else np.asarray(want)
        g = np.asarray(got, float)
        ctx.check(g.shape in ((), (n,)), mech + ":shape", shape=list(g.shape), **d)
        g = np.broadcast_to(g, (n,))
        nanw = ~np.isfinite(w)
        ctx.check(np.array_equal(np.isnan(g), np.isnan(w)) and np.array_equal(np.isinf(g), np.isinf(w)),
                  mech + ":nonfinite", got=g, want=w, **d)
        ok = ~nanw & np.isfinite(g)
        ctx.close(g[ok], w[ok], mech, rtol=1e-10, atol=1e-13, **d)


def published(ctx):
    rng = ctx.rng
    f = FILES[ctx.index % len(FILES)]
    m = json.load(open(f))
    ctx.case = dict(file=os.path.basename(f))
    env, n = bindings(rng)
    keep = {k: np.copy(v) for k, v in env.items()}
    for t in m["terms"]:
        for k in ("depth_formula", "inclination_formula", "azimuth_formula", "north_singularity",
                  "east_singularity", "vertical_singularity"):
            x = t.get(k)
            if x is None:
                continue
            want = formula.evaluate(str(x), env)
            got = evaluate_formula(x, env)
            same(ctx, got, want, "published-formula", n, term=t["name"], which=k, formula=x)
            ctx.event("published-formulas")
            ctx.key(t["name"], k)
    ctx.check(all(np.array_equal(keep[k], env[k]) for k in keep) and set(env) == set(keep), "bindings-changed")


def random_formula(rng, depth=0):
    r = rng.random()
    if depth > 4 or r < .25:
        if rng.random() < .6:
            return str(rng.choice(VARS + ["pi"]))
        return str(rng.choice(["1", "2", "0.5", "1.3", "10", "3.28084", ".25", "1e-3", "2.5E2"]))
    sp = " " if rng.random() < .5 else ""
    a, b = random_formula(rng, depth + 1), random_formula(rng, depth + 1)
    if r < .6:
        op = str(rng.choice(["+", "-", "*", "/"]))
        t = f"{a}{sp}{op}{sp}{b}"
        return f"({t})" if rng.random() < .45 else t
    if r < .63:
        return f"{str(rng.choice(VARS + ['pi', '2', '1.5']))}{sp}^{sp}{str(rng.choice(['2', '3', '0.5', '-1', '-2', '(-0.5)']))}"
    if r < .7:
        return f"({a}){sp}^{sp}{str(rng.choice(['2', '0.25', '0.5', '3', 'Max1']))}"
    if r < .75:
        return f"-({a})" if rng.random() < .5 else f"(-{a})" if "^" not in a else f"(-({a}))"
    if r < .85:
        return f"{str(rng.choice(['Max', 'Min']))}{sp if rng.random() < .3 else ''}({a},{sp}{b})"
    fn = str(rng.choice(["Sin", "Cos", "Tan", "Asin", "Acos", "Atan", "Abs", "Sqr", "Sqrt", "Exp", "Log", "sqrt"]))
    if fn in ("Sqr", "Sqrt", "Log", "sqrt"):
        return f"{fn}(Abs({a}))"
    if fn in ("Asin", "Acos"):
        return f"{fn}(Sin({a}))"
    if fn == "Exp":
        return f"Exp(Sin({a}))"
    return f"{fn}{' ' if rng.random() < .1 else ''}({a})"


def generated(ctx):
    rng = ctx.rng
    env, n = bindings(rng)
    for _ in range(8):
        t = random_formula(rng)
        if "^" in t:
            # a minus directly before a power is ambiguous
            import re
            if re.search(r"(?:^|[-+*/^(,])\s*-\s*(?:\w*\s*\(.*\)|[\w.]+)\s*\^|\^\s*[\w.]+\s*\^|\)\s*\^[^)]*\)\s*\^", t):
                continue
        if re_long(t):
            continue
        ctx.case = dict(formula=t, n=n)
        keep = {k: np.copy(v) for k, v in env.items()}
        try:
            with np.errstate(divide="raise", invalid="raise", over="raise", under="ignore"):
                want = formula.evaluate(t, env)
        except FloatingPointError:
            continue
        with np.errstate(all="ignore"):
            got = evaluate_formula(t, env)
        w, g = np.broadcast_to(np.asarray(want, float), (n,)), np.asarray(got, float)
        if np.all(np.isfinite(w)) and np.abs(w).max() < 1e9:
            ctx.check(g.shape in ((), (n,)), "shape", formula=t, shape=list(g.shape))
            ctx.close(np.broadcast_to(g, (n,)), w, "generated-formula", rtol=1e-6, atol=1e-6, formula=t)
            ctx.event("generated-formulas")
        ctx.check(all(np.array_equal(keep[k], env[k]) for k in keep) and set(env) == set(keep), "bindings-changed", formula=t)
        ctx.key("ops", *sorted({c for c in t if c in "+-*/^,"}), n > 1)
    v = float(rng.uniform(-5, 5))
    ctx.check(evaluate_formula(v, env) == v and evaluate_formula(3, env) == 3.0, "numeric-formula")


def re_long(t):
    return len(t) > 400


HOSTILE = [
    "__import__('os').system('true')", "Inc.__class__", "Inc.tolist()", "().__class__.__bases__[0]",
    "MD[0]", "[x for x in (1,2)]", "{1: 2}", "(lambda: 1)()", "lambda x: x", "open('/dev/null')",
    "eval('1')", "exec('1')", "getattr(Inc, 'shape')", "Inc.fill(0)", "Inc if Inc else MD", "Inc == MD",
    "Inc and MD", "not Inc", "MD := 3", "f'{Inc}'", "sin.__call__(1)", "Sin(Inc).sum()", "Sin(Inc, out=MD)",
    "Sin(*[Inc])", "Sin(**{})", "vars()", "globals()", "print(Inc)", "Nope(Inc)", "Unknown + 1", "NotBound",
    "__builtins__", "Inc; MD", "import os", "MD = 3", "Sin(Inc", "Inc +", "", "Inc @ MD", "Inc << 1",
    "Inc % 2", "Inc // 2", "Sin(Inc, MD)", "Max(Inc, MD, TVD)", "Abs(Inc, TVD)", "Sqr(Inc, MD)", "sin(Inc, MD)",
    "~Inc", "await Inc", "yield Inc", "(Inc, MD)", "[Inc]", "{Inc}", "Inc is MD", "Inc in MD", "Inc[:]", "Inc.T",
    "Sin(Cos)(Inc)", "Inc(MD)", "Sum(Inc)", "list(Inc)", "setattr(Inc, 'a', 1)", "type(Inc)", "breakpoint()",
]


def hostile(ctx):
    rng = ctx.rng
    h = HOSTILE[ctx.index % len(HOSTILE)]
    forms = [h]
    if h and ";" not in h and not h.startswith(("import", "yield", "await", "MD =")):
        safe = str(rng.choice(["Sin(Inc)", "MD", "1"]))
        forms += [f"{safe} + ({h})", f"Max({safe}, {h})", f" ({h}) * 2"]
    for t in forms:
        if t in ("MD := 3", "Max(MD, MD)"):
            continue
        env, n = bindings(rng, 4)
        keep = {k: np.copy(v) for k, v in env.items()}
        ctx.case = dict(formula=t)
        bad = None
        try:
            with np.errstate(all="ignore"):
                bad = evaluate_formula(t, env)
        except Exception:
            ctx.event("hostile-rejected")
        else:
            ctx.fail("hostile-accepted", formula=t, result=repr(bad)[:80])
        ctx.events["checks"] += 1
        ctx.check(all(np.array_equal(keep[k], env[k]) for k in keep) and set(env) == set(keep),
                  "hostile-side-effect", formula=t)
        ctx.key(h)


def models(ctx):
    """Surveys with the listed JSON models."""
    rng = ctx.rng
    model = LISTED[ctx.index % len(LISTED)]
    e = TABLE[model]
    n = int(rng.integers(2, 14))
    kind, md, inc, azi = gen.traj(rng, None, n, None, float(rng.choice([10., 30., 100.])))
    cap = float(e["inc_max"]) - 1
    inc = np.where(inc > cap, cap * .95, inc)
    film = model.startswith("CB_Film")
    if film:
        inc = np.maximum(inc, .5)
    # on the equator too
    h = gen.header(rng, **({"latitude": 0.0} if rng.random() < .15 else {}))
    ctx.case = dict(model=model, kind=kind, md=md, inc=inc, azi=azi, lat=h.latitude, G=h.G, aref=h.azi_reference)
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        s = we.survey.Survey(md=md, inc=inc, azi=azi, header=h, error_model=model)
    n = len(s.md)
    env = dict(MD=np.asarray(s.md, float), Inc=s.inc_rad, AzT=s.azi_true_rad, AzM=s.azi_mag_rad, Az=s.azi_grid_rad,
               TVD=s.tvd, Gfield=h.G, Dip=h.dip, BField=h.b_total, EarthRate=np.radians(15.041),
               Latitude=np.radians(h.latitude), RAD=np.pi / 180)
    star, nxt = iscwsa.derivatives(s.md, s.inc_rad, s.azi_true_rad, False)
    errs = s.err.errors.errors
    ctx.check(set(errs) == set(e["terms"]), "sources-listed", got=sorted(errs), want=sorted(e["terms"]))
    total = np.zeros((n, 3, 3))
    said = " ".join(str(w.message) for w in rec if issubclass(w.category, RuntimeWarning))
    for code, (fn, mag, mode, unit, *fs) in e["terms"].items():
        if code not in errs:
            continue
        try:
            with np.errstate(all="ignore"):
                w = np.column_stack([np.broadcast_to(np.asarray(formula.evaluate(str(f), env), float), (n,)) for f in fs])
        except formula.Unbound:
            w = np.zeros((n, 3))
            ctx.check(f"'{code}'" in said, "no-warning-for-unsupplied-term", code=code)
            ctx.event("unsupplied-terms")
        w = w * mag * UNIT.get(unit, 1.0)
        en, es = iscwsa.to_nev(w, star, nxt)
        cov = iscwsa.propagate("random" if mode == "Random" else "systematic", en, es)
        total += cov
        kindof = {"Well": "within_pad"}.get(mode, mode.lower())
        ctx.check(errs[code].propagation == kindof, "propagation-mode", code=code, got=errs[code].propagation)
        # EarthRate is known to four figures only
        ctx.close(errs[code].cov_NEV, cov, "json-source", rtol=1e-4 if "GXY" in code else 1e-8,
                  scale=float(np.abs(cov).max()) + 1e-12, code=code)
        ctx.key(model, code)
    ctx.close(s.cov_nev, iscwsa.turn(total, h.convergence), "json-total", rtol=1e-4, atol=1e-9,
              scale=float(np.abs(total).max()))


SCENARIOS = [
    Scenario("published", published, len(FILES), len(FILES) * 20),
    Scenario("generated", generated, 400, 20000),
    Scenario("hostile", hostile, len(HOSTILE) * 2, len(HOSTILE) * 20),
    Scenario("models", models, 120, 3000),
]
