"""P26  Drilling fluid density."""
from vmon.core import Scenario
from vmon.env import np
from vmon.purity import Watch
from welleng.fluid import DensityDiesel, Fluid, WEIGHTING_MATERIAL_DENSITY

META = dict(
    title='Fluid density profiles solve the SPE 11118 field model',
    statement=('The density a fluid profile gives at a depth and temperature is the fixed point of the SPE '
               '11118 model for the volume fractions of oil, water and solids: the reference density divided '
               'by the mean expansion of its base fluids under the temperature gradient, the applied '
               'pressure and the hydrostatic head of that same density. It is the reference density at '
               'surface, falls with temperature, rises with depth at constant temperature, '
               'and is the same for single depths, lists and arrays. The volume '
               'fractions derived for a fluid sum to one and make up its reference density, and the diesel '
               'table returns its published values and lies between them elsewhere.'),
    over=['inputs', 'configurations'],
    quantifier='all fluid densities, water ratios, weighting materials, reference and downhole temperatures, depths and applied pressures',
    why='The only test overrides the volume fractions and evaluates one depth of one fluid.',
    files=['welleng/fluid.py'],
    mechanism=[('profile', 'welleng/fluid.py:Fluid.get_density_profile'),
               ('volumes', 'welleng/fluid.py:Fluid._get_volumes_reference'),
               ('diesel', 'welleng/fluid.py:DensityDiesel.get_density')],
)
PROPERTY, LEVEL = "P26", "exploration"
RULE = ("a case is one fluid evaluated over several depths against a bisected fixed point; distinct classes "
        "are (material, overridden fractions, depth form, gradient sign, pressure) tuples")
ASSUMPTIONS = ["the published solution lies inside the given density bounds",
               "profiles are compared to 1e-5 ppg, the accuracy of the optimiser"]
OIL = (7.24032, -2.84383e-3, 2.75660e-5)
WATER = (8.63186, -3.31977e-3, 2.37170e-5)
SOLIDS = {"barite": 35.0, "spe_11118": 24.0}


def ratio(c, T0, p, grad, rho, D):
    a1 = c[0] + c[1] * T0 + c[2] * p
    x = (c[1] * grad + 0.052 * c[2] * rho) * D / a1
    return 1.0 if abs(x) < 1e-12 else np.log1p(x) / x


def solve(top, fo, fw, T0, p, T, D):
    if D == 0:
        return top
    g = (T - T0) / D

    def f(r):
        return r * (1 - fo - fw + fo * ratio(OIL, T0, p, g, r, D) + fw * ratio(WATER, T0, p, g, r, D)) - top
    lo, hi = 1.0, 60.0
    for _ in range(90):
        m = (lo + hi) / 2
        lo, hi = (m, hi) if f(m) < 0 else (lo, m)
    return (lo + hi) / 2


def profile(ctx):
    rng = ctx.rng
    mat = str(rng.choice(["Barite", "barite", "SPE_11118", "BARITE"]))
    top = float(np.round(rng.uniform(8.8, 18), 2))
    T0 = float(rng.choice([32., 60., 120., np.round(rng.uniform(32, 150), 1)]))
    w = float(np.round(rng.choice([0.02, .1, .3, rng.uniform(0.01, .6)]), 3))
    p0 = float(rng.choice([0., 0., 14.7, 500.]))
    f = Fluid(fluid_density=top, reference_temp=T0, reference_pressure=p0, base_fluid_water_ratio=w, weighting_material=mat)
    fo, fw, fs = f.volume_oil_reference_relative, f.volume_water_reference_relative, f.volume_weighting_material_relative
    ctx.case = dict(top=top, T0=T0, water=w, material=mat, p0=p0)
    # volumes
    ro, rw = (c[0] + c[1] * T0 + c[2] * p0 for c in (OIL, WATER))
    ctx.close(fo + fw + fs, 1.0, "volumes-sum", rtol=1e-12)
    ctx.close(fw / (fo + fw), w, "water-ratio", rtol=1e-12)
    ctx.close(fo * ro + fw * rw + fs * SOLIDS[mat.lower()], top, "volumes-mass", rtol=1e-9)
    over = rng.random() < .3
    if over:
        fo, fw = float(rng.uniform(.4, .8)), float(rng.uniform(.01, .2))
        f.volume_oil_reference_relative, f.volume_water_reference_relative = fo, fw
        f.volume_weighting_material_relative = 1 - fo - fw
    pa = float(rng.choice([0., 0., 500., 3000.]))
    n = int(rng.integers(1, 5))
    D = np.round(np.sort(rng.uniform(1, 25000, n)), 1)
    if rng.random() < .4:
        D[0] = 0.0
    grad = str(rng.choice(["hot", "iso", "cold"]))
    T = T0 + {"hot": rng.uniform(.005, .02), "iso": 0.0, "cold": -rng.uniform(0, .001)}[grad] * D
    T = np.round(T, 2)
    T[D == 0] = T0
    form = str(rng.choice(["array", "list", "each"]))
    with Watch(ctx, "get_density_profile", D=D, T=T):
        if form == "array":
            got = f.get_density_profile(depth=D, temperature=T, pressure_applied=pa)
        elif form == "list":
            got = f.get_density_profile(depth=D.tolist(), temperature=T.tolist(), pressure_applied=pa)
        else:
            got = [f.get_density_profile(depth=float(d), temperature=float(t), pressure_applied=pa)[0] for d, t in zip(D, T)]
    want = [solve(top, fo, fw, T0, pa, t, d) for d, t in zip(D, T)]
    ctx.case.update(D=D, T=T, pa=pa, fo=fo, fw=fw)
    ctx.check(len(got) == n, "profile-length")
    ctx.close(got, want, "profile", rtol=0, atol=1e-5)
    if grad == "iso":
        g = np.asarray(got, float)
        ctx.check(np.all(np.diff(g) > -1e-5) and g[-1] >= top - 1e-5, "deeper-is-heavier", got=g)
    k = n - 1
    if D[k] > 100:
        hot = f.get_density_profile(depth=D[k], temperature=float(T[k] + 60), pressure_applied=pa)[0]
        ctx.check(hot < got[k] - 1e-6, "hotter-is-lighter", hot=hot, cold=got[k])
    ctx.raises(lambda: Fluid(10., weighting_material="lead"), "unknown-material")
    ctx.check({k: float(v) for k, v in WEIGHTING_MATERIAL_DENSITY.items() if k in SOLIDS} == SOLIDS, "solids-density")
    ctx.key(mat.lower(), over, form, grad, pa > 0, bool(D[0] == 0))
    ctx.event("densities", n)


PSI = np.array([15., 3000., 7000., 10000., 12500.])
TEMP = np.array([100., 200., 300., 350.])
RHO = np.array([[6.9597, 7.0597, 7.1621, 7.2254, 7.2721], [6.6598, 6.7690, 6.8789, 6.9464, 6.9930],
                [6.3575, 6.4782, 6.5965, 6.6673, 6.7198], [6.2083, 6.3350, 6.4624, 6.5366, 6.5874]])


def diesel(ctx):
    rng = ctx.rng
    d = DensityDiesel()
    i, j = int(rng.integers(4)), int(rng.integers(5))
    ctx.case = dict(T=TEMP[i], p=PSI[j])
    ctx.close(np.ravel(d.get_density(PSI[j], TEMP[i])), [RHO[i, j]], "diesel-table", rtol=0, atol=1e-6)
    i, j = int(rng.integers(3)), int(rng.integers(4))
    t, p = float(rng.uniform(TEMP[i], TEMP[i + 1])), float(rng.uniform(PSI[j], PSI[j + 1]))
    g = float(np.ravel(d.get_density(p, t))[0])
    ctx.case.update(t=t, q=p)
    ctx.check(RHO[i + 1, j] - 1e-6 <= g <= RHO[i, j + 1] + 1e-6, "diesel-between", got=g, low=RHO[i + 1, j], high=RHO[i, j + 1])
    u, v = (t - TEMP[i]) / (TEMP[i + 1] - TEMP[i]), (p - PSI[j]) / (PSI[j + 1] - PSI[j])
    lin = (1 - u) * ((1 - v) * RHO[i, j] + v * RHO[i, j + 1]) + u * ((1 - v) * RHO[i + 1, j] + v * RHO[i + 1, j + 1])
    ctx.close(g, lin, "diesel-smooth", rtol=0, atol=.02)
    ctx.key("diesel", i, j)
    ctx.event("diesel")


SCENARIOS = [Scenario("profile", profile, 400, 10000), Scenario("diesel", diesel, 60, 1000)]
