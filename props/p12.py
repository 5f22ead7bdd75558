"""P12  Separation is the true distance to the offset well."""
from vmon import gen, ref, wells
from vmon.core import Scenario
from vmon.env import np, we
from vmon.purity import Watch
from welleng.clearance import IscwsaClearance

META = dict(
    title='Separation is the true distance to the offset well',
    statement=('For every reference station the ISCWSA clearance reports the shortest centre to '
               'centre distance to the continuous offset well (not to its stations), the offset point '
               'where it occurs, and the horizontal, toolface and traveling cylinder bearings of that '
               'point; the reported lines join exactly these points. The wells passed in are not '
               'changed.'),
    over=['inputs', 'configurations'],
    quantifier='all pairs of wells (pads, parallel, crossing, stacked, sidetracked, u-turned, sparsely surveyed), start offsets, units and uncertainties',
    why='Tests compare eleven published offset wells, all surveyed every 30 m; sparse or folded offset wells, where the nearest station misleads, are not among them.',
    files=['welleng/clearance.py', 'welleng/survey.py'],
    mechanism=[('closest point search', 'welleng/clearance.py:IscwsaClearance._get_closest_points'),
               ('bearings', 'welleng/clearance.py:IscwsaClearance._get_delta_nev_vectors'),
               ('interpolation', 'welleng/survey.py:_interpolate_pos_nev, _interpolate_survey')],
)

PROPERTY, LEVEL = "P12", "exploration"
RULE = ("a case is one pair of wells; an oracle searches the continuous offset path densely from every "
        "reference station; classes are (kind of pair, unit, uncertainty, where the closest point lies)")
ASSUMPTIONS = ["closest point search tolerance 2 mm + 1e-5 of the distance"]


def clear(ctx, r, o, **kw):
    with Watch(ctx, "IscwsaClearance", reference=r, offset=o):
        return IscwsaClearance(r, o, **kw)


def run(ctx, kind=None):
    rng = ctx.rng
    kind, a, b = wells.pair(rng, kind)
    unit = "feet" if rng.random() < .2 else "meters"
    model = str(rng.choice(["cov", "cov", "ISCWSA MWD Rev4", "ISCWSA MWD Rev5.11"])) if unit == "meters" else "cov"
    aref = str(rng.choice(["grid", "grid", "true", "magnetic"]))
    h = gen.header(azi_reference=aref, convergence=float(rng.choice([0., 1.5, -2.])), declination=float(rng.choice([0., 7.])),
                   depth_unit=unit, surface_unit=unit)
    ctx.case = dict(kind=kind, a=a, b=b, unit=unit, model=model, aref=aref)

    def mk(w):
        if model == "cov":
            return wells.survey(rng, w, cov=wells.grow_cov(rng, len(w[0])), hdr=h, unit=unit)
        w = (w[0], np.minimum(w[1], 150), w[2], w[3])
        return wells.survey(rng, w, model=model, hdr=h)
    r, o = mk(a), mk(b)
    c = clear(ctx, r, o, minimize_sf=False)
    n = len(r.md)
    rp = np.column_stack([r.n, r.e, r.tvd])
    # the continuous offset well from its own attitudes
    curve = wells.Curve(o.md, o.inc_rad, o.azi_grid_rad, b[3])
    ctx.close(np.column_stack([o.n, o.e, o.tvd]), curve.p, "offset-positions", rtol=0, atol=1e-5)
    true, tmd = curve.closest(rp)
    ctx.close(c.distance_cc, true, "distance", rtol=1e-5, atol=2e-3, model=model)
    offp = np.column_stack([c.off.n, c.off.e, c.off.tvd])
    ctx.close(c.off_nevs, offp, "off-nevs", rtol=0, atol=1e-9)
    ctx.close(curve.at_md(c.off.md), offp, "point-on-well", rtol=0, atol=1e-5)
    d = offp - rp
    ctx.close(np.linalg.norm(d, axis=1), c.distance_cc, "distance-of-point", rtol=1e-9, atol=1e-9)
    hz = np.hypot(d[:, 0], d[:, 1])
    ok = (hz > 1e-2) & (hz > 1e-6 * c.distance_cc)
    brg = np.arctan2(d[:, 1], d[:, 0])
    tol = 2e-6 + 1e-7
    ctx.close(ref.wrap(np.asarray(c.hoz_bearing)[ok] - brg[ok]), 0.0, "horizontal-bearing", rtol=0, atol=tol)
    ctx.close(ref.wrap(np.radians(np.asarray(c.hoz_bearing_deg)[ok]) - brg[ok]), 0.0, "horizontal-bearing-deg", rtol=0, atol=tol)
    ax = ref.hla_axes(r.inc_rad, r.azi_grid_rad)
    hla = np.einsum("nij,nj->ni", ax, d)
    lat = np.hypot(hla[:, 0], hla[:, 1])
    ok = (lat > 1e-2) & (lat > 1e-3 * c.distance_cc)
    tf = np.arctan2(hla[:, 1], hla[:, 0])
    ctx.close(ref.wrap(np.asarray(c.toolface_bearing)[ok] - tf[ok]), 0.0, "toolface-bearing", rtol=0, atol=tol)
    ctx.close(ref.wrap(np.radians(np.asarray(c.trav_cyl_azi_deg)[ok]) - tf[ok] - np.asarray(r.azi_grid_rad)[ok]), 0.0,
              "traveling-cylinder", rtol=0, atol=tol)
    with Watch(ctx, "get_lines", c=(c.distance_cc, c.off_nevs, c.ref_nevs)):
        ln = c.get_lines()
    ctx.close(ln[0], rp, "lines-reference", rtol=0, atol=1e-9)
    ctx.close(ln[1], offp, "lines-offset", rtol=0, atol=1e-9)
    ctx.close(c.ref_nevs, rp, "ref-nevs", rtol=0, atol=1e-9)
    near = np.argmin(np.linalg.norm(curve.p[None] - rp[:, None], axis=2), axis=1)
    i = np.clip(np.searchsorted(o.md, tmd) - 1, 0, len(o.md) - 2)
    ctx.event("stations-compared", n)
    ctx.event("closest-interval-not-adjacent-to-nearest-station", int(((i != near) & (i != near - 1)).sum()))
    ctx.key(kind.split("@")[0], unit, model, "far" if ((i != near) & (i != near - 1)).any() else "adjacent")


def _k(kind):
    def fn(ctx):
        run(ctx, kind)
    return fn


def general(ctx):
    run(ctx)


def identical(ctx):
    """A well against itself, and against its own lower part."""
    rng = ctx.rng
    kind, a, _ = wells.pair(rng)
    s = wells.survey(rng, a, cov=wells.grow_cov(rng, len(a[0])))
    o = wells.survey(rng, a, cov=wells.grow_cov(rng, len(a[0])))
    ctx.case = dict(a=a)
    c = clear(ctx, s, o, minimize_sf=False)
    ctx.close(c.distance_cc, 0.0, "distance-to-self", rtol=0, atol=2e-3)
    ctx.check(np.all(np.isfinite(c.sf)), "sf-finite-at-zero-distance")
    ctx.key(kind.split("@")[0])


SCENARIOS = [
    Scenario("general", general, 130, 2500),
    Scenario("sparse", _k("sparse"), 50, 1200),
    Scenario("misleading", _k("misleading"), 40, 800),
    Scenario("uturn", _k("uturn"), 40, 800),
    Scenario("stacked", _k("stacked"), 20, 400),
    Scenario("identical", identical, 16, 300),
]
