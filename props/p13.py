"""P13  Separation factor and allowable separation follow the separation rule."""
from vmon import gen, ref, wells
from vmon.core import Scenario
from vmon.env import np, we
from vmon.purity import Watch
from welleng.clearance import IscwsaClearance

META = dict(
    title='Separation factor and allowable separation follow the separation rule',
    statement=('For every reference station the ISCWSA clearance combines the reference covariance and '
               'the offset covariance interpolated at the closest point, each along the line between '
               'the two points, with k, sigma_pa, Sm and the hole radii as the separation rule says: '
               'SF = (D - Rr - Ro - Sm) / (k sqrt(sr^2 + so^2 + sigma_pa^2)), with the matching minimum '
               'allowable separation. It is unchanged by moving or turning both wells together and '
               'reacts to each parameter in the safe direction.'),
    over=['inputs', 'configurations'],
    quantifier='all pairs of wells, covariances, error models, k, sigma_pa, Sm and radii, including touching and coincident wells',
    why='Tests compare SF for one set of parameters on eleven pairs with 0.5% tolerance; parameter sensitivity, frames and unusual geometry are not sampled.',
    files=['welleng/clearance.py'],
    mechanism=[('pedal curve radii', 'welleng/clearance.py:IscwsaClearance._get_PCRs'),
               ('covariance at the closest point', 'welleng/clearance.py:IscwsaClearance._interpolate_covs'),
               ('separation factor', 'welleng/clearance.py:IscwsaClearance.__init__')],
)

PROPERTY, LEVEL = "P13", "exploration"
RULE = ("a case is one pair of wells with one parameter set; every reported quantity is recomputed; "
        "classes are (kind of pair, source of uncertainty, parameter pattern)")
ASSUMPTIONS = ["hole radius of the offset well is that of a station at either end of the closest interval"]


def params(rng):
    return dict(k=float(rng.choice([3.5, 2.0, 1.0, 2.7955])), sigma_pa=float(rng.choice([.5, .1, 1.3])),
                Sm=float(rng.choice([.3, 0., 1.5])))


def make(ctx, kind=None, conv=True):
    rng = ctx.rng
    kind, a, b = wells.pair(rng, kind)
    model = str(rng.choice(["cov", "cov", "ISCWSA MWD Rev4", "ISCWSA MWD Rev5.11", "MWD+SRGM"]))
    h = gen.header(azi_reference=str(rng.choice(["grid", "true"])), convergence=float(rng.choice([0., 2., -3.])) if conv else 0.)

    def mk(w):
        rad = rng.choice([.1, .2, .3048, .5], len(w[0])) if rng.random() < .4 else float(rng.choice([.1, .4572, .25]))
        if model == "cov":
            return wells.survey(rng, w, cov=wells.grow_cov(rng, len(w[0])), hdr=h, radius=rad)
        w = (w[0], np.minimum(w[1], 150), w[2], w[3])
        return wells.survey(rng, w, model=model, hdr=h, radius=rad)
    r, o = mk(a), mk(b)
    p = params(rng)
    ctx.case = dict(kind=kind, a=a, b=b, model=model, **p)
    return kind, model, r, o, p, a, b


def clear(r, o, **kw):
    return IscwsaClearance(r, o, minimize_sf=False, **kw)


def rule(ctx):
    kind, model, r, o, p, a, b = make(ctx)
    with Watch(ctx, "IscwsaClearance", reference=r, offset=o):
        c = clear(r, o, **p)
    n = len(r.md)
    rp, op = np.column_stack([r.n, r.e, r.tvd]), np.asarray(c.off_nevs)
    d = op - rp
    D = np.linalg.norm(d, axis=1)
    live = D > 1e-6
    u = d / np.where(live, D, 1)[:, None]
    # where on the offset well is the closest point?
    omd = np.asarray(c.off.md)
    i = np.clip(np.searchsorted(o.md, omd, side="right") - 1, 0, len(o.md) - 2)
    f = np.clip((omd - o.md[i]) / (o.md[i + 1] - o.md[i]), 0, 1)[:, None, None]
    oc = o.cov_nev[i] * (1 - f) + o.cov_nev[i + 1] * f
    sc = float(np.abs(oc).max() + np.abs(r.cov_nev).max()) + 1e-12
    ctx.close(np.asarray(c.off_cov_nev).reshape(-1, 3, 3), oc, "offset-covariance", rtol=1e-5, atol=1e-7, scale=sc)
    sr = np.sqrt(np.maximum(np.einsum("ni,nij,nj->n", u, r.cov_nev, u), 0))
    so = np.sqrt(np.maximum(np.einsum("ni,nij,nj->n", u, oc, u), 0))
    s1 = np.sqrt(sc)
    ctx.close(np.asarray(c.ref_pcr)[live], sr[live], "reference-sigma", rtol=1e-6, atol=1e-6, scale=s1 * 1e-3)
    ctx.close(np.asarray(c.off_pcr)[live], so[live], "offset-sigma", rtol=1e-4, atol=1e-5, scale=s1 * 1e-2)
    ctx.close(c.sigmaS, np.hypot(c.ref_pcr, c.off_pcr), "combined-sigma", rtol=1e-9, atol=1e-12)
    eou = p["k"] * np.sqrt(sr ** 2 + so ** 2 + p["sigma_pa"] ** 2)
    ctx.close(np.asarray(c.eou_boundary)[live], eou[live], "eou-boundary", rtol=1e-4, atol=1e-5)
    # radii
    rr, ro = np.asarray(r.radius), np.asarray(o.radius)
    got = np.asarray(c.calc_hole)
    lo, hi = rr + np.minimum(ro[i], ro[i + 1]), rr + np.maximum(ro[i], ro[i + 1])
    near = np.argmin(np.linalg.norm(np.column_stack([o.n, o.e, o.tvd])[None] - rp[:, None], axis=2), axis=1)
    ok = ((got >= lo - 1e-9) & (got <= hi + 1e-9)) | (np.abs(got - rr - ro[near]) < 1e-9)
    # at a station shared by two intervals either neighbour will do
    at0 = (f.ravel() < 1e-6) & (i > 0)
    im = np.maximum(i - 1, 0)
    ok |= at0 & (got >= rr + np.minimum(ro[im], lo - rr) - 1e-9) & (got <= rr + np.maximum(ro[im], hi - rr) + 1e-9)
    ctx.check(ok.all(), "hole-radii", at=int(np.argmin(ok)), got=got, lo=lo, hi=hi)
    ctx.close(c.wellbore_separation, D - got - p["Sm"], "wellbore-separation", rtol=1e-9, atol=1e-9)
    eb = np.asarray(c.eou_boundary)
    ctx.close(c.sf, (D - got - p["Sm"]) / eb, "separation-factor", rtol=1e-9, atol=1e-9)
    ctx.close(c.masd, eb + got + p["Sm"], "masd", rtol=1e-9, atol=1e-9)
    ctx.close(c.eou_separation, D - got - p["Sm"] - eb, "eou-separation", rtol=1e-9, atol=1e-9)
    ctx.check(np.all(np.isfinite(c.sf)), "sf-finite")
    # the two readings of the rule agree
    ctx.check(np.all((np.asarray(c.sf) < 1) == (D < np.asarray(c.masd)))
              or np.any(np.abs(np.asarray(c.sf) - 1) < 1e-9), "masd-vs-sf")
    ctx.close(c.ref_cov_nev, r.cov_nev, "ref-cov", rtol=1e-12, atol=0)
    ctx.event("stations", n)
    ctx.key(kind.split("@")[0], model, p["k"], p["Sm"], "touching" if (np.asarray(c.sf) < 0).any() else "apart")


def turn_together(ctx):
    """Moving and turning both wells together changes no separation."""
    rng = ctx.rng
    kind, a, b = wells.pair(rng)
    rot, shift = float(rng.uniform(10, 350)), np.array([*rng.uniform(-5e3, 5e3, 2), float(rng.uniform(0, 50))])
    ca, cb = wells.grow_cov(rng, len(a[0])), wells.grow_cov(rng, len(b[0]))
    c_, s_ = np.cos(np.radians(rot)), np.sin(np.radians(rot))
    R = np.array([[c_, -s_, 0], [s_, c_, 0], [0, 0, 1]])
    p = params(rng)
    ctx.case = dict(kind=kind, a=a, b=b, rot=rot, shift=shift, **p)

    def moved(w):
        return (w[0], w[1], (w[2] + rot) % 360, R @ w[3] + shift)
    x = clear(wells.survey(rng, a, cov=ca), wells.survey(rng, b, cov=cb), **p)
    y = clear(wells.survey(rng, moved(a), cov=R @ ca @ R.T), wells.survey(rng, moved(b), cov=R @ cb @ R.T), **p)
    D = np.asarray(x.distance_cc)
    ok = D > .5
    ctx.close(y.distance_cc, D, "turned-distance", rtol=1e-5, atol=2e-3)
    # a tie between two closest points can resolve either way
    same = ok & (np.abs(np.asarray(x.off.md) - np.asarray(y.off.md)) < .5)
    ctx.close(np.asarray(y.sf)[same], np.asarray(x.sf)[same], "turned-sf", rtol=1e-2, atol=1e-2)
    ctx.close(np.asarray(y.masd)[same], np.asarray(x.masd)[same], "turned-masd", rtol=1e-2, atol=1e-2)
    ctx.event("same-closest-point", same.sum())
    ctx.key(kind.split("@")[0])


def sensitivity(ctx):
    rng = ctx.rng
    kind, model, r, o, p, a, b = make(ctx)
    c = clear(r, o, **p)
    q = dict(p)
    which = ["k", "sigma_pa", "Sm", "cov", "radius"][ctx.index % 5]
    r2, o2 = r, o
    if which in q:
        q[which] = p[which] + float(rng.uniform(.05, 1.0))
        d = clear(r, o, **q)
    elif which == "cov":
        f = float(rng.uniform(1.1, 5))
        k1 = dict(md=r.md, inc=r.inc_rad, azi=r.azi_grid_rad, deg=False, header=gen.header(), radius=r.radius,
                  start_nev=[r.n[0], r.e[0], r.tvd[0]], start_xyz=[r.e[0], r.n[0], r.tvd[0]])
        c = clear(we.survey.Survey(cov_nev=r.cov_nev, **k1), o, **p)
        d = clear(we.survey.Survey(cov_nev=r.cov_nev * f, **k1), o, **p)
    else:
        k1 = dict(md=r.md, inc=r.inc_rad, azi=r.azi_grid_rad, deg=False, header=gen.header(), cov_nev=r.cov_nev,
                  start_nev=[r.n[0], r.e[0], r.tvd[0]], start_xyz=[r.e[0], r.n[0], r.tvd[0]])
        c = clear(we.survey.Survey(radius=r.radius, **k1), o, **p)
        d = clear(we.survey.Survey(radius=r.radius + .2, **k1), o, **p)
    s0, s1 = np.asarray(c.sf), np.asarray(d.sf)
    ctx.close(d.distance_cc, c.distance_cc, "distance-depends-on:" + which, rtol=1e-9, atol=1e-9)
    ctx.check(np.all(np.asarray(d.masd) >= np.asarray(c.masd) - 1e-9), "masd-falls-with:" + which)
    pos = s0 > 1e-6
    ctx.check(np.all(s1[pos] <= s0[pos] + 1e-9), "sf-rises-with:" + which)
    if which == "k":
        ctx.close(s1 * q["k"], s0 * p["k"], "sf-times-k", rtol=1e-9, atol=1e-9)
    if which == "Sm":
        ctx.close((s0 - s1) * np.asarray(c.eou_boundary), q["Sm"] - p["Sm"], "Sm-margin", rtol=1e-7, atol=1e-9)
    if which == "radius":
        ctx.close((s0 - s1) * np.asarray(c.eou_boundary), .2, "radius-margin", rtol=1e-7, atol=1e-9)
    ctx.key(which, kind.split("@")[0])


def radius_arguments(ctx):
    """Fixed probe: Rr and Ro for wells that have no radius of their own."""
    md = np.arange(0, 301, 30.)
    z = np.zeros(11)
    kw = dict(md=md, inc=z, azi=z, header=gen.header(), cov_nev=np.tile(np.eye(3), (11, 1, 1)))
    r = we.survey.Survey(**kw)
    o = we.survey.Survey(start_nev=[20., 0., 0.], start_xyz=[0., 20., 0.], **kw)
    c = clear(r, o, Rr=1.0, Ro=2.0)
    ctx.close(c.calc_hole, 3.0, "radius-arguments-ignored", rtol=1e-9)
    ctx.key("probe")


SCENARIOS = [
    Scenario("rule", rule, 160, 3000),
    Scenario("turn_together", turn_together, 80, 1500),
    Scenario("sensitivity", sensitivity, 80, 1500),
    Scenario("radius_arguments", radius_arguments, 1, 1),
]
