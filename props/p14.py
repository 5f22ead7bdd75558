"""P14  Minimised separation factors, and sidetracks measured from their kick-off point."""
from vmon import gen, ref, wells
from vmon.core import Scenario, Skip
from vmon.env import np, we
from vmon.purity import Watch
from welleng.clearance import IscwsaClearance

META = dict(
    title='Separation minima between stations and sidetracks from the kick-off point',
    statement=('With minimize_sf the clearance scan keeps every value it reports at the surveyed '
               'stations and only adds interpolated (and so flagged) stations on the same path, '
               'as critical as a dense scan between the neighbouring stations finds wherever that has '
               'a single minimum; the caller\'s surveys are unchanged. With '
               'kop_depth only stations from the kick-off point on are compared, '
               'and the reference covariance is what accrued since the kick-off point, '
               'in the survey\'s own frame.'),
    over=['inputs', 'configurations'],
    quantifier='all pairs of wells, covariance sources, azimuth references, units, station spacings and kick-off depths',
    why='Tests run the minimiser on the ISCWSA example set only, and never compare the stations before and after, nor sample between stations.',
    files=['welleng/clearance.py'],
    mechanism=[('minimum search', 'welleng/clearance.py:IscwsaClearance.get_sf_mins'),
               ('objective', 'welleng/clearance.py:IscwsaClearance._get_sf_min'),
               ('covariance below the kick-off point', 'welleng/clearance.py:Clearance._get_ref_cov_below_kop')],
)

PROPERTY, LEVEL = "P14", "exploration"
RULE = ("a case is one pair of wells scanned with and without the minimiser or kick-off depth; classes "
        "are (kind of pair, unit, azimuth reference, number of inserted stations)")
ASSUMPTIONS = ["the minimiser searches without the surface margin, so a dense scan may beat it by Sm/eou",
               "optimality between stations is only required where the dense scan has a single minimum"]
PER_STATION = ["distance_cc", "sf", "masd", "eou_boundary", "wellbore_separation", "ref_pcr", "off_pcr",
               "calc_hole", "eou_separation"]


def make(ctx, kinds, unit="meters", aref=None, model="cov"):
    rng = ctx.rng
    kind, a, b = wells.pair(rng, str(rng.choice(kinds)))
    aref = aref or str(rng.choice(["grid", "true"]))
    conv = float(rng.choice([0., 2., -3.]))
    f = 1 if unit == "meters" else 1 / .3048
    h = gen.header(azi_reference=aref, convergence=conv, depth_unit=unit, surface_unit=unit)
    rad = float(rng.choice([.1, .3048]))

    def mk(w):
        w = (w[0] * f, w[1], w[2], np.asarray(w[3]) * f)
        if model == "cov":
            return wells.survey(rng, w, cov=wells.grow_cov(rng, len(w[0])) * f * f, hdr=h, radius=rad * f, unit=unit)
        w = (w[0], np.minimum(w[1], 150), *w[2:])
        return wells.survey(rng, w, model=model, hdr=h, radius=rad * f, unit=unit)
    r, o = mk(a), mk(b)
    p = dict(k=float(rng.choice([3.5, 2.])), sigma_pa=.5 * f, Sm=float(rng.choice([.3, 0.])) * f)
    ctx.case = dict(kind=kind, a=a, b=b, unit=unit, aref=aref, conv=conv, model=model, **p)
    return kind, r, o, p


def nevs(s):
    return np.column_stack([s.n, s.e, s.tvd])


def curve(s):
    """The path through a survey's own stations, with its own attitudes."""
    c = wells.Curve(s.md, s.inc_rad, s.azi_grid_rad, (s.n[0], s.e[0], s.tvd[0]))
    return c


def lerp(s, md):
    i = np.clip(np.searchsorted(s.md, md, side="right") - 1, 0, len(s.md) - 2)
    f = np.clip((md - s.md[i]) / (s.md[i + 1] - s.md[i]), 0, 1)[:, None, None]
    return s.cov_nev[i] * (1 - f) + s.cov_nev[i + 1] * f


def dense(cr, co, r, o, p, md, hole):
    q = cr.at_md(md)
    D, omd = co.closest(q, 17)
    u = co.at_md(omd) - q
    live = D > 1e-6
    u = u / np.where(live, D, 1)[:, None]
    rc, oc = lerp(r, md), lerp(o, omd)
    s2 = np.einsum("ni,nij,nj->n", u, rc + oc, u)
    eou = p["k"] * np.sqrt(s2 + p["sigma_pa"] ** 2)
    return (D - hole - p["Sm"]) / eou, eou, D, omd


def minimise(ctx):
    rng = ctx.rng
    unit = str(rng.choice(["meters", "meters", "feet"]))
    kind, r, o, p = make(ctx, ["crossing", "crossing", "parallel", "sparse", "relief", "pad", "random", "uturn"], unit,
                         model=str(rng.choice(["cov", "cov", "ISCWSA MWD Rev5.11"])) if unit == "meters" else "cov")
    c0 = IscwsaClearance(r, o, minimize_sf=False, **p)
    with Watch(ctx, "minimize_sf", reference=r, offset=o):
        c1 = IscwsaClearance(r, o, **p)
    m0, m1 = np.asarray(c0.ref.md), np.asarray(c1.ref.md)
    ctx.check(np.all(np.diff(m1) > 0), "stations-not-increasing", md=m1)
    pos = np.searchsorted(m1, m0)
    if not ctx.check(len(m1) >= len(m0) and np.all(pos < len(m1)) and np.all(m1[np.minimum(pos, len(m1) - 1)] == m0),
                     "stations-lost", before=m0, after=m1):
        return
    for a in PER_STATION:
        v0, v1 = np.asarray(getattr(c0, a), float), np.asarray(getattr(c1, a), float)
        if not ctx.check(len(v1) == len(m1), "per-station-length:" + a, n=len(v1), want=len(m1)):
            return
        ctx.close(v1[pos], v0, "station-value-changed:" + a, rtol=1e-4, atol=1e-4)
    ctx.close(c1.ref.inc_deg[pos], r.inc_deg, "station-changed:inc", rtol=1e-9, atol=1e-7)
    da = (c1.ref.azi_grid_deg[pos] - r.azi_grid_deg + 180) % 360 - 180
    ctx.close(da * np.sin(r.inc_rad), 0, "station-changed:azi", atol=1e-7)
    ctx.close(nevs(c1.ref)[pos], nevs(r), "station-changed:nev", rtol=1e-9, atol=1e-5)
    ctx.close(c1.ref.cov_nev[pos], r.cov_nev, "station-changed:cov", rtol=1e-9, atol=1e-12)
    ctx.check(c1.ref.unit == r.unit, "unit-changed", got=c1.ref.unit, want=r.unit)
    new = np.setdiff1d(np.arange(len(m1)), pos)
    flag = np.zeros(len(m1), bool)
    flag[new] = True
    ctx.check(np.array_equal(np.asarray(c1.ref.interpolated, bool), flag), "interpolated-flags",
              got=c1.ref.interpolated, want=flag)
    cr, co = curve(r), curve(o)
    if np.abs(cr.p - nevs(r)).max() > 1e-4 or np.abs(co.p - nevs(o)).max() > 1e-4:
        ctx.fail("path-differs-from-minimum-curvature")
        return
    hole = float(r.radius[0] + o.radius[0])
    if len(new):
        ctx.close(nevs(c1.ref)[new], cr.at_md(m1[new]), "inserted-off-path", rtol=1e-9, atol=1e-4)
        ctx.close(c1.ref.cov_nev[new], lerp(r, m1[new]), "inserted-covariance", rtol=1e-6, atol=1e-9)
        g, _, D, omd = dense(cr, co, r, o, p, m1[new], hole)
        far = D > .5
        ctx.close(np.asarray(c1.distance_cc)[new][far], D[far], "inserted-distance", rtol=1e-4, atol=2e-3)
        # between two equally close points either will do
        far &= np.abs(np.asarray(c1.off.md)[new] - omd) < 1
        ctx.close(np.asarray(c1.sf)[new][far], g[far], "inserted-sf", rtol=2e-2, atol=2e-2)
        ctx.event("inserted", len(new))
    sf0, sf1 = np.asarray(c0.sf), np.asarray(c1.sf)
    mins = [i for i in range(1, len(m0) - 1) if sf0[i] < sf0[i - 1] and sf0[i] < sf0[i + 1]]
    owned = {}
    for j in new:
        k = [i for i in mins if m0[i - 1] < m1[j] < m0[i + 1]]
        if not ctx.check(k, "inserted-away-from-minima", md=m1[j], minima=m0[mins]):
            continue
        owned.setdefault(k[0], []).append(j)
    ctx.event("local-minima", len(mins))
    for i in sorted(mins, key=lambda i: i not in owned)[:4]:
        md = np.linspace(m0[i - 1], m0[i + 1], 41)
        g, eou, D, omd = dense(cr, co, r, o, p, md, hole)
        if np.any(np.abs(np.diff(omd)) > 4 * np.diff(md)):
            # the closest point jumps from one part of the offset well to another
            ctx.event("closest-point-jumps")
            continue
        d = np.sign(np.diff(g))
        if (np.diff(d) != 0).sum() != 1 or D.min() < 1:
            ctx.event("not-unimodal")
            continue
        for j in owned.get(i, []):
            ctx.event("inserted-vs-station")
            ctx.check(sf1[j] <= sf0[i] + .01 + 2e-3 * abs(sf1[j]), "inserted-less-critical",
                      md=m1[j], sf=sf1[j], station=sf0[i])
        got = sf1[(m1 >= m0[i - 1]) & (m1 <= m0[i + 1])].min()
        ctx.event("optimality")
        ctx.check(got <= g.min() + p["Sm"] / eou.min() + .02 * max(1, abs(g.min())), "minimum-missed",
                  span=[m0[i - 1], m0[i + 1]], got=got, dense=g.min(), station=sf0[i])
    ctx.key(kind.split("@")[0], unit, ctx.case["aref"], min(len(new), 3))


def kop(ctx):
    rng = ctx.rng
    model = ["ISCWSA MWD Rev5.11", "ISCWSA MWD Rev4", "cov", "ISCWSA MWD Rev4", "A008Gc_MWD+SRGM"][ctx.index % 5]
    if model.startswith("A008"):
        model = "MWD+SRGM"
    kind, r, o, p = make(ctx, ["sidetrack", "pad", "crossing"], model=model)
    n = len(r.md)
    ki = int(rng.integers(1, n - 1))
    depth = float(r.md[ki] - (rng.uniform(.1, .9) * (r.md[ki] - r.md[ki - 1]) if rng.random() < .5 else 0))
    with Watch(ctx, "kop_depth", reference=r, offset=o):
        c = IscwsaClearance(r, o, minimize_sf=False, kop_depth=depth, **p)
    s = c.ref
    if not ctx.check(len(s.md) == n - ki, "kop-stations", got=s.md, want=r.md[ki:]):
        return
    for a in ("md", "n", "e", "tvd", "inc_deg", "radius", "x", "y", "z"):
        ctx.close(getattr(s, a), np.asarray(getattr(r, a))[ki:], "kop-station:" + a, rtol=1e-9, atol=1e-7)
    da = (s.azi_grid_deg - r.azi_grid_deg[ki:] + 180) % 360 - 180
    ctx.close(da * np.sin(s.inc_rad), 0, "kop-station:azi_grid", atol=1e-7)
    got = np.asarray(s.cov_nev)
    if model == "cov":
        want = r.cov_nev[ki:]
    else:
        want = np.zeros((n - ki, 3, 3))
        for e in r.err.errors.errors.values():
            dia = np.asarray(e.e_DIA, float)
            depth_only = dia.ndim == 2 and np.all(np.abs(dia[:, 1:]) < 1e-10) and np.any(np.abs(dia[:, 0]) > 1e-10)
            if e.propagation == "random":
                cv = np.asarray(e.cov_NEV, float).reshape(n, 3, 3)
                d = cv[ki:] - (0 if depth_only else cv[ki])
                if depth_only:
                    d = d.copy()
                    d[0] = 0
            else:
                sg = np.asarray(e.sigma_e_NEV, float).reshape(n, 3)
                v = sg[ki:] - (0 if depth_only else sg[ki])
                if depth_only:
                    v = v.copy()
                    v[0] = 0
                d = v[:, :, None] * v[:, None, :]
            want += d
        g = r.header.convergence
        R = np.array([[np.cos(g), np.sin(g), 0], [-np.sin(g), np.cos(g), 0], [0, 0, 1]])
        want = R @ want @ R.T
        ctx.close(got[0], 0, "uncertain-at-kop", atol=1e-12)
        # accrued variance: nothing negative
        w = np.linalg.eigvalsh((got + np.swapaxes(got, 1, 2)) / 2)
        ctx.check(np.all(w >= -1e-9 * (1 + np.abs(w).max())), "kop-covariance-indefinite", least=w.min())
    ctx.close(got, want, "kop-covariance", rtol=1e-8, atol=1e-9, scale=float(np.abs(want).max()))
    # hla is the same covariance seen along hole
    T = ref.hla_axes(s.inc_rad, s.azi_grid_rad)
    ctx.close(s.cov_hla, T @ want @ np.swapaxes(T, 1, 2), "kop-covariance-hla", rtol=1e-7, atol=1e-9,
              scale=float(np.abs(want).max()))
    # the rule itself, from the kick-off point on
    c0 = IscwsaClearance(r, o, minimize_sf=False, **p)
    ctx.close(c.distance_cc, np.asarray(c0.distance_cc)[ki:], "kop-distance", rtol=1e-7, atol=1e-6)
    u = np.asarray(c.off_nevs) - nevs(s)
    D = np.linalg.norm(u, axis=1)
    live = D > 1e-3
    u = u / np.where(live, D, 1)[:, None]
    sr2 = np.einsum("ni,nij,nj->n", u, want, u)
    ctx.close(np.asarray(c.ref_pcr)[live] ** 2, sr2[live], "kop-reference-sigma", rtol=1e-6, atol=1e-8)
    eou = p["k"] * np.sqrt(sr2 + np.asarray(c.off_pcr) ** 2 + p["sigma_pa"] ** 2)
    ctx.close(np.asarray(c.sf)[live], ((D - c.calc_hole - p["Sm"]) / eou)[live], "kop-sf", rtol=1e-6, atol=1e-7)
    ctx.close(c.off_pcr, np.asarray(c0.off_pcr)[ki:], "kop-offset-sigma", rtol=1e-6, atol=1e-6)
    # and minimising from a kick-off point keeps the stations
    if ctx.index % 2 == 0:
        with Watch(ctx, "kop_depth+minimize", reference=r, offset=o):
            c2 = IscwsaClearance(r, o, kop_depth=depth, **p)
        m = np.asarray(c2.ref.md)
        j = np.searchsorted(m, s.md)
        if ctx.check(np.all(j < len(m)) and np.all(m[np.minimum(j, len(m) - 1)] == s.md), "kop-stations-lost"):
            ctx.close(np.asarray(c2.sf)[j], c.sf, "kop-minimised-sf", rtol=1e-4, atol=1e-4)
    ctx.key(kind.split("@")[0], model, ctx.case["aref"], "between" if depth < r.md[ki] else "at")


SCENARIOS = [
    Scenario("minimise", minimise, 128, 2500),
    Scenario("kop", kop, 60, 1500),
]
