"""P07  Frame transforms (NEV, XYZ, HLA) and covariance algebra."""
from vmon import gen, ref
from vmon.core import Scenario
from vmon.env import np, we
from vmon.purity import Watch

META = dict(
    title='Frame transforms and covariance algebra are exact',
    statement=('Vectors and covariances taken between north-east-vertical, x-y-z and high '
               'side-lateral-along-hole frames are those of orthonormal axes built from the '
               'attitude, and every round trip is the identity. A survey given a covariance in one '
               'frame reports the equivalent in the other at each station, stays symmetric and '
               'positive semi-definite, and adds a start covariance once to every station.'),
    over=['inputs'],
    quantifier='all attitudes, batches, and covariances (general, singular, tiny, huge, correlated), in every supported call form',
    why='Tests cover a handful of vectors; rank-deficient covariances, batch forms and correlated off-diagonals need quantification.',
    files=['welleng/utils.py', 'welleng/survey.py'],
    mechanism=[('transforms', 'welleng/utils.py:NEV_to_HLA, HLA_to_NEV, get_nev, get_xyz'),
 ('survey covariances', 'welleng/survey.py:Survey._make_cov, start_cov_nev')],
)

PROPERTY, LEVEL = "P07", "exploration"
RULE = ("a case is a batch of attitudes with vectors and covariances (general, singular, tiny, "
        "huge, correlated); each transform is compared with explicit axes built from the "
        "attitude; classes are (batch size, covariance kind, attitude regime, call form)")
U = we.utils


def attitudes(rng, n):
    inc = rng.uniform(0, np.pi, n)
    azi = rng.uniform(-np.pi, 3 * np.pi, n)
    m = rng.random(n)
    inc[m < .15] = 0.0
    inc[(m > .15) & (m < .25)] = np.pi / 2
    azi[(m > .5) & (m < .6)] = 0.0
    azi[(m > .6) & (m < .65)] = 2 * np.pi
    return inc, azi


def covs(rng, n):
    kind = str(rng.choice(["psd", "rank1", "tiny", "huge", "zero", "corr"]))
    c = np.array([gen.psd(rng) for _ in range(n)])
    if kind == "rank1":
        v = rng.normal(size=(n, 3))
        c = v[:, :, None] * v[:, None, :]
    elif kind == "tiny":
        c *= 1e-12
    elif kind == "huge":
        c *= 1e12
    elif kind == "zero":
        c *= 0
    elif kind == "corr":
        s = rng.uniform(.1, 10, (n, 3))
        r = 1 - 1e-6
        c = s[:, :, None] * s[:, None, :] * (np.eye(3) * (1 - r) + r)
    return kind, c


def frames(ctx):
    rng = ctx.rng
    n = int(rng.choice([1, 2, 3, 4, 6, 7, 9, 40]))
    inc, azi = attitudes(rng, n)
    kind, c = covs(rng, n)
    sv = np.column_stack([np.arange(n) * 30.0, inc, azi])
    A = ref.hla_axes(inc, azi)
    ctx.case = dict(n=n, inc=inc, azi=azi, cov=kind)
    sc = float(np.abs(c).max())
    tr = U.get_transform(sv)
    ctx.close(tr, A, "transform-axes", rtol=0, atol=1e-12)
    with Watch(ctx, "NEV_to_HLA", survey=sv, cov=c):
        hla = U.NEV_to_HLA(sv, c)
    ctx.close(hla, A @ c @ A.transpose(0, 2, 1), "cov-nev-to-hla", rtol=1e-9, scale=sc, atol=0)
    with Watch(ctx, "HLA_to_NEV", survey=sv, cov=hla):
        back = U.HLA_to_NEV(sv, hla)
    ctx.close(back, c, "cov-round-trip", rtol=1e-9, scale=sc, atol=0)
    ctx.close(U.HLA_to_NEV(sv, c), A.transpose(0, 2, 1) @ c @ A, "cov-hla-to-nev", rtol=1e-9, scale=sc, atol=0)
    # invariants of a rotation
    ctx.close(np.trace(hla, axis1=1, axis2=2), np.trace(c, axis1=1, axis2=2), "trace", rtol=1e-9, scale=sc, atol=0)
    ctx.close(np.linalg.eigvalsh(hla), np.linalg.eigvalsh(c), "eigenvalues", rtol=1e-9, scale=sc, atol=0)
    # vectors
    v = rng.normal(size=(n, 3)) * float(rng.choice([1, 1e4]))
    ctx.close(np.reshape(U.NEV_to_HLA(sv, v, cov=False), (n, 3)), np.einsum("nij,nj->ni", A, v),
              "vec-nev-to-hla", rtol=1e-9, scale=float(np.abs(v).max()))
    w = U.HLA_to_NEV(sv, v, cov=False)
    ctx.close(w, np.einsum("nji,nj->ni", A, v), "vec-hla-to-nev", rtol=1e-9, scale=float(np.abs(v).max()))
    ctx.close(np.linalg.norm(w, axis=1), np.linalg.norm(v, axis=1), "vec-length", rtol=1e-9)
    # reported sigmas and elements
    sg = np.array(U.get_sigmas(c)).T
    ctx.close(sg, np.sqrt(c[:, [0, 1, 2], [0, 1, 2]]), "sigmas", rtol=1e-12, atol=0)
    lg = np.array(U.get_sigmas(c, long=True)).T
    ctx.close(lg, c[:, [0, 1, 2, 0, 0, 1], [0, 1, 2, 1, 2, 2]], "sigmas-long", rtol=1e-12, atol=0)
    el = U.errors_from_cov(c)
    ctx.close(el, c[:, [0, 0, 0, 1, 1, 2], [0, 1, 2, 1, 2, 2]], "errors_from_cov", rtol=1e-12, atol=0)
    d = U.errors_from_cov(c, data=True)
    ctx.close([[d[i][k] for k in ("nn", "ne", "nv", "ee", "ev", "vv")] for i in range(n)], el, "errors_from_cov-data")
    ctx.close(U.make_long_cov(el), c, "make_long_cov", rtol=1e-12, atol=0)
    ctx.close(U.cov_from_vec(v), v[:, :, None] * v[:, None, :], "cov_from_vec", rtol=1e-12, scale=1.0)
    a, b, e = np.abs(v).T
    m = U.make_cov(a, b, e)
    ctx.close(m, np.einsum("ni,ij->nij", np.abs(v) ** 2, np.eye(3)), "make_cov", rtol=1e-12)
    m = U.make_cov(*v.T, long=True)
    ctx.close(m, v[:, :, None] * v[:, None, :], "make_cov-long", rtol=1e-12, scale=1.0)
    ctx.key(n, kind, int((inc == 0).any()), int((inc == np.pi / 2).any()))


def coords(ctx):
    rng = ctx.rng
    n = int(rng.choice([1, 2, 3, 4, 6, 30]))
    p = rng.normal(0, 10 ** rng.uniform(0, 6), (n, 3))
    sx, sn = rng.normal(0, 1000, 3), rng.normal(0, 1000, 3)
    ctx.case = dict(n=n, p=p[:3], sx=sx, sn=sn)
    with Watch(ctx, "get_nev", p=p, sx=sx, sn=sn):
        nev = U.get_nev(p, start_xyz=sx, start_nev=sn)
    ctx.close(nev, (p - sx)[:, [1, 0, 2]] + sn, "get_nev", rtol=1e-12, scale=float(np.abs(p).max() + 3000))
    with Watch(ctx, "get_xyz", p=nev, sx=sx, sn=sn):
        xyz = U.get_xyz(nev, start_xyz=sx, start_nev=sn)
    ctx.close(U.get_nev(p), p[:, [1, 0, 2]], "get_nev-origin", rtol=1e-12, atol=0)
    ctx.close(U.get_xyz(p), p[:, [1, 0, 2]], "get_xyz-origin", rtol=1e-12, atol=0)
    ctx.close(xyz, p, "nev-xyz-round-trip", rtol=1e-10, scale=float(np.abs(p).max() + 3000))
    # attitude <-> vector
    inc, azi = attitudes(rng, n)
    t = ref.tangent(inc, azi)
    ctx.close(U.get_vec(inc, azi, nev=True, deg=False), t, "get_vec", rtol=0, atol=1e-12)
    ctx.close(U.get_vec(np.degrees(inc), np.degrees(azi), nev=False), t[:, [1, 0, 2]], "get_vec-deg-xyz", rtol=0, atol=1e-12)
    k = rng.uniform(.1, 50, (n, 1))
    a = U.get_angles(t * k, nev=True)
    b = U.get_angles((t * k)[:, [1, 0, 2]])
    for g in (a, b):
        ctx.close(g[:, 0], inc, "angles-inc", rtol=0, atol=1e-7)
        ok = np.sin(inc) > 1e-6
        ctx.close(ref.wrap(g[:, 1] - azi)[ok], 0.0, "angles-azi", rtol=0, atol=1e-8)
        ctx.check(np.all((g[:, 1] >= 0) & (g[:, 1] <= 2 * np.pi)), "angles-range")
    ctx.close(U.get_unit_vec(t[0] * 17.0), t[0], "unit-vec", rtol=0, atol=1e-12)
    # the dogleg of two attitudes is the angle between their tangents
    i2, a2 = attitudes(rng, n)
    small = rng.random(n) < .4
    i2 = np.where(small, np.clip(inc + rng.normal(0, 1e-5, n), 0, np.pi), i2)
    a2 = np.where(small, azi + rng.normal(0, 1e-5, n), a2)
    D = ref.angle(t, ref.tangent(i2, a2))
    d = U.get_dogleg(inc, azi, i2, a2)
    ok = D < np.pi - 1e-3
    ctx.close(d[ok], D[ok], "dogleg", rtol=1e-9, atol=1e-13)
    for j in np.where(ok)[0][:6]:
        ctx.close(float(U.get_dogleg(inc[j], azi[j], i2[j], a2[j])), D[j], "dogleg-scalar", rtol=1e-9, atol=1e-13)
        L = float(rng.uniform(1, 500))
        want = ref.arc_step(t[j], ref.tangent(i2[j], a2[j]), L)
        got = np.asarray(U.min_curve_step(L, inc[j], azi[j], i2[j], a2[j]))
        ctx.close(got.reshape(3), want, "min_curve_step", rtol=0, atol=1e-7 * L)
    ctx.key("coords", n, int(small.any()))


def survey_cov(ctx):
    """A Survey given one covariance frame reports the other consistently."""
    rng = ctx.rng
    kind, md, inc, azi = gen.traj(rng)
    h = gen.header(rng)
    c = np.array([gen.psd(rng) for _ in md])
    given = str(rng.choice(["nev", "hla"]))
    start = gen.psd(rng) if rng.random() < .5 else None
    ctx.case = dict(kind=kind, md=md, inc=inc, azi=azi, given=given, start=start is not None)
    kw = {f"cov_{given}": c.copy()}
    sc = None if start is None else start.copy()
    with Watch(ctx, "Survey", cov=kw[f"cov_{given}"], header=h, start=sc):
        s = we.survey.Survey(md=md, inc=inc, azi=azi, header=h, start_cov_nev=sc, **kw)
    A = ref.hla_axes(s.inc_rad, s.azi_grid_rad)
    nev = c if given == "nev" else A.transpose(0, 2, 1) @ c @ A
    if start is not None:
        nev = nev + start
    ctx.close(s.cov_nev, nev, "survey-cov-nev", rtol=1e-9, scale=1.0)
    ctx.close(s.cov_hla, A @ nev @ A.transpose(0, 2, 1), "survey-cov-hla", rtol=1e-9, scale=1.0)
    ctx.key("survey", kind, given, start is not None, h.azi_reference)


SCENARIOS = [
    Scenario("frames", frames, 300, 8000),
    Scenario("coords", coords, 300, 8000),
    Scenario("survey_cov", survey_cov, 150, 3000),
]
