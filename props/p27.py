"""P27  Utility geometry and conversions: toolfaces, arcs, radius/DLS, DMS, volumes."""
from vmon import gen, ref
from vmon.core import Scenario
from vmon.env import np, we
from vmon.purity import Watch

META = dict(
    title='Geometry and conversion helpers match their definitions',
    statement=('Toolface, arc, angle, radius/dogleg-severity, degree-minute-second and volume '
               'helpers return what their geometric definition or inverse says for every argument, '
               'including at quadrant boundaries, vertical attitudes, zero and negative angles, and '
               'never change their arguments.'),
    over=['inputs'],
    quantifier='all attitudes, unit vectors, doglegs, toolfaces, angles in (-360, 360) and pipe sizes',
    why='Tests give one or two examples for some helpers and none for others; the defects are at sign, rounding and quadrant boundaries.',
    files=['welleng/utils.py'],
    mechanism=[('toolface', 'welleng/utils.py:get_toolface, get_angles, get_vec'),
 ('arcs', 'welleng/utils.py:Arc, get_arc'),
 ('degrees', 'welleng/utils.py:decimal2dms, dms2decimal, dms_from_string')],
)

PROPERTY, LEVEL = "P27", "exploration"
RULE = ("a case draws one attitude/arc/angle set and compares every utility with a vector "
        "derivation or with its inverse; classes are (function group, regime)")
U = we.utils


def rand_vec(rng):
    m = rng.random()
    if m < .1:
        return np.array([0., 0., 1.])
    if m < .15:
        return np.array([1., 0., 0.])
    if m < .2:
        return np.array([0., -1., 0.])
    v = rng.normal(size=3)
    if m < .3:
        v[:2] *= 1e-3
        v[2] = abs(v[2]) + .1
    return v / np.linalg.norm(v)


def axes_of(v):
    inc, azi = ref.inc_azi(v)
    return ref.hla_axes(inc, azi)


def toolface(ctx):
    rng = ctx.rng
    n = int(rng.choice([1, 2, 20]))
    p1 = rng.normal(0, 1000, (n, 3))
    v1 = np.array([rand_vec(rng) for _ in range(n)])
    p2 = p1 + rng.normal(0, 10 ** rng.uniform(0, 3), (n, 3))
    ctx.case = dict(p1=p1[:2], v1=v1[:2], p2=p2[:2])
    want = []
    for i in range(n):
        A = axes_of(v1[i])
        d = p2[i] - p1[i]
        want.append(np.arctan2(d @ A[1], d @ A[0]))
    want = np.array(want)
    with Watch(ctx, "get_toolface", p1=p1, v1=v1, p2=p2):
        got = np.atleast_1d(U.get_toolface(p1, v1, p2))
    ctx.close(ref.wrap(got - want), 0.0, "toolface-batch", atol=1e-7)
    for i in range(min(n, 5)):
        with Watch(ctx, "get_toolface", p1=p1, v1=v1, p2=p2):
            a = U.get_toolface(p1[i], v1[i], p2[i])
            b = U.get_toolface_fast(p1[i], v1[i], p2[i])
        ctx.close(ref.wrap(a - want[i]), 0.0, "toolface-single", atol=1e-7)
        ctx.close(ref.wrap(b - want[i]), 0.0, "toolface-fast", atol=1e-7)
        ctx.check(0 <= a < 2 * np.pi + 1e-12 and 0 <= b < 2 * np.pi + 1e-12, "toolface-range", a=a, b=b)
    ctx.key("toolface", n)


def arc_ref(pos, vec, tf, dogleg, radius):
    """End of an arc by quadrature in the attitude's own axes."""
    A = axes_of(vec)
    d = np.cos(tf) * A[0] + np.sin(tf) * A[1]       # direction of bending
    x, w = ref.GLX, ref.GLW
    s = .5 * dogleg * (x + 1)
    tang = np.cos(s)[:, None] * vec + np.sin(s)[:, None] * d
    end = pos + radius * .5 * dogleg * (w[:, None] * tang).sum(axis=0)
    return end, np.cos(dogleg) * vec + np.sin(dogleg) * d


def arcs(ctx):
    rng = ctx.rng
    v = rand_vec(rng)
    pos = rng.normal(0, 1000, 3)
    tf = float(rng.uniform(-np.pi, 3 * np.pi))
    dog = float(rng.choice([rng.uniform(0.01, 3.1), 1e-4, np.pi / 2, rng.uniform(3.2, 6.2)]))
    r = float(10 ** rng.uniform(-1, 4))
    ctx.case = dict(v=v, pos=pos, tf=tf, dogleg=dog, r=r)
    end, tan = arc_ref(pos, v, tf, dog, r)
    with Watch(ctx, "get_arc", pos=pos, vec=v):
        p, t, L = U.get_arc(dog, r, tf, pos=pos, vec=v)
    sc = r + np.abs(pos).max()
    ctx.close(p, end, "arc-pos", rtol=0, atol=1e-9 * sc + 1e-8)
    ctx.close(t, tan, "arc-vec", rtol=0, atol=1e-8)
    ctx.close(L, dog * r, "arc-length", rtol=1e-12)
    # an arc arriving at a target: running it backwards from the target
    with Watch(ctx, "get_arc-target", pos=pos, vec=v):
        p, t, L = U.get_arc(dog, r, tf, pos=pos, vec=v, target=True)
    end, tan = arc_ref(pos, -v, tf, dog, r)
    ctx.close(p, end, "arc-target-pos", rtol=0, atol=1e-9 * sc + 1e-8)
    ctx.close(t, -tan, "arc-target-vec", rtol=0, atol=1e-8)
    # the arc and its own toolface agree
    if 0.01 < dog < 3:
        e2, _ = arc_ref(pos, v, tf, dog, r)
        ctx.close(ref.wrap(U.get_toolface(pos, v, e2) - tf), 0, "arc-toolface", atol=1e-5)
    d2, tf2 = float(rng.uniform(.05, 3)), float(rng.uniform(0, 6.28))
    hold = float(rng.uniform(0, 1000))
    with Watch(ctx, "make_clc_path", pos=pos, vec=v):
        k = U.make_clc_path(tf, dog, hold, tf2, d2, pos0=pos, vec0=v, radius=r)
    q = U.make_clc_path(tf, dog, hold, tf2, d2, pos0=pos.tolist(), vec0=tuple(v), radius=r)
    ctx.check(all(np.allclose(q[a], k[a], rtol=1e-12, atol=1e-12) for a in k), "clc-lists")
    if v[2] == 1:
        q = U.make_clc_path(tf, dog, hold, tf2, d2, radius=r)
        ctx.check(all(np.allclose(np.asarray(q[a]) + (pos if a[:3] == "pos" else 0), k[a], rtol=1e-9, atol=1e-6) for a in k), "clc-origin")
    a1, b1 = arc_ref(pos, v, tf, dog, r)
    b1 = b1 / np.linalg.norm(b1)
    a2 = a1 + b1 * hold
    sc += hold
    ctx.close(k["pos1"], a1, "clc-pos1", rtol=0, atol=1e-8 * sc + 1e-8)
    ctx.close(k["vec1"], b1, "clc-vec1", rtol=0, atol=1e-8)
    ctx.close(k["pos2"], a2, "clc-pos2", rtol=0, atol=1e-8 * sc + 1e-8)
    ctx.close(k["vec2"], b1, "clc-vec2", rtol=0, atol=1e-8)
    if np.hypot(*b1[:2]) > 1e-3:
        a3, b3 = arc_ref(a2, b1, tf2, d2, r)
        ctx.close(k["pos3"], a3, "clc-pos3", rtol=0, atol=1e-7 * sc + 1e-7)
        ctx.close(k["vec3"], b3, "clc-vec3", rtol=0, atol=1e-6)
    ctx.close([k["dist_curve1"], k["dist_curve2"]], [dog * r, d2 * r], "clc-lengths", rtol=1e-12)
    ctx.key("arcs", int(dog > np.pi), int(dog < 1e-3), int(abs(v[2]) == 1))


def scalars(ctx):
    rng = ctx.rng
    d = float(10 ** rng.uniform(-4, 2))
    r = float(U.radius_from_dls(d))
    ctx.case = dict(dls=d)
    # turning through one radian of an arc of radius r covers a length r
    ctx.close(r * np.radians(d) / 30.0, 1.0, "radius_from_dls", rtol=1e-12)
    ctx.close(U.dls_from_radius(r), d, "dls-radius-round-trip", rtol=1e-12)
    ar = np.append(10 ** rng.uniform(-3, 2, 6), 0.0)
    with Watch(ctx, "radius_from_dls", a=ar):
        got = U.radius_from_dls(ar)
    ctx.close(got[:-1], 30.0 / np.radians(ar[:-1]), "radius-array", rtol=1e-12)
    ctx.check(np.isinf(got[-1]) and np.isinf(U.radius_from_dls(0)), "radius-zero-dls")
    with Watch(ctx, "dls_from_radius", a=ar):
        got = U.dls_from_radius(ar)
    ctx.close(got[:-1], np.degrees(30.0 / ar[:-1]), "dls-array", rtol=1e-12)
    od, i, L = float(rng.uniform(.1, 1)), float(rng.uniform(0, .1)), float(rng.uniform(1, 1e4))
    ctx.close(U.annular_volume(od, i, L), np.pi * (od / 2) ** 2 * L - np.pi * (i / 2) ** 2 * L, "annular", rtol=1e-10)
    ctx.close(U.annular_volume(od), np.pi * od * od / 4, "annular-unit", rtol=1e-12)
    ctx.close(U.annular_volume(od, length=L), np.pi * od * od / 4 * L, "annular-cyl", rtol=1e-12)
    ctx.close(U.annular_volume(od, i, 0), 0, "annular-no-length", rtol=0, atol=0)
    ctx.close(U.annular_volume(od, od, L), 0, "annular-no-gap", rtol=0, atol=1e-9)
    q = U.annular_volume(od * we.units.ureg("inch"), i * we.units.ureg("inch"), L * we.units.ureg("foot"))
    ctx.close(q.to("meter**3").m, np.pi / 4 * (od ** 2 - i ** 2) * .0254 ** 2 * L * .3048, "annular-units", rtol=1e-9)
    x = [float(rng.normal()), None, float(rng.normal())]
    ctx.check(U.linear_convert(x, 2.5) == [x[0] * 2.5, None, x[2] * 2.5] and U.linear_convert(x[0], 3) == x[0] * 3
              and U.linear_convert(None, 3) is None, "linear_convert")
    ctx.key("scalars", int(np.log10(d)))


def dms(ctx):
    """Angles survive decimal -> d/m/s -> decimal, sign and carry included."""
    rng = ctx.rng
    m = rng.random()
    dec = float(rng.uniform(-180, 180))
    if m < .25:
        dec = float(rng.uniform(-1, 1))
    elif m < .5:
        dec = float(rng.integers(-179, 180)) + float(rng.choice([1e-9, -1e-9, 0.5, 1 / 60, 59 / 60, 0.0]))
    nd = rng.choice([None, 2, 4, 6, 8])
    dirn = str(rng.choice(["", "N", "S", "E", "W"]))
    ctx.case = dict(dec=dec, nd=nd, dirn=dirn)
    tol = 1e-10 if nd is None else 0.5 * 10.0 ** -nd / 3600 + 1e-10
    if dirn:
        t = U.decimal2dms((dec, dirn), ndigits=nd)
        ctx.check(t[3] == dirn, "dms-direction")
        back = U.dms2decimal(t)
        ctx.check(back[1] == dirn, "dms-direction-back")
        back = float(back[0])
    else:
        t = np.ravel(U.decimal2dms(dec, ndigits=nd))
        back = float(U.dms2decimal(t))
    deg, mn, sec = (float(x) for x in t[:3])
    ctx.close(back, dec, "dms-round-trip", rtol=0, atol=tol, dms=list(t))
    ctx.check(0 <= mn < 60 and mn == int(mn) and deg == int(deg), "dms-form", dms=list(t))
    ctx.check(0 <= sec < 60, "dms-seconds", dms=list(t))
    arr = np.round(rng.uniform(-179, 179, 4), 6)
    many = U.decimal2dms(arr, ndigits=8)
    ctx.close(U.dms2decimal(many), arr, "dms-array-round-trip", rtol=0, atol=1e-9)
    # latitude and longitude together
    pair = ((float(arr[0] / 2), "N"), (float(arr[1]), "E"))
    got = np.asarray(U.decimal2dms(pair, ndigits=8), dtype=object)
    if ctx.check(got.shape == (2, 4), "dms-pair-shape", got=got.shape):
        ctx.check(list(got[:, 3]) == ["N", "E"], "dms-pair-direction", dms=got.tolist())
        ctx.close([np.copysign(abs(float(q[0])) + q[1] / 60 + q[2] / 3600, float(q[0])) for q in got], [pair[0][0], pair[1][0]], "dms-pair", rtol=0, atol=1e-9)
        back = U.dms2decimal(got, ndigits=6)
        ctx.check(list(back[:, 1]) == ["N", "E"], "dms-pair-direction-back", back=back.tolist())
        ctx.close(back[:, 0].astype(float), [pair[0][0], pair[1][0]], "dms-pair-back", rtol=0, atol=.51e-6)
    # printed and read back
    tup = (int(rng.integers(-179, 180)), int(rng.integers(0, 60)), round(float(rng.uniform(0, 59.99)), 4))
    if dirn:
        tup = tup + (dirn,)
    for sym in (True, False):
        text = U.pprint_dms(tup, symbols=sym, return_data=True)
        got = U.dms_from_string(text)
        ctx.check(got is not None and tuple(got)[:len(tup)] == tup, "dms-text", text=text, got=got)
    ctx.key("dms", dirn, nd, "neg" if dec < 0 else "pos", "small" if abs(dec) < 1 else "big")


SCENARIOS = [
    Scenario("toolface", toolface, 250, 6000),
    Scenario("arcs", arcs, 300, 6000),
    Scenario("scalars", scalars, 60, 1000),
    Scenario("dms", dms, 300, 6000),
]
