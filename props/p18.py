"""P18  The batch curve-and-hold solver."""
from vmon import ref
from vmon.core import Scenario
from vmon.env import np, we
from vmon.purity import Watch
from props.p16 import UNIT_LEN, aim, ch_length, direction, perp_to

META = dict(
    title='The batch solver gives every element its own curve-and-hold',
    statement=('For every element of a batch, the batch curve-and-hold solver returns the shortest path '
               'that leaves the start position along the start direction on an arc of the given radius '
               'and then holds straight to the target: the reported end of curve lies on that arc, the '
               'reported direction is the tangent there and the direction of the hold, dogleg, arc and '
               'hold lengths and total length agree with the geometry, with each other and with the '
               'Connector for the same poses. An element does not depend on the others or on the shape '
               'of the batch; the radius may be one number or one per element; targets straight ahead '
               'are a pure hold; targets inside the turning circle, which no such path reaches, are '
               'reported as not-a-number and not as a path. The inputs are not changed.'),
    over=['inputs', 'configurations'],
    quantifier='all batch shapes (single, vectors, grids, empty), radii, start poses and targets except those exactly behind the start',
    why='The tests compare a few batches with the connector; both share the same helpers, so a wrong angle in them agrees with itself.',
    files=['welleng/connector.py'],
    mechanism=[('batch solve', 'welleng/connector.py:solve_curve_hold_batch'),
               ('geometry', 'welleng/connector.py:min_dist_to_target / get_vec_target / check_dogleg')],
)
PROPERTY, LEVEL = "P18", "exploration"
RULE = ("a case is one batch; every element is checked against closed-form geometry, a sample against "
        "the element alone and the Connector; distinct classes are (shape, radius kind, target kind, "
        "octant of the dogleg) tuples")
ASSUMPTIONS = ["targets exactly behind the start direction leave the plane of the turn undefined and are not generated",
               "targets within 1e-4 of the turning circle's edge are not generated"]


def element(rng, R):
    p1 = np.round(rng.normal(0, 1500, 3), 2)
    _, _, v1 = direction(rng)
    kind = str(rng.choice(["any", "any", "any", "ahead", "inside", "abeam", "nearly"]))
    for _ in range(50):
        if kind == "ahead":
            ang, D = 0.0, R * 10 ** rng.uniform(-1, 1.3)
        elif kind == "inside":
            ang = float(rng.uniform(.3, 2.8))
            D = 2 * R * np.sin(ang) * float(rng.uniform(.2, .98))
        elif kind == "abeam":
            a, b = float(rng.integers(-4, 9)) / 2 * R, 2 * R * (1 + float(rng.choice([0, 1e-12, -1e-9, 1e-7])))
            D, ang = float(np.hypot(a, b)), float(np.arctan2(b, a))
        elif kind == "nearly":
            ang, D = float(10 ** rng.uniform(-6.5, -1.5)), R * 10 ** rng.uniform(-.5, 1.3)
        else:
            ang, D = float(rng.uniform(.01, 3.1)), R * 10 ** rng.uniform(-1, 1.6)
        dp, dn = D * np.cos(ang), D * np.sin(ang)
        if ang == 0 or abs(np.hypot(dn - R, dp) / R - 1) > 1e-4:
            break
    lat = perp_to(rng, v1)
    return kind, p1, v1, p1 + dp * v1 + dn * lat, dp, dn, lat


def batch(ctx):
    rng = ctx.rng
    shape = [(), (1,), (int(rng.integers(2, 40)),), (3,), (int(rng.integers(1, 5)), int(rng.integers(1, 6))),
             (2, 1, 3), (0,), (4, 3)][int(rng.choice(8, p=[.2, .1, .3, .1, .1, .07, .03, .1]))]
    n = int(np.prod(shape))
    unit = str(rng.choice(["meters", "feet"]))
    dls = float(rng.choice([.5, 1., 2., 3., 5., 8.]))
    per = bool(rng.random() < .5)
    R = UNIT_LEN[unit] / np.radians(dls) * (rng.uniform(.5, 3, n) if per else np.ones(n))
    el = [element(rng, R[k]) for k in range(n)]
    P1 = np.array([e[1] for e in el]).reshape(shape + (3,))
    V1 = np.array([e[2] for e in el]).reshape(shape + (3,))
    T = np.array([e[3] for e in el]).reshape(shape + (3,))
    rad = R.reshape(shape) if per else (float(R[0]) if n else 500.0)
    args = [P1, V1, T]
    if rng.random() < .2:
        args = [a.tolist() if n else a for a in args]
    ctx.case = dict(shape=shape, dls=dls, unit=unit, radius=rad, kinds=[e[0] for e in el], pos1=P1, vec1=V1, target=T)
    with Watch(ctx, "batch", a=args, r=rad):
        r = we.connector.solve_curve_hold_batch(*args, rad)
    for k, tail in (("pos2", (3,)), ("vec_target", (3,)), ("tangent_length", ()), ("dogleg", ()), ("dist_curve", ()), ("md", ())):
        if not ctx.check(np.shape(r[k]) == shape + tail, "shape", of=k, got=list(np.shape(r[k])), want=list(shape + tail)):
            return
    flat = {k: np.asarray(r[k], float).reshape((n, 3) if k in ("pos2", "vec_target") else (n,)) for k in
            ("pos2", "vec_target", "tangent_length", "dogleg", "dist_curve", "md")}
    for k, (kind, p1, v1, t, dp, dn, lat) in enumerate(el):
        g = {q: x[k] for q, x in flat.items()}
        want = ch_length(R[k], dp, dn)
        D = np.hypot(dp, dn)
        info = dict(kind=kind, dp=dp / R[k], dn=dn / R[k], element=k)
        if want is None:
            ctx.check(np.isnan(g["md"]) and np.isnan(g["tangent_length"]) and np.all(np.isnan(g["pos2"])),
                      "unreachable-not-reported", md=g["md"], **info)
            ctx.key("inside", len(shape), per)
            continue
        L, th, hold = want
        if th > 2 * np.pi - 1e-6:
            L, th = hold, 0.0
        tol = 1e-8 * (D + R[k])
        ctx.close(g["dogleg"], th, "dogleg", rtol=0, atol=1e-6, **info)
        ctx.close(g["dist_curve"], R[k] * th, "arc-length", rtol=0, atol=1e-6 * R[k] + tol, **info)
        ctx.close(g["tangent_length"], hold, "hold-length", rtol=0, atol=1e-6 * D + tol, **info)
        ctx.close(g["md"], g["dist_curve"] + g["tangent_length"], "total-length", rtol=1e-12, atol=1e-9, **info)
        ctx.close(np.linalg.norm(g["vec_target"]), 1.0, "direction-unit", rtol=0, atol=1e-7, **info)
        dirn = np.cos(th) * v1 + np.sin(th) * lat
        ctx.close(g["vec_target"], dirn, "direction", rtol=0, atol=2e-6, **info)
        end = p1 + R[k] * (np.sin(th) * v1 + (1 - np.cos(th)) * lat)
        ctx.close(g["pos2"], end, "end-of-curve", rtol=0, atol=2e-6 * (D + R[k]), **info)
        ctx.close(g["pos2"] + g["tangent_length"] * g["vec_target"], t, "hold-misses", rtol=0, atol=1e-7 * (D + R[k]), **info)
        ctx.key(kind, shape if len(shape) != 1 else "v", per, int(th / (np.pi / 4)))
        ctx.event("elements")
    for k in rng.permutation(n)[:3]:
        kind, p1, v1, t, dp, dn, lat = el[k]
        one = we.connector.solve_curve_hold_batch(p1, v1, t, R[k])
        for q in flat:
            ctx.close(np.nan_to_num(one[q], nan=-12345.), np.nan_to_num(flat[q][k], nan=-12345.), "depends-on-batch",
                      rtol=1e-9, atol=2e-7 * (R[k] + np.hypot(dp, dn)) if kind in ("ahead", "nearly") else 1e-9, of=q, kind=kind)
        if np.isnan(flat["md"][k]) or kind == "nearly" or np.hypot(dp, dn) < .2 * R[k]:
            continue
        c = we.connector.Connector(pos1=p1, vec1=v1, pos2=t, unit=unit,
                                   dls_design=float(np.degrees(UNIT_LEN[unit] / R[k])))
        ctx.close(c.md_target, flat["md"][k], "connector-length", rtol=1e-5, atol=1e-3, kind=kind)
        ctx.close(c.vec_target, flat["vec_target"][k], "connector-direction", rtol=0, atol=1e-4, kind=kind)


SCENARIOS = [Scenario("batch", batch, 1200, 24000)]
