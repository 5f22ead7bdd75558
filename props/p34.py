"""P34  Nodes: one position and one direction in every form."""
from vmon import ref
from vmon.core import Scenario
from vmon.env import np, we
from vmon.purity import Watch

META = dict(
    title='A node states one position and one direction in every form',
    statement=('Whatever form a node is given in - position and direction as north/east/vertical or '
               'x/y/z, a direction as a vector of any length or as inclination and azimuth in degrees or '
               'radians, as lists, tuples, arrays, integers or floats - it holds the same position and the '
               'same unit direction in all of its forms, its angles in degrees and radians agree with '
               'the direction, and what was not given is None, zero uncertainty or the given default. '
               'Depth, unit, covariance and extra attributes are kept as given, no two nodes share '
               'state, the inputs are not changed, half a direction is refused, and the path planned '
               'between nodes does not depend on the form they were given in.'),
    over=['inputs', 'configurations'],
    quantifier='all positions, directions (vertical, horizontal, upward, any vector length), forms, conventions and optional arguments',
    why='The tests only build nodes on the way to something else and never look at more than one form of the same node.',
    files=['welleng/node.py', 'welleng/connector.py'],
    mechanism=[('node', 'welleng/node.py:Node.check_angle_inputs / get_pos'),
               ('consumers', 'welleng/node.py:get_node_params, welleng/connector.py:Connector / drop_off / extend_to_tvd')],
)
PROPERTY, LEVEL = "P34", "exploration"
RULE = ("a case is one position and direction, built in several equivalent forms or used by a planner; "
        "distinct classes are (direction kind, form, container, given parts) tuples")
ASSUMPTIONS = ["azimuths of vertical directions are compared through the direction only, and no build from vertical is planned"]


def attitude(rng):
    kind = str(rng.choice(["any", "any", "any", "any", "down", "up", "horizontal", "quadrant", "nearly-down"]))
    inc, azi = float(rng.uniform(0, 180)), float(rng.uniform(0, 360))
    if kind == "down":
        inc = 0.0
    elif kind == "up":
        inc = 180.0
    elif kind == "horizontal":
        inc = 90.0
    elif kind == "quadrant":
        azi = float(rng.choice([0, 90, 180, 270, 360]))
    elif kind == "nearly-down":
        inc = float(rng.choice([1e-6, 1e-3, .01, .2]))
    if rng.random() < .15:
        azi += float(rng.choice([-360, 360]))
    return kind, inc, azi


def unit(inc, azi):
    i, a = np.radians(inc), np.radians(azi)
    return np.array([np.sin(i) * np.cos(a), np.sin(i) * np.sin(a), np.cos(i)])


def box(rng, v, name=None):
    c = name or str(rng.choice(["list", "tuple", "array", "row", "ints"]))
    if c == "list":
        return c, [float(x) for x in v]
    if c == "tuple":
        return c, tuple(float(x) for x in v)
    if c == "row":
        return c, np.array(v, float).reshape(1, 3)
    if c == "ints":
        return c, [int(x) for x in v]
    return "array", np.array(v, float)


def swap(v):
    """NEV <-> XYZ (x is east, y is north, z is depth)"""
    return np.array([v[1], v[0], v[2]])


def forms(ctx):
    rng = ctx.rng
    kind, inc, azi = attitude(rng)
    p = np.round(rng.normal(0, 3000, 3), int(rng.choice([0, 2, 6])))
    v = unit(inc, azi)
    form = str(rng.choice(["vec", "vec", "deg", "rad", "none"]))
    given_pos = bool(rng.random() < .85)
    nev = bool(rng.random() < .5)
    kw = {}
    cp = cv = None
    if given_pos:
        cp = str(rng.choice(["list", "tuple", "array", "row", "ints"]))
        if cp == "ints":
            p = np.round(p)
        cp, kw["pos"] = box(rng, p if nev else swap(p), cp)
    if form == "vec":
        scale = float(rng.choice([1, 1, 1, 7.5, 1e-3, 2000]))
        cv, kw["vec"] = box(rng, (v if nev else swap(v)) * scale,
                            str(rng.choice(["list", "tuple", "array", "row"])))
        if rng.random() < .2:      # the vector is used and the angles ignored
            kw.update(inc=12.0, azi=34.0)
    elif form in ("deg", "rad"):
        f = np.radians if form == "rad" else float
        kw.update(inc=float(f(inc)), azi=float(f(azi)))
        if form == "rad":
            kw["degrees"] = False
        elif rng.random() < .5:
            kw["degrees"] = True
    if not nev or rng.random() < .5:
        kw["nev"] = nev
    md = None
    if rng.random() < .7:
        kw["md"] = md = float(np.round(rng.uniform(0, 9000), 2))
    u = "meters"
    if rng.random() < .5:
        kw["unit"] = u = str(rng.choice(["meters", "feet"]))
    cov = None
    if rng.random() < .3:
        a = rng.normal(0, 3, (3, 3))
        kw["cov_nev"] = cov = (a @ a.T).reshape(1, 3, 3)
    extra = {}
    if rng.random() < .3:
        extra = dict(interpolated=bool(rng.random() < .5), label="T-1", weight=3)
        kw.update(extra)
    ctx.case = dict(kw=kw)
    with Watch(ctx, "node", kw=kw):
        n = we.node.Node(**kw)
    info = dict(form=form, kind=kind, nev=nev)
    if given_pos:
        ctx.close(n.pos_nev, p, "position-nev", rtol=0, atol=1e-9, **info)
        ctx.close(n.pos_xyz, swap(p), "position-xyz", rtol=0, atol=1e-9, **info)
    else:
        ctx.check(n.pos_nev is None and n.pos_xyz is None, "position-invented", **info)
    if form == "none":
        for k in ("vec_nev", "vec_xyz", "inc_rad", "inc_deg", "azi_rad", "azi_deg"):
            ctx.check(hasattr(n, k) and getattr(n, k) is None, "direction-invented", of=k, **info)
    else:
        ctx.close(n.vec_nev, v, "direction-nev", rtol=0, atol=2e-9, **info)
        ctx.close(n.vec_xyz, swap(v), "direction-xyz", rtol=0, atol=2e-9, **info)
        ctx.close(np.linalg.norm(n.vec_nev), 1.0, "direction-unit", rtol=0, atol=1e-12, **info)
        ctx.close(n.inc_deg, inc, "inclination", rtol=0, atol=2e-6, **info)
        ctx.close(np.degrees(n.inc_rad), n.inc_deg, "inclination-units", rtol=1e-12, atol=1e-12, **info)
        ctx.close(np.degrees(n.azi_rad), n.azi_deg, "azimuth-units", rtol=1e-12, atol=1e-12, **info)
        ctx.close(unit(n.inc_deg, n.azi_deg), v, "angles-direction", rtol=0, atol=5e-8, **info)
        if 1e-3 < inc < 179.999:
            ctx.close((n.azi_deg - azi + 180) % 360 - 180, 0, "azimuth", rtol=0, atol=1e-6 / np.sin(np.radians(inc)), **info)
            ctx.check(0 <= n.azi_deg <= 360, "azimuth-range", azi=n.azi_deg, **info)
    ctx.check(n.md == md and n.unit == u, "kept", md=n.md, unit=n.unit, **info)
    ctx.close(n.cov_nev, np.zeros((1, 3, 3)) if cov is None else cov, "covariance", rtol=0, atol=0)
    for k, x in extra.items():
        ctx.check(getattr(n, k, None) == x, "extra-attribute", of=k)
    pos, vec, m = we.node.get_node_params(n)
    ctx.check(pos is n.pos_nev or np.array_equal(pos, n.pos_nev), "params-position")
    ctx.check(vec is n.vec_nev or np.array_equal(vec, n.vec_nev), "params-direction")
    ctx.check(m == md, "params-md")
    pr = n.properties()
    for k in ("pos_nev", "pos_xyz", "vec_nev", "vec_xyz", "inc_rad", "inc_deg", "azi_rad", "azi_deg", "md", "unit", "cov_nev"):
        ctx.check(k in pr, "property-missing", of=k, **info)
    # no state is shared between nodes or with the arguments
    other = we.node.Node(**{k: x for k, x in kw.items() if k != "cov_nev"})
    before = np.array(other.cov_nev).copy()
    if cov is None:
        n.cov_nev[0, 1, 1] = 9.0
        ctx.close(other.cov_nev, before, "shared-covariance", rtol=0, atol=0)
        ctx.close(we.node.Node(**kw).cov_nev, before, "default-changed", rtol=0, atol=0)
    if given_pos:
        n.pos_nev[0] += 5
        ctx.close(other.pos_nev, p, "shared-position", rtol=0, atol=1e-9)
        ctx.close(kw["pos"], np.reshape(p if nev else swap(p), np.shape(kw["pos"])), "argument-shared", rtol=0, atol=1e-9)
        ctx.close(n.pos_xyz, swap(p), "forms-shared", rtol=0, atol=1e-9)
    ctx.key(kind, form, nev, cp, cv, md is None, cov is None, bool(extra))
    ctx.event("nodes")


def refused(ctx):
    rng = ctx.rng
    _, inc, azi = attitude(rng)
    kw = dict(pos=[0, 0, 0], md=0)
    half = str(rng.choice(["inc", "azi"]))
    kw[half] = inc if half == "inc" else azi
    if rng.random() < .5:
        kw["degrees"] = bool(rng.random() < .5)
    ctx.case = dict(kw=kw)
    ctx.raises(lambda: we.node.Node(**kw), "half-direction-accepted", given=half)
    ctx.key("half", half, kw.get("degrees"))


def variants(rng, p, inc, azi, md, unit_name):
    """The same node in four forms."""
    v = unit(inc, azi)
    base = dict(md=md, unit=unit_name)
    return {
        "nev": dict(pos=p.tolist(), vec=v.tolist(), **base),
        "xyz": dict(pos=swap(p), vec=3.0 * swap(v), nev=False, **base),
        "deg": dict(pos=tuple(p), inc=inc, azi=azi, **base),
        "rad": dict(pos=p, inc=float(np.radians(inc)), azi=float(np.radians(azi)), degrees=False, **base),
    }


def planned(ctx):
    rng = ctx.rng
    kind, inc, azi = attitude(rng)
    inc = min(inc, 150.0)
    u = str(rng.choice(["meters", "feet"]))
    R = (30 if u == "meters" else 100) / np.radians(3.0)
    p1 = np.round(rng.normal(0, 1000, 3), 2)
    md = float(np.round(rng.uniform(0, 5000), 2))
    v1 = unit(inc, azi)
    p2 = p1 + R * float(rng.uniform(4, 9)) * unit(inc + float(rng.uniform(-40, 40)), azi + float(rng.uniform(-40, 40)))
    i2, a2 = float(rng.uniform(0, 120)), float(rng.uniform(0, 360))
    use = str(rng.choice(["connector", "connector", "hold-to", "drop_off", "extend_to_tvd", "extend_straight"]))
    if kind in ("down", "up", "nearly-down") and use in ("drop_off", "extend_to_tvd"):
        use = "connector"          # the plane to build in is not defined by a vertical direction
    A = variants(rng, p1, inc, azi, md, u)
    B = variants(rng, p2, i2, a2, None, u)
    dls = float(rng.choice([1.5, 3., 5.]))
    t_inc = float(np.clip(inc + rng.uniform(-40, 40), 0, 90))
    ctx.case = dict(use=use, node1=A["nev"], node2=B["nev"], dls=dls, target_inc=t_inc)

    def end(f):
        n1, n2 = we.node.Node(**A[f]), we.node.Node(**B[f])
        with Watch(ctx, use, node1=n1, node2=n2):
            if use == "connector":
                c = we.connector.Connector(n1, n2, dls_design=dls, unit=u)
                e = c.node_end
                return [*e.pos_nev, *e.vec_nev, e.md, c.dist_curve, getattr(c, "dist_curve2", 0) or 0]
            if use == "hold-to":
                n2 = we.node.Node(**{k: x for k, x in B[f].items() if k in ("pos", "unit", "nev")})
                e = we.connector.Connector(n1, n2, dls_design=dls, unit=u).node_end
                return [*e.pos_nev, *e.vec_nev, e.md]
            if use == "drop_off":
                e = we.connector.drop_off(t_inc, dls, None, n1)
                return [x for q in e for x in (*q.pos_nev, *q.vec_nev, q.md)]
            if use == "extend_to_tvd":
                e = we.connector.extend_to_tvd(float(n1.pos_nev[2]) + 900., n1, None, t_inc, dls)
            else:
                e = we.connector.extend_to_tvd(float(n1.pos_nev[2]) + 900., n1)
            return [x for q in e for x in (*q.node_end.pos_nev, *q.node_end.vec_nev, q.node_end.md)]

    if use.startswith("extend"):
        inc0 = min(inc, 75.0)
        A.update(variants(rng, p1, inc0, azi, md, u))
        t_inc = min(t_inc, 75.0)
    got = {f: np.array(end(f), float) for f in A}
    for f in ("xyz", "deg", "rad"):
        if not ctx.check(got[f].shape == got["nev"].shape, "path-depends-on-form", form=f, use=use):
            continue
        tol = 1e-3 if use.startswith("extend_to") else 2e-4
        ctx.close(got[f], got["nev"], "path-depends-on-form", rtol=1e-6, atol=tol, form=f, use=use)
    if use in ("connector", "hold-to"):
        n1 = we.node.Node(**A["nev"])
        kw = dict(pos1=A["nev"]["pos"], vec1=A["nev"]["vec"], md1=md, pos2=B["nev"]["pos"], dls_design=dls, unit=u)
        if use == "connector":
            kw["vec2"] = B["nev"]["vec"]
        c = we.connector.Connector(**kw)
        e = c.node_end
        ctx.close([*e.pos_nev, *e.vec_nev, e.md], got["nev"][:7], "node-and-arguments", rtol=1e-6, atol=2e-4, use=use)
    ctx.key("use", use, kind, u)
    ctx.event("plans")


SCENARIOS = [Scenario("forms", forms, 1500, 40000),
             Scenario("refused", refused, 60, 600),
             Scenario("planned", planned, 250, 5000)]
