"""P19  The planning helpers do what they promise."""
from vmon import gen, ref
from vmon.core import Scenario, Skip
from vmon.env import np, we
from vmon.purity import Watch
from vmon.wells import Curve
from props.p16 import UNIT_LEN, aim, direction

META = dict(
    title='Drop-off, extend, connect-points and plan fitting do what was asked',
    statement=('drop_off turns in the vertical plane of the start, on the design radius, by the change of '
               'inclination or as much of it as the allowed length permits, and holds for the rest of '
               'that length; extend_to_tvd gives sections that start at the node and end at the target '
               'vertical depth, straight ahead or turning to the target inclination when there is room; '
               'connect_points passes through every point in order, starting in the given direction and '
               'at the given depth, in NEV or XYZ coordinates, with one dog-leg severity or one per '
               'point; survey_to_plan starts and ends where the survey does and plans what one section describes as one. In each, consecutive '
               'sections join in position, direction and depth, the start defaults to the surface '
               'pointing down, and the node, survey or points handed over are not changed.'),
    over=['inputs', 'configurations'],
    quantifier='all start nodes (any inclination, azimuth, depth, position), target inclinations and depths, severities, allowed lengths, lists of two to eight points, smooth surveys',
    why='None of these helpers has a test that checks the path they return.',
    files=['welleng/connector.py', 'welleng/node.py'],
    mechanism=[('drop_off / extend_to_tvd', 'welleng/connector.py:drop_off / extend_to_tvd / get_arc'),
               ('connect_points', 'welleng/connector.py:connect_points'),
               ('survey_to_plan', 'welleng/connector.py:survey_to_plan / _get_section')],
)
PROPERTY, LEVEL = "P19", "exploration"
RULE = ("a case is one call of a helper with its path rebuilt independently; distinct classes are "
        "(helper, build or drop, length-limited, start kind) tuples")
ASSUMPTIONS = ["extend_to_tvd's delta_md is the starting point of its search, so its documented role as a maximum is not checked",
               "survey_to_plan's tolerance has no unit, so only the ends, the joins and the order are checked"]


def start_node(rng, lo=0., hi=120.):
    if rng.random() < .1:
        return None, np.zeros(3), ref.tangent(0., 0.), 0.0, 0.0, 0.0
    inc, azi, v = direction(rng, lo, hi)
    p = np.round(rng.normal(0, 1500, 3), 2)
    md = float(rng.choice([0., np.round(rng.uniform(0, 4000), 2)]))
    kw = dict(vec=v) if rng.random() < .4 else dict(inc=inc, azi=azi)
    return we.node.Node(pos=p.copy(), md=md, **kw), p, v, md, np.radians(inc), np.radians(azi)


def drop(ctx):
    rng = ctx.rng
    node, p, v, md, i1, a1 = start_node(rng)
    if node is not None and i1 == 0:
        a1 = 0.0
        node = we.node.Node(pos=p.copy(), md=md, inc=0., azi=0.)
        v = ref.tangent(0., 0.)
    dls = float(rng.choice([.5, 1., 2.5, 3., 6., 12.]))
    R = 30 / np.radians(dls)
    target = float(rng.choice([0., 15., 45., 90., np.round(rng.uniform(0, 120), 2)]))
    full = R * abs(np.radians(target) - i1)
    lim = None if rng.random() < .3 else float(max(1., full) * rng.uniform(.1, 3))
    ctx.case = dict(start=p, md=md, inc=np.degrees(i1), azi=np.degrees(a1), dls=dls, target=target, delta_md=lim, default=node is None)
    if full < 1e-6 and lim is None:
        raise Skip("nothing to do")
    given = lim if lim is None or rng.random() < .7 else np.array([lim])
    with Watch(ctx, "drop_off", node=node, delta=given):
        nodes = we.connector.drop_off(target, dls, given, node) if node is not None or rng.random() < .5 \
            else we.connector.drop_off(target, dls, delta_md=given)
    arc = full if lim is None else min(full, lim)
    sgn = np.sign(np.radians(target) - i1)
    i2 = i1 + sgn * arc / R
    v2 = ref.tangent(i2, a1)
    p2 = p + (ref.arc_step(v, v2, arc) if arc / R > 1e-9 else v * arc)
    hold = 0.0 if lim is None else lim - arc
    want = [(p2, v2, md + arc)] + ([(p2 + hold * v2, v2, md + arc + hold)] if hold > 1e-5 else [])
    if not ctx.check(len(nodes) == len(want), "drop-count", got=len(nodes), want=len(want), hold=hold):
        return
    for n, (pp, vv, mm) in zip(nodes, want):
        ctx.close(n.pos_nev, pp, "drop-position", rtol=0, atol=1e-6 * (1 + arc + hold))
        ctx.close(n.vec_nev, vv, "drop-direction", rtol=0, atol=1e-7)
        ctx.close(n.md, mm, "drop-md", rtol=1e-12, atol=1e-6)
    ctx.key("drop", "build" if sgn > 0 else "drop", "none" if lim is None else lim < full, node is None, target)
    ctx.event("nodes", len(nodes))


def chain_ok(ctx, secs, p, v, md, tag):
    for c in secs:
        ctx.close(c.pos1, p, f"{tag}-join-position", rtol=0, atol=1e-5)
        ctx.close(c.vec1, v, f"{tag}-join-direction", rtol=0, atol=1e-6)
        ctx.close(c.md1, md, f"{tag}-join-md", rtol=1e-12, atol=1e-6)
        p, v, md = np.array(c.pos_target, float), np.array(c.vec_target, float), float(c.md_target)
    return p, v, md


def extend(ctx):
    rng = ctx.rng
    node, p, v, md, i1, a1 = start_node(rng, 0., 75.)
    if i1 > np.radians(76):
        raise Skip("level")
    if node is not None and i1 == 0:
        a1 = 0.0
        node = we.node.Node(pos=p.copy(), md=md, inc=0., azi=0.)
        v = ref.tangent(0., 0.)
    turn = bool(rng.random() < .6)
    dls = float(rng.choice([1., 2.5, 4.]))
    R = 30 / np.radians(dls)
    kw = {}
    if turn:
        target = float(rng.choice([0., 20., np.round(rng.uniform(0, 70), 1)]))
        kw["target_inc"] = target
        i2 = np.radians(target)
        if rng.random() < .8:
            kw["dls"] = dls
        else:
            R = 30 / np.radians(2.5)
        if abs(i2 - i1) < 1e-3:
            raise Skip("no turn")
        need = R * abs(np.sin(i2) - np.sin(i1))
        enough = rng.random() < .7
        dz = need * float(rng.uniform(1.05, 4)) if enough else need * float(rng.uniform(.2, .9))
    else:
        dz = float(rng.uniform(5, 2000))
        enough = True
    if turn and rng.random() < .3:
        kw["delta_md"] = float(rng.uniform(1, 200))
    tvd = p[2] + dz
    ctx.case = dict(start=p, md=md, inc=np.degrees(i1), azi=np.degrees(a1), tvd=tvd, kw=kw, room=enough)
    with Watch(ctx, "extend_to_tvd", node=node):
        secs = we.connector.extend_to_tvd(tvd, node, **kw)
    ctx.check(1 <= len(secs) <= 2, "extend-count", n=len(secs))
    s = we.survey.from_connections(secs, step=float(rng.choice([10., 30.])))
    end = np.array([s.n[-1], s.e[-1], s.tvd[-1]])
    ctx.close(s.md[0], md, "extend-start-md", rtol=1e-12, atol=1e-6)
    ctx.close([s.n[0], s.e[0], s.tvd[0]], p, "extend-start", rtol=1e-12, atol=1e-6)
    ctx.close(end[2], tvd, "extend-tvd", rtol=0, atol=2e-2 + 1e-5 * dz)
    e = chain_ok(ctx, secs, p, v, md, "extend")
    ctx.close(end, e[0], "extend-end", rtol=0, atol=1e-3 + 1e-6 * dz)
    h = np.array([np.cos(a1), np.sin(a1)])
    off = (end - p)[:2]
    ctx.close(off - h * (off @ h), 0, "extend-leaves-plane", rtol=0, atol=1e-3 + 1e-5 * dz)
    if not turn:
        ctx.close(end - p, v * dz / v[2], "extend-straight", rtol=1e-5, atol=1e-2)
    elif enough:
        ctx.close(float(ref.inc_azi(e[1])[0]), i2, "extend-inclination", rtol=0, atol=1e-4)
        arc = R * abs(i2 - i1)
        hold = (dz - need) / np.cos(i2)
        ctx.close(e[2] - md, arc + hold, "extend-length", rtol=1e-4, atol=5e-2)
    else:
        i = float(ref.inc_azi(e[1])[0])
        lo, hi = sorted((i1, i2))
        ctx.check(lo - 1e-4 <= i <= hi + 1e-4, "extend-overshoots", inc=np.degrees(i))
        ctx.close(abs(np.sin(i) - np.sin(i1)) * R, dz, "extend-arc", rtol=1e-3, atol=5e-2)
    ctx.key("extend", turn, enough, node is None, "delta" if "delta_md" in kw else "")
    ctx.event("sections", len(secs))


def points(ctx):
    rng = ctx.rng
    dls = float(rng.choice([2., 3., 5.]))
    n = int(rng.integers(2, 8))
    _, _, v = direction(rng, 0, 80)
    R = 30 / np.radians(dls)
    p = np.round(rng.normal(0, 500, 3), 1) if rng.random() < .7 else np.zeros(3)
    P, w = [p], v
    for _ in range(n - 1):
        w = aim(rng, w, float(rng.uniform(.01, .35)))
        P.append(P[-1] + w * R * float(rng.uniform(1.2, 4)))
    P = np.array(P)
    md0 = float(rng.choice([0., 250., np.round(rng.uniform(0, 3000), 2)]))
    nev = bool(rng.random() < .6)
    style = str(rng.choice(["float", "int", "list"]))
    per = np.full(n, dls) if style != "list" else dls * rng.uniform(1, 1.5, n)
    d = dls if style == "float" else int(dls) if style == "int" else [float(q) for q in per]
    if rng.random() < .25:
        P = np.round(P).astype(int)
    cart, vs = (P, v) if nev else (P[:, [1, 0, 2]], v[[1, 0, 2]])
    cart = cart.tolist() if rng.random() < .4 else cart
    default = nev and rng.random() < .15
    kw = dict(dls_design=d, nev=nev, md_start=md0)
    if default:
        v = np.array([0., 0, 1])
    else:
        kw["vec_start"] = vs.tolist() if rng.random() < .4 else vs
    ctx.case = dict(points=P, v=v, nev=nev, dls=d, md0=md0)
    with Watch(ctx, "connect_points", c=cart, v=vs, d=d):
        secs = we.connector.connect_points(cart, **kw)
    if not ctx.check(len(secs) == n - 1, "points-count", got=len(secs), want=n - 1):
        return
    chain_ok(ctx, secs, P[0], v, md0, "points")
    for k, c in enumerate(secs):
        m, i, a = [np.concatenate([np.ravel(q[x]) for q in c.interpolate(30.)]) for x in ("md", "inc", "azi")]
        keep = np.r_[True, np.diff(m) > 1e-9]
        m, i, a = m[keep], i[keep], a[keep]
        L = m[-1] - m[0]
        ctx.close(Curve(m, i, a, P[k]).p[-1], P[k + 1], "points-missed", rtol=0, atol=1e-3 + 3e-5 * L, leg=k)
        t = ref.tangent(i, a)
        D = np.linalg.norm(P[k + 1] - P[k])
        u = (P[k + 1] - P[k]) / D
        ang = float(ref.angle(c.vec1, u))
        Rk = 30 / np.radians(per[k + 1])
        if D > 2 * Rk * np.sin(ang) * 1.001 or ang < 1e-6:
            dm = np.diff(m)
            r = ref.angle(t[:-1], t[1:])[dm > 1e-2] / dm[dm > 1e-2]
            if len(r):
                ctx.check(r.max() <= 1.01 / Rk + 1e-6, "points-tighter-than-design", leg=k, worst=float(r.max() * Rk))
    ctx.key("points", style, nev, n, default)
    ctx.event("points", n)


def plan(ctx):
    rng = ctx.rng
    n = int(rng.integers(6, 16))
    md = np.arange(n) * 30. + float(rng.choice([0., 500.]))
    k = int(rng.integers(1, n - 2))
    j = int(rng.integers(k + 1, n))
    i0 = float(rng.uniform(0, 30))
    inc = np.full(n, i0)
    rate = float(rng.uniform(.5, 3))
    inc[k:j] = i0 + rate * np.arange(1, j - k + 1)
    inc[j:] = inc[j - 1]
    azi = np.full(n, float(rng.uniform(0, 360)))
    if rng.random() < .5:
        azi = azi + np.clip(np.arange(n) - k, 0, None) * float(rng.uniform(-1, 1))
    unit = str(rng.choice(["meters", "feet"]))
    sn = np.round(rng.normal(0, 500, 3), 1)
    s = we.survey.Survey(md=md, inc=inc, azi=np.mod(azi, 360), unit=unit, start_nev=sn,
                         header=gen.header(depth_unit=unit, surface_unit=unit))
    tol = float(rng.choice([.05, .2, 1.]))
    dls = float(rng.choice([1., 3.]))
    ctx.case = dict(md=md, inc=inc, azi=azi, unit=unit, tol=tol, dls=dls, start=sn)
    with Watch(ctx, "survey_to_plan", survey=s):
        secs = we.connector.survey_to_plan(s, tolerance=tol, dls_design=dls)
    nev = np.column_stack([s.n, s.e, s.tvd])
    e = chain_ok(ctx, secs, nev[0], ref.tangent(np.radians(inc[0]), np.radians(azi[0])), md[0], "plan")
    ctx.close(e[0], nev[-1], "plan-end", rtol=0, atol=1e-2)
    ctx.close(e[1], ref.tangent(np.radians(inc[-1]), np.radians(azi[-1])), "plan-end-direction", rtol=0, atol=1e-5)
    ctx.check(1 <= len(secs) < n, "plan-count", n=len(secs), stations=n)
    p = we.survey.from_connections(secs, step=30., depth_unit=unit)
    ctx.close([p.n[-1], p.e[-1], p.tvd[-1]], nev[-1], "plan-survey-end", rtol=0, atol=2e-2)
    ctx.check(np.all(np.diff(p.md) > 0), "plan-md-order")
    ctx.key("plan", unit, tol, dls, len(secs))
    ctx.event("sections", len(secs))


def plan_simple(ctx):
    """A survey that one section describes is planned as that section."""
    rng = ctx.rng
    unit = str(rng.choice(["meters", "feet"]))
    inc, azi, v = direction(rng, 0., 60.)
    dls = float(rng.choice([1., 2., 3., 5.]))
    L = 30. if unit == "meters" else 100.
    n = int(rng.integers(6, 26))
    kind = str(rng.choice(["straight", "build-hold"]))
    p = np.round(rng.normal(0, 500, 3), 1)
    h = gen.header(depth_unit=unit, surface_unit=unit)
    if kind == "straight":
        md = float(np.round(rng.uniform(0, 2000), 1)) + np.arange(n) * L
        s = we.survey.Survey(md=md, inc=np.full(n, inc), azi=np.full(n, azi), unit=unit, start_nev=p, header=h)
    else:
        R = L / np.radians(dls)
        th = float(rng.uniform(.15, .9))
        u = v
        while abs(u @ v) > .95:
            u = ref.tangent(float(rng.uniform(0, np.pi)), float(rng.uniform(0, 2 * np.pi)))
        lat = u - (u @ v) * v
        lat = lat / np.linalg.norm(lat)
        a, hold = R * th, float(rng.uniform(3, 12)) * L
        m = np.unique(np.r_[0., np.arange(L, a + hold, L), a, a + hold])
        m = m[np.r_[True, np.diff(m) > 1.]] if np.all(np.diff(m)[-1:] > 1.) else m
        t = np.array([np.cos(min(x, a) / R) * v + np.sin(min(x, a) / R) * lat for x in m])
        i, az = ref.inc_azi(t)
        s = we.survey.Survey(md=m, inc=np.degrees(i), azi=np.degrees(az) % 360, unit=unit, start_nev=p, header=h)
    ctx.case = dict(kind=kind, unit=unit, dls=dls, md=s.md, inc=s.inc_deg, azi=s.azi_grid_deg, start=p)
    secs = we.connector.survey_to_plan(s, tolerance=.2, dls_design=dls)
    ctx.check(len(secs) == 1, "plan-sections", sections=len(secs), kind=kind)
    e = chain_ok(ctx, secs, np.array([s.n[0], s.e[0], s.tvd[0]]), s.vec_nev[0], s.md[0], "plan")
    ctx.close(e[0], [s.n[-1], s.e[-1], s.tvd[-1]], "plan-end", rtol=0, atol=1e-2)
    ctx.close(e[2], s.md[-1], "plan-length", rtol=1e-6, atol=5e-2)
    ctx.key("simple", kind, unit, dls)
    ctx.event("sections", len(secs))


SCENARIOS = [
    Scenario("drop", drop, 500, 12000),
    Scenario("extend", extend, 300, 6000),
    Scenario("points", points, 200, 5000),
    Scenario("plan", plan, 60, 1200, batch=3),
    Scenario("plan_simple", plan_simple, 24, 400, batch=3),
]
