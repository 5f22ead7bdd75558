"""P16  A connector's path starts, turns and ends as asked."""
from vmon import gen, ref
from vmon.core import Scenario, Skip
from vmon.env import np, we
from vmon.purity import Watch
from vmon.wells import Curve

META = dict(
    title='A connector goes from the start to the target it was given',
    statement=('The path of a Connector starts at the given position, direction and measured depth, is '
               'continuous in position and direction, is made only of circular arcs and straight holds, '
               'and ends at the target: at the target position, in the target direction or at the target '
               'measured depth, whichever were given, wherever the target lies (straight ahead, behind, '
               'inside the turning circle) and in either unit; the reported end depth is the length of '
               'that path. Arcs are not tighter than the design dog-leg severity when a path of that '
               'severity exists; a target position alone is reached by the curve-and-hold path of the '
               'design radius, or by one arc if it lies inside the turning circle, or, with '
               'closest_approach, by going to the nearest point of that circle. Inputs are left as they '
               'were, the same input gives the same path, and contradictory targets are rejected.'),
    over=['inputs', 'configurations'],
    quantifier='all start poses; target positions from a tenth to forty turning radii away in all directions; target directions within 115 degrees of the line of sight when a target direction and a position are both given (the severity is held to at five radii or more); depths, inclination-only, azimuth-only targets; both units, degrees and radians',
    why='The tests compare the pos_target attribute (an input) and tolerate violations of the design severity; they do not rebuild the path and look where it ends.',
    files=['welleng/connector.py', 'welleng/survey.py', 'welleng/node.py'],
    mechanism=[('method selection', 'welleng/connector.py:Connector._get_method'),
               ('curve-hold', 'welleng/connector.py:min_dist_to_target / min_curve_to_target'),
               ('curve-hold-curve', 'welleng/connector.py:Connector._target_pos_and_vec_defined'),
               ('rendering', 'welleng/connector.py:interpolate_curve / interpolate_hold')],
)

PROPERTY, LEVEL = "P16", "exploration"
RULE = ("a case is one group of connectors, each rendered twice (control points and stepped) and "
        "re-integrated independently; distinct classes are (target kind, method used, unit, side "
        "of the turning circle, dogleg class) tuples")
ASSUMPTIONS = ["arcs of 180 degrees or more between two stations are not generated (step below half a turn)",
               "targets exactly behind the start direction leave the turning plane undefined and are not generated"]

UNIT_LEN = {"meters": 30.0, "feet": 100.0}


def direction(rng, lo=0., hi=130.):
    k = rng.random()
    inc = 0.0 if k < .12 else 90.0 if k < .2 else float(rng.uniform(lo, hi))
    azi = float(rng.choice([0., 90., 180., 270.])) if rng.random() < .2 else float(rng.uniform(0, 360))
    return inc, azi, ref.tangent(np.radians(inc), np.radians(azi))


def perp_to(rng, v):
    p = rng.normal(size=3)
    p -= v * (p @ v)
    return p / np.linalg.norm(p)


def aim(rng, v, ang):
    """Unit vector at angle ang (rad) from v."""
    return np.cos(ang) * v + np.sin(ang) * perp_to(rng, v)


def setup(rng):
    unit = str(rng.choice(["meters", "feet"]))
    dls = float(rng.choice([.5, 1., 2., 3., 5., 8., 12.]))
    R = UNIT_LEN[unit] / np.radians(dls)
    p1 = np.round(rng.normal(0, 1500, 3), 2) if rng.random() < .8 else np.zeros(3)
    md1 = float(rng.choice([0.0, np.round(rng.uniform(0, 4000), 2)]))
    inc, azi, v1 = direction(rng)
    if rng.random() < .5:
        start = dict(vec1=v1.copy())
        deg = bool(rng.random() < .8)
    else:
        deg = bool(rng.random() < .7)
        f = 1.0 if deg else np.pi / 180
        start = dict(inc1=inc * f, azi1=azi * f)
    start.update(pos1=p1.copy(), md1=md1, unit=unit, degrees=deg)
    start["dls_design"] = dls if deg else np.radians(dls)
    return unit, dls, R, p1, md1, v1, deg, start


def render(ctx, c, p1, v1, md1, unit, R, tag, max_rate=None, **info):
    """Rebuild the path from what the connector says; check start, order,
    curvature; return (end position, end direction, length)."""
    out = None
    for step in (None, min(float(ctx.rng.choice([5., 30., 100.])), 2.0 * R)):
        parts = c.interpolate(step)
        md = np.concatenate([np.ravel(d["md"]) for d in parts])
        vec = np.concatenate([np.reshape(d["vec"], (-1, 3)) for d in parts])
        inc = np.concatenate([np.ravel(d["inc"]) for d in parts])
        azi = np.concatenate([np.ravel(d["azi"]) for d in parts])
        ctx.check(np.all(np.isfinite(md)) and np.all(np.isfinite(vec)), f"{tag}-not-finite", **info)
        ctx.close(ref.tangent(inc, azi), vec, f"{tag}-angles-vs-vector", rtol=0, atol=1e-7, **info)
        ctx.close(md[0], md1, f"{tag}-start-md", rtol=1e-12, atol=1e-7, **info)
        ctx.close(vec[0], v1, f"{tag}-start-direction", rtol=0, atol=1e-7, **info)
        if not ctx.check(np.all(np.diff(md) >= -1e-6), f"{tag}-md-order", md=md, **info):
            return None
        dm = np.diff(md)
        d = ref.angle(vec[:-1], vec[1:])
        jump = (dm < 1e-6) & (d > 1e-5)
        ctx.check(not np.any(jump), f"{tag}-direction-jumps", step=step, **info)
        pos = Curve(md, inc, azi, p1).p[-1]
        if max_rate is not None:
            m = dm > 1e-3
            if m.any():
                rate = d[m] / dm[m]
                slack = 2e-6 / dm[m] + 5e-3 * max_rate
                ctx.check(np.all(rate <= max_rate + slack), f"{tag}-tighter-than-design",
                          worst=float(np.max(rate / max_rate)), step=step, **info)
        ctx.event("stations", len(md))
        L = md[-1] - md1
        ctx.close(c.md_target - md1, L, f"{tag}-end-md", rtol=1e-9, atol=1e-6, **info)
        if out is not None:
            ctx.close(pos, out[0], f"{tag}-step-changes-path", rtol=0, atol=1e-6 * (L + 1), step=step, **info)
        out = pos, vec[-1], L
        if L < 1e-3:
            continue  # nothing to survey
        s = we.survey.from_connections(c, step=step, depth_unit=unit,
                                       survey_header=gen.header(depth_unit=unit))
        ctx.close([s.n[-1], s.e[-1], s.tvd[-1]], pos, f"{tag}-survey-end", rtol=0, atol=(2e-4 if info.get("what") != "opposite" else 1e-4 * R) + 1e-7 * (L + np.abs(p1).max()), step=step, **info)
        ctx.close([s.n[0], s.e[0], s.tvd[0]], p1, f"{tag}-survey-start", rtol=1e-12, atol=1e-6, **info)
        ctx.close(s.vec_nev[-1], vec[-1], f"{tag}-survey-end-direction", rtol=0, atol=1e-6, **info)
    for nd, pp, vv, mm in ((c.node_start, p1, v1, md1), (c.node_end, c.pos_target, out[1], c.md_target)):
        ctx.close(nd.pos_nev, pp, f"{tag}-node-position", rtol=1e-12, atol=1e-6, **info)
        ctx.close(nd.vec_nev, vv, f"{tag}-node-direction", rtol=0, atol=1e-6, **info)
        ctx.close(nd.md, mm, f"{tag}-node-md", rtol=1e-12, atol=1e-6, **info)
        ctx.check(nd.unit == unit, f"{tag}-node-unit", unit=nd.unit, **info)
    return out


def connect(ctx, kw, **info):
    with Watch(ctx, "Connector", **{k: v for k, v in kw.items()
                                    if isinstance(v, np.ndarray) or hasattr(v, "pos_nev")}):
        return we.connector.Connector(**kw)


def ch_length(R, dp, dn):
    """Length of the curve (radius R) and hold that reaches a point dp ahead and
    dn to the side; None when the point is inside the turning circle."""
    dc = np.hypot(dn - R, dp)
    if dc < R:
        return None
    hold = np.sqrt(max(dc * dc - R * R, 0.0))
    phi = np.arctan2(dp, R - dn)
    th = np.mod(phi - np.arccos(np.clip(R / dc, -1, 1)), 2 * np.pi)
    return R * th + hold, th, hold


def position(ctx):
    """Target position only."""
    rng = ctx.rng
    for _ in range(3):
        unit, dls, R, p1, md1, v1, deg, start = setup(rng)
        mode = str(rng.choice(["any", "any", "inside", "ahead", "nearly", "abeam"]))
        if mode == "any":
            ang, D = float(rng.uniform(0.01, 3.1)), R * 10 ** rng.uniform(-1, 1.6)
        elif mode == "inside":
            ang = float(rng.uniform(.3, 2.8))
            D = 2 * R * np.sin(ang) * float(rng.uniform(.2, .98))
        elif mode == "abeam":
            # a whole number of (half) radii ahead and to the side
            a, b = float(rng.integers(-4, 9)) / 2, 2 * R * (1 + float(rng.choice([0, 0, 1e-12, -1e-9, 1e-7])))
            if rng.random() < .3:
                b = R * float(rng.integers(1, 9)) / 2
            D, ang = float(np.hypot(a * R, b)), float(np.arctan2(b, a * R))
        elif mode == "ahead":
            ang, D = 0.0, R * 10 ** rng.uniform(-1, 1.3)
        else:
            ang, D = float(rng.choice([1e-3, 1e-2, np.pi / 2])), R * 10 ** rng.uniform(.4, 1.3)
        p2 = p1 + D * aim(rng, v1, ang)
        dp, dn = D * np.cos(ang), D * np.sin(ang)
        near = abs(np.hypot(dn - R, dp) / R - 1) < 2e-4 and ang > 0
        if near:
            raise Skip("on the turning circle")
        Rs = D / (2 * np.sin(ang)) if ang > 0 and np.hypot(dn - R, dp) < R else R
        nodes = rng.random() < .25 and "vec1" in start
        kw = dict(start, pos2=p2.copy())
        if nodes:
            kw = dict(node1=we.node.Node(pos=p1, vec=v1, md=md1, unit=unit),
                      node2=we.node.Node(pos=p2, unit=unit), unit=unit, degrees=deg,
                      dls_design=start["dls_design"])
        ctx.case = dict(kw=kw, mode=mode, ang=ang, D_over_R=D / R)
        c = connect(ctx, kw)
        want = ch_length(R, dp, dn)
        inside = want is None
        info = dict(method=c.method, mode=mode, ang=ang, D_over_R=D / R)
        got = render(ctx, c, p1, v1, md1, unit, Rs, "position", None if inside else 1 / R, **info)
        if got is None:
            return
        # a target within 1e-5 of straight ahead is held to
        tol = 1e-6 * D + 1e-4 + (2e-5 * D if c.method == "hold" else 0)
        ctx.close(got[0], p2, "position-missed", rtol=0, atol=tol, **info)
        if inside:
            Rc = D * D / (2 * dn)
            th = np.mod(2 * np.arctan2(dn, dp), 2 * np.pi)
            L = Rc * th
        else:
            L, th, hold = want
            if th > 2 * np.pi - 1e-4:
                L, th = hold, 0.0
        ctx.close(got[2], L, "position-length", rtol=1e-5, atol=1e-3 + tol, **info)
        ctx.key("pos", c.method, unit, inside, int(th / (np.pi / 4)), mode)
        ctx.event("connectors", 1)


def closest(ctx):
    """Targets inside the turning circle with closest_approach."""
    rng = ctx.rng
    for _ in range(2):
        unit, dls, R, p1, md1, v1, deg, start = setup(rng)
        ang = float(rng.uniform(.4, 2.6))
        D = 2 * R * np.sin(ang) * float(rng.uniform(.3, .95))
        lat = perp_to(rng, v1)
        p2 = p1 + D * (np.cos(ang) * v1 + np.sin(ang) * lat)
        kw = dict(start, pos2=p2.copy(), closest_approach=True)
        ctx.case = dict(kw=kw, ang=ang, D_over_R=D / R)
        c = connect(ctx, kw)
        info = dict(method=c.method, ang=ang, D_over_R=D / R)
        cc = p1 + R * lat
        u = p2 - cc
        if np.linalg.norm(u) < .02 * R:
            raise Skip("at the centre")
        best = cc + R * u / np.linalg.norm(u)
        got = render(ctx, c, p1, v1, md1, unit, R, "closest", 1 / R, **info)
        if got is None:
            return
        ctx.close(got[0], best, "closest-point", rtol=0, atol=1e-5 * R + 1e-3, **info)
        ctx.key("closest", c.method, unit, int(ang * 3))
        ctx.event("connectors", 1)


def heading(ctx):
    """Target direction and/or measured depth, no position."""
    rng = ctx.rng
    for _ in range(3):
        unit, dls, R, p1, md1, v1, deg, start = setup(rng)
        f = 1.0 if deg else np.pi / 180
        i1, a1 = ref.inc_azi(v1)
        i1, a1 = float(np.ravel(i1)[0]), float(np.ravel(a1)[0])
        what = str(rng.choice(["vec", "incazi", "inc", "azi", "none", "opposite"], p=[.3, .25, .15, .15, .1, .05]))
        inc2, azi2, v2 = direction(rng)
        kw = dict(start)
        if what == "vec":
            kw["vec2"] = v2.copy()
        elif what == "incazi":
            kw.update(inc2=inc2 * f, azi2=azi2 * f)
        elif what == "inc":
            if i1 < 1e-6:
                raise Skip("vertical")
            kw.update(inc2=inc2 * f)
            v2 = ref.tangent(np.radians(inc2), a1)
        elif what == "azi":
            if i1 < 1e-6:
                raise Skip("vertical")
            kw.update(azi2=azi2 * f)
            v2 = ref.tangent(i1, np.radians(azi2))
        elif what == "opposite":
            v2 = -v1
            kw.update(vec2=v2.copy())
        else:
            v2 = v1
        d = float(ref.angle(v1, v2))
        if what != "opposite" and d > 3.05:
            raise Skip("nearly opposite")
        md = what == "none" or rng.random() < .6
        if md:
            L = float(R * max(d, .05) * 10 ** rng.uniform(-.7, 1.0))
            kw["md2"] = md1 + L
        force = bool(rng.random() < .3)
        if force:
            kw["force_min_curve"] = True
        ctx.case = dict(kw=kw, what=what, dogleg_deg=np.degrees(d))
        c = connect(ctx, kw)
        info = dict(method=c.method, what=what, dogleg=np.degrees(d), depth=md)
        rate = 1 / R
        if md and L < R * d:
            rate = d / L
        if what == "opposite":
            rate *= 1.001
        got = render(ctx, c, p1, v1, md1, unit, R, "heading", rate, **info)
        if got is None:
            return
        ctx.close(got[1], v2, "heading-missed", rtol=0, atol=1e-6 if what != "opposite" else 1e-4, **info)
        want = L if md else R * d
        ctx.close(got[2], want, "heading-length", rtol=1e-6 if what != "opposite" else 1e-4, atol=1e-5, **info)
        # where such a path ends: the arc of that radius, then straight on
        Larc = min(R * d, want)
        end = p1 + (ref.arc_step(v1, v2, Larc) if d > 1e-9 and d < 3.1 else v1 * Larc) + v2 * (want - Larc)
        if what != "opposite":
            ctx.close(got[0], end, "heading-position", rtol=0, atol=1e-6 * (1 + want), **info)
        ctx.close(c.pos_target, got[0], "heading-reported-position", rtol=0, atol=1e-6 * (1 + want) * (1 if what != "opposite" else 100), **info)
        ctx.key("head", what, c.method, unit, md, force, int(np.degrees(d) / 45))
        ctx.event("connectors", 1)


def pose(ctx):
    """Target position and direction, five or more radii away."""
    rng = ctx.rng
    for _ in range(2):
        unit, dls, R, p1, md1, v1, deg, start = setup(rng)
        R2, kw = R, dict(start)
        if rng.random() < .3:
            dls2 = dls * float(rng.uniform(.6, 1.6))
            kw["dls_design2"] = dls2 if deg else np.radians(dls2)
            R2 = UNIT_LEN[unit] / np.radians(dls2)
        D = max(R, R2) * float(rng.uniform(5.2, 30.0))
        mode = str(rng.choice(["any", "any", "ahead", "parallel", "plane"]))
        a1 = 0.0 if mode == "ahead" else float(rng.uniform(0, np.radians(115)))
        u = aim(rng, v1, a1)
        p2 = p1 + D * u
        if mode == "parallel":
            v2 = v1.copy()
            if a1 < 1e-3:
                raise Skip("hold")
        elif mode == "plane":
            w = u - v1 * (u @ v1)
            if np.linalg.norm(w) < 1e-3:
                raise Skip("degenerate")
            w /= np.linalg.norm(w)
            b = float(rng.uniform(-1.5, 1.5))
            v2 = np.cos(b) * v1 + np.sin(b) * w
        else:
            v2 = aim(rng, u, float(rng.uniform(0, np.radians(115))))
        if float(ref.angle(u, v2)) > np.radians(115):
            raise Skip("behind")
        if rng.random() < .6:
            kw.update(pos2=p2.copy(), vec2=v2.copy())
        else:
            i2, a2 = (float(np.ravel(q)[0]) for q in ref.inc_azi(v2))
            f = 180 / np.pi if deg else 1.0
            kw.update(pos2=p2.copy(), inc2=i2 * f, azi2=a2 * f)
        ctx.case = dict(kw=kw, mode=mode, D_over_R=D / R)
        c = connect(ctx, kw)
        info = dict(method=c.method, mode=mode, D_over_R=D / R)
        # the ends are met to within a millimetre or so, which over an arc of a
        # degrees is worth some 2 mm / a^2 of radius
        r1, r2 = (r * (1 - 5e-3) - (1e-2 / a ** 2 if a > 0 else 0)
                  for r, a in ((R, c.dogleg or 0), (R2, c.dogleg2 or 0)))
        lim = min(r1, r2)
        got = render(ctx, c, p1, v1, md1, unit, min(R, R2), "pose", 1 / lim if lim > 0 else None, **info)
        if got is None:
            return
        ctx.close(got[0], p2, "pose-position-missed", rtol=0, atol=2e-3 + 2e-7 * D, **info)
        ctx.close(got[1], v2, "pose-direction-missed", rtol=0, atol=1e-6, **info)
        # each arc within its own design
        if c.method == "curve_hold_curve":
            for r, L, a, tag in ((r1, c.dist_curve, c.dogleg, "first"), (r2, c.dist_curve2, c.dogleg2, "second")):
                if a > 1e-3:
                    ctx.check(L / a >= r, f"pose-{tag}-arc-radius", radius=float(L / a), design=r, **info)
        ctx.check(got[2] <= D + 4 * (R + R2) * 2, "pose-length", length=got[2], D=D, **info)
        again = we.connector.Connector(**kw)
        ctx.close(again.md_target, c.md_target, "pose-not-repeatable", rtol=0, atol=0, **info)
        ctx.key("pose", mode, c.method, unit, "dls2" if R2 != R else "", int(np.degrees(a1) / 30))
        ctx.event("connectors", 1)


def close(ctx):
    """Target position and direction too near for the design severity."""
    rng = ctx.rng
    unit, dls, R, p1, md1, v1, deg, start = setup(rng)
    p1 = p1 if rng.random() < .5 else np.zeros(3)
    start["pos1"] = p1.copy()
    D = R * 10 ** float(rng.uniform(-1.7, .72))
    w = float(rng.choice([.2, 1., 2.]))
    u = aim(rng, v1, float(rng.uniform(.02, w)))
    v2 = aim(rng, u, float(rng.uniform(.02, w)))
    p2 = p1 + D * u
    kw = dict(start, pos2=p2.copy(), vec2=v2.copy())
    ctx.case = dict(kw=kw, D_over_R=D / R)
    if D < 2:
        raise Skip("a couple of metres")
    c = connect(ctx, kw)
    info = dict(method=c.method, D_over_R=D / R)
    got = render(ctx, c, p1, v1, md1, unit, min(R, D / 10), "close", None, **info)
    if got is None:
        return
    ctx.close(got[0], p2, "close-position-missed", rtol=0, atol=3e-3 + 2e-7 * D, **info)
    ctx.close(got[1], v2, "close-direction-missed", rtol=0, atol=1e-6, **info)
    ctx.check(got[2] <= D + 16 * R, "close-length", length=got[2], D=D, **info)
    ctx.key("close", c.method, unit, int(np.log2(D / R)), w)
    ctx.event("connectors", 1)


def minimum(ctx):
    """No design severity: the gentlest single arc to the position."""
    rng = ctx.rng
    unit, dls, R, p1, md1, v1, deg, start = setup(rng)
    ang, D = float(rng.uniform(.02, 2.5)), R * 10 ** rng.uniform(-.5, 1)
    p2 = p1 + D * aim(rng, v1, ang)
    kw = dict(start, pos2=p2.copy(), dls_design=None)
    ctx.case = dict(kw=kw, ang=ang)
    c = connect(ctx, kw)
    Rc = D / (2 * np.sin(ang))
    got = render(ctx, c, p1, v1, md1, unit, Rc, "minimum", 1 / Rc, method=c.method, ang=ang)
    if got:
        ctx.close(got[0], p2, "minimum-missed", rtol=0, atol=1e-6 * D, ang=ang)
        ctx.close(got[2], Rc * 2 * ang, "minimum-length", rtol=1e-6, ang=ang)
    ctx.key("min", c.method, unit, int(ang * 3))


def rejects(ctx):
    rng = ctx.rng
    p, v = rng.normal(0, 100, 3), ref.tangent(.3, float(rng.uniform(0, 6)))
    base = dict(pos1=p, vec1=v, md1=100.)
    bad = dict(
        nothing=dict(base),
        no_start=dict(pos1=p, pos2=p + 100.),
        start_twice=dict(base, inc1=10., azi1=10., pos2=p + 100.),
        half_start=dict(pos1=p, inc1=10., pos2=p + 100.),
        md_and_pos=dict(base, md2=500., pos2=p + 100.),
        md_before=dict(base, md2=50.),
        vec_and_inc=dict(base, vec2=v, inc2=float(rng.choice([0., 20.]))),
        vec_and_azi=dict(base, vec2=v, azi2=float(rng.choice([0., 20.])), pos2=p + 100.),
        dls_zero=dict(base, pos2=p + 100., dls_design=0.),
        dls_negative=dict(base, pos2=p + 100., dls_design=-1.),
        error_large=dict(base, pos2=p + 100., min_error=1.5),
    )
    for k, kw in bad.items():
        try:
            we.connector.Connector(**kw)
        except (AssertionError, ValueError):
            ctx.event("rejected", 1)
        else:
            ctx.fail("accepts-contradiction", kind=k)
        ctx.key("reject", k)


SCENARIOS = [
    Scenario("position", position, 600, 9000),
    Scenario("heading", heading, 500, 8000),
    Scenario("close", close, 150, 3000, batch=5),
    Scenario("pose", pose, 500, 8000),
    Scenario("closest", closest, 80, 1500),
    Scenario("minimum", minimum, 80, 1500),
    Scenario("rejects", rejects, 8, 60),
]
