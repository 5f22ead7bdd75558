"""P15  Wellbore meshes and mesh clearance."""
from vmon import gen, ref, wells
from vmon.core import Scenario, Skip
from vmon.env import np, we
from vmon.purity import Watch
from welleng.clearance import MeshClearance
from welleng.mesh import WellMesh, to_trimesh, sliced_mesh, fix_mesh, make_trimesh_scene

META = dict(
    title='Wellbore meshes bound the uncertainty and mesh clearance tells contact from none',
    statement=('A well mesh is a closed tube around the path: every ring lies across the hole, centred on '
               'its station, on the ellipse of the covariance scaled by sigma and widened by radius, '
               'Sm and half of sigma_pa, and neighbouring rings are joined without twist. Mesh '
               'clearance reports a collision where the tubes meet and none where they are clear of '
               'each other, and the distances and points it reports lie on the two paths. Scenes hold each '
               'mesh where it is; a transformed scene is a copy moved, scaled and reduced as asked.'),
    over=['inputs', 'configurations'],
    quantifier='all surveys with covariance, vertex counts, sigmas, margins, methods and pairs of wells',
    why='Tests only build three meshes and look at the vertex count; no geometry and no mesh collision is checked.',
    files=['welleng/mesh.py', 'welleng/clearance.py'],
    mechanism=[('ring vertices', 'welleng/mesh.py:WellMesh._get_vertices'),
               ('ring alignment', 'welleng/mesh.py:WellMesh._align_verts'),
               ('faces', 'welleng/mesh.py:get_faces'),
               ('mesh clearance', 'welleng/clearance.py:MeshClearance._process_well')],
)

PROPERTY, LEVEL = "P15", "exploration"
RULE = ("a case is one mesh or one pair of wells; classes are (well kind, method, vertex count, covariance "
        "shape) and (kind of pair, verdicts seen)")
ASSUMPTIONS = ["collision verdicts are only required outside a band set by the flat sides of the tubes",
               "plotly figures cannot be exercised: plotly is not installed"]


def cov_hla(rng, n, shape):
    """Covariances given along hole."""
    s = np.linspace(.2, 1, n) * float(rng.choice([.3, 2., 10.]))
    if shape == "round":
        r = np.ones((n, 2))
    elif shape == "oval":
        r = np.column_stack([np.ones(n), np.full(n, rng.uniform(1.2, 2))])
    else:
        r = np.column_stack([np.ones(n), np.full(n, rng.uniform(3, 10))])
    th = float(rng.uniform(0, np.pi)) + (np.cumsum(rng.normal(0, .1, n)) if shape != "flat" else 0)
    c, d = np.cos(th) * np.ones(n), np.sin(th) * np.ones(n)
    R = np.zeros((n, 3, 3))
    R[:, 0, 0], R[:, 0, 1], R[:, 1, 0], R[:, 1, 1], R[:, 2, 2] = c, -d, d, c, 1
    D = np.zeros((n, 3, 3))
    D[:, 0, 0], D[:, 1, 1], D[:, 2, 2] = (s * r[:, 0]) ** 2, (s * r[:, 1]) ** 2, s ** 2
    return R @ D @ np.swapaxes(R, 1, 2)


def mesh_survey(ctx, shape=None, kind=None, unit="meters"):
    rng = ctx.rng
    kind, md, inc, azi = gen.traj(rng, kind, int(rng.integers(3, 12)), step=float(rng.choice([10., 30., 100.])))
    shape = shape or str(rng.choice(["round", "oval", "flat"]))
    n = len(md)
    rad = rng.choice([.1, .2, .3], n) if rng.random() < .3 else float(rng.choice([.1, .3048]))
    start = [float(x) for x in rng.uniform(-300, 300, 2)] + [float(rng.choice([0., 25.]))]
    s = we.survey.Survey(md=md, inc=inc, azi=azi, header=gen.header(depth_unit=unit, surface_unit=unit), unit=unit,
                         cov_hla=cov_hla(rng, n, shape), radius=rad, start_nev=start,
                         start_xyz=[start[1], start[0], start[2]])
    return kind, shape, s


def closed(ctx, F, nv, who):
    """Every edge belongs to exactly two faces; the surface is a sphere."""
    e = np.sort(np.vstack([F[:, [0, 1]], F[:, [1, 2]], F[:, [2, 0]]]), axis=1)
    u, c = np.unique(e, axis=0, return_counts=True)
    ctx.check(np.all(c == 2), who + ":open-edges", n_open=int((c != 2).sum()))
    used = np.unique(F)
    ctx.check(len(used) == nv and used.min() == 0 and used.max() == nv - 1, who + ":vertices-unused",
              used=len(used), have=nv)
    ctx.check(len(used) - len(u) + len(F) == 2, who + ":euler", v=len(used), e=len(u), f=len(F))
    ctx.check(len(np.unique(np.sort(F, axis=1), axis=0)) == len(F), who + ":duplicate-faces")


def mesh(ctx):
    rng = ctx.rng
    kind, shape, s = mesh_survey(ctx)
    nv = int(rng.choice([8, 12, 12, 16, 24, 36]))
    sigma, spa, Sm = float(rng.choice([1., 2.445, 3.])), float(rng.choice([0., .5, 2.])), float(rng.choice([0., .3]))
    method = str(rng.choice(["ellipse", "ellipse", "ellipse", "circle", "pedal_curve"]))
    ctx.case = dict(kind=kind, shape=shape, nv=nv, sigma=sigma, sigma_pa=spa, Sm=Sm, method=method,
                    md=s.md, inc=s.inc_deg, azi=s.azi_grid_deg, radius=s.radius)
    with Watch(ctx, "WellMesh", survey=s):
        m = WellMesh(s, n_verts=nv, sigma=sigma, sigma_pa=spa, Sm=Sm, method=method)
    n = len(s.md)
    V = np.asarray(m.vertices)
    if not ctx.check(V.shape == (n, nv, 3), "mesh-shape", got=list(V.shape)):
        return
    p = np.column_stack([s.n, s.e, s.tvd])
    ax = ref.hla_axes(s.inc_rad, s.azi_grid_rad)
    loc = np.einsum("nij,nkj->nki", ax, V - p[:, None])
    scale = np.abs(loc).max()
    ctx.close(loc[..., 2], 0, "ring-off-plane", atol=1e-7 * (1 + scale))
    C = np.asarray(s.cov_hla)[:, :2, :2]
    w, U = np.linalg.eigh((C + np.swapaxes(C, 1, 2)) / 2)
    w = np.sqrt(np.maximum(w, 0))
    extra = np.asarray(s.radius) + Sm + spa / 2
    if method == "circle":
        a = b = np.asarray(s.radius)
        U = np.tile(np.eye(2), (n, 1, 1))
    elif method == "ellipse":
        a, b = w[:, 1] * sigma + extra, w[:, 0] * sigma + extra
        U = U[:, :, ::-1]
    else:
        a, b = np.sqrt(C[:, 0, 0]) * sigma + extra, np.sqrt(C[:, 1, 1]) * sigma + extra
        U = np.tile(np.eye(2), (n, 1, 1))
    q = np.einsum("nji,nkj->nki", U, loc[..., :2])
    if method == "pedal_curve":
        # the foot of the perpendicular on the ellipse's tangents
        ctx.close((q ** 2).sum(2) ** 2, (a[:, None] * q[..., 0]) ** 2 + (b[:, None] * q[..., 1]) ** 2, "ring-off-pedal-curve", rtol=1e-6, atol=1e-12)
    else:
        ctx.close((q[..., 0] / a[:, None]) ** 2 + (q[..., 1] / b[:, None]) ** 2, 1, "ring-off-ellipse", rtol=1e-6, atol=0)
        ctx.close(V.mean(axis=1), p, "ring-off-centre", rtol=0, atol=1e-7 * (1 + scale))
        phi = np.sort(np.mod(np.arctan2(q[..., 1] / b[:, None], q[..., 0] / a[:, None]), 2 * np.pi), axis=1)
        gap = np.diff(np.concatenate([phi, phi[:, :1] + 2 * np.pi], axis=1), axis=1)
        ctx.close(gap, 2 * np.pi / nv, "ring-uneven", rtol=0, atol=1e-5)
        # each ring goes round once, always the same way seen down the hole
        ang = np.unwrap(np.arctan2(loc[..., 1], loc[..., 0]), axis=1)
        turn = np.sign(ang[:, -1] - ang[:, 0])
        ctx.check(np.all(turn == turn[0]), "ring-direction-flips", at=int(np.argmax(turn != turn[0])))
    # joined without twist, where neighbouring rings look alike
    if method != "pedal_curve" and shape != "flat":
        uv = (V - p[:, None]) / np.linalg.norm(V - p[:, None], axis=2)[..., None]
        dot = np.clip(np.sum(uv[1:] * uv[:-1], axis=2), -1, 1)
        lim = np.asarray(s.dogleg)[1:] + 2 * np.pi / nv * 2.2 + .3
        ctx.check(np.all(np.arccos(dot) <= lim[:, None]), "rings-twisted", worst=float(np.degrees(np.arccos(dot)).max()))
    F = np.asarray(m.mesh.faces)
    ctx.close(np.asarray(m.mesh.vertices)[:n * nv], V.reshape(-1, 3), "mesh-vertices", atol=0, rtol=0)
    ctx.close(np.asarray(m.mesh.vertices)[n * nv:], p[[0, -1]], "mesh-caps", atol=1e-9, rtol=0)
    closed(ctx, F, n * nv + 2, "mesh")
    long = np.diff(s.md).min() > 2.5 * max(a.max(), b.max()) and np.degrees(s.dogleg.max()) < 30
    if method != "pedal_curve" and shape != "flat" and long:
        t = to_trimesh(m)
        ctx.check(t.is_watertight and t.is_winding_consistent, "trimesh-not-watertight")
        area = .5 * nv * np.sin(2 * np.pi / nv) * a * b
        L = np.diff(s.md)
        lo = (L * np.minimum(area[1:], area[:-1])).sum() * .7
        hi = (L * np.maximum(area[1:], area[:-1])).sum() * 1.1
        ctx.check(lo <= abs(t.volume) <= hi, "mesh-volume", got=t.volume, lo=lo, hi=hi)
        ctx.event("volumes")
    if method == "ellipse":
        big = WellMesh(s, n_verts=nv, sigma=sigma * 1.5, sigma_pa=spa, Sm=Sm, method=method)
        r0 = np.linalg.norm(V - p[:, None], axis=2)
        r1 = np.linalg.norm(np.asarray(big.vertices) - p[:, None], axis=2)
        ctx.check(np.all(np.sort(r1, 1) >= np.sort(r0, 1) - 1e-9), "larger-sigma-smaller-ring")
    ctx.event("rings", n)
    ctx.key(kind, method, shape, nv)


def sliced(ctx):
    """sliced_mesh covers the section asked for, piece by piece."""
    rng = ctx.rng
    kind, shape, s = mesh_survey(ctx, "oval")
    n = len(s.md)
    step = int(rng.integers(1, 4))
    ctx.case = dict(kind=kind, n=n, step=step, md=s.md, inc=s.inc_deg, azi=s.azi_grid_deg)
    kw = {} if ctx.index % 3 == 0 else dict(method=str(rng.choice(["ellipse", "circle"])))
    with Watch(ctx, "sliced_mesh", survey=s):
        pieces = sliced_mesh(s, step=step, **kw)
    p = np.column_stack([s.n, s.e, s.tvd])
    at = 0
    for m in pieces:
        v = np.asarray(m.vertices)
        k = (len(v) - 2) // 12
        c0, c1 = v[-2], v[-1]
        i0 = int(np.argmin(np.linalg.norm(p - c0, axis=1)))
        ctx.close(c0, p[at], "sliced-not-contiguous", atol=1e-6)
        at = at + k - 1
        if not ctx.check(at < n, "sliced-runs-over", at=at, n=n):
            return
        ctx.close(c1, p[at], "sliced-end", atol=1e-6)
        closed(ctx, np.asarray(m.faces), len(v), "sliced")
    ctx.check(at == n - 1, "sliced-does-not-reach-td", at=at, n=n)
    ctx.event("pieces", len(pieces))
    ctx.key(kind, step, "default" if not kw else kw["method"])


def seg_dist(p1, q1, p2, q2):
    """Distance between two segments (sampled, then refined) and where."""
    f = np.linspace(0, 1, 41)
    a = p1 + f[:, None] * (q1 - p1)
    d2 = q2 - p2
    den = max(float(d2 @ d2), 1e-30)
    t = np.clip((a - p2) @ d2 / den, 0, 1)
    D = np.linalg.norm(a - (p2 + t[:, None] * d2), axis=1)
    i = int(np.argmin(D))
    return float(D[i]), float(f[i]), float(t[i])


def collide(ctx):
    rng = ctx.rng
    kind, a, b = wells.pair(rng, str(rng.choice(["crossing", "crossing", "parallel", "pad", "stacked", "relief", "random", "misleading"])))
    scale = float(rng.choice([.05, .5, 2.]))
    ra, rb = float(rng.choice([.1, .3048])), float(rng.choice([.1, .2]))

    def mk(w, r):
        n = len(w[0])
        return wells.survey(rng, w, cov=wells.grow_cov(rng, n, scale) + np.eye(3) * 1e-4, radius=r)
    r, o = mk(a, ra), mk(b, rb)
    sigma, Sm, spa = float(rng.choice([2.445, 3.5, 1.])), float(rng.choice([0., .3, 2.])), float(rng.choice([.5, .5, 3.]))
    nv = int(rng.choice([12, 24]))
    ctx.case = dict(kind=kind, a=a, b=b, scale=scale, sigma=sigma, Sm=Sm, sigma_pa=spa, n_verts=nv, ra=ra, rb=rb)
    with Watch(ctx, "MeshClearance", reference=r, offset=o):
        c = MeshClearance(r, o, sigma=sigma, Sm=Sm, sigma_pa=spa, n_verts=nv)
    n = len(r.md)
    if not ctx.check(len(c.collision) == n - 1 and len(c.sf) == n - 1, "sections", got=len(c.collision), want=n - 1):
        return
    hit = np.array([bool(x[0] if isinstance(x, (tuple, list)) else x) for x in c.collision])

    def semi(s, sm):
        w = np.linalg.eigvalsh(np.asarray(s.cov_hla)[:, :2, :2])
        w = np.sqrt(np.maximum(w, 0)) * sigma
        e = np.asarray(s.radius) + sm + spa / 2
        return w[:, 0] + e, w[:, 1] + e
    rmin, rmax = semi(r, 0.)
    omin, omax = semi(o, Sm)
    P, Q = np.column_stack([r.n, r.e, r.tvd]), np.column_stack([o.n, o.e, o.tvd])
    cr, co = wells.Curve(r.md, r.inc_rad, r.azi_grid_rad, P[0]), wells.Curve(o.md, o.inc_rad, o.azi_grid_rad, Q[0])
    for i in range(n - 1):
        best = np.inf
        must = False
        clear = True
        for j in range(len(Q) - 1):
            d, f, t = seg_dist(P[i], P[i + 1], Q[j], Q[j + 1])
            best = min(best, d)
            if d <= (max(rmax[i], rmax[i + 1]) + max(omax[j], omax[j + 1])) * (1 + 1e-6) + 1e-6:
                clear = False
            # inscribed cylinders touch, well away from the ends, and neither tube can swallow the other
            Lr, Lo = np.linalg.norm(P[i + 1] - P[i]), np.linalg.norm(Q[j + 1] - Q[j])
            ir = min(rmin[i], rmin[i + 1]) * np.cos(np.pi / nv) * np.cos(max(r.dogleg[i + 1], 0) / 2) * .98
            io = min(omin[j], omin[j + 1]) * np.cos(np.pi / nv) * np.cos(max(o.dogleg[j + 1], 0) / 2) * .98
            big = max(rmax[i], rmax[i + 1], omax[j], omax[j + 1])
            if (d < (ir + io) * .95 and .1 < f < .9 and .1 < t < .9 and min(Lr * min(f, 1 - f), Lo * min(t, 1 - t)) > 2 * big
                    and r.dogleg[i + 1] < .5 and o.dogleg[j + 1] < .5):
                x, y = (P[i + 1] - P[i]) / Lr, (Q[j + 1] - Q[j]) / Lo
                if abs(x @ y) < .9:
                    must = True
        if clear:
            ctx.event("clear-sections")
            ctx.check(not hit[i], "false-collision", section=i, distance=best)
        if must:
            ctx.event("touching-sections")
            ctx.check(hit[i], "missed-collision", section=i, distance=best)
        # what is reported about the section
        m0, m1 = float(c.ref_md[i]), float(c.off_md[i])
        ctx.check(r.md[i] - 1e-6 <= m0 <= r.md[i + 1] + 1e-6, "ref-md-outside-section", md=m0, section=[r.md[i], r.md[i + 1]])
        ctx.check(o.md[0] - 1e-6 <= m1 <= o.md[-1] + 1e-6, "off-md-outside-well", md=m1)
        x, y = np.asarray(c.nev[i][0][0], float), np.asarray(c.nev[i][1][0], float)
        if abs(m0 - r.md[i]) > 1e-3 and abs(m0 - r.md[i + 1]) > 1e-3:
            ctx.close(x, cr.at_md(m0), "ref-point-off-path", atol=1e-3)
        on, _ = co.closest(y[None])
        ctx.check(on[0] < 1e-2, "off-point-off-path", off=on[0])
        ctx.close(c.distance_cc[i], np.linalg.norm(x - y), "distance-cc", rtol=1e-7, atol=1e-7)
        v = y - x
        if np.hypot(*v[:2]) > 1e-3:
            ctx.close(np.sin(np.radians(c.hoz_bearing_deg[i]) - np.arctan2(v[1], v[0])), 0, "hoz-bearing", atol=1e-5)
        dist = float(c.distance[i][0])
        if not hit[i]:
            den = c.distance_cc[i] - dist
            if abs(den) > 1e-6:
                ctx.close(c.sf[i], c.distance_cc[i] / den, "mesh-sf", rtol=1e-6, atol=.0051)
            if not clear:
                continue
            # the tube is straight between stations; the path may bow out of it
            bow = max((np.asarray(x.delta_md) * np.asarray(x.dogleg) / 8).max() for x in (r, o))
            if bow > .2 * min(rmin.min(), omin.min()):
                ctx.event("bowed-out")
                continue
            ctx.check(c.sf[i] > .99, "sf-below-one-when-clear", sf=c.sf[i])
            lo = best - (max(rmax[i], rmax[i + 1]) + omax.max())
            ctx.check(dist >= lo - 1e-6, "surface-distance-too-small", got=dist, least=lo)
            ctx.check(dist <= best + 1e-6, "surface-distance-too-large", got=dist, centre=best)
        else:
            ctx.check(c.sf[i] <= 1, "sf-above-one-in-collision", sf=c.sf[i])
    if ctx.index % 4 == 0:
        q = MeshClearance(r, o, sigma=sigma, Sm=Sm, sigma_pa=spa, n_verts=nv, return_data=False, return_meshes=True)
        h = np.array([bool(x[0] if isinstance(x, (tuple, list)) else x) for x in q.collision])
        ctx.check(np.array_equal(h, hit), "go-no-go-differs", full=hit, quick=h)
        ctx.check(len(q.meshes) == n - 1, "meshes-returned", n=len(q.meshes))
    ctx.event("sections", n - 1)
    ctx.key(kind, "hit" if hit.any() else "miss", "Sm" if Sm else "", spa)


def straight(ctx):
    """Two straight round tubes passing at a known distance: verdicts within 10 %."""
    rng = ctx.rng
    sr, so = float(rng.uniform(.2, 4)), float(rng.uniform(.2, 4))
    rr, ro = float(rng.choice([.1, .3048])), float(rng.choice([.1, .5]))
    sigma, Sm, spa = float(rng.choice([2.445, 3.5, 1.])), float(rng.choice([0., .3, 2.])), float(rng.choice([.5, 0., 3.]))
    nv = int(rng.choice([12, 24]))
    R, O = sigma * sr + rr + spa / 2, sigma * so + ro + spa / 2 + Sm
    k = float(rng.choice([.5, .85, 1.02, 1.15, 2.]))
    ang = float(rng.uniform(40, 140))
    L = 40 * (R + O)
    n = int(rng.integers(2, 6))
    inc, azi = float(rng.choice([90., 60.])), float(rng.uniform(0, 360))
    t = ref.tangent(np.radians(inc), np.radians(azi))
    # the offset runs horizontally and crosses it
    t2 = ref.tangent(np.pi / 2, np.radians(azi + ang))
    nrm = np.cross(t, t2)
    nrm /= np.linalg.norm(nrm)
    d = k * (R + O)
    P0, Q0 = -t * L * .45, nrm * d - t2 * L * .55

    def mk(i, a, p0, s, r):
        md = np.linspace(0, L, n)
        return we.survey.Survey(md=md, inc=np.full(n, i), azi=np.full(n, a % 360), header=gen.header(), radius=r,
                                start_nev=list(p0), start_xyz=[p0[1], p0[0], p0[2]], cov_hla=np.tile(np.eye(3) * s * s, (n, 1, 1)))
    r, o = mk(inc, azi, P0, sr, rr), mk(90., azi + ang, Q0, so, ro)
    ctx.case = dict(R=R, O=O, d=d, k=k, ang=ang, inc=inc, azi=azi, n=n, sigma=sigma, Sm=Sm, sigma_pa=spa, nv=nv)
    c = MeshClearance(r, o, sigma=sigma, Sm=Sm, sigma_pa=spa, n_verts=nv)
    hit = any(bool(x[0]) for x in c.collision)
    if k < np.cos(np.pi / nv):
        ctx.check(hit, "missed-collision-straight", k=k)
    if k > 1:
        ctx.check(not hit, "false-collision-straight", k=k)
        dist = min(float(x[0]) for x in c.distance)
        ctx.check((R + O) * (k - 1) * (1 - 1e-6) <= dist <= (R + O) * (k - np.cos(np.pi / nv)) * (1 + 1e-6) + 1e-6,
                  "surface-gap", got=dist, k=k, both=R + O)
        ctx.close(min(c.distance_cc), d, "centre-distance", rtol=.02)
        ctx.check(min(c.sf) > 1 - .01, "sf-below-one-when-clear", sf=min(c.sf))
    ctx.key("hit" if hit else "miss", k, nv, n)


def swallowed(ctx):
    """A thin reference wholly inside a wide offset envelope, straight or curved."""
    rng = ctx.rng
    n = 11
    md = np.arange(0, 301, 30.)
    top, azi = float(rng.choice([0., 20., 60.])), np.full(n, float(rng.uniform(0, 360)))
    inc = np.linspace(0, top, n)
    h = gen.header()
    wide = float(rng.choice([2., 5., 10.]))
    o = we.survey.Survey(md=md, inc=inc, azi=azi, header=h, radius=.3, cov_nev=np.tile(np.eye(3) * wide ** 2, (n, 1, 1)))
    k = int(rng.integers(2, 5))
    p = [o.n[k] + float(rng.uniform(-.5, .5)), o.e[k] + float(rng.uniform(-.5, .5)), o.tvd[k]]
    m = n - 2 - k
    r = we.survey.Survey(md=md[k:-2], inc=inc[k:-2], azi=azi[k:-2], header=h, radius=.1, start_nev=p, start_xyz=[p[1], p[0], p[2]],
                         cov_nev=np.tile(np.eye(3) * 1e-4, (m, 1, 1)))
    ctx.case = dict(top=top, azi=azi[0], wide=wide, k=k, p=p)
    c = MeshClearance(r, o)
    hit = [bool(x[0]) for x in c.collision]
    ctx.check(all(hit), "contained-well-not-a-collision", collision=hit)
    ctx.check(max(c.sf) <= 1 and min(c.sf) >= 0, "contained-well-sf", sf=c.sf)
    q = MeshClearance(r, o, return_data=False)
    ctx.check(all(bool(np.ravel(x)[0]) for x in q.collision), "contained-well-go-no-go")
    ctx.key(top, wide)


def repair(ctx):
    """fix_mesh and scenes keep the solid."""
    rng = ctx.rng
    md = np.arange(6) * 50.
    inc = np.linspace(0, float(rng.uniform(0, 60)), 6)
    azi = np.full(6, float(rng.uniform(0, 360)))
    s = we.survey.Survey(md=md, inc=inc, azi=azi, header=gen.header(), cov_hla=cov_hla(rng, 6, "oval"), radius=.2)
    m = WellMesh(s)
    t = to_trimesh(m)
    import trimesh
    F = np.asarray(m.mesh.faces)
    bad = np.vstack([F, F[rng.integers(0, len(F), 5)], [[0, 0, 1], [2, 5, 5]]])
    raw = trimesh.Trimesh(vertices=m.mesh.vertices, faces=bad, process=False)
    before = raw.faces.copy()
    f = fix_mesh(raw)
    ctx.check(np.array_equal(raw.faces, before), "fix-mesh-changes-input")
    ctx.check(len(f.faces) == len(F), "fix-mesh-faces", got=len(f.faces), want=len(F))
    ctx.check(f.is_watertight and f.is_winding_consistent, "fix-mesh-not-watertight")
    ctx.close(f.volume, abs(t.volume), "fix-mesh-volume", rtol=1e-6)
    sc = make_trimesh_scene({"a": m, "b": WellMesh(s, method="circle")})
    ctx.check(set(sc.geometry) == {"a", "b"}, "scene-wells", got=sorted(sc.geometry))
    ctx.close(abs(sc.geometry["a"].volume), abs(t.volume), "scene-volume", rtol=1e-6)
    ctx.key(int(inc[-1] // 20))


def scenes(ctx):
    """Scenes hold every well's own mesh; transforming one moves, scales and
    reduces copies of them."""
    import sys
    import types
    rng = ctx.rng
    wells = {}
    for k in range(int(rng.integers(1, 4))):
        n = int(rng.integers(3, 8))
        s = we.survey.Survey(md=np.arange(n) * 100.0, inc=np.linspace(0, float(rng.uniform(0, 60)), n),
                             azi=np.full(n, float(rng.uniform(0, 360))), header=gen.header(),
                             cov_hla=cov_hla(rng, n, "oval"), radius=.2,
                             start_nev=np.round(rng.normal(0, 200, 3), 1))
        wells[f"well {k}"] = WellMesh(s, method=str(rng.choice(["ellipse", "circle"])))
    sc = make_trimesh_scene(wells)
    ctx.check(set(sc.geometry) == set(wells), "scene-wells", found=sorted(sc.geometry))
    for k, m in wells.items():
        g = sc.geometry[k]
        tri, own = np.asarray(g.triangles), np.asarray(m.mesh.vertices)[np.asarray(m.mesh.faces)]
        if ctx.check(len(tri) == len(own), "scene-faces", well=k):
            ctx.close(np.sort(tri.reshape(len(tri), -1).sum(1)), np.sort(own.reshape(len(own), -1).sum(1)),
                      "scene-triangles", rtol=1e-9, atol=1e-6, well=k)
            ctx.close(tri.reshape(-1, 3).min(0), own.reshape(-1, 3).min(0), "scene-extent", rtol=1e-9, atol=1e-6, well=k)
    origin = None
    kw = {}
    if rng.random() < .75:
        origin = np.round(rng.normal(0, 300, 3), 1)
        kw["origin"] = origin if rng.random() < .5 else [float(x) for x in origin]
        if rng.random() < .15:
            origin = np.zeros(3)
            kw["origin"] = [0, 0, 0]
    scale = float(rng.choice([1, 10, 100, 37.5]))
    if scale != 100 or rng.random() < .5:
        kw["scale"] = scale
    redux = float(rng.choice([1.0, .5, .25, .1]))
    if redux != .25 or rng.random() < .5:
        kw["redux"] = redux
    asked = []

    def simplify(points, triangles, target_count=None, target_reduction=None, **k):
        count = target_count if target_count is not None else int(len(triangles) * (1 - target_reduction))
        asked.append((len(triangles), count))
        return np.array(points), np.array(triangles)[:count]
    before = {k: np.array(g.triangles) for k, g in sc.geometry.items()}
    old = sys.modules.get("fast_simplification")
    sys.modules["fast_simplification"] = types.SimpleNamespace(simplify=simplify)
    ctx.case = dict(wells=len(wells), **kw)
    try:
        with Watch(ctx, "transform", kw=kw):
            out = we.mesh.transform_trimesh_scene(sc, **kw)
    finally:
        if old is None:
            del sys.modules["fast_simplification"]
        else:
            sys.modules["fast_simplification"] = old
    ctx.check(set(out.geometry) == set(wells), "transformed-wells", found=sorted(out.geometry))
    if redux < 1:
        ctx.check(len(asked) == len(wells) and all(abs(c - n * redux) < 1 for n, c in asked), "reduction", asked=asked, redux=redux)
    T = np.zeros(3) if origin is None else origin
    for k, g in out.geometry.items():
        b = before[k]
        ctx.check(np.array_equal(np.asarray(sc.geometry[k].triangles), b), "transform-changes-scene", well=k)
        v = np.asarray(g.triangles)
        if redux == 1:
            want = b - T
        else:
            c = [c for n, c in asked if n == len(b)]
            if not c or len(v) not in c:
                ctx.check(False, "reduced-faces", faces=len(v), asked=asked)
                continue
            want = b[:len(v)] - T
        want = np.stack([want[..., 0], -want[..., 2], want[..., 1]], -1) / scale
        if ctx.check(v.shape == want.shape, "transformed-faces", faces=len(v)):
            ctx.close(v, want, "transformed-place", rtol=1e-9, atol=1e-9, well=k)
    ctx.event("scenes")
    ctx.key("scene", len(wells), origin is None, scale, redux)


SCENARIOS = [
    Scenario("mesh", mesh, 200, 4000),
    Scenario("sliced", sliced, 40, 600),
    Scenario("collide", collide, 60, 1200),
    Scenario("swallowed", swallowed, 12, 150),
    Scenario("straight", straight, 60, 800),
    Scenario("scenes", scenes, 24, 400),
    Scenario("repair", repair, 16, 200),
]
