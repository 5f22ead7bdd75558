"""P32  Figures and scenes."""
import types

from vmon import gen, ref
from vmon.core import Scenario, Skip
from vmon.env import np, we
from vmon.purity import Watch
from props import p24

META = dict(
    title='Figures and scenes draw the well where it is',
    statement=('Figures and scenes of surveys, meshes, clearances and torque and drag draw every station, '
               'vertex, separation line and load at its own value: east, north and vertical depth each on their '
               'own axis with depth increasing downwards, surveyed and interpolated stations told apart, the '
               'faces of a mesh between its own vertices, lines between the closest points coloured by their '
               'separation factors, loads and depths in the units on their axes. The point nearest to the '
               'pointer is reported with its well and station, a circular target is drawn about its own position, '
               'dipping and turned as asked, and the centre of curvature of an interval is '
               "at its curve radius from both of its ends, in the plane of its arc. Drawing changes nothing "
               'that is drawn.'),
    over=['inputs', 'configurations'],
    quantifier='all surveys (with and without interpolated stations), meshes, clearances, well bores and strings, units and drawing options',
    why='No test draws anything; swapped axes, faces of missing vertices or loads in the wrong unit are only seen by the eye.',
    files=['welleng/visual.py', 'welleng/target.py', 'welleng/survey.py', 'welleng/mesh.py', 'welleng/torque_drag.py'],
    mechanism=[('figures', 'welleng/visual.py:figure / _scatter3d / _panel / _mesh3d'),
               ('scenes', 'welleng/visual.py:Plotter / get_lines'),
               ('load figures', 'welleng/torque_drag.py:figure_string_tension_and_torque / figure_hookload'),
               ('circles', 'welleng/survey.py:get_circle_radius')],
)
PROPERTY, LEVEL = "P32", "exploration"
RULE = ("a case is one drawn object whose recorded traces, lines or meshes are compared with it; distinct classes "
        "are (drawing, options, trajectory family) tuples")
ASSUMPTIONS = ["plotly is not installed: a stand-in records what would be drawn by it; vedo objects are "
               "built but not rendered (no display), and hold single-precision coordinates"]
V = we.visual


class Trace:
    def __init__(self, kind, args, kw):
        self.kind, self.kw = kind, kw
        assert not args

    def __getattr__(self, k):
        return self.__dict__["kw"].get(k)


class Figure:
    def __init__(self, rows=None, cols=None, **kw):
        self.traces, self.layout, self.scenes, self.trace_updates, self.init = [], {}, {}, [], kw
        self.grid = (rows, cols)

    def add_trace(self, t, row=None, col=None, **kw):
        assert isinstance(t, Trace)
        t.cell = (row, col)
        if self.grid[0]:
            assert 1 <= row <= self.grid[0] and 1 <= col <= self.grid[1]
        self.traces.append(t)
        return self

    def update_layout(self, *a, **kw):
        for d in a:
            self.layout.update(d)
        self.layout.update(kw)
        return self

    def update_scenes(self, *a, **kw):
        for d in a:
            self.scenes.update(d)
        self.scenes.update(kw)
        return self

    def update_traces(self, *a, **kw):
        self.trace_updates.append((a, kw))
        return self


go = types.SimpleNamespace(
    Figure=Figure,
    Scatter=lambda *a, **k: Trace("scatter", a, k),
    Scatter3d=lambda *a, **k: Trace("scatter3d", a, k),
    Mesh3d=lambda *a, **k: Trace("mesh3d", a, k),
)


def make_subplots(rows=1, cols=1, **kw):
    return Figure(rows, cols, **kw)


try:
    from vtkmodules.vtkCommonCore import vtkLogger
    vtkLogger.SetStderrVerbosity(vtkLogger.VERBOSITY_OFF)    # there is no display
except ImportError:
    pass

for m in (V, we.torque_drag):
    m.go, m.make_subplots, m.PLOTLY = go, make_subplots, True


def nearly(ctx, got, want, mech, **d):
    ctx.close(np.asarray(got, float).ravel(), np.asarray(want, float).ravel(), mech, rtol=1e-9, atol=1e-9, **d)


def path(rng, **kw):
    unit = str(rng.choice(["meters", "feet"]))
    kind, md, inc, azi = gen.traj(rng)
    h = gen.header(rng, depth_unit=unit, surface_unit=unit, vertical_section_azimuth=float(rng.uniform(0, 359)))
    s = we.survey.Survey(md=md, inc=inc, azi=azi, header=h, unit=unit,
                         start_nev=np.round(rng.normal(0, 500, 3), 2), **kw)
    return kind, s


def paths3d(ctx):
    rng = ctx.rng
    kind, s = path(rng)
    how = str(rng.choice(["plain", "resampled", "all"]))
    if how == "resampled":
        s = s.interpolate_survey(step=float((s.md[-1] - s.md[0]) / rng.uniform(5, 60)))
    elif how == "all":
        s.interpolated = np.array([True] * len(s.md))
    opts = {}
    if rng.random() < .4:
        opts["layout"] = dict(title="a", width=3)
    if rng.random() < .4:
        opts["traces"] = dict(opacity=.5)
    ctx.case = dict(kind=kind, md=s.md, inc=s.inc_deg, azi=s.azi_grid_deg, how=how)
    with Watch(ctx, "figure", survey=s):
        f = s.figure(**opts) if rng.random() < .5 else V.figure(s, "scatter3d", **opts)
    ctx.check(all(t.kind == "scatter3d" for t in f.traces), "trace-kind")
    line = [t for t in f.traces if t.mode == "lines"]
    if ctx.check(len(line) == 1, "one-line", n=len(line)):
        for ax, v in (("x", s.e), ("y", s.n), ("z", s.tvd)):
            nearly(ctx, getattr(line[0], ax), v, f"line-{ax}")
    flag = np.asarray(s.interpolated, bool)
    dots = [t for t in f.traces if t.mode == "markers"]
    ctx.check(len(dots) == len(set(flag.tolist())), "marker-groups", n=len(dots))
    for t in dots:
        if not ctx.check(t.name in ("interpolated", "survey_point"), "marker-name", name=t.name):
            continue
        k = flag == (t.name == "interpolated")
        for ax, v in (("x", s.e), ("y", s.n), ("z", s.tvd)):
            nearly(ctx, getattr(t, ax), v[k], f"marker-{ax}", group=t.name)
        j = int(rng.integers(k.sum()))
        i = np.where(k)[0][j]
        import re
        got = {m[0]: float(m[1]) for m in re.findall(r"([A-Z]+): (-?[\d.]+)", t.text[j])}
        want = dict(N=s.n[i], E=s.e[i], TVD=s.tvd[i], MD=s.md[i], INC=s.inc_deg[i], AZI=s.azi_grid_deg[i])
        if ctx.check(set(got) == set(want) and len(t.text) == k.sum(), "marker-text", text=t.text[j]):
            for q in want:
                ctx.close(got[q], want[q], "marker-text-value", rtol=0, atol=.00501, which=q)
    ctx.check(f.scenes.get("zaxis_autorange") == "reversed", "depth-up")
    for ax, word in (("xaxis", "east"), ("yaxis", "north"), ("zaxis", "tvd")):
        ctx.check(word in str(f.scenes.get(ax, {}).get("title", "")).lower(), "axis-title", axis=ax)
    ctx.check(not opts.get("layout") or f.layout.get("width") == 3, "layout-option")
    ctx.check(not opts.get("traces") or any("opacity" in str(u) for u in f.trace_updates), "traces-option")
    ctx.key("3d", kind, how, s.unit, tuple(sorted(opts)))
    ctx.event("stations-drawn", len(s.md))


def panels(ctx):
    rng = ctx.rng
    kind, s = path(rng)
    ctx.case = dict(kind=kind, md=s.md)
    with Watch(ctx, "panel", survey=s):
        f = s.figure("panel")
    L = f.layout
    want = {"plan": (s.e, s.n), "vertical": (s.vertical_section, s.tvd), "we": (s.e, s.tvd), "ns": (s.n, s.tvd)}
    titles = [str(t).lower() for t in f.init.get("subplot_titles", [])]
    seen = set()
    for t in f.traces:
        r, c = t.cell
        k = 2 * (r - 1) + c
        name = titles[k - 1].split()[0] if len(titles) >= k else ""
        name = name.rstrip(":")
        if not ctx.check(name in want, "panel-title", title=name):
            continue
        nearly(ctx, t.x, want[name][0], f"panel-{name}-x")
        nearly(ctx, t.y, want[name][1], f"panel-{name}-y")
        seen.add(name)
        ax = L.get("yaxis" + ("" if k == 1 else str(k)), {})
        ctx.check((ax.get("autorange") == "reversed") or ("matches" in ax) if name != "plan" else ax.get("autorange") != "reversed",
                  "panel-depth-direction", panel=name)
        yt = str(ax.get("title", "")).lower()
        ctx.check(("tvd" in yt) if name != "plan" else ("north" in yt), "panel-y-title", panel=name, y=yt)
    ctx.check(seen == set(want), "panels", seen=sorted(seen))
    ctx.check(len(titles) == 4 and f"{np.degrees(s.header.vertical_section_azimuth):.6f}"[:5] in titles[1], "section-title", titles=titles)
    ctx.key("panel", kind, s.unit)
    ctx.event("panels", len(f.traces))


def mesh_of(rng, n=None):
    kind, md, inc, azi = gen.build(rng, md0=0.0, n=n or int(rng.integers(4, 14)), step=float(rng.choice([30., 100.])))
    s = we.survey.Survey(md=md, inc=inc, azi=azi, header=gen.header(name=str(rng.integers(1e6))), error_model="ISCWSA MWD Rev4",
                         start_nev=np.round(rng.normal(0, 60, 3), 1), radius=float(rng.uniform(.1, .5)))
    m = we.mesh.WellMesh(s, n_verts=int(rng.choice([8, 12, 20])),
                         method=str(rng.choice(["ellipse", "circle", "pedal_curve"])))
    return kind, s, m


def meshes(ctx):
    rng = ctx.rng
    kind, s, m = mesh_of(rng)
    edges = bool(rng.random() < .5)
    ctx.case = dict(kind=kind, md=s.md, method=m.method, n=m.n_verts, edges=edges)
    ring = np.asarray(m.vertices).reshape(-1, 3)
    with Watch(ctx, "mesh3d", mesh=m.mesh, vertices=m.vertices, survey=s):
        f = m.figure(edges=edges) if rng.random() < .5 else V.figure(m, "mesh3d", edges=edges)
    t = [t for t in f.traces if t.kind == "mesh3d"]
    if not ctx.check(len(t) == 1, "one-mesh"):
        return
    got = np.column_stack([t[0].y, t[0].x, t[0].z])
    F = np.column_stack([t[0].i, t[0].j, t[0].k])
    full, faces = np.asarray(m.mesh.vertices), np.asarray(m.mesh.faces)
    if ctx.check(F.min() >= 0 and F.max() < len(got), "face-of-no-vertex", n=len(got), worst=int(F.max())):
        ctx.close(got[F], full[faces], "faces", rtol=1e-9, atol=1e-9)
        # closed: every edge belongs to two faces
        e = np.sort(np.vstack([F[:, [0, 1]], F[:, [1, 2]], F[:, [2, 0]]]), axis=1)
        _, cnt = np.unique(e, axis=0, return_counts=True)
        ctx.check(np.all(cnt == 2), "mesh-open", n=int((cnt != 2).sum()))
    ctx.check(np.all(np.isin(np.round(ring, 6).tolist(), np.round(got, 6).tolist())), "ring-vertices-missing")
    lines = [t for t in f.traces if t.kind == "scatter3d"]
    ctx.check(bool(lines) == edges, "edges-option")
    if lines:
        nearly(ctx, np.column_stack([lines[0].y, lines[0].x, lines[0].z]), full[faces.reshape(-1)], "edges")
    ctx.check(f.scenes.get("zaxis_autorange") == "reversed", "depth-up")
    ctx.key("mesh", kind, m.method, m.n_verts, edges)
    ctx.event("faces-drawn", len(F))


def scene(ctx):
    """vedo: what is added is where it was, and the pointer finds it."""
    if not V.VEDO:
        raise Skip("vedo")
    rng = ctx.rng
    wells = [mesh_of(rng, 8) for _ in range(int(rng.integers(1, 4)))]
    ctx.case = dict(n=len(wells), kinds=[w[0] for w in wells])
    p = V.Plotter(offscreen=True)
    try:
        for _, s, m in wells:
            with Watch(ctx, "add", vertices=m.vertices, survey=s, faces=m.faces):
                p.add(m, c="red") if rng.random() < .5 else p.add(m)
            got = np.asarray(m.vedo_mesh.vertices)
            ctx.close(got, m.mesh.vertices, "scene-vertices", rtol=1e-5, atol=1e-3)
            ctx.check(np.array_equal(np.asarray(m.vedo_mesh.cells), np.asarray(m.mesh.faces)), "scene-faces")
        ctx.check(p.wells == [m for _, _, m in wells], "scene-wells")
        vm = [m.vedo_mesh for _, _, m in wells]
        allv = [np.asarray(m.vertices).reshape(-1, 3) for _, _, m in wells]
        for _ in range(6):
            w = int(rng.integers(len(wells)))
            pt = allv[w][rng.integers(len(allv[w]))] + rng.normal(0, 3, 3)
            shown = [k for k in range(len(wells)) if rng.random() < .7]
            r = p._get_closest_well(pt, [vm[k] for k in shown])
            if not shown:
                ctx.check(r is None, "pointer-none")
                continue
            d = [np.linalg.norm(allv[k] - pt, axis=1) for k in shown]
            k = int(np.argmin([x.min() for x in d]))
            m = wells[shown[k]][2]
            if ctx.check(r is not None and r["well"] is m, "pointer-well"):
                ctx.close(r["distance"], d[k].min(), "pointer-distance", rtol=1e-9, atol=1e-9)
                # the station is one whose ring holds a nearest vertex
                ring = np.linalg.norm(np.asarray(m.vertices) - pt, axis=-1).min(axis=1)
                ctx.close(ring[r["idx_survey"]], d[k].min(), "pointer-station", rtol=1e-9, atol=1e-9)
            ctx.event("pointer-queries")
    finally:
        p.close()
    ctx.key("scene", len(wells), wells[0][2].method)


def separation(ctx):
    if not V.VEDO:
        raise Skip("vedo")
    rng = ctx.rng
    _, md, inc, azi = gen.build(rng, md0=0.0, n=int(rng.integers(4, 9)), step=100.)
    a = we.survey.Survey(md=md, inc=inc, azi=azi, header=gen.header(), error_model="ISCWSA MWD Rev4")
    b = we.survey.Survey(md=md, inc=inc * .8, azi=azi + 9, header=gen.header(), error_model="ISCWSA MWD Rev4",
                         start_nev=[*np.round(rng.normal(0, 30, 2), 1), 0.0])
    c = we.clearance.IscwsaClearance(a, b, minimize_sf=bool(rng.random() < .5))
    ctx.case = dict(md=md, inc=inc, azi=azi, start=b.start_nev)
    lines = V.get_lines(c)
    v = np.asarray(lines.vertices).reshape(-1, 2, 3)
    ends = np.asarray(c.get_lines())
    ctx.close(v[:, 0], ends[0], "line-starts", rtol=1e-5, atol=1e-3)
    ctx.close(v[:, 1], ends[1], "line-ends", rtol=1e-5, atol=1e-3)
    r = np.column_stack([c.ref.n, c.ref.e, c.ref.tvd])
    ctx.close(ends[0], r, "line-on-reference", rtol=0, atol=1e-6)
    ctx.close(np.linalg.norm(ends[1] - ends[0], axis=1), c.distance_cc, "line-length", rtol=1e-6, atol=1e-5)
    col = np.asarray(lines.celldata[lines.celldata.keys()[0]], float)
    ctx.close(col, c.sf, "line-colour", rtol=1e-5, atol=1e-5)
    ctx.key("separation", len(c.sf) > len(md))
    ctx.event("lines", len(v))


FT, LBF = .3048, 4.4482216152605
TLEN = {"ft": FT, "m": 1.0, "meters": 1.0}
TFOR = {"lbf": LBF, "N": 1.0, "kN": 1000.0}
TTOR = {"ft_lbf": FT * LBF, "Nm": 1.0}


def loads(ctx):
    rng = ctx.rng
    kind, s = p24.well(rng)
    wb, st, bore, pipe = p24.equip(rng, s)
    td = we.torque_drag.TorqueDrag(s, wb, st, fluid_density=1.2, wob=float(rng.uniform(0, 5e4)),
                                   tob=float(rng.uniform(0, 5e3)), overpull=float(rng.uniform(0, 5e4)))
    u = None if rng.random() < .4 else dict(depth=str(rng.choice(["ft", "m"])), tension=str(rng.choice(["lbf", "kN"])),
                                            torque=str(rng.choice(["ft_lbf", "N*m"])))
    ctx.case = dict(kind=kind, units=u)
    q = u or dict(depth="ft", tension="lbf", torque="ft_lbf")
    with Watch(ctx, "figure", survey=td.survey, tension=td.tension, torque=td.torque):
        f = td.figure() if u is None else we.torque_drag.figure_string_tension_and_torque(td, units=u)
    y = np.asarray(td.survey.md) / TLEN[q["depth"]]
    want = {f"tension: {k}": (np.asarray(v) / TFOR[q["tension"]], 1) for k, v in td.tension.items()}
    want.update({f"torque: {k}": (np.asarray(v) / {"ft_lbf": FT * LBF, "N*m": 1.0}[q["torque"]], 2) for k, v in td.torque.items()})
    ctx.check(sorted(t.name for t in f.traces) == sorted(want), "load-traces", names=[t.name for t in f.traces])
    for t in f.traces:
        if t.name in want:
            ctx.close(t.x, want[t.name][0], "load-value", rtol=1e-7, atol=1e-9, trace=t.name)
            ctx.close(t.y, y, "load-depth", rtol=1e-9, atol=1e-9)
            ctx.check(t.cell == (1, want[t.name][1]), "load-panel", trace=t.name)
    for ax, key in (("xaxis", "tension"), ("xaxis2", "torque"), ("yaxis", "depth"), ("yaxis2", "depth")):
        ctx.check(q[key] in str(f.layout.get(ax, {}).get("title")), "load-axis-unit", axis=ax)
    ctx.check(all(f.layout[a].get("autorange") == "reversed" for a in ("yaxis", "yaxis2")), "load-depth-up")
    ctx.check(wb.name in f.layout["title_text"] and st.name in f.layout["title_text"], "load-title")
    ctx.key("loads", kind, str(sorted(q.values())))
    ctx.event("load-traces", len(f.traces))


def hooks(ctx):
    rng = ctx.rng
    kind, s = p24.well(rng)
    wb, st, bore, pipe = p24.equip(rng, s, .2)
    a, d = float(np.round(rng.uniform(.05, .3), 2)), float(np.round(rng.uniform(.03, .12), 2))
    ffs = (a, float(np.round(a + d * rng.integers(1, 7), 2)), d)
    if rng.random() < .3:
        ffs = (0.1, 0.4, 0.1)
    step = float(st.bottom / rng.uniform(2.2, 5))
    hl = we.torque_drag.HookLoad(s, wb, st, fluid_density=1.1, step=step, ff_range=ffs)
    u = None if rng.random() < .4 else dict(depth=str(rng.choice(["ft", "m"])), tension=str(rng.choice(["lbf", "kN"])), torque="N*m")
    q = u or dict(depth="ft", tension="lbf")
    ctx.case = dict(kind=kind, ffs=ffs, step=step, units=u)
    with Watch(ctx, "figure", data=hl.data, md=hl.md_range):
        f = hl.figure() if u is None else we.torque_drag.figure_hookload(hl, units=u)
    md = np.asarray(hl.md_range) / TLEN[q["depth"]]
    first = list(hl.data)[0]
    want = {f"SOFF: {k:.2f}": v["slackoff"] for k, v in hl.data.items()}
    want.update({f"PUFF: {k:.2f}": v["pickup"] for k, v in hl.data.items()})
    want[f"RoffBFF: {first:.2f}"] = hl.data[first]["rotating"]
    want_n = sorted(f"{n}: {k:.2f}" for n in ("SOFF", "PUFF") for k in hl.data) + [f"RoffBFF: {first:.2f}"]
    ctx.check(sorted(t.name for t in f.traces) == sorted(want_n), "hook-traces", names=[t.name for t in f.traces])
    for t in f.traces:
        if t.name in want:
            ctx.close(t.x, np.asarray(want[t.name]) / TFOR[q["tension"]], "hook-value", rtol=1e-7, atol=1e-9, trace=t.name)
            ctx.close(t.y, md, "hook-depth", rtol=1e-9, atol=1e-9)
    for a in f.layout.get("annotations", []):
        t = [t for t in f.traces if t.name.startswith(("SOFF", "PUFF")) and t.name.endswith(a["text"])
             and abs(t.x[-1] - a["x"]) <= 1e-6 * (1 + abs(a["x"]))]
        ctx.check(len(t) >= 1 and abs(a["y"] - md[-1]) < 1e-6 * (1 + md[-1]), "hook-label", text=a["text"])
    ctx.check(f.layout["yaxis"].get("autorange") == "reversed" and q["depth"] in f.layout["yaxis"]["title"]
              and q["tension"] in f.layout["xaxis"]["title"], "hook-axes")
    ctx.key("hooks", len(hl.data), str(sorted(q.values())))
    ctx.event("hook-traces", len(f.traces))


def circles(ctx):
    rng = ctx.rng
    kind, s = path(rng)
    ctx.case = dict(kind=kind, md=s.md, inc=s.inc_deg, azi=s.azi_grid_deg, unit=s.unit)
    with Watch(ctx, "get_circle_radius", survey=s), np.errstate(all="ignore"):
        starts, ends = we.survey.get_circle_radius(s)
    n = len(s.md) - 1
    pos = np.column_stack([s.n, s.e, s.tvd])
    t = np.asarray(s.vec_nev)
    D = ref.angle(t[:-1], t[1:])
    L = np.diff(s.md)
    if not ctx.check(len(starts) == len(ends) == 2 * n, "circle-count"):
        return
    ctx.close(ends, np.vstack([pos[:-1], pos[1:]]), "circle-ends", rtol=1e-12, atol=1e-9)
    for k in range(n):
        if D[k] < 1e-3 or D[k] > 3.0:
            continue
        R = L[k] / D[k]
        nrm = t[k + 1] - t[k] * np.cos(D[k])
        c = pos[k] + R * nrm / np.linalg.norm(nrm)
        tol = 1e-6 * R + 1e-12 * R / D[k] ** 2 + 1e-6
        ctx.close(starts[k], c, "centre-from-start", rtol=0, atol=tol, interval=k)
        ctx.close(starts[n + k], c, "centre-from-end", rtol=0, atol=tol, interval=k)
        ctx.event("circles")
    ctx.key("circles", kind, s.unit)


class TextBox:
    def __init__(self):
        self.said = None

    def text(self, t):
        self.said = t
        return self


def pointer(ctx):
    """The text at the pointer states the station it is at."""
    if not V.VEDO:
        raise Skip("vedo")
    rng = ctx.rng
    wells = [mesh_of(rng, 8) for _ in range(int(rng.integers(1, 4)))]
    for k, (_, s, m) in enumerate(wells):
        s.header.name = f"well {k}"
    p = V.Plotter(offscreen=True)
    ctx.case = dict(n=len(wells), kinds=[w[0] for w in wells])
    try:
        for _, _, m in wells:
            p.add(m)
        p.pointer, p.pointer_text = None, TextBox()
        p.render = lambda *a, **k: p
        spot = {}
        p.compute_world_coordinate = lambda pt, **k: spot["at"]
        if len(wells) and rng.random() < .3:       # off the wells before anything was found: nothing to say
            spot["at"] = np.zeros(3)
            p._pointer_callback(types.SimpleNamespace(at=0, picked2d=(1, 1)))
            ctx.check(p.pointer is None and not p.pointer_text.said, "pointer-off")
        for _ in range(4):
            w = int(rng.integers(len(wells)))
            m, s = wells[w][2], wells[w][1]
            vs = np.asarray(m.vertices)
            k = int(rng.integers(len(vs)))
            spot["at"] = pt = vs[k, int(rng.integers(vs.shape[1]))] + rng.normal(0, .01, 3)
            if np.linalg.norm(pt) < .02:
                continue
            p._pointer_callback(types.SimpleNamespace(at=0, picked2d=(5, 7)))
            d = [np.linalg.norm(np.asarray(x[2].vertices) - pt, axis=-1).min(axis=1) for x in wells]
            best = min(x.min() for x in d)
            ok, t = False, str(p.pointer_text.said)
            for (_, s2, m2), ring in zip(wells, d):
                for j in np.flatnonzero(ring <= best + 1e-6):
                    ok |= (f"well name: {s2.header.name}\n" in t and f"md: {s2.md[j]:.2f}" in t
                           and f"inc: {s2.inc_deg[j]:.2f}" in t and f"azi: {s2.azi_grid_deg[j]:.2f}" in t
                           and f"dls: {s2.dls[j]:.2f}" in t)
            ctx.check(ok, "pointer-text", text=t, station=k, well=w)
            ctx.check(str(np.round(pt, 3)) in t, "pointer-coordinates", text=t)
            ctx.close(np.ravel(p.pointer.pos()), pt, "pointer-mark", rtol=1e-5, atol=1e-3)
            ctx.check(sum(o is p.pointer for o in p.objects) == 1, "pointer-marks")
            ctx.event("pointer-texts")
        if p.pointer is not None:
            mark = p.pointer
            spot["at"] = np.zeros(3)
            p._pointer_callback(types.SimpleNamespace(at=0, picked2d=(1, 1)))
            ctx.check(p.pointer is None and p.pointer_text.said == "" and all(o is not mark for o in p.objects),
                      "pointer-left")
    finally:
        p.close()
    ctx.key("pointer", len(wells), wells[0][2].method)


def quick_plot(ctx):
    """plot() puts every item into the scene, in its colour."""
    if not V.VEDO:
        raise Skip("vedo")
    rng = ctx.rng
    items = [mesh_of(rng, 8)[2] for _ in range(int(rng.integers(1, 4)))]
    if rng.random() < .4:
        m = items[-1].mesh
        items[-1] = types.SimpleNamespace(vertices=m.vertices, faces=m.faces)
    names = ["red", "green", "blue", "yellow"]
    colors = None if rng.random() < .3 else [str(c) for c in rng.permutation(names)[:int(rng.integers(1, 4))]]
    data = items if len(items) > 1 or rng.random() < .5 else items[0]
    if isinstance(data, list) and rng.random() < .3:
        data = tuple(data)
    import vedo
    lines = vedo.Lines([[0, 0, 0]], [[1, 1, 1]]) if rng.random() < .5 else None
    arrows = vedo.Arrows([[0, 0, 0]], [[1, 1, 1]]) if rng.random() < .5 else None
    inter = bool(rng.random() < .5)
    seen = []
    old = V.VedoPlotter.show, V.Plotter._initiate_axes_actor, getattr(V, "CubeAxes", None)

    def show(self, *a, **k):
        seen.append((self, list(self.objects), k))
        return self
    ctx.case = dict(n=len(items), colors=colors, lines=lines is not None, arrows=arrows is not None)
    init = V.Plotter.__init__
    try:
        V.VedoPlotter.show = show
        V.Plotter._initiate_axes_actor = lambda self: None
        V.CubeAxes = lambda *a, **k: "cube"
        V.Plotter.__init__ = lambda self, *a, **k: init(self, *a, **dict(k, offscreen=True))
        V.plot(data, colors=colors, lines=lines, arrows=arrows, interactive=inter)
    finally:
        V.VedoPlotter.show, V.Plotter._initiate_axes_actor, V.CubeAxes = old
        V.Plotter.__init__ = init
        for x in seen:
            x[0].close()
    if not ctx.check(len(seen) == 1, "plot-shown", times=len(seen)):
        return
    p, objs, kw = seen[0]
    ctx.check(kw.get("interactive") == inter and kw.get("viewup") == [0, 0, -1] and kw.get("axes") == "cube",
              "plot-view", kw=repr(kw))
    for o, name in ((lines, "lines"), (arrows, "arrows")):
        if o is not None:
            ctx.check(sum(x is o for x in objs) == 1, "plot-extra", of=name)
    meshes_ = [o for o in objs if isinstance(o, vedo.Mesh) and o is not lines and o is not arrows]
    if ctx.check(len(meshes_) == len(items), "plot-items", drawn=len(meshes_), n=len(items)):
        for k, (o, it) in enumerate(zip(meshes_, items)):
            m = getattr(it, "mesh", it)
            ctx.close(np.asarray(o.vertices), m.vertices, "plot-vertices", rtol=1e-5, atol=1e-3)
            if colors and k < len(colors):
                ctx.close(o.color(), vedo.get_color(colors[k]), "plot-colour", rtol=0, atol=1e-6, item=k)
    ctx.key("plot", len(items), bool(colors) and len(colors) >= len(items), type(data).__name__)
    ctx.event("plots")


def targets(ctx):
    """A circle target is drawn about its own position, dipping as asked."""
    T = we.target
    if not T.VEDO:
        raise Skip("vedo")
    rng = ctx.rng
    n, e, z = (float(x) for x in np.round(rng.uniform(-900, 900, 3), 1))
    z = abs(z)
    r = float(np.round(rng.uniform(5, 200), 1))
    dip = float(rng.choice([0, 0, 90, 30, 12.5]))
    ori = float(rng.choice([0, 90, 45, 200, -30]))
    kw = {}
    if dip or rng.random() < .5:
        kw["dip"] = dip
    if ori or rng.random() < .5:
        kw["orientation"] = ori
    ctx.case = dict(n=n, e=e, tvd=z, r=r, **kw)
    t = T.Target("T", n, e, z, "circle", radius=r, **kw)
    ctx.check((t.name, t.n, t.e, t.tvd, t.shape, t.geometry["radius"]) == ("T", n, e, z, "circle", r), "target-kept")
    g = t.plot_data()
    v = np.asarray(g.vertices, float) - [n, e, z]
    a, b = np.radians([dip, ori])
    normal = np.array([np.sin(a) * np.cos(b), np.sin(a) * np.sin(b), np.cos(a)])
    ctx.close(v.mean(0), 0, "target-centre", rtol=0, atol=2e-2)
    ctx.close(np.ravel(g.pos())[:2], [n, e], "target-pos", rtol=1e-6, atol=1e-3)
    rim = np.linalg.norm(v, axis=1)
    ctx.close(rim.max(), r, "target-radius", rtol=1e-3)
    ctx.close(v @ normal, 0, "target-plane", rtol=0, atol=1e-3 * r + 1e-2, dip=dip, orientation=ori)
    ctx.raises(lambda: T.Target("T", n, e, z, "blob", radius=r), "target-shape")
    ctx.raises(lambda: T.Target("T", n, e, z, "circle", radius_1=r), "target-geometry")
    ctx.key("target", dip, ori)
    ctx.event("targets")


SCENARIOS = [
    Scenario("paths3d", paths3d, 120, 2500),
    Scenario("panels", panels, 60, 1200),
    Scenario("meshes", meshes, 80, 1600),
    Scenario("scene", scene, 30, 500),
    Scenario("pointer", pointer, 24, 400),
    Scenario("quick_plot", quick_plot, 24, 400),
    Scenario("targets", targets, 40, 800),
    Scenario("separation", separation, 24, 300),
    Scenario("loads", loads, 60, 1000),
    Scenario("hooks", hooks, 30, 400),
    Scenario("circles", circles, 150, 3000),
]
