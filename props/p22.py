"""P22  Landmark .wbp well plan files."""
import os
import tempfile
from copy import deepcopy

from vmon import gen, ref
from vmon.core import Scenario
from vmon.env import np, we
from vmon.purity import Watch
from vmon.wells import Curve, plan

META = dict(
    title='Well plans survive a round trip through .wbp files',
    statement=('A well plan made from a survey and exported to the .wbp format loads back with the same '
               'units, names, targets and plan points to the precision of the format, however many plans '
               'share the file, with or without comments, blank lines and a parent plan, and exporting what '
               'was loaded gives the same lines again. Extended survey points and target geometry in a file '
               'are read field by field. A loaded plan converts to a survey that starts at its first '
               'location, passes through all of its plan points and ends at the last, in the same unit and '
               'at the latitude and longitude of its UTM coordinates. Stripping duplicates from a survey '
               'drops repeated stations and nothing else. Surveys are not changed and plans and targets '
               'share nothing.'),
    over=['inputs', 'configurations'],
    quantifier='all planned wells of holds and arcs, both unit systems, all header fields, several plans per file',
    why='No test opens a .wbp file; fixed columns and rounding fail only for particular values.',
    files=['welleng/exchange/wbp.py', 'welleng/survey.py'],
    mechanism=[('export', 'welleng/exchange/wbp.py:export'),
               ('load', 'welleng/exchange/wbp.py:load'),
               ('survey', 'welleng/exchange/wbp.py:wbp_to_survey'),
               ('duplicates', 'welleng/exchange/wbp.py:strip_duplicates')],
)
PROPERTY, LEVEL = "P22", "exploration"
RULE = ("a case writes, reads, rewrites and converts one set of plans; distinct classes are (unit, number of "
        "plans, header fields used, targets, blank lines) tuples")
ASSUMPTIONS = ["names fit their columns and hold no colons; locations fit ten digits",
               "start locations are UTM coordinates in the northern hemisphere"]
W = we.exchange.wbp
TYPES = ['unknown', 'surface', 'ow_sidetrack', 'wp_sidetrack', 'look_ahead', 'ow_well', 'complex_extension', 'site', 'site_based_plan', 'compass_well']


def make(ctx, unit, md0=0.0):
    rng = ctx.rng
    p = plan(rng, unit, md0=md0)
    k = 1 / .3048 if unit == "feet" else 1.0
    start = np.round(np.array([rng.uniform(1e5, 9e6), rng.uniform(2e5, 8e5), rng.choice([0., -25., 120.])]) * k, 2)
    h = gen.header(rng, depth_unit=unit, surface_unit=unit)
    azi = p["azi"]
    ref_off = {"grid": 0, "true": np.degrees(h.convergence), "magnetic": np.degrees(h.convergence - h.declination)}
    s = we.survey.Survey(md=p["md"], inc=p["inc"], azi=np.mod(azi + ref_off[h.azi_reference], 360), header=h, unit=unit, start_nev=start)
    return p, start, s


def targets(rng):
    out = []
    for k in range(int(rng.integers(0, 3))):
        t = W.Target(f"Target {k} {rng.integers(1000)}", location=np.round(rng.normal(0, 1e5, 3), 2).tolist())
        if rng.random() < .5:
            t.geometry["color"]["color"] = int(rng.integers(0, 256))
        out.append(t)
    return out


def fields(w):
    return {k: getattr(w, k) for k in ("plan_name", "parent_name", "location_type", "plan_method", "dirty_flag", "sidetrack_id", "dls", "extension")}


def rnd(x, n):
    return float(f"{x:.{n}f}")


def same_steps(ctx, got, want, name, first=True):
    if not ctx.check(len(got) == len(want), f"{name}-steps", got=len(got), want=len(want)):
        return
    for k, (g, s) in enumerate(zip(got, want)):
        for a, n in (("md", 2), ("azi", 3), ("inc", 3), ("build_rate", 3), ("turn_rate", 3), ("dls", 3), ("toolface", 3)):
            e = .55 * 10.0 ** -(2 if a == "toolface" and getattr(s, a) < -99 else n)
            ctx.close(getattr(g, a), getattr(s, a), f"{name}-{a}", rtol=0, atol=e, step=k)
        ctx.close(g.location, s.location, f"{name}-location", rtol=0, atol=.0051, step=k)
        ctx.check(bool(g.tie_on) == (k == 0), f"{name}-tie-on", step=k)
        if k:
            ctx.check(g.method == s.method, f"{name}-method", step=k, got=g.method, want=s.method)


def alike(a, b):
    """Equal lines, give or take the last digit of a number that is rounded again."""
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x != y:
            x, y = x.split(), y.split()
            if len(x) != len(y) or x[0] != y[0] or x[0] not in ("P:", "L:"):
                return False
            for u, v in zip(x[1:], y[1:]):
                if u != v and abs(float(u) - float(v)) > .011:
                    return False
    return True


def trip(ctx):
    rng = ctx.rng
    unit = str(rng.choice(["meters", "feet"]))
    n = int(rng.choice([1, 1, 2, 3]))
    plans, parts = [], []
    for k in range(n):
        p, start, s = make(ctx, unit)
        kw = dict(plan_name=f"Plan {k} {'x' * int(rng.integers(0, 50))}", location_type=str(rng.choice(TYPES)))
        if rng.random() < .5:
            kw["parent_name"] = "Parent of " + str(k)
        if rng.random() < .3:
            kw["sidetrack_id"] = str(int(rng.integers(1, 9999999)))
        if rng.random() < .5:
            kw["dls"] = float(np.round(rng.uniform(0, 15), 2))
        if rng.random() < .3:
            kw["extension"] = float(np.round(rng.uniform(0, 9), 5))
        if rng.random() < .4:
            kw["plan_method"] = str(rng.choice(["curve_only", "curve_hold", "opt_align"]))
        if rng.random() < .2:
            kw["dirty_flag"] = "locked_plan"
        if k == 0:
            kw["targets"] = targets(rng)
        with Watch(ctx, "WellPlan", s=s):
            w = W.WellPlan(survey=s, depth_unit=unit, surface_unit=unit, **kw)
        ctx.check(w.targets is not W.WellPlan(survey=s, plan_name="o", location_type="site").targets, "shared-targets")
        plans.append(w)
        parts.append((p, start, s, kw))
    comments = [None, ["made by", "! a check"]][int(rng.random() < .4)]
    ctx.case = dict(unit=unit, n=n, headers=[{k: v for k, v in q[3].items() if k != "targets"} for q in parts], md=parts[0][0]["md"], inc=parts[0][0]["inc"], azi=parts[0][0]["azi"])
    d = tempfile.mkdtemp(prefix="p22-")
    try:
        f = os.path.join(d, "a.wbp")
        arg = plans if n > 1 or rng.random() < .5 else plans[0]
        doc = W.export(arg, comments=comments)
        W.export(arg, filename=f, comments=comments)
        with open(f) as fh:
            text = fh.read().split("\n")
        strip = (lambda ls: [q.rstrip() for q in ls if q.strip() and not (q[:3] == "! 2")])
        ctx.check(strip(text) == strip(doc), "file-vs-lines")
        blank = rng.random() < .4
        if blank:
            at = sorted(rng.integers(1, len(text), 3).tolist(), reverse=True)
            for a in at:
                text.insert(a, str(rng.choice(["", "   ", "! note"])))
            with open(f, "w") as fh:
                fh.write("\n".join(text))
        back = W.load(f)
    finally:
        for q in os.listdir(d):
            os.unlink(os.path.join(d, q))
        os.rmdir(d)
    if not ctx.check(len(back) == n, "plans", got=len(back), want=n):
        return
    for k, (b, w) in enumerate(zip(back, plans)):
        ctx.check(b.depth_unit == unit and b.surface_unit == unit, "units", got=(b.depth_unit, b.surface_unit))
        a, c = fields(b), fields(w)
        for q in c:
            if q in ("dls", "extension"):
                ctx.close(a[q], c[q], f"header-{q}", rtol=0, atol=.0051 if q == "dls" else 6e-6)
            else:
                g, v = ("" if x is None or x == "None" else x for x in (a[q], c[q]))
                ctx.check(str(g) == str(v).strip(), f"header-{q}", got=g, want=v)
        same_steps(ctx, b.steps, w.steps, "step")
        # the plan points are stations of the survey
        p, start, s, _ = parts[k]
        for t in w.steps:
            j = int(np.argmin(np.abs(s.md - t.md)))
            ctx.close([t.md, t.inc, *t.location], [s.md[j], s.inc_deg[j], s.e[j], s.n[j], -s.tvd[j]], "plan-point", rtol=0, atol=1e-6)
            ctx.close(ref.wrap(np.radians(t.azi) - s.azi_grid_rad[j]), 0, "plan-point-azi", rtol=0, atol=1e-9)
        ctx.close(np.asarray(w.env_local, float), np.array([t.location for t in w.steps]) - [start[1], start[0], 0], "local-coordinates", rtol=0, atol=1e-6)
    if n:
        tg, tw = back[0].targets, plans[0].targets
        if ctx.check(len(tg) == len(tw), "targets", got=len(tg), want=len(tw)):
            for g, t in zip(tg, tw):
                ctx.check(g.name == t.name, "target-name", got=g.name, want=t.name)
                ctx.close(g.location, t.location, "target-location", rtol=0, atol=.0051)
                ctx.check(g.geometry["color"]["color"] == t.geometry["color"]["color"], "target-colour", got=g.geometry["color"], want=t.geometry["color"])
    again = W.export(back if n > 1 else back[0], comments=comments)
    ctx.check(alike(strip(again), strip(doc)), "export-again", got=[q for q in strip(again) if q not in strip(doc)][:3], want=[q for q in strip(doc) if q not in strip(again)][:3])
    ctx.key("trip", unit, n, blank, len(plans[0].targets), tuple(sorted(parts[0][3])))
    ctx.event("plans", n)
    # to a survey
    k = int(rng.integers(n))
    p, start, s, _ = parts[k]
    step = [None, 30.][int(rng.random() < .3)]
    kw = dict(azi_reference="grid", convergence=float(rng.uniform(-.03, .03))) if rng.random() < .4 else {}
    r = W.wbp_to_survey(back[k], step=step, radius=.3, **kw)
    pos = np.column_stack([r.n, r.e, r.tvd])
    ctx.check(r.unit == unit and r.header.depth_unit == unit, "survey-unit", got=r.unit)
    ctx.close(pos[0], start, "survey-start", rtol=0, atol=.006)
    ctx.close(r.radius, np.full(len(r.md), .3), "survey-radius")
    c = Curve(r.md, r.inc_rad, r.azi_grid_rad, pos[0])
    # md to 0.005, angles to 0.0005 deg, severities to 0.0005 deg per length
    tol = .05 + 3e-5 * float(r.md[-1]) + sum(L * 1e-3 / max(q, .2) for L, q in p["rows"] if q)
    want = [t for t in plans[k].steps[1:]]
    for t in want:
        ctx.close(c.at_md(t.md), [t.location[1], t.location[0], -t.location[2]], "survey-off-plan", rtol=0, atol=tol, md=t.md)
        j = int(np.argmin(np.abs(r.md - t.md)))
        ctx.close(r.md[j], t.md, "survey-plan-md", rtol=0, atol=.02)
        ctx.close(ref.angle(r.vec_nev[j], ref.tangent(np.radians(t.inc), np.radians(t.azi))), 0, "survey-plan-direction", rtol=0, atol=1e-3)
    ctx.close(r.md[-1], s.md[-1], "survey-td", rtol=0, atol=.02)
    ctx.check(np.all(np.diff(r.md) > 0), "survey-md-order")
    import utm
    la, lo = utm.to_latlon(start[1] * (.3048 if unit == "feet" else 1), start[0] * (.3048 if unit == "feet" else 1), 31, northern=True)
    ctx.close([r.header.latitude, r.header.longitude], np.radians([la, lo]) if abs(r.header.latitude - np.radians(la)) < abs(r.header.latitude - la) else [la, lo], "survey-latitude", rtol=0, atol=1e-6)
    ctx.event("surveys")


def read(ctx):
    """Files by other writers: survey points, target geometry, a parent plan."""
    rng = ctx.rng
    unit = str(rng.choice(["1", "2", "3", "4"]))
    U = {"1": ("feet", "feet"), "2": ("meters", "meters"), "3": ("meters", "feet"), "4": ("feet", "meters")}[unit]
    tg, xs = [], []
    lines = [f"DEPTH {unit}", "! something", "TARGETS:"]
    for k in range(int(rng.integers(0, 4))):
        name, loc = f"T{k}", np.round(rng.normal(0, 9e5, 3) * [1, 1, .01], 2)
        g = dict(type=str(rng.choice(["1", "2", "3"])), off=np.round(rng.normal(0, 500, 2), 2), color=int(rng.integers(0, 99)), geo=bool(rng.random() < .6))
        lines += [f"T:{name}", f"L:{loc[0]:>13.2f}{loc[1]:>13.2f}{loc[2]:>11.2f}", f"C:{g['color']:>3}"]
        if g["geo"]:
            lines.append(f"G:{g['type']}1{g['off'][0]:>9.2f}{g['off'][1]:>10.2f}")
        tg.append((name, loc, g))
    lines.append("WELLPLANS:")
    lines.append(f"W:1{unit}00   0 123 {'':>7} {'well':<60} {'':<60} {3.0:>6.2f} {0:>7.5f}")
    md = 0.0
    loc = np.round(rng.normal(0, 1e5, 3), 2)
    lines += [f"P: {0:>7.2f} {0:>7.3f} {0:>7.3f} {0:>7.3f} {0:>7.3f} {0:>7.3f} {0:>7.3f}", f"L:{loc[0]:>13.2f}{loc[1]:>13.2f}{loc[2]:>11.2f}"]
    for k in range(int(rng.integers(1, 12))):
        md += float(np.round(rng.uniform(5, 60), 2))
        x = dict(cov=np.round(rng.normal(0, 300, 6), 1), bias=np.round(rng.normal(0, 5, 3), 2), tool=str(rng.choice(["MWD", "GYRO north seeking", ""])),
                 md=md, inc=float(np.round(rng.uniform(0, 90), 3)), azi=float(np.round(rng.uniform(0, 359), 3)), loc=np.round(rng.normal(0, 1e5, 3), 2))
        lines += ["X: " + " ".join(f"{q:>8.1f}" for q in x["cov"]) + " " + " ".join(f"{q:>7.2f}" for q in x["bias"]) + f" {x['tool']:<38}",
                  f"S: {x['md']:>7.2f} {x['azi']:>7.3f} {x['inc']:>7.3f}", f"L:{x['loc'][0]:>13.2f}{x['loc'][1]:>13.2f}{x['loc'][2]:>11.2f}"]
        xs.append(x)
    ctx.case = dict(lines=lines[:12], n=len(lines))
    d = tempfile.mkdtemp(prefix="p22-")
    try:
        f = os.path.join(d, "b.wbp")
        with open(f, "w") as fh:
            fh.write("\n".join(lines) + "\n")
        r = W.load(f)
        # on top of it as the parent
        p, start, s = make(ctx, "meters")
        child = W.WellPlan(survey=s, plan_name="child", location_type="wp_sidetrack", parent_wbp_file=f)
        doc = W.export(child)
    finally:
        os.unlink(f)
        os.rmdir(d)
    if not ctx.check(len(r) == 1, "read-plans"):
        return
    w = r[0]
    ctx.check((w.depth_unit, w.surface_unit) == U, "read-units", got=(w.depth_unit, w.surface_unit))
    if ctx.check(len(w.targets) == len(tg), "read-targets"):
        for t, (name, loc_, g) in zip(w.targets, tg):
            ctx.check(t.name == name, "read-target-name")
            ctx.close(t.location, loc_, "read-target-location", rtol=0, atol=1e-9)
            ctx.check(t.geometry["color"]["color"] == g["color"], "read-target-colour", got=t.geometry["color"]["color"], want=g["color"])
            if g["geo"]:
                ctx.check(t.geometry["type"] == {"1": "circle", "2": "ellipse", "3": "rectangle"}[g["type"]], "read-target-type")
                ctx.close(t.geometry["offset"], g["off"], "read-target-offset", rtol=0, atol=1e-9)
            else:
                ctx.check(t.geometry["type"] is None, "read-target-leak", got=t.geometry["type"])
    if ctx.check(len(w.steps) == 1 + len(xs), "read-steps", got=len(w.steps)):
        ctx.close(w.steps[0].location, loc, "read-tie-on")
        for q, x in zip(w.steps[1:], xs):
            ctx.close([q.cov_xx, q.cov_xy, q.cov_xz, q.cov_yy, q.cov_yz, q.cov_zz], x["cov"], "read-covariance", rtol=0, atol=1e-9)
            ctx.close([q.x_bias, q.y_bias, q.z_bias], x["bias"], "read-bias", rtol=0, atol=1e-9)
            ctx.close([q.md, q.inc, q.azi], [x["md"], x["inc"], x["azi"]], "read-station", rtol=0, atol=1e-9)
            ctx.close(q.location, x["loc"], "read-location", rtol=0, atol=1e-9)
            ctx.check(q.tool == x["tool"], "read-tool", got=q.tool, want=x["tool"])
    # survey points that were made, not read, are written alike
    made = deepcopy(w)
    made.steps[1:] = [W.SurveyPoint(
        **dict(zip(("cov_xx", "cov_xy", "cov_xz", "cov_yy", "cov_yz", "cov_zz"), x["cov"])),
        **dict(zip(("x_bias", "y_bias", "z_bias"), x["bias"])), tool=x["tool"], md=x["md"], inc=x["inc"], azi=x["azi"], location=x["loc"]) for x in xs]
    pick = lambda ls: [q.rstrip() for q in ls if q[:2] in ("X:", "S:", "L:")][-3 * len(xs):]
    got = W.export(made)
    ctx.check(pick(got) == pick(lines), "survey-points-written", got=pick(got)[:3], want=pick(lines)[:3])
    head = lines.index("WELLPLANS:")
    at = doc.index("WELLPLANS:")
    ctx.check([q.rstrip() for q in doc[at + 1:at + 1 + len(lines) - head - 1]] == [q.rstrip() for q in lines[head + 1:]], "parent-lines")
    ctx.close(np.asarray(child.env_local, float), np.array([t.location for t in child.steps]) - [loc[0], loc[1], 0], "parent-local-coordinates", rtol=0, atol=1e-6)
    ctx.key("read", unit, len(tg), len(xs))
    ctx.event("files")


def dups(ctx):
    rng = ctx.rng
    kind, md, inc, azi = gen.traj(rng)
    h = gen.header(rng)
    rad = np.round(rng.uniform(.1, .5), 2)
    s = we.survey.Survey(md=md, inc=inc, azi=azi, header=h, radius=rad, start_nev=[1., 2., 3.])
    with Watch(ctx, "strip_duplicates", s=s):
        r = W.strip_duplicates(s)
    ctx.case = dict(md=md, inc=inc, azi=azi)
    if ctx.check(len(r.md) == len(s.md), "duplicates-station-lost", got=len(r.md), want=len(s.md)):
        ctx.close(r.md, s.md, "duplicates-md", rtol=1e-12)
        ctx.close(np.column_stack([r.n, r.e, r.tvd]), np.column_stack([s.n, s.e, s.tvd]), "duplicates-path", rtol=0, atol=1e-7 * (1 + md[-1]))
    # a survey with repeated stations
    k = np.sort(np.append(np.arange(len(md)), rng.integers(0, len(md), 3)))

    class Rep:
        pass
    q = Rep()
    for a in ("md", "inc_rad", "azi_grid_rad", "radius"):
        setattr(q, a, np.asarray(getattr(s, a))[k])
    for a in ("header", "start_nev", "start_xyz", "unit"):
        setattr(q, a, deepcopy(getattr(s, a)))
    r = W.strip_duplicates(q)
    if ctx.check(len(r.md) == len(s.md), "duplicates-left", got=len(r.md), want=len(s.md)):
        ctx.close(np.column_stack([r.n, r.e, r.tvd]), np.column_stack([s.n, s.e, s.tvd]), "duplicates-path-2", rtol=0, atol=1e-7 * (1 + md[-1]))
    ctx.key("dups", kind, h.azi_reference)
    ctx.event("stripped")


SCENARIOS = [Scenario("trip", trip, 250, 4000), Scenario("read", read, 200, 4000), Scenario("dups", dups, 150, 3000)]
