"""P17  Sections joined into a survey keep their path."""
from vmon import gen, ref
from vmon.core import Scenario, Skip
from vmon.env import np, we
from vmon.purity import Watch
from vmon.wells import Curve
from props.p16 import UNIT_LEN, aim, direction, perp_to

META = dict(
    title='Sections joined into a survey keep their path',
    statement=('A survey built from a chain of connectors follows the chain: it starts at the first '
               "section's start moved by start_nev, contains every section's start and end at their "
               'depths, positions and directions, marks those and only those as not interpolated, has '
               'stations at every multiple of the step, strictly increasing depths, and positions '
               'between them on the arcs and holds of the sections. A coarser or finer step, or no step, '
               'describes the same path. Splitting a survey into one connector per interval and joining '
               'them again gives the survey back. The start covariance, radius, unit and header are '
               'passed on; the sections are not changed.'),
    over=['inputs', 'configurations', 'histories'],
    quantifier='all chains of one to six sections of every kind (hold, build to a direction, to a depth, to a position, to a position and direction), any start, both units, steps from 1 to 200 or none',
    why='The tests join a handful of sections and look at counts or attributes; none follows the joined path between the stations.',
    files=['welleng/survey.py', 'welleng/connector.py'],
    mechanism=[('join', 'welleng/survey.py:from_connections / _remove_duplicates'),
               ('stepping', 'welleng/connector.py:interpolate_well / interpolate_curve / interpolate_hold')],
)
PROPERTY, LEVEL = "P17", "exploration"
RULE = ("a case is one chain of sections joined at two steps; distinct classes are (section "
        "kinds, unit, step, start kind) tuples")
ASSUMPTIONS = ["chains contain no arc of more than 170 degrees"]


def chain(ctx, rng):
    unit = str(rng.choice(["meters", "feet"]))
    dls = float(rng.choice([1., 2., 3., 5.]))
    R = UNIT_LEN[unit] / np.radians(dls)
    p = np.round(rng.normal(0, 800, 3), 2) if rng.random() < .6 else np.zeros(3)
    md = float(rng.choice([0.0, np.round(rng.uniform(0, 3000), 2)]))
    _, _, v = direction(rng, 0, 100)
    out, kinds = [], []
    p0, v0, md0 = p, v, md
    C = we.connector.Connector
    for k in range(int(rng.integers(1, 6))):
        kind = str(rng.choice(["hold", "dir", "dirmd", "pos", "pose", "md"]))
        kw = dict(dls_design=dls, unit=unit)
        if out and rng.random() < .8:
            kw["node1"] = out[-1].node_end
        else:
            kw.update(pos1=np.array(p), vec1=np.array(v), md1=md)
        if kind in ("hold", "md"):
            kw["md2"] = md + float(np.round(rng.uniform(5, 900), 2))
            if rng.random() < .4:       # half way between two roundings
                kw["md2"] = float(np.round(kw["md2"], 4)) + 5e-5
        elif kind == "dir":
            kw["vec2"] = aim(rng, v, float(rng.uniform(.05, 1.4)))
        elif kind == "dirmd":
            a = float(rng.uniform(.05, 1.2))
            kw.update(vec2=aim(rng, v, a), md2=md + R * a * float(rng.uniform(.6, 3)))
        elif kind == "pos":
            kw["pos2"] = p + R * float(rng.uniform(1.5, 6)) * aim(rng, v, float(rng.uniform(.02, .5)))
        else:
            u = aim(rng, v, float(rng.uniform(0.02, .8)))
            kw.update(pos2=p + R * float(rng.uniform(5.5, 12)) * u, vec2=aim(rng, u, float(rng.uniform(.02, .8))))
        c = C(**kw)
        out.append(c)
        kinds.append(kind)
        md = float(c.md_target)
        p, v = np.array(c.pos_target, float), np.array(c.vec_target, float)
    return unit, R, out, kinds, p0, v0, md0


def fine(sections):
    """The chain as one continuous curve through its own control points."""
    md, inc, azi = [], [], []
    for c in sections:
        for d in c.interpolate(None):
            md.append(np.ravel(d["md"])), inc.append(np.ravel(d["inc"])), azi.append(np.ravel(d["azi"]))
    md, inc, azi = map(np.concatenate, (md, inc, azi))
    keep = np.r_[True, np.diff(md) > 1e-9]
    return md[keep], inc[keep], azi[keep]


def join(ctx):
    rng = ctx.rng
    unit, R, secs, kinds, p0, v0, md0 = chain(ctx, rng)
    off = np.round(rng.normal(0, 500, 3), 2) if rng.random() < .4 else np.zeros(3)
    step = rng.choice([None, 1.0, 10., 30., 30., 50., 200.])
    step = None if step is None else float(step)
    length = secs[-1].md_target - md0
    if step is not None and length / step > 4000:
        step = float(np.ceil(length / 4000))
    if step is not None and rng.random() < .35:
        # the end of some section is (but for the rounding) one of the steps
        e = float(secs[int(rng.integers(len(secs)))].md_target)
        step = e / max(1, round(e / step))
    radius = float(rng.choice([10, .2, 1.5]))
    cov = err = None
    hdr = gen.header(rng, depth_unit=unit, surface_unit=unit, azi_reference="grid") if rng.random() < .5 else None
    if hdr is not None and rng.random() < .3 and step != 1.0:
        err = "ISCWSA MWD Rev4"
        a = rng.normal(size=(3, 3))
        cov = (a @ a.T).reshape(1, 3, 3)
    ctx.case = dict(kinds=kinds, unit=unit, step=step, off=off, R=R, start=p0, md0=md0,
                    ends=[np.array(c.pos_target) for c in secs])
    kw = dict(step=step, start_nev=off, radius=radius, depth_unit=unit, survey_header=hdr, error_model=err)
    if cov is not None:
        kw["start_cov_nev"] = cov
    with Watch(ctx, "from_connections", header=hdr, cov=cov, off=off,
               nodes=[(c.node_start, c.node_end) for c in secs]):
        s = we.survey.from_connections(secs if len(secs) > 1 or rng.random() < .5 else secs[0], **kw)
    m, i, a = fine(secs)
    P = Curve(m, i, a, p0 + off)
    L = length + np.abs(p0).max()
    tol = 1e-7 * L + 2e-3 * len(secs)   # each section may end 1 mm off its own target
    md = np.asarray(s.md, float)
    ctx.check(np.all(np.diff(md) > 0), "md-order", md=md)
    ctx.check(np.all(np.diff(md) > 4e-5), "md-rounding-duplicates", md=md[1:][np.diff(md) <= 4e-5])
    ctx.close(md[0], md0, "start-md", atol=1e-6, rtol=1e-12)
    ctx.close(md[-1], secs[-1].md_target, "end-md", atol=1e-4, rtol=1e-12)
    ctx.close([s.n[0], s.e[0], s.tvd[0]], p0 + off, "start-position", atol=1e-6, rtol=1e-12)
    pos = np.column_stack([s.n, s.e, s.tvd])
    ctx.close(pos, P.at_md(np.clip(md, m[0], m[-1])), "position", rtol=0, atol=tol)
    ctx.close(pos[-1], np.array(secs[-1].pos_target) + off, "end-position", rtol=0, atol=tol + 1e-3)
    ctx.close(s.vec_nev[-1], secs[-1].vec_target, "end-direction", rtol=0, atol=1e-6)
    # section boundaries
    near = np.abs(md[:, None] - np.r_[md0, [c.md_target for c in secs]][None, :])
    flag = np.asarray(s.interpolated, bool)
    ctx.check(np.all(near.min(axis=0) <= 1e-4), "boundary-missing", gap=near.min(axis=0))
    ctx.check(np.all(flag[near.min(axis=1) > 1e-3]), "control-flag", md=md[(near.min(axis=1) > 1e-3) & ~flag])
    ctx.check(not flag[0] and not flag[-1], "end-flag")
    for k, c in enumerate(secs):
        j = int(np.argmin(np.abs(md - c.md_target)))
        ctx.close(pos[j], np.array(c.pos_target) + off, "boundary-position", rtol=0, atol=tol + 1e-3, section=k, kind=kinds[k])
        ctx.close(s.vec_nev[j], c.vec_target, "boundary-direction", rtol=0, atol=1e-6, section=k, kind=kinds[k])
    if step is not None:
        want = np.arange(np.ceil((md0 + 1e-6) / step) * step, md[-1] - 1e-3, step)
        if len(want):
            j = np.clip(np.searchsorted(md, want), 1, len(md) - 1)
            gap = np.minimum(np.abs(want - md[j - 1]), np.abs(want - md[j]))
            ctx.check(np.all(gap <= 2e-4), "step-missing", at=want[gap > 2e-4][:5], step=step)
    ctx.close(s.radius, np.full(len(md), radius), "radius", rtol=1e-12)
    ctx.check(s.unit == unit and s.header.depth_unit == unit, "unit", unit=s.unit)
    if hdr is not None:
        ctx.check(s.header.latitude == hdr.latitude and s.header.declination == hdr.declination, "header")
    if cov is not None:
        kw.pop("start_cov_nev")
        s0 = we.survey.from_connections(secs, **kw)
        ctx.close(s.cov_nev - s0.cov_nev, np.broadcast_to(cov, s.cov_nev.shape), "start-cov", rtol=1e-9,
                  scale=float(np.abs(s.cov_nev).max()), atol=1e-9)
    ctx.key("+".join(sorted(set(kinds))), unit, step if step in (None, 1.0, 10., 30., 50., 200.) else 'end', bool(off.any()), len(secs))
    ctx.event("sections", len(secs))
    ctx.event("stations", len(md))


def split(ctx):
    """One connector per interval of a survey, joined again."""
    rng = ctx.rng
    kind, md, inc, azi = gen.traj(rng)
    unit = str(rng.choice(["meters", "feet"]))
    t = ref.tangent(np.radians(inc), np.radians(azi))
    if ref.angle(t[:-1], t[1:]).max() > 2.9:
        raise Skip("half turns")
    sn = np.round(rng.normal(0, 1000, 3), 2) if rng.random() < .6 else np.zeros(3)
    hdr = gen.header(depth_unit=unit, surface_unit=unit)
    s = we.survey.Survey(md=md, inc=inc, azi=azi, header=hdr, unit=unit, start_nev=sn)
    ctx.case = dict(kind=kind, md=md, inc=inc, azi=azi, unit=unit, start=sn)
    how = str(rng.choice(["incazi", "vec", "node"]))
    C, secs = we.connector.Connector, []
    N = we.node.Node
    for k in range(len(md) - 1):
        if how == "node":
            kw = dict(node1=N(pos=[s.n[k], s.e[k], s.tvd[k]], vec=t[k], md=md[k], unit=unit),
                      node2=N(vec=t[k + 1], md=md[k + 1], unit=unit))
        else:
            kw = dict(pos1=[s.n[k], s.e[k], s.tvd[k]], md1=md[k], md2=md[k + 1])
            if how == "vec":
                kw.update(vec1=t[k], vec2=t[k + 1])
            else:
                kw.update(inc1=inc[k], azi1=azi[k], inc2=inc[k + 1], azi2=azi[k + 1])
        secs.append(C(**kw, dls_design=1e-9, unit=unit, force_min_curve=bool(rng.random() < .5)))
    r = we.survey.from_connections(secs, depth_unit=unit, survey_header=hdr)
    L = md[-1] - md[0] + np.abs(sn).max()
    if ctx.check(len(r.md) == len(md), "split-count", got=len(r.md), want=len(md)):
        ctx.close(r.md, md, "split-md", atol=1e-6, rtol=1e-12)
        ctx.close(r.vec_nev, t, "split-direction", rtol=0, atol=1e-7)
        ctx.close(np.column_stack([r.n, r.e, r.tvd]), np.column_stack([s.n, s.e, s.tvd]), "split-position",
                  rtol=0, atol=1e-8 * L + 1e-5)
        ctx.check(not np.any(r.interpolated), "split-flag")
    for k, c in enumerate(secs):
        ctx.close(c.pos_target, [s.n[k + 1], s.e[k + 1], s.tvd[k + 1]], "split-target", rtol=0, atol=1e-8 * L + 1e-5, k=k)
    ctx.key("split", kind, unit, how)
    ctx.event("intervals", len(secs))


SCENARIOS = [
    Scenario("join", join, 700, 12000),
    Scenario("split", split, 250, 4000),
]
