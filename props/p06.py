"""P06  Calculations change nothing they are given and don't depend on what ran before."""
import hashlib
import os
import subprocess
import sys
import tempfile
from copy import deepcopy

from vmon import gen, wells
from vmon.core import Inconclusive, Scenario
from vmon.env import REPO, VERIF, np, we
from vmon.purity import diff, snap

META = dict(
    title='Calculations change no input and do not depend on history',
    statement=('Every calculation leaves its inputs (surveys, headers, arrays, nodes, strings, targets) as they '
               'were, gives the same result when it is run again on them or on equal copies after any sequence '
               'of other calculations in the same process, and gives in a long-running process what it gives in '
               'a new one. Objects made with default arguments, or from a shared header or arrays, do not affect '
               'one another.'),
    over=['histories', 'programs'],
    quantifier='all programmes of surveying, planning, error, clearance, drilling and exchange calculations on shared objects',
    why='A test runs one calculation on fresh objects; leaked state shows only in the calculations that follow.',
    files=['welleng/survey.py', 'welleng/error.py', 'welleng/errors/tool_errors.py', 'welleng/clearance.py',
           'welleng/mesh.py', 'welleng/connector.py', 'welleng/node.py', 'welleng/utils.py',
           'welleng/torque_drag.py', 'welleng/architecture.py', 'welleng/fluid.py', 'welleng/exchange/wbp.py'],
    mechanism=[('state of surveys', 'welleng/survey.py:Survey, SurveyHeader'),
               ('error model state', 'welleng/error.py:ErrorModel, welleng/errors/tool_errors.py:ToolError'),
               ('clearance of shared surveys', 'welleng/clearance.py:Clearance'),
               ('nodes shared by connections', 'welleng/connector.py:Connector, welleng/node.py')],
)

PROPERTY, LEVEL = "P06", "exploration"
RULE = ("a case draws a pool of shared objects and a random programme of calculations; each result is compared bit "
        "for bit (1e-12 where a search is involved) with that on equal copies before and after the programme; "
        "classes are the ordered pairs of calculations that ran next to each other")

from welleng.clearance import IscwsaClearance  # noqa: E402
from welleng.exchange import wbp as W  # noqa: E402
from welleng.fluid import Fluid  # noqa: E402
from welleng.mesh import WellMesh  # noqa: E402
S, U, C = we.survey, we.utils, we.connector
MODELS = ["ISCWSA MWD Rev4", "ISCWSA MWD Rev5.11", "MWD+IFR1", "MWD+SRGM", "MWD+IFR1+MS", "MWD+IFR1_Fl"]


def models():
    return [m for m in MODELS if m in we.error.ERROR_MODELS] or list(we.error.ERROR_MODELS)[:3]


def pool(rng):
    """Plain data that everything is made from, and the objects made from it."""
    unit = str(rng.choice(["meters", "meters", "feet"]))
    hd = dict(latitude=float(rng.uniform(-60, 60)), longitude=float(rng.uniform(-179, 179)), b_total=5e4,
              dip=float(rng.uniform(-80, 80)), declination=float(rng.uniform(-10, 10)),
              convergence=float(rng.uniform(-3, 3)), azi_reference=str(rng.choice(["grid", "true", "magnetic"])),
              depth_unit=unit, surface_unit=unit)
    kind, a, b = wells.pair(rng, str(rng.choice(["pad", "crossing", "parallel", "stacked"])))
    m = models()
    f = 1.0 if unit == "meters" else 3.0
    d = dict(unit=unit, header=hd, a=a, b=b, f=f, model=str(rng.choice(m)), model2=str(rng.choice(m)),
             r=[float(x) for x in rng.random(12)], default_start=bool(rng.random() < .5))
    return d


def objects(d):
    h = S.SurveyHeader(**d["header"])
    o = dict(h=h)
    for k in "ab":
        md, inc, azi, start = d[k]
        kw = {} if d["default_start"] and k == "a" else dict(
            start_nev=np.array(start) * d["f"], start_xyz=np.array([start[1], start[0], start[2]]) * d["f"])
        arr = dict(md=np.array(md) * d["f"], inc=np.minimum(np.array(inc), 120.), azi=np.array(azi))
        o["arr" + k] = arr
        o[k] = S.Survey(**arr, header=h, unit=d["unit"], error_model=d["model"], radius=.2 * d["f"], **kw)
    o["plain"] = S.Survey(**o["arra"], header=h, unit=d["unit"])
    o["node1"] = we.node.Node(pos=[0., 0., 0.], md=0., inc=0., azi=0.)
    p = np.array([200. + 300 * d["r"][0], 100. + 300 * d["r"][1], 1200.])
    o["node2"] = we.node.Node(pos=p, inc=60 * d["r"][2], azi=360 * d["r"][3])
    o["pts"] = np.array([[10., 20., 30.], [50., -20., 130.], [-10., 40., 330.]])
    o["vec"] = np.array([0.3, -.4, .866])
    o["cov"] = np.array([np.eye(3) * (k + 1) + .1 for k in range(3)])
    wb = we.architecture.WellBore("w", 0., float(np.asarray(d["a"][0])[-1]), method="top_down")
    end = float(np.asarray(d["a"][0])[-1])
    wb.add_section(bottom=end * .5, id=.3, coeff_friction_sliding=.2, name="1")
    wb.add_section(bottom=end, id=.3, coeff_friction_sliding=.3, name="2")
    st = we.architecture.BHA("s", 0., end * .9)
    st.add_section(od=.2, unit_weight=1500., length=100. if end > 300 else end * .1, name="bha")
    st.add_section(od=.13, unit_weight=400., name="dp")
    o["wb"], o["st"] = wb, st
    o["target"] = W.Target("T", location=[1., 2., 3.])
    return o


def mdx(o, d, k=4, s="a"):
    m = o[s].md
    return float(m[0] + d["r"][k] * (m[-1] - m[0]))


def metric(d):
    return d["unit"] == "meters"


def ops():
    """name -> (function of (objects, data), exact)"""
    q = {}

    def op(f):
        q[f.__name__] = f
        return f

    @op
    def new_survey(o, d):
        return S.Survey(**o["arrb"], header=o["h"], unit=d["unit"])

    @op
    def new_survey_model(o, d):
        return S.Survey(**o["arra"], header=o["h"], unit=d["unit"], error_model=d["model2"])

    @op
    def new_header(o, d):
        return S.SurveyHeader(b_total=5e4, dip=60., declination=1.)

    @op
    def error_again(o, d):
        s = S.Survey(**o["arrb"], header=o["h"], unit=d["unit"])
        return s.get_error(d["model2"], return_error=True).errors.cov_NEVs

    @op
    def interpolate_md(o, d):
        n = o["a"].interpolate_md(mdx(o, d))
        return [n.pos_nev, n.vec_nev, n.md, n.cov_nev]

    @op
    def interpolate_tvd(o, d):
        t = float(o["a"].tvd[0] + d["r"][5] * (o["a"].tvd.max() - o["a"].tvd[0]) * .9)
        n = o["a"].interpolate_tvd(t)
        return None if n is None else [n.pos_nev, n.md]

    @op
    def interpolate_survey(o, d):
        return o["a"].interpolate_survey(step=[30., 100.][int(d["r"][6] > .5)] * d["f"])

    @op
    def interpolate_survey_tvd(o, d):
        return o["plain"].interpolate_survey_tvd(step=40. * d["f"])

    @op
    def vertical_section(o, d):
        return o["a"].get_vertical_section(360 * d["r"][7])

    @op
    def indices(o, d):
        return [o["a"].tortuosity_index(), o["a"].modified_tortuosity_index(), o["a"].directional_difficulty_index()]

    @op
    def max_curvature(o, d):
        return o["a"].maximum_curvature(d["r"][8])

    @op
    def slicing(o, d):
        return S.slice_survey(o["a"], 1, 4)

    @op
    def splicing(o, d):
        return S.splice_surveys([S.slice_survey(o["a"], 0, 3), S.slice_survey(o["a"], 2, None)])

    @op
    def sections(o, d):
        return S.get_sections(o["b"])

    @op
    def listing(o, d):
        return S.export_csv(o["b"], None).to_numpy(float)

    @op
    def table(o, d):
        return S.survey_to_df(o["a"]).to_numpy(float)

    @op
    def to_bit(o, d):
        s = o["a"]
        return s.project_to_bit(20. * d["f"])

    @op
    def ahead(o, d):
        n = S.project_ahead(pos=o["pts"][0], vec=o["vec"], delta_md=100., dls=2., toolface=40.)
        return [n.pos_nev, n.vec_nev, n.md]

    @op
    def connect(o, d):
        c = C.Connector(node1=o["node1"], node2=o["node2"], dls_design=3.0, dls_design2=2.0)
        return [c.method, c.md_target, c.pos_target, c.vec_target, c.dogleg, c.dogleg2, c.dls, c.dls2, c.tangent_length]

    @op
    def connect_plain(o, d):
        c = C.Connector(pos1=o["pts"][0], vec1=[0., 0., 1.], pos2=o["pts"][2], md1=0.)
        return [c.method, c.md_target, c.pos_target, c.vec_target]

    @op
    def connect_points(o, d):
        r = C.connect_points(o["pts"] * 4., vec_start=[0., 0., 1.], dls_design=3.)
        return [[c.pos_target, c.vec_target, c.md_target] for c in r]

    @op
    def from_connections(o, d):
        c = C.Connector(node1=o["node1"], node2=o["node2"], dls_design=3.0)
        return S.from_connections(c, step=30.)

    @op
    def clearance(o, d):
        c = IscwsaClearance(o["a"], o["b"], minimize_sf=False)
        return [c.sf, c.distance_cc, c.masd, c.closest]

    @op
    def clearance_min(o, d):
        c = IscwsaClearance(o["b"], o["a"])
        return [c.sf, c.distance_cc, c.hoz_bearing_deg]

    @op
    def clearance_kop(o, d):
        c = IscwsaClearance(o["a"], o["b"], kop_depth=mdx(o, d, 10), minimize_sf=False)
        return [c.sf, c.distance_cc, c.masd]

    @op
    def clearance_kop_shallow(o, d):
        c = IscwsaClearance(o["a"], o["b"], kop_depth=mdx(o, d, 10) * .4, minimize_sf=d["r"][11] > .7)
        return [c.sf, c.distance_cc, c.masd]

    @op
    def hook_load(o, d):
        if not metric(d):
            return None
        s = S.Survey(md=o["arra"]["md"] - o["arra"]["md"][0], inc=o["arra"]["inc"], azi=o["arra"]["azi"], header=o["h"])
        st = deepcopy(o["st"])
        h = we.torque_drag.HookLoad(s, o["wb"], st, 1.2, step=st.bottom / 2.5, ff_range=(.1, .31, .15))
        return [h.ff_range, h.md_range, [h.data[k] for k in sorted(h.data)]]

    @op
    def mesh(o, d):
        m = WellMesh(o["a"], n_verts=8, sigma=2.)
        return [np.asarray(m.vertices), np.asarray(m.faces)]

    @op
    def torque_drag(o, d):
        if not metric(d):
            return None
        s = S.Survey(md=o["arra"]["md"] - o["arra"]["md"][0], inc=o["arra"]["inc"], azi=o["arra"]["azi"], header=o["h"])
        # strings keep the buoyancy that was worked out for their sections
        t = we.torque_drag.TorqueDrag(s, o["wb"], deepcopy(o["st"]), 1.3, name="x")
        return [t.tension, t.torque]

    @op
    def fluid(o, d):
        f = Fluid(fluid_density=10 + d["r"][9], reference_temp=60., base_fluid_water_ratio=.2)
        return f.get_density_profile(depth=np.array([0., 1000., 5000.]), temperature=np.array([60., 80., 150.]))

    @op
    def plan(o, d):
        w = W.WellPlan(survey=o["b"], plan_name="p", location_type="site", depth_unit=d["unit"], surface_unit=d["unit"])
        with tempfile.TemporaryDirectory(prefix="p06-") as t:
            f = os.path.join(t, "x.wbp")
            W.export([w], filename=f)
            text = [x for x in open(f).read().splitlines() if not x.startswith("!")]
        return text

    @op
    def plan_target(o, d):
        w = W.WellPlan(survey=o["b"], plan_name="q", location_type="site", depth_unit=d["unit"], surface_unit=d["unit"],
                       targets=[o["target"]])
        return [t.name for t in w.targets]

    @op
    def angles(o, d):
        v = o["pts"] / np.linalg.norm(o["pts"], axis=1)[:, None]
        return [U.get_angles(v, nev=True), U.get_vec([30., 40.], [50., 350.], deg=True), U.get_nev(o["pts"]),
                U.get_xyz(o["pts"])]

    @op
    def covs(o, d):
        s = np.column_stack([[0., 10, 20], [.2, .3, .4], [1., 2., 3.]])
        h = U.NEV_to_HLA(s, o["cov"].transpose(1, 2, 0))
        return [h, U.HLA_to_NEV(s, h), U.get_sigmas(o["cov"])]

    @op
    def arc(o, d):
        return list(U.get_arc(.5 + d["r"][10], 500., 1.0, pos=o["pts"][1], vec=o["vec"] / np.linalg.norm(o["vec"])))

    @op
    def default_target(o, d):
        t = W.Target("D")
        r = snap(t)
        t.location = [99.]
        t.geometry["color"] = {"changed": 1}
        return r

    @op
    def transform(o, d):
        return S.SurveyParameters("EPSG:23031").transform_coordinates([(588319.02, 5770571.03)], "EPSG:32631")
    return q


OPS = ops()


def usable(name, o, d):
    """Calculations that refuse these inputs (whatever the reason) aren't this property's business."""
    try:
        return True, snap(OPS[name](o, d))
    except Exception:                                        # noqa: BLE001
        return False, None


def digest(x):
    h = hashlib.sha256()

    def put(v):
        if isinstance(v, np.ndarray):
            h.update(str(v.shape).encode() + (np.ascontiguousarray(v + 0.0).tobytes() if v.dtype.kind in "fiub" else
                                              repr(v.tolist()).encode()))
        elif isinstance(v, dict):
            for k in sorted(v):
                h.update(k.encode())
                put(v[k])
        elif isinstance(v, (tuple, list)):
            for w in v:
                put(w)
        else:
            h.update(repr(v).encode())
    put(x)
    return h.hexdigest()[:16]


def programme(ctx):
    rng = ctx.rng
    d = pool(rng)
    names = list(rng.choice(sorted(OPS), size=int(rng.integers(10, 19)), replace=True))
    names = [str(x) for x in names]
    ctx.case = dict(unit=d["unit"], model=d["model"], model2=d["model2"], header=d["header"], a=d["a"], b=d["b"],
                    r=d["r"], default_start=d["default_start"], programme=names)
    before = {}
    for n in dict.fromkeys(names):
        ok, r = usable(n, objects(d), d)
        if ok:
            before[n] = r
        else:
            ctx.event(f"refused:{n}")
    o = objects(d)
    start = snap(o)
    prev = None
    for n in names:
        if n not in before:
            continue
        ok, r = usable(n, o, d)
        if not ctx.check(ok, f"refused-after-others:{n}", previous=prev):
            return
        e = diff(before[n], r, n)
        ctx.check(e is None, f"history:{n}", difference=e, previous=prev)
        e = diff(start, snap(o), "pool")
        if not ctx.check(e is None, f"mutates:{n}", changed=e):
            return
        ctx.key(prev, n)
        ctx.event("calculations")
        prev = n
    # equal copies, after all of it
    for n in list(before)[:6]:
        ok, r = usable(n, objects(d), d)
        e = diff(before[n], r, n) if ok else "refused"
        ctx.check(e is None, f"copies:{n}", difference=e)
    # surveys with default arguments made now are as they would be in a new process
    s = S.Survey(md=[0, 30, 60], inc=[0, 2, 4], azi=[0, 10, 10], header=gen.header())
    ctx.close([s.n[0], s.e[0], s.tvd[0], s.x[0], s.y[0], s.z[0]], 0.0, "default-start")
    n = we.node.Node()
    ctx.check(n.pos_nev is None or np.allclose(np.array(n.pos_nev, float), 0), "default-node", got=n.pos_nev)


def fresh(ctx):
    """The same calculations in a new process with another hash seed."""
    rng = ctx.rng
    seed = int(rng.integers(1 << 30))
    names = sorted(OPS)
    here = {}
    d = pool(np.random.default_rng(seed))
    # a history first
    e = pool(rng)
    eo = objects(e)
    for n in rng.permutation(names):
        usable(str(n), eo, e)
    for n in names:
        ok, r = usable(n, objects(d), d)
        here[n] = digest(r) if ok else "refused"
    ctx.case = dict(seed=seed, unit=d["unit"], model=d["model"])
    env = dict(os.environ, PYTHONHASHSEED=str(int(rng.integers(1, 1000))), VERIF_REPO=REPO)
    p = subprocess.run([sys.executable, "-m", "props.p06", str(seed)], cwd=VERIF, env=env, capture_output=True, text=True,
                       timeout=300)
    if p.returncode:
        raise Inconclusive(p.stderr[-500:])
    there = dict(x.split() for x in p.stdout.splitlines() if len(x.split()) == 2)
    for n in names:
        ctx.check(here[n] == there.get(n), f"new-process:{n}", here=here[n], there=there.get(n))
    ctx.event("new-process-calculations", len(names))
    ctx.key("fresh", d["unit"], d["model"])


SCENARIOS = [
    Scenario("programme", programme, 40, 500),
    Scenario("fresh", fresh, 2, 16, batch=1, cpu_s=120),
]

if __name__ == "__main__":
    d_ = pool(np.random.default_rng(int(sys.argv[1])))
    for n_ in sorted(OPS):
        ok_, r_ = usable(n_, objects(d_), d_)
        print(n_, digest(r_) if ok_ else "refused")
