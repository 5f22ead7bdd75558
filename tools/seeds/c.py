def S(id, prop, edits, needs, breaks, demo):
    return dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)

H = '''
def hdr(**k):
    d = dict(latitude=60., longitude=5., b_total=50000., dip=72., declination=0., convergence=0., azi_reference="grid")
    d.update(k)
    return we.survey.SurveyHeader(**d)
def well(md, inc, azi, start=(0, 0, 0), h=None, em="ISCWSA MWD Rev5.11", **k):
    return we.survey.Survey(md=md, inc=inc, azi=azi, header=h or hdr(), error_model=em, start_nev=list(start), **k)
'''
C = H + '''
from welleng.clearance import IscwsaClearance, MeshClearance
md = np.arange(0, 1501, 100.)
ref = well(md, np.clip(md / 20, 0, 60), np.full_like(md, 40.))
'''

SEEDS = [
S("p12-trav-cyl", "P12", [("welleng/clearance.py",
"            self.reference.azi_grid_deg[self.kop_index:]\n            + self.toolface_bearing_deg + 360\n",
"            self.reference.azi_true_deg[self.kop_index:]\n            + self.toolface_bearing_deg + 360\n")],
"a reference well with a grid convergence",
"travelling cylinder bearings are rotated by the convergence",
C + '''
off = well(md, np.clip(md / 25, 0, 50), np.full_like(md, 47.), start=(5, 20, 0))
a = IscwsaClearance(ref, off, minimize_sf=False).trav_cyl_azi_deg
h = hdr(convergence=3.)
b = IscwsaClearance(well(md, np.clip(md / 20, 0, 60), np.full_like(md, 40.), h=h), well(md, np.clip(md / 25, 0, 50), np.full_like(md, 47.), start=(5, 20, 0), h=h), minimize_sf=False).trav_cyl_azi_deg
d = np.abs((a - b + 180) % 360 - 180).max()
print(d)
verdict(d > 1e-3)
'''),
S("p13-radius-max", "P13", [("welleng/clearance.py",
"        self.calc_hole = self.Rr + self.Ro[self.idx]\n",
"        self.calc_hole = self.Rr + self.Ro[self.idx].max()\n")],
"an offset well whose hole radius varies along the part that is scanned",
"the widest of the offset's holes is used for every station",
C + '''
off = well(md, np.clip(md / 25, 0, 50), np.full_like(md, 47.), start=(5, 20, 0), radius=np.where(md < 700, .4, .2))
c = IscwsaClearance(ref, off, minimize_sf=False)
want = c.Rr + off.radius[c.idx]
print(c.calc_hole - want)
verdict(np.abs(c.calc_hole - want).max() > 1e-9)
'''),
S("p13-cov-snap", "P13", [("welleng/clearance.py",
"""        cov_nev_new = (
            cov_nev_src[i - 1]
            + mult * (cov_nev_src[i] - cov_nev_src[i - 1])
        )
""",
"""        cov_nev_new = (
            cov_nev_src[i - 1]
            + np.round(mult, 2) * (cov_nev_src[i] - cov_nev_src[i - 1])
        )
""")],
"a closest point that is not at a whole percentage of the offset interval",
"the offset covariance is taken up to half a percent of the interval away from the closest point",
C + '''
md2 = np.array([0, 500., 1000, 1500])
off = well(md2, [0, 20, 40, 50], [47] * 4, start=(5, 20, 0))
c = IscwsaClearance(ref, off, minimize_sf=False)
bad = 0
for m, cov in zip(c.off.md, c.off_cov_nev.reshape(-1, 3, 3)):
    i = min(np.searchsorted(md2, m, side="right") - 1, 2)
    f = (m - md2[i]) / 500
    bad = max(bad, np.abs(cov - (off.cov_nev[i] + f * (off.cov_nev[i + 1] - off.cov_nev[i]))).max())
print(bad)
verdict(bad > 1e-4)
'''),
S("p14-kwargs", "P14", [("welleng/clearance.py",
"""                sigma_pa=self.sigma_pa,
                Sm=self.Sm,
                Rr=self.Rr,
""",
"""                Sm=self.Sm,
                Rr=self.Rr,
""")],
"a scan that finds a minimum between stations, with a project-ahead uncertainty other than the default",
"the values reported for all stations are then computed with the default",
C + '''
off = well(md, np.clip(md / 20, 0, 60), np.full_like(md, 220.), start=(100, 90, 0))
off = well([0, 400, 800, 1500], [0, 60, 90, 90], [270, 270, 270, 270], start=(200, 700, 400))
for s in (0, 100, 200, 300, 400):
    off = well([0, 400, 800, 1500], [0, 60, 90, 90], [270, 270, 270, 270], start=(200, 700 + s, 400))
    a = IscwsaClearance(ref, off, sigma_pa=3., minimize_sf=False)
    b = IscwsaClearance(ref, off, sigma_pa=3.)
    if len(b.sf) > len(a.sf):
        break
keep = np.isin(b.ref.md, ref.md)
print(len(a.sf), len(b.sf))
verdict(keep.sum() == len(a.sf) and np.abs(b.sf[keep] - a.sf).max() > 1e-6)
'''),
S("p14-kop-nearest", "P14", [("welleng/clearance.py",
"""        self.kop_index = np.searchsorted(
            self.reference.md, self.kop_depth, side="left"
        )
""",
"""        self.kop_index = int(np.argmin(
            np.abs(self.reference.md - self.kop_depth)
        ))
""")],
"a kick-off depth that lies just below a survey station",
"the station above the kick-off point is compared too",
C + '''
off = well(md, np.clip(md / 25, 0, 50), np.full_like(md, 47.), start=(5, 20, 0))
c = IscwsaClearance(ref, off, kop_depth=520., minimize_sf=False)
print(c.ref.md[0])
verdict(c.ref.md[0] < 520)
'''),
S("p15-pedal", "P15", [("welleng/mesh.py",
"""                np.array(self.sigmaL) * self.sigma
                + self.radius
                + self.Sm
                + self.sigma_pa / 2
""",
"""                np.array(self.sigmaL) * self.sigma
                + self.radius
                + self.Sm
                + self.sigma_pa
""")],
"the pedal curve method",
"the lateral axis is widened by all instead of half of the project-ahead uncertainty",
H + '''
from welleng.mesh import WellMesh
s = well([0, 500, 1000], [90, 90, 90], [0, 0, 0])
m = WellMesh(s, n_verts=12, method="pedal_curve", sigma=2., sigma_pa=1.)
v = m.vertices[-1] - np.array([s.n[-1], s.e[-1], s.tvd[-1]])
want = 2. * np.sqrt(s.cov_hla[-1][1, 1]) + s.radius[-1] + .5
print(np.abs(v[:, 1]).max(), want)
verdict(abs(np.abs(v[:, 1]).max() - want) > .1)
'''),
S("p15-last-md", "P15", [("welleng/clearance.py",
"""                elif off_nev_0:
                    off_nev = off_nev_0
                    off_md = off.md[off_index-1] + off_nev_0[1].x[0]
""",
"""                elif off_nev_0:
                    off_nev = off_nev_0
                    off_md = off.md[off_index] + off_nev_0[1].x[0]
""")],
"a reference section that is closest to the lowest interval of the offset well",
"the reported offset depth lies below the end of the offset well",
C + '''
off = well([0, 300, 600], [0, 5, 10], [47] * 3, start=(5, 40, 0))
c = MeshClearance(ref, off)
print(max(c.off_md), off.md[-1])
verdict(max(c.off_md) > off.md[-1] + 1e-3)
'''),
S("p16-hold-tol", "P16", [("welleng/connector.py",
"""                elif np.allclose(
                        self.vec_target,
                        (self.pos_target - self.pos1)
                        / np.linalg.norm(self.pos_target - self.pos1)
                ):
""",
"""                elif np.allclose(
                        self.vec_target,
                        (self.pos_target - self.pos1)
                        / np.linalg.norm(self.pos_target - self.pos1),
                        atol=1e-3
                ):
""")],
"a target that is all but straight ahead and to be met in the start direction",
"a hold is planned that misses the target by up to a metre per kilometre",
'''
from welleng.connector import Connector
c = Connector(pos1=[0., 0, 0], vec1=[0., 0, 1], pos2=[.5, 0, 1000], vec2=[0., 0, 1], dls_design=3.)
s = we.survey.from_connections(c, step=30)
print(s.pos_nev[-1])
verdict(abs(s.pos_nev[-1][0] - .5) > .01)
'''),
S("p16-feet-dls2", "P16", [("welleng/connector.py",
"            self.radius_design2 = self.denom / self.dls_design2\n        else:\n",
"            self.radius_design2 = 30 / self.dls_design2\n        else:\n")],
"a connector in feet with a dogleg severity of its own for the second curve",
"the second curve is more than three times as tight as allowed",
'''
from welleng.connector import Connector
c = Connector(pos1=[0., 0, 0], vec1=[0., 0, 1], pos2=[3000., 2000, 9000], inc2=60., azi2=20., dls_design=3., dls_design2=2., unit="feet")
dls = np.degrees(c.dogleg2) / c.dist_curve2 * 100
print(dls)
verdict(dls > 2.01)
'''),
S("p17-hold-grid", "P17", [("welleng/connector.py",
"""    end_md = md2 - md1
    if step is None:
        md = np.array([0])
    else:
        start_md = step - (md1 % step)
""",
"""    end_md = md2 - md1
    if step is None:
        md = np.array([0])
    else:
        start_md = (-md1) % step or step
        if end_md > 20 * step:
            start_md = step
""")],
"a hold of more than twenty steps that does not begin at a multiple of the step",
"the stations of the hold are off the grid",
'''
from welleng.connector import Connector
c = Connector(pos1=[0., 0, 0], vec1=[0., 0, 1], pos2=[400., 0, 3000], dls_design=3.)
s = we.survey.from_connections(c, step=30)
m = s.md
d = (np.abs(m / 30 - np.round(m / 30)) > 1e-6).sum()
print(d)
verdict(d > 4)
'''),
S("p18-batch-scale", "P18", [("welleng/connector.py",
"        np.clip(dist_to_target ** 2 - dist_perp_to_target ** 2, 0.0, None)\n",
"        np.clip(\n            dist_to_target ** 2 - dist_perp_to_target ** 2,\n            1e-10 * np.amax(dist_to_target, initial=0.) ** 2, None\n        )\n")],
"a near target straight ahead in the same batch as a target much further away",
"the short element gets a curve that depends on the other one",
'''
from welleng.connector import solve_curve_hold_batch as f
one = f(np.zeros((1, 3)), np.array([[0., 0, 1]]), np.array([[.2, 0, 4.]]), 500.)
two = f(np.zeros((2, 3)), np.array([[0., 0, 1]] * 2), np.array([[.01, 0, 4.], [1e5, 0, 1e6]]), 500.)
print(one["dogleg"], two["dogleg"])
verdict(abs(one["dogleg"][0] - two["dogleg"][0]) > 1e-4)
'''),
S("p18-hold-mask", "P18", [("welleng/connector.py",
"    zero_mask = (dist_curve == 0)\n",
"    zero_mask = (dist_curve < 1e-2)\n")],
"a target only just off the start direction",
"the direction and end of curve of the start are returned, so the path misses the target",
'''
from welleng.connector import solve_curve_hold_batch as f
r = f(np.zeros((1, 3)), np.array([[0., 0, 1]]), np.array([[.02, 0, 3000.]]), 600.)
end = r["pos2"] + r["tangent_length"][:, None] * r["vec_target"]
a = np.arccos(np.clip(r["vec_target"][0] @ [0, 0, 1], -1, 1))
print(r["vec_target"], r["dogleg"])
verdict(abs(np.linalg.norm(r["vec_target"][0][:2]) - np.sin(r["dogleg"][0])) > 1e-7)
'''),
S("p19-connect-dls", "P19", [("welleng/connector.py",
"""        c = Connector(
            node1=node_1,
            node2=node_2,
            dls_design=d
        )
        assert np.allclose(c.pos_target, p)
""",
"""        c = Connector(
            node1=node_1,
            node2=node_2,
            dls_design=max(dls[i - 1], d)
        )
        assert np.allclose(c.pos_target, p)
""")],
"dogleg severities given per point that decrease from one point to the next",
"a section is turned at the severity of the one before",
'''
from welleng.connector import connect_points
c = connect_points([[0, 0, 0], [0, 0, 1000], [500, 0, 2000], [1500, 500, 3500]], dls_design=[3., 3., 3., 1.5])
d = np.degrees(c[-1].dogleg) / abs(c[-1].dist_curve) * 30
print(d)
verdict(d > 1.51)
'''),
S("p20-euler", "P20", [("welleng/survey.py",
"""        inc, azi = get_angles(vec, nev=True).reshape(2)

        angles = [
            toolface,
            inc,
            azi
        ]
""",
"""        inc, azi = get_angles(vec, nev=True).reshape(2)

        angles = [
            toolface,
            inc,
            azi if inc > 1e-3 else 0.
        ]
""")],
"projecting from an almost vertical direction",
"the toolface is taken from north instead of from the high side of the hole",
'''
from welleng.survey import project_ahead
v = we.utils.get_vec(.05, 90., nev=True).reshape(3)
n = project_ahead(np.zeros(3), v, 300., 3., 0., 0.)
print(n.pos_nev)
verdict(abs(np.asarray(n.pos_nev).reshape(3)[1]) < 10)
'''),
S("p20-target-cov", "P20", [("welleng/survey.py",
"        start_cov_nev=cov_nev,\n        radius=survey.radius[-1], deg=False, error_model=survey.error_model,\n",
"        start_cov_nev=cov_nev,\n        radius=survey.radius[0], deg=False, error_model=survey.error_model,\n")],
"a survey whose hole radius changes with depth",
"the projection carries on with the radius at the top of the well",
H + '''
from welleng.survey import project_to_target
from welleng.node import Node
s = well([0, 500, 1000], [0, 10, 20], [0, 40, 40], radius=[.5, .3, .2])
t = project_to_target(s, Node(pos=[400., 500, 1800]))
print(t.radius[:3])
verdict(abs(t.radius[0] - .2) > 1e-9)
'''),
]
