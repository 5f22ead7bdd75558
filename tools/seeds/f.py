def S(id, prop, edits, needs, breaks, demo):
    return dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)

H = '''
def hdr(**k):
    d = dict(latitude=60., longitude=5., b_total=50000., dip=72., declination=0., convergence=0., azi_reference="grid")
    d.update(k)
    return we.survey.SurveyHeader(**d)

def well(md, inc, azi, em=None, h=None, **k):
    return we.survey.Survey(md=md, inc=inc, azi=azi, header=h or hdr(), error_model=em, **k)
'''
PL = '''
import types

class Fig:
    def __init__(self, *a, **k):
        self.t = []
    def add_trace(self, t, **k):
        self.t.append(t)
    def update_layout(self, *a, **k):
        pass
    update_scenes = update_traces = update_layout

import welleng.visual as V
V.go = types.SimpleNamespace(Figure=Fig, Scatter=lambda **k: k, Scatter3d=lambda **k: k, Mesh3d=lambda **k: k)
V.make_subplots, V.PLOTLY = Fig, True
'''

SEEDS = [
S("p32-nearest-station", "P32", [("welleng/visual.py",
"                'idx_survey': int(idx_vertices // n_verts)\n",
"                'idx_survey': int(round(idx_vertices / n_verts))\n")],
"a pointer near a vertex in the second half of a ring of the mesh",
"the station below the one pointed at is reported",
H + '''
import welleng.visual as V
md = np.arange(0, 1001, 100.)
s = well(md, md / 25, np.full(11, 40.), em="ISCWSA MWD Rev5.11")
m = we.mesh.WellMesh(s, n_verts=12)
class P(V.Plotter):
    def __init__(self):
        self.wells = []
m.vedo_mesh = "m"
p = P(); p.wells.append(m)
bad = 0
for i in (3, 6):
    for j in range(12):
        bad += p._get_closest_well(np.asarray(m.vertices)[i, j], ["m"])["idx_survey"] != i
print(bad)
verdict(bad)
'''),
S("p32-interp-flag", "P32", [("welleng/visual.py",
"                if bool(i) is is_interpolated\n",
"                if i is is_interpolated\n")],
"a survey whose flags are a numpy array",
"no station is drawn at all",
H + PL + '''
s = well([0, 500, 1000], [0, 10, 30], [0, 20, 40], interpolated=np.array([False, True, False]))
f = V.figure(s)
n = sum(len(t["x"]) for t in f.t if t["mode"] == "markers")
print(n)
verdict(n != 3)
'''),
S("p32-hover-azi", "P32", [("welleng/visual.py",
"                    survey.md, survey.inc_deg, survey.azi_grid_deg\n                )\n",
"                    survey.md, survey.inc_deg, survey.azi_true_deg\n                )\n")],
"a site with a convergence",
"the azimuths shown at the stations are true while everything else is grid",
H + PL + '''
s = well([0, 500, 1000], [0, 10, 30], [30, 30, 40], h=hdr(convergence=2.5))
f = V.figure(s)
t = [t for t in f.t if t["mode"] == "markers"][0]["text"][-1]
print(t)
verdict("AZI: 40.00" not in t)
'''),
S("p22-mixed-units", "P22", [("welleng/exchange/wbp.py",
"        self.surface_unit = self.wbp_dict['DEPTH'][key]['surface']\n",
"        self.surface_unit = self.wbp_dict['DEPTH'][key]['depth']\n")],
"a file with depths in one unit and coordinates in the other",
"the coordinates are taken to be in the unit of the depths",
'''
from welleng.exchange.wbp import WellPlan
d = WellPlan(wbp_data=["DEPTH 1"]).wbp_dict["DEPTH"]
bad = 0
for k, v in d.items():
    w = WellPlan(wbp_data=[f"DEPTH {k}"])
    bad += (w.depth_unit, w.surface_unit) != (v["depth"], v["surface"])
print(bad)
verdict(bad)
'''),
S("p25-top-first", "P25", [("welleng/architecture.py",
"        if bool(kwargs.get('length')):\n            top = max(",
"        if bool(kwargs.get('length')) and not bool(kwargs.get('top')):\n            top = max(")],
"a section that is given both a length and a top, such as one taken from another string",
"the section starts at the other string's depth instead of its length above its bottom",
'''
from welleng.architecture import BHA
b = BHA("b", 0., 2000.)
b.add_section(od=.2, id=.1, unit_weight=300., length=400., top=1000.)
print(b.sections[0])
verdict(b.sections[0]["top"] != 1600.)
'''),
S("p06-hook-wellbore", "P06", [("welleng/torque_drag.py",
"            wellbore_temp = deepcopy(self.wellbore)\n            for k in wellbore_temp.sections.keys():\n                wellbore_temp.sections[k]['coeff_friction_sliding'] = ff\n",
"            wellbore_temp = copy(self.wellbore)\n            wellbore_temp.sections = dict(self.wellbore.sections)\n            for k in wellbore_temp.sections.keys():\n                wellbore_temp.sections[k]['coeff_friction_sliding'] = ff\n")],
"a well bore that is used again after a hook load calculation",
"its friction factors are those of the last hook load case",
H + '''
from welleng.architecture import BHA, WellBore
from welleng.torque_drag import HookLoad
md = np.arange(0, 2001, 100.)
s = well(md, np.clip(md / 30, 0, 50), np.full(21, 40.))
w = WellBore("w", 0, 2000., method="top_down")
w.add_section(name="c", bottom=2000., id=.22, coeff_friction_sliding=.17)
b = BHA("b", 0, 2000.)
b.add_section(name="p", od=.127, id=.1, unit_weight=300.)
HookLoad(s, w, b, fluid_density=1.2, step=700., ff_range=(.1, .3, .1))
print(w.sections[0]["coeff_friction_sliding"])
verdict(w.sections[0]["coeff_friction_sliding"] != .17)
'''),
]
