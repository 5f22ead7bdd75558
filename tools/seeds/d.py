def S(id, prop, edits, needs, breaks, demo):
    return dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)

H = '''
def hdr(**k):
    d = dict(latitude=60., longitude=5., b_total=50000., dip=72., declination=0., convergence=0., azi_reference="grid")
    d.update(k)
    return we.survey.SurveyHeader(**d)
def well(md, inc, azi, start=(0, 0, 0), h=None, em=None, **k):
    return we.survey.Survey(md=md, inc=inc, azi=azi, header=h or hdr(), error_model=em, start_nev=list(start), **k)
'''
T = '''
from welleng.architecture import BHA, WellBore
from welleng.torque_drag import TorqueDrag
'''

SEEDS = [
S("p21-radius", "P21", [("welleng/survey.py",
"        self.radius = np.hstack((self.radius, survey.radius[1:]))\n",
"        self.radius = np.hstack((self.radius, survey.radius[:-1]))\n")],
"splicing a survey whose hole radius changes with depth",
"the radii of the appended section are shifted by one station",
H + '''
from welleng.survey import slice_survey, splice_surveys
s = well([0, 500, 1000, 1500, 2000], [0, 10, 20, 30, 40], [0, 40, 40, 50, 60], radius=[.5, .4, .3, .2, .1])
t = splice_surveys([slice_survey(s, 0, 3), slice_survey(s, 2, 5)])
print(t.radius)
verdict(np.abs(t.radius - s.radius).max() > 1e-9)
'''),
S("p22-tool-name", "P22", [("welleng/exchange/wbp.py",
'        xsp.tool = " ".join(data[9:])\n',
'        xsp.tool = "".join(data[9:10])\n')],
"an extended survey point whose tool name has spaces in it",
"only the first word of the tool name is read",
'''
import tempfile
d = tempfile.mkdtemp()
f = d + "/a.wbp"
open(f, "w").write("""DEPTH 1
! x
TARGETS:
WELLPLANS:
W:0121   0 123         plan                                                         parent                                                         0.00 0.00000
X:      1.0      2.0      3.0      4.0      5.0      6.0    7.00    8.00    9.00 GYRO SINGLE SHOT
S:   10.00   20.000   30.000
L:         1.00         2.00      -3.00
""")
try:
    w = we.exchange.wbp.load(f)[0]
finally:
    os.remove(f); os.rmdir(d)
print(w.steps[0].tool)
verdict(w.steps[0].tool != "GYRO SINGLE SHOT")
'''),
S("p23-substring", "P23", [("welleng/exchange/edm.py",
"""                        if not isinstance(v, list):
                            v = [v]
                        if k in child.attrib and child.attrib[k] in v:
""",
"""                        if k in child.attrib and child.attrib[k] in v:
""")],
"records whose id is contained in the id that is asked for",
"records of other wells are returned with those asked for",
'''
import tempfile
d = tempfile.mkdtemp()
f = d + "/a.xml"
open(f, "w").write("""<export><CD_WELLBORE wellbore_id="W1" well_id="A" wellbore_name="one"/><CD_WELLBORE wellbore_id="W12" well_id="A" wellbore_name="two"/></export>""")
try:
    e = we.exchange.edm.EDM(f)
finally:
    os.remove(f); os.rmdir(d)
r = e.get_attributes(tags="CD_WELLBORE", attributes={"wellbore_id": "W12"})
print(r)
verdict(len(r["CD_WELLBORE"]) != 1)
'''),
S("p24-friction-side", "P24", [("welleng/torque_drag.py",
"""        mask = mds <= self.wellbore.bottom
        mds = mds[mask]
        idx = np.clip(np.searchsorted(bottoms, mds, side='left'), 0, len(sections) - 1)
""",
"""        mask = mds <= self.wellbore.bottom
        mds = mds[mask]
        idx = np.clip(np.searchsorted(bottoms, mds, side='right'), 0, len(sections) - 1)
""")],
"intervals that end at the bottom of a well bore section",
"the last interval of a section gets the friction of the section below",
H + T + '''
s = well(np.arange(0, 2001, 100.), np.clip(np.arange(0, 2001, 100.) / 20, 0, 60), np.full(21, 40.))
w = WellBore("w", 0, 2000., method="top_down")
w.add_section(name="c", bottom=1000., id=.22, coeff_friction_sliding=.1)
w.add_section(name="o", bottom=2000., id=.2, coeff_friction_sliding=.4)
b = BHA("b", 0, 2000., method="top_down")
b.add_section(name="p", bottom=2000., od=.127, id=.1, unit_weight=300., length=2000.)
t = TorqueDrag(s, w, b, fluid_density=1.2)
m = np.isclose(t.survey.md, 1000.)
print(t.coeff_friction_sliding[m])
verdict(abs(t.coeff_friction_sliding[m][0] - .1) > 1e-9)
'''),
S("p24-radius-zero", "P24", [("welleng/torque_drag.py",
"        mask = mds <= self.string.bottom\n        mds = mds[mask]\n        delta_mds = delta_mds[mask]\n        idx = np.clip(np.searchsorted(bottoms, mds, side='left'), 0, len(sections) - 1)\n",
"        mask = mds <= self.string.bottom\n        mds = mds[mask]\n        delta_mds = delta_mds[mask]\n        idx = np.clip(np.searchsorted(bottoms, mds - delta_mds, side='left'), 0, len(sections) - 1)\n")],
"a string section that begins at a survey station",
"the first interval of a section takes the weight and radius of the section above",
H + T + '''
s = well(np.arange(0, 2001, 100.), np.clip(np.arange(0, 2001, 100.) / 20, 0, 60), np.full(21, 40.))
w = WellBore("w", 0, 2000., method="top_down")
w.add_section(name="c", bottom=2000., id=.22, coeff_friction_sliding=.2)
b = BHA("b", 0, 2000., method="top_down")
b.add_section(name="p", bottom=1000., od=.127, id=.1, unit_weight=300., length=1000.)
b.add_section(name="q", bottom=2000., od=.2, id=.1, unit_weight=900., length=1000.)
t = TorqueDrag(s, w, b, fluid_density=1.2)
i = np.flatnonzero(np.isclose(t.survey.md, 1100.))[0]
print(t.radius[i])
verdict(abs(t.radius[i] - .1) > 1e-9)
'''),
S("p26-water-pressure", "P26", [("welleng/fluid.py",
"            B0 + B1 * temperature_top + B2 * pressure_applied\n",
"            B0 + B1 * temperature_top + A2 * pressure_applied\n")],
"a pressure applied to a fluid with water in it",
"the water is compressed as if it were oil",
'''
from welleng.fluid import Fluid
f = Fluid(fluid_density=10., reference_temp=80., base_fluid_water_ratio=.8)
p = f.get_density_profile(depth=[10000.], temperature=[250.], pressure_applied=5000.)[0]
print(p)
import math
def ref(rho):
    import welleng.fluid as m
    A, B, G = m.A, m.B, m.G
    g = (250. - 80.) / 10000.
    v = dict(o=f.volume_oil_reference_relative, w=f.volume_water_reference_relative)
    def mean(c):
        c1 = c[0] + c[1] * 80. + c[2] * 5000.
        c2 = c[1] * g + G * c[2] * rho
        return c1 / c2 * math.log((c1 + c2 * 10000.) / c1) / 10000.
    return 10. / (1 - v["o"] - v["w"] + v["o"] * mean(A) + v["w"] * mean(B))
r = 10.
for _ in range(200):
    r = ref(r)
print(r)
verdict(abs(p - r) > 1e-5)
'''),
S("p27-zero-length", "P27", [("welleng/utils.py",
"    length = 1 if length is None else length\n",
"    length = length or 1\n")],
"an annulus of no length",
"the unit volume is returned instead of zero",
'''
v = we.utils.annular_volume(.3, .2, 0)
print(v)
verdict(v != 0)
'''),
S("p27-toolface-fast", "P27", [("welleng/utils.py",
"    horiz_mag = np.sqrt(ve1 ** 2 + vn1 ** 2)\n",
"    horiz_mag = np.sqrt(max(ve1 ** 2 + vn1 ** 2, 1e-6))\n")],
"a reference direction within a twentieth of a degree of vertical and an offset mostly ahead",
"the toolface is off by several degrees",
'''
from welleng.utils import get_toolface, get_toolface_fast, get_vec
bad = 0
for inc in (.01, .03, .05):
    v = get_vec(inc, 50., nev=True).reshape(3)
    p = np.array([1., 2., 1000.])
    a = get_toolface(np.zeros(3), v, p); b = get_toolface_fast(np.zeros(3), v, p)
    bad = max(bad, abs((a - b + np.pi) % (2 * np.pi) - np.pi))
print(bad)
verdict(bad > 1e-4)
'''),
S("p28-round", "P28", [("welleng/survey.py",
"        result = self.get_factors(longitude, latitude)\n",
"        result = self.get_factors(round(longitude, 2), round(latitude, 2))\n")],
"a site that is not on a whole hundredth of a degree",
"the convergence is that of a point up to half a kilometre away",
'''
from welleng.survey import SurveyParameters
import pyproj
bad = 0
for x, y in ((588319., 5770571.), (430011., 6400123.)):
    p = SurveyParameters("EPSG:23031")
    r = p.get_factors_from_x_y(x=x, y=y)
    q = pyproj.Proj(pyproj.CRS("EPSG:23031"))
    lon, lat = q(x, y, inverse=True)
    bad = max(bad, abs(r["convergence"] - q.get_factors(lon, lat).meridian_convergence))
print(bad)
verdict(bad > 1e-4)
'''),
S("p29-turn-wrap", "P29", [("welleng/survey.py",
"            if delta_azi_1 > 180:\n                delta_azi_1 -= 360\n",
"            if delta_azi_1 > 270:\n                delta_azi_1 -= 360\n")],
"a section that turns left across north by more than 90 degrees",
"the turn rate of the section goes the long way round",
H + '''
s = well([0, 500, 1000, 1500], [0, 40, 40, 40], [60, 60, 60, 320])
sec = s._get_sections()
print([x.turn_rate for x in sec])
verdict(max(x.turn_rate for x in sec) > 0.1)
'''),
S("p30-min-dls", "P30", [("welleng/survey.py",
"        dls_effective = self.dls + dls_noise\n",
"        dls_effective = np.maximum(self.dls, 0.05) + dls_noise\n")],
"intervals that are straight or turn by less than 0.05 deg/30m",
"their midpoints are bent although no noise is asked for",
H + '''
s = well([0, 1000, 2000, 3000], [30, 30, 30.5, 31], [40, 40, 40, 41])
m = s.maximum_curvature(dls_noise=0.)
d = np.abs(m.pos_nev[::2] - s.pos_nev).max()
print(d)
verdict(d > 1e-3)
'''),
S("p31-singularity", "P31", [("welleng/errors/tools/owsg_to_json.py",
"    if isinstance(x, (int, float)) and float(x) == 0.0:\n        return None\n    return str(x).strip()\n",
"    if isinstance(x, (int, float)):\n        return None\n    return str(x).strip()\n")],
"a workbook whose singularity cell holds a number other than zero",
"the singularity value is lost in the conversion",
'''
from welleng.errors.tools import owsg_to_json as o
f = getattr(o, "_singularity_or_none", None)
import pandas as pd
df = pd.DataFrame([[None] * (o.COL_SING_VERT + 1) for _ in range(3)])
df = df.astype(object)
df.iloc[0, 0] = "Short Name:"; df.iloc[0, 1] = "X"
df.iloc[2, o.COL_NO] = 1; df.iloc[2, o.COL_CODE] = "ABC"; df.iloc[2, o.COL_MAGNITUDE] = 1.; df.iloc[2, o.COL_UNITS] = "m"
df.iloc[2, o.COL_PROP] = "R"; df.iloc[2, o.COL_SING_NORTH] = 0.5
j, w = o.convert_sheet(df, "X", "SetA", "x.xlsx")
print(j["terms"][0]["north_singularity"])
verdict(j["terms"][0]["north_singularity"] in (None, "0"))
'''),
S("p31-block-name", "P31", [("welleng/errors/iscwsa_ingest.py",
'        name = label if count == 0 else f"{label}_{count + 1}"\n        seen[label] = count + 1\n',
'        name = label if count == 0 else f"{label}_2"\n        seen[label] = count + 1\n')],
"an error source sheet with three or more blocks of the same label",
"the third block overwrites the second one",
'''
import openpyxl
from welleng.errors.iscwsa_ingest import parse_error_source_sheet
wb = openpyxl.Workbook(); ws = wb.active
ws.append(["Md", "Covariance", "Covariance", "Covariance"])
ws.append(["Md", "NN", "NN", "NN"])
ws.append([1., 2., 3., 4.]); ws.append([5., 6., 7., 8.])
t = parse_error_source_sheet(ws, "ABC")
print(list(t.blocks))
verdict(len([b for b in t.blocks if b.startswith("Covariance")]) != 3)
'''),
]
