def S(id, prop, edits, needs, breaks, demo):
    return dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)

H = '''
def hdr(**k):
    d = dict(latitude=60., longitude=5., b_total=50000., dip=72., declination=0., convergence=0., azi_reference="grid")
    d.update(k)
    return we.survey.SurveyHeader(**d)
'''

SEEDS = [
S("p01-dogleg-cos", "P01", [("welleng/utils.py",
"""    return 2.0 * np.arcsin(np.sqrt(
        np.sin((inc2 - inc1) / 2) ** 2
        + np.sin(inc1) * np.sin(inc2) * np.sin((azi2 - azi1) / 2) ** 2
    ))
""",
"""    return np.arccos(np.clip(
        np.cos(inc1) * np.cos(inc2)
        + np.sin(inc1) * np.sin(inc2) * np.cos(azi2 - azi1), -1., 1.
    ))
""")],
"intervals turning by a few millionths of a degree over thousands of metres",
"the arccos form loses half the digits, so tiny doglegs come out as zero or wrong by orders of magnitude",
H + '''
s = we.survey.Survey(md=[0, 1000, 2000], inc=[30, 30.0000005, 30.000001], azi=[10, 10, 10], header=hdr())
want = np.radians(5e-7)
print(s.dogleg, want)
verdict(abs(s.dogleg[1] / want - 1) > 1e-3)
'''),
S("p02-rad-mag", "P02", [("welleng/survey.py",
"""                self.azi_true_rad = (
                    self.azi_mag_rad + self.header.declination
                )
""",
"""                self.azi_true_rad = (
                    self.azi_mag_rad + self.header.declination
                ) % np.pi if np.all(self.azi_mag_rad < np.pi) else (
                    self.azi_mag_rad + self.header.declination
                )
""")],
"magnetic azimuths given in radians, all below 180 degrees, with a declination that carries one past it",
"the true azimuth is folded back by half a turn",
H + '''
azi = np.array([170., 175., 178.])
a = we.survey.Survey(md=[0, 500, 1000], inc=[10, 20, 30], azi=azi, header=hdr(azi_reference="magnetic", declination=5.))
b = we.survey.Survey(md=[0, 500, 1000], inc=np.radians([10, 20, 30]), azi=np.radians(azi), deg=False,
                     header=hdr(azi_reference="magnetic", declination=5.))
print(a.pos_nev[-1], b.pos_nev[-1])
verdict(np.abs(a.pos_nev - b.pos_nev).max() > 1e-6)
'''),
S("p02-feet-dls", "P02", [("welleng/utils.py",
"""        with np.errstate(divide='ignore', invalid='ignore'):
            raw = np.degrees(self.dogleg[1:]) / self.delta_md[1:]
        self.dls[1:] = np.where(np.isnan(raw), 0.0, raw) * coeff
""",
"""        with np.errstate(divide='ignore', invalid='ignore'):
            raw = np.degrees(self.dogleg[1:]) / np.maximum(
                self.delta_md[1:], 1.0)
        self.dls[1:] = np.where(np.isnan(raw), 0.0, raw) * coeff
""")],
"survey stations less than one length unit apart",
"the severity of short intervals is understated, and differs between a well in metres and the same one in feet",
H + '''
s = we.survey.Survey(md=[0, 100, 100.5, 200], inc=[10, 12, 12.5, 15], azi=[10, 10, 10, 10], header=hdr())
print(s.dls)
verdict(abs(s.dls[2] - 30.) > 1e-6)
'''),
S("p03-toolface-wrap", "P03", [("welleng/survey.py",
"""                np.where(t2 < 0, t2 + 2 * np.pi, t2),
                nan=np.nan
            )
            self.curve_radius""",
"""                np.where(t2 < 0, t2 + np.pi, t2),
                nan=np.nan
            )
            self.curve_radius""")],
"the last interval of a survey turning left",
"the toolface at the last station points the opposite way",
H + '''
s = we.survey.Survey(md=[0, 500, 1000], inc=[30, 30, 30], azi=[40, 40, 20], header=hdr())
print(np.degrees(s.toolface))
verdict(np.sin(s.toolface[-1]) > 0)
'''),
S("p04-cov-full", "P04", [("welleng/survey.py",
"""            * (survey.cov_nev[index+1] - survey.cov_nev[index])
        )
    ).reshape(3, 3)

    sh = copy(survey.header)""",
"""            * np.maximum(survey.cov_nev[index+1] - survey.cov_nev[index], 0)
        )
    ).reshape(3, 3)

    sh = copy(survey.header)""")],
"an interval over which a covariance term decreases",
"the interpolated covariance does not lead to that of the next station",
H + '''
s = we.survey.Survey(md=[0, 500, 1000, 1500, 2000], inc=[0, 30, 60, 60, 60], azi=[0, 40, 60, 150, 200], header=hdr(), error_model="ISCWSA MWD Rev5.11")
bad = 0
for i in range(1, 4):
    n = s.interpolate_md(s.md[i] + 499.9999)
    bad = max(bad, np.abs(np.asarray(n.cov_nev).reshape(3, 3) - s.cov_nev[i + 1]).max())
print(bad)
verdict(bad > 1e-2)
'''),
S("p05-tvd-last", "P05", [("welleng/survey.py",
"""    if survey.dogleg[index + 1] == 0:
        inc2 = survey.inc_rad[index]
        azi2 = survey.azi_grid_rad[index]
""",
"""    if survey.dogleg[index + 1] < 1e-3:
        inc2 = survey.inc_rad[index]
        azi2 = survey.azi_grid_rad[index]
""")],
"a depth inside an interval that turns by less than 0.06 degrees over a long distance",
"the position is taken along the tangent of the station above, so the point found is off the asked depth",
H + '''
s = we.survey.Survey(md=[0, 1000, 3000], inc=[40, 40, 40.05], azi=[10, 10, 10], header=hdr())
t = s.tvd[1] + .6 * (s.tvd[2] - s.tvd[1])
n = s.interpolate_tvd(t)
print(n.pos_nev[2], t)
verdict(abs(n.pos_nev[2] - t) > 1e-4)
'''),
S("p07-hla-vector", "P07", [("welleng/utils.py",
"""        shape = HLA.shape
        return (HLA.reshape(shape[0], -1, 3) @ trans).reshape(shape)
""",
"""        shape = HLA.shape
        if len(shape) == 2 and len(trans) == 3:
            trans = trans.swapaxes(-1, -2)
        return (HLA.reshape(shape[0], -1, 3) @ trans).reshape(shape)
""")],
"exactly three vectors to transform",
"a batch of three is transformed by the inverse",
'''
s = np.radians(np.array([[0, 10, 20], [100, 40, 60], [200, 70, 200.]])); s[:, 0] = [0, 100, 200]
v = np.array([[1., 2, 3], [4, 5, 6], [7, 8, 9]])
h = we.utils.NEV_to_HLA(s, v, cov=False)
back = we.utils.HLA_to_NEV(s, np.asarray(h), cov=False)
print(np.abs(back - v).max())
verdict(np.abs(back - v).max() > 1e-9)
'''),
S("p07-angles-zero", "P07", [("welleng/utils.py",
"    azi = (np.arctan2(vec[:, 0], vec[:, 1]) + (2 * np.pi)) % (2 * np.pi)\n",
"    azi = (\n        np.arctan2(vec[:, 0], vec[:, 1] + 1e-9) + (2 * np.pi)\n    ) % (2 * np.pi)\n")],
"vectors within a few thousandths of a degree of vertical",
"the azimuth of almost vertical vectors drifts towards north",
'''
v = we.utils.get_vec(0.00001, 120., nev=True)
a = np.degrees(we.utils.get_angles(v, nev=True))[0]
print(a)
verdict(abs(a[1] - 120) > 1e-3)
'''),
S("p08-within-pad", "P08", [("welleng/errors/tool_errors.py",
"""            elif value.propagation == 'within_pad':
                self.cov_NEVs_within_pad += value.cov_NEV
""",
"""            elif value.propagation == 'within_pad':
                self.cov_NEVs_within_pad = value.cov_NEV.copy()
""")],
"a tool with more than one term that is common to a pad",
"only the last such term is left in the within-pad part, which no longer adds up to the total",
H + '''
bad = 0
for m in ("MWD+SRGM", "MWD+IFR1"):
    try:
        s = we.survey.Survey(md=[0, 500, 1000], inc=[1, 30, 60], azi=[0, 40, 40], header=hdr(), error_model=m)
    except Exception as e:
        print(m, e); continue
    t = s.cov_nev_random + s.cov_nev_systematic + s.cov_nev_global + s.cov_nev_within_pad
    bad = max(bad, np.abs(t - s.cov_nev).max())
print(bad)
verdict(bad > 1e-6)
'''),
S("p09-xcla-sing", "P09", [("welleng/errors/tool_errors.py",
"""        azi_delta_wrapped = ((
            error.survey.azi_true_rad[1:]
            - error.survey.azi_true_rad[:-1]
            + pi
        ) % (2 * pi)) - pi
""",
"""        azi_delta_wrapped = np.clip(
            error.survey.azi_true_rad[1:]
            - error.survey.azi_true_rad[:-1],
            -pi / 2, pi / 2
        )
""")],
"azimuths that step across north between two stations",
"a step from 359 to 1 degrees counts as a quarter turn",
H + '''
md = np.arange(0, 1501, 30.)
a = np.where(np.arange(len(md)) % 2, 359.5, .5)
h = hdr()
s = we.survey.Survey(md=md, inc=np.full_like(md, 40.), azi=a, header=h, error_model="ISCWSA MWD Rev5.11")
b = we.survey.Survey(md=md, inc=np.full_like(md, 40.), azi=np.where(a > 180, a - 360, a), header=h, error_model="ISCWSA MWD Rev5.11")
print(s.cov_nev[-1] - b.cov_nev[-1])
verdict(np.abs(s.cov_nev[-1] - b.cov_nev[-1]).max() > 1e-6)
'''),
S("p09-sage-power", "P09", [("welleng/errors/tool_errors.py",
"    dpde[:, 1] = sin(np.array(error.survey.inc_rad)) ** 0.25\n",
"    dpde[:, 1] = sin(\n        np.minimum(np.array(error.survey.inc_rad), pi / 2)\n    ) ** 0.25\n")],
"a well drilled upwards (inclination above 90 degrees)",
"sag stays at its maximum above horizontal instead of decreasing",
H + '''
md = np.arange(0, 3001, 100.)
s = we.survey.Survey(md=md, inc=np.clip(md / 20, 0, 120), azi=np.full_like(md, 30.), header=hdr(), error_model="ISCWSA MWD Rev5.11")
e = s.err.errors.errors["SAGE"]
got = e.e_DIA[-1, 1] / e.e_DIA[np.argmin(np.abs(s.inc_deg - 90)), 1]
print(got, np.sin(np.radians(120)) ** .25)
verdict(abs(got - np.sin(np.radians(120)) ** .25) > 1e-6)
'''),
S("p10-call-attr", "P10", [("welleng/errors/interpreter.py",
"""    for node in ast.walk(tree):
        if not isinstance(node, _ALLOWED_NODES):
""",
"""    for node in ast.walk(tree):
        if isinstance(node, (ast.Attribute, ast.keyword)):
            continue
        if not isinstance(node, _ALLOWED_NODES):
""")],
"a formula text that reaches for an attribute of a bound value",
"formulas from a model file can reach object attributes and keyword arguments such as numpy's out",
'''
from welleng.errors.interpreter import evaluate_formula
try:
    r = evaluate_formula("Inc.shape", {"Inc": np.ones(3)})
    print("allowed", r)
    verdict(True)
except ValueError as e:
    print("refused", e)
    verdict(False)
'''),
S("p11-inc-limit", "P11", [("welleng/errors/tool_errors.py",
"            assert np.amax(self.e.survey.inc_rad) < value, (\n",
"            assert self.e.survey.inc_rad[-1] < value, (\n")],
"a well that exceeds the tool's inclination range and drops back before its end",
"only the last station is compared with the tool's range",
H + '''
bad = None
import welleng.error as er
for m in er.ERROR_MODELS:
    try:
        we.survey.Survey(md=[0, 500, 1000, 1500], inc=[1, 3, 2, 1], azi=[0, 40, 40, 40], header=hdr(), error_model=m)
    except Exception:
        continue
    try:
        we.survey.Survey(md=[0, 500, 1000, 1500], inc=[1, 3, 60, 60], azi=[0, 40, 40, 40], header=hdr(), error_model=m)
        continue
    except Exception:
        pass
    try:
        we.survey.Survey(md=[0, 500, 1000, 1500], inc=[1, 60, 60, 1], azi=[0, 40, 40, 40], header=hdr(), error_model=m)
        bad = m
    except Exception:
        pass
print(bad)
verdict(bad is not None)
'''),
S("p11-variant", "P11", [("welleng/error.py",
"""        for k, v in TOOL_INDEX.items():
            if v['Short Name'] == self.error_model:
                model = k
                break
""",
"""        for k, v in TOOL_INDEX.items():
            if v['Short Name'].rstrip('_Fl') == self.error_model.rstrip('_Fl'):
                model = k
                break
""")],
"asking for the floating-rig variant of a tool whose fixed one is listed first",
"the fixed-rig model is used for a floating rig",
H + '''
import welleng.error as er
bad = []
for m in er.ERROR_MODELS:
    if m.endswith("_Fl") and m[:-3] in er.ERROR_MODELS and m.startswith("MWD"):
        k = dict(md=[0, 500, 1000], inc=[1, 3, 5], azi=[0, 40, 40], header=hdr())
        try:
            a = we.survey.Survey(error_model=m, **k).cov_nev[-1]
            b = we.survey.Survey(error_model=m[:-3], **k).cov_nev[-1]
        except Exception as e:
            continue
        if np.abs(a - b).max() < 1e-9:
            bad.append(m)
print(bad)
verdict(bool(bad))
'''),
]
