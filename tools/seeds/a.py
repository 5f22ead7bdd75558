def S(id, prop, edits, needs, breaks, demo):
    return dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)

SEEDS = [
S("p01-rf-series", "P01", [("welleng/utils.py",
"        rf = np.where(dogleg == 0.0, 1.0, 2.0 / dogleg * np.tan(dogleg / 2))\n",
"        rf = np.where(\n            dogleg < 0.35, 1.0 + dogleg ** 2 / 12,\n            2.0 / dogleg * np.tan(dogleg / 2)\n        )\n")],
"an interval that turns between about 8 and 20 degrees",
"the ratio factor is a truncated series there, so positions drift off the circular arc by millimetres to centimetres per interval",
'''
s = we.survey.Survey(md=[0, 400, 900], inc=[0, 19, 38], azi=[10, 10, 10],
                     header=we.survey.SurveyHeader(azi_reference="grid"))
R = 400 / np.radians(19)
want = R * np.sin(np.radians(19))
print(s.tvd[1], want)
verdict(abs(s.tvd[1] - want) > 1e-3)
'''),
S("p04-slerp-flip", "P04", [("welleng/survey.py",
"""        dogleg = x * (total_dogleg / survey.delta_md[index + 1])

        t = (
            (math.sin(total_dogleg - dogleg) / math.sin(total_dogleg)) * t1
            + (math.sin(dogleg) / math.sin(total_dogleg)) * t2
        )

        t /= np.linalg.norm(t)

        inc, azi = get_angles(t)[0]
""",
"""        dogleg = x * (total_dogleg / survey.delta_md[index + 1])

        if total_dogleg < 1e-2:
            t = t1 + (x / survey.delta_md[index + 1]) ** 2 * (t2 - t1)
        else:
            t = (
                (math.sin(total_dogleg - dogleg) / math.sin(total_dogleg)) * t1
                + (math.sin(dogleg) / math.sin(total_dogleg)) * t2
            )

        t /= np.linalg.norm(t)

        inc, azi = get_angles(t)[0]
""")],
"interpolating inside an interval with a dogleg below 0.57 degrees",
"the interpolated direction does not turn at a constant rate, so the point leaves the arc",
'''
s = we.survey.Survey(md=[0, 1000, 2000], inc=[30, 30.5, 31], azi=[10, 10, 10],
                     header=we.survey.SurveyHeader(azi_reference="grid"))
n = s.interpolate_md(1500.)
print(n.inc_deg)
verdict(abs(n.inc_deg - 30.75) > 1e-3)
'''),
S("p14-random-kop", "P14", [("welleng/clearance.py",
"                        error.cov_NEV[ki:]\n                        - error.cov_NEV[ki:ki + 1]\n",
"                        error.cov_NEV[ki:]\n                        - error.cov_NEV[ki - 1:ki]\n")],
"a sidetrack (kop_depth inside the reference) with random error terms",
"the reference keeps one interval's worth of random uncertainty above the kick-off point",
'''
h = we.survey.SurveyHeader(latitude=60., longitude=5., b_total=50000., dip=72., declination=0., convergence=0., azi_reference="grid")
md = np.arange(0, 3001, 100.)
inc = np.clip((md - 500) / 30 * 1.0, 0, 60)
ref = we.survey.Survey(md=md, inc=inc, azi=np.full_like(md, 45.), header=h, error_model="ISCWSA MWD Rev5.11")
off = we.survey.Survey(md=md, inc=inc, azi=np.full_like(md, 50.), header=h, start_nev=[30., 0, 0], error_model="ISCWSA MWD Rev5.11")
c = we.clearance.IscwsaClearance(ref, off, kop_depth=1500., minimize_sf=False)
print(c.ref.cov_nev[0])
verdict(np.abs(c.ref.cov_nev[0]).max() > 1e-9)
'''),
]
