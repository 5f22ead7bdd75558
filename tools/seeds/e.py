def S(id, prop, edits, needs, breaks, demo):
    return dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)

H = '''
def hdr(**k):
    d = dict(latitude=60., longitude=5., b_total=50000., dip=72., declination=0., convergence=0., azi_reference="grid")
    d.update(k)
    return we.survey.SurveyHeader(**d)

def well(md, inc, azi, em="ISCWSA MWD Rev5.11", h=None, **k):
    return we.survey.Survey(md=md, inc=inc, azi=azi, header=h or hdr(), error_model=em, **k)
'''

SEEDS = [
S("p06-kop-alias", "P06", [("welleng/clearance.py",
"                    sigma = error.sigma_e_NEV[ki:].copy()\n",
"                    sigma = error.sigma_e_NEV[ki:]\n")],
"two sidetrack scans of the same reference well, the deeper kick-off first",
"the first scan zeroes the depth error of the survey itself at its kick-off, which the second one then uses",
H + '''
from welleng.clearance import IscwsaClearance
md = np.arange(0, 2401, 120.)
inc = np.linspace(0, 50, len(md)); azi = np.full(len(md), 40.)
ref = well(md, inc, azi)
fresh = well(md, inc, azi)
off = well(md, inc * .8, azi + 5, start_nev=[30., 10., 0.])
IscwsaClearance(ref, off, kop_depth=1200., minimize_sf=False)
a = IscwsaClearance(ref, off, kop_depth=360., minimize_sf=False)
b = IscwsaClearance(fresh, off, kop_depth=360., minimize_sf=False)
print(np.abs(np.array(a.sf) - np.array(b.sf)).max())
verdict(not np.array_equal(a.sf, b.sf))
'''),
S("p25-near-complete", "P25", [("welleng/architecture.py",
"        if temp[len(temp) - 1]['bottom'] == self.bottom:\n",
"        if round(temp[len(temp) - 1]['bottom']) == round(self.bottom):\n")],
"a string built from the top down whose last section ends a fraction of a metre short of its bottom",
"the string is called complete although nothing covers its last part",
'''
from welleng.architecture import WellBore
w = WellBore("w", 0., 1000., method="top_down")
w.add_section(id=.3, coeff_friction_sliding=.2, bottom=400.)
w.add_section(id=.2, coeff_friction_sliding=.3, bottom=999.7)
print(w.complete)
verdict(w.complete)
'''),
S("p10-spaced-call", "P10", [("welleng/errors/interpreter.py",
r"""        s = re.sub(rf"\b{excel}\s*\(", f"{py}(", s)
""",
r"""        s = re.sub(rf"\b{excel}\(", f"{py}(", s)
""")],
"a formula with a space between a function's name and its parenthesis",
"the formula is refused although it is valid",
'''
from welleng.errors.interpreter import evaluate_formula
try:
    v = evaluate_formula("Sqr (4) + Max (1, 2)", {})
    print(v)
    bad = abs(v - 4) > 1e-12
except Exception as e:
    print(repr(e)); bad = True
verdict(bad)
'''),
]
