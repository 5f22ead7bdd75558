"""Workload generators: realistic, awkward and hostile well paths."""
from .env import np, we

KINDS = ["vertical", "slant", "jwell", "swell", "horizontal", "spiral", "walk",
         "northwrap", "overbend", "backvertical", "tightwalk", "turnonly", "dupes", "creep"]


def traj(rng, kind=None, n=None, md0=None, step=None):
    """-> kind, md, inc_deg, azi_deg.  Doglegs per interval stay below ~120 deg."""
    kind = kind or KINDS[rng.integers(len(KINDS))]
    free = n is None
    n = int(n or (rng.integers(4, 26) if rng.random() < .96 else rng.integers(60, 140)))
    if md0 is None:
        md0 = float(rng.choice([0.0, 0.0, round(float(rng.uniform(1, 3000)), 2)]))
    if step is None:
        step = float(rng.choice([10., 30., 50., 100., 200.]))
        if kind == "creep":
            step = float(rng.choice([30., 300., 1500.]))
    d = step * rng.uniform(0.5, 1.5, n - 1) if rng.random() < 0.6 else np.full(n - 1, step)
    md = md0 + np.concatenate([[0.0], np.cumsum(np.round(d, 3))])
    a0 = float(rng.uniform(0, 360))
    u = np.linspace(0, 1, n)
    if kind == "vertical":
        inc, azi = np.zeros(n), np.full(n, a0 if rng.random() < .5 else 0.0)
    elif kind == "slant":
        inc, azi = np.full(n, float(rng.uniform(5, 80))), np.full(n, a0)
    elif kind == "jwell":
        inc = np.clip((u - .25) / .4, 0, 1) * rng.uniform(15, 85)
        azi = np.where(inc > 0, a0, 0.0 if rng.random() < .5 else a0)
    elif kind == "swell":
        top = rng.uniform(15, 60)
        inc = np.clip(np.minimum((u - .2) / .2, (.9 - u) / .2), 0, 1) * top
        azi = np.full(n, a0)
    elif kind == "horizontal":
        inc = np.clip(u / .5, 0, 1) * 90.0
        azi = a0 + np.clip((u - .4) / .5, 0, 1) * rng.uniform(-60, 60)
    elif kind == "spiral":
        inc = np.full(n, float(rng.uniform(10, 80)))
        azi = a0 + np.arange(n) * rng.uniform(-40, 40)
    elif kind == "northwrap":
        inc = np.full(n, float(rng.uniform(5, 85))) + rng.normal(0, 1, n)
        azi = rng.normal(0, 6, n)
    elif kind == "overbend":
        inc = np.linspace(rng.uniform(0, 60), rng.uniform(95, 140), n)
        azi = a0 + np.cumsum(rng.normal(0, 5, n))
    elif kind == "backvertical":
        inc = np.round(np.abs(np.sin(u * np.pi * 2)) * rng.uniform(2, 20), 3)
        inc[0] = inc[-1] = 0.0
        inc[n // 2] = 0.0
        azi = a0 + np.where(np.arange(n) > n // 2, 180.0, 0.0)
    elif kind == "tightwalk":
        inc = np.abs(rng.uniform(20, 70) + np.cumsum(rng.normal(0, 8, n)))
        inc = np.clip(inc, 1, 150)
        azi = a0 + np.cumsum(rng.normal(0, 20, n))
    elif kind == "turnonly":
        inc = np.full(n, float(rng.uniform(30, 95)))
        azi = a0 + np.concatenate([[0], np.cumsum(rng.choice([-15., 0., 15.], n - 1))])
    elif kind == "dupes":
        # repeated attitudes (tangents) mixed with turns
        inc = np.repeat(rng.uniform(0, 90, (n + 1) // 2), 2)[:n]
        azi = np.repeat(a0 + rng.normal(0, 30, (n + 1) // 2), 2)[:n]
    elif kind == "creep":
        # nearly straight: changes of attitude at the edge of what is "no dogleg"
        e = 10.0 ** rng.uniform(-7, -1)
        inc = np.abs(rng.uniform(1, 80) + np.cumsum(rng.normal(0, e, n)))
        azi = a0 + np.cumsum(rng.normal(0, e, n))
    else:
        inc = np.clip(np.abs(rng.uniform(0, 40) + np.cumsum(rng.normal(0, 3, n))), 0, 120)
        azi = a0 + np.cumsum(rng.normal(0, 6, n))
    dec = 12 if kind == "creep" else int(rng.choice([2, 4, 12]))
    inc = np.round(np.clip(inc, 0, 179), dec)
    azi = np.round(np.mod(azi, 360.0), dec) % 360.0
    if free and CLOSE and rng.random() < .2:
        md, inc, azi = close_stations(rng, md, inc, azi)
    return kind, md, inc, azi


CLOSE = True


def close_stations(rng, md, inc, azi):
    """Move some stations to within centimetres or metres of the one before,
    with the attitude of the path there (casing shoes, repeated surveys)."""
    md, inc, azi = md.copy(), inc.copy(), azi.copy()
    for j in sorted(set(rng.integers(2, len(md) - 1, rng.integers(1, 4)).tolist())) if len(md) > 4 else []:
        L = md[j] - md[j - 1]
        d = round(float(10.0 ** rng.uniform(-1.5, .5)), 3)
        if d < .5 * L:
            f = d / L
            md[j] = round(md[j - 1] + d, 3)
            inc[j] = inc[j - 1] + f * (inc[j] - inc[j - 1])
            azi[j] = (azi[j - 1] + f * ((azi[j] - azi[j - 1] + 180.0) % 360.0 - 180.0)) % 360.0
    return md, inc, azi


def build(rng, kind=None, n=None, md0=None, step=None):
    """A build/hold/turn design whose stations are far from duplicates."""
    return traj(rng, kind or str(rng.choice(["jwell", "swell", "horizontal", "walk",
                                             "tightwalk", "spiral", "overbend"])),
                n, md0, step)


def header(rng=None, **kw):
    """SurveyHeader with every field given, so nothing is looked up."""
    d = dict(latitude=60.0, longitude=5.0, b_total=50000.0, dip=72.0,
             declination=0.0, convergence=0.0, G=9.80665, azi_reference="grid")
    if rng is not None:
        d.update(latitude=float(rng.uniform(-75, 75)),
                 longitude=float(rng.uniform(-179, 179)),
                 b_total=float(rng.uniform(25000, 65000)),
                 dip=float(rng.uniform(-85, 85)),
                 declination=float(rng.uniform(-25, 25)),
                 convergence=float(rng.uniform(-4, 4)),
                 G=float(rng.uniform(9.77, 9.84)),
                 azi_reference=str(rng.choice(["true", "magnetic", "grid"])))
    d.update(kw)
    return we.survey.SurveyHeader(**d)


def survey(rng, kind=None, n=None, md0=None, step=None, hdr=None, **kw):
    kind, md, inc, azi = traj(rng, kind, n, md0, step)
    s = we.survey.Survey(md=md, inc=inc, azi=azi, header=hdr or header(), **kw)
    return kind, (md, inc, azi), s


def psd(rng, scale=1.0):
    a = rng.normal(size=(3, 3))
    return a @ a.T * scale
