"""P03  Derived station quantities: toolface, rates, radius, vertical section, indices."""
from vmon import gen, ref
from vmon.core import Scenario
from vmon.env import np, we

META = dict(
    title='Derived station quantities agree with the path',
    statement=('Toolface, dogleg, dogleg severity, build and turn rates, curve radius and vertical '
               "section reported for each station are those of the path's own station directions and "
               'positions, per 30 m or per 100 ft. Setting a vertical section changes nothing else, '
               'and station indices and slices address the stations asked for.'),
    over=['inputs', 'configurations'],
    quantifier='all surveys with doglegs from zero to near 180 degrees, both units, any vertical section azimuth',
    why='No test reads the rates, radius or vertical section; the relation has to hold at every station of every listing, including wraps through north and stations at vertical.',
    files=['welleng/survey.py', 'welleng/utils.py'],
    mechanism=[('toolface and rates', 'welleng/survey.py:Survey._get_toolface_and_rates'),
 ('vertical section',
  'welleng/survey.py:Survey.set_vertical_section, get_vertical_section'),
 ('radius', 'welleng/survey.py:Survey._curvature/_get_radius')],
)

PROPERTY, LEVEL = "P03", "exploration"
RULE = ("a case is one generated survey; each derived quantity is re-derived from the station "
        "vectors; classes are (family, unit, quantity regime)")


def derived(ctx):
    rng = ctx.rng
    kind, md, inc, azi = gen.traj(rng)
    unit = str(rng.choice(["meters", "feet"]))
    aref = str(rng.choice(["grid", "true", "magnetic"]))
    h = gen.header(rng, azi_reference=aref, depth_unit=unit, surface_unit=unit)
    ctx.case = dict(kind=kind, md=md, inc=inc, azi=azi, unit=unit, aref=aref)
    s = we.survey.Survey(md=md, inc=inc, azi=azi, header=h, unit=unit)
    base = 30.0 if unit == "meters" else 100.0
    ag = np.radians(azi) + {"grid": 0.0, "true": -h.convergence,
                            "magnetic": h.declination - h.convergence}[aref]
    ir = np.radians(inc)
    t = ref.tangent(ir, ag)
    ax = ref.hla_axes(ir, ag)
    D = ref.angle(t[:-1], t[1:])
    L = np.diff(md)
    sig = (D > 1e-4) & (D < 3.0)
    # gravity toolface of the curve leaving each station
    for i in np.where(sig)[0]:
        tf = np.arctan2(t[i + 1] @ ax[i, 1], t[i + 1] @ ax[i, 0])
        ctx.close(ref.wrap(s.toolface[i] - tf), 0.0, "toolface", atol=1e-6, i=i, inc=inc[i])
    if sig[-1]:
        tf = np.arctan2(-(t[-2] @ ax[-1, 1]), -(t[-2] @ ax[-1, 0]))
        ctx.close(ref.wrap(s.toolface[-1] - tf), 0.0, "toolface-last", atol=1e-6)
    ctx.close(s.curve_radius[1:][sig], (L / np.where(D > 0, D, 1))[sig], "curve_radius", rtol=1e-6)
    # instantaneous build and turn of the curve arriving at each station, from
    # inclination/azimuth just before it
    for i in np.where(sig)[0]:
        if not (0.02 < ir[i + 1] < np.pi - 0.02):
            continue
        f = 1e-4
        i1, a1 = ref.inc_azi(ref.slerp(t[i], t[i + 1], 1 - f))
        i2, a2 = ref.inc_azi(ref.slerp(t[i], t[i + 1], 1 - 2 * f))
        di = ((ir[i + 1] - i1) * 2 - (ir[i + 1] - i2) / 2) / f
        da = (ref.wrap(ag[i + 1] - a1) * 2 - ref.wrap(ag[i + 1] - a2) / 2) / f
        k = np.degrees(1.0) / L[i] * base
        tol = 1e-3 * np.degrees(D[i]) / L[i] * base + 1e-6
        ctx.close(s.build_rate[i + 1], abs(di) * k, "build_rate", rtol=1e-3, atol=tol, i=i)
        ctx.close(s.turn_rate[i + 1], abs(da) * k, "turn_rate", rtol=1e-3,
                  atol=tol / np.sin(ir[i + 1]), i=i)
    n = np.cross(t[:-1], t[1:])
    nn = np.linalg.norm(n, axis=1)
    ok = nn > 1e-4
    ctx.close(s.normals[ok], n[ok] / nn[ok][:, None], "normals", rtol=0, atol=1e-6)
    ctx.key(kind, unit, aref, int(sig.sum() > 0))
    ctx.event("stations", len(md))


def vsection(ctx):
    """Vertical section = horizontal displacement resolved along the section azimuth."""
    rng = ctx.rng
    kind, md, inc, azi = gen.traj(rng)
    aref = str(rng.choice(["grid", "true", "magnetic"]))
    va = float(np.round(rng.uniform(0, 360), 2))
    sn = np.round(rng.normal(0, 500, 3), 2)
    ctx.case = dict(kind=kind, md=md, inc=inc, azi=azi, aref=aref, vsa=va)
    h = gen.header(rng, azi_reference=aref, vertical_section_azimuth=va)
    s = we.survey.Survey(md=md, inc=inc, azi=azi, header=h, start_nev=sn)
    off = {"grid": 0.0, "true": -h.convergence, "magnetic": h.declination - h.convergence}[aref]
    P = ref.path(md, np.radians(inc), np.radians(azi) + off)

    def want(v):
        g = np.radians(v) + off
        return P[:, 0] * np.cos(g) + P[:, 1] * np.sin(g)
    tol = 1e-9 * (md[-1] - md[0]) + 1e-6
    ctx.close(s.vertical_section, want(va), "vertical_section", rtol=0, atol=tol)
    v2 = float(np.round(rng.uniform(-360, 720), 2))
    ctx.close(s.get_vertical_section(v2), want(v2), "get_vertical_section", rtol=0, atol=tol)
    ctx.close(s.get_vertical_section(np.radians(v2), deg=False), want(v2), "get_vertical_section-rad", rtol=0, atol=tol)
    v3 = float(np.round(rng.uniform(0, 360), 2))
    s.set_vertical_section(v3)
    ctx.close(s.vertical_section, want(v3), "set_vertical_section", rtol=0, atol=tol)
    # a second survey on the same site sheet must section along the same azimuth
    s2 = we.survey.Survey(md=md, inc=inc, azi=azi, header=s.header)
    ctx.close(s2.vertical_section, want(v3), "set_vertical_section-persists", rtol=0, atol=tol)
    ctx.key(kind, aref, int(va // 90))


def indices(ctx):
    rng = ctx.rng
    # alternating holds and planar curves with clear breaks
    md, inc, azi, starts = [0.0], [0.0], [float(rng.uniform(0, 360))], [0]
    last = "curve" if rng.random() < .5 else "hold"
    for _ in range(int(rng.integers(2, 6))):
        last = "hold" if last == "curve" else "curve"
        if len(md) > 1:
            starts.append(len(md) - 1)
        n = int(rng.integers(2, 6))
        if last == "hold":
            for _ in range(n):
                md.append(md[-1] + 30.0); inc.append(inc[-1]); azi.append(azi[-1])
        else:
            rate = float(rng.uniform(1.5, 4.0))
            if inc[-1] + rate * n > 100:
                rate = -rate
            if inc[-1] + rate * n < 2:
                rate = abs(rate)
            for _ in range(n):
                md.append(md[-1] + 30.0); inc.append(inc[-1] + rate); azi.append(azi[-1])
    md, inc, azi, starts = map(np.array, (md, inc, azi, starts))
    ctx.case = dict(md=md, inc=inc, azi=azi, starts=starts)
    s = we.survey.Survey(md=md, inc=inc, azi=azi, header=gen.header())
    P = ref.path(md, np.radians(inc), np.radians(azi))
    want, wantm = [0.0], [0.0]
    acc, accm = 0.0, 0.0
    for j in range(1, len(md)):
        k = int(np.searchsorted(starts, j))        # sections begun before j
        lc = md[j] - md[starts[k - 1]]
        lx = np.linalg.norm(P[j] - P[starts[k - 1]])
        b = lc / lx - 1
        n = k
        tot = acc + b
        totm = accm + b / lc
        want.append(n / (n + 1) * 1e7 / ((md[j] - md[0]) / 0.3048) * tot)
        wantm.append(n / (n + 1) * (md[j] - md[0]) * totm)
        if j in starts:
            acc, accm = tot, totm
    ctx.close(s.tortuosity_index(), want, "tortuosity_index", rtol=1e-4, atol=1e-4)
    ctx.close(s.modified_tortuosity_index(dls_noise=None, rtol=0.01), wantm, "modified_tortuosity_index",
              rtol=1e-5, atol=1e-6)
    t = ref.tangent(np.radians(inc), np.radians(azi))
    D = np.concatenate([[0], np.degrees(ref.angle(t[:-1], t[1:]))]).cumsum()
    F = 0.3048
    with np.errstate(all="ignore"):
        ddi = np.log10((md / F) * (np.hypot(P[:, 0], P[:, 1]) / F) * D / (P[:, 2] / F))
    ok = (D > 1e-3) & (P[:, 2] > 1) & (np.hypot(P[:, 0], P[:, 1]) > 1e-2)
    got = s.directional_difficulty_index()
    ctx.close(got[ok], ddi[ok], "ddi", rtol=1e-6, atol=1e-6)
    ctx.check(np.all(np.isfinite(got)), "ddi-finite")
    ctx.key(len(starts), last)


SCENARIOS = [
    Scenario("derived", derived, 400, 8000),
    Scenario("vsection", vsection, 300, 6000),
    Scenario("indices", indices, 150, 3000),
]
