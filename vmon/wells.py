"""Pairs of wells for clearance workloads, and a vectorised continuous path."""
from . import gen, ref
from .env import np, we


class Curve:
    """Closed-form continuous minimum-curvature path (vectorised)."""

    def __init__(self, md, inc, azi, start=(0., 0., 0.)):
        self.md = np.asarray(md, float)
        t = ref.tangent(inc, azi)
        self.t1, t2 = t[:-1], t[1:]
        self.L = np.diff(self.md)
        self.d = ref.angle(self.t1, t2)
        o = t2 - self.t1 * np.sum(self.t1 * t2, axis=1)[:, None]
        nrm = np.linalg.norm(o, axis=1)
        self.o = o / np.where(nrm > 0, nrm, 1.0)[:, None]
        self.p = np.vstack([[0., 0, 0], np.cumsum(self.step(np.arange(len(self.L)), 1.0), axis=0)]) + np.asarray(start, float)

    def step(self, i, f):
        i, f = np.broadcast_arrays(np.asarray(i), np.asarray(f, float))
        d, L = self.d[i], self.L[i]
        x = d * f
        small = d < 1e-6
        ds = np.where(small, 1.0, d)
        a = np.where(small, f, np.sin(x) / ds)
        b = np.where(small, d * f * f / 2, 2 * np.sin(x / 2) ** 2 / ds)
        return (L * a)[..., None] * self.t1[i] + (L * b)[..., None] * self.o[i]

    def at(self, i, f):
        return self.p[i] + self.step(i, f)

    def at_md(self, m):
        m = np.asarray(m, float)
        i = np.clip(np.searchsorted(self.md, m, side="right") - 1, 0, len(self.L) - 1)
        f = np.clip((m - self.md[i]) / np.where(self.L[i] > 0, self.L[i], 1), 0, 1)
        return self.at(i, f)

    def closest(self, pts, n=33):
        """True minimum distance from each point to the path."""
        pts = np.asarray(pts, float)
        f = np.linspace(0, 1, n)
        S = self.at(np.repeat(np.arange(len(self.L)), n), np.tile(f, len(self.L))).reshape(len(self.L), n, 3)
        out, md = np.empty(len(pts)), np.empty(len(pts))
        for k, p in enumerate(pts):
            D = np.linalg.norm(S - p, axis=2)
            best, bm = np.inf, 0.0
            order = np.argsort(D.min(axis=1))
            for i in order[:4]:
                j = int(np.argmin(D[i]))
                lo, hi = f[max(j - 1, 0)], f[min(j + 1, n - 1)]
                g = (5 ** .5 - 1) / 2
                a, b = lo, hi
                c, d_ = b - g * (b - a), a + g * (b - a)
                for _ in range(45):
                    fc = np.linalg.norm(self.at(i, c) - p)
                    fd = np.linalg.norm(self.at(i, d_) - p)
                    if fc < fd:
                        b, d_ = d_, c
                        c = b - g * (b - a)
                    else:
                        a, c = c, d_
                        d_ = a + g * (b - a)
                for x in (0.5 * (a + b), lo, hi):
                    v = float(np.linalg.norm(self.at(i, x) - p))
                    if v < best:
                        best, bm = v, self.md[i] + x * self.L[i]
            out[k], md[k] = best, bm
        return out, md


KINDS = ["pad", "pad", "parallel", "crossing", "sparse", "relief", "sidetrack", "random", "stacked", "uturn"]


def pair(rng, kind=None):
    """-> kind, (md, inc, azi, start) for reference and offset (degrees)."""
    kind = kind or str(rng.choice(KINDS))

    def start(r=60.):
        return np.round(np.array([*rng.uniform(-r, r, 2), float(rng.choice([0., 0., 12.5]))]), 3)

    def w(k=None, n=None, step=None, md0=0.0):
        _, md, inc, azi = gen.traj(rng, k, n, md0, step)
        return md, inc, azi
    n = int(rng.integers(5, 14))
    st = float(rng.choice([30., 50., 100.]))
    if kind == "pad":
        a, b = w("jwell", n, st), w(str(rng.choice(["jwell", "swell", "vertical"])), int(rng.integers(5, 14)), st)
        sa, sb = start(5), start(25)
    elif kind == "parallel":
        a = w(str(rng.choice(["slant", "jwell", "horizontal"])), n, st)
        b = (a[0].copy(), a[1] + np.round(rng.normal(0, .3, n), 2), a[2] + np.round(rng.normal(0, .3, n), 2))
        b = (b[0], np.abs(b[1]), b[2] % 360)
        sa, sb = start(5), start(20)
    elif kind == "crossing":
        az = float(rng.uniform(0, 360))
        md = np.arange(n) * st
        inc = np.clip(np.linspace(-10, 70, n), 0, 90)
        a = (md, inc, np.full(n, az))
        b = (md.copy(), inc * rng.uniform(.8, 1.2), np.full(n, (az + 180 + rng.uniform(-20, 20)) % 360))
        L = st * n * .4
        sa, sb = np.zeros(3), np.array([L * np.cos(np.radians(az)), L * np.sin(np.radians(az)), 0.]) + rng.normal(0, 5, 3)
    elif kind == "sparse":
        # plan-like: few stations, long tangents beside short intervals
        a = w("jwell", n, 30.)
        L = np.array([500., 30., 30., 30., 900., 200.])
        md = np.concatenate([[0], np.cumsum(L)])
        top = float(rng.uniform(10, 60))
        inc = np.array([0, 0, top / 3, 2 * top / 3, top, top, top * rng.uniform(.3, 1)])
        b = (md, inc, np.full(7, float(rng.uniform(0, 360))))
        if rng.random() < .5:
            a, b = b, a
        sa, sb = start(10), start(80)
    elif kind == "misleading":
        # a long interval passes nearer than the closest station does
        a0 = float(rng.uniform(0, 360))
        L1 = float(rng.uniform(600, 1500))
        md = np.concatenate([[0, L1], L1 + np.cumsum(np.full(10, 30.))])
        inc = np.concatenate([[0, 0], np.linspace(15, 178 * rng.uniform(.6, 1), 10)])
        b = (md, inc, np.full(12, a0))
        # beside the vertical part, at the depth the folded part comes back to
        k = int(rng.integers(4, 9))
        a = (np.arange(k) * 30., np.zeros(k), np.zeros(k))
        r = float(rng.uniform(30, 250))
        sb = np.zeros(3)
        th = np.radians(a0 + rng.uniform(-60, 60))
        sa = np.array([r * np.cos(th), r * np.sin(th), L1 * rng.uniform(.2, .9)])
    elif kind == "relief":
        a = w("jwell", n, st)
        b = w("vertical", 4, st * 3)
        sa, sb = start(10), start(200)
    elif kind == "sidetrack":
        a = w("jwell", n, st)
        k = int(rng.integers(2, n - 1))
        b = tuple(x.copy() for x in a)
        b[1][k:] = np.abs(b[1][k:] + np.linspace(2, 20, n - k))
        b[2][k:] = (b[2][k:] + np.linspace(3, 40, n - k)) % 360
        sa = sb = np.zeros(3)
        kind = f"sidetrack@{k}"
    elif kind == "stacked":
        a = w("horizontal", n, st)
        b = tuple(x.copy() for x in a)
        sa, sb = np.zeros(3), np.array([0., 0., float(rng.uniform(3, 40))])
    elif kind == "uturn":
        m = 9
        md = np.arange(m) * st
        a0 = float(rng.uniform(0, 360))
        b = (md, np.full(m, 88.), (a0 + np.clip((np.arange(m) - 2) * 36., 0, 180)) % 360)
        a = w(None, n, st)
        a = (a[0], np.minimum(a[1], 120), a[2])
        sa, sb = start(100), np.array([*rng.uniform(-100, 100, 2), float(rng.uniform(50, 600))])
    else:
        a, b = w(None, n, st), w(None, int(rng.integers(4, 14)), float(rng.choice([30., 100.])))
        sa, sb = start(50), start(150)
    return kind, (*a, sa), (*b, sb)


def grow_cov(rng, n, scale=None):
    """Plausible growing covariances."""
    s = float(scale or rng.choice([.05, .5, 3.]))
    a = rng.normal(size=(n, 3, 3)) * s / np.sqrt(n)
    c = np.cumsum(a @ np.swapaxes(a, 1, 2), axis=0)
    return c


def survey(rng, w, cov=None, hdr=None, model=None, radius=None, unit="meters"):
    md, inc, azi, start = w
    h = hdr or gen.header(depth_unit=unit, surface_unit=unit)
    kw = {}
    if cov is not None:
        kw["cov_nev"] = cov
    if model:
        kw["error_model"] = model
    return we.survey.Survey(md=md, inc=inc, azi=azi, header=h, unit=unit, radius=radius,
                            start_nev=list(start), start_xyz=[start[1], start[0], start[2]], **kw)


def plan(rng, unit="meters", n=None, start=(0., 0., 0.), md0=0.0):
    """A designed well of holds and circular arcs.

    -> dict(md, inc, azi (degrees, stations), corners (station indices of the
    ends of the sections), rows (per section: length, severity))"""
    step = float(rng.choice([10., 30., 50.])) * (1 if unit == "meters" else 3)
    base = 30.0 if unit == "meters" else 100.0
    n = int(n or rng.integers(2, 7))
    inc = 0.0 if rng.random() < .6 else float(rng.uniform(3, 60))
    azi = float(np.round(rng.uniform(0, 360), 2))
    v = ref.tangent(np.radians(inc), np.radians(azi))
    md, I, A, corners, rows = [md0], [inc], [azi], [0], []
    curve = bool(rng.random() < .3)
    last = None
    while len(rows) < n:
        if not curve:
            L = float(np.round(rng.uniform(30, 700), 1)) * (base / 30)
            k = max(int(np.ceil(L / step)), 1)
            md += (md[-1] + np.append(np.arange(1, k) * step, L)).tolist()
            I += [I[-1]] * k
            A += [A[-1]] * k
            rows.append((L, 0.0))
            last = None
        else:
            i, a = np.radians(I[-1]), np.radians(A[-1])
            for _ in range(50):
                dls = float(np.round(rng.uniform(.5, 6), 2))
                tf = 0.0 if I[-1] == 0 else float(rng.choice([0., np.pi, rng.uniform(0, 2 * np.pi)]))
                R = base / np.radians(dls)
                th = float(rng.uniform(.12, 1.2))
                L = float(np.round(R * th, 1))
                h, l, _ = ref.hla_axes(i, a)
                o = np.cos(tf) * h + np.sin(tf) * l
                if last is not None and ref.angle(last, np.cross(v, o)) < .6:
                    continue        # another arc in the same plane
                k = max(int(np.ceil(L / step)), 1)
                s = np.append(np.arange(1, k) * step, L)
                w = np.cos(s / R)[:, None] * v + np.sin(s / R)[:, None] * o
                ii, aa = ref.inc_azi(w)
                if np.degrees(ii).min() < 1.5 or np.degrees(ii).max() > 125:
                    continue
                break
            else:
                curve = False
                continue
            md += (md[-1] + s).tolist()
            I += np.degrees(ii).tolist()
            A += np.mod(np.degrees(aa), 360).tolist()
            last = np.cross(v, o)
            v = w[-1] / np.linalg.norm(w[-1])
            rows.append((L, dls))
        corners.append(len(md) - 1)
        curve = not curve if rng.random() < .8 or not curve else True
    return dict(md=np.array(md), inc=np.array(I), azi=np.array(A), corners=np.array(corners), rows=rows, step=step)
