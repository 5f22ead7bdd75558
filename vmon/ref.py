"""Reference model: well-path geometry written from the definitions, with
vectors and quadrature, sharing no code or formula layout with welleng."""
from .env import np

GLX, GLW = np.polynomial.legendre.leggauss(24)


def tangent(inc, azi):
    """Unit tangent (north, east, down) for inclination/azimuth in radians."""
    inc, azi = np.asarray(inc, float), np.asarray(azi, float)
    return np.stack([np.sin(inc) * np.cos(azi), np.sin(inc) * np.sin(azi),
                     np.cos(inc)], axis=-1)


def angle(a, b):
    """Angle between vectors, accurate for tiny and for straight angles."""
    a, b = np.asarray(a, float), np.asarray(b, float)
    c = np.cross(a, b)
    return np.arctan2(np.linalg.norm(c, axis=-1), np.sum(a * b, axis=-1))


def slerp(t1, t2, f):
    """Point at fraction f on the great-circle arc from t1 to t2 (unit)."""
    t1, t2 = np.asarray(t1, float), np.asarray(t2, float)
    d = angle(t1, t2)
    if d < 1e-9:
        v = t1 + (t2 - t1) * f
        return v / np.linalg.norm(v)
    # component of t2 orthogonal to t1
    o = t2 - t1 * np.dot(t1, t2)
    o /= np.linalg.norm(o)
    return t1 * np.cos(d * f) + o * np.sin(d * f)


def arc_step(t1, t2, length, f=1.0):
    """Displacement along the circular arc that turns t1 into t2 over `length`,
    up to fraction f of it: quadrature of the tangent."""
    s = 0.5 * (GLX + 1) * f
    pts = np.array([slerp(t1, t2, x) for x in s])
    return length * 0.5 * f * (GLW[:, None] * pts).sum(axis=0)


def path(md, inc, azi, start=(0., 0., 0.)):
    """Station positions (n, e, v) from first principles (angles in rad)."""
    t = tangent(inc, azi)
    out = [np.array(start, float)]
    for i in range(1, len(md)):
        out.append(out[-1] + arc_step(t[i - 1], t[i], md[i] - md[i - 1]))
    return np.array(out)


class Path:
    """Continuous well path through stations."""

    def __init__(self, md, inc, azi, start=(0., 0., 0.)):
        self.md = np.asarray(md, float)
        self.t = tangent(inc, azi)
        self.pos = path(self.md, inc, azi, start)

    def at(self, m):
        i = int(np.clip(np.searchsorted(self.md, m, side="right") - 1, 0,
                        len(self.md) - 2))
        L = self.md[i + 1] - self.md[i]
        if L <= 0:
            return self.pos[i], self.t[i]
        f = (m - self.md[i]) / L
        return (self.pos[i] + arc_step(self.t[i], self.t[i + 1], L, f),
                slerp(self.t[i], self.t[i + 1], f))

    def sample(self, n_per):
        """Dense samples (md, pos) for distance monitors."""
        mds, ps = [], []
        for i in range(len(self.md) - 1):
            L = self.md[i + 1] - self.md[i]
            for f in np.linspace(0, 1, n_per, endpoint=False):
                mds.append(self.md[i] + f * L)
                ps.append(self.pos[i] + arc_step(self.t[i], self.t[i + 1], L, f))
        mds.append(self.md[-1])
        ps.append(self.pos[-1])
        return np.array(mds), np.array(ps)


def wrap(a, period=2 * np.pi):
    """Map to (-period/2, period/2]."""
    a = np.asarray(a, float)
    return -((-a + period / 2) % period - period / 2)


def inc_azi(t):
    t = np.asarray(t, float)
    return (np.arctan2(np.hypot(t[..., 0], t[..., 1]), t[..., 2]),
            np.arctan2(t[..., 1], t[..., 0]) % (2 * np.pi))


def hla_axes(inc, azi):
    """Rows: highside, lateral(right), along-hole unit vectors in NEV."""
    h = tangent(np.asarray(inc) + np.pi / 2, azi)
    a = tangent(inc, azi)
    l = np.cross(a, h)
    return np.stack([h, l, a], axis=-2)
