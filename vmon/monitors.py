"""Online monitors hooked onto the public classes of the code under test."""
import contextlib
import functools

from . import ref
from .env import np, we


def check_survey(ctx, s, given_pos=False, who="survey"):
    """Invariants of any constructed Survey (evaluated at the instant its
    constructor returns, wherever inside welleng it was called)."""
    n = len(s.md)
    ctx.event("survey-objects-monitored")
    md = np.asarray(s.md, float)
    L = max(1.0, float(np.nanmax(md) - np.nanmin(md))) if n else 1.0
    for a in ("inc_rad", "azi_grid_rad", "azi_true_rad", "azi_mag_rad", "inc_deg",
              "azi_grid_deg", "dogleg", "dls", "delta_md", "n", "e", "tvd",
              "toolface", "radius"):
        v = getattr(s, a)
        ctx.check(np.shape(v) == (n,), f"{who}:shape", attr=a, shape=list(np.shape(v)), n=n)
    t = ref.tangent(s.inc_rad, s.azi_grid_rad)
    ctx.close(s.vec_nev, t, f"{who}:tangent", rtol=0, atol=1e-9)
    ctx.close(np.asarray(s.vec_xyz)[:, [1, 0, 2]], t, f"{who}:tangent-xyz", rtol=0, atol=1e-9)
    if not given_pos:
        p = ref.path(md, s.inc_rad, s.azi_grid_rad)
        start = np.array([s.n[0], s.e[0], s.tvd[0]])
        got = np.column_stack([s.n, s.e, s.tvd])
        tol = 1e-9 * (L + np.abs(start).max()) + 1e-7
        ctx.close(got - start, p, f"{who}:positions", rtol=0, atol=tol)
    return t


@contextlib.contextmanager
def watch_surveys(ctx, who="survey"):
    """Check every Survey constructed inside the block, at any depth."""
    cls = we.survey.Survey
    orig = cls.__init__

    @functools.wraps(orig)
    def hooked(self, *a, **k):
        orig(self, *a, **k)
        given = any(k.get(x) is not None for x in ("n", "e", "tvd", "x", "y", "z", "vec"))
        given = given or len(a) > 3
        if len(np.shape(self.md)) == 1 and len(self.md) > 1 and np.all(np.isfinite(self.md)):
            check_survey(ctx, self, given, who)
    cls.__init__ = hooked
    try:
        yield
    finally:
        cls.__init__ = orig
