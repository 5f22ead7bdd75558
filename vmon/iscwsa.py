"""Reference for the ISCWSA error model: position derivatives of the balanced
tangential method, propagation along the well and the published weighting
functions, written from their definitions."""
from . import ref
from .env import np


def derivatives(md, inc, azi, rev4):
    """-> star (n,3,3): d(interval ending at k)/d(D,I,A of k), nxt (n,3,3):
    d(interval starting at k)/d(D,I,A of k).  Last axis is north, east, down."""
    n = len(md)
    t = ref.tangent(inc, azi)
    ax = ref.hla_axes(inc, azi)
    di = ax[:, 0]                                  # dt/dI is the high side
    da = np.sin(inc)[:, None] * ax[:, 1]           # dt/dA
    star, nxt = np.zeros((n, 3, 3)), np.zeros((n, 3, 3))
    for k in range(n):
        if k > 0:
            L = md[k] - md[k - 1]
            star[k] = [(t[k - 1] + t[k]) / 2, L / 2 * di[k], L / 2 * da[k]]
        if k < n - 1:
            L = md[k + 1] - md[k]
            nxt[k] = [-(t[k] + t[k + 1]) / 2, L / 2 * di[k], L / 2 * da[k]]
    if not rev4 and n > 1:
        # the Rev 5 workbooks count the whole of the first interval in the
        # north component of the first inclination derivative
        star[1, 1, 0] *= 2
    return star, nxt


def to_nev(e_dia, star, nxt):
    es = np.einsum("ki,kij->kj", e_dia, star)
    en = es + np.einsum("ki,kij->kj", e_dia, nxt)
    es[0] = en[0] = 0.0
    return en, es


def propagate(kind, e, star):
    """Covariance per station from per-station vectors."""
    n = len(e)
    out = np.zeros((n, 3, 3))
    acc_v, acc_m = np.zeros(3), np.zeros((3, 3))
    for k in range(n):
        if kind == "random":
            out[k] = acc_m + np.outer(star[k], star[k])
            acc_m = acc_m + np.outer(e[k], e[k])
        else:
            v = acc_v + star[k]
            out[k] = np.outer(v, v)
            acc_v = acc_v + e[k]
    return out


def turn(cov, c):
    """Covariance stated in true north -> grid north (convergence c)."""
    r = np.array([[np.cos(c), np.sin(c), 0], [-np.sin(c), np.cos(c), 0], [0, 0, 1.]])
    return r @ cov @ r.T


VERT = {"XYM3", "XYM4", "XYM3E", "XYM4E", "XYM3L", "XYM4L", "ABXY_TI2", "ABIXY_TI2", "CNA"}
XCL = {"XCL", "XCLA", "XCLH"}


def weights(fn, s):
    """Published weighting function `fn` -> (n,3) D, I, A weights at unit
    magnitude; NaN where the function is singular (vertical)."""
    I, A, M = s["inc"], s["azt"], s["azm"]
    G, B, dip = s["G"], s["B"], s["dip"]
    sI, cI, sA, cA, sM, cM = np.sin(I), np.cos(I), np.sin(A), np.cos(A), np.sin(M), np.cos(M)
    td, bh = np.tan(dip), B * np.cos(dip)
    q = 1 - (sI * sM) ** 2
    z, o = np.zeros_like(I), np.ones_like(I)
    L = np.concatenate([[np.inf], np.diff(s["md"])])
    m = np.maximum(1.0, np.sqrt(10.0 / L))
    m[0] = 1.0
    with np.errstate(all="ignore"):
        ax = td * cI + sI * cM          # axial field term
        T = {
            "DREF": (o, z, z), "DSF": (s["md"], z, z), "DST": (s["md"] * s["tvd"], z, z),
            "ABXY_TI1": (z, -cI / G, cI * td * sM / G),
            "ABXY_TI2": (z, z, (cI / sI - td * cM) / G),
            "ABZ": (z, -sI / G, sI * td * sM / G),
            "ASXY_TI1": (z, sI * cI / 2 ** .5, -td * sI * cI * sM / 2 ** .5),
            "ASXY_TI2": (z, sI * cI / 2, -td * sI * cI * sM / 2),
            "ASXY_TI3": (z, z, (td * sI * cM - cI) / 2),
            "ASZ": (z, -sI * cI, td * sI * cI * sM),
            "MBXY_TI1": (z, z, -cI * sM / bh), "MBXY_TI2": (z, z, cM / bh),
            "MBZ": (z, z, -sI * sM / bh),
            "MSXY_TI1": (z, z, sI * sM * ax / 2 ** .5),
            "MSXY_TI2": (z, z, sM * (td * sI * cI - cI ** 2 * cM - cM) / 2),
            "MSXY_TI3": (z, z, (cI * cM ** 2 - cI * sM ** 2 - td * sI * cM) / 2),
            "MSZ": (z, z, -(sI * cM + td * cI) * sI * sM),
            "ABIXY_TI1": (z, -cI / G, cI ** 2 * sM * ax / (G * q)),
            "ABIXY_TI2": (z, z, -(td * cM - cI / sI) / (G * q)),
            "ABIZ": (z, -sI / G, sI * cI * sM * ax / (G * q)),
            "ASIXY_TI1": (z, sI * cI / 2 ** .5, -sI * cI ** 2 * sM * ax / (2 ** .5 * q)),
            "ASIXY_TI2": (z, sI * cI / 2, -sI * cI ** 2 * sM * ax / (2 * q)),
            "ASIXY_TI3": (z, z, (td * sI * cM - cI) / (2 * q)),
            "ASIZ": (z, -sI * cI, sI * cI ** 2 * sM * ax / q),
            "MBIXY_TI1": (z, z, -cI * sM / (bh * q)), "MBIXY_TI2": (z, z, cM / (bh * q)),
            "MSIXY_TI1": (z, z, sI * sM * ax / (2 ** .5 * q)),
            "MSIXY_TI2": (z, z, sM * (td * sI * cI - cI ** 2 * cM - cM) / (2 * q)),
            "MSIXY_TI3": (z, z, (cI * cM ** 2 - cI * sM ** 2 - td * sI * cM) / (2 * q)),
            "MFI": (z, z, -sI * sM * ax / q / B),
            "MDI": (z, z, -sI * sM * (cI - td * sI * cM) / q),
            "AZ": (z, z, o), "DBH": (z, z, o / bh), "DBHR": (z, z, o / bh),
            "AMIL": (z, z, -sI * sM / bh), "AMID": (z, z, sI * sM),
            "SAG": (z, sI, z), "SAGE": (z, sI ** .25, z),
            "XYM1": (z, np.abs(sI), z), "XYM2": (z, z, -o),
            "XYM3": (z, np.abs(cI) * cA, -np.abs(cI) * sA / sI),
            "XYM4": (z, np.abs(cI) * sA, np.abs(cI) * cA / sI),
            "XYM3L": (z, np.abs(cI) * cA * m, -np.abs(cI) * sA / sI * m),
            "XYM4L": (z, np.abs(cI) * sA * m, np.abs(cI) * cA / sI * m),
            "XYM3E": (z, np.abs(cI) * cA * m, -np.abs(cI) * sA / sI * m),
            "XYM4E": (z, np.abs(cI) * sA * m, np.abs(cI) * cA / sI * m),
            "CNA": (z, z, 1 / sI), "CNI": (z, o, z),
        }
    if fn not in T:
        return None
    return np.column_stack([np.broadcast_to(x, I.shape) for x in T[fn]]).astype(float)


def vertical_limit(fn, s):
    """Horizontal error per unit magnitude and unit half course length at a
    vertical station: the limit of the weights above as inc -> 0."""
    A, G = s["azt"], s["G"]
    L = np.concatenate([[np.inf], np.diff(s["md"])])
    m = np.maximum(1.0, np.sqrt(10.0 / L))
    n = len(A)
    v = np.zeros((n, 3))
    if fn in ("ABXY_TI2", "ABIXY_TI2", "CNA"):
        g = 1.0 if fn == "CNA" else G
        v[:, 0], v[:, 1] = -np.sin(A) / g, np.cos(A) / g
    else:
        v[:, 0 if "3" in fn else 1] = m if fn[-1] in "LE" else 1.0
    return v


def xcl(fn, s, tort):
    """Course-length terms work on the position directly."""
    I, A, md = s["inc"], s["azt"], s["md"]
    n = len(I)
    out = np.zeros((n, 3))
    for k in range(1, n):
        L = md[k] - md[k - 1]
        if fn == "XCLA":
            d = abs(np.sin(I[k]) * np.sin(abs(ref.wrap(A[k] - A[k - 1]))))
            if I[k - 1] < s["vlim"]:
                d = 0.0
            out[k] = L * max(d, tort * L) * np.array([-np.sin(A[k]), np.cos(A[k]), 0])
        else:
            d = abs(I[k] - I[k - 1])
            out[k] = L * max(d, tort * L) * np.array(
                [np.cos(I[k]) * np.cos(A[k]), np.cos(I[k]) * np.sin(A[k]), -np.sin(I[k])])
    return out
