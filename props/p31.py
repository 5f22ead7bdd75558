"""P31  Published error-model workbooks and diagnostics are read and converted as they stand."""
import glob
import json
import math
import os
import shutil
import tempfile
from datetime import datetime

import openpyxl

from vmon.core import Scenario
from vmon.env import REPO, VERIF, np, we
from welleng.errors import copsegrove, copsegrove_validate, iscwsa_ingest, iscwsa_validate
from welleng.errors.tools import owsg_to_json

META = dict(
    title='Published error-model workbooks are read and converted as they stand',
    statement=('A tool-group workbook converts to one JSON model per tool sheet with every term in its order, its '
               'name, weighting function, magnitude, units, propagation, factors, formulas and singularities as in '
               'the sheet, the header\'s identity and inclination range, stable identifiers and a warning for every '
               'term outside the published vocabulary; the JSON models shipped are that conversion of the '
               'workbooks shipped. An example workbook is read term by term, station by station and block by '
               'block as its cells say, with all station data aligned to the well path, and its validation report '
               'passes exactly the cells and stations that agree with the computed covariances, in metres or '
               'feet. Diagnostic listings give each station its own sigmas.'),
    over=['inputs', 'configurations'],
    quantifier='all workbooks and listings of the published layout, whatever their terms, order and values',
    why=('The tests of these readers are skipped: the workbooks they name are not in the repository, and the '
         'converter has none.'),
    files=['welleng/errors/tools/owsg_to_json.py', 'welleng/errors/iscwsa_ingest.py',
           'welleng/errors/iscwsa_validate.py', 'welleng/errors/copsegrove.py',
           'welleng/errors/copsegrove_validate.py'],
    mechanism=[('convert', 'welleng/errors/tools/owsg_to_json.py:convert_sheet'),
               ('ingest', 'welleng/errors/iscwsa_ingest.py:load_iscwsa_example'),
               ('validate', 'welleng/errors/iscwsa_validate.py:validate_workbook'),
               ('listings', 'welleng/errors/copsegrove.py:parse_copsegrove')],
)

PROPERTY, LEVEL = "P31", "exploration"
RULE = ("a case is one workbook or listing: a shipped one read independently cell by cell, or one written by the "
        "harness from random terms, stations and values; classes are (reader, layout, outcome)")
ASSUMPTIONS = ["workbooks follow the published layout; text cells are not words a table reader takes for blank"]

UNITS = ["m", "1/m", "nT", "m/s2", "deg", "deg/hr", "rad", "-", "deg.nT", "deg/nT"]
PUBLISHED_UNITS = {"m", "1/m", "nT", "m/s2", "deg", "deg/nT", "deg/hr", "rad"}
MODES = {"R": "Random", "S": "Systematic", "G": "Global", "W": "Well"}
HEAD = ['No', 'Code', 'Term Description', 'Wt.Fn.', 'Wt.Fn. Source', 'Type', 'Magnitude', 'Units', 'Prop.', 'P1',
        'P2', 'P3', 'Wt.Fn. Comment', 'Depth Formula', 'Inclination Formula', 'Azimuth Formula',
        'Singularity North Formula', 'Singularity East Formula', 'Singularity Vert. Formula']
FORMULAS = [0, 1, -1, "MD", "MD * TVD", "-Sin(Inc) / Gfield", "Cos(Inc) * Sin(AzM)", "Abs(Sin(Inc))", 0.5,
            " Tan(Dip) * Cos(Inc) ", "(Sin(Inc))^0.25", "Max(1, sqrt(10/(MD-MDPrev)))"]
SING = [None, 0, "Cos(Az) / Gfield", "-Sin(Az) / Gfield", 1, "Max(1, sqrt(10/(MD-MDPrev)))"]
KINDS = {"Magnetic": "Magnetic", "MWD": "Magnetic", "Gyroscopic": "Gyroscopic", "Gyro": "Gyroscopic",
         "Inertial": "Inertial", "BLIND": "Unknown", "EMS": "Magnetic"}


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="vmon31")
        return self.d

    def __exit__(self, *_):
        shutil.rmtree(self.d, ignore_errors=True)


def code(rng, used):
    while True:
        c = "".join(rng.choice(list("ABCDEFGHIJKLMNOPQRSTUVWXYZ"), int(rng.integers(2, 6))))
        if rng.random() < .4:
            c += "-" + "".join(rng.choice(list("ABCTUIX123"), int(rng.integers(1, 4))))
        if c not in used and c not in ("XCLL", "XCLA", "TRUE", "GRID", "NA", "NAN", "NULL"):
            used.add(c)
            return c


def terms(rng, n, unknown=True):
    used, out = set(), []
    for i in range(n):
        odd = unknown and rng.random() < .1
        out.append(dict(
            no=i + 1, code=code(rng, used), desc=f"Term: number {rng.integers(1000)}",
            wt=str(rng.choice(["DREF", "AZ", "ABXY-TI1", "DBH", "XYM3E", "MFI", "SAGE"])),
            src="SPE 67616", type=str(rng.choice(["Depth", "Sensor", "Align", "AziRef"])),
            mag=float(rng.choice([round(10 ** rng.uniform(-7, 3.5), 8), float(rng.integers(1, 4000)), 0.0],
                                 p=[.6, .35, .05])),
            unit=str(rng.choice(UNITS)),
            prop="B" if odd else str(rng.choice(list("RSGW"))),
            p=[int(v) for v in rng.integers(0, 2, 3)],
            comment=None if rng.random() < .6 else "Singularity when vertical",
            f=[FORMULAS[int(rng.integers(len(FORMULAS)))] for _ in range(3)],
            s=[SING[int(rng.integers(len(SING)))] for _ in range(3)]))
        if rng.random() < .1:
            out[-1]["f"][int(rng.integers(3))] = None
    return out


def header(rng, k):
    kind = str(rng.choice(list(KINDS)))
    date = datetime(int(rng.integers(1995, 2026)), int(rng.integers(1, 13)), int(rng.integers(1, 29)))
    lo, hi = int(rng.choice([0, 0, 5, 15])), int(rng.choice([180, 180, 90, 60]))
    as_text = bool(rng.random() < .7)
    return dict(kind=kind, date=date, lo=lo, hi=hi, rev=float(rng.choice([5.1, 1, 2, 3.0, 0.9])),
                prefix=f"T{rng.integers(100):03d}M{k}", short=f"TOOL {rng.integers(1000)}",
                long=f"A longer name {rng.integers(1000)}", comment=f"Changed {rng.integers(100)}",
                source="OWSG", application=f"Used {rng.integers(100)}",
                lo_cell=f"{lo} deg" if as_text else lo, hi_cell=f"{hi} deg" if as_text else hi)


def put_model(ws, h, ts, convert=False):
    ws.append([h["prefix"], h["short"]])
    ws.append([])
    left = [("OWSG Prefix:", h["prefix"]), ("Short Name:", h["short"]), ("Long Name:", h["long"]),
            ("Revision No:", h["rev"]), ("Revision Date:", h["date"]), ("Revision Comment:", h["comment"]),
            ("Source:", h["source"]), ("Application:", h["application"]), ("Tool Type:", h["kind"]),
            ("Status:", "Agreed"), ("Checked:", "A N Other"), ("Approved:", None), ("Notes:", "Noted"),
            ("Revision History:", "First"), (None, "Second"),
            ("Inclination Range Min:", h["lo_cell"]), ("Inclination Range Max:", h["hi_cell"]),
            ("Range Comment:", "Fine"), ("Tool Parameters", None), ("Misalignment Alt:", 3)]
    right = [HEAD + (["Convert Magnitudes Degrees to Radians"] if convert else [])]
    for t in ts:
        right.append([t["no"], t["code"], t["desc"], t["wt"], t["src"], t["type"], t["mag"], t["unit"], t["prop"],
                      *t["p"], t["comment"], *t["f"], *t["s"]]
                     + ([math.radians(t["mag"]) if "deg" in t["unit"] else t["mag"]] if convert else []))
    for i in range(max(len(left), len(right))):
        a = list(left[i]) if i < len(left) else [None, None]
        b = right[i] if i < len(right) else []
        ws.append(a + [None] + b)


def text(v):
    if v is None:
        return "0"
    if isinstance(v, (int, float)):
        return str(int(v)) if float(v).is_integer() else str(float(v))
    return v.strip()


def singular(v):
    return None if v is None or (isinstance(v, (int, float)) and v == 0) else str(v).strip()


def check_terms(ctx, js, ts, tag):
    """JSON terms against the cells of the sheet."""
    got = js["terms"]
    if not ctx.check([t["name"] for t in got] == [t["code"] for t in ts], "term-names", tag=tag,
                     names=[t["name"] for t in got][:10]):
        return
    for g, t in zip(got, ts):
        want = dict(x_owsg_weight_function=t["wt"], units=t["unit"], propagation_mode=MODES.get(t["prop"], t["prop"]),
                    depth_factor=t["p"][0], inclination_factor=t["p"][1], azimuth_factor=t["p"][2],
                    depth_formula=text(t["f"][0]), inclination_formula=text(t["f"][1]),
                    azimuth_formula=text(t["f"][2]), north_singularity=singular(t["s"][0]),
                    east_singularity=singular(t["s"][1]), vertical_singularity=singular(t["s"][2]))
        for k, v in want.items():
            ctx.check(g[k] == v, "term-field", tag=tag, term=t["code"], field=k, value=g[k], expected=v)
        ctx.check(g["value"] == t["mag"], "term-magnitude", tag=tag, term=t["code"], value=g["value"],
                  expected=t["mag"])
        ctx.event("converted terms")
    ids = [t["uuid"] for t in got]
    ctx.check(len(set(ids)) == len(ids), "term-identifiers", tag=tag)


def toolgroup(ctx):
    """A synthetic tool-group workbook converts field for field."""
    rng = ctx.rng
    n = int(rng.integers(1, 4))
    with Scratch() as d:
        path = os.path.join(d, "group.xlsx")
        wb = openpyxl.Workbook()
        wb.active.title = "Index"
        wb.active.append(["Tools", "none here"])
        sheets = {}
        for k in range(n):
            name = f"{rng.choice(['MWD+X', 'GYRO', 'EMS', 'TOOL'])}{k}" + ("_Fl" if rng.random() < .3 else "")
            h, ts = header(rng, k), terms(rng, int(rng.integers(1, 30)))
            put_model(wb.create_sheet(name), h, ts)
            sheets[name] = (h, ts)
        wb.save(path)
        out = os.path.join(d, "out", "deep")
        warned = owsg_to_json.convert_workbook(path, out, "SetZ")
        again = os.path.join(d, "again")
        owsg_to_json.convert_workbook(path, again, "SetZ")
        files = sorted(os.listdir(out))
        ctx.check(files == sorted(s + ".json" for s in sheets), "one-model-per-sheet", files=files)
        ctx.check(sorted(warned) == sorted(sheets), "warnings-per-sheet", sheets=sorted(warned))
        for name, (h, ts) in sheets.items():
            raw = open(os.path.join(out, name + ".json")).read()
            ctx.check(raw == open(os.path.join(again, name + ".json")).read(), "stable-conversion", sheet=name)
            js = json.loads(raw)
            m = js["metadata"]
            want = dict(model_id=h["prefix"], short_name=h["short"], long_name=h["long"],
                        revision_comment=h["comment"], revision_date=h["date"].strftime("%Y-%m-%d"),
                        revision_number=int(h["rev"]), source=h["source"], application=h["application"],
                        tool_type=KINDS[h["kind"]])
            for k, v in want.items():
                ctx.check(m[k] == v, "model-header", field=k, value=m[k], expected=v)
            ctx.check((js["parameters"]["inc_min"], js["parameters"]["inc_max"]) == (h["lo"], h["hi"]),
                      "inclination-range", value=js["parameters"], expected=(h["lo"], h["hi"]))
            check_terms(ctx, js, ts, name)
            for t in ts:
                said = any(repr(t["code"]) in w for w in warned[name])
                odd = t["unit"] not in PUBLISHED_UNITS or t["prop"] not in MODES
                ctx.check(said == odd, "warning", term=t["code"], unit=t["unit"], mode=t["prop"], warned=said)
                ctx.key("convert", t["unit"], t["prop"], said)
            ctx.event("converted sheets")


GROUPS = [("a", "SetA"), ("b", "SetB")]


def shipped(ctx):
    """The shipped JSON models are the conversion of the shipped workbooks."""
    letter, label = GROUPS[ctx.index % 2]
    paths = glob.glob(os.path.join(REPO, "data", "iscwsa", "toolgroups", f"toolgroup-owsg-{letter}-*.xlsx"))
    ctx.check(len(paths) == 1, "shipped-workbook", paths=paths)
    where = os.path.join(os.path.dirname(we.__file__), "errors", "iscwsa_json", f"owsg_{letter}")
    wb = openpyxl.load_workbook(paths[0], data_only=True)
    with Scratch() as d:
        owsg_to_json.convert_workbook(paths[0], d, label)
        made, have = sorted(os.listdir(d)), sorted(os.listdir(where))
        ctx.check(made == have, "shipped-models", only_made=sorted(set(made) - set(have))[:5],
                  only_shipped=sorted(set(have) - set(made))[:5])
        for f in sorted(set(made) & set(have)):
            a, b = json.load(open(os.path.join(d, f))), json.load(open(os.path.join(where, f)))
            ctx.check(a == b, "shipped-model-differs", file=f)
            ctx.event("shipped models compared")
            ctx.key("shipped", letter, f)
    for ws in wb.worksheets:
        f = os.path.join(where, ws.title + ".json")
        if not os.path.isfile(f):
            continue
        ts = []
        for r in ws.iter_rows(values_only=True):
            r = list(r) + [None] * 24
            if isinstance(r[3], (int, float)) and r[4]:
                ts.append(dict(code=str(r[4]), wt=str(r[6] or ""), unit=str(r[10] or ""), prop=str(r[11] or ""),
                               p=[int(v or 0) for v in r[12:15]], f=list(r[16:19]), s=list(r[19:22]),
                               mag=float(r[9] or 0)))
        check_terms(ctx, json.load(open(f)), ts, ws.title)


# -- example workbooks -------------------------------------------------------

BLOCKS = ["dpde", "e", "estar", "Sigma e systematic", "Covariance"]
NEV = ["NN", "EE", "VV", "NE", "NV", "EV"]


def put_source(ws, rng, md, dup):
    """A source sheet: merged block labels over named columns.  Returns its content."""
    layout = [("dpde", list("DIA")), ("e", list("NEV")), ("estar", list("NEV"))]
    layout.append(("Sigma e systematic", list("NEV")) if rng.random() < .5 else ("Sigma e random", NEV))
    layout.append(("Covariance", NEV))
    if dup:
        layout.append(("Covariance", ["HH", "LL"]))
        if dup > 1:
            layout.append(("Covariance", ["AA", "HL"]))
    ws.append([None])
    col, cols, want = 2, ["Md"], {}
    count = {}
    for label, subs in layout:
        ws.cell(row=1, column=col, value=label)
        blank = int(rng.integers(0, 3))                  # an unlabelled tail of a wider block
        ws.merge_cells(start_row=1, end_row=1, start_column=col, end_column=col + len(subs) - 1 + blank)
        count[label] = count.get(label, 0) + 1
        name = label if count[label] == 1 else f"{label}_{count[label]}"
        want[name] = {s: None for s in subs}
        cols += subs + [None] * blank
        col += len(subs) + blank
    ws.append(cols)
    data = rng.normal(0, 10, (len(md), len(cols)))
    data[:, 0] = md
    for row in data:
        ws.append([float(v) if c is not None else None for v, c in zip(row, cols)])
    i = 1
    for (label, subs), name in zip(layout, want):
        while cols[i] is None:
            i += 1
        for s in subs:
            want[name][s] = data[:, i]
            i += 1
    return want


def example_book(rng, path, ts, h, md, inc, azi, ft, refs, calc=None, totals=None, tail=0):
    """Write an example workbook; returns what it holds."""
    wb = openpyxl.Workbook()
    ws = wb.active
    ws.title = "Readme"
    revs = [(5, int(v)) for v in rng.permutation(14)[:3]] + [(4, 99)]
    rng.shuffle(revs)
    for line in ["Example", "Well: 1", "Revision: 1.1"] + [f"Revision {a}.{b:02d}" for a, b in revs]:
        ws.append([line])
    best = max((int(a), int(b)) for a, b in revs)
    put_model(wb.create_sheet("Model"), h, ts, convert=bool(rng.random() < .8))
    ws = wb.create_sheet("Wellpath")
    left = [("Well", refs["name"]), ("Latitude (deg)", refs["lat"]), ("G (m/s2)", refs["g"]),
            ("Btotal (nT)", refs["b"]), ("Dip (deg)", refs["dip"]), ("Declination (deg)", refs["dec"]),
            ("Convergence (deg)", 0), ("Azimuth Ref", "TRUE"), ("Depth Units", "ft" if ft else "m"),
            ("Vertical Inc Limit (deg)", 0.0001), ("Feet to metres conversion", 0.3048)]
    tvd = np.cumsum(np.r_[0, np.diff(md)])
    rows = [["MD ", "Inc", "Az", "TVD ", "Toolface"]] + [
        [float(m), float(i), float(a), float(t), None] for m, i, a, t in zip(md, inc, azi, tvd)]
    ws.append(["Well", refs["name"], None, None, "INPUT WELLPATH"])
    for k in range(max(len(left) - 1, len(rows) + tail)):
        a = list(left[k + 1]) if k + 1 < len(left) else [None, None]
        b = rows[k] if k < len(rows) else [None] * 5
        ws.append(a + [None, None] + b)
    ws = wb.create_sheet("Validation")
    ws.append([None, None, "Diagnostic Values"] + [None] * 5 + ["Calculated Values"])
    ws.append(["MD", "Source"] + NEV + NEV + NEV)
    val = []
    if calc is None:
        for t in ts[:6]:
            for m in md[::3]:
                val.append((float(m), t["code"], rng.normal(0, 1, 6), rng.normal(0, 1, 6)))
    else:
        val = calc
    for m, c, a, b in val:
        ws.append([m, c] + [float(v) for v in a] + [float(v) for v in b] + [float(v) for v in (a - b)])
    ws = wb.create_sheet("TOTALS")
    cov = rng.normal(0, 5, (len(md) + tail, 12)) if totals is None else np.vstack(
        [np.hstack([totals, rng.normal(0, 1, (len(md), 6))]), np.zeros((tail, 12))])
    ws.append([None, "Covariance"])
    order = list(rng.permutation(12)) if totals is None else list(range(12))
    names = NEV + ["HH", "LL", "AA", "HL", "HA", "LA"]
    ws.append(["Md"] + [names[k] for k in order])
    for k in range(len(md) + tail):
        ws.append([float(md[k]) if k < len(md) else 0.0] + [float(cov[k, j]) for j in order])
    src = {}
    if calc is None:
        for t in ts:
            if rng.random() < .5 or not src:
                m = np.r_[md, np.zeros(int(rng.integers(0, 3)) if rng.random() < .4 else 0)]
                src[t["code"]] = put_source(wb.create_sheet(t["code"]), rng, m, int(rng.choice([0, 0, 1, 2])))
        wb.create_sheet("OTHER").append(["aside"])
    wb.save(path)
    return dict(revision=f"Revision {best[0]}.{best[1]:02d}", tvd=tvd, val=val, cov=cov, src=src)


def references(rng):
    return dict(name=f"Test #{rng.integers(9)}", lat=float(rng.uniform(-70, 75)), g=9.80665,
                b=float(rng.uniform(35000, 62000)), dip=float(rng.uniform(-75, 80)), dec=float(rng.uniform(-20, 20)))


def stations(rng, n):
    md = np.round(np.r_[0, np.cumsum(rng.uniform(10, 60, n - 1))], 3)
    inc = np.round(np.clip(np.cumsum(np.r_[0, rng.normal(1.5, 1, n - 1)]), 0, 100), 3)
    azi = np.round((np.cumsum(np.r_[rng.uniform(0, 360), rng.normal(0, 2, n - 1)])) % 360, 3)
    return md, inc, azi


def example(ctx):
    """A synthetic example workbook is read cell by cell."""
    rng = ctx.rng
    n = int(rng.integers(3, 25))
    md, inc, azi = stations(rng, n)
    ts, h, refs, ft = terms(rng, int(rng.integers(3, 14)), False), header(rng, 0), references(rng), bool(
        rng.random() < .4)
    tail = int(rng.integers(1, 6)) if rng.random() < .5 else 0
    with Scratch() as d:
        path = os.path.join(d, "example.xlsx")
        w = example_book(rng, path, ts, h, md, inc, azi, ft, refs, tail=tail)
        ex = iscwsa_ingest.load_iscwsa_example(path)
    ctx.key("example", ft, tail > 0, len(w["src"]) > 3)
    ctx.check(ex.revision == w["revision"], "revision", value=ex.revision, expected=w["revision"])
    for k, v in dict(owsg_prefix=h["prefix"], short_name=h["short"], long_name=h["long"], revision_no=h["rev"],
                     revision_date=h["date"], revision_comment=h["comment"], source=h["source"],
                     application=h["application"], tool_type=h["kind"], status="Agreed", approved=None).items():
        ctx.check(getattr(ex.header, k) == v, "header-field", field=k, value=getattr(ex.header, k), expected=v)
    if ctx.check([t.code for t in ex.terms] == [t["code"] for t in ts], "example-terms"):
        for g, t in zip(ex.terms, ts):
            want = dict(no=t["no"], description=t["desc"], wt_fn=t["wt"], wt_fn_source=t["src"], type=t["type"],
                        magnitude=t["mag"], unit=t["unit"], propagation=t["prop"], p1=t["p"][0], p2=t["p"][1],
                        p3=t["p"][2], wt_fn_comment=t["comment"], depth_formula=t["f"][0], inc_formula=t["f"][1],
                        az_formula=t["f"][2], sing_n_formula=t["s"][0], sing_e_formula=t["s"][1],
                        sing_v_formula=t["s"][2])
            for k, v in want.items():
                ctx.check(getattr(g, k) == v, "example-term-field", term=t["code"], field=k,
                          value=getattr(g, k), expected=v)
            ctx.event("terms read")
            deg = "deg" in t["unit"]
            ctx.close(g.magnitude_si, t["mag"] * (math.pi / 180 if deg else 1), "si-magnitude", rtol=1e-12)
            ctx.check(g.unit_si == t["unit"].replace("deg", "rad"), "si-unit", unit=t["unit"], value=g.unit_si)
    wp = ex.wellpath
    ctx.check(wp.well_name == refs["name"] and (wp.depth_units == ("ft" if ft else "m")), "wellpath-header",
              name=wp.well_name, units=wp.depth_units)
    ctx.close([wp.latitude_deg, wp.g, wp.btotal, wp.dip_deg, wp.declination_deg, wp.ft_to_m],
              [refs["lat"], refs["g"], refs["b"], refs["dip"], refs["dec"], .3048], "wellpath-references", rtol=1e-12)
    ctx.close(wp.stations[:, :4], np.c_[md, inc, azi, w["tvd"]], "wellpath-stations", rtol=1e-12)
    ctx.close(ex.totals.md, md, "totals-aligned", rtol=1e-12, tail=tail)
    ctx.close(ex.totals.nev, w["cov"][:n, :6], "totals-nev", rtol=1e-12)
    ctx.close(ex.totals.hla, w["cov"][:n, 6:], "totals-hla", rtol=1e-12)
    if ctx.check(len(ex.validation) == len(w["val"]), "validation-rows", rows=len(ex.validation)):
        for g, (m, c, a, b) in zip(ex.validation, w["val"]):
            ctx.check(g.source == c, "validation-source", value=g.source, expected=c)
            ctx.close(np.r_[g.md, g.diagnostic, g.calculated], np.r_[m, a, b], "validation-values", rtol=1e-12)
    if ctx.check(set(ex.sources) == set(w["src"]), "source-sheets", value=sorted(ex.sources)):
        for c, blocks in w["src"].items():
            tab = ex.sources[c]
            ctx.close(tab.md, md, "source-aligned", rtol=1e-12)
            if ctx.check(set(tab.blocks) == set(blocks), "source-blocks", value=sorted(tab.blocks),
                         expected=sorted(blocks)):
                for b, cols in blocks.items():
                    for s, v in cols.items():
                        ctx.check(s in tab.blocks[b], "source-column", block=b, column=s)
                        ctx.close(tab.blocks[b].get(s, np.nan), v[:n], "source-values", rtol=1e-12, block=b)
            ctx.event("source sheets read")
    old = iscwsa_ingest.to_legacy_codes_dict(ex)
    names = {"R": "random", "S": "systematic", "G": "global", "W": "within_pad"}
    ctx.check(list(old["codes"]) == [t["code"] for t in ts], "legacy-codes")
    for t in ts:
        g = old["codes"].get(t["code"], {})
        ctx.check(g.get("function") == t["wt"].replace("-", "_") and g.get("propagation") == names[t["prop"]]
                  and g.get("unit") == t["unit"].replace("deg", "rad"), "legacy-code", term=t["code"], value=g)
        ctx.close(g.get("magnitude", np.nan), t["mag"] * (math.pi / 180 if "deg" in t["unit"] else 1),
                  "legacy-magnitude", rtol=1e-12)


MODELS = ["ISCWSA MWD Rev4", "ISCWSA MWD Rev5.11"]


def six(c):
    return np.array([c[0, 0], c[1, 1], c[2, 2], c[0, 1], c[0, 2], c[1, 2]])


def report(ctx):
    """The validation report passes exactly what agrees."""
    rng = ctx.rng
    model = MODELS[int(rng.integers(2))]
    ft = bool(rng.random() < .5)
    n = int(rng.integers(5, 20))
    md, inc, azi = stations(rng, n)
    refs = references(rng)
    refs["dip"] = abs(refs["dip"])
    k = .3048 if ft else 1.
    sh = we.survey.SurveyHeader(name=refs["name"], latitude=refs["lat"], G=refs["g"], b_total=refs["b"],
                                dip=refs["dip"], declination=refs["dec"], convergence=0., azi_reference="true")
    s = we.survey.Survey(md=md * k, inc=inc, azi=azi, header=sh, error_model=model)
    errs = s.err.errors
    rel, ab = float(rng.choice([1e-3, 1e-2])), float(rng.choice([1e-6, 1e-4]))
    codes = [str(c) for c in rng.permutation(sorted(errs.errors))[:8]]
    ts, calc, expect = [], [], {}
    for i, c in enumerate(codes + ["NOSUCH"]):
        ts.append(dict(terms(rng, 1, False)[0], no=i + 1, code=c))
    for c in codes:
        for i in sorted(rng.choice(n, min(4, n), replace=False)):
            v = six(np.asarray(errs.errors[c].cov_NEV[int(i)]))
            wrong = rng.random() < .3
            t = v.copy()
            j = int(rng.integers(6))
            if wrong:
                t[j] = v[j] * (1 + 8 * rel) + math.copysign(20 * ab, v[j])
            elif rng.random() < .5:
                t[j] = v[j] * (1 + .2 * rel)
            calc.append((float(md[i]), c, np.round(t, 4), t))
            expect[(c, float(md[i]))] = (not wrong, v)
    calc.append((float(md[-1]), "NOSUCH", np.ones(6), np.ones(6)))
    tot = np.array([six(np.asarray(x)) for x in errs.cov_NEVs])
    bad = sorted(int(v) for v in rng.choice(n, int(rng.integers(0, 3)), replace=False))
    tw = tot.copy()
    for i in bad:
        j = int(rng.integers(6))
        tw[i, j] += math.copysign(20 * ab + 8 * rel * np.max(np.abs(tot[i])), tw[i, j])
    tail = int(rng.integers(1, 5)) if rng.random() < .5 else 0
    with Scratch() as d:
        path = os.path.join(d, "check.xlsx")
        example_book(rng, path, ts, header(rng, 0), md, inc, azi, ft, refs, calc=calc, totals=tw, tail=tail)
        r = iscwsa_validate.validate_workbook(path, model, tolerance_rel=rel, tolerance_abs=ab)
    ctx.key("report", model, ft, len(bad), tail > 0)
    ctx.check("NOSUCH" in r.missing_in_welleng and not set(r.missing_in_welleng) & set(codes), "report-missing",
              value=r.missing_in_welleng)
    got = {(c.code, c.md): c for c in r.per_source}
    ctx.check(set(got) == set(expect), "report-rows", missing=sorted(set(expect) - set(got))[:4],
              extra=sorted(set(got) - set(expect))[:4])
    for key in set(got) & set(expect):
        ok, v = expect[key]
        g = got[key]
        ctx.close(g.welleng, v, "report-value", rtol=1e-9, atol=1e-12 + 1e-10 * np.max(np.abs(v)), row=key)
        ctx.check(g.ok == ok, "report-verdict", row=key, expected=ok, verdict=g.ok, abs_err=g.max_abs_err,
                  rel_err=g.max_rel_err)
        ctx.event("report rows")
    flags = r.source_pass_fail()
    for c in codes:
        ctx.check(flags.get(c) == all(o for (q, _), (o, _) in expect.items() if q == c), "report-source", code=c)
    if ctx.check(len(r.totals) == n, "report-totals", rows=len(r.totals), stations=n):
        ctx.check([i for i, t in enumerate(r.totals) if not t.ok] == bad, "report-totals-verdict",
                  failed=[i for i, t in enumerate(r.totals) if not t.ok], expected=bad)
        ctx.close([t.md for t in r.totals], md * k, "report-totals-depth", rtol=1e-9)
    said = r.summary()
    for c in codes:
        ctx.check(any(c in ln.split() and ("PASS" if flags.get(c) else "FAIL") in ln.split()
                      for ln in said.splitlines()), "report-summary", code=c)


BOOKS = ["error-model-example-mwdrev4-iscwsa-1.xlsx", "error-model-example-mwdrev5-iscwsa-1.xlsx",
         "error-model-example-mwdrev5-iscwsa-2.xlsx"]


def published(ctx):
    """The reference workbooks in the repository, read independently."""
    path = os.path.join(REPO, "reference", BOOKS[ctx.index % 3])
    ctx.check(os.path.isfile(path), "reference-workbook", path=path)
    ex = iscwsa_ingest.load_iscwsa_example(path)
    wb = openpyxl.load_workbook(path, data_only=True)
    rows = [r for r in wb["Model"].iter_rows(values_only=True) if isinstance(r[3], (int, float)) and r[4]]
    ctx.check([(t.code, t.magnitude, t.unit, t.propagation) for t in ex.terms]
              == [(r[4].strip(), float(r[9]), r[10], r[11]) for r in rows], "published-terms")
    rows = [r[4:8] for r in wb["Wellpath"].iter_rows(min_row=3, values_only=True) if isinstance(r[4], (int, float))]
    ctx.close(ex.wellpath.stations[:, :4], np.array(rows, float), "published-stations", rtol=1e-12)
    n = len(rows)
    rows = [r[:13] for r in wb["TOTALS"].iter_rows(min_row=3, values_only=True)][:n]
    ctx.close(np.c_[ex.totals.md, ex.totals.nev, ex.totals.hla], np.array(rows, float), "published-totals",
              rtol=1e-12)
    for c in [t.code for t in ex.terms if t.code in wb.sheetnames]:
        rows = [r for r in wb[c].iter_rows(min_row=3, values_only=True)][:n]
        sub = [v for v in next(wb[c].iter_rows(min_row=2, max_row=2, values_only=True))]
        tab = ex.sources[c]
        ctx.check(len(tab.md) == n, "published-source-aligned", code=c, rows=len(tab.md))
        i = len(sub) - 1 - sub[::-1].index("NN")
        want = np.array([[float(v) for v in r[i:i + 6]] for r in rows])
        got = np.array([tab.blocks["Covariance"][k] for k in NEV]).T
        ctx.close(got, want, "published-covariance", rtol=1e-12, code=c)
        ctx.event("published source sheets")
    r = iscwsa_validate.validate_workbook(path, "ISCWSA MWD Rev4" if "rev4" in path else "ISCWSA MWD Rev5.11")
    ctx.check(len(r.totals) == n, "published-report-stations", value=len(r.totals), expected=n)
    ok = {k for k, v in r.source_pass_fail().items() if v}
    names = {t.code for t in ex.terms}
    # sources whose magnitude and weighting did not change between the revisions on file
    same = {c for c in names & set(r.source_pass_fail()) if c[:2] in ("AB", "AS", "MB", "MS", "DS", "DR")}
    ctx.check(same <= ok, "published-report", failed=sorted(same - ok))
    ctx.key("published", ctx.index % 3, len(ok))


def listing(ctx):
    """A diagnostic listing gives each station the sigmas printed before it."""
    rng = ctx.rng
    names, used = [], set()
    for _ in range(int(rng.integers(2, 9))):
        names.append(code(rng, used))
    n = int(rng.integers(2, 30))
    md, inc, azi = stations(rng, n)
    lines, want = ["ErrorModelDiagnostics", ""], []
    for k in range(n):
        have = {}
        for c in names:
            if rng.random() < .8:
                v = np.round(rng.normal(0, 3, 6), 4)
                have[c] = tuple(float(x) for x in v[:3])
                lines.append(f"{c:<10}svy  " + "".join(f"{x:12.4f}" for x in v))
                lines.append(f"{'':<10}dep  " + "".join(f"{x:12.4f}" for x in np.round(rng.normal(0, 3, 6), 4)))
                if rng.random() < .2:
                    lines.append(f"{c:<10}dep  " + "".join(f"{x:12.4f}" for x in rng.normal(0, 3, 6)))
        for cat in ("Sensor", "Depth", "Totals"):
            lines.append(f"{cat:<10}svy  " + "".join(f"{x:12.4f}" for x in rng.normal(0, 3, 6)))
        lines.append(f"{md[k]:.2f}        Inc: {inc[k]:.2f}       Az (True): {azi[k]:.2f}  TF: 0.00")
        want.append((round(float(md[k]), 2), round(float(inc[k]), 2), round(float(azi[k]), 2), have))
        lines += ["", "NEV Covariance Matrix Terms", f"{names[0]:<10}NN  {rng.normal():12.4f}"]
    with Scratch() as d:
        path = os.path.join(d, "diag.txt")
        open(path, "w").write("\n".join(lines) + "\n")
        got = copsegrove.parse_copsegrove(path)
    ctx.key("listing", min(n // 8, 3), len(names))
    if not ctx.check(len(got) == n, "listing-stations", value=len(got), expected=n):
        return
    for g, (m, i, a, have) in zip(got, want):
        ctx.close([g.md, g.inc_deg, g.azi_deg], [m, i, a], "listing-header", rtol=0, atol=.0051)
        ctx.check(g.sigmas_svy == have, "listing-sigmas", md=m, value=g.sigmas_svy, expected=have)
        ctx.event("listing stations")
    for c in names + ["ABSENT"]:
        m, i, a, sig = copsegrove.per_term_sigmas(got, c)
        at = [w for w in want if c in w[3]]
        ctx.check(len(m) == len(i) == len(a) == len(sig) == len(at), "listing-term", term=c)
        ctx.check(list(sig) == [w[3][c] for w in at], "listing-term-sigmas", term=c)


RANDOM_TERMS = [("DREF", "1", "0", "0"), ("AA", "0", "Sin(Inc)", "0"), ("BB", "0", "Cos(Inc)", "Sin(Inc) * Cos(AzT)"),
                ("CC", "MD", "0", "1"), ("DD", "0", "0", "1 / (BField * Cos(Dip))"),
                ("EE", "0", "-Sin(Inc) / Gfield", "Tan(Dip) * Sin(Inc)"),
                ("FF", "0", "EarthRate * Sin(Latitude)", "Cos(AzT)")]


def compare(ctx):
    """Random terms of a JSON model against a listing: verdicts as documented."""
    rng = ctx.rng
    n = int(rng.integers(2, 15))
    md, inc, azi = (np.round(v, 2) for v in stations(rng, n))
    env = dict(latitude_deg=float(rng.uniform(-60, 70)), b_total=float(rng.uniform(4e4, 6e4)),
               dip_deg=float(rng.uniform(30, 80)), G=9.80665)
    tol = float(rng.choice([5e-4, 1e-3]))
    I, A, D, L = np.radians(inc), np.radians(azi), math.radians(env["dip_deg"]), math.radians(env["latitude_deg"])
    value = {"1": np.ones(n), "0": np.zeros(n), "MD": md, "Sin(Inc)": np.sin(I), "Cos(Inc)": np.cos(I),
             "Sin(Inc) * Cos(AzT)": np.sin(I) * np.cos(A), "1 / (BField * Cos(Dip))": np.full(
                 n, 1 / (env["b_total"] * math.cos(D))), "-Sin(Inc) / Gfield": -np.sin(I) / env["G"],
             "Tan(Dip) * Sin(Inc)": math.tan(D) * np.sin(I), "Cos(AzT)": np.cos(A),
             "EarthRate * Sin(Latitude)": np.full(n, .262516 * math.sin(L))}
    js, table, expect = [], {}, {}
    for name, d, i, a in RANDOM_TERMS:
        mag = float(rng.choice([.01, .3, 1.7]))
        mode = str(rng.choice(["Random", "Random", "Random", "Systematic", "Global", "Well", "Odd"]))
        js.append(dict(name=name, value=mag, propagation_mode=mode, depth_formula=d, inclination_formula=i,
                       azimuth_formula=a))
        if rng.random() < .15:
            expect[name] = "NOT_IN_COPSEGROVE"
        else:
            err = float(rng.choice([0, 2.5, 40])) * tol
            v = np.abs(np.c_[value[i], value[a], value[d]]) * mag
            v[int(rng.integers(n)), int(rng.integers(3))] += err
            table[name] = np.round(v, 4)
            expect[name] = "MATCH" if err == 0 else "NEAR_MATCH" if err < 4 * tol else "DIFFER"
        if mode == "Odd":
            expect[name] = "UNKNOWN_PROP"
        elif mode != "Random":
            expect[name] = "DEFERRED"
    lines = []
    for k in range(n):
        for c, v in table.items():
            lines.append(f"{c:<8} svy " + "".join(f"{x:12.4f}" for x in v[k]) + "      0.0000      0.0000")
        lines.append(f"{md[k]:.2f}   Inc: {inc[k]:.2f}   Az (True): {azi[k]:.2f}  TF: 0.00")
    with Scratch() as d:
        p, q = os.path.join(d, "m.json"), os.path.join(d, "m.txt")
        json.dump(dict(terms=js), open(p, "w"))
        open(q, "w").write("\n".join(lines) + "\n")
        got = {r.name: r for r in copsegrove_validate.validate_random_terms(p, q, abs_tol=tol, **env)}
    ctx.check(list(got) == [t[0] for t in RANDOM_TERMS], "compare-terms", value=list(got))
    for c, want in expect.items():
        if c in got:
            ctx.check(got[c].verdict == want, "compare-verdict", term=c, verdict=got[c].verdict, expected=want,
                      diff=got[c].max_abs_diff)
            ctx.key("compare", want)
            ctx.event("compared terms")


SCENARIOS = [
    Scenario("shipped", shipped, 2, 2, batch=1),
    Scenario("published", published, 3, 3, batch=1),
    Scenario("toolgroup", toolgroup, 60, 600),
    Scenario("example", example, 80, 1000),
    Scenario("report", report, 40, 500),
    Scenario("listing", listing, 150, 3000),
    Scenario("compare", compare, 150, 3000),
]
