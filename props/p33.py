"""P33  Published well sets and tool tables."""
import contextlib
import datetime
import io
import json
import os
import re
import sys
import tempfile

import openpyxl
import yaml

from vmon import formula, gen
from vmon.core import Scenario, Skip
from vmon.env import REPO, np, we
from vmon.purity import Watch
from welleng import io as wio
from welleng.errors import conformance as cf
from welleng.errors import extract_iscwsa_codes as xi
from welleng.errors import extract_owsg_codes_generic as xg
from welleng.errors import tool_errors as TE

META = dict(
    title='Published well sets and tool tables are taken over as they stand',
    statement=('Importing a clearance workbook gives, for every well sheet, the depths, attitudes, positions and '
               'sigmas of its station rows in order, the separation factors of its clearance sheet, and the '
               'separation rule parameters of the reference well. Extracting a tool model from an ISCWSA or OWSG '
               'workbook gives every header field and every code once with its weighting function, its magnitude '
               'and unit (degrees as radians) and its propagation; indexing a tool group gives every tool under '
               'its own code with all of its fields. The tool tables and the index shipped are that extraction of '
               'the workbook shipped. A conformance report states, for every term of a JSON tool model and any '
               'survey, the weighting function it was compared with, whether both sides could be evaluated and '
               'the true largest difference between them, without changing the survey, and prints the same.'),
    over=['inputs'],
    quantifier='all workbooks in the published layouts, the shipped workbooks, all JSON tool models and surveys',
    why='One extraction was run by hand years ago and only its output is tested; other sheets, fillers and surveys are never read again.',
    files=['welleng/io.py', 'welleng/errors/extract_owsg_codes_generic.py', 'welleng/errors/extract_iscwsa_codes.py',
           'welleng/errors/conformance.py', 'welleng/errors/tool_codes', 'welleng/errors/tool_index.yaml'],
    mechanism=[('clearance set', 'welleng/io.py:get_standard_data / get_well_data / get_clearance_data / acr_setup'),
               ('tool tables', 'welleng/errors/extract_owsg_codes_generic.py:extract_data / make_index'),
               ('tool tables', 'welleng/errors/extract_iscwsa_codes.py:extract_data'),
               ('conformance', 'welleng/errors/conformance.py:compare_model')],
)
PROPERTY, LEVEL = "P33", "exploration"
RULE = ("a case is one workbook (shipped, or written by the harness) read independently, or one JSON model compared on "
        "one survey; distinct classes are (reader, layout, sizes) tuples")
ASSUMPTIONS = ["clearance sheets end with their last separation factor; header labels are the published ones"]
TOOLS = os.path.join(REPO, "reference", "toolgroup-owsg-a-rev-5-1-08-oct-2020-produced-22-oct-2020.xlsx")
WELLS = os.path.join(REPO, "reference", "standard-set-of-wellpaths-for-evaluating-clearance-scenarios-r4-17-may-2017.xlsx")
COLS = ("MD", "IncDeg", "AziDeg", "TVD", "N", "E", "sigmaH", "sigmaL", "sigmaA")


def is_number(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def save(wb):
    f = tempfile.NamedTemporaryFile(suffix=".xlsx", delete=False)
    f.close()
    wb.save(f.name)
    return f.name


def same_lists(ctx, got, want, mech, **d):
    if ctx.check(set(got) >= set(want), mech + "-fields", keys=sorted(map(str, got)), **d):
        for k in want:
            ctx.check(list(got[k]) == list(want[k]), mech, field=k, **d)


def clearance_set(ctx):
    rng = ctx.rng
    wb = openpyxl.Workbook()
    wb.active.title = str(rng.choice(["Revision", "Readme"]))
    if rng.random() < .5:
        wb.create_sheet("Example")
    acr = dict(Sm=round(float(rng.uniform(0, 1)), 2), sigmapa=round(float(rng.uniform(0, 1)), 2),
               k=round(float(rng.uniform(1, 5)), 1), reference_h_and_c=int(rng.integers(5, 40)),
               offset_h_and_c=int(rng.integers(5, 40)))
    n_off = int(rng.integers(1, 5))
    names = ["Reference well"] + [f"{i + 1:02d} - well" for i in range(n_off)]
    want, layout = {}, []
    gaps = bool(rng.random() < .5)
    for name in names:
        s = wb.create_sheet(name)
        if name == names[0]:
            for cell, v in zip(("I4", "I5", "I6", "I7", "I8"), acr.values()):
                s[cell] = v
        s["A1"], s["B1"] = "Wellpath", name
        for j, t in enumerate(("MD", "Inclination", "Azimuth", "TVD", "North", "East", "sigmaH", "sigmaL", "sigmaA")):
            s.cell(16, 2 + j, t)
            s.cell(17, 2 + j, "[m]")
        n = int(rng.integers(1, 30))
        md = np.round(np.cumsum(rng.uniform(1, 60, n)), 2)
        T = np.column_stack([md, np.round(rng.uniform(0, 90, n), 2), np.round(rng.uniform(0, 360, n), 2),
                             np.round(md * .9, 2), *np.round(rng.normal(0, 500, (2, n)), 2),
                             *np.round(rng.uniform(0, 9, (3, n)), 4)]).tolist()
        if rng.random() < .7:
            T[0] = [0] * 9
        if rng.random() < .5:
            T[-1][0] = int(T[-1][0]) + 1
        rows, r = [], 18
        for t in T:
            if gaps and rng.random() < .15:
                if rng.random() < .5:
                    s.cell(r, 2, "Tie")
                r += 1
            for j, v in enumerate(t):
                s.cell(r, 2 + j, v)
            s.cell(r, 11, 999.0)
            rows.append(t)
            r += 1
        want[name] = {k: [x[j] for x in rows] for j, k in enumerate(COLS)}
        if name != names[0]:
            c = wb.create_sheet(name[:5] + "clearance")
            c["O3"] = "ISCWSA ACR"
            k = int(rng.integers(1, 30))
            sf = np.round(rng.uniform(-1, 60, k), 6).tolist()
            for j, v in enumerate(sf):
                c.cell(5 + j, 15, v)
                c.cell(5 + j, 14, 5.0)
                c.cell(5 + j, 16, 7.0)
            want[name]["SF"] = sf
    if rng.random() < .3:
        wb.create_sheet("Notes")
    ctx.case = dict(wells=names, acr=acr)
    f = save(wb)
    try:
        got = wio.import_iscwsa_collision_data(f)
    finally:
        os.remove(f)
    ctx.check(got["acr"] == acr, "acr", got_acr=got["acr"])
    if ctx.check(list(got["wells"]) == names, "wells", names=list(got["wells"])):
        for n in names:
            same_lists(ctx, got["wells"][n], want[n], "well-rows", well=n)
    ctx.key("clearance", n_off, gaps)
    ctx.event("station-rows", sum(len(w["MD"]) for w in want.values()))


def shipped_set(ctx):
    got = wio.import_iscwsa_collision_data(WELLS)
    wb = openpyxl.load_workbook(WELLS, data_only=True)
    wells = [n for n in wb.sheetnames if n.split()[-1] == "well"]
    ctx.check(list(got["wells"]) == wells, "wells", names=list(got["wells"]))
    for n in wells:
        T = [[c.value for c in r] for r in wb[n]["B17:J2000"]]
        T = [r for r in T if is_number(r[0])]
        w = {k: [r[j] for r in T] for j, k in enumerate(COLS)}
        if n != "Reference well":
            c = wb[n[:5] + "clearance"]
            w["SF"] = [c.cell(r, 15).value for r in range(5, c.max_row + 1)]
        same_lists(ctx, got["wells"][n], w, "well-rows", well=n)
        ctx.event("station-rows", len(T))
        ctx.key("shipped", n)
    r = wb["Reference well"]
    ctx.check(list(got["acr"].values()) == [r[c].value for c in ("I4", "I5", "I6", "I7", "I8")], "acr", got_acr=got["acr"])


# ---------------------------------------------------------------- tool models
MODE = {"R": "random", "S": "systematic", "G": "global", "W": "within_pad"}


def own_model(sheet):
    """(header, codes) of a Model sheet, cell by cell."""
    R = [[sheet.cell(r, c).value for c in range(1, 14)] for r in range(1, sheet.max_row + 1)]
    header, block = {}, None
    for r in R:
        k, v = r[0], r[1]
        if k is None:
            continue
        name = k
        for ch in ":[]":
            name = name.replace(ch, "")
        if k.startswith(" ") and block is not None:
            if isinstance(v, str) and "deg" in v:
                v = float(v.split(" ")[0]) * np.pi / 180
            header[block][k.strip().replace(":", "")] = v
            continue
        block = None
        if "gyro" in k.lower():
            block = k.replace(":", "")
            header[block] = {}
            continue
        header[name] = v
    codes = {}
    for r in R[3:]:
        if r[4] is None:
            continue
        unit = r[10]
        codes["XCLA" if r[4] == "XCLL" else r[4]] = dict(
            function=r[6].replace("-", "_"),
            magnitude=r[9] * np.pi / 180 if "deg" in unit else r[9],
            unit=unit.replace("deg", "rad"), propagation=MODE.get(r[11], "systematic"))
    return header, codes


def same_value(a, b):
    if is_number(a) and is_number(b):
        return abs(a - b) <= 1e-14 * max(abs(a), abs(b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(same_value(a[k], b[k]) for k in a)
    return type(a) is type(b) and a == b


def judge(ctx, got, header, codes, who):
    ctx.check(set(got) == {"header", "codes"}, "parts")
    g = got["codes"]
    if ctx.check(list(g) == list(codes), "codes", got_codes=list(g), own=list(codes), who=who):
        for c in codes:
            if ctx.check(set(g[c]) == set(codes[c]), "code-fields", code=c):
                for k in codes[c]:
                    ctx.check(same_value(g[c][k], codes[c][k]), "code-" + k, code=c, a=g[c][k], b=codes[c][k], who=who)
    h = got["header"]
    if ctx.check(set(h) == set(header), "header-fields", extra=sorted(set(h) ^ set(header)), who=who):
        for k in header:
            ctx.check(same_value(h[k], header[k]), "header-value", field=k, a=h[k], b=header[k], who=who)


UNITS = ["m", "-", "1/m", "m/s2", "nT", "deg", "deg.nT", "deg/hr", "rad", "deg/sqr(hr)"]
FUNCS = ["DREF", "DSF", "DST", "ABXY-TI1", "ABZ", "AZ", "DBH", "AMIL", "SAGE", "XYM3E", "XCLA", "GXY-B1"]


def tables(ctx):
    rng = ctx.rng
    generic = bool(rng.random() < .6)
    wb = openpyxl.Workbook()
    short = str(rng.choice(["Model", "MWD+X", "GYRO-NS"])) if generic else "Model"
    wb.active.title = short
    s = wb.active
    s["A1"], s["B1"] = ("Z001Mc", short) if generic else ("Model", "x")
    rows = [("OWSG Prefix:", "Z001Mc"), ("Short Name:", short), ("Long Name:", "A tool [test]"), ("Revision No:", round(float(rng.uniform(0, 6)), 1)),
            ("Revision Date:", datetime.datetime(2020, 10, 8)), ("Source:", None), ("Application:", "Generic"),
            ("Notes [a]:", "x: y"), ("Inclination Range Min:", "0 deg"), ("Inclination Range Max:", f"{rng.integers(60, 180)} deg"),
            ("Misalignment Alt:", 3), ("XCL Tortuosity:", "1 deg / 100 ft")]
    blocks = int(rng.integers(0, 3)) if generic else 0
    if not generic and rng.random() < .5:
        rows[4] = ("Approved:", True)
    at = len(rows) - 2
    for b in range(blocks):
        blk = [(["XY Static Gyro:", "XY Continuous Gyro:"][b], True), ("   Start Inc:", f"{rng.integers(0, 20)} deg"),
               ("   End Inc:", f"{rng.integers(20, 150)} deg"), ("   Running Speed:", "2743.2 m/hr")]
        rows[at:at] = blk[:int(rng.integers(2, 5))]
        at = len(rows) - 2
    n = int(rng.integers(2, 40))
    if not generic:
        n = max(n, len(rows) + 2)
    r = 3
    for k, v in rows:
        if not blocks and rng.random() < .08:
            s.cell(r, 2, "continued")
            r += 1
        s.cell(r, 1, k)
        s.cell(r, 2, v)
        r += 1
    if not generic:
        n = max(n, r - 3)
    for j, t in enumerate(("No", "Code", "Term Description", "Wt.Fn.", "Wt.Fn. Source", "Type", "Magnitude", "Units", "Prop.", "P1")):
        s.cell(3, 4 + j, t)
    names = [f"{FUNCS[int(rng.integers(len(FUNCS)))]}{i}" for i in range(n)]
    if rng.random() < .3:
        names[int(rng.integers(n))] = "XCLL"
    for i, c in enumerate(names):
        m = float(np.round(rng.uniform(0, 5), 6)) if rng.random() < .8 else int(rng.integers(0, 300))
        vals = (i + 1, c, "text", str(rng.choice(FUNCS)), "SPE", "Sensor", m, str(rng.choice(UNITS)), str(rng.choice(list("RSGW"))), 1)
        for j, v in enumerate(vals):
            s.cell(4 + i, 4 + j, v)
    ctx.case = dict(generic=generic, header=[k for k, _ in rows], n=n, blocks=blocks)
    f = save(wb)
    try:
        own = own_model(openpyxl.load_workbook(f, data_only=True)[short])
        if generic:
            book = xg.open_workbook(f)
            got = xg.extract_data(book, short) if rng.random() < .5 else xg.extract_data(f, short)
        else:
            got = xi.extract_data(f)
    finally:
        os.remove(f)
    judge(ctx, got, *own, "generic" if generic else "iscwsa")
    ctx.key("table", generic, blocks, min(n // 10, 3))
    ctx.event("codes", n)


def index(ctx):
    rng = ctx.rng
    wb = openpyxl.Workbook()
    wb.active.title = "Index"
    s = wb.active
    fields = ["No", "OWSG Prefix", "Short Name", "Long Name", "Rev.", "Application"]
    s.append(fields)
    want, n = {}, int(rng.integers(1, 30))
    for i in range(n):
        fl = bool(rng.random() < .5)
        p, sh = f"A{i:03d}Mc", f"T_{i}{'_Fl' if fl else ''}"
        if rng.random() < .1:
            sh = sh + "_Flx"
            fl = False
        row = [i + 1, p, sh, f"Tool {i}", round(float(rng.uniform(0, 6)), 1), "a"]
        s.append(row)
        want[p + "_Fl" if fl else p] = dict(zip(fields, row))
        if rng.random() < .4 and not fl:
            row = [i + 1, p, f"S_{i}_Fl", f"Tool {i} F", 5.1, "b"]
            s.append(row)
            want[p + "_Fl"] = dict(zip(fields, row))
    ctx.case = dict(n=n)
    f = save(wb)
    try:
        book = xg.open_workbook(f)
        got = xg.make_index(book)
    finally:
        os.remove(f)
    ctx.check(got == want, "index", extra=sorted(set(got) ^ set(want)))
    ctx.check(xg.get_short_names(dict(want)) == {k: v["Short Name"] for k, v in want.items()}, "short-names")
    for k, v in want.items():
        ctx.check(xg.get_index(v["Short Name"], want) == k, "index-lookup", tool=k)
    ctx.check(xg.get_index("no such tool", want) is None, "index-lookup")
    ctx.key("index", n // 10)
    ctx.event("tools", n)


def shipped_tables(ctx):
    """The tables and index shipped are the workbook shipped."""
    d = os.path.join(REPO, "welleng", "errors")
    wb = openpyxl.load_workbook(TOOLS, data_only=True)
    book = xg.open_workbook(TOOLS)
    idx = xg.make_index(book)
    shipped = yaml.safe_load(open(os.path.join(d, "tool_index.yaml")))
    rows = [r for r in wb["Index"].iter_rows(min_row=2, values_only=True)]
    ctx.check(len(idx) == len(rows), "index-size", n=len(idx))
    for r in rows:
        k = r[1] + ("_Fl" if r[2].endswith("_Fl") else "")
        if not ctx.check(k in idx and k in shipped, "index-entry", tool=k):
            continue
        ctx.check(tuple(idx[k].values())[:6] == tuple(r)[:6], "index-row", tool=k)
        ctx.check(shipped[k] == idx[k], "index-shipped", tool=k)
        header, codes = own_model(wb[r[2]])
        got = xg.extract_data(book, r[2])
        judge(ctx, got, header, codes, k)
        p = os.path.join(d, "tool_codes", k + ".yaml")
        if os.path.exists(p):
            y = yaml.safe_load(open(p))
            ctx.check(set(y["codes"]) == set(codes), "shipped-codes", tool=k)
            for c in codes:
                ctx.check(c in y["codes"] and set(y["codes"][c]) == set(codes[c])
                          and all(same_value(y["codes"][c][q], codes[c][q]) for q in codes[c]), "shipped-code", tool=k, code=c)
            for q in header:
                ctx.check(q in y["header"] and (same_value(y["header"][q], header[q])), "shipped-header", tool=k, field=q)
            ctx.event("tables")
        ctx.key("tool", k)
    # the ISCWSA Rev4 example
    f = os.path.join(REPO, "reference", "error-model-example-mwdrev4-iscwsa-1.xlsx")
    got = xi.extract_data(f)
    judge(ctx, got, *own_model(openpyxl.load_workbook(f, data_only=True)["Model"]), "rev4")
    y = yaml.safe_load(open(os.path.join(d, "tool_codes", "ISCWSA MWD Rev4.yaml")))
    for c in got["codes"]:
        ctx.check(c in y["codes"] and same_value({k: y["codes"][c][k] for k in sorted(y["codes"][c])},
                                                 {k: got["codes"][c][k] for k in sorted(got["codes"][c])}), "shipped-code", tool="Rev4", code=c)


# ---------------------------------------------------------------- conformance
ROOT = os.path.join(REPO, "welleng", "errors", "iscwsa_json")
MODELS = sorted(os.path.join(a, f) for a, _, fs in os.walk(ROOT) for f in fs if f.endswith(".json"))
SCALE = {"m": 1.0, "1/m": 1.0, "nT": 1.0, "m/s2": 1.0, "rad": 1.0, "deg": np.pi / 180, "deg/hr": np.pi / 180, "deg/nT": np.pi / 180}


class Recorder:
    """What a weighting function hands over to be propagated."""

    def __init__(self, s):
        self.survey = s
        self.survey_rad = np.column_stack([s.md, s.inc_rad, s.azi_grid_rad])
        self.got = None

    def _generate_error(self, code, e_DIA, propagation, NEV):
        self.got = np.asarray(e_DIA, float)
        return e_DIA


def conform(ctx):
    rng = ctx.rng
    f = MODELS[int(rng.integers(len(MODELS)))]
    model = json.load(open(f))
    _, md, inc, azi = gen.build(rng)
    if rng.random() < .3:
        inc = np.clip(inc, 3, 85)
    s = we.survey.Survey(md=md, inc=inc, azi=azi, header=gen.header(rng))
    tmp = None
    if rng.random() < .4:
        model = dict(model, terms=[dict(t) for t in model["terms"]])
        for t in model["terms"]:
            u = rng.random()
            if u < .15:
                t["value"] = float(rng.uniform(0, 3))
            elif u < .25:
                t["azimuth_formula"] = f"({t['azimuth_formula']}) * 2 + {round(float(rng.uniform(0, 1)), 3)}"
            elif u < .3:
                t["x_owsg_weight_function"] = "NO-SUCH"
            elif u < .35:
                t["inclination_formula"] = "nosuchname * 2"
        tmp = tempfile.NamedTemporaryFile("w", suffix=".json", delete=False)
        json.dump(model, tmp)
        tmp.close()
        f = tmp.name
    ctx.case = dict(model=model.get("name") or f, md=md, inc=inc, azi=azi, changed=tmp is not None)
    try:
        with Watch(ctx, "compare_model", survey=s), np.errstate(all="ignore"):
            res = cf.compare_model(f, s)
    finally:
        if tmp:
            os.remove(tmp.name)
    if not ctx.check([r.name for r in res] == [t["name"] for t in model["terms"]], "terms", n=len(res)):
        return
    h = s.header
    env = dict(MD=s.md, Inc=s.inc_rad, AzT=s.azi_true_rad, AzM=s.azi_mag_rad, Az=s.azi_grid_rad, TVD=s.tvd,
               Gfield=h.G, Dip=h.dip, BField=h.b_total, EarthRate=0.262516, Latitude=np.radians(h.latitude), RAD=np.pi / 180)
    n = len(s.md)
    for t, r in zip(model["terms"], res):
        name = (t.get("x_owsg_weight_function") or t["name"]).replace("-", "_")
        ctx.check(r.legacy_function == name and r.n_stations == n, "term-identity", term=t["name"], fn=r.legacy_function)
        mag = float(t["value"]) * SCALE.get(t.get("units") or t.get("unit") or "-", 1.0)
        with np.errstate(all="ignore"):
            try:
                own = np.column_stack([np.broadcast_to(np.asarray(formula.evaluate(t[k], env), float), (n,))
                                       for k in ("depth_formula", "inclination_formula", "azimuth_formula")]) * mag
            except (KeyError, SyntaxError):
                own = None
            if own is None:
                ctx.check(not r.interp_available and np.isnan(r.max_abs_diff) and bool(r.note), "unevaluable-term", term=t["name"])
                ctx.event("unevaluable")
                continue
            fn = getattr(TE, name, None)
            rec = Recorder(s)
            mode = {"Random": "random", "Systematic": "systematic", "Global": "global", "Well": "well"}.get(t["propagation_mode"], "systematic")
            if fn is not None:
                try:
                    fn(t["name"], rec, mag=mag, propagation=mode, NEV=True)
                except Exception:
                    rec.got = None
        if not ctx.check(r.interp_available, "evaluable-term", term=t["name"], note=r.note):
            continue
        ctx.check(r.legacy_available == (rec.got is not None), "legacy-available", term=t["name"])
        if rec.got is None:
            ctx.event("no-legacy")
            continue
        d = np.abs(rec.got - own)
        size = np.nanmax(np.abs(np.concatenate([rec.got.ravel(), own.ravel(), [1e-300]])))
        want, scale = float(d.max()), float(size)
        if not np.isfinite(want) or not np.isfinite(r.max_abs_diff):
            ctx.check(np.isnan(r.max_abs_diff) == np.isnan(want) and np.isinf(r.max_abs_diff) == np.isinf(want) or scale > 1e6,
                      "difference-finite", term=t["name"], a=r.max_abs_diff, b=want)
            continue
        ctx.close(r.max_abs_diff, want, "difference", rtol=1e-9, atol=1e-11 * max(scale, 1e-3), term=t["name"])
        with np.errstate(all="ignore"):
            rel = float((np.abs(rec.got - own) / np.maximum(np.abs(rec.got), 1e-30)).max())
        if np.isfinite(rel) and rel > 1e-6 and want > 1e-9 * max(scale, 1e-3):
            ctx.close(r.max_rel_diff, rel, "relative-difference", rtol=1e-4, term=t["name"])
        ctx.event("terms-compared")
    ctx.key("conform", os.path.basename(ctx.case["model"])[:24], tmp is not None)


def verdict(r):
    if not r.interp_available:
        return "INTERP_FAILED"
    if not r.legacy_available:
        return "NO_LEGACY"
    return "MATCH" if r.max_abs_diff < 1e-10 else "NEAR_MATCH" if r.max_abs_diff < 1e-6 else "DIFFER"


def printed(argv):
    out, old = io.StringIO(), sys.argv
    sys.argv = ["conformance", *argv]
    try:
        with contextlib.redirect_stdout(out), np.errstate(all="ignore"):
            cf.main()
    finally:
        sys.argv = old
    return out.getvalue()


def report(ctx):
    """The report that is printed says what the comparison found."""
    rng = ctx.rng
    s = cf.standard_test_survey()
    f = MODELS[int(rng.integers(len(MODELS)))]
    model = json.load(open(f))
    terms = [dict(t) for t in model["terms"]]
    for t in terms:
        u = rng.random()
        if u < .15:
            t["x_owsg_weight_function"] = "NO-SUCH"
        elif u < .3:
            t["azimuth_formula"] = "nosuchname * 2"
        elif u < .5:
            t["azimuth_formula"] = f"({t['azimuth_formula']}) + {10.0 ** float(rng.uniform(-12, -4)):.3e}"
    ctx.case = dict(model=os.path.basename(f))
    d = tempfile.mkdtemp(prefix="p33-")
    try:
        f = os.path.join(d, "model.json")
        with open(f, "w") as fh:
            json.dump(dict(model, terms=terms), fh)
        with np.errstate(all="ignore"):
            res = cf.compare_model(f, s)
        lines = printed(["--json", f]).splitlines()
    finally:
        for q in os.listdir(d):
            os.unlink(os.path.join(d, q))
        os.rmdir(d)
    at = next(i for i, q in enumerate(lines) if q.split()[:1] == ["term"]) + 1
    for r, q in zip(res, lines[at:at + len(res)]):
        w = q.split()
        v = verdict(r)
        edge = any(abs(r.max_abs_diff - e) < .01 * e for e in (1e-10, 1e-6))
        ctx.check(w[0] == r.name.split()[0] and (v in w or edge), "printed-verdict", line=q, want=v)
        if v in ("INTERP_FAILED", "NO_LEGACY"):
            ctx.check("n/a" in w, "printed-difference", line=q)
            ctx.check(r.note[:30] in q, "printed-note", line=q, note=r.note)
        else:
            x = [float(k) for k in w[2:] if re.fullmatch(r"[\d.]+e[+-]\d+|nan|inf", k)]
            if ctx.check(len(x) == 1, "printed-difference", line=q):
                ctx.check(x[0] == float(f"{r.max_abs_diff:.2e}") or np.isnan(x[0]) and np.isnan(r.max_abs_diff), "printed-difference", line=q, want=r.max_abs_diff)
        ctx.key("report", v)
    n = {}
    for r in res:
        n[verdict(r)] = n.get(verdict(r), 0) + 1
    got = dict(re.findall(r"(\w+)=(\d+)", lines[at + len(res)]))
    ctx.check({k: int(v) for k, v in got.items()} == n and f"of {len(res)} terms" in lines[at + len(res)], "printed-summary",
              line=lines[at + len(res)], want=n)
    ctx.event("reports")


def matrix(ctx):
    """The coverage matrix adds the verdicts of its models up."""
    s = cf.standard_test_survey()
    text = printed([]) if ctx.rng.random() < .5 else printed(["--summary"])
    ctx.case = dict(summary=True)
    rows = text[text.index("AGGREGATE"):]
    names = ["MATCH", "NEAR_MATCH", "DIFFER", "INTERP_FAILED", "NO_LEGACY"]
    tot = np.zeros(6, int)
    found = re.findall(r"^  (\S+) +(\d+) +(\d+) +(\d+) +(\d+) +(\d+) +(\d+)$", rows, re.M)
    ctx.check(len(found) == 5, "matrix-rows", rows=[q[0] for q in found])
    for q in found:
        got = np.array(q[1:], int)
        if q[0] == "TOTAL":
            ctx.check(np.array_equal(got, tot), "matrix-total", got=got, want=tot)
            break
        with np.errstate(all="ignore"):
            res = cf.compare_model(os.path.join(REPO, "welleng", "errors", "iscwsa_json", "owsg_a", q[0] + ".json"), s)
        v = [verdict(r) for r in res]
        want = np.array([v.count(k) for k in names] + [len(res)])
        ctx.check(np.array_equal(got, want), "matrix-row", model=q[0], got=got, want=want)
        for r in res:
            if not r.interp_available:
                ctx.check(f"[{r.note}]" in rows and f"{q[0]}.json::{r.name}" in rows or rows.count("more") > 0, "matrix-finding", term=r.name)
        tot += want
    ctx.key("matrix")
    ctx.event("reports")


SCENARIOS = [
    Scenario("shipped_set", shipped_set, 1, 1, batch=1),
    Scenario("shipped_tables", shipped_tables, 1, 1, batch=1),
    Scenario("clearance_set", clearance_set, 60, 1000),
    Scenario("tables", tables, 120, 2000),
    Scenario("index", index, 30, 400),
    Scenario("conform", conform, 120, 2500),
    Scenario("report", report, 40, 600),
    Scenario("matrix", matrix, 1, 2, batch=1),
]
