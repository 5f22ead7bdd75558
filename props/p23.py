"""P23  Queries on EDM datasets."""
import os
import tempfile
from xml.sax.saxutils import quoteattr

from vmon.core import Scenario
from vmon.env import np, we

META = dict(
    title='EDM queries return exactly the matching records of the dataset',
    statement=('Querying an EDM file by tags and attributes returns every record that matches all (AND) or '
               'any (OR) of them once, in file order, and no other. Wells, sites, well bores, tags and the '
               'well bore graph list what the file holds, the parents of a well bore are its chain of '
               'ancestors, and the data of a well bore is its own records, those of its well and the surveys '
               'of its ancestors, each once, whatever was queried before. Pore pressure, fracture gradient '
               'and temperature come grouped and sorted by depth, and a case collects the records it refers '
               'to, its survey stations and, between their tie-on depths, those of the surveys it is tied on to.'),
    over=['inputs', 'histories'],
    quantifier='all datasets, tag and attribute selections, and sequences of queries on one dataset',
    why='No test reads an EDM file; results depend on which queries came before.',
    files=['welleng/exchange/edm.py'],
    mechanism=[('query', 'welleng/exchange/edm.py:EDM.get_attributes'),
               ('well bore', 'welleng/exchange/edm.py:EDM.get_wellbore_data'),
               ('case', 'welleng/exchange/edm.py:Well.make_case')],
)
PROPERTY, LEVEL = "P23", "exploration"
RULE = ("a case generates one dataset and runs a random sequence of queries on it, each compared with a list "
        "comprehension over the records; distinct classes are (query, logic, selection size, depth of the "
        "ancestor chain) tuples")
ASSUMPTIONS = ["identifiers are unique and ancestor chains have no cycles",
               "the stations of the untied survey at the top of a chain are not claimed to be assembled (the rules for untied surveys aren't documented)"]


def dataset(rng):
    R = []

    def add(tag, **a):
        R.append((tag, {k: str(v) for k, v in a.items()}))
    n_sites, n = int(rng.integers(1, 4)), int(rng.integers(2, 5))
    for i in range(n_sites):
        add("CD_SITE", site_id=f"s{i}", site_name=f"Site {i} & co")
    wb = []
    for w in range(n):
        add("CD_WELL_ALL", well_id=f"w{w}", well_common_name=f"Well {w}", site_id=f"s{rng.integers(n_sites)}")
        add("CD_WELL", well_id=f"w{w}", well_legal_name=f"W<{w}>")
        for d in range(int(rng.integers(1, 3))):
            add("CD_DATUM", well_id=f"w{w}", datum_id=f"d{w}{d}", datum_elevation=round(float(rng.uniform(0, 60)), 1))
        mine = []
        for b in range(int(rng.integers(1, 5))):
            a = dict(wellbore_id=f"b{w}{b}", wellbore_name=f"Bore {w}-{b}", well_id=f"w{w}")
            if mine and rng.random() < .8:
                a["parent_wellbore_id"] = str(rng.choice(mine))
            mine.append(a["wellbore_id"])
            wb.append(a)
            add("CD_WELLBORE", **a)
            sh = f"h{w}{b}"
            tied = dict(tie_survey_header_id="h" + a["parent_wellbore_id"][1:], tie_on_depth=100.0 * b) if "parent_wellbore_id" in a else {}
            add("CD_SURVEY_HEADER", survey_header_id=sh, wellbore_id=a["wellbore_id"], well_id=a["well_id"], md_max=1000.0 + b, **tied)
            for k in range(int(rng.integers(1, 5))):
                add("CD_SURVEY_STATION", survey_header_id=sh, wellbore_id=a["wellbore_id"], well_id=a["well_id"], md=round(100.0 * b + 37.5 * k, 2),
                    inclination=k, azimuth=10 * k)
            for g, v in (("PORE_PRESSURE", "pore_pressure"), ("FRAC_GRADIENT", "frac_gradient_pressure"), ("TEMP_GRADIENT", "temperature")):
                if rng.random() < .7:
                    for q in range(int(rng.integers(1, 3))):
                        for _ in range(int(rng.integers(1, 5))):
                            add("CD_" + g, wellbore_id=a["wellbore_id"], tvd=round(float(rng.uniform(0, 4000)), 1),
                                **{f"{g.lower()}_group_id": f"g{w}{b}{q}", v: round(float(rng.uniform(10, 900)), 2)})
            if rng.random() < .3:
                add("CD_PORE_PRESSURE_TEMPLATE", wellbore_id=a["wellbore_id"], template_id=f"t{w}{b}", name="T")
            for c in range(int(rng.integers(1, 3))):
                cid = f"c{w}{b}{c}"
                add("CD_CASE", case_id=cid, case_name=f"Case {cid}", wellbore_id=a["wellbore_id"], well_id=a["well_id"],
                    scenario_id=f"sc{cid}", fluid_id=f"f{cid}", assembly_id=f"a{cid}", hole_sect_group_id=f"hg{cid}", datum_id=f"d{w}0")
                add("CD_SCENARIO", scenario_id=f"sc{cid}", wellbore_id=a["wellbore_id"], name="S " + cid)
                add("CD_FLUID", fluid_id=f"f{cid}", wellbore_id=a["wellbore_id"], density=round(float(rng.uniform(1, 2)), 2))
                add("CD_ASSEMBLY", assembly_id=f"a{cid}", wellbore_id=a["wellbore_id"], assembly_name="A")
                for k in range(int(rng.integers(1, 4))):
                    add("CD_ASSEMBLY_COMP", assembly_id=f"a{cid}", wellbore_id=a["wellbore_id"], od=round(float(rng.uniform(.1, .3)), 3), seq=k)
                add("CD_HOLE_SECT_GROUP", hole_sect_group_id=f"hg{cid}", wellbore_id=a["wellbore_id"], name="H")
                for k in range(int(rng.integers(1, 4))):
                    add("CD_HOLE_SECT", hole_sect_group_id=f"hg{cid}", wellbore_id=a["wellbore_id"], friction=round(float(rng.uniform(.1, .4)), 2), seq=k)
    if rng.random() < .5:
        # files hold records in any order, but parents first is usual
        i = rng.permutation(len(R))
        R = [R[k] for k in i]
    return R


def write(R):
    f = tempfile.NamedTemporaryFile("w", suffix=".xml", prefix="p23-", delete=False)
    f.write("<?xml version='1.0'?>\n<export>\n" + "\n".join(
        f"<{t} " + " ".join(f"{k}={quoteattr(v)}" for k, v in a.items()) + "/>" for t, a in R) + "\n</export>\n")
    f.close()
    return f.name


def select(R, tags, attrs, logic):
    out = {}
    for t, a in R:
        if tags is not None and t not in tags:
            continue
        if attrs:
            hit = [k in a and a[k] in (v if isinstance(v, list) else [v]) for k, v in attrs.items()]
            if not (all(hit) if logic == "AND" else any(hit)):
                continue
        out.setdefault(t, []).append(a)
    return out


def plain(d):
    return {k: [dict(x) for x in v] for k, v in d.items()}


def ancestors(R, b):
    par = {a["wellbore_id"]: a.get("parent_wellbore_id") for t, a in R if t == "CD_WELLBORE"}
    out = []
    while par.get(b):
        b = par[b]
        out.append(b)
    return out


def bore(R, b):
    rec = next(a for t, a in R if t == "CD_WELLBORE" and a["wellbore_id"] == b)
    anc = ancestors(R, b)
    out = {}
    for t, a in R:
        if (a.get("wellbore_id") == b or (t in ("CD_WELL", "CD_DATUM") and a.get("well_id") == rec["well_id"])
                or (t in ("CD_SURVEY_HEADER", "CD_SURVEY_STATION") and a.get("wellbore_id") in anc)):
            out.setdefault(t, []).append(a)
    return out


def bag(rows):
    return sorted(tuple(sorted(r.items())) for r in rows)


def queries(ctx):
    rng = ctx.rng
    R = dataset(rng)
    path = write(R)
    try:
        e = we.exchange.edm.EDM(path)
    finally:
        os.unlink(path)
    seq = []
    ctx.case = dict(records=len(R), steps=seq)
    tags = sorted({t for t, _ in R})
    bores = [a["wellbore_id"] for t, a in R if t == "CD_WELLBORE"]
    for _ in range(int(rng.integers(4, 14))):
        q = str(rng.choice(["attributes", "attributes", "parents", "data", "lists", "well"]))
        if q == "attributes":
            t = [None, str(rng.choice(tags)), [str(x) for x in rng.choice(tags, 3)]][int(rng.integers(3))]
            attrs = {}
            for _ in range(int(rng.integers(0, 4))):
                _, a = R[rng.integers(len(R))]
                k = str(rng.choice(list(a)))
                v = [r[k] for _, r in R if k in r]
                attrs[k] = str(rng.choice(v)) if rng.random() < .7 else [str(x) for x in rng.choice(v, 2)]
            logic = str(rng.choice(["AND", "OR"]))
            seq.append((q, t, attrs, logic))
            got = plain(e.get_attributes(t, attrs, logic) if rng.random() < .5 or logic == "OR" else e.get_attributes(tags=t, attributes=attrs))
            want = select(R, None if t is None else ([t] if isinstance(t, str) else t), attrs, logic)
            ctx.check(got == want, "attributes", query=seq[-1], got={k: len(v) for k, v in got.items()}, want={k: len(v) for k, v in want.items()})
            ctx.key(q, type(t).__name__, len(attrs), logic, bool(want))
        elif q == "parents":
            b = str(rng.choice(bores))
            seq.append((q, b))
            ctx.check(list(e.get_parents(b)) == ancestors(R, b), "parents", bore=b, got=list(e.get_parents(b)), want=ancestors(R, b))
            ctx.key(q, len(ancestors(R, b)))
        elif q == "data":
            b = str(rng.choice(bores))
            seq.append((q, b))
            got, want = plain(e.get_wellbore_data(b)), bore(R, b)
            ctx.check(set(got) == set(want), "wellbore-tags", bore=b)
            for t in set(got) & set(want):
                ctx.check(bag(got[t]) == bag(want[t]), "wellbore-records", bore=b, tag=t, got=len(got[t]), want=len(want[t]))
            ctx.key(q, len(ancestors(R, b)))
        elif q == "lists":
            seq.append((q,))
            by = (lambda tag, k: {a[k]: a for t, a in R if t == tag})
            for f, tag, k in ((e.get_wells, "CD_WELL_ALL", "well_common_name"), (e.get_sites, "CD_SITE", "site_name"), (e.get_wellbore_ids, "CD_WELLBORE", "wellbore_name")):
                ctx.check({a: dict(b) for a, b in f().items()} == by(tag, k), f"list-{tag}")
            ctx.check(e.get_tags() == tags and sorted(e.get_tags(sort=False)) == tags, "tags")
            G = e.get_wellbore_graph()
            edges = {frozenset((a["wellbore_id"], a["parent_wellbore_id"])) for t, a in R if t == "CD_WELLBORE" and "parent_wellbore_id" in a}
            ctx.check(set(G.nodes) == set(bores) and {frozenset(x) for x in G.edges} == edges, "graph")
            c = next((a for t, a in R if t == "CD_CASE"))
            ctx.check(e.get_case_name_from_id(c["case_id"]) == c["case_name"], "case-name")
        else:
            b = str(rng.choice(bores))
            rec = next(a for t, a in R if t == "CD_WELLBORE" and a["wellbore_id"] == b)
            name = bool(rng.random() < .5)
            seq.append((q, b, name))
            w = e.get_wellbore(rec["wellbore_name"] if name else b, name=name)
            ctx.check(w.wellbore_id == b and w.wellbore_name == rec["wellbore_name"], "well-identity")
            case(ctx, w, bore(R, b), rng)
        ctx.event("queries")


def case(ctx, w, D, rng):
    p = w.get_ppfpt_data()
    for key, tag, v in (("pore_pressure", "PORE_PRESSURE", "pore_pressure"), ("fracture_pressure", "FRAC_GRADIENT", "frac_gradient_pressure"), ("temperature", "TEMP_GRADIENT", "temperature")):
        rows = D.get("CD_" + tag)
        if not rows:
            ctx.check(p[key] is None, "ppfpt-none", key=key)
            continue
        g = f"{tag.lower()}_group_id"
        groups = {r[g] for r in rows}
        if not ctx.check(set(p[key]) == groups, "ppfpt-groups", key=key):
            continue
        for q in groups:
            want = sorted([float(r["tvd"]), float(r[v])] for r in rows if r[g] == q)
            got = np.asarray(p[key][q], float)
            ctx.check(np.all(np.diff(got[:, 0]) >= 0), "ppfpt-sorted", key=key)
            ctx.close(sorted(got.tolist()), want, "ppfpt-values", rtol=1e-12)
    want = {r["hole_sect_group_id"] for rows in D.values() for r in rows if "hole_sect_group_id" in r}
    hs = w.get_hole_sections()
    ctx.check(len(hs) == len(set(hs)) and set(hs) == want, "hole-sections", got=hs)
    H = w.get_hole_section_data()
    ctx.check(set(H) == want, "hole-section-data")
    for k in H:
        rows = [r for r in D["CD_CASE"] if r["hole_sect_group_id"] == k]
        ctx.check(H[k].get("CD_CASE") in rows, "hole-section-record", group=k)
    c = D["CD_CASE"][int(rng.integers(len(D["CD_CASE"])))]
    k = w.make_case(c["case_id"])
    ctx.check(all(getattr(k, a) == v for a, v in c.items()), "case-fields")
    for attr, tag, key, val in (("fluid", "CD_FLUID", "fluid_id", c["fluid_id"]), ("scenario", "CD_SCENARIO", "scenario_id", c["scenario_id"]),
                                ("wellbore", "CD_WELLBORE", "wellbore_id", c["wellbore_id"]), ("well", "CD_WELL", "well_id", c["well_id"]),
                                ("datum", "CD_DATUM", "datum_id", c["datum_id"]), ("hole_sect_group", "CD_HOLE_SECT_GROUP", "hole_sect_group_id", c["hole_sect_group_id"]),
                                ("hole_sect", "CD_HOLE_SECT", "hole_sect_group_id", c["hole_sect_group_id"]), ("assembly", "CD_ASSEMBLY_COMP", "assembly_id", c["assembly_id"])):
        got = getattr(k, attr, None)
        want = [r for r in D.get(tag, []) if r.get(key) == val]
        ctx.check(got is not None and bag([dict(r) for r in got]) == bag(want), "case-records", attr=attr, got=None if got is None else len(got), want=len(want))
    for tag in ("PORE_PRESSURE", "FRAC_GRADIENT"):
        rows = D.get("CD_" + tag, [])
        g = f"{tag.lower()}_group_id"
        got = getattr(k, tag.lower(), {})
        if ctx.check(set(got) == {r[g] for r in rows}, "case-pressures", tag=tag, got=sorted(got)):
            for q in got:
                ctx.check(bag([dict(r) for r in got[q]]) == bag([r for r in rows if r[g] == q]), "case-pressure-rows", tag=tag)
                ctx.check(np.all(np.diff([float(r["tvd"]) for r in got[q]]) >= 0), "case-pressure-order", tag=tag)
    ctx.check(not hasattr(k, "pore_pressure_template"), "case-template")
    rows = w.get_data(c["wellbore_id"], "wellbore")
    ctx.check(bag([dict(r) for r in rows]) == bag(D["CD_WELLBORE"]), "records-by-id")
    ctx.check(w.get_data("nosuch", "wellbore") is None, "records-by-unknown-id")
    stations(ctx, w, k, D, c["wellbore_id"])
    ctx.event("cases")


def stations(ctx, w, k, D, b):
    """Surveys of a case: its own stations, and those it is tied on to."""
    H = {h["survey_header_id"]: h for h in D["CD_SURVEY_HEADER"]}
    own = [h for h in H if H[h]["wellbore_id"] == b]
    if not ctx.check(set(k.survey_station) == set(own) == set(k.survey), "case-surveys", got=sorted(k.survey_station), want=own):
        return
    for h in own:
        rows = [r for r in D["CD_SURVEY_STATION"] if r["survey_header_id"] == h]
        ctx.check(bag([dict(r) for r in k.survey_station[h]]) == bag(rows), "case-stations", survey=h)
        want, chain, below, at = [], [], float(H[h]["md_max"]), h
        while "tie_survey_header_id" in H.get(at, {}):
            tie = float(H[at]["tie_on_depth"])
            chain.append((at, H[at]["tie_on_depth"]))
            want += [r for r in D["CD_SURVEY_STATION"] if r["survey_header_id"] == at and tie <= float(r["md"]) <= below]
            below, at = tie, H[at]["tie_survey_header_id"]
        ctx.check(list(w.get_parent_surveys(h).items()) == chain, "tie-ons", survey=h, got=w.get_parent_surveys(h), want=chain)
        got = [dict(r) for r in k.survey[h]]
        ctx.check(bag(got) == bag(want), "tied-stations", survey=h, got=len(got), want=len(want), chain=chain)
        ctx.check(np.all(np.diff([float(r["md"]) for r in got]) >= 0), "tied-stations-order", survey=h)
        ctx.key("stations", len(chain), len(want) > 0)


SCENARIOS = [Scenario("queries", queries, 600, 6000)]
