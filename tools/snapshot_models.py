"""One-off: write data/models.json, the published magnitude and propagation of every
term of every model, read from the files at the pinned commit (after cross-checking the
YAML against the JSON of the same short name)."""
import glob, json, os, sys, yaml
R = "/repo/welleng/errors/"
idx = yaml.safe_load(open(R + "tool_index.yaml"))
out = {}
for k, v in idx.items():
    p = f"{R}tool_codes/{k}.yaml"
    sn = v["Short Name"]
    if os.path.exists(p):
        d = yaml.safe_load(open(p))
        h = d["header"]
        out[sn] = dict(kind="yaml", tort=h.get("Default Tortusity (rad/m)"),
                       inc_max=h.get("Inclination Range Max"), inc_min=h.get("Inclination Range Min"),
                       terms={c: [t["function"], t["magnitude"], t["propagation"], t.get("unit")] for c, t in d["codes"].items()})
for p in glob.glob(R + "iscwsa_json/*/*.json"):
    d = json.load(open(p))
    sn = d["metadata"]["short_name"]
    t = {}
    for x in d["terms"]:
        t.setdefault(x["name"], [x["x_owsg_weight_function"], x["value"], x["propagation_mode"], x["units"],
                                 x["depth_formula"], x["inclination_formula"], x["azimuth_formula"]])
    e = dict(kind="json", terms=t, dupes=len(d["terms"]) - len(t), inc_max=d["parameters"].get("inc_max"), inc_min=d["parameters"].get("inc_min"))
    if sn in out and out[sn]["kind"] == "yaml":
        out[sn]["json"] = e
    else:
        out[sn] = e
json.dump(out, open(os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/data/models.json", "w"), indent=0, sort_keys=True)
listed = {v["Short Name"] for v in idx.values()}
print(len(listed), sorted(listed - set(out)), sorted(set(out) - listed))
for s, e in out.items():
    if "json" in e:
        a, b = set(e["terms"]), set(e["json"]["terms"])
        if a != b: print(s, sorted(a-b), sorted(b-a))
    if e.get("dupes") or e.get("json", {}).get("dupes"): print("dupes", s)
