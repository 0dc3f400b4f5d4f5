"""C08: live check reports exactly the findings the registry calls for.

A generated registry (v1 definitions, v2 definitions, or a published package) and a generated history of telemetry
samples go through `registry live-check`; every entity of the report is compared with the reference model in
lib/live.py, and a policy of our own records what the policies are given."""
import json
import os

from lib import live, reg, v1
from lib.common import Check, stable_hash

ECHO = '''package live_check_advice
import rego.v1
deny contains f if {
  some kind, s in input.sample
  f := {"type": "advice", "advice_type": "echo", "advice_level": "information", "message": kind,
        "advice_context": {"kind": kind, "name": object.get(s, "name", object.get(s, "event_name", null)),
          "res": [a.name | some a in object.get(nn(object.get(input, "resource", null)), "attributes", [])],
          "attr": object.get(nn(object.get(input, "registry_attribute", null)), "name", object.get(nn(object.get(input, "registry_attribute", null)), "key", null)),
          "group": gname(nn(object.get(input, "registry_group", null)))}}
}
nn(x) := x if x != null
nn(x) := {} if x == null
gname(g) := g.metric_name if is_string(g.metric_name)
else := g.name if is_string(g.name)
else := null
'''


def run(c, base, root, flags, samples, fmt="json", extra=(), stdin=False, name="in.json", timeout=120):
    path = f"{base}/{name}"
    with open(path, "w") as f:
        json.dump(samples, f)
    args = ["registry", "live-check", "-r", root, *flags, "--format", fmt, "--no-stream", *extra]
    if stdin:
        return c.run(args + ["--input-source", "stdin", "--input-format", "json"], stdin=open(path).read(),
                     timeout=timeout, cwd=base)
    return c.run(args + ["--input-source", path, "--input-format", "json"], timeout=timeout, cwd=base)


def build(c, base, rng, i, mode=None):
    """-> registry description, directory, flags."""
    r = live.gen(rng)
    mode = mode or ["v2", "v1", "v2", "pkg", "v1as2"][i % 5]
    root = f"{base}/reg"
    if mode in ("v1", "v1as2"):
        live.drop_refinements(r)
        reg.write_tree(root, live.as_v1(rng, r), rng, manifest=reg.manifest("https://example.test/r/1.0.0"))
        return r, root, (["--v2"] if mode == "v1as2" else []), mode
    reg.write_tree(root, live.as_v2(rng, r), rng, manifest=reg.manifest("https://example.test/r/1.0.0"))
    if mode == "pkg":
        p = c.run(["registry", "package", "--v2", "-r", root, "-o", f"{base}/pkg", "--resolved-registry-uri",
                   "resolved.yaml"])
        if p.rc != 0:
            return r, None, [], mode
        root = f"{base}/pkg"
    return r, root, ["--v2"], mode




def case(c, i):
    rng = c.rng("case", i)
    base = c.dir(f"k{i}")
    r, root, flags, mode = build(c, base, rng, i)
    if root is None:
        c.count("registries_not_packaged")
        return
    tel = live.Telemetry(rng, r)
    samples = [tel.sample() for _ in range(rng.randint(5, 40))]
    key = f"case{i}"
    res = run(c, base, root, flags, samples, stdin=rng.random() < 0.2)
    if res.timed_out:
        c.count("timeouts")
        return
    try:
        doc = res.json()
        got = doc["samples"]
    except Exception:
        c.violation(key, "no report\n" + res.brief(), keep=base)
        return
    c.saw(stable_hash([r, samples]), sample={"mode": mode, "samples": len(samples),
                                             "entities": doc["statistics"].get("total_entities")})
    if len(got) != len(samples):
        c.violation(key, f"{len(samples)} samples, {len(got)} in the report", keep=base)
        return
    d = live.subset(samples, got)
    if d:
        c.violation(key + "/echo", "the report does not carry the samples:\n" + "\n".join(d[:6]), keep=base)
    model = live.Model(r)
    want = model.check(samples)
    judge(c, key, want, live.observed(got), base)
    # one sample alone gets the same findings as among the others
    if i % 6 == 0:
        j = rng.randrange(len(samples))
        before = [s for s in samples[:j] if "resource" in s][-1:]
        alone = run(c, base, root, flags, before + [samples[j]], name="one.json")
        try:
            one = alone.json()["samples"][-1]
        except Exception:
            c.violation(key + "/alone", "no report\n" + alone.brief(), keep=base)
            return
        c.count("alone")
        if one != got[j]:
            c.violation(key + "/alone", f"sample {j} alone: {json.dumps(one)[:500]}\namong the others: "
                        f"{json.dumps(got[j])[:500]}", keep=base)
    if i % 4 == 1:
        text(c, key, base, root, flags, rng, r, model)
    if i % 4 == 2:
        policy(c, key, base, root, flags, r, model, samples, want)


def judge(c, key, want, seen, base):
    if {p: k for p, (k, _) in want.items()} != {p: k for p, (k, _) in seen.items()}:
        miss = sorted(set(want) ^ set(seen))[:6]
        c.violation(key, f"entities differ: {miss}", keep=base)
        return
    bad = []
    c.saw(None, len(want))
    for p, (k, fs) in want.items():
        c.count("entities")
        res = seen[p][1]
        if res is None:
            bad.append(f"{p} ({k}): not checked")
            continue
        w, g = live.bag(fs), live.bag(res["all_advice"])
        c.count("findings", len(w))
        for f in fs:
            c.count("finding:" + f["id"])
        if w != g:
            bad.append(f"{p} ({k}): missing {[x for x in w if x not in g]} unexpected {[x for x in g if x not in w]} "
                       f"({len(w)} expected, {len(g)} reported)")
        top = max((f["level"] for f in fs), key=live.LEVELS.get, default=None)
        if w == g and res.get("highest_advice_level") != top:
            bad.append(f"{p} ({k}): highest level {res.get('highest_advice_level')} instead of {top}")
    if bad:
        c.violation(key, "the findings are not those the registry calls for:\n" + "\n".join(bad[:5]), keep=base)


def text(c, key, base, root, flags, rng, r, model):
    """Attribute names (and values) as lines of text."""
    tel = live.Telemetry(rng, r)
    lines, want = [], []
    for _ in range(rng.randint(1, 15)):
        n = tel.name()
        if "=" in n or not n.strip() or n != n.strip():
            continue
        q = rng.random()
        if q < 0.3:
            lines.append(rng.choice(["", "  "]) + n + rng.choice(["", " "]))
            want.append({"attribute": {"name": n}})
            continue
        v = rng.choice(["x", "1", "1.5", "true", '"quoted"', "[1, 2]", '["a"]', "a=b", "null", "-3", "not json", "v0"])
        lines.append(f"{n}{rng.choice(['=', ' = '])}{v}")
        try:
            val = json.loads(v)
        except ValueError:
            val = v
        want.append({"attribute": {"name": n, "value": val}})
    if not lines:
        return
    path = f"{base}/in.txt"
    open(path, "w").write("\n".join(lines) + rng.choice(["", "\n"]))
    args = ["registry", "live-check", "-r", root, *flags, "--format", "json", "--no-stream", "--input-format", "text"]
    if rng.random() < 0.5:
        res = c.run(args + ["--input-source", path], cwd=base)
    else:
        res = c.run(args + ["--input-source", "stdin"], stdin=open(path).read(), cwd=base)
    try:
        got = res.json()["samples"]
    except Exception:
        c.violation(key + "/text", "no report\n" + res.brief(), keep=base)
        return
    c.saw(None)
    c.count("text_lines", len(lines))
    d = live.subset(want, got)
    if d:
        c.violation(key + "/text", "the report does not carry the lines:\n" + "\n".join(d[:6]), keep=base)
        return
    judge(c, key + "/text", model.check(want), live.observed(got), base)


def policy(c, key, base, root, flags, r, model, samples, want):
    """What a policy is given: each entity once, with its resource and its registry definition."""
    os.makedirs(f"{base}/pol", exist_ok=True)
    open(f"{base}/pol/echo.rego", "w").write(ECHO)
    res = run(c, base, root, flags, samples, extra=["--advice-policies", f"{base}/pol"], name="pol.json")
    try:
        got = res.json()["samples"]
    except Exception:
        c.violation(key + "/policy", "no report\n" + res.brief(), keep=base)
        return
    seen = live.observed(got)
    bad = []
    resource = None
    for p, (kind, _) in want.items():
        top = samples[int(p.split(".")[0].split("[")[0])]
        (tk, tx), = top.items()
        if tk == "resource":
            resource = tx
        echo = [f["context"] for f in (seen[p][1] or {}).get("all_advice", []) if f["id"] == "echo"]
        if len(echo) != 1:
            bad.append(f"{p} ({kind}): the policy was evaluated {len(echo)} times")
            continue
        e = echo[0]
        x = entity(tx, p)
        c.count("policy_inputs")
        want_kind = kind
        if kind == "data_point":
            want_kind = "histogram_data_point" if "count" in x else "number_data_point"
        has_res = tk in ("span", "metric", "log") and resource is not None
        d = model.lookup(x["name"]) if kind == "attribute" else None
        g = {"metric": model.metrics, "log": model.events}.get(tk, {}).get(tx.get("name", tx.get("event_name")))
        exp = {"kind": want_kind, "name": x.get("name", x.get("event_name")),
               "res": [a["name"] for a in resource["attributes"]] if has_res else [],
               "attr": d and d["name"], "group": g and g["name"]}
        if e != exp:
            bad.append(f"{p}: the policy was given {e}, expected {exp}")
    if bad:
        c.violation(key + "/policy", "\n".join(bad[:6]), keep=base)


def entity(x, p):
    """The part of a sample that a path names."""
    import re
    for f, i in re.findall(r"\.(\w+)\[(\d+)\]", p):
        x = x[f][int(i)]
    return x


def main(tier, seed):
    c = Check("C08", tier, seed, "exploration",
              "A case is a generated registry (v1, v2, v1 read as v2, or packaged) and a history of 5-40 samples; every "
              "entity of the report is compared with the reference model. Distinct: by registry and samples. "
              "Non-trivial: at least one sample.",
              ["the reference model in lib/live.py states the documented rules",
               "names that extend a template's name without a dot are not sent"])
    c.setup()
    c.map(lambda i: case(c, i), range(c.n(700, 8000)))
    return c.finish()
