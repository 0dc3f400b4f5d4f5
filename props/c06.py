"""C06: a packaged registry means the same as its source.

Each generated registry (v2 or v1, with or without a dependency of its own) is packaged by the real program.
The package is decoded here and compared with the reference model's or the program's view of the source, and
every consumer of registries is run on both."""
import copy
import json
import os
import resource
import shutil
import signal
import subprocess

from lib import reg, v1, v2
from lib.common import HarnessError, REPO, VERIF, diff_json, stable_hash, Check
from props import c05
from props.c02 import yaml_load

NAMES = {"attributes": "key", "attribute_groups": "id", "spans": "type", "metrics": "name", "events": "name",
         "entities": "type"}


def decode(doc):
    """resolved.yaml as a materialized registry: every catalogue reference replaced by the attribute."""
    cat = doc.get("attribute_catalog", [])
    bad = []

    def attr(ref, extra=None):
        if not isinstance(ref, int) or not 0 <= ref < len(cat):
            bad.append(f"reference {ref!r} is not in the catalogue of {len(cat)}")
            return {}
        return {**copy.deepcopy(cat[ref]), **(extra or {})}

    def signal_(it):
        it = dict(it)
        for f in ("attributes", "identity", "description"):
            if f in it:
                it[f] = [attr(a["base"], {k: v for k, v in a.items() if k != "base"}) for a in it[f]]
        return it

    out = {"registry": {}, "refinements": {}}
    for part in out:
        for s, items in doc[part].items():
            out[part][s] = [attr(x) for x in items] if s == "attributes" else [signal_(x) for x in items]
    return out, bad


def package(c, root, out, uri="resolved.yaml", *extra, **kw):
    return c.run(["registry", "package", "--v2", "-r", root, "-o", out, "--resolved-registry-uri", uri,
                  "--diagnostic-format", "json", *extra], **kw)


TEMPLATE = {
    "weaver.yaml": "templates:\n"
                   "  - template: all.j2\n    filter: .\n    application_mode: single\n"
                   "  - template: attr.j2\n    filter: .registry.attributes\n    application_mode: each\n",
    "all.j2": "{{ ctx | tojson }}\n",
    "attr.j2": "{{- template.set_file_name(ctx.key ~ '.txt') -}}\n{{ ctx.type | tojson }} {{ ctx.brief }}\n",
}


def samples(rng, exp):
    """Telemetry for live check: about half of it fits the registry."""
    out = []
    attrs = list(exp["registry"]["attributes"].values())

    def av(a):
        t = a["type"]
        if rng.random() < 0.2:
            return rng.choice([1, "x", True, 1.5, ["a"], [1]])
        if isinstance(t, dict):
            return rng.choice([m["value"] for m in t["members"]])
        t = t.replace("template[", "").rstrip("]") if t.startswith("template[") else t
        return {"string": "v", "int": 3, "double": 2.5, "boolean": True, "any": "z", "string[]": ["a"], "int[]": [1],
                "double[]": [1.5], "boolean[]": [True]}.get(t, "v")

    def some(l):
        return [{"name": a["key"], "value": av(a)} for a in l if rng.random() < 0.7] + \
            ([{"name": "no.such.thing", "value": 1}] if rng.random() < 0.2 else [])

    for a in attrs:
        if rng.random() < 0.6:
            out.append({"attribute": {"name": a["key"], "value": av(a)}})
    for m in exp["registry"]["metrics"].values():
        out.append({"metric": {"name": m["name"], "instrument": rng.choice([m["instrument"], "gauge"]),
                               "unit": rng.choice([m["unit"], "ms"]),
                               "data_points": [{"attributes": some(m["attributes"]), "value": 1}]}})
    for s in exp["registry"]["spans"].values():
        out.append({"span": {"name": "x", "kind": s["kind"], "attributes": some(s["attributes"])}})
    for e in exp["registry"]["events"].values():
        out.append({"log": {"event_name": e["name"], "attributes": some(e["attributes"])}})
    out.append({"metric": {"name": "no.such.metric", "instrument": "gauge", "unit": "1"}})
    return out


def without_paths(x, *roots):
    s = json.dumps(x, sort_keys=True)
    for r in roots:
        s = s.replace(r, "<R>")
    return json.loads(s)


def tree(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            out[os.path.relpath(p, root)] = open(p, "rb").read()
    return out


def content_of(rng, i):
    """files, reference model of the result (None for v1)."""
    if i % 5 == 4:
        groups = v1.gen(rng)
        return v1.split_files(rng, groups, rng.randint(1, 4)), None, None
    con = v2.gen_deep(rng) if i % 9 == 8 else v2.gen(rng)
    return v2.split_files(rng, con, rng.randint(1, 4)), v2.resolve(con), con


def case(c, i, jobs):
    rng = c.rng("case", i)
    base = c.dir(f"k{i}")
    root = f"{base}/src"
    files, model, con = content_of(rng, i)
    man = reg.manifest("https://example.test/src/1.0.0")
    if rng.random() < 0.5:
        man["stability"] = rng.choice(["stable", "development", "alpha", "beta", "release_candidate"])
    if rng.random() < 0.3:
        man["description"] = v1.text(rng, "m ")
    if rng.random() < 0.3:
        del man["description"]
    reg.write_tree(root, files, rng, manifest=man)
    src = c.run(["registry", "resolve", "-r", root, "--v2", "--format", "json"])
    if src.timed_out or src.rc != 0:
        c.count("sources_not_resolved")
        return
    sdoc = src.json()
    key = f"case{i}"
    uri = "resolved.yaml"
    p = package(c, root, f"{base}/pkg", uri)
    c.saw(stable_hash([files, man]), sample={s: len(x) for s, x in sdoc["registry"].items()})
    if p.rc != 0:
        c.violation(key, "a valid registry cannot be packaged\n" + p.brief(), keep=root)
        return
    got = tree(f"{base}/pkg")
    if sorted(got) != ["manifest.yaml", "resolved.yaml"]:
        c.violation(key, f"the package holds {sorted(got)}", keep=base)
        return
    # the same bytes on every run
    env = {"RAYON_NUM_THREADS": str(rng.choice([1, 2, 8]))}
    p2 = package(c, root, f"{base}/pkg2", uri, env=env)
    if p2.rc != 0 or tree(f"{base}/pkg2") != got:
        c.violation(key + "/again", "packaging again gives other bytes\n" + p2.brief(), keep=base)
    # the content of the package
    rdoc = yaml_load(got["resolved.yaml"].decode())
    mdoc = yaml_load(got["manifest.yaml"].decode())
    if rdoc.get("file_format") != "resolved/2.0" or rdoc.get("schema_url") != man["schema_url"]:
        c.violation(key + "/header", f"{rdoc.get('file_format')} {rdoc.get('schema_url')}", keep=base)
    want = {"file_format": "manifest/2.0", "schema_url": man["schema_url"], "resolved_registry_uri": uri,
            "stability": man.get("stability", "development")}
    if "description" in man:
        want["description"] = man["description"]
    d = diff_json(want, mdoc)
    if d:
        c.violation(key + "/manifest", "\n".join(d), keep=base)
    dec, bad = decode(rdoc)
    o1, q1 = v2.observed(dec)
    o2, q2 = v2.observed(sdoc)
    d = bad + q1 + q2 + diff_json(o2, o1)
    if model is not None:
        d += diff_json(model, o1)
    if d:
        c.violation(key + "/content", "the package differs from its source:\n" + "\n".join(d), keep=base)
        return
    c.count("items_compared", sum(len(x) for part in o1.values() for x in part.values()))
    with c.lock:
        for n, s, f in (("package", "semconv.resolved.v2.json", f"{base}/pkg/resolved.yaml"),
                        ("manifest", "publication-manifest.v2.json", f"{base}/pkg/manifest.yaml")):
            jobs.append([f"{key}/schema-{n}", f"{REPO}/schemas/{s}", f, base])
        mf = f"{base}/materialized.json"
        open(mf, "w").write(src.out)
        jobs.append([f"{key}/schema-materialized", f"{REPO}/schemas/semconv.materialized.v2.json", mf, base])
    consumers(c, rng, i, key, base, root, f"{base}/pkg", sdoc, o2)
    fault(c, rng, i, key, base, root)


def consumers(c, rng, i, key, base, root, pkg, sdoc, obs):
    r = c.run(["registry", "resolve", "-r", pkg, "--v2", "--format", "json"])
    if r.rc != 0:
        c.violation(key + "/resolve", "the package cannot be used as a registry\n" + r.brief(), keep=base)
        return
    d = diff_json(v2.strip_prov(sdoc), v2.strip_prov(r.json()))
    c.count("resolve_compared")
    if d:
        c.violation(key + "/resolve", "resolving the package differs from resolving its source:\n" + "\n".join(d), keep=base)
        return
    which = i % 4
    if which == 0:
        t = f"{base}/templates/t"
        reg.write_tree(t, TEMPLATE)
        outs = []
        for n, x in (("a", root), ("b", pkg)):
            g = c.run(["registry", "generate", "-r", x, "--v2", "-t", f"{base}/templates", "t", f"{base}/gen{n}"])
            outs.append((g, tree(f"{base}/gen{n}")))
        c.count("generate_compared")
        (ga, ta), (gb, tb) = outs
        if ga.rc != gb.rc or sorted(ta) != sorted(tb):
            c.violation(key + "/generate", f"exit {ga.rc}/{gb.rc}, files {sorted(set(ta) ^ set(tb))[:5]}\n" + gb.brief(), keep=base)
        else:
            for f in ta:
                a, b = ta[f], tb[f]
                if f.startswith("all"):
                    a, b = v2.strip_prov(json.loads(a)), v2.strip_prov(json.loads(b))
                if a != b:
                    c.violation(key + "/generate", f"{f} differs", keep=base)
                    break
    elif which == 1:
        sm = samples(rng, obs)
        open(f"{base}/samples.json", "w").write(json.dumps(sm))
        outs = []
        for x in (root, pkg):
            outs.append(c.run(["registry", "live-check", "-r", x, "--v2", "--input-source", f"{base}/samples.json",
                               "--input-format", "json", "--format", "json", "--no-stream"]))
        a, b = outs
        c.count("live_check_compared")
        try:
            d = diff_json(v2.strip_prov(a.json()), v2.strip_prov(b.json()))
        except ValueError:
            d = ["no report"]
        if a.rc != b.rc or d:
            c.violation(key + "/live-check", f"exit {a.rc}/{b.rc}\n" + "\n".join(d) + b.brief(), keep=base)
    elif which == 2:
        # against itself, and against an edited source
        other = f"{base}/other"
        rng2 = c.rng("other", i)
        files, _, _ = content_of(rng2, i)
        reg.write_tree(other, files, rng2, manifest=reg.manifest("https://example.test/src/1.1.0"))
        for head, bl, n in ((root, pkg, "self"), (pkg, root, "self"), (other, None, "new"), (None, other, "old")):
            res = []
            for x in ((head, bl),) if n == "self" else ((head or root, bl or root), (head or pkg, bl or pkg)):
                res.append(c.run(["registry", "diff", "-r", x[0], "--baseline-registry", x[1], "--v2", "--format",
                                  "json", "-o", f"{base}/diff-{len(res)}-{n}"]))
            docs = []
            for k, r in enumerate(res):
                f = f"{base}/diff-{k}-{n}/diff.json"
                docs.append(json.load(open(f)) if os.path.exists(f) else None)
            c.count("diff_compared")
            if n == "self":
                if docs[0] is None or any(v for v in docs[0].get("changes", docs[0].get("registry")).values()):
                    c.violation(key + "/diff", "package and source differ: " + json.dumps(docs[0])[:600] + res[0].brief(), keep=base)
                    break
            elif docs[0] is None or docs[1] is None or res[0].rc != res[1].rc or \
                    canon(docs[0]) != canon(docs[1]):
                c.violation(key + "/diff", f"{n}: exit {[x.rc for x in res]} " + "\n".join(diff_json(docs[0], docs[1])), keep=base)
                break
    else:
        for cmd in (["registry", "check", "--v2"], ["registry", "stats", "--v2"]):
            a, b = (c.run(cmd + ["-r", x, "--diagnostic-format", "json"]) for x in (root, pkg))
            c.count(cmd[1] + "_compared")
            same = a.rc == b.rc
            if cmd[1] == "stats":
                # the heading names the registry's path
                fa, fb = (sorted(l.strip() for l in x.out.splitlines() if "/" not in l and "time" not in l) for x in (a, b))
                same = same and fa == fb
            if not same:
                c.violation(key + "/" + cmd[1], a.brief() + "\n" + b.brief(), keep=base)


def canon(x):
    """A diff as a set of changes: the order in which it lists them says nothing."""
    if isinstance(x, list):
        return sorted((canon(v) for v in x), key=lambda v: json.dumps(v, sort_keys=True))
    if isinstance(x, dict):
        return {k: canon(v) for k, v in x.items()}
    return x


def fault(c, rng, i, key, base, root):
    """A package that cannot be written completely is reported; a wrong registry writes nothing."""
    if i % 6 == 0:
        full = sum(os.path.getsize(f"{base}/pkg/{f}") for f in ("resolved.yaml",))
        limit = rng.choice([1, full // 3, full // 2, full - 1])
        out = f"{base}/pkgf"
        p = subprocess.Popen([c.weaver, "registry", "package", "--v2", "-r", root, "-o", out,
                              "--resolved-registry-uri", "resolved.yaml"], env={"HOME": c.home, "PATH": "/usr/bin:/bin"},
                             stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                             preexec_fn=lambda: (signal.signal(signal.SIGXFSZ, signal.SIG_IGN),
                                                 resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))))
        try:
            _, err = p.communicate(timeout=120)
        except subprocess.TimeoutExpired:
            p.kill()
            c.count("timeouts")
            return
        c.count("write_faults")
        c.saw(stable_hash(["fault", i, limit]))
        done = os.path.exists(f"{out}/resolved.yaml") and os.path.getsize(f"{out}/resolved.yaml") == full
        if p.returncode == 0 and not done:
            c.violation(key + "/write-fault", f"only {limit} of {full} bytes could be written, and the exit status is 0",
                        keep=base)
        elif p.returncode not in (0, 1):
            c.violation(key + "/write-fault", f"exit status {p.returncode}: {err[-500:]!r}", keep=base)
    elif i % 6 == 3:
        bad = f"{base}/bad"
        shutil.copytree(root, bad)
        reg.write_tree(bad, {"zz_bad.yaml": rng.choice([
            {"file_format": "definition/2", "metrics": [{"name": "bad.m", "brief": "b", "stability": "stable", "unit": "1",
                                                         "instrument": "counter", "attributes": [{"ref": "no.such"}]}]},
            "file_format: definition/2\nmetrics: [\n",
            {"groups": [{"id": "span.bad", "type": "span", "span_kind": "client", "brief": "b", "stability": "stable",
                         "extends": "no.such.group"}]}])})
        out = f"{base}/pkgb"
        old = None
        if rng.random() < 0.5:
            shutil.copytree(f"{base}/pkg", out)
            old = tree(out)
        p = package(c, bad, out)
        c.count("failed_packagings")
        c.saw(stable_hash(["bad", i]))
        now = tree(out) if os.path.isdir(out) else None
        if p.rc == 0 or (now or None) != old:
            c.violation(key + "/failed", f"exit {p.rc}, output directory {'changed' if now != old else 'unchanged'}\n" + p.brief(),
                        keep=base)


# ------------------------------------------------------------------ as a dependency
def explicit(x):
    """References to attributes of the dependency set their requirement level (see known_findings.json)."""
    for s, items in x.items():
        if s == "attributes":
            continue
        for g in items:
            for f in ("attributes", "identity", "description"):
                for a in g.get(f, []):
                    if "ref" in a:
                        a.setdefault("requirement_level", "recommended")


def dep_case(c, i, jobs):
    rng = c.rng("dep", i)
    nodes = []
    for j in range(2):
        con = v2.gen(rng, ns=f"n{j}.", size=rng.randint(2, 6), n_attr=rng.randint(3, 7))
        node = {"name": f"reg{j}", "version": "1.0.0", "ns": f"n{j}.", "content": con, "deps": [0] if j else [],
                "patterns": {}, "imported": {f: {} for f in c05.FIELDS}}
        if j:
            c05.enrich(rng, node, [0], nodes)
            explicit(con)
            for f in ("metrics", "events", "spans", "entities"):
                names = [it[NAMES[f]] for it in nodes[0]["content"].get(f, [])]
                pats = [n for n in names if rng.random() < 0.4]
                if pats:
                    node["patterns"][f] = pats
        nodes.append(node)
    base = c.dir(f"d{i}")
    root = c05.write_v2(rng, base, nodes[0], nodes)
    main = c05.write_v2(rng, base, nodes[1], nodes)
    key = f"dep{i}"
    a = c.run(["registry", "resolve", "-r", main, "--v2", "--format", "json"])
    if a.rc != 0:
        c.count("sources_not_resolved")
        return
    p = package(c, root, f"{base}/pkg", f"{base}/pkg/resolved.yaml" if rng.random() < 0.5 else "resolved.yaml")
    c.saw(stable_hash(["dep", i]), sample={"imports": nodes[1]["patterns"]})
    if p.rc != 0:
        c.violation(key, p.brief(), keep=base)
        return
    os.unlink(f"{main}/manifest.yaml")
    reg.write_tree(main, {}, manifest=reg.manifest(c05.url("reg1"), [
        {"schema_url": c05.url("reg0"), "registry_path": f"{base}/pkg"}]))
    b = c.run(["registry", "resolve", "-r", main, "--v2", "--format", "json"])
    c.count("dependencies_compared")
    if b.rc != 0:
        c.violation(key, "a dependent that resolves against the source does not against the package\n" + b.brief(), keep=base)
        return
    x, _ = v2.observed(a.json())
    y, prob = v2.observed(b.json())
    # known differences, each with its own probe below
    own = {it["key"] for it in nodes[1]["content"]["attributes"]}
    for o in (x, y):
        o["registry"]["attributes"] = {k: v for k, v in o["registry"]["attributes"].items() if k in own}
    mine = {f: {v2.strip({"entities": "entity"}.get(f, f[:-1]), r["id"])
                for r in nodes[1]["content"].get({"entities": "entity"}.get(f, f[:-1]) + "_refinements", [])}
            | set(x["registry"][f]) for f in x["refinements"]}
    for o in (x, y):
        for f in o["refinements"]:
            o["refinements"][f] = {k: v for k, v in o["refinements"][f].items() if k in mine[f]}
    d = diff_json(x, y)
    if d:
        c.violation(key, "the package as a dependency differs from its source:\n" + "\n".join(d), keep=base)
    # the dependent can itself be packaged, and holds the same either way
    if i % 3 == 0:
        q = package(c, main, f"{base}/pkgm")
        c.count("dependents_packaged")
        if q.rc != 0:
            c.violation(key + "/package", q.brief(), keep=base)
        else:
            dec, bad = decode(yaml_load(open(f"{base}/pkgm/resolved.yaml").read()))
            o, _ = v2.observed(dec)
            e, _ = v2.observed(b.json())
            d = bad + diff_json(e, o)
            if d:
                c.violation(key + "/package", "\n".join(d), keep=base)
            jobs.append([f"{key}/schema-package", f"{REPO}/schemas/semconv.resolved.v2.json", f"{base}/pkgm/resolved.yaml", base])


def probes(c):
    """Known differences between a source and a packaged dependency, each pinned to one input."""
    base = c.dir("probe")
    reg.write_tree(f"{base}/dep", {"a.yaml": {"file_format": "definition/2", "attributes": [
        {"key": "p.a", "type": "int", "brief": "b", "stability": "stable"},
        {"key": "p.b", "type": "int", "brief": "b", "stability": "stable"}],
        "attribute_groups": [{"id": "p.group", "visibility": "public", "brief": "b", "stability": "stable",
                              "attributes": [{"ref": "p.a"}]}],
        "metrics": [{"name": "p.m", "brief": "b", "stability": "stable", "unit": "1", "instrument": "counter",
                     "requirement_level": "recommended",
                     "attributes": [{"ref": "p.b", "brief": "other", "requirement_level": "required"}]}]}},
        manifest=reg.manifest(c05.url("dep")))
    p = package(c, f"{base}/dep", f"{base}/pkg")
    if p.rc != 0:
        c.violation("probe", p.brief(), keep=base)
        return

    def both(name, content):
        out = []
        for x in ("dep", "pkg"):
            m = f"{base}/{name}-{x}"
            reg.write_tree(m, {"a.yaml": {"file_format": "definition/2", **content}}, manifest=reg.manifest(
                c05.url("main"), [{"schema_url": c05.url("dep"), "registry_path": f"{base}/{x}"}]))
            r = c.run(["registry", "resolve", "-r", m, "--v2", "--format", "json"])
            if r.rc != 0:
                c.violation("probe/" + name, r.brief(), keep=base)
                return None
            out.append(v2.strip_prov(r.json()["registry"]))
        c.saw("probe/" + name)
        return out

    r = both("level", {"metrics": [{"name": "m.x", "brief": "b", "stability": "stable", "unit": "1",
                                    "instrument": "counter", "requirement_level": "recommended",
                                    "attributes": [{"ref": "p.a"}]}]})
    if r:
        a, b = (x["metrics"][0]["attributes"][0]["requirement_level"] for x in r)
        if (a, b) == ("recommended", "required"):
            c.violation("published-dependency-reference-defaults-to-required",
                        "a reference without requirement level is recommended from a source and required from a package")
        elif a != b:
            c.violation("probe/level", f"{a} {b}", keep=base)
    r = both("group", {"imports": {"attribute_groups": ["p.group"]}})
    if r:
        a, b = ([g["id"] for g in x["attribute_groups"]] for x in r)
        if (a, b) == (["p.group"], []):
            c.violation("published-dependency-attribute-group-not-imported",
                        "an imported attribute group is there from a source and missing from a package")
        elif a != b:
            c.violation("probe/group", f"{a} {b}", keep=base)
    r = both("attributes", {"imports": {"metrics": ["p.m"]}})
    if r:
        a, b = ([(g["key"], g["brief"]) for g in x["attributes"]] for x in r)
        if a == [] and b:
            c.violation("published-dependency-import-lists-attributes",
                        f"importing a metric lists {b} among the registry's own attributes only from a package")
        elif a != b:
            c.violation("probe/attributes", f"{a} {b}", keep=base)


def validate(c, jobs):
    if not jobs:
        return
    parts = [jobs[k::8] for k in range(8)]
    keep = {j[0]: j[3] for j in jobs}

    def one(part):
        if not part:
            return
        p = subprocess.run(["python3-vt", os.path.join(VERIF, "tools", "validate.py")],
                           input=json.dumps([j[:3] for j in part]), text=True, capture_output=True, timeout=600)
        if p.returncode != 0:
            raise HarnessError(p.stderr[-2000:])
        c.count("documents_validated", len(part))
        for k, m in json.loads(p.stdout):
            c.violation(k, "does not conform to the published schema: " + m, keep=keep[k])
    c.map(one, parts)


def main(tier, seed):
    c = Check("C06", tier, seed, "exploration",
              "A case is a generated registry (v2 or v1) that is packaged twice; the package is decoded and compared "
              "with the source and the reference model, validated against the published JSON schemas, and given to "
              "resolve, generate, live-check, diff, check and stats beside its source; or a registry and a dependent, "
              "resolved against the source and the package; or a packaging that must fail. Distinct: by content.",
              ["provenance is left out: a package keeps no file names",
               "known differences of packaged dependencies are kept out of generated cases and probed one by one"])
    c.setup()
    jobs = []
    n = c.n(260, 3000)
    c.map(lambda i: case(c, i, jobs), range(n))
    c.map(lambda i: dep_case(c, i, jobs), range(c.n(160, 2000)))
    validate(c, jobs)
    probes(c)
    return c.finish()
