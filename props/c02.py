"""C02: a v1 registry resolves to exactly what its definitions say."""
import copy
import json

import yaml

from lib import reg, v1
from lib.common import Check, diff_json, stable_hash


def expected_lineage(groups, files, root):
    """Group id -> (file, parent, attribute -> source group)."""
    where = {g["id"]: f"{root}/{p}" for p, doc in files.items() for g in doc["groups"]}
    by_id = {g["id"]: g for g in groups}
    def_group = {a["id"]: g["id"] for g in groups for a in g.get("attributes", []) if "id" in a}

    memo = {}

    def specs(gid):
        """attribute -> 'id' | 'ref' as seen by this group."""
        if gid in memo:
            return memo[gid]
        g = by_id[gid]
        out = {}
        if "extends" in g:
            out.update(specs(g["extends"]))
        for a in g.get("attributes", []):
            n = a.get("id") or a["ref"]
            out[n] = "id" if "id" in a or out.get(n) == "id" else "ref"
        memo[gid] = out
        return out

    res = {}
    for g in groups:
        own = {a["id"] for a in g.get("attributes", []) if "id" in a}
        src = {}
        for n, kind in specs(g["id"]).items():
            if n in own:
                continue
            src[n] = def_group[n] if kind == "ref" else g["extends"]
        res[g["id"]] = (where[g["id"]], g.get("extends"), src)
    return res


def main(tier, seed):
    c = Check("C02", tier, seed, "exploration",
              "A case is a generated valid v1 registry spread over 1-6 files, resolved by the real program; every group, "
              "attribute and property is compared with the reference model, and the output formats with each other. "
              "Distinct: by content of the registry. Non-trivial: at least one group references or inherits an "
              "attribute.", ["the reference model in lib/v1.py states the documented semantics"])
    c.setup()

    def case(i):
        rng = c.rng("case", i)
        groups = v1.deep_groups(rng) if i % 3 == 0 else v1.gen(rng)
        files = v1.split_files(rng, groups, rng.randint(1, 6))
        root = c.dir(f"c{i}/reg")
        reg.write_tree(root, {p: v1.surface(rng, d) for p, d in files.items()}, rng)
        r = c.run(["registry", "resolve", "-r", root, "--format", "json"])
        if r.timed_out:
            c.count("timeouts")
            return
        trivial = not any("ref" in a for g in groups for a in g.get("attributes", [])) and \
            not any("extends" in g for g in groups)
        c.saw(None if trivial else stable_hash(groups),
              sample={"groups": [g["id"] for g in groups][:6], "files": sorted(files)})
        key = f"case{i}"
        if r.rc != 0:
            c.violation(key, "a valid registry is rejected\n" + r.brief(), keep=root)
            return
        doc = r.json()
        got, order = {}, []
        lin = {}
        for g in doc["groups"]:
            lin[g["id"]] = g.pop("lineage", None) or {}
            if g["id"] in got:
                c.violation(key, f"group {g['id']} appears twice", keep=root)
            got[g["id"]] = g
            order.append(g["id"])
        exp = v1.resolve(groups)
        d = diff_json(exp, got)
        if d:
            c.violation(key, "the resolved registry differs from its definitions:\n" + "\n".join(d), keep=root)
            return
        c.count("attributes_compared", sum(len(g.get("attributes", [])) for g in got.values()))
        c.count("groups_compared", len(got))
        bad = []
        for gid, (path, parent, src) in expected_lineage(groups, files, root).items():
            l = lin[gid]
            if (l.get("provenance") or {}).get("path") != path:
                bad.append(f"{gid}: provenance {l.get('provenance')} instead of {path}")
            if l.get("extends_group") != parent:
                bad.append(f"{gid}: extends_group {l.get('extends_group')} instead of {parent}")
            gs = {n: a.get("source_group") for n, a in (l.get("attributes") or {}).items()}
            if gs != src:
                bad.append(f"{gid}: attribute sources {gs} instead of {src}")
        if bad:
            c.violation(key + "/lineage", "\n".join(bad[:6]), keep=root)
        # the formats carry the same document
        if i % 4 == 0:
            out = f"{c.work}/c{i}/out"
            ry = c.run(["registry", "resolve", "-r", root, "--format", "yaml"])
            rj = c.run(["registry", "resolve", "-r", root, "--format", "json", "-o", out])
            rl = c.run(["registry", "resolve", "-r", root, "--format", "jsonl"])
            full = r.json()
            try:
                docs = {"yaml": yaml_load(ry.out), "file": json.load(open(out)), "jsonl": json.loads(rl.out)}
            except Exception as e:
                c.violation(key + "/format", f"unreadable output: {e}", keep=root)
                return
            c.count("formats_compared", 3)
            if len([x for x in rl.out.splitlines() if x.strip()]) != 1:
                c.violation(key + "/format", "jsonl output is not one line", keep=root)
            for f, dd in docs.items():
                d = diff_json(full, dd)
                if d:
                    c.violation(key + "/format", f"{f} output differs from json:\n" + "\n".join(d), keep=root)

    c.map(case, range(c.n(1200, 12000)))
    return c.finish()


class Loader(yaml.CSafeLoader if hasattr(yaml, "CSafeLoader") else yaml.SafeLoader):
    pass


# YAML 1.2 core: only true/false are booleans, only these are numbers or null
Loader.yaml_implicit_resolvers = {}
import re as _re
for tag, rx, first in [
    ("tag:yaml.org,2002:bool", r"^(?:true|True|TRUE|false|False|FALSE)$", list("tTfF")),
    ("tag:yaml.org,2002:int", r"^[-+]?[0-9]+$", list("-+0123456789")),
    ("tag:yaml.org,2002:float", r"^[-+]?(\.[0-9]+|[0-9]+(\.[0-9]*)?)([eE][-+]?[0-9]+)?$", list("-+.0123456789")),
    ("tag:yaml.org,2002:null", r"^(?:~|null|Null|NULL|)$", ["~", "n", "N", ""]),
]:
    Loader.add_implicit_resolver(tag, _re.compile(rx), first)


def yaml_load(s):
    return yaml.load(s, Loader)
