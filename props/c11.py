"""C11: policies see exactly the data of their phase, and their findings decide the outcome.

Generated registries are checked with policies of two kinds: ones that echo their whole input (and, when comparing, the
baseline) back in a finding, and ones that select elements by a random condition. What the first saw is compared with
the files as written and with the resolved registry; what the second report is computed a second time here."""
import collections
import copy
import json
import os

from lib import reg, v1, v2, yamlout
from lib.common import Check, diff_json, stable_hash

LEVELS = ["information", "improvement", "violation"]
STAGES = ["before_resolution", "after_resolution", "comparison_after_resolution"]


# ------------------------------------------------------------------- policies
def conditions(rng, form):
    """-> (rego condition on `a`, predicate): `a` is an attribute as its phase shows it"""
    w = rng.choice(v1.WORDS[:8])
    t = rng.choice(["int", "string", "double", "boolean", "string[]"])
    st = rng.choice(v1.STAB)
    name = {"v1": "name", "v2": "key", "raw": "id"}[form]
    return rng.choice([
        (f'a.type == "{t}"', lambda a: a.get("type") == t),
        (f'a.stability == "{st}"', lambda a: a.get("stability") == st),
        ("a.deprecated", lambda a: a.get("deprecated") not in (None, False)),
        ("not a.deprecated", lambda a: a.get("deprecated") in (None, False)),
        (f'startswith(a.{name}, "{w}")', lambda a: str(a.get(name, "~")).startswith(w)),
        (f'contains(a.{name}, ".")', lambda a: "." in a.get(name, "")),
        ("a.type.members", lambda a: isinstance(a.get("type"), dict)),
        (f'a.{name}', lambda a: name in a),
        ("a.no_such_field", lambda a: False),
    ])


class Policy:
    """One deny rule: text, and the findings it makes of a document."""

    def __init__(self, rng, n, stage, form):
        self.n, self.stage, self.form = n, stage, form
        self.level = rng.choice(LEVELS)
        self.style = rng.choice(["unified", "unified", "signal", "advice", "semconv"])
        cond, self.pred = conditions(rng, "raw" if stage == STAGES[0] else form)
        self.name = {"v1": "name", "v2": "key"}[form] if stage != STAGES[0] else "id"
        self.section = rng.choice(["attributes", "metrics", "events", "spans"]) if form == "v2" else None
        if form == "v2" and self.section == "attributes":
            over = "some a in input.registry.attributes\n    g := {\"gid\": \"-\"}"
        elif form == "v2":
            k = {"metrics": "name", "events": "name", "spans": "type"}[self.section]
            over = f"some h in input.registry.{self.section}\n    some a in h.attributes\n    g := {{\"gid\": h.{k}}}"
        else:
            over = "some h in input.groups\n    some a in h.attributes\n    g := {\"gid\": h.id}"
        extra = ""
        if stage == STAGES[2]:
            root = "data.registry" if form == "v2" else "data"
            if form == "v2":
                extra = f"\n    not in_baseline_{n}(a.{self.name})"
                self.helper = (f"in_baseline_{n}(x) if {{\n    some b in {root}.attributes\n    b.key == x\n}}\n")
            else:
                extra = f"\n    not in_baseline_{n}(a.{self.name})"
                self.helper = (f"in_baseline_{n}(x) if {{\n    some bg in {root}.groups\n    some b in bg.attributes\n"
                               "    b.name == x\n}\n")
        else:
            self.helper = ""
        nm = f"a.{self.name}"
        obj = {
            "unified": f'{{"id": "p{n}", "context": {{"group": g.gid, "attr": {nm}, "n": {n}}}, '
                       f'"message": sprintf("tok{n}<%s|%s>", [g.gid, {nm}]), "level": "{self.level}"}}',
            "signal": f'{{"id": "p{n}", "message": sprintf("tok{n}<%s|%s>", [g.gid, {nm}]), "level": "{self.level}", '
                      f'"signal_type": "metric", "signal_name": {nm}}}',
            "advice": f'{{"type": "advice", "advice_type": "p{n}", "advice_level": "{self.level}", '
                      f'"advice_context": {{"a": {nm}}}, "message": sprintf("tok{n}<%s|%s>", [g.gid, {nm}])}}',
            "semconv": f'{{"type": "semconv_attribute", "id": "p{n}", "category": "c", "group": g.gid, "attr": {nm}}}',
        }[self.style]
        self.text = (f"deny contains f if {{\n    {over}\n    {cond}{extra}\n    f := {obj}\n}}\n" + self.helper)

    def elements(self, doc):
        if self.form == "v2" and self.stage != STAGES[0]:
            if self.section == "attributes":
                return [("-", a) for a in doc["registry"].get("attributes", [])]
            k = {"metrics": "name", "events": "name", "spans": "type"}[self.section]
            return [(h[k], a) for h in doc["registry"].get(self.section, []) for a in h.get("attributes", [])]
        return [(g["id"], a) for g in doc["groups"] for a in g.get("attributes", [])]

    def findings(self, doc, baseline=None):
        base = set()
        if self.stage == STAGES[2]:
            base = {a["key"] for a in baseline["registry"].get("attributes", [])} if self.form == "v2" else \
                {a["name"] for g in baseline["groups"] for a in g.get("attributes", [])}
        out = set()
        for g, a in self.elements(doc):
            if self.name not in a or not self.pred(a) or a[self.name] in base:
                continue
            x = a[self.name]
            m = f"tok{self.n}<{g}|{x}>"
            f = {"unified": {"id": f"p{self.n}", "context": {"group": g, "attr": x, "n": self.n}, "message": m,
                             "level": self.level},
                 "signal": {"id": f"p{self.n}", "message": m, "level": self.level, "signal_type": "metric", "signal_name": x},
                 "advice": {"id": f"p{self.n}", "context": {"a": x}, "message": m, "level": self.level},
                 "semconv": {"id": "semconv_attribute", "level": "violation",
                             "context": {"id": f"p{self.n}", "category": "c", "group": g, "attr": x},
                             "message": f"id=p{self.n}, category=c, group={g}, attr={x}"}}[self.style]
            out.add(json.dumps(f, sort_keys=True))
        return out


def echo(stage, form, level):
    ctx = '{"input": input}'
    if stage == STAGES[2]:
        ctx = '{"input": input, "baseline": ' + ("data.registry" if form == "v2" else "data.groups") + "}"
    return f'deny contains {{"id": "echo", "context": {ctx}, "message": "echo", "level": "{level}"}}\n'


def module(stage, body):
    return f"package {stage}\n\nimport rego.v1\n\n{body}"


# ------------------------------------------------------------------- registry
def make(rng, form, root, tweak=None):
    if form == "v1":
        g = v1.gen(rng) if tweak is None else tweak
        files = v1.split_files(rng, g, rng.randint(1, 6))
    else:
        g = v2.gen(rng) if tweak is None else tweak
        files = v2.split_files(rng, g, rng.randint(1, 5))
    reg.write_tree(root, files, rng)
    return g, files


def older(rng, form, g):
    """A baseline: the same registry with some signals and groups left out."""
    g = copy.deepcopy(g)
    if form == "v1":
        # what others refer to stays: definitions of attributes and extended groups
        ids = {x["id"] for x in g if x["type"] in ("attribute_group", "entity")
               or any("id" in a for a in x.get("attributes", [])) or rng.random() < 0.6}
        while True:
            n = ids | {x["extends"] for x in g if x["id"] in ids and x.get("extends")}
            if n == ids:
                return [x for x in g if x["id"] in ids]
            ids = n
    for s in ("metrics", "events", "spans"):
        used = {r["ref"] for r in g.get(s[:-1] + "_refinements", [])}
        k = {"metrics": "name", "events": "name", "spans": "type"}[s]
        g[s] = [x for x in g.get(s, []) if x[k] in used or rng.random() < 0.6]
        if not g[s]:
            del g[s]
    return g


def written(want, got, path=""):
    """Every field written in a file is seen by a before_resolution rule, with its value."""
    out = []
    if isinstance(want, dict) and isinstance(got, dict):
        for k, v in want.items():
            if k in ("deprecated", "members", "examples", "requirement_level", "body"):
                if k not in got and v is not None:
                    out.append(f"{path}.{k} is not shown")
            elif k not in got:
                if v not in (None, "", [], {}, False):
                    out.append(f"{path}.{k} is not shown")
            else:
                out += written(v, got[k], f"{path}.{k}")
    elif isinstance(want, list) and isinstance(got, list):
        if len(want) != len(got):
            return [f"{path}: {len(want)} elements written, {len(got)} shown"]
        for i, (a, b) in enumerate(zip(want, got)):
            out += written(a, b, f"{path}[{i}]")
    elif want != got or isinstance(want, bool) != isinstance(got, bool):
        out.append(f"{path}: {want!r} written, {got!r} shown")
    return out


def observed(res):
    """-> list of (provenance, finding), other diagnostics"""
    ds = reg.diags(res)
    fs, other = [], []
    for d in ds:
        e = d.get("error") or {}
        if isinstance(e, dict) and e.get("type") == "policy_violation":
            f = {k: v for k, v in e["violation"].items() if v is not None and k != "type"}
            fs.append((e["provenance"], f))
        else:
            other.append(d)
    return fs, other


def place(rng, base, root, mods):
    """Writes the modules where weaver looks for policies; -> command line, and whether any lies in the registry"""
    args = []
    for k, (name, text) in enumerate(mods):
        where = rng.choice(["registry", "registry_sub", "file", "dir", "dir_sub"])
        if where == "registry":
            p = os.path.join(root, name)
        elif where == "registry_sub":
            p = os.path.join(root, *["pol", "deep", "a", "b.c", "d-e", "f"][:rng.randint(1, 6)], name)
        elif where == "file":
            p = os.path.join(base, f"one{k}", name)
            args += ["-p", p]
        else:
            d = os.path.join(base, f"dir{k}")
            p = os.path.join(d, name) if where == "dir" else os.path.join(d, *["x", "y", "z w", "ü", "4", "5"][:rng.randint(1, 6)], name)
            args += ["-p", d]
            os.makedirs(os.path.join(d, ".hidden"), exist_ok=True)
            with open(os.path.join(d, ".hidden", "h.rego"), "w") as f:
                f.write(module("after_resolution", 'deny contains {"id": "hidden", "message": "h", "level": "violation"}\n'))
            with open(os.path.join(d, "notes.txt"), "w") as f:
                f.write("this is no policy {")
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(text)
    return args


def case(c, i):
    rng = c.rng("case", i)
    form = ["v1", "v1", "v2"][i % 3]
    base = c.dir(f"k{i}")
    root, old = os.path.join(base, "reg"), os.path.join(base, "old")
    g, files = make(rng, form, root)
    make(rng, form, old, older(rng, form, g))
    flags = ["--v2"] if form == "v2" else []
    key = f"case{i}"
    cmd = rng.choice(["check", "check", "check", "resolve", "generate"] + (["package"] if form == "v2" else []))
    if cmd == "package":
        yamlout.write(os.path.join(root, "manifest.yaml"), reg.manifest_v2("main"))

    def resolved(r):
        x = c.run(["registry", "resolve", "-r", r, *flags, "--skip-policies", "-f", "json"])
        if x.rc != 0:
            raise RuntimeError("generated registry rejected\n" + x.brief())
        return x.json()
    doc, bdoc = resolved(root), resolved(old)
    mode = rng.choice(["echo", "rules", "rules", "rules", "quiet"])
    compare = rng.random() < 0.6
    pols, mods, echoes = [], [], []
    if mode == "echo":
        for st in STAGES:
            if rng.random() < 0.8:
                echoes.append(st)
                mods.append((f"e_{st}.rego", module(st, echo(st, form, rng.choice(LEVELS)))))
    else:
        for n in range(rng.randint(1, 5)):
            st = rng.choice(STAGES)
            p = Policy(rng, n, st, form)
            if mode == "quiet":
                p.pred = lambda a: False
                p.text = p.text.replace("    f := {", "    1 == 2\n    f := {")
            if pols and rng.random() < 0.3 and pols[-1].stage == st:
                mods[-1] = (mods[-1][0], mods[-1][1] + p.text)
            else:
                mods.append((f"p{n}.rego", module(st, p.text)))
            pols.append(p)
    args = place(rng, base, root, mods)
    if cmd == "generate":
        t = os.path.join(base, "tpl", "x")
        os.makedirs(t, exist_ok=True)
        with open(os.path.join(t, "weaver.yaml"), "w") as f:
            f.write("templates:\n  - template: a.txt.j2\n    filter: .\n    application_mode: single\n")
        with open(os.path.join(t, "a.txt.j2"), "w") as f:
            f.write("done")
        argv = ["registry", "generate", "x", os.path.join(base, "out"), "-t", os.path.join(base, "tpl")]
    elif cmd == "package":
        argv = ["registry", "package", "-o", os.path.join(base, "out"), "--resolved-registry-uri", "resolved.yaml"]
    else:
        argv = ["registry", cmd]
    if cmd == "check" and compare:
        argv += ["--baseline-registry", old]
    argv += ["-r", root, *flags, *args]
    pert = i if i % 4 == 0 else None
    env = {"RAYON_NUM_THREADS": str(rng.choice([1, 2, 8]))}
    fmt = "json" if mode == "echo" or rng.random() < 0.7 else rng.choice(["ansi", "gh_workflow_command"])
    res = c.run(argv + ["--diagnostic-format", fmt], env=env, perturb=pert)
    c.count(f"{cmd}:{form}")
    if res.timed_out:
        c.count("timeouts")
        return
    stages = {STAGES[0]: form == "v1", STAGES[1]: True, STAGES[2]: cmd == "check" and compare}
    if res.panicked:
        c.violation(f"{key}/crash", res.brief(), base)
        return
    if cmd == "package" and os.path.exists(os.path.join(base, "out")) != (res.rc == 0):
        c.violation(f"{key}/package", f"exit status {res.rc}, and a package is {'' if res.rc else 'not '}written\n" + res.brief(), base)
        return
    if mode == "echo":
        fs, other = observed(res)
        want = []
        for st in echoes:
            if stages[st]:
                want += [os.path.join(root, p) for p in files] if st == STAGES[0] else [None]
        got = [f for _, f in fs]
        if len(fs) != len(want) or any(f["id"] != "echo" for f in got):
            c.violation(f"{key}/echo", f"{len(fs)} echoes, expected {len(want)}: {[(p, f['id']) for p, f in fs]}\n" + res.brief(),
                        base)
            return
        bad = []
        seen = set()
        for prov, f in fs:
            x = f["context"]
            if form == "v1" and "file_format" in x["input"] or prov in want:
                seen.add(prov)
                rel = os.path.relpath(prov, root)
                if rel not in files:
                    bad.append(f"echo of {prov}, which is no file of the registry")
                    continue
                bad += [f"{rel}: {e}" for e in written(files[rel].get("groups", []), x["input"].get("groups", []))]
            elif "baseline" in x:
                seen.add("comparison")
                bad += ["comparison input: " + e for e in diff_json(doc, x["input"])]
                bad += ["baseline: " + e for e in diff_json(bdoc["registry" if form == "v2" else "groups"], x["baseline"])]
            else:
                seen.add("after")
                bad += ["after resolution: " + e for e in diff_json(doc, x["input"])]
        if len(seen) != len(want):
            bad.append(f"echoes of {sorted(seen)}")
        if res.rc != (1 if want else 0):
            bad.append(f"exit status {res.rc} with {len(want)} findings")
        c.saw(stable_hash([key, "echo", len(want)]), max(1, len(want)),
              sample={"case": key, "mode": mode, "echoes": len(want), "command": cmd})
        c.count("echoes", len(want))
        if bad:
            c.violation(f"{key}/echo", "\n".join(bad[:10]), base)
        return
    want = collections.Counter()
    toks = collections.Counter()
    for p in pols:
        if not stages[p.stage]:
            continue
        if p.stage == STAGES[0]:
            for path, d in files.items():
                raw = {"groups": d.get("groups", [])}
                for f in p.findings(raw):
                    want[(os.path.join(root, path), f)] += 1
        else:
            for f in p.findings(doc, bdoc):
                want[(root, f)] += 1
    for (_, f), n in want.items():
        toks[json.loads(f)["message"]] += n
    c.count("findings", sum(want.values()))
    for p in pols:
        c.count("rules:" + p.stage)
    exp_rc = 1 if want else 0
    c.saw(stable_hash([key, mode, len(want)]), max(1, len(want)),
          sample={"case": key, "mode": mode, "findings": sum(want.values()), "command": cmd} if want else None)
    if res.rc != exp_rc:
        c.violation(f"{key}/exit", f"exit status {res.rc} with {sum(want.values())} findings\n" + res.brief(), base)
        return
    if fmt == "json":
        fs, other = observed(res)
        got = collections.Counter((p, json.dumps(f, sort_keys=True)) for p, f in fs)
        if got != want:
            c.violation(f"{key}/findings", f"missing {list((want - got).elements())[:4]}\nunexpected "
                        f"{list((got - want).elements())[:4]}\n" + res.brief(), base)
            return
    else:
        flat = " ".join((res.err + res.out).replace("│", " ").replace("%0A", "\n").split())
        for m, n in toks.items():
            m = " ".join(m.split())
            # one report names a finding once; wrapping may break it at spaces and hyphens
            if squeeze(flat).count(squeeze(m)) < n:
                c.violation(f"{key}/{fmt}", f"{m!r} is reported {squeeze(flat).count(squeeze(m))} times instead of {n}\n" +
                            res.brief(), base)
                return
    if i % 3 == 0:                                      # skipped policies have no effect
        res = c.run(argv + ["--skip-policies", "--diagnostic-format", "json"])
        fs, _ = observed(res)
        c.count("skipped")
        if fs or res.rc != 0:
            c.violation(f"{key}/skip", f"{len(fs)} findings although policies are skipped\n" + res.brief(), base)


def squeeze(s):
    return "".join(s.split())


BROKEN = {
    "syntax": ("after_resolution", "deny contains f if {"),
    "syntax_before": ("before_resolution", "deny contains 3 ???"),
    "no_level": ("after_resolution", 'deny contains {"id": "x", "message": "m"}\n'),
    "bad_level": ("after_resolution", 'deny contains {"id": "x", "message": "m", "level": "fatal"}\n'),
    "not_object": ("after_resolution", 'deny contains "text"\n'),
    "not_set": ("after_resolution", 'deny := 3\n'),
    "bad_type": ("before_resolution", 'deny contains {"type": "odd", "id": "x", "message": "m", "level": "violation"}\n'),
    "undefined_function": ("after_resolution", 'deny contains f if {\n    f := no_such_function(1)\n}\n'),
    "missing_file": None,
}


def broken(c, k):
    """A policy that cannot be used makes the command fail, whatever else holds."""
    rng = c.rng("broken", k)
    base = c.dir("b_" + k)
    root = os.path.join(base, "reg")
    make(rng, "v1", root)
    p = os.path.join(base, "p.rego")
    if BROKEN[k]:
        with open(p, "w") as f:
            f.write(module(*BROKEN[k]))
    for cmd in (["check"], ["resolve"]):
        res = c.run(["registry", *cmd, "-r", root, "-p", p, "--diagnostic-format", "json"])
        c.saw(stable_hash(["broken", k, cmd]))
        c.count("unusable_policies")
        if res.rc != 1 or res.panicked:
            c.violation(f"broken/{k}", f"a policy that cannot be used goes unnoticed\n" + res.brief(), base)
        elif not reg.diags(res):
            c.violation(f"broken/{k}", "no diagnostic\n" + res.brief(), base)


def main(tier, seed):
    c = Check("C11", tier, seed, "exploration",
              "A case is a generated registry checked with generated policies; each echo of a document and each finding is "
              "one evaluation. Distinct: by registry, policies and command.",
              ["the resolved registry itself is judged by C02 and C03",
               "a rule that denies an element twice in the same words is one finding: `deny` is a set"])
    c.setup(shim=True)
    c.map(lambda x: case(c, x) if isinstance(x, int) else broken(c, x), list(BROKEN) + list(range(c.n(420, 5000))))
    return c.finish()
