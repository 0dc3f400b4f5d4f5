"""C19: settings take effect by the documented precedence, from the right file.

The oracle is an equivalence: whatever mixture of sources the settings come from, the command has to behave exactly (exit
status, both streams, every file it writes) as when the settings in effect (option, else project file, else default) are all
given as options and there is no project file. Every setting of every command goes through the full matrix of sources, then
random mixtures follow, with the file in varying places and spellings and with decoys around it. Apart from that, each
setting is seen to have an effect at all, settings without an option are compared with what they stand for, and broken files
have to be errors."""
import http.client
import itertools
import json
import os
import re
import shutil
import signal
import socket
import subprocess
import threading
import time

from lib import otlp, reg
from lib.common import Check, stable_hash

BOOLS = [True, False]


class S:
    def __init__(self, toml, cli, values, default=None, eq=True):
        self.toml, self.cli, self.values, self.default, self.eq = toml, cli, values, default, eq
        self.name = ".".join(toml)

    def option(self, v, rng=None):
        if self.cli.startswith("@"):
            return [str(v)]
        if isinstance(v, bool):
            if not v:
                return [self.cli + "=false"]
            return [self.cli] if rng and rng.random() < 0.5 else [self.cli + "=true"]
        if isinstance(v, list):
            return [x for e in v for x in (self.cli, str(e))]
        if rng and self.cli.startswith("--") and rng.random() < 0.3:
            return [f"{self.cli}={v}"]
        return [self.cli, str(v)]


# -------------------------------------------------------------------- fixtures
POLICY = '''package after_resolution
import rego.v1
names contains n if { some g in input.groups; n := g.id }
names contains n if { some m in input.registry.metrics; n := m.name }
view := "v1" if input.groups
else := "v2"
deny contains f if {
  ns := sort([n | names[n]])
  f := {"id": "%s", "context": {"names": ns, "view": view}, "message": sprintf("policy %s saw %%s %%v", [view, ns]), "level": "violation"}
}
'''
ADVICE = '''package live_check_advice
import rego.v1
deny contains {"type": "advice", "advice_type": "own_%s", "advice_level": "improvement", "message": "own",
  "advice_context": {"x": object.get(data, "extra", "none"), "pre": object.get(data, "marked", "none")}} if {
  input.sample.attribute.name
}
'''


def attr(i, t="string"):
    return {"id": i, "type": t, "brief": "An attribute.", "stability": "stable", "examples": ["x"]}


def metric(n, a):
    return {"id": f"metric.{n}", "type": "metric", "metric_name": n, "brief": "A metric.", "instrument": "counter", "unit": "1",
            "stability": "stable", "attributes": [{"ref": a, "requirement_level": "recommended"}]}


def w(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def fixtures(c):
    F = c.dir("fix")
    reg.write_tree(f"{F}/dep", {"d.yaml": {"groups": [
        {"id": "registry.dep", "type": "attribute_group", "brief": "Dep.", "attributes": [attr("dep.used"), attr("dep.unused")]},
        metric("dep.metric", "dep.unused")]}}, manifest=reg.manifest("https://example.test/dep/1.0.0"))
    reg.write_tree(f"{F}/ext", {"link.yaml": {"groups": [
        {"id": "registry.link", "type": "attribute_group", "brief": "Linked.", "attributes": [attr("link.a")]},
        metric("link.metric", "link.a")]}})
    for k, extra in (("A", 1), ("B", 2)):
        l = k.lower()
        ns = [f"mark.{l}{i}" for i in range(extra)]
        reg.write_tree(f"{F}/reg{k}", {"m.yaml": {"groups": [
            {"id": f"registry.{l}", "type": "attribute_group", "brief": "Mark.", "attributes": [attr(n) for n in ns]}]
            + [metric(f"m.{l}{i}_x", n) for i, n in enumerate(ns)]
            + [{"id": f"span.{l}", "type": "span", "span_kind": "client", "brief": "Span.", "stability": "stable",
                "attributes": [{"ref": "dep.used"}]}]}},
            manifest=reg.manifest(f"https://example.test/r{l}/1.0.0",
                                  deps=[{"schema_url": "https://example.test/dep/1.0.0", "registry_path": f"{F}/dep"}]))
        os.symlink(f"{F}/ext", f"{F}/reg{k}/linked")
        w(f"{F}/pol{k}/p.rego", POLICY % (f"pol{k}", k))
        w(f"{F}/bp{k}/p.rego", 'package before_resolution\nimport rego.v1\ndeny contains {"id": "bp%s", "message": "before %s", "level": "violation"}\n' % (k, k))
        w(f"{F}/diag{k}/mine/weaver.yaml", "templates:\n  - template: errors.txt.j2\n    filter: .\n    application_mode: single\n")
        w(f"{F}/diag{k}/mine/errors.txt.j2", f"diag{k} " + "{% for e in ctx %}[{{ e.diagnostic.message }}]{% endfor %}\n")
        for t in ("t1", "t2"):
            w(f"{F}/tmpl{k}/{t}/weaver.yaml", "acronyms: [Http, API]\ntext_maps:\n  m: {one: eins, two: zwei}\n  n: {one: un}\n"
              "templates:\n  - template: out.txt.j2\n    filter: .\n    application_mode: single\n")
            w(f"{F}/tmpl{k}/{t}/out.txt.j2", f"tmpl{k} {t} " + '{{ "http api sdk" | acronym }} {{ ["http","api","SDK","x"] | map("acronym") | list }} '
              '{{ "one" | map_text("m") }} {{ "two" | map_text("m") }} {{ "one" | map_text("n") }} {{ "three" | map_text("m", "-") }}\n{{ ctx | tojson }}\n')
            w(f"{F}/tmpl{k}/{t}/snippet.md.j2", f"snip{k} {t} " + "{% if q is defined %}{{ q }}{% else %}{{ group.id or group.name }}{% endif %} {{ attribute_registry_base_url }} {{ 'http' | acronym }}\n")
        for kind, tn in (("stats", "stats"), ("diff", "diff"), ("live", "live_check")):
            w(f"{F}/{kind}{k}/mine/{tn}.txt.j2", f"{kind}{k} " + "{{ ctx | tojson }}\n")
            w(f"{F}/{kind}{k}/mine/weaver.yaml", f"templates:\n  - template: {tn}.txt.j2\n    filter: .\n    application_mode: single\n")
        w(f"{F}/adv{k}/a.rego", ADVICE % k)
        w(f"{F}/data{k}/extra.json", json.dumps({"from": k}))
        w(f"{F}/pre{k}.jq", '{"marked": "%s"}' % k)
        w(f"{F}/in{k}.json", json.dumps([{"attribute": {"name": f"mark.{l}0", "value": "x"}},
                                         {"attribute": {"name": "Not Good", "value": 3}},
                                         {"attribute": {"name": f"only.{l}", "value": "x"}}]))
        w(f"{F}/in{k}.txt", f"mark.{l}0=x\nonly.text.{l}=3\n")
    reg.write_tree(f"{F}/broken", {"m.yaml": {"groups": [{"id": "x", "type": "span", "span_kind": "client", "brief": "X.",
                                                         "stability": "stable", "attributes": [{"ref": "no.such"}]}]}})
    reg.write_tree(f"{F}/base", {"m.yaml": {"groups": [
        {"id": "registry.z", "type": "attribute_group", "brief": "Mark.", "attributes": [attr("mark.z")]}]}},
        manifest=reg.manifest("https://example.test/rz/0.9.0"))
    return F


# -------------------------------------------------------------------- commands
class Cmd:
    def __init__(self, name, fixed, settings, base, prepare=None, stdin=None, observe=None, global_config=True):
        self.name, self.fixed, self.settings, self.base = name, fixed, settings, base
        self.prepare, self.stdin, self.observe = prepare, stdin, observe
        self.global_config = global_config
        self.words = ["."] if name == "search" else []


def commands(F):
    rg = [S(("registry", "path"), "-r", [f"{F}/regA", f"{F}/regB"]),
          S(("registry", "follow_symlinks"), "--follow-symlinks", BOOLS, False),
          S(("registry", "include_unreferenced"), "--include-unreferenced", BOOLS, False),
          S(("registry", "v2"), "--v2", BOOLS, False)]
    po = [S(("policy", "paths"), "-p", [[f"{F}/polA"], [f"{F}/polB"], [f"{F}/polA", f"{F}/polB/p.rego"]]),
          S(("policy", "skip"), "--skip-policies", BOOLS, False),
          S(("policy", "display_policy_coverage"), "--display-policy-coverage", BOOLS, False)]
    bp = [S(("policy", "paths"), "-p", [[f"{F}/bpA"], [f"{F}/bpB"]])]
    di = [S(("diagnostics", "format"), "--diagnostic-format", ["json", "mine", "gh_workflow_command"], "ansi"),
          S(("diagnostics", "template"), "--diagnostic-template", [f"{F}/diagA", f"{F}/diagB"], "diagnostic_templates"),
          S(("diagnostics", "stdout"), "--diagnostic-stdout", BOOLS, False, eq=False)]
    b = {"registry.path": f"{F}/regA"}
    pol = {**b, "policy.paths": [f"{F}/polA"]}
    dg = {"diagnostics.format": "mine", "diagnostics.template": f"{F}/diagA"}

    def local_templates(kind, tn):
        def prep(cwd):
            w(f"{cwd}/{kind}_templates/mine/{tn}.txt.j2", kind + " default {{ ctx | tojson }}\n")
            w(f"{cwd}/{kind}_templates/mine/weaver.yaml", f"templates:\n  - template: {tn}.txt.j2\n    filter: .\n    application_mode: single\n")
        return prep

    def gen_prep(cwd):
        shutil.copytree(f"{F}/tmplA", f"{cwd}/templates")
        for t in ("t1", "t2"):
            w(f"{cwd}/templates/{t}/out.txt.j2", "default templates " + t + " {{ ctx | tojson }}\n")
            w(f"{cwd}/templates/{t}/snippet.md.j2", "default snippet " + t + "\n")

    def md_prep(cwd):
        gen_prep(cwd)
        for d in ("mdA", "mdB"):
            for l in ("a", "b"):
                w(f"{cwd}/{d}/{l}.md", f"# Doc {d}\n\n<!-- semconv metric.m.{l}0_x -->\nold\n<!-- endsemconv -->\n")
            w(f"{cwd}/mdQ/q.md", "<!-- weaver {q: [((.groups // []) + (.registry.metrics // []))[] | .id // .name]} -->\nold\n<!-- endweaver -->\n")

    rpc = "".join(json.dumps(m) + "\n" for m in [
        {"jsonrpc": "2.0", "id": 1, "method": "initialize", "params": {"protocolVersion": "2024-11-05", "capabilities": {},
                                                                      "clientInfo": {"name": "t", "version": "1"}}},
        {"jsonrpc": "2.0", "method": "notifications/initialized"}] + [
        {"jsonrpc": "2.0", "id": 2 + i, "method": "tools/call", "params": {"name": n, "arguments": a}} for i, (n, a) in enumerate([
            ("browse_namespace", {}), ("browse_namespace", {"prefix": "m"}), ("browse_namespace", {"prefix": "mark"}),
            ("search", {"query": "mark"}), ("get_metric", {"name": "link.metric"}), ("get_metric", {"name": "dep.metric"}),
            ("live_check", {"samples": [{"attribute": {"name": "mark.a0", "value": "x"}}]})])])

    def rpc_seen(res):
        out = {}
        for line in res.out.splitlines():
            m = json.loads(line)
            out[m.get("id")] = m.get("result", m.get("error"))
        return {"rc": res.rc, "answers": sorted((str(k), json.dumps(settle(v), sort_keys=True)) for k, v in out.items()),
                "err": clean(res.err) if res.rc else ""}

    def emitted(res):
        return {"rc": res.rc, "names": sorted(set(re.findall(r"(?:m|mark|dep|link)\.[a-z]+(?:\d_x|\d|etric)?", res.out))),
                "diag": clean(res.err)}
    live_base = {**b, "live-check.input_source": f"{F}/inA.json", "live-check.format": "json", "live-check.no_stream": True}
    return [
        Cmd("resolve", ["-f", "json", "-o", "res.json"], rg + po + di, {**pol, **dg}),
        Cmd("check", [], rg + po + di, {**pol, **dg}),
        Cmd("generate", [], rg + po + di + [
            S(("generate", "target"), "@0", ["t1", "t2"], ""), S(("generate", "output"), "@1", ["outA", "outB"], "output"),
            S(("generate", "templates"), "-t", [f"{F}/tmplA", f"{F}/tmplB"], "templates")],
            {**pol, "generate.target": "t1"}, gen_prep, global_config=False),
        Cmd("stats", [], rg + di + [
            S(("stats", "format"), "--format", ["json", "mine", "text"], "text"),
            S(("stats", "templates"), "--templates", [f"{F}/statsA", f"{F}/statsB"], "stats_templates"),
            S(("stats", "output"), "-o", ["outA", "outB"])],
            {**b, "stats.format": "mine"}, local_templates("stats", "stats")),
        Cmd("diff", ["--baseline-registry", f"{F}/base"], rg + di + [
            S(("diff", "format"), "--format", ["json", "mine", "markdown"], "ansi"),
            S(("diff", "templates"), "--templates", [f"{F}/diffA", f"{F}/diffB"], "diff_templates"),
            S(("diff", "output"), "-o", ["outA", "outB"])],
            {**b, "diff.format": "mine"}, local_templates("diff", "diff")),
        Cmd("update-markdown", [], rg + di + [
            S(("update-markdown", "markdown_dir"), "@0", ["mdA", "mdB"]),
            S(("update-markdown", "dry_run"), "--dry-run", BOOLS, False),
            S(("update-markdown", "attribute_registry_base_url"), "--attribute-registry-base-url", ["/ua", "/ub"]),
            S(("update-markdown", "templates"), "-t", [f"{F}/tmplA", f"{F}/tmplB"], "templates"),
            S(("update-markdown", "target"), "--target", ["t1", "t2"])],
            {**b, "update-markdown.markdown_dir": "mdA", "update-markdown.target": "t1",
             "update-markdown.templates": f"{F}/tmplA"}, md_prep),
        Cmd("package", [], rg + po + di + [
            S(("package", "output"), "-o", ["outA", "outB"], "output"),
            S(("package", "resolved_registry_uri"), "--resolved-registry-uri", ["resolved.yaml", "https://example.test/r.yaml"])],
            {**b, "registry.v2": True, "package.resolved_registry_uri": "resolved.yaml"}),
        Cmd("live-check", [], rg + po + di + [
            S(("live-check", "input_source"), "--input-source", [f"{F}/inA.json", f"{F}/inB.json", f"{F}/inA.txt", "stdin"]),
            S(("live-check", "input_format"), "--input-format", ["json", "text"], "json"),
            S(("live-check", "format"), "--format", ["json", "mine", "yaml"], "ansi"),
            S(("live-check", "templates"), "--templates", [f"{F}/liveA", f"{F}/liveB"], "live_check_templates"),
            S(("live-check", "no_stream"), "--no-stream", BOOLS, False, eq=False),
            S(("live-check", "no_stats"), "--no-stats", BOOLS, False, eq=False),
            S(("live-check", "fail_on"), "--fail-on", ["none", "information", "improvement"], "violation"),
            S(("live-check", "output"), "-o", ["outA", "none"]),
            S(("live-check", "advice_policies"), "--advice-policies", [f"{F}/advA", f"{F}/advB"]),
            S(("live-check", "advice_data"), "--advice-data", [f"{F}/dataA/*.json", f"{F}/dataB/*.json"]),
            S(("live-check", "advice_preprocessor"), "--advice-preprocessor", [f"{F}/preA.jq", f"{F}/preB.jq"])],
            live_base, local_templates("live_check", "live_check"),
            stdin=json.dumps([{"attribute": {"name": "from.stdin", "value": "x"}}])),
        Cmd("mcp", [], rg + [
            S(("mcp", "advice_policies"), "--advice-policies", [f"{F}/advA", f"{F}/advB"]),
            S(("mcp", "advice_data"), "--advice-data", [f"{F}/dataA/*.json", f"{F}/dataB/*.json"]),
            S(("mcp", "advice_preprocessor"), "--advice-preprocessor", [f"{F}/preA.jq", f"{F}/preB.jq"]),
            S(("mcp", "namespace_separator"), "--namespace-separator", ["_", "a"], ".")],
            {**b, "mcp.advice_policies": f"{F}/advA", "registry.v2": True}, stdin=rpc, observe=rpc_seen),
        Cmd("emit", [], rg + bp + po[1:2] + di + [S(("emit", "stdout"), "--stdout", [True], None, eq=False)],
            {**b, "emit.stdout": True}, observe=emitted),
        Cmd("search", [], rg + di, {**b, **dg}),
    ]


# ------------------------------------------------------------------ observation
NOISE = re.compile(r"(?m)^.*(?:Found config: |Total execution time|` (?:loaded|resolved) ).*\n?|\(\d[\d.]*s\)|\d+\.\d+m?s")


def clean(t):
    return re.sub(r"\n\s*\n+", "\n", NOISE.sub("", t))


def settle(x):
    if isinstance(x, dict):
        return {k: (sorted((settle(y) for y in v), key=lambda y: json.dumps(y, sort_keys=True))
                    if k in ("all_advice", "findings", "attribute_findings") else settle(v)) for k, v in x.items()}
    if isinstance(x, list):
        return [settle(y) for y in x]
    if isinstance(x, str) and x[:1] in "{[":
        try:
            return settle(json.loads(x))
        except ValueError:
            return x
    return x


def files(root):
    out = {}
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in fs:
            p = os.path.join(d, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, root)] = h.read().decode("utf-8", "replace")
    return out


class Place:
    """A directory for one run: <base>/p/q/r with r as the working directory."""

    def __init__(self, c, base, cmd, depth=3):
        self.base = base
        self.home = f"{base}/home"
        self.cwd = f"{base}/" + "/".join("pqrs"[:depth])
        os.makedirs(self.cwd)
        os.makedirs(self.home)
        if cmd.prepare:
            cmd.prepare(self.cwd)
        self.before = files(self.cwd)

    def run(self, c, cmd, args):
        res = c.run((["serve"] if cmd.name == "serve" else ["registry", cmd.name]) + args, cwd=self.cwd, env={"HOME": self.home},
                    stdin=cmd.stdin, timeout=100)
        if res.timed_out:
            raise RuntimeError("timeout: " + res.brief(300))
        after = files(self.cwd)
        diff = {k: v for k, v in after.items() if self.before.get(k) != v}
        gone = sorted(set(self.before) - set(after))
        if cmd.observe:
            seen = cmd.observe(res)
        else:
            seen = {"rc": res.rc, "out": sort_report(clean(res.out)), "err": clean(res.err)}
        seen["files"] = {k: sort_report(v) for k, v in diff.items() if not k.startswith(".weaver.toml")}
        seen["gone"] = gone
        return json.loads(json.dumps(seen).replace(self.base, "$BASE")), res


def sort_report(t):
    """A JSON report with the findings of each element in any order."""
    if t[:1] in "{[":
        try:
            return json.dumps(settle(json.loads(t)), sort_keys=True)
        except ValueError:
            pass
    return t


# ------------------------------------------------------------------------ TOML
def tv(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, (list, tuple)):
        return "[" + ", ".join(tv(x) for x in v) + "]"
    if isinstance(v, int):
        return str(v)
    return json.dumps(v)


def key(k, rng=None):
    return json.dumps(k) if not re.fullmatch(r"[A-Za-z0-9_-]+", k) or (rng and rng.random() < 0.2) else k


def toml(settings, rng=None):
    """{dotted path tuple: value} as TOML, spelled in one of its ways"""
    by = {}
    for path, v in settings.items():
        by.setdefault(path[:-1], []).append((path[-1], v))
    secs = list(by.items())
    if rng:
        rng.shuffle(secs)
    top, rest = [], []
    for path, kv in secs:
        if rng:
            rng.shuffle(kv)
        style = rng.choice(["table", "table", "dotted", "inline"]) if rng else "table"
        head = ".".join(key(p, rng) for p in path)
        if style == "dotted":
            top += [f"{head}.{key(k, rng)} = {tv(v)}" for k, v in kv]
        elif style == "inline":
            top.append(f"{head} = {{ " + ", ".join(f"{key(k, rng)} = {tv(v)}" for k, v in kv) + " }")
        else:
            rest.append(f"[{head}]" + (" # comment" if rng and rng.random() < 0.2 else ""))
            rest += [f"{key(k, rng)} = {tv(v)}" for k, v in kv]
    return "\n".join(top + rest) + "\n"


# ------------------------------------------------------------------ equivalence
class Engine:
    def __init__(self, c, F):
        self.c, self.F = c, F
        self.cmds = commands(F)
        self.refs = {}
        self.lock = threading.Lock()
        self.serial = itertools.count()

    def fresh(self):
        return self.c.dir(f"w{next(self.serial):06d}")

    def options(self, cmd, chosen, rng=None):
        """options (in any order) for {name: value}; positionals last, in order"""
        opts, pos = [], []
        for s in cmd.settings:
            if s.name in chosen and chosen[s.name] is not None:
                (pos if s.cli.startswith("@") else opts).append((s, s.option(chosen[s.name], rng)))
        if rng:
            rng.shuffle(opts)
        pos.sort(key=lambda x: x[0].cli)
        flat = [x for _, o in opts for x in o]
        p = [x for _, o in pos for x in o]
        bare = any(not s.eq and o == [s.cli] for s, o in opts)      # such an option may take the word after it for its value
        p += cmd.words
        return (p + flat) if bare or rng and rng.random() < 0.3 else (flat + p)

    def reference(self, cmd, eff):
        k = (cmd.name, stable_hash(eff))
        with self.lock:
            ev = self.refs.get(k)
            mine = ev is None
            if mine:
                ev = self.refs[k] = {"done": threading.Event()}
        if not mine:
            ev["done"].wait(200)
            if "seen" not in ev:
                raise RuntimeError("no reference")
            return ev["seen"], ev["args"]
        try:
            base = self.fresh()
            args = self.options(cmd, eff) + cmd.fixed + ["--quiet"]
            ev["seen"], _ = Place(self.c, base, cmd).run(self.c, cmd, args)
            ev["args"] = args
            shutil.rmtree(base, ignore_errors=True)
        finally:
            ev["done"].set()
        return ev["seen"], ev["args"]

    def compare(self, cmd, conf, cli, label, rng, place=None):
        """conf, cli: {setting name: value}. Runs the mixture and the reference."""
        c = self.c
        if "generate.output" in cli and "generate.target" not in cli:
            cli = {**cli, "generate.target": cli.get("generate.target") or conf.get("generate.target") or "t1"}
        eff = {}
        for s in cmd.settings:
            v = cli.get(s.name, conf.get(s.name, s.default))
            if v is not None:
                eff[s.name] = v
        want, ref_args = self.reference(cmd, eff)
        base = self.fresh()
        pl = Place(c, base, cmd)
        mode = place or "cwd"
        text = toml({tuple(k.split(".", 1)) if not k.startswith("live-check.") else ("live-check", k[11:]): v
                     for k, v in conf.items()}, rng if mode != "plain" else None)
        decoy = toml(self.decoys(cmd, conf, cli))
        extra = []
        here, up, upup = f"{pl.cwd}/.weaver.toml", f"{base}/p/q/.weaver.toml", f"{base}/p/.weaver.toml"
        if mode in ("cwd", "plain"):
            w(here, text)
            if rng.random() < 0.5:
                w(up, decoy)
        elif mode == "parent":
            w(up, text)
            w(upup, decoy)
        elif mode == "grandparent":
            w(upup, text)
            w(f"{base}/.weaver.toml", decoy)
            if rng.random() < 0.5:
                os.makedirs(up if rng.random() < 0.5 else here)       # a directory is not a configuration file
        elif mode == "explicit":
            w(f"{base}/elsewhere/conf.toml", text)
            w(here, decoy)
            extra = ["--config", rng.choice([f"{base}/elsewhere/conf.toml", "../../../elsewhere/conf.toml"])]
        elif mode == "none":
            assert not conf
        if mode in ("cwd", "plain", "parent", "grandparent") and rng.random() < 0.3:
            f = {"parent": up, "grandparent": upup}.get(mode, here)       # a symbolic link to a file is a file
            os.rename(f, f"{base}/linked.toml")
            os.symlink(rng.choice([f"{base}/linked.toml", os.path.relpath(f"{base}/linked.toml", os.path.dirname(f))]), f)
        w(f"{pl.home}/.weaver.toml", decoy)                            # the home directory is not looked at
        w(f"{base}/p/q/sibling/.weaver.toml", decoy)
        pl.before = files(pl.cwd)
        args = self.options(cmd, cli, rng) + cmd.fixed
        args = args + ["--quiet"] + extra if rng.random() < 0.5 else extra + ["--quiet"] + args
        got, res = pl.run(c, cmd, args)
        c.saw(f"{cmd.name}/{label}/{stable_hash(got)}", sample=f"{cmd.name} {label} {mode}: config {sorted(conf)} options {sorted(cli)}")
        c.count(f"{cmd.name}")
        if got != want:
            d = []
            for k in sorted(set(got) | set(want)):
                if got.get(k) != want.get(k):
                    d.append(f"{k}: as options only: {json.dumps(want.get(k))[:700]}\n   from the sources: {json.dumps(got.get(k))[:700]}")
            c.violation(f"{cmd.name}/{label}", f"{mode}\n.weaver.toml:\n{text}\noptions: {args}\nreference options: {ref_args}\n"
                        + "\n".join(d), keep=base)
        shutil.rmtree(base, ignore_errors=True)

    def decoys(self, cmd, conf, cli):
        """a file that sets everything the mixture leaves to the default or sets otherwise"""
        out = {}
        for s in cmd.settings:
            eff = cli.get(s.name, conf.get(s.name, s.default))
            vs = [v for v in s.values if v != eff]
            if vs and s.name not in ("live-check.input_source",):
                out[("live-check", s.name[11:]) if s.name.startswith("live-check.") else tuple(s.name.split(".", 1))] = vs[0]
        return out

    def base_for(self, cmd, s):
        b = dict(cmd.base)
        F = self.F
        if s.name in ("diagnostics.template", "diagnostics.stdout", "diagnostics.format") and cmd.name in (
                "stats", "diff", "update-markdown", "search", "live-check", "generate", "package", "emit"):
            b["diagnostics.format"] = "mine"
            b["diagnostics.template"] = f"{F}/diagA"
            if cmd.name in ("stats", "diff", "update-markdown", "search"):
                b["registry.path"] = f"{F}/broken"
            else:
                b["policy.paths"] = [f"{F}/polA"]
        if s.name.startswith("policy."):
            b["policy.paths"] = [f"{F}/polA"]
        if s.name in ("live-check.advice_data", "live-check.advice_preprocessor"):
            b["live-check.advice_policies"] = f"{F}/advA"
        if s.name == "live-check.templates":
            b["live-check.format"] = "mine"
        if s.name == "live-check.input_format":
            b["live-check.input_source"] = f"{F}/inA.txt"
        if cmd.name == "live-check" and s.name in ("registry.include_unreferenced", "registry.follow_symlinks", "registry.v2"):
            b["policy.paths"] = [f"{F}/polA"]
        if s.name == "update-markdown.dry_run":
            b["update-markdown.markdown_dir"] = "mdA"
        if cmd.name == "update-markdown" and s.name in ("registry.include_unreferenced", "registry.follow_symlinks"):
            b["update-markdown.markdown_dir"] = "mdQ"
            b["registry.v2"] = True
        if cmd.name == "emit" and "policy.paths" in b:
            b["policy.paths"] = [f"{F}/bpA"]
        b.pop(s.name, None)
        return b


def matrix(c, e, item):
    """One setting, all the sources; the rest given as options."""
    ci, si = item
    cmd = e.cmds[ci]
    s = cmd.settings[si]
    rng = c.rng("matrix", cmd.name, s.name)
    b = e.base_for(cmd, s)
    seen = {}
    vals = s.values[:3] if c.thorough else s.values if len(s.values) <= 2 else rng.sample(s.values, 2)
    for v in s.values:
        seen[json.dumps(v)], _ = e.reference(cmd, {x.name: (b.get(x.name) if x.name != s.name else v) if x.name == s.name or x.name in b else x.default
                                                for x in cmd.settings if (x.name == s.name or x.name in b or x.default is not None)})
    distinct = {stable_hash(x) for x in seen.values()}
    c.saw(f"{cmd.name}/{s.name}/effect")
    if len(s.values) > 1 and len(distinct) < (2 if (cmd.name, s.name) not in NO_EFFECT else 1):
        c.violation(f"{cmd.name}/{s.name}/effect", f"options {s.option(s.values[0])} and {s.option(s.values[1])} (with {b}) make no difference:\n"
                    + json.dumps(list(seen.values())[0])[:1500])
    opts = [None] + list(vals)
    for cv, kv in itertools.product(opts, opts):
        if cv is None and kv is None and s.name in ("registry.path", "live-check.input_source"):
            continue
        conf = {} if cv is None else {s.name: cv}
        cli = dict(b)
        if kv is not None:
            cli[s.name] = kv
        if s.name == "generate.target" and kv is None:
            cli.pop("generate.output", None)
        e.compare(cmd, conf, cli, s.name, rng, "plain")


NO_EFFECT = {("emit", "registry.v2")}


def mixture(c, e, i):
    rng = c.rng("mix", i)
    cmd = e.cmds[i % len(e.cmds)]
    conf, cli = {}, {}
    for s in cmd.settings:
        p = rng.random()
        need = s.name in cmd.base
        vals = [v for v in s.values if not (s.name == "live-check.input_source" and v == "stdin" and rng.random() < 0.5)]
        if rng.random() < (0.85 if need else 0.45):
            conf[s.name] = rng.choice(vals)
        if rng.random() < 0.35 or (need and s.name not in conf):
            cli[s.name] = rng.choice(vals)
    modes = ["cwd", "cwd", "parent", "grandparent"] + (["explicit", "explicit"] if cmd.global_config else [])
    e.compare(cmd, conf, cli, f"mix{i}", rng, rng.choice(modes))


# -------------------------------------------------------------- configuration only
def only(c, e, i):
    """Settings without an option, compared with what they stand for."""
    F, rng = e.F, c.rng("only", i)
    base = e.fresh()
    kind = ["acronyms", "text_maps", "overrides", "filters"][i % 4]
    if kind in ("acronyms", "text_maps"):
        words = ["http", "HTTP", "Http", "api", "sdk", "iOS", "IOS", "x"]

        def pick():
            # one spelling per word and list: which of two would win is nowhere documented
            return list({x.lower(): x for x in rng.sample(words, rng.randint(0, 5))}.values())
        ya, ta = pick(), pick()
        ym = {m: {k: f"y{m}{k}" for k in rng.sample(["one", "two", "three"], rng.randint(0, 3))} for m in rng.sample("mno", rng.randint(0, 3))}
        tm = {m: {k: f"t{m}{k}" for k in rng.sample(["one", "two", "three"], rng.randint(0, 3))} for m in rng.sample("mno", rng.randint(0, 3))}
        merged = {**ym, **tm}
        acr = {}
        for a in ya + ta:
            acr[a.lower()] = a
        yaml = {"templates": [{"template": "out.txt.j2", "filter": ".", "application_mode": "single"}]}
        probe = {w_: w_ for w_ in sorted({x.lower() for x in words} | {"HTTP", "Api"})}
        body = "{% for w in " + json.dumps(sorted(probe)) + " %}{{ w }}={{ w | acronym }};{% endfor %}\n"
        maps = sorted(merged)
        body += "".join("{% for w in ['one', 'two', 'three'] %}" + m + ".{{ w }}={{ w | map_text('" + m + "', '-') }};{% endfor %}\n" for m in maps)
        for name, y in (("t", {"acronyms": ya, "text_maps": ym}),):
            w(f"{base}/templates/{name}/weaver.yaml", json.dumps({**yaml, **{k: v for k, v in y.items() if v or rng.random() < 0.5}}))
            w(f"{base}/templates/{name}/out.txt.j2", body)
        conf = {}
        lines = []
        if ta or rng.random() < 0.3:
            lines.append("[template]\nacronyms = " + tv(ta))
        for m, kv in tm.items():
            lines.append(f"[template.text_maps.{m}]\n" + "".join(f"{k} = {tv(v)}\n" for k, v in kv.items()))
        w(f"{base}/.weaver.toml", "\n".join(lines) + "\n")
        res = c.run(["registry", "generate", "-r", f"{F}/regA", "-t", f"{base}/templates", "t", "out", "--quiet"], cwd=base)
        want = "".join(f"{x}={acr.get(x.lower(), x)};" for x in sorted(probe)) + "\n"
        want += "".join("".join(f"{m}.{k}={merged[m].get(k, '-')};" for k in ("one", "two", "three")) + "\n" for m in maps)
        got = open(f"{base}/out/out.txt").read() if os.path.exists(f"{base}/out/out.txt") else None
        c.saw(f"template/{stable_hash(want)}")
        if res.rc != 0 or got is None or got.rstrip("\n") != want.rstrip("\n"):
            c.violation(f"template/{kind}{i}", f"weaver.yaml acronyms {ya} maps {ym}; .weaver.toml {lines}\nwant {want}\ngot {got}\n" + res.brief(600), keep=base)
    elif kind == "overrides":
        # the dependency's schema URL redirected in the project file == the manifest naming the other place
        for n in ("one", "two"):
            reg.write_tree(f"{base}/dep_{n}", {"d.yaml": {"groups": [
                {"id": "registry.dep", "type": "attribute_group", "brief": n, "attributes": [attr("dep.used"), attr(f"dep.{n}")]}]}},
                manifest=reg.manifest("https://example.test/dep/1.0.0"))
        body = {"m.yaml": {"groups": [{"id": "g", "type": "span", "span_kind": "client", "brief": "G.", "stability": "stable",
                                       "attributes": [{"ref": "dep.used"}]}]}}
        deps = [{"schema_url": "https://example.test/dep/1.0.0"}]
        if rng.random() < 0.7:
            deps[0]["registry_path"] = f"{base}/dep_one"
        reg.write_tree(f"{base}/reg", body, manifest=reg.manifest("https://example.test/r/1.0.0", deps=deps))
        reg.write_tree(f"{base}/ref", body, manifest=reg.manifest("https://example.test/r/1.0.0", deps=[
            {"schema_url": "https://example.test/dep/1.0.0", "registry_path": f"{base}/dep_two"}]))
        sec = rng.choice(["resolve.schema_url_overrides", "resolve.overrides", "resolve.dependency_overrides", "resolution.schema_url_overrides"])
        w(f"{base}/c/.weaver.toml", f'[{sec}]\n"https://example.test/other/1.0.0" = "/nowhere"\n"https://example.test/dep/1.0.0" = {tv(base + "/dep_two")}\n')
        os.makedirs(f"{base}/d")
        v = ["--v2"] if rng.random() < 0.3 else []
        outs = []
        for cwd, r in ((f"{base}/c", "reg"), (f"{base}/d", "ref")):
            outs.append(c.run(["registry", "resolve", "-r", f"{base}/{r}", "-f", "json", "--include-unreferenced", "--quiet", *v], cwd=cwd))
        a, b = (re.sub(r"/(reg|ref)\b", "/R", o.out) for o in outs)
        c.saw(f"override/{sec}/{bool(v)}/{'registry_path' in deps[0]}")
        if outs[0].rc != outs[1].rc or a != b or "dep.two" not in a:
            c.violation(f"override/{sec}", f"manifest {deps}\n{outs[0].brief(800)}\n---\n{outs[1].brief(800)}", keep=base)
    else:
        # filters and level overrides of the project file stay in force when options change the rest
        w(f"{base}/in.json", open(f"{F}/inA.json").read())
        lv = rng.choice(["violation", "improvement", "information"])
        text = f'[["live-check".finding_level_overrides]]\nids = ["missing_attribute"]\nlevel = "{lv}"\n' if rng.random() < 0.7 else ""
        text += '[["live-check".finding_filters]]\nexclude = ["invalid_format", "missing_namespace"]\n' if rng.random() < 0.7 else ""
        full = f'[live-check]\nformat = "yaml"\nno_stats = true\ninput_source = "{base}/in.json"\nno_stream = true\n' + text
        w(f"{base}/a/.weaver.toml", full)
        w(f"{base}/b/.weaver.toml", text)
        o1 = c.run(["registry", "live-check", "-r", f"{F}/regA", "--format", "json", "--no-stats=false", "--quiet"], cwd=f"{base}/a")
        o2 = c.run(["registry", "live-check", "-r", f"{F}/regA", "--format", "json", "--no-stream", "--input-source", f"{base}/in.json", "--quiet"], cwd=f"{base}/b")
        c.saw(f"filters/{stable_hash(text)}")
        if o1.rc != o2.rc or sort_report(o1.out) != sort_report(o2.out):
            c.violation("live-check/filters", f"{full}\n{o1.brief(800)}\n---\n{o2.brief(800)}", keep=base)
    shutil.rmtree(base, ignore_errors=True)


# ---------------------------------------------------------------------- broken files
BROKEN_SHARED = ['[registry\npath = "x"\n', 'not toml at all', '[registry]\npath = 3\n', '[registry]\nv2 = "yes"\n',
                 '[registry]\nfollow_symlinks = 1\n', '[registry]\ninclude_unreferenced = []\n', 'registry = "x"\n',
                 '[policy]\npaths = "x"\n', '[policy]\nskip = "no"\n', '[policy]\npaths = [1]\n',
                 '[policy]\ndisplay_policy_coverage = 0\n', '[diagnostics]\nformat = true\n', '[diagnostics]\nstdout = "x"\n',
                 '[diagnostics]\ntemplate = []\n', '[resolve]\nschema_url_overrides = []\n', '[resolve.schema_url_overrides]\n"a" = 3\n',
                 '[template]\nacronyms = "x"\n', '[template]\ntext_maps = 3\n', 'auth = 3\n', '[[auth]]\ntoken = "x"\n',
                 '[registry]\nv2 = true\nv2 = false\n', '[registry]\nv2 = true\n[registry]\n', '\xff\xfe', '"a\n']
BROKEN_CMD = {
    "generate": ["target = 3", "templates = []", "output = true"],
    "stats": ["format = 3", "output = []"],
    "diff": ["format = 3", "templates = true"],
    "update-markdown": ['dry_run = "x"', "target = 3", "markdown_dir = []"],
    "package": ["output = 3", "resolved_registry_uri = true"],
    "live-check": ['fail_on = "fatal"', "no_stats = 3", "finding_filters = 3", 'finding_filters = [{ exclude = "x" }]',
                   'finding_level_overrides = [{ ids = ["x"] }]', 'otlp = { grpc_port = "x" }', "otlp = { grpc_port = 70000 }",
                   "otlp = { inactivity_timeout = -1 }", 'emit = { otlp_logs = 1 }', "input_source = 1",
                   'finding_filters = [{ min_level = "huge" }]'],
    "mcp": ["namespace_separator = 3", "advice_policies = []"],
    "emit": ["stdout = 3", "endpoint = 4"],
    "infer": ["grpc_port = -1", 'admin_port = "x"', "output = 3", "inactivity_timeout = 1.5"],
    "serve": ["bind = 3", "cors_origins = []"],
}


def broken(c, e, item):
    """A project file that cannot be understood is an error, and the command does nothing."""
    name, text = item
    F = e.F
    cmd = next((x for x in e.cmds if x.name == name), None)
    base = e.fresh()
    if cmd is None:
        cmd = Cmd(name, [], [], {})
    pl = Place(c, base, cmd)
    b = dict(cmd.base)
    args = e.options(cmd, b) + cmd.fixed
    rng = c.rng("broken", name, text)
    data = text.encode("latin-1") if "\xff" in text else text.encode()
    p = rng.choice([f"{pl.cwd}/.weaver.toml", f"{base}/p/.weaver.toml", "explicit"])
    if p == "explicit" and not cmd.global_config:
        p = f"{pl.cwd}/.weaver.toml"
    if p == "explicit":
        p = f"{base}/x.toml"
        args += ["--config", p]
    with open(p, "wb") as f:
        f.write(data)
    if rng.random() < 0.2:
        os.rename(p, f"{base}/linked.toml")
        os.symlink(f"{base}/linked.toml", p)
    pl.before = files(pl.cwd)
    if name == "serve":
        args += ["-r", f"{F}/regA"]
    res = c.run((["serve"] if name == "serve" else ["registry", name]) + args, cwd=pl.cwd, env={"HOME": pl.home},
                stdin=cmd.stdin, timeout=20)
    after = files(pl.cwd)
    c.saw(f"broken/{name}/{stable_hash(text)}")
    c.count("broken_files")
    if res.timed_out and name not in ("infer", "serve", "live-check"):
        raise RuntimeError("timeout " + res.brief(300))
    if res.timed_out or res.rc != 1 or after != pl.before or res.panicked:
        c.violation(f"broken/{name}/{text.strip()[:60]}", f"{text}\nfiles changed: {after != pl.before}\n" + res.brief(900), keep=base)
    shutil.rmtree(base, ignore_errors=True)


def missing(c, e, _):
    """An explicitly named file that is not there is an error."""
    F = e.F
    for cmd in e.cmds:
        if not cmd.global_config:
            continue
        base = e.fresh()
        pl = Place(c, base, cmd)
        w(f"{pl.cwd}/.weaver.toml", "")
        pl.before = files(pl.cwd)
        for p in (f"{base}/none.toml", base):
            res = c.run(["registry", cmd.name, *e.options(cmd, cmd.base), *cmd.fixed, "--config", p], cwd=pl.cwd,
                        env={"HOME": pl.home}, stdin=cmd.stdin, timeout=60)
            c.saw(f"missing/{cmd.name}/{p == base}")
            if res.rc != 1 or files(pl.cwd) != pl.before:
                c.violation(f"missing/{cmd.name}", res.brief(900), keep=base)
        shutil.rmtree(base, ignore_errors=True)


# ---------------------------------------------------------------------- servers
def listening(port, host="127.0.0.1"):
    s = socket.socket()
    s.settimeout(2)
    try:
        s.connect((host, port))
        return True
    except OSError:
        return False
    finally:
        s.close()


def ports(n):
    ss = [socket.socket() for _ in range(n)]
    for s in ss:
        s.bind(("127.0.0.1", 0))
    out = [s.getsockname()[1] for s in ss]
    for s in ss:
        s.close()
    return out


def start(c, args, cwd):
    return subprocess.Popen([c.weaver] + args, cwd=cwd, env={"HOME": c.home, "PATH": "/usr/bin:/bin", "RUST_BACKTRACE": "0"},
                            stdin=subprocess.DEVNULL, stdout=open(f"{cwd}/o.txt", "w"), stderr=open(f"{cwd}/e.txt", "w"),
                            start_new_session=True)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def up(p, port, want=True, timeout=60):
    end = time.time() + timeout
    while time.time() < end:
        if listening(port):
            return True
        if p.poll() is not None:
            return False
        time.sleep(0.05)
    return False


def listeners(c, e, i):
    """Ports, address, output and inactivity time of the OTLP listeners."""
    rng = c.rng("listen", i)
    name = ["live-check", "infer"][i % 2]
    base = e.fresh()
    F = e.F
    ga, gb, aa, ab = ports(4)
    conf, cli, eff = {}, {}, {}
    sec = ("live-check", "otlp") if name == "live-check" else ("infer",)
    pre = "--otlp-" if name == "live-check" else "--"
    how = [("conf", "cli", "both")[rng.randrange(3)] for _ in range(4)]

    def put(k, flag, good, bad, h):
        if h in ("conf", "both"):
            conf[sec + (k,)] = good if h == "conf" else bad
        if h in ("cli", "both"):
            cli[flag] = good
    put("grpc_port", pre + "grpc-port", ga, gb, how[0])
    put("admin_port", "--admin-port", aa, ab, how[1])
    conf[sec + ("grpc_address",)] = "127.0.0.1"
    if rng.random() < 0.5:
        cli[pre + "grpc-address"] = "127.0.0.1"
        conf[sec + ("grpc_address",)] = "127.0.0.2"
    addr = True
    short = rng.random() < 0.5
    put("inactivity_timeout", "--inactivity-timeout", 2 if short else 600, 600 if short else 2, how[2])
    out = f"{base}/out"
    osec = ("live-check", "output") if name == "live-check" else ("infer", "output")
    if how[3] in ("conf", "both"):
        conf[osec] = out if how[3] == "conf" else f"{base}/wrong"
    if how[3] in ("cli", "both"):
        cli["-o"] = out
    args = ["registry", name]
    if name == "live-check":
        args += ["-r", f"{F}/regA", "--format", "json"]
    for k, v in cli.items():
        args += [k, str(v)]
    w(f"{base}/.weaver.toml", toml(conf))
    p = start(c, args, base)
    what = f"listen/{name}/{'-'.join(how)}/{short}"
    try:
        if not up(p, ga):
            if p.poll() is None:
                raise RuntimeError(f"no listener on {ga} within a minute, or the wrong one: " + open(f"{base}/e.txt").read()[-500:]) \
                    if not listening(gb) else AssertionError
            c.violation(what, f"{conf} {cli}: not listening at {ga}; exit {p.poll()}\n" + open(f"{base}/e.txt").read()[-800:], keep=base)
            return
        c.saw(what)
        bad = []
        if listening(gb):
            bad.append("listens at the overridden gRPC port")
        if listening(ga, "127.0.0.2"):
            bad.append("listens at an address it was not given")
        if short:
            try:
                p.wait(120)
            except subprocess.TimeoutExpired:
                bad.append("still there two minutes after an inactivity time of 2 s")
        else:
            if not up(p, aa):
                bad.append("admin port not listening")
            if listening(ab):
                bad.append("overridden admin port listening")
            time.sleep(4)
            if p.poll() is not None:
                bad.append("stopped before its inactivity time")
            else:
                try:
                    h = http.client.HTTPConnection("127.0.0.1", aa, timeout=30)
                    h.request("POST" if name == "live-check" else "POST", "/stop")
                    h.getresponse().read()
                except (OSError, http.client.HTTPException):
                    pass
                try:
                    p.wait(60)
                except subprocess.TimeoutExpired:
                    bad.append("does not stop")
        if os.path.exists(f"{base}/wrong"):
            bad.append("writes to the overridden output")
        if name == "live-check" and not os.path.exists(out):
            bad.append("no output at the place asked for")
        if bad:
            c.violation(what, f"{conf} {cli}: {bad}\n" + open(f"{base}/e.txt").read()[-800:], keep=base)
    finally:
        kill(p)
        shutil.rmtree(base, ignore_errors=True)


def servers(c, e, i):
    rng = c.rng("serve", i)
    base = e.fresh()
    F = e.F
    pa, pb = ports(2)
    bind = rng.choice(["conf", "cli", "both"])
    cors = rng.choice(["conf", "cli", "both", "none"])
    path = rng.choice(["conf", "cli", "both"])
    conf, args = {}, ["serve", "--v2", "--quiet"]
    if bind != "cli":
        conf[("serve", "bind")] = f"127.0.0.1:{pa if bind == 'conf' else pb}"
    if bind != "conf":
        args += ["--bind", f"127.0.0.1:{pa}"]
    if cors in ("conf", "both"):
        conf[("serve", "cors_origins")] = "http://good.test" if cors == "conf" else "http://bad.test"
    if cors in ("cli", "both"):
        args += ["--cors-origins", "http://good.test"]
    if path != "cli":
        conf[("registry", "path")] = f"{F}/reg" + ("A" if path == "conf" else "B")
    if path != "conf":
        args += ["-r", f"{F}/regA"]
    w(f"{base}/.weaver.toml", toml(conf))
    p = start(c, args, base)
    what = f"serve/{bind}-{cors}-{path}"
    try:
        if not up(p, pa):
            if p.poll() is None and not listening(pb):
                raise RuntimeError("server did not start")
            c.violation(what, f"{conf} {args}: not listening at the address in effect\n" + open(f"{base}/e.txt").read()[-800:], keep=base)
            return
        bad = []
        if listening(pb):
            bad.append("listens at the overridden address")
        got = {}
        for o in ("http://good.test", "http://bad.test"):
            h = http.client.HTTPConnection("127.0.0.1", pa, timeout=30)
            h.request("GET", "/api/v1/registry/attribute/mark.a0", headers={"Origin": o})
            r = h.getresponse()
            body = r.read()
            got[o] = r.getheader("access-control-allow-origin")
            if r.status != 200 or b"mark.a0" not in body:
                bad.append(f"attribute of the registry in effect: {r.status} {body[:200]}")
            h.close()
        ok = "http://good.test" if cors != "none" else None
        if got["http://good.test"] != ok or got["http://bad.test"] in ("http://bad.test", "*"):
            bad.append(f"origins: {got}")
        c.saw(what)
        if bad:
            c.violation(what, f"{conf} {args}: {bad}", keep=base)
    finally:
        kill(p)
        shutil.rmtree(base, ignore_errors=True)


def endpoints(c, e, i):
    """Where `emit` and the findings of live check are sent."""
    rng = c.rng("endpoint", i)
    base = e.fresh()
    F = e.F
    name = ["emit", "live-check"][i % 2]
    hits = {"good": 0, "bad": 0}
    socks = {}
    stop = threading.Event()

    def accept(k, s):
        s.settimeout(0.2)
        while not stop.is_set():
            try:
                x, _ = s.accept()
                hits[k] += 1
                x.close()
            except socket.timeout:
                pass
            except OSError:
                return
    for k in hits:
        s = socket.socket()
        s.bind(("127.0.0.1", 0))
        s.listen(50)
        socks[k] = s
        threading.Thread(target=accept, args=(k, s), daemon=True).start()
    url = {k: f"http://127.0.0.1:{s.getsockname()[1]}" for k, s in socks.items()}
    how = rng.choice(["conf", "cli", "both"])
    args = ["registry", name, "-r", f"{F}/regA", "--quiet"]
    conf = {}
    if name == "emit":
        k, f = ("emit", "endpoint"), "--endpoint"
        on = rng.choice(["none", "conf", "cli"])
        if on == "conf":
            conf[("emit", "stdout")] = False
        if on == "cli":
            conf[("emit", "stdout")] = True
            args += ["--stdout=false"]
        want = True
    else:
        k, f = ("live-check", "emit", "otlp_logs_endpoint"), "--otlp-logs-endpoint"
        args += ["--input-source", f"{F}/inA.json", "--format", "json"]
        on = rng.choice(["conf", "cli", "off", "none"])
        if on == "conf":
            conf[("live-check", "emit", "otlp_logs")] = True
        elif on == "cli":
            conf[("live-check", "emit", "otlp_logs")] = False
            args += ["--emit-otlp-logs"]
        elif on == "off":
            conf[("live-check", "emit", "otlp_logs")] = True
            args += ["--emit-otlp-logs=false"]
        want = on in ("conf", "cli")
    if how != "cli":
        conf[k] = url["good" if how == "conf" else "bad"]
    if how != "conf":
        args += [f, url["good"]]
    w(f"{base}/.weaver.toml", toml(conf))
    try:
        res = c.run(args, cwd=base, timeout=200)
    finally:
        stop.set()
        for s in socks.values():
            s.close()
    if res.timed_out:
        raise RuntimeError("timeout")
    c.saw(f"endpoint/{name}/{how}/{on}")
    if hits["bad"] or bool(hits["good"]) != want:
        c.violation(f"endpoint/{name}/{how}/{on}", f"{conf} {args}: connections {hits}, expected {'some' if want else 'none'} at the endpoint in effect\n" + res.brief(600), keep=base)
    shutil.rmtree(base, ignore_errors=True)


def main(tier, seed):
    c = Check("C19", tier, seed, "exploration",
              "A judgement compares a command whose settings come from a mixture of project file and options with the same "
              "command given the settings in effect as options only, or with the documented effect of a setting that has no option; "
              "distinct: command, setting or mixture, and observed behaviour.",
              ["relative paths in a project file are taken from the working directory, as for options",
               "the built-in default registry is not fetched: there is no network"])
    c.setup()
    F = fixtures(c)
    e = Engine(c, F)
    work = [(matrix, (ci, si)) for ci, cmd in enumerate(e.cmds) for si in range(len(cmd.settings))]
    work += [(mixture, i) for i in range(c.n(330, 6000))]
    work += [(only, i) for i in range(c.n(60, 800))]
    cheap = [x.name for x in e.cmds] + ["serve", "infer"]
    rng = c.rng("broken")
    for t in BROKEN_SHARED:
        for n in (cheap if c.thorough else rng.sample(cheap, 2)):
            work.append((broken, (n, t)))
    for n, l in BROKEN_CMD.items():
        for t in l:
            work.append((broken, (n, f"[{n}]\n{t}\n")))
    work += [(missing, 0)]
    work += [(listeners, i) for i in range(c.n(10, 60))]
    work += [(servers, i) for i in range(c.n(10, 60))]
    work += [(endpoints, i) for i in range(c.n(10, 60))]
    order = sorted(range(len(work)), key=lambda i: (work[i][0] not in (listeners, endpoints), i))
    c.map(lambda i: work[i][0](c, e, work[i][1]), order)
    return c.finish()
