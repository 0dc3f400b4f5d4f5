"""C22: the same inputs give the same bytes in every report and artifact.

A generated project (registry, baseline, dependency, templates, policies, Markdown, telemetry) is put into fresh folders,
and every command that writes something is run on each copy, with other thread counts, injected delays, shuffled
directory listings and (as always) other hash seeds. A checker compares the standard output and the files written byte
for byte, the exit status, and the set of diagnostics. `registry infer` is given the same telemetry several times."""
import json
import os
import random
import re
import shutil

from lib import live, otlp, reg
from lib.common import Check, stable_hash
from props import c16, c17
from props.c12 import tree

RICH = '''{%- macro dump(x) %}{{ x }}{% endmacro -%}
ctx {{ ctx }}
{%- for k in ctx %} {{ k }}{% endfor %}
params {{ params }}{% for k, v in params | items %} {{ k }}={{ v }}{% endfor %}
debug {{ ctx | length }} {{ params | tojson }}
{%- if ctx is mapping %}
{%- for k, v in ctx | items %}
{{ k }}: {{ v | tojson }}
{%- endfor %}
{%- endif %}
'''
ADVICE = '''package live_check_advice
import rego.v1
deny contains make(l, a, b) if {
  some l in ["information", "improvement"]
  some a in ["z", "y", "x"]
  b := input.sample[k].name
  contains(b, ".")
}
make(l, a, b) := {"id": sprintf("%s_%s", [a, l]), "context": {"attribute_key": b, "zz": a, "aa": l}, "message": sprintf("%s %s", [a, b]), "level": l}
'''


def commands(files, form):
    """every command that writes something: (label, args)"""
    v = ["--v2"] if form in ("v2", "live2") else []
    out = []
    for f in ("json", "yaml", "jsonl"):
        out.append((f"resolve-{f}", ["resolve", "-r", "reg", *v, "-f", f]))
    for f in ("text", "json", "yaml", "jsonl"):
        out.append((f"stats-{f}", ["stats", "-r", "reg", *v, "--format", f]))
    for f in ("json", "yaml", "markdown", "ansi", "ansi-stats"):
        out.append((f"diff-{f}", ["diff", "-r", "reg", "--baseline-registry", "base", *v, "--format", f]))
    out.append(("diff-files", ["diff", "-r", "reg", "--baseline-registry", "base", *v, "--format", "markdown", "-o", "out"]))
    for f in ("json", "yaml", "jsonl", "ansi"):
        out.append((f"live-{f}", ["live-check", "-r", "reg", *v, "--input-source", "in.json", "--input-format", "json", "--format", f, "--no-stream"]))
    out.append(("live-stream", ["live-check", "-r", "reg", *v, "--input-source", "in.json", "--input-format", "json", "--format", "ansi"]))
    out.append(("live-advice", ["live-check", "-r", "reg", *v, "--input-source", "in.json", "--format", "json", "--no-stream", "--advice-policies", "adv",
                                "-o", "out"]))
    out.append(("live-text", ["live-check", "-r", "reg", *v, "--input-source", "in.txt", "--input-format", "text", "--format", "json", "--no-stream"]))
    out.append(("generate", ["generate", "-r", "reg", *v, "-t", "rich", "all", "out", "-D", "zed=1", "-D", "alpha={b: 1, a: 2}", "-D", "mid=[x]"]))
    out.append(("update-markdown", ["update-markdown", "-r", "reg", *v, "-t", "snip", "--target", "md", "md"]))
    out.append(("package", ["package", "--v2", "-r", "reg", "-o", "out", "--resolved-registry-uri", "resolved.yaml"]))
    out.append(("check", ["check", "-r", "reg", *v, "-p", "pol", "--baseline-registry", "base"]))
    out.append(("search", ["search", "-r", "reg", *v, "a"]))
    return out


SCHEMAS = ["resolved-registry", "semconv-group", "semconv-definition-v2", "resolved-registry-v2", "materialized-registry-v2", "diff", "diff-v2",
           "publication-manifest-v2", "definition-manifest-v2", "policy-finding", "weaver-config"]


def observe(c, w, args, j, perturb):
    env = {"RAYON_NUM_THREADS": str([1, 8, 3, 16, 2][j % 5])}
    first = args[0]
    if j % 2:                                               # the same files by absolute paths
        args = [os.path.join(w, a) if a in ("reg", "base", "rich", "snip", "adv", "pol", "in.json", "in.txt") and args[k] not in
                ("-o", "generate") else a for k, a in enumerate(args[1:])]
        args = [first, *args]
    r = c.run(["registry", *args, "--diagnostic-format", "json", "--quiet"] if args[0] != "json-schema" else ["registry", *args, "--quiet"],
              cwd=w, env=env, perturb=perturb)
    if r.timed_out:
        raise RuntimeError("timeout: " + r.brief())

    def norm(s):
        return s.replace(w + "/", "").replace(w, "<W>")
    ds = c17.read_json(norm(r.err))
    for d in ds:
        if isinstance(d, dict) and isinstance(d.get("diagnostic"), dict):
            d["diagnostic"].pop("ansi_message", None)       # wrapped, perhaps within a path
    ds = sorted(json.dumps(d, sort_keys=True) for d in ds)
    words = sorted(reg.WORD.findall(" ".join(ds)))
    return {"exit status": r.rc, "standard output": norm(r.out), "diagnostics": words, "files": {n: x.replace(w.encode() + b"/", b"") if isinstance(x, bytes) else x for n, x in tree(w).items()}}, r


def first_difference(a, b):
    a, b = (x.decode("utf-8", "replace") if isinstance(x, bytes) else x for x in (a, b))
    for n, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f"at {n}: …{a[max(0, n - 120):n + 160]!r}\n   other: …{b[max(0, n - 120):n + 160]!r}"
    return f"one ends earlier: {len(a)} / {len(b)}"


def compare(c, key, label, ref, got, argv, keep):
    for what in ("exit status", "diagnostics", "standard output"):
        if ref[what] != got[what]:
            d = first_difference(ref[what], got[what]) if what == "standard output" else \
                f"{str(ref[what])[:700]}\n   other: {str(got[what])[:700]}"
            c.violation(f"{label}/{what}", f"{key}: two runs on the same inputs differ in the {what}\n{argv}\n{d}", keep)
            return False
    a, b = ref["files"], got["files"]
    if set(a) != set(b):
        c.violation(f"{label}/files", f"{key}: two runs on the same inputs write other files\n{argv}\n{sorted(set(a) ^ set(b))[:20]}", keep)
        return False
    for n in sorted(a):
        if a[n] != b[n]:
            c.violation(f"{label}/files", f"{key}: two runs on the same inputs differ in {n}\n{argv}\n{first_difference(a[n], b[n])}", keep)
            return False
    return True


def project(c, rng, i):
    files, form = c17.project(c, rng, i)
    files.pop(".weaver.toml", None)
    files.setdefault("reg/manifest.yaml", reg.manifest("https://example.test/r/1.1.0"))
    files.setdefault("base/manifest.yaml", reg.manifest("https://example.test/r/1.0.0"))
    if form in ("live1", "live2"):
        r = live.gen(rng)
        if form == "live1":
            live.drop_refinements(r)
        tmp = c.dir(f"tel{i}")
        for n in [n for n in files if n.startswith(("reg/", "pkg/")) and not n.endswith("manifest.yaml")]:
            del files[n]
        reg.write_tree(tmp + "/reg", (live.as_v1 if form == "live1" else live.as_v2)(rng, r))
        files.update(c17.tree_files(tmp + "/reg", "reg/"))
        tel = live.Telemetry(rng, r)
        files["in.json"] = [tel.sample() for _ in range(rng.randint(4, 30))]
        shutil.rmtree(tmp)
    files["md/a.md"] = c17.markdown(rng, files, form)
    files["rich/all/a.j2"] = RICH
    names = ["zeta", "b", "Alpha", "m_1", "k9", "yy", "c3"]
    files["rich/all/weaver.yaml"] = {
        "text_maps": {n: {m: n + m for m in rng.sample(names, 4)} for n in rng.sample(names, 3)},
        "params": {n: {m: 1 for m in rng.sample(names, 3)} for n in rng.sample(names, 5)},
        "templates": [{"template": "a.j2", "filter": ".", "application_mode": "single", "file_name": "whole.txt"},
                      {"template": "a.j2", "filter": "semconv_grouped_attributes" if form in ("v1", "live1") else 'semconv_grouped_attributes({"v2": true})',
                       "application_mode": "each", "file_name": "a/{{ctx.root_namespace | default('none')}}.txt"},
                      {"template": "a.j2", "filter": "semconv_grouped_metrics" if form in ("v1", "live1") else 'semconv_grouped_metrics({"v2": true})',
                       "application_mode": "each", "file_name": "m/{{ctx.root_namespace | default('none')}}.txt"}]}
    files["adv/a.rego"] = ADVICE
    return files, form


def case(c, i):
    rng = c.rng("case", i)
    files, form = project(c, rng, i)
    broken = i % 5 == 4
    if broken:
        for _ in range(rng.randint(1, 3)):
            n = rng.choice([n for n in sorted(files) if n.startswith(("reg/", "base/", "in.", "rich/", "md/", "pol/"))])
            doc = c17.parse(n, files[n])
            if doc is not None:
                files[n] = c17.mutate_doc(rng, doc)
    blobs = {n: c17.dump(rng, n, x) for n, x in files.items()}
    base = c.dir(f"k{i}")
    cmds = commands(files, form)
    if i < 2:
        cmds += [("schema-" + f, ["json-schema", "-j", f] + (["-o", "schema.json"] if i else [])) for f in SCHEMAS]
    for label, args in cmds:
        ref = first = None
        for j in range(c.n(4, 7)):
            w = os.path.join(base, f"r{j}")
            for n, b in (blobs.items() if j % 2 == 0 else reversed(blobs.items())):
                p = os.path.join(w, n)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as f:
                    f.write(b)
            got, r = observe(c, w, args, j, (i * 7 + j) if j else None)
            if ref is None:
                ref, first = got, r
            elif not compare(c, f"case{i}", label, ref, got, r.args, w):
                break
            else:
                c.saw(stable_hash([label, got["exit status"], got["standard output"], sorted(stable_hash(x) for x in got["files"].values())]), 1,
                      sample={"command": label, "form": form, "bytes": len(got["standard output"]), "files": len(got["files"])} if i < 2 and j == 1 else None)
            shutil.rmtree(w)
        c.count(f"{label.split('-')[0]}:{ref['exit status']}")
        shutil.rmtree(base)


def infer(c, i):
    rng = c.rng("infer", i)
    base = c.dir(f"i{i}")
    g = c16.Gen(rng, i % 2 == 0)
    items = [g.item() for _ in range(rng.choice([12, 40, 120]))]
    reqs = c16.requests(rng, items)
    texts = []
    for j in range(c.n(3, 4)):
        out = os.path.join(base, f"o{j}")
        rc = otlp.Receiver(c, ["registry", "infer", "-o", out], base, grpc="--grpc-port", perturb=i * 5 + j if j else None)
        try:
            cl = rc.client()
            for k, msg in reqs:
                if cl.call(otlp.PATHS[k], msg) != 0:
                    raise RuntimeError("request refused")
            cl.close()
            rc.stop()
            st, so, se = rc.wait()
        finally:
            if rc.p.poll() is None:
                rc.kill()
        texts.append({"exit status": st, "diagnostics": [], "standard output": "", "files": tree(out) if os.path.isdir(out) else {}})
        if j:
            if not compare(c, f"infer{i}", "infer", texts[0], texts[j], rc.p.args, out):
                return
            c.saw(stable_hash(["infer", {k: stable_hash(x) for k, x in texts[0]["files"].items()}]))
    c.count("infer")
    shutil.rmtree(base)


def main(tier, seed):
    c = Check("C22", tier, seed, "exploration",
              "A judgement is one repetition of a command on a fresh copy of the same inputs, under other threads and timing, compared "
              "byte for byte with the first run. Distinct: by command, output and files.",
              ["two elements given the same file name leave one of the two: no template here does that",
               "the order of diagnostics, and of lists of names inside their messages, is not judged"])
    c.setup(shim=True)
    c.map(lambda f: f(), [lambda i=i: infer(c, i) for i in range(c.n(8, 80))] + [lambda i=i: case(c, i) for i in range(c.n(20, 250))])
    return c.finish()
