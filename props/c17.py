"""C17: every command ends with an honest exit status and diagnostics, never a crash.

Generated projects (registries in both formats, published packages, manifests, policies, templates, documents, telemetry,
settings) are damaged structurally (a node of a document replaced, removed, moved) and textually (bytes), and every command
runs on them as an unprivileged user with limits on time and memory. A monitor of the process sees crashes and hangs; the
diagnostics of the machine-readable formats are parsed, compared with the exit status, and with the other formats."""
import copy
import json
import os
import re
import shutil
import signal
import subprocess
import time

from lib import live, reg, v1, v2, yamlout
from lib.common import Check, Result, stable_hash
from props.c12 import make
from props.c21 import UID

WEIRD = [None, True, False, 0, -1, 1, 2 ** 31, 2 ** 63, 2 ** 64, -2 ** 63 - 1, 1e308, -0.0, 1.5, "", " ", "a" * 3000, "é", "🦀 crab",
         "\n", "a\nb", "{{ x }}", "{% if %}", "%s", [], {}, [[]], {"": None}, {"a": {"b": []}}, "null", "~", "@", "registry", "a.b",
         "..", "/", "template[string]", "string[]", "int", "enum", [1, "a", None], [None], "1.0.0", "v1", "https://x", "https://x/y/1.0.0",
         "http://[::1", "\u202e", "\ufeff", "metric", "span", "definition/2", "definition/3", "*", "a.*", "[", "(", "\\", "'", '"', "``",
         "deprecated", "stable", "\t", "0", ".", "a..b", "-", "𝔘", "ﬃ", "İ", "ß"]
TOKENS = [b"\x00", b"\xff", b"\xc3", "\ufeff".encode(), b"\r", b"\t", b"&a *a", b"*a", b"!!binary ", b"<<: *x", b"---\n", b"...\n", b"{", b"}",
          b"[", b"]", b"{{", b"{%", b"|", b">", b"'", b'"', b"#", b": ", b"- ", b"?", b"%YAML 9.9\n", b"\xe2\x80\xa8", b"\n" * 50, b"9" * 400,
          b"[" * 200, b"{a: " * 100, "é".encode(), "🦀".encode(), b"!!set {}", b"~", b".nan", b".inf", b"0x", b"1e999", b"@", b"`"]
ANSI = re.compile(r"\x1b\[[0-9;]*m|\x1b\]8;[^\x1b\x07]*(\x1b\\|\x07)")
LEVELS = ["information", "improvement", "violation"]
TEMPLATES = {
    "tpl/registry/tgt/weaver.yaml": {
        "templates": [{"template": "each.j2", "filter": "if has(\"registry\") then .registry.attributes else [.groups[].attributes[]?] end", "application_mode": "each",
                       "file_name": "each/{{ctx.name or ctx.key}}.txt"},
                      {"template": "each.j2", "filter": "if has(\"groups\") then semconv_grouped_attributes else [] end", "application_mode": "single",
                       "file_name": "grouped.txt"},
                      {"template": "each.j2", "filter": "if has(\"groups\") then semconv_signal(\"metric\"; {\"exclude_deprecated\": true, "
                       "\"exclude_root_namespace\": [\"url\"]}) else [] end", "application_mode": "single", "file_name": "metrics.txt"},
                      {"template": "all.j2", "filter": ".", "application_mode": "single", "file_name": "all.txt"}],
        "params": {"p": 1}, "acronyms": ["HTTP"], "whitespace_control": {"trim_blocks": True},
        "text_maps": {"m": {"a": "b"}, "types": {"string": "String", "int": "long"}},
        "comment_formats": {"java": {"format": "markdown", "header": "/**", "prefix": " * ", "footer": " */"}},
        "default_comment_format": "java"},
    "tpl/registry/tgt/all.j2": "{{ ctx | tojson }}\n{% for g in ctx.groups or [] %}{{ g.id | snake_case }} {{ g.brief | comment }}\n{{ g.note | comment(format='java', indent=2) }}"
                               "{% for a in g.attributes or [] %}{{ a.name | pascal_case | acronym }} {{ a | attribute_id }} {{ a | attribute_name }} {{ a | attribute_namespace }} {{ a | type }} {{ a is required }}"
                               "{{ a is deprecated }}{{ a is stable }}{{ a is enum }}{{ a is experimental }}{{ a is template_type }} {{ a.brief | markdown_to_html }}"
                               "{{ a.examples | print_member_value if a.examples is string }}{% if a is enum %}{% for m in a.type.members %}{{ m.value | print_member_value }}"
                               "{{ m.id | screaming_snake_case_const }}{% endfor %}{% endif %}{% endfor %}{{ g.attributes | attribute_sort | map(attribute='name') | join if g.attributes }}"
                               "{{ (g.attributes | required | length, g.attributes | not_required | length) if g.attributes }}{% endfor %}"
                               "{{ params.p }}{{ 'x' | map_text('m') }}{{ 'x' | ansi_red }}",
    "tpl/registry/tgt/each.j2": "{{ ctx | tojson }} {{ loop }}",
}
MARKDOWN1 = "# T\n\n<!-- semconv %s -->\nold\n<!-- endsemconv -->\n\ntext\n<!-- semconv %s(full,tag=x) -->\n<!-- endsemconv -->\n"
MARKDOWN2 = "# T\n\n<!-- semconv %s -->\nold\n<!-- endsemconv -->\n\ntext\n<!-- weaver %s -->\n<!-- endweaver -->\n"
SNIPPET = ("{% if group is defined and group %}{{ group | tojson }}{% for a in group.attributes or [] %}{{ a.brief | comment }}{% endfor %}"
           "{% else %}{{ ctx | tojson if ctx is defined }}{% endif %}")
POLICY = '''package {stage}
import rego.v1
deny contains {{"id": "dup", "context": {{"g": id}}, "message": sprintf("group %v", [id]), "level": "{level}", "signal_type": "span", "signal_name": "x"}} if {{
  some x in input.groups
  id := x.id
}}
deny contains {{"type": "semconv_attribute", "id": "old", "category": "c", "group": "g", "attr": "a"}} if {{ count(input) > 99 }}
'''
TOML = '''[registry]
future = false
[diagnostics]
stdout = false
[live_check]
fail_on = "violation"
[template]
acronyms = ["API"]
'''


class World:
    def __init__(self, c, root):
        self.c, self.root = c, root
        os.makedirs(os.path.join(root, "home"))
        os.makedirs(os.path.join(root, "p"))
        self.cwd = os.path.join(root, "p")

    def write(self, files):
        for n, b in files.items():
            p = os.path.join(self.cwd, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(b)
        for d, ds, fs in os.walk(self.root):
            for x in [d] + [os.path.join(d, f) for f in fs]:
                os.chown(x, UID, UID, follow_symlinks=False)

    def run(self, args, stdin=None, wall=400, cpu=60):
        """-> Result; `hang` tells that the limit on processor time (or a long wall time) ended it"""
        e = {"HOME": os.path.join(self.root, "home"), "PATH": "/usr/bin:/bin", "LANG": "C.UTF-8", "TERM": "dumb", "RUST_BACKTRACE": "0",
             "TMPDIR": os.path.join(self.root, "home")}
        t = time.time()
        p = subprocess.Popen(["prlimit", f"--cpu={cpu}:{cpu + 10}", "--as=8589934592", "--core=0", self.c.weaver] + args, cwd=self.cwd, env=e,
                             stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, start_new_session=True, user=UID, group=UID, extra_groups=[])
        late = False
        try:
            o, r = p.communicate(stdin, timeout=wall)
        except subprocess.TimeoutExpired:
            late = True
            os.killpg(p.pid, signal.SIGKILL)
            o, r = p.communicate()
        return Result(args, p.returncode, o.decode("utf-8", "replace"), r.decode("utf-8", "replace"), late, time.time() - t)


# ------------------------------------------------------------------------------------------------------------- projects
def tree_files(root, prefix):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            out[prefix + os.path.relpath(p, root)] = open(p, "rb").read()
    return out


def project(c, rng, i):
    """-> (files: name -> document or bytes, form)"""
    form = ["v1", "v2", "live1", "live2"][i % 4]
    tmp = c.dir(f"gen{i}")
    files = {}
    ids = ["a.b"]
    if form in ("v1", "v2"):
        make(rng, form, tmp + "/reg")
        make(rng, form, tmp + "/base")
        tel = None
    else:
        r = live.gen(rng)
        if form == "live1":
            live.drop_refinements(r)
            reg.write_tree(tmp + "/reg", live.as_v1(rng, r))
            reg.write_tree(tmp + "/base", live.as_v1(rng, r))
        else:
            reg.write_tree(tmp + "/reg", live.as_v2(rng, r))
            reg.write_tree(tmp + "/base", live.as_v2(rng, r))
        tel = live.Telemetry(rng, r)
    for d in ("reg", "base"):
        files.update(tree_files(f"{tmp}/{d}", d + "/"))
    dep = rng.random() < 0.3
    if dep:
        files["dep/d.yaml"] = {"file_format": "definition/2", "attributes": [{"key": "dep.attr", "type": "string", "brief": "x", "stability": "stable", "examples": ["x"]}],
                               "metrics": [{"name": "dep.metric", "instrument": "counter", "unit": "1", "brief": "x", "stability": "stable",
                                            "attributes": [{"ref": "dep.attr"}]}]}
        files["dep/manifest.yaml"] = reg.manifest("https://dep.test/d/1.0.0")
    if dep or rng.random() < 0.5:
        files["reg/manifest.yaml"] = reg.manifest("https://example.test/r/1.1.0", deps=[{"schema_url": "https://dep.test/d/1.0.0",
                                                                                        "registry_path": "dep"}] if dep else ())
        files["base/manifest.yaml"] = reg.manifest("https://example.test/r/1.0.0")
    files.update(TEMPLATES)
    files["snip/md/snippet.md.j2"] = SNIPPET
    files["snip/md/weaver.yaml"] = {"params": {"a": 1}, "comment_formats": {"md": {"format": "markdown"}}, "default_comment_format": "md"}
    m = re.findall(rb"id: ([a-z0-9_.]+)", b"".join(b for n, b in files.items() if n.startswith("reg/") and isinstance(b, bytes)))
    ids = [x.decode() for x in m] or ids
    files["md/a.md"] = markdown(rng, files, form)
    files["pol/p.rego"] = POLICY.format(stage=rng.choice(["before_resolution", "after_resolution", "comparison_after_resolution"]),
                                        level=rng.choice(["violation", "improvement", "information"]))
    samples = [tel.sample() for _ in range(rng.randint(1, 8))] if tel else [{"attribute": {"name": "a.b", "value": 1}}]
    files["in.json"] = samples
    files["in.txt"] = "\n".join(["a.b=1", "x", "y = [1,2]"] + [tel.name() for _ in range(4)] if tel else ["a.b"])
    files["params.yaml"] = {"params": {"p": 2, "q": [1]}}
    if rng.random() < 0.25:
        files[".weaver.toml"] = TOML
    if form == "live2" and rng.random() < 0.6:
        w = c.run(["registry", "package", "--v2", "-r", tmp + "/reg", "-o", tmp + "/pkg", "--resolved-registry-uri", "resolved.yaml"])
        if w.rc == 0:
            for n, b in tree_files(tmp + "/pkg", "pkg/").items():
                files[n] = b
    shutil.rmtree(tmp)
    return files, form


def markdown(rng, files, form):
    """a document whose snippets name things of the registry"""
    groups, v2names = [], []
    for n in sorted(files):
        doc = parse(n, files[n]) if n.startswith("reg/") else None
        if not isinstance(doc, dict):
            continue
        for g in doc.get("groups") or []:
            groups.append(g["id"])
        for kind, key in (("attributes", "key"), ("metrics", "name"), ("spans", "type"), ("events", "name"), ("entities", "type")):
            for x in doc.get(kind) or []:
                if isinstance(x, dict) and isinstance(x.get(key), str):
                    v2names.append(f"registry.{kind}.{x[key]}" if kind != "attributes" else "registry.attributes." + x[key].rsplit(".", 1)[0])
    if form in ("v1", "live1"):
        return MARKDOWN1 % (rng.choice(groups or ["x"]), rng.choice(groups or ["x"]))
    return MARKDOWN2 % (rng.choice(v2names or ["registry.attributes.x"]), rng.choice([".registry.attributes", ".registry.metrics[0]", ".", ".refinements"]))


def nodes(x, path=()):
    yield path
    if isinstance(x, dict):
        for k in x:
            yield from nodes(x[k], path + (k,))
    elif isinstance(x, list):
        for k in range(len(x)):
            yield from nodes(x[k], path + (k,))


def at(x, path):
    for k in path:
        x = x[k]
    return x


def mutate_doc(rng, doc):
    """one structural change"""
    box = [copy.deepcopy(doc)]
    allp = [p for p in nodes(box) if p]
    p = rng.choice(allp)
    parent, k = at(box, p[:-1]), p[-1]
    q = rng.random()
    if q < 0.35:
        parent[k] = copy.deepcopy(rng.choice(WEIRD))
    elif q < 0.5 and len(p) > 1:
        if isinstance(parent, dict):
            del parent[k]
        else:
            parent.pop(k)
    elif q < 0.65:
        parent[k] = copy.deepcopy(at(box, rng.choice(allp)))
    elif q < 0.72 and isinstance(parent, list) and len(p) > 1:
        parent.insert(rng.randint(0, len(parent)), copy.deepcopy(parent[k]))
    elif q < 0.8 and isinstance(parent, dict):
        parent[rng.choice(["extends", "ref", "unknown", "deprecated", "stability", "type", "brief", "note", "requirement_level", "imports",
                           "annotations", "examples", "metric_name", "name", "value", "members", "attributes", "extends", "file_format",
                           "entity_associations", "span_kind", "groups", "constraints", "ref_group", "resolved_registry_uri"])] = \
            copy.deepcopy(rng.choice(WEIRD))
    elif q < 0.86 and isinstance(parent, dict):
        parent[rng.choice(["x", k if isinstance(k, str) else "y", "Type"]) + rng.choice(["", "_", "s"])] = parent.pop(k)
    elif q < 0.93 and isinstance(parent[k], str):
        s = parent[k]
        i = rng.randint(0, len(s))
        parent[k] = s[:i] + str(rng.choice([w for w in WEIRD if isinstance(w, str)])) + s[i + rng.choice([0, 1, 3]):]
    elif isinstance(parent[k], list):
        parent[k] = []
    else:
        parent[k] = [parent[k]]
    return box[0]


def mutate_bytes(rng, b, nested=True):
    """`nested` false: no long runs of open brackets (see `nesting`)"""
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 2, 4])):
        i = rng.randint(0, len(b))
        j = min(len(b), i + rng.choice([0, 1, 2, 8, 60]))
        q = rng.random()
        if q < 0.2:
            del b[i:j]
        elif q < 0.5:
            t = rng.choice(TOKENS)
            b[i:i] = t if nested or len(t) < 50 else t[:3]
        elif q < 0.6:
            b[i:i] = b[rng.randint(0, i):i][:200]
        elif q < 0.7 and i < len(b):
            b[i] ^= 1 << rng.randrange(8)
        elif q < 0.78:
            del b[i:]
        elif q < 0.9 and b"\n" in b:
            lines = bytes(b).split(b"\n")
            k = rng.randrange(len(lines))
            r = rng.random()
            if r < 0.4:
                lines.pop(k)
            elif r < 0.7:
                lines.insert(rng.randint(0, len(lines)), lines[k])
            else:
                lines[k] = b" " * rng.randint(0, 6) + lines[k].lstrip()
            b = bytearray(b"\n".join(lines))
        else:
            b[i:j] = str(rng.choice(WEIRD)).encode()
    return bytes(b)


def dump(rng, n, x):
    if isinstance(x, bytes):
        return x
    if isinstance(x, str):
        return x.encode()
    if n.endswith(".json") or rng.random() < 0.5:
        return json.dumps(x, allow_nan=False).encode()
    try:
        return yamlout.emit(x).encode("utf-8", "surrogatepass")
    except (ValueError, TypeError, AttributeError):
        return json.dumps(x).encode()


def parse(n, x):
    """-> the document of a file, or None"""
    if isinstance(x, (dict, list)):
        return x
    if isinstance(x, bytes) and n.endswith((".yaml", ".yml", ".json")):
        import yaml
        try:
            return yaml.load(x, Loader=getattr(yaml, "CSafeLoader", yaml.SafeLoader))
        except Exception:
            return None
    return None


# ------------------------------------------------------------------------------------------------------------- commands
def commands(rng, files, form):
    """-> (label, args, stdin); every list is one command line without the options on diagnostics"""
    r = rng.choice(["reg", "reg", "reg", "pkg"]) if any(n.startswith("pkg/") for n in files) else "reg"
    v = ["--v2"] if form in ("v2", "live2") and rng.random() < 0.9 or rng.random() < 0.3 else []
    g = (["--future"] if rng.random() < 0.05 else []) + (["--include-unreferenced"] if rng.random() < 0.15 else []) + v
    pol = ["-p", "pol"] if rng.random() < 0.15 else (["--skip-policies"] if rng.random() < 0.6 else [])
    fmt = rng.choice(["json", "yaml", "jsonl", "ansi", "mute", "json", "yaml", "ansi", "nosuch"])
    inp = rng.choice([["in.json", "--input-format", "json"]] * 6 + [["in.txt", "--input-format", "text"]] * 2 +
                     [["in.json", "--input-format", "text"], ["in.txt", "--input-format", "json"]])
    vp = v or ["--v2"]
    cmds = [
        ("check", ["check", "-r", r, *g, *pol] + (["--baseline-registry", "base"] if rng.random() < 0.4 else []) +
         (["--display-policy-coverage"] if rng.random() < 0.1 else [])),
        ("check", ["check", "-r", r, *g, *pol]),
        ("resolve", ["resolve", "-r", r, *g, *pol, "-f", rng.choice(["json", "yaml", "jsonl"])] + (["--lineage"] if rng.random() < 0.3 else [])),
        ("generate", ["generate", "-r", r, *g, *pol, "-t", "tpl", "tgt", "out"] + (["--params", "params.yaml"] if rng.random() < 0.3 else []) +
         (["-D", rng.choice(["p=1", "p=[", "=", "p", "é=1", "p=é", "p={a: [1]}"])] if rng.random() < 0.4 else [])),
        ("stats", ["stats", "-r", r, *g, "--format", rng.choice(["text", "json", "yaml", "jsonl"])]),
        ("diff", ["diff", "-r", r, "--baseline-registry", rng.choice(["base", "base", "reg"] + (["pkg"] if r == "pkg" else [])), *g, "--format",
                  rng.choice(["json", "markdown", "ansi", "ansi-stats", "yaml"])]),
        ("update-markdown", ["update-markdown", "-r", r, *g, "-t", "snip", "--target", "md", "md"] + (["--dry-run"] if rng.random() < 0.3 else [])),
        ("live-check", ["live-check", "-r", r, *g, *pol, "--format", fmt, "--input-source", *inp] + (["--no-stream"] if rng.random() < 0.5 else []) +
         (["--no-stats"] if rng.random() < 0.1 else [])),
        ("package", ["package", "-r", r, *[a for a in g if a != "--v2"], *vp, *pol, "-o", "out2", "--resolved-registry-uri", rng.choice(["resolved.yaml", "resolved.yaml", "", "é", "https://x"])]),
        ("emit", ["emit", "-r", r, *g, "--skip-policies", "--stdout"]),
    ]
    return rng.choice(cmds)


def read_json(stream):
    """-> the list of diagnostics on the stream, [] if there is none, None if something is there that cannot be read"""
    dec = json.JSONDecoder()
    for m in re.finditer(r"^\[", stream, re.M):
        try:
            x, _ = dec.raw_decode(stream[m.start():])
        except ValueError:
            continue
        if isinstance(x, list) and x and all(isinstance(d, dict) and "diagnostic" in d for d in x):
            return x
    return []


def squeeze(s):
    return re.sub(r"[\s│├╰─▶]+", "", ANSI.sub("", s))


def crashed(r):
    if r.timed_out or r.rc in (-signal.SIGXCPU, -signal.SIGKILL, 128 + signal.SIGXCPU):
        return "it did not end by itself"
    if "panicked at" in r.err or r.rc == 101 or r.rc < 0 or "memory allocation of" in r.err or "stack overflow" in r.err:
        return "it crashed"
    return None


def where(r):
    m = re.search(r"panicked at ([^\s:]+\.rs)", r.err)
    return m.group(1) if m else str(r.rc)


def is_error(d):
    return str(d["diagnostic"].get("severity") or "error").lower() not in ("warning", "advice")


def case(c, i):
    rng = c.rng("case", i)
    files, form = project(c, rng, i)
    w = World(c, c.dir(f"k{i}"))
    for step in range(c.n(10, 16)):
        rng = c.rng("case", i, step)
        now = dict(files)
        label, cmd = commands(rng, files, form)
        # what to damage: mostly what the command reads
        pref = {"generate": ("tpl/", "params"), "update-markdown": ("md/", "snip/"), "live-check": ("in.",), "diff": ("base/",)}.get(label, ())
        changed = []
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
            names = sorted(now)
            sel = [n for n in names if n.startswith(pref)] if pref and rng.random() < 0.5 else \
                [n for n in names if n.startswith(("reg/", "pkg/")) ] if rng.random() < 0.7 else names
            n = rng.choice(sel or names)
            doc = parse(n, now[n])
            if doc is not None and rng.random() < 0.75:
                now[n] = mutate_doc(rng, doc)
            else:
                now[n] = mutate_bytes(rng, dump(rng, n, now[n]), not n.endswith(".rego"))
            changed.append(n)
        for d in ("out", "out2", "reg", "base", "tpl", "md", "pol", "pkg", "dep", "snip"):
            shutil.rmtree(os.path.join(w.cwd, d), ignore_errors=True)
        if os.path.exists(os.path.join(w.cwd, ".weaver.toml")):
            os.unlink(os.path.join(w.cwd, ".weaver.toml"))
        w.write({n: dump(rng, n, x) for n, x in now.items()})
        judge(c, f"{label}", w, rng, label, cmd, changed, deep=rng.random() < 0.35)
    shutil.rmtree(w.root)


class Once:
    """the check, reporting each kind of violation once: one defect shows in many cases"""

    def __init__(self, c):
        self.c, self.keys = c, set()

    def __getattr__(self, n):
        return getattr(self.c, n)

    def violation(self, key, *a):
        with self.c.lock:
            if key in self.keys:
                return
            self.keys.add(key)
        self.c.violation(key, *a)


def judge(c, key, w, rng, label, cmd, changed, deep):
    out = {}
    fmts = ["json"] + (["ansi", "gh_workflow_command"] if deep else [])
    for f in fmts:
        if f != "json":
            for d in ("out", "out2"):
                shutil.rmtree(os.path.join(w.cwd, d), ignore_errors=True)
        r = w.run(["registry"] + cmd + ["--quiet", "--diagnostic-format", f])
        out[f] = r
        bad = crashed(r)
        if bad:
            c.violation(f"{key}-crash-{where(r)}", f"{bad}: {cmd} with {f} diagnostics, changed files {changed}\n" + r.brief(), w.root)
            return
        if r.rc == 2 and "-D" in cmd:
            c.count("bad_parameters")
            return
        if r.rc == 2:
            raise RuntimeError("usage: " + r.brief())
        if r.rc not in (0, 1):
            c.violation(f"{key}-status", f"exit status {r.rc}: {cmd}\n" + r.brief(), w.root)
            return
    r = out["json"]
    ds = read_json(r.err)
    errs = [d for d in ds if is_error(d)]
    kinds = sorted({(next(iter(d["error"])) if isinstance(d["error"], dict) and d["error"] else str(d["error"])[:20]) for d in ds})
    c.saw(stable_hash([label, r.rc, kinds, sorted({x.split("/")[0] for x in changed})]),
          sample=f"{cmd}: exit {r.rc}, diagnostics {kinds}" if len(kinds) > 1 else None)
    c.count(f"{label}_exit_{r.rc}")
    if not changed and r.rc == 1:
        c.count(f"{label}_fails_unchanged")
        if os.environ.get("C17_DEBUG"):
            print(cmd, json.dumps(errs)[:600])
    for k in kinds:
        c.kinds.add(k)
    toml = os.path.exists(os.path.join(w.cwd, ".weaver.toml"))
    if errs and r.rc == 0:
        c.violation(f"{key}-lenient", f"errors reported, exit status 0: {cmd}\n{json.dumps(errs)[:800]}\n" + r.brief(), w.root)
    if r.rc == 1 and not errs and label != "live-check" and "Failed to render the diagnostic messages" not in r.err + r.out:
        c.violation(f"{key}-silent", f"exit status 1 without an error in the diagnostics: {cmd}, changed {changed}\n" + r.brief(), w.root)
    for f in fmts[1:]:
        x = out[f]
        if x.rc != r.rc:
            c.violation(f"{key}-formats", f"exit status {r.rc} with json diagnostics, {x.rc} with {f}: {cmd}\n" + x.brief(), w.root)
            continue
        have = squeeze(x.err)
        for d in ds:
            v = d["error"].get("violation") if isinstance(d["error"], dict) and d["error"].get("type") == "policy_violation" else None
            msgs = [str(v["id"]), str(v["message"])] if v else [d["diagnostic"]["message"]]
            for m in msgs:
                if squeeze(m) in have:
                    continue
                words = [y for y in re.findall(r"[A-Za-z0-9_.]{3,40}", ANSI.sub("", m))]
                miss = [y for y in words if y not in have]
                if miss:
                    c.violation(f"{key}-lost-{f}", f"{f}: a diagnostic is not shown: {m[:300]!r} (missing words {miss[:6]})\n{cmd}\n" + x.brief(3000),
                                w.root)
                    break
        c.count("format_comparisons", len(ds))
    if deep:
        x = w.run(["registry"] + cmd + ["--quiet", "--diagnostic-format", "json", "--diagnostic-stdout"])
        if not crashed(x) and label not in ("live-check",):
            got = read_json(x.out)
            if len(got) != len(ds) or x.rc != r.rc or read_json(x.err):
                c.violation(f"{key}-stdout", f"{len(ds)} diagnostics on stderr, {len(got)} on stdout with --diagnostic-stdout, exit {r.rc} "
                            f"and {x.rc}: {cmd}\n" + x.brief(), w.root)


# --------------------------------------------------------------------------------------------------------------- others
def odd(c, i):
    """commands on things that are not what they should be"""
    rng = c.rng("odd", i)
    w = World(c, c.dir(f"o{i}"))
    w.write({"reg/a.yaml": b"groups: []\n", "file.txt": b"text", "in.json": b"[]", "empty/.keep": b"", "tpl/tgt/weaver.yaml": b"templates: []\n",
             "x.zip": b"PK", "bad.toml": b"[[[", "md/a.md": b"<!-- semconv a -->\n<!-- endsemconv -->\n"})
    os.symlink("loop", os.path.join(w.cwd, "loop"))
    os.symlink("..", os.path.join(w.cwd, "reg/up"))
    os.mkfifo(os.path.join(w.cwd, "reg/fifo.md"))
    os.chmod(os.path.join(w.cwd, "empty"), 0)
    paths = ["reg", "reg/a.yaml", "file.txt", "nowhere", "", ".", "/dev", "loop", "empty", "x.zip", "x.zip[a]", "http://127.0.0.1:1/x.git",
             "http://127.0.0.1:1/x.zip", "http://127.0.0.1:1/m.yaml", "https://", "http://[", "reg[", "reg]", "@", "[a]", "\u00e9", "file:///x",
             "/dev/null", "in.json", "a" * 5000, "~", "$HOME", "reg\n"]
    p = lambda: rng.choice(paths)
    out = rng.choice(["out", "file.txt", "/dev/null/x", "nowhere/a/b", "/proc/x", "", "empty/x", "none"])
    cmd = rng.choice([
        ["registry", "check", "-r", p()], ["registry", "check", "-r", "reg", "-p", p()], ["registry", "check", "-r", "reg", "--baseline-registry", p()],
        ["registry", "resolve", "-r", p(), "-o", out], ["registry", "resolve", "-r", "reg", "-o", out, "-f", rng.choice(["json", "yaml", "x"])],
        ["registry", "generate", "-r", "reg", "-t", p(), rng.choice(["tgt", "", ".", "..", "/", "é", "nosuch"]), out],
        ["registry", "generate", "-r", p(), "-t", "tpl", "tgt", out], ["registry", "generate", "-r", "reg", "-t", "tpl", "tgt", "out", "--params", p()],
        ["registry", "stats", "-r", p()], ["registry", "diff", "-r", p(), "--baseline-registry", p()],
        ["registry", "diff", "-r", "reg", "--baseline-registry", "reg", "--format", rng.choice(["json", "x", "", ".."]), "-o", out],
        ["registry", "update-markdown", "-r", "reg", "-t", p(), "--target", rng.choice(["md", "", "..", "tgt"]), rng.choice(["md", "nowhere", "file.txt", ""])],
        ["registry", "live-check", "-r", p(), "--input-source", "in.json", "--format", rng.choice(["json", "x", ""])],
        ["registry", "live-check", "-r", "reg", "--input-source", p(), "--input-format", rng.choice(["json", "text"])],
        ["registry", "live-check", "-r", "reg", "--input-source", "in.json", "--advice-policies", p()],
        ["registry", "live-check", "-r", "reg", "--input-source", "in.json", "--advice-data", p()],
        ["registry", "live-check", "-r", "reg", "--input-source", "in.json", "--advice-preprocessor", p()],
        ["registry", "package", "--v2", "-r", p(), "-o", out, "--resolved-registry-uri", p() or "x"],
        ["registry", "emit", "--stdout", "-r", p()], ["registry", "json-schema", "-o", out],
        ["registry", "json-schema", "-j", rng.choice(["resolved-registry", "semconv-group", "diff", "x"])],
        ["--config", rng.choice(["bad.toml", "nowhere", "reg", "file.txt", "in.json", "loop"]), "registry", "check", "-r", "reg"],
        ["diagnostic", "init", "-t", out], ["completion", rng.choice(["bash", "zsh", "fish", "x"])],
        ["registry", "check", "-r", "reg", "--diagnostic-template", p(), "--diagnostic-format", rng.choice(["json", "x", "", ".."])],
        ["registry", "search", "-r", p(), "word"], ["registry", "mcp", "-r", p()],
    ])
    if any("\x00" in a for a in cmd):
        return
    r = w.run(cmd, wall=400)
    bad = crashed(r)
    c.saw(stable_hash([cmd, r.rc]))
    c.count(f"odd_exit_{r.rc}")
    os.unlink(os.path.join(w.cwd, "reg/fifo.md"))
    if bad:
        c.violation(f"odd-crash-{where(r)}", f"{bad}: {cmd}\n" + r.brief(), w.root)
    elif r.rc not in (0, 1, 2):
        c.violation("odd-status", f"exit status {r.rc}: {cmd}\n" + r.brief(), w.root)
    elif r.rc == 0 and re.search(r"(?m)^\s*×", ANSI.sub("", r.err)):
        c.violation("odd-lenient", f"an error was reported, exit status 0: {cmd}\n" + r.brief(), w.root)
    elif r.rc == 1 and not r.err.strip() and not r.out.strip():
        c.violation("odd-silent", f"exit status 1 and nothing said: {cmd}\n" + r.brief(), w.root)
    os.chmod(os.path.join(w.cwd, "empty"), 0o755)
    shutil.rmtree(w.root)


# ---------------------------------------------------------------------------------------------------------- expressions
JQ = [".", ".groups", ".groups[] | .id", 'if has("registry") then .registry.attributes else [.groups[].attributes[]?] end', "semconv_grouped_attributes",
      'semconv_signal("metric"; {"exclude_deprecated": true})', 'semconv_grouped_metrics({"exclude_root_namespace": ["a"]})', "semconv_attributes | map(.name)",
      '[.groups[] | select(.type == "metric") | {id, n: (.attributes | length)}]', ".groups | map(.id) | sort | unique", '[limit(3; .groups[])]',
      'def f(x): x + 1; [f(1)]', 'reduce .groups[] as $g (0; . + 1)', '.groups | to_entries | map(.key) | @json', '"\\(.groups | length) é"',
      '[.groups[].id | test("^a\\\\.")]', '[.groups[].id | sub("a"; "b")]', '.groups[0:2]', '.groups[-1]', 'try error("x") catch .', '[.groups[] as {id: $i} | $i]',
      '$__loc__', 'input', '[., .] | transpose', '@base64 "x"', '[splits("a")]?', 'now | todate', 'ltrimstr("x")', '.groups[0].attributes // []']
JINJA = ["{{ ctx | tojson }}", "{% for g in ctx.groups or [] %}{{ g.id | snake_case }}{% endfor %}", "{{ ctx | length }}", "{{ 'a.b.c' | pascal_case }}",
         "{{ 'some text **b**' | comment(indent=2) }}", "{{ 'x' | comment(format='java', line_length=10) }}", "{% set x = 1 %}{{ x + 1 }}", "{{ [3, 1, 2] | sort }}",
         "{{ 'aé🦀' | capitalize_first }}", "{{ 'aéb' | regex_replace('[a-z]', 'x') }}", "{{ 'x' | map_text('m') }}", "{{ now('%Y') }}", "{{ 'https' | acronym }}",
         "{{ 'é\nü' | split_id }}", "{{ 'a' | ansi_red | ansi_bold }}", "{% macro m(x) %}{{ x }}{% endmacro %}{{ m(1) }}", "{% include 'x.j2' %}", "{% import 'x.j2' as y %}",
         "{{ template.set_file_name('é/' ~ 'x.txt') }}", "{{ concat_if('a', 'b') }}", "{{ jq(ctx, '.groups | length') }}", "{{ ctx.nope.deeper }}", "{{ 1 / 0 }}", "{{ 'x' * 3 }}",
         "{{ [1, 2] | batch(0) }}", "{{ 'x' | instrument_method }}", "{{ 'a\tb' | truncate(2) }}", "{{ debug(ctx) }}", "{{ '2' | int }}", "{{ range(10) | list }}",
         "{{ 'a_b' | flatten }}", "{{ ctx | attribute_sort }}", "{{ 'x' | print_member_value }}", "{{ 'x.y' | attribute_namespace }}", "{{ 'x.y' | attribute_id }}",
         "{{ 'é' | screaming_kebab_case }}", "{{ 'x' | markdown_to_html }}", "{{ '- é\n- [ü](x)' | comment(format='java') }}", "{{ 'éü öä ßß' | comment(format='java', line_length=3) }}"]
REGO = ["input.groups[_].id", 'x := input.groups[_]; startswith(x.id, "é")', 'regex.match("^é", input.groups[0].id)', "count(input.groups) > 1", 'sprintf("%v %d", [1, "é"]) == ""',
        "some x in input.groups; x.id", 'every g in input.groups { g.id != "" }', "data.x.y", "not input.nope", "1 / 0 == 1", '"a" in ["a"]', "{x | x := input.groups[_].id}",
        "to_number(\"é\") > 1", 'substring("aé", 0, 2) == "a"', "object.get(input, \"a\", 1)", "json.unmarshal(\"{\")", "walk(input, [p, v])", "input[_][_][_]"]
SNIP = ["metric.m.n(full)", "span.s", "registry.a(tag=x, full)", "metric.m.n(metric_table)", "registry.a(omit_requirement_level, ref)", "span.s(attribute_table)"]
WSNIP = ["{}", ".registry.metrics", '{"a": 1}', ".refinements | length", ".registry.attributes[0]"]
MARKS = ["é", "ü", "ß", "🦀", "\u0301", "\u202e", "\x00", "\u2028", "(", ")", "[", "]", "{", "}", "|", "\"", "'", "\\", "`", "$", "..", "?", "//", "=", ":", ";", ",", "@", "#",
         "%", "{{", "}}", "{%", "%}", "*", "+", "-", "0", "9" * 30, "1e999", "\n", " ", "if", "end", "as", "not", "and", "reduce", "def f: ", "é(", ".é", "\"é", "$é", "@é", "é:"]


def damage(rng, s):
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        i = rng.randint(0, len(s)) if rng.random() < 0.7 else rng.choice([0, len(s)])
        q = rng.random()
        if q < 0.5:
            s = s[:i] + rng.choice(MARKS) + s[i:]
        elif q < 0.65:
            s = s[:i]
        elif q < 0.75:
            s = s[i:]
        elif q < 0.85:
            s = s[:i] + s[i + rng.choice([1, 1, 3, 9]):]
        elif q < 0.93:
            s = s[:i] + rng.choice(MARKS) + s[i + rng.choice([1, 3]):]
        else:
            s = s + s[:i]
    return s


def expr(c, i):
    """One damaged expression (jq, jinja, Rego, snippet, glob) in a project that is otherwise right."""
    rng = c.rng("expr", i)
    w = World(c, c.dir(f"x{i}"))
    v2 = rng.random() < 0.4
    word = rng.choice(["x", "é", "naïve 🦀 text", "ß"])
    base = {"reg/r.yaml": {"file_format": "definition/2", "attributes": [{"key": "a.x", "type": "string", "brief": word, "stability": "stable", "examples": [word]}],
                           "metrics": [{"name": "m.n", "instrument": "counter", "unit": "1", "brief": word, "stability": "stable", "attributes": [{"ref": "a.x"}]}]} if v2 else
            {"groups": [{"id": "registry.a", "type": "attribute_group", "brief": word, "attributes": [{"id": "a.x", "type": "string", "brief": word, "stability": "stable", "examples": [word]}]},
                        {"id": "metric.m.n", "type": "metric", "metric_name": "m.n", "instrument": "counter", "unit": "1", "brief": word, "stability": "stable",
                         "attributes": [{"ref": "a.x"}]},
                        {"id": "span.s", "type": "span", "span_kind": "client", "brief": word, "stability": "stable", "attributes": [{"ref": "a.x"}]}]}}
    vf = ["--v2"] if v2 or rng.random() < 0.2 else []
    for step in range(6):
        rng = c.rng("expr", i, step)
        kind = rng.choice(["filter", "filter", "filter", "template", "template", "file_name", "when", "policy", "snippet", "weaver", "glob", "lookup"])
        tpl = {"template": "t.j2", "filter": ".", "application_mode": rng.choice(["single", "each"]), "file_name": "{{ctx.id or 'x'}}.txt"}
        conf = {"templates": [tpl], "params": {"p": "é"}, "comment_formats": {"java": {"format": rng.choice(["markdown", "html"]), "prefix": "* "}},
                "default_comment_format": "java", "text_maps": {"m": {"a": "b"}}, "acronyms": ["HTTP"]}
        body, files = "{{ ctx | tojson }}", dict(base)
        cmd, label = ["generate", "-r", "reg", *vf, "--skip-policies", "-t", "tpl", "tgt", "out"], "generate"
        if kind == "filter":
            tpl["filter"] = e = damage(rng, rng.choice(JQ))
        elif kind == "template":
            body = e = damage(rng, rng.choice(JINJA))
        elif kind == "file_name":
            tpl["file_name"] = e = damage(rng, rng.choice(["{{ctx.id}}.txt", "a/{{ ctx.id | snake_case }}.txt", "x.txt", "é/{{ loop.index }}"]))
        elif kind == "when":
            tpl["when"] = e = damage(rng, rng.choice(["params.p == 'é'", "$params.p", "params.p", "true", "params.x is defined"]))
        elif kind == "policy":
            e = damage(rng, rng.choice(REGO))
            e = re.sub(r"[\[({]{4,}", "[", e)
            files["pol/p.rego"] = ("package %s\nimport rego.v1\ndeny contains {\"id\": \"i\", \"context\": {}, \"message\": \"m\", \"level\": \"violation\", \"signal_type\": null, \"signal_name\": null} if {\n  %s\n}\n"
                                   % (rng.choice(["before_resolution", "after_resolution"]), e)).encode("utf-8", "surrogatepass")
            cmd, label = ["check", "-r", "reg", *vf, "-p", "pol"], "check"
        elif kind in ("snippet", "weaver"):
            e = damage(rng, rng.choice(SNIP if kind == "snippet" else WSNIP))
            tag = "semconv" if kind == "snippet" else "weaver"
            files["md/a.md"] = f"# T\n<!-- {tag} {e} -->\nold\n<!-- end{tag} -->\ntail {word}\n".encode("utf-8", "surrogatepass")
            files["snip/md/snippet.md.j2"] = SNIPPET.encode()
            cmd, label = ["update-markdown", "-r", "reg", *vf, "-t", "snip", "--target", "md", "md"], "update-markdown"
        elif kind == "glob":
            e = damage(rng, rng.choice(["m.*", "a.?", "[a-z].*", "{m,a}.*", "**", "m.n"]))
            files["dep/r.yaml"] = files.pop("reg/r.yaml")
            files["dep/manifest.yaml"] = reg.manifest("https://dep.test/d/1.0.0")
            files["reg/manifest.yaml"] = reg.manifest("https://example.test/r/1.1.0", deps=[{"schema_url": "https://dep.test/d/1.0.0", "registry_path": "dep"}])
            files["reg/i.yaml"] = {"file_format": "definition/2", "imports": {"metrics": [e]}, "attributes": [
                {"key": "own.x", "type": "int", "brief": word, "stability": "stable"}]}
            cmd, label = ["resolve", "-r", "reg", *vf, "--skip-policies", "-f", "json"], "resolve"
        else:
            e = damage(rng, rng.choice(["a.x", "m.n", "é.x", "A.X"])) + rng.choice(["", "=1", "=é", "=[1", "={\"a\":", "=1e999", "==", "=\"\\ud800\""])
            files["in.txt"] = (e + "\n" + word + "\n").encode("utf-8", "surrogatepass")
            cmd, label = ["live-check", "-r", "reg", *vf, "--input-source", "in.txt", "--input-format", "text", "--format", rng.choice(["json", "ansi", "yaml"])], "live-check"
        files["tpl/registry/tgt/weaver.yaml"] = conf
        files["tpl/registry/tgt/t.j2"] = body.encode("utf-8", "surrogatepass")
        for d in ("out", "reg", "dep", "tpl", "md", "pol", "snip"):
            shutil.rmtree(os.path.join(w.cwd, d), ignore_errors=True)
        w.write({n: dump(rng, n, x) for n, x in files.items()})
        judge(c, f"expr-{kind}", w, rng, label, cmd, [f"{kind}: {e!r}"], deep=rng.random() < 0.5)
        c.count(f"expr_{kind}")
    shutil.rmtree(w.root)


def nesting(c):
    """a policy file of forty open brackets"""
    w = World(c, c.dir("nesting"))
    w.write({"reg/a.yaml": b"groups: []\n", "pol/p.rego": b"package after_resolution\nimport rego.v1\ndeny contains x if " + b"[" * 40 + b"\n"})
    r = w.run(["registry", "check", "-r", "reg", "-p", "pol"], cpu=10)
    c.saw("nesting")
    if crashed(r):
        c.violation("policy-nesting", f"{crashed(r)}: a policy file with 40 open brackets\n" + r.brief(), w.root)
    shutil.rmtree(w.root)


def main(tier, seed):
    c = Check("C17", tier, seed, "exploration",
              "a distinct set of diagnostic kinds with the command, its exit status and the kind of file damaged",
              ["commands that serve until told to stop are judged by C10, C16 and C18",
               "a processor time above 60 s, or 400 s of waiting, on these small inputs is taken for a hang",
               "what happens when standard output is closed early is not judged"])
    c.kinds = set()
    c.setup()
    os.chmod(c.work, 0o755)
    o = Once(c)
    c.map(lambda i: nesting(c) if i < 0 else case(o, i), range(-1, c.n(110, 2500)))
    c.map(lambda i: expr(o, i), range(c.n(110, 2500)))
    c.map(lambda i: odd(o, i), range(c.n(350, 4000)))
    c.count("diagnostic_kinds_seen", len(c.kinds))
    return c.finish()
