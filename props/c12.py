"""C12: generation writes exactly the files its configuration selects, with exactly the data selected.

Templates that echo all they are given (data, parameters, text maps, acronyms, white space control) are rendered by
`registry generate` over generated registries, configurations spread over several files, and parameters from every source.
The files expected, and what they hold, are computed here from the resolved registry and the documented rules."""
import copy
import json
import os
import resource
import shutil
import signal
import subprocess

from lib import reg, v1, v2, yamlout
from lib.common import Check, diff_json, stable_hash

V2KEY = {"attributes": "key", "metrics": "name", "events": "name", "spans": "type", "entities": "type",
         "attribute_groups": "id"}


# ------------------------------------------------------------- semconv filters
def stability_ok(x, opts):
    st = x.get("stability")
    if opts.get("stable_only") and st != "stable":
        return False
    ex = opts.get("exclude_stability")
    if ex is not None:
        ex = list(ex)
        if "experimental" in ex:
            ex += ["development", "alpha", "beta", "release_candidate", "", None]
        if st in ex:
            return False
    return True


def annotation_ok(x, opts):
    if "ignore_code_generation_annotations" in opts:
        return True
    e = ((x.get("annotations") or {}).get("code_generation") or {}).get("exclude")
    return e is None or e is False


def keep(items, opts):
    """The items, and the members of their enumerations, that pass the options"""
    out = []
    for x in items:
        if not (stability_ok(x, opts) and annotation_ok(x, opts)):
            continue
        if opts.get("exclude_deprecated") is True and "deprecated" in x:
            continue
        x = copy.deepcopy(x)
        t = x.get("type")
        if isinstance(t, dict) and "members" in t:
            t["members"] = [m for m in t["members"] if stability_ok(m, opts) and annotation_ok(m, opts) and
                            not (opts.get("exclude_deprecated") is True and "deprecated" in m)]
        out.append(x)
    return out


def order(*keys):
    return lambda x: [(0, "") if x.get(k) is None else (1, x[k]) for k in keys]


def sem(doc, what, opts, grouped):
    """The documented meaning of semconv_<what>($options) and semconv_grouped_<what>($options)"""
    two = opts.get("v2") is True
    if what == "attributes":
        if two:
            items = [dict(a, root_namespace=a["key"].split(".")[0]) for a in doc["registry"].get("attributes", [])]
        else:
            items = [dict(a, root_namespace=a["name"].split(".")[0] if "." in a["name"] else "other")
                     for g in doc["groups"] if g["type"] == "attribute_group" and g["id"].startswith("registry.")
                     for a in g.get("attributes", [])]
        items = keep(items, opts)
        names = ["root_namespace", "key" if two else "name"]
    else:
        if two:
            items = [dict(s, root_namespace=s[V2KEY[what]].split(".")[0]) for s in doc["registry"].get(what, [])]
        else:
            one = {"metrics": "metric", "events": "event", "spans": "span", "entities": "entity"}[what]
            items = [dict(g, root_namespace=g["id"].split(".")[1] if "." in g["id"] else "other")
                     for g in doc["groups"] if g["type"] == one]
        items = keep(items, opts)
        for s in items:
            if s.get("attributes") is not None:
                s["attributes"] = keep(s["attributes"], opts)
        items.sort(key=order("root_namespace"))
        names = {"metrics": ["name" if two else "metric_name"], "events": ["name"], "spans": ["type"],
                 "entities": ["type"]}[what]
    if "exclude_root_namespace" in opts:
        items = [x for x in items if x["root_namespace"] not in opts["exclude_root_namespace"]]
    items.sort(key=order(*names))
    if not grouped:
        return items
    out = {}
    for x in items:
        out.setdefault(x["root_namespace"], []).append(x)
    return [{"root_namespace": ns, what: sorted(l, key=order(names[-1]))} for ns, l in sorted(out.items())]


# ---------------------------------------------------------------------- filters
def filters(rng, form, doc, params):
    """-> (jq text, kind, function of (doc, params), key of an element or None); kind: list, stream or value"""
    w = rng.choice(v1.WORDS)
    st = rng.choice(v1.STAB)
    opts = {}
    if rng.random() < 0.4:
        opts["stable_only"] = rng.choice([True, True, False])
    if rng.random() < 0.4:
        opts["exclude_deprecated"] = rng.choice([True, True, False])
    if rng.random() < 0.4:
        opts["exclude_root_namespace"] = rng.sample(v1.WORDS, rng.randint(0, 6))
    if rng.random() < 0.3:
        opts["exclude_stability"] = rng.sample(v1.STAB + ["experimental"], rng.randint(0, 3))
    if rng.random() < 0.3:
        opts["ignore_code_generation_annotations"] = True
    what = rng.choice(["attributes", "metrics", "events", "spans", "entities"])
    grouped = rng.random() < 0.6
    if form == "v2":
        opts["v2"] = True
    name = f"semconv_{'grouped_' if grouped else ''}{what}"
    lit = json.dumps(opts)
    elem = "root_namespace" if grouped else (
        V2KEY[what] if form == "v2" else {"attributes": None}.get(what, "id"))
    semf = [(f"{name}({lit})", "list", lambda d, p: sem(d, what, opts, grouped), elem),
            (f"{name}({lit})", "list", lambda d, p: sem(d, what, opts, grouped), elem),
            (f"{name}({{\"v2\": {str(form == 'v2').lower()}}} + $sem)", "list",
             lambda d, p: sem(d, what, {"v2": form == "v2", **p["sem"]}, grouped), elem)]
    if form == "v1":
        semf.append((name, "list", lambda d, p: sem(d, what, {}, grouped), elem))
        typ = rng.choice(["metric", "span", "event", "entity", "attribute_group"])
        base = [
            (".", "value", lambda d, p: d, None),
            (".groups", "list", lambda d, p: d["groups"], "id"),
            (f'.groups[] | select(.type == "{typ}")', "stream", lambda d, p: [g for g in d["groups"] if g["type"] == typ], "id"),
            (f'[.groups[] | select(.stability == "{st}")]', "list",
             lambda d, p: [g for g in d["groups"] if g.get("stability") == st], "id"),
            (f'.groups | map(select(.id | startswith("{w[0]}")))', "list",
             lambda d, p: [g for g in d["groups"] if g["id"].startswith(w[0])], "id"),
            ('{p: $params, ids: [.groups[].id]}', "value",
             lambda d, p: {"p": p, "ids": [g["id"] for g in d["groups"]]}, None),
            ('[.groups[] | {id: .id, n: (.attributes | length), a: $alpha, b: $params.beta}]', "list",
             lambda d, p: [{"id": g["id"], "n": len(g.get("attributes", [])), "a": p["alpha"], "b": p.get("beta")}
                           for g in d["groups"]], "id"),
            ('.no_such_field', "value", lambda d, p: None, None),
            ('[.groups[] | select(.id == "no such")]', "list", lambda d, p: [], "id"),
        ]
    else:
        sec = rng.choice(list(V2KEY))
        base = [
            (".", "value", lambda d, p: d, None),
            (f".registry.{sec}", "list", lambda d, p: d["registry"].get(sec), V2KEY[sec]),
            (f'.registry.{sec}[] | select(.stability == "{st}")', "stream",
             lambda d, p: [g for g in d["registry"].get(sec) or [] if g.get("stability") == st], V2KEY[sec]),
            (f'[.registry.{sec}[] | {{k: .{V2KEY[sec]}, a: $alpha}}]', "list",
             lambda d, p: [{"k": g[V2KEY[sec]], "a": p["alpha"]} for g in d["registry"].get(sec) or []], "k"),
            ('{p: $params, r: .refinements}', "value", lambda d, p: {"p": p, "r": d.get("refinements")}, None),
            ('.nothing', "value", lambda d, p: None, None),
        ]
    return rng.choice(semf) if rng.random() < 0.55 else rng.choice(base)


# ----------------------------------------------------------------- configuration
VALUES = [0, 1, -7, 2.5, True, False, "text", "", "ünï ✓", "1", "true", "a/b", "<&\"'/>", ["x", 1], {"k": "v", "n": [1, 2]}]
PNAMES = ["alpha", "beta", "gamma", "delta", "my-param", "under_score"]
SYN = [("{{", "}}", "{%", "%}"), ("{{", "}}", "{%", "%}"), ("<<", ">>", "<%", "%>"), ("${", "}$", "@[", "]@")]
ACR = [["HTTP", "iOS"], ["API"], ["HtTp", "JSON"]]
TMAPS = [{"m": {"x": "X1", "y": "Y1"}}, {"m": {"x": "X2"}, "n": {"x": "N"}}, {"n": {"y": "Q"}}]


def level(rng, syntax, extra_null):
    c = {}
    if rng.random() < 0.7:
        c["params"] = {k: rng.choice(VALUES) for k in rng.sample(PNAMES, rng.randint(1, 4))}
        if extra_null and rng.random() < 0.4:
            c["params"][rng.choice(PNAMES)] = None
    if rng.random() < 0.4:
        c["acronyms"] = rng.choice(ACR)
    if rng.random() < 0.4:
        c["text_maps"] = rng.choice(TMAPS)
    if rng.random() < 0.5:
        c["whitespace_control"] = {k: rng.random() < 0.5 for k in
                                   rng.sample(["trim_blocks", "lstrip_blocks", "keep_trailing_newline"], rng.randint(1, 3))}
    return c


def merge(levels):
    """Later files override earlier ones; params, white space control and syntax by key."""
    out = {"params": {}, "whitespace_control": {}, "template_syntax": {}}
    for c in levels:
        for k, v in c.items():
            if k == "params":
                for n, x in v.items():
                    if x is None:
                        out["params"].pop(n, None)
                    else:
                        out["params"][n] = x
            elif k in ("whitespace_control", "template_syntax"):
                out[k].update(v)
            else:
                out[k] = v
    return out


HTML = {"&": "&amp;", "<": "&lt;", ">": "&gt;", '"': "&quot;", "'": "&#x27;", "/": "&#x2f;"}


class Tmpl:
    """One entry of `templates`, the template file it applies to, and the files it makes."""

    def __init__(self, rng, k, form, doc, params, syntax):
        self.rng, self.k, self.form = rng, k, form
        self.params = some_params(rng, 0) if rng.random() < 0.5 else None
        self.name = rng.choice([f"t{k}.txt.j2", f"sub/t{k}.j2", f"sub/deep/t{k}.md.j2", f"sub/t{k}.j2.md.j2"])
        self.glob = rng.choice([self.name, f"**/t{k}.*j2", "**/*t%d*" % k]) if "/" in self.name else \
            rng.choice([self.name, f"t{k}.*", f"t{k}.{{txt,md}}.j2"])
        self.filter, self.kind, self.fn, self.key = filters(rng, form, doc, params)
        self.literal = None
        if rng.random() < 0.12:                        # elements that are no objects
            self.literal = rng.sample(["a", "b c", 3, None, True, "x.y", -1], rng.randint(1, 4)) if rng.random() < 0.7 else [None, None]
            lit, self.key, self.kind = self.literal, None, "list"
            self.filter, self.fn = json.dumps(lit), lambda doc, params: lit
        if self.literal is not None:
            self.mode = rng.choice(["each", "each", "single"]) if self.literal != [None, None] else "single"
        elif self.key is None:
            self.mode = "single"
        else:
            self.mode = "each" if rng.random() < 0.7 or self.kind == "stream" else "single"
        self.escape = rng.choice([None, None, None, "none", "html", "json"])
        vs, ve, bs, be = syntax
        self.by = None
        self.file_name = None
        r = rng.random()
        if self.mode == "each" and self.literal:
            self.file_name = self.by = f"lit{k}/{vs} ctx {ve}.txt"
        elif self.mode == "each":
            expr = rng.choice([f"o{k}/{vs} ctx.{self.key} {ve}.txt", f"o{k}/{vs}ctx.{self.key}|replace('.','/'){ve}/f.x",
                               f"{vs} ctx['{self.key}'] {ve}_{k}"])
            if r < 0.75:
                self.file_name = expr
            self.by = expr
        elif r < 0.5:
            self.file_name = self.by = rng.choice([f"one{k}/x.txt", f"{vs}'q{k}'{ve}/{vs}params.alpha|string|length{ve}.txt"])
        elif r < 0.7:
            self.by = f"set{k}.out"
        self.when = None

    def out_name(self, x, params):
        by = self.by
        if by is None:
            b = os.path.basename(self.name)
            return b[:-3] if b.endswith(".j2") else b
        if by.startswith("lit"):
            return f"lit{self.k}/{'none' if x is None else jinja_str(x)}.txt"
        v = x.get(self.key) if self.key and isinstance(x, dict) else None
        if by.endswith(".txt") and by.startswith(f"o{self.k}/"):
            return f"o{self.k}/{v}.txt"
        if by.endswith("/f.x"):
            return f"o{self.k}/{v.replace('.', '/')}/f.x"
        if by.endswith(f"_{self.k}"):
            return f"{v}_{self.k}"
        if by.startswith("one") or by.startswith("set"):
            return by
        a = params["alpha"]
        return f"q{self.k}/{len(jinja_str(a))}.txt"

    def body(self, syntax):
        vs, ve, bs, be = syntax
        s = ""
        if self.file_name is None and self.by is not None:
            if self.mode == "each":
                e = self.by
                for a, b in ((f"{vs} ctx.{self.key} {ve}", f"ctx.{self.key}"), (f"{vs} ctx['{self.key}'] {ve}", f"ctx.{self.key}"),
                             (f"{vs}ctx.{self.key}|replace('.','/'){ve}", f"ctx.{self.key}|replace('.','/')")):
                    e = e.replace(a, f'" ~ ({b}) ~ "')
                s += f'{vs}- template.set_file_name("{e}") -{ve}'
            else:
                s += f'{vs}- template.set_file_name("{self.by}") -{ve}'
        s += (f'{vs} {{"ctx": ctx, "params": params.params, "tm": "x"|map_text("m", "DEF"), '
              f'"ac": "http"|acronym}}|tojson {ve}\n'
              f"@@@\n  {bs} if true {be}\nB\n  {bs} endif {be}\nC\n@@@\n")
        s += f"{vs} params.alpha {ve}\n@@@\n"
        s += f'{bs} include "inc/part.inc" {be}\n'
        return s


def some_params(rng, lo):
    """Parameters; null is a value like any other, but for `alpha`, which templates show."""
    return {n: None if n != "alpha" and rng.random() < 0.12 else rng.choice(VALUES)
            for n in rng.sample(PNAMES, rng.randint(lo, 3))}


def jinja_str(v):
    if v is True:
        return "true"
    if v is False:
        return "false"
    if isinstance(v, (dict, list)):
        return json.dumps(v, ensure_ascii=False)          # minijinja shows strings in quotes: same length here
    return str(v)


# ---------------------------------------------------------------------- registry
def clean_annotations(rng, x):
    """code_generation annotations in their documented form"""
    if isinstance(x, dict):
        if isinstance(x.get("annotations"), dict):
            x["annotations"].pop("code_generation", None)
            if rng.random() < 0.4:
                x["annotations"]["code_generation"] = rng.choice([{"exclude": True}, {"exclude": False}, {"other": 1}])
            elif not x["annotations"]:
                x["annotations"] = {"tier": 1}
        for k, v in x.items():
            if k != "annotations":
                clean_annotations(rng, v)
    elif isinstance(x, list):
        for v in x:
            clean_annotations(rng, v)


def make(rng, form, root):
    if form == "v1":
        g = v1.gen(rng)
        ren = {}
        for x in g:
            if x["type"] == "attribute_group" and rng.random() < 0.6:
                ren[x["id"]] = "registry." + x["id"]
            if x["type"] in ("attribute_group", "span", "metric") and rng.random() < 0.15:
                ren[x["id"]] = ren.get(x["id"], x["id"]) + rng.choice(["-ext", "-2"])
        for x in g:
            x["id"] = ren.get(x["id"], x["id"])
            if x.get("extends") in ren:
                x["extends"] = ren[x["extends"]]
        clean_annotations(rng, g)
        files = v1.split_files(rng, g, rng.randint(1, 5))
    else:
        g = v2.gen(rng)
        clean_annotations(rng, g)
        files = v2.split_files(rng, g, rng.randint(1, 4))
    reg.write_tree(root, files, rng)


def tree(d, skip=()):
    out = {}
    for r, ds, fs in os.walk(d):
        ds[:] = [x for x in ds if os.path.join(r, x) not in skip]
        for f in fs:
            p = os.path.join(r, f)
            if os.path.islink(p):
                out[os.path.relpath(p, d)] = "->" + os.readlink(p)
            else:
                with open(p, "rb") as h:
                    out[os.path.relpath(p, d)] = h.read()
    return out


def norm(x):
    """a missing field and a null one are the same to a template"""
    if isinstance(x, dict):
        return {k: norm(v) for k, v in x.items() if v is not None}
    if isinstance(x, list):
        return [norm(v) for v in x]
    return x


def limited(c, argv, cwd, env, size):
    """Runs the command with a limit on the size of the files it writes."""
    def pre():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (size, size))
    p = subprocess.run([c.weaver] + argv, cwd=cwd, env={"PATH": "/usr/bin:/bin", "LANG": "C.UTF-8", **env},
                       capture_output=True, timeout=120, preexec_fn=pre, stdin=subprocess.DEVNULL)
    return p.returncode, p.stderr.decode("utf-8", "replace")


def case(c, i):
    rng = c.rng("case", i)
    base = c.dir(f"g{i}")
    form = rng.choice(["v1", "v1", "v2", "v1as2"])
    root = os.path.join(base, "reg")
    make(rng, "v2" if form == "v2" else "v1", root)
    view = [] if form == "v1" else ["--v2"]
    if form == "v1as2":
        form = "v2"
    res = c.run(["registry", "resolve", "-r", root, "-f", "json", "--skip-policies", *view])
    if res.rc != 0:
        raise RuntimeError("resolve failed: " + res.brief())
    doc = json.loads(res.out)
    # ---- configuration files, outermost first
    home = os.path.join(base, "home")
    td = os.path.join(base, "up", "t")
    with_registry = rng.random() < 0.6
    target = rng.choice(["rust", "my-target", "a/b"])
    tdir = os.path.join(td, *(["registry"] if with_registry else []), target)
    places = [os.path.join(home, ".weaver"), base, os.path.join(base, "up"), td]
    p = td
    for part in os.path.relpath(tdir, td).split("/"):
        p = os.path.join(p, part)
        places.append(p)
    syntax = rng.choice(SYN)
    explicit = rng.random() < 0.06
    levels = [level(rng, syntax, n > 0) if rng.random() < 0.6 else {} for n in range(len(places))]
    if explicit:
        extra = [level(rng, syntax, n > 0) for n in range(rng.randint(1, 3))]
        levels, used = levels + extra, extra
    else:
        used = levels
    last = used[-1]
    at = rng.randrange(len(used))
    if syntax != SYN[0]:
        ts = {"variable_start": syntax[0], "variable_end": syntax[1], "block_start": syntax[2], "block_end": syntax[3]}
        if rng.random() < 0.5:                         # spread over two files
            used[at]["template_syntax"] = {k: ts[k] for k in list(ts)[:2]}
            if at + 1 < len(used):
                used[at + 1]["template_syntax"] = {"block_start": ts["block_start"], "block_end": ts["block_end"]}
            else:
                used[at]["template_syntax"] = ts
        else:
            used[at]["template_syntax"] = ts
    used[0].setdefault("params", {})["alpha"] = rng.choice(VALUES)
    used[0]["params"]["sem"] = rng.choice([{}, {"stable_only": True}, {"exclude_deprecated": True},
                                           {"exclude_root_namespace": v1.WORDS[:5]}])
    for u in used[1:]:
        if u.get("params", {}).get("alpha", 0) is None:
            u["params"]["alpha"] = 3
    conf = merge(used)
    cli, pfile = {}, {}
    if rng.random() < 0.4:
        cli = some_params(rng, 1)
    if rng.random() < 0.4:
        pfile = some_params(rng, 1)
    # ---- templates
    tmpls = [Tmpl(rng, k, form, doc, conf["params"], syntax) for k in range(rng.randint(1, 5))]
    entries = []
    for t in tmpls:
        t.eff = {**conf["params"], **(t.params or {}), **pfile, **cli}
        e = {"template": t.glob, "filter": t.filter, "application_mode": t.mode}
        if t.filter == "." and rng.random() < 0.5:
            del e["filter"]
        if rng.random() < 0.2:
            e["pattern"] = e.pop("template")
        if t.params is not None:
            e["params"] = t.params
        if t.file_name:
            e["file_name"] = t.file_name
        if t.escape:
            e["auto_escape"] = t.escape
        t.on = True
        if rng.random() < 0.35:
            e["when"], t.on = rng.choice([
                ("true", True), ("false", False), ("$params.beta == 1", t.eff.get("beta") in (1,) and t.eff.get("beta") is not True),
                ("$params | has(\"gamma\")", "gamma" in t.eff), ('$alpha == "text"', t.eff["alpha"] == "text"),
                ("(. | length) > 0", True)])
        entries.append(e)
    if len(used) > 1 and rng.random() < 0.3:           # overridden altogether by the deeper one
        used[rng.randrange(len(used) - 1)]["templates"] = [{"template": "**/*", "filter": ".", "application_mode": "single",
                                                             "file_name": "never.txt"}]
        conf = merge(used)
        for t in tmpls:
            t.eff = {**conf["params"], **(t.params or {}), **pfile, **cli}
    last["templates"] = entries
    for pl, lv in zip(places, levels):
        os.makedirs(pl, exist_ok=True)
        if lv:
            yamlout.write(os.path.join(pl, "weaver.yaml"), lv)
    for t in tmpls:
        p = os.path.join(tdir, t.name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(t.body(syntax))
    os.makedirs(os.path.join(tdir, "inc"), exist_ok=True)
    with open(os.path.join(tdir, "inc", "part.inc"), "w") as f:
        f.write("INCLUDED")
    out = os.path.join(base, "out", "deep")
    args = ["registry", "generate", target, out, "-r", root, "--skip-policies", "--diagnostic-format", "json", *view]
    cwd = base
    if rng.random() < 0.5:
        cwd = os.path.join(base, "up")
        args += ["-t", "t"]
    else:
        args += ["-t", td]
    if explicit:
        for n, lv in enumerate(extra):
            p = os.path.join(base, f"conf{n}.yaml")
            yamlout.write(p, lv)
            args += ["-c", p]
    if pfile:
        yamlout.write(os.path.join(base, "params.yaml"), {"params": pfile})
        args += ["--params", os.path.join(base, "params.yaml")]
    for n, v in cli.items():
        args += [rng.choice(["-D", "--param"]), f"{n}={json.dumps(v)}"]
    if rng.random() < 0.5:
        os.makedirs(out)
        with open(os.path.join(out, "keep.txt"), "w") as f:
            f.write("mine")
        pre = {"keep.txt": b"mine"}
    else:
        pre = {}
    # ---- what is expected
    want = {}
    for t in tmpls:
        if not t.on:
            continue
        v = t.fn(doc, t.eff)
        if t.mode == "each":
            elems = v if isinstance(v, list) else ([] if v is None and t.kind == "list" else [v])
            if v is None and t.kind == "list":
                elems = [None]
        else:
            elems = [] if v is None or v == [] else [v]
        for x in elems:
            if t.mode == "each" and not isinstance(x, dict) and not t.literal:
                raise RuntimeError("element is not an object")
            n = t.out_name(x, t.eff)
            if n in want:
                want[n] = None                          # two elements of one name: either may be last
            else:
                want[n] = (t, x)
    before = tree(base, skip=(os.path.join(base, "out"),))
    threads = rng.choice([1, 2, 3, 8])
    env = {"HOME": home, "RAYON_NUM_THREADS": str(threads)}
    res = c.run(args, cwd=cwd, env=env, perturb=i if i % 2 else None)
    key = f"case{i}"
    desc = f"form {form} target {target} syntax {syntax} explicit {explicit}\nconfig {json.dumps(conf, default=str)[:1500]}\n" \
           f"entries {json.dumps(entries)[:2500]}\ncli {cli} file {pfile}\n" + res.brief()
    c.saw(stable_hash([form, [e.get("filter") for e in entries], [e["application_mode"] for e in entries],
                       sorted(want), threads]), 1,
          sample={"case": key, "templates": len(tmpls), "files": len(want), "threads": threads} if want else None)
    if res.rc == 1 and explicit and "TOML parse" in res.err:
        c.violation("generate -c FILE", "the weaver.yaml file named by `-c` is taken for the project configuration\n" + desc, base)
        return
    if res.rc != 0:
        c.violation(f"{key}/exit", f"exit status {res.rc}\n" + desc, base)
        return
    c.count("files", len(want))
    c.count("empty_selections", sum(1 for t in tmpls if t.on and t.fn(doc, t.eff) in (None, [])))
    c.count("gated_off", sum(not t.on for t in tmpls))
    if not check_out(c, key, out, want, conf, pre, desc, base):
        return
    after = tree(base, skip=(os.path.join(base, "out"),))
    if after != before:
        d = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
        c.violation(f"{key}/effects", f"files outside of the output directory changed: {d[:10]}\n" + desc, base)
        return
    first = tree(out)
    if i % 3 == 0 and not any(w is None for w in want.values()):     # the same bytes on every run, and from scratch
        if i % 2:
            shutil.rmtree(out, ignore_errors=True)
            pre = {}
        env["RAYON_NUM_THREADS"] = str(9 - threads)
        res = c.run(args, cwd=cwd, env=env, perturb=i + 1000)
        again = tree(out) if os.path.isdir(out) else {}
        c.count("repeated")
        c.saw(None)
        if not pre:
            first.pop("keep.txt", None)
        if res.rc != 0 or again != first:
            d = sorted(k for k in set(first) | set(again) if first.get(k) != again.get(k))
            c.violation(f"{key}/repeat", f"a second run gives something else: exit {res.rc}, {d[:10]}\n" + desc, base)
            return
    if i % 4 == 0 and want:
        faults(c, i, rng, key, args, cwd, env, out, want, conf, tmpls, tdir, syntax, base, desc)


def check_out(c, key, out, want, conf, pre, desc, base, partial=False):
    got = tree(out) if os.path.isdir(out) else {}
    names = set(want) | set(pre)
    if (set(got) != names) if not partial else (not set(got) <= names):
        c.violation(f"{key}/files", f"missing {sorted(names - set(got))[:8]}, unexpected {sorted(set(got) - names)[:8]}\n" + desc,
                    base)
        return False
    for n, b in pre.items():
        if got.get(n) != b:
            c.violation(f"{key}/other", f"{n}, which is not generated, was changed\n" + desc, base)
            return False
    for n, w in want.items():
        if w is None or n not in got:
            continue
        t, x = w
        try:
            text = got[n].decode()
        except UnicodeDecodeError:
            c.violation(f"{key}/content", f"{n} is not UTF-8\n" + desc, base)
            return False
        bad = content(t, x, conf, text)
        c.saw(None)
        if bad:
            c.violation(f"{key}/content", f"{n}: {bad}\n--- content\n{text[:1500]}\n---\n" + desc, base)
            return False
    return True


def content(t, x, conf, text):
    """What is wrong with the content of a generated file, or None"""
    parts = text.split("@@@\n")
    if len(parts) != 4:
        return "the text of the template does not come through"
    try:
        echo = json.loads(parts[0])
    except ValueError as e:
        return f"the echoed data is not JSON: {e}"
    d = diff_json(norm(x), norm(echo["ctx"]))
    if d:
        return "ctx: " + "; ".join(d[:4])
    d = diff_json(t.eff, echo["params"])
    if d:
        return "params: " + "; ".join(d[:4])
    tm = conf.get("text_maps", {}).get("m", {}).get("x", "DEF")
    if echo["tm"] != tm:
        return f"text map gives {echo['tm']!r} instead of {tm!r}"
    ac = [a for a in conf.get("acronyms", []) if a.lower() == "http"]
    if echo["ac"] != (ac[0] if ac else "http"):
        return f"acronym gives {echo['ac']!r}, acronyms are {conf.get('acronyms')}"
    ws = conf["whitespace_control"]
    l, tr = ("" if ws.get("lstrip_blocks") else "  "), ("" if ws.get("trim_blocks") else "\n")
    exp = f"{l}{tr}B\n{l}{tr}C\n"
    if parts[1] != exp:
        return f"white space control {ws}: {parts[1]!r} instead of {exp!r}"
    a = t.eff["alpha"]
    shown = parts[2][:-1]
    if t.escape == "json":
        try:
            ok = json.loads(shown) == a
        except ValueError:
            ok = False
        if not ok:
            return f"value shown as {shown!r} with JSON escaping instead of {a!r}"
    elif isinstance(a, str):
        exp = "".join(HTML.get(ch, ch) for ch in a) if t.escape == "html" else a
        if shown != exp:
            return f"value shown as {shown!r} instead of {exp!r} (auto_escape {t.escape})"
    exp = "INCLUDED" + ("\n" if ws.get("keep_trailing_newline") and not ws.get("trim_blocks") else "")
    if parts[3] != exp and parts[3] != exp.rstrip("\n"):
        return f"included part is {parts[3]!r}"
    return None


def faults(c, i, rng, key, args, cwd, env, out, want, conf, tmpls, tdir, syntax, base, desc):
    """Something goes wrong: the command fails, and what was written all the same is right."""
    shutil.rmtree(out, ignore_errors=True)
    vs, ve, bs, be = syntax
    solid = [n for n, w in want.items() if w is not None]
    if not solid:
        return
    n = rng.choice(sorted(solid))
    t, x = want[n]
    kind = rng.choice(["template", "template", "syntax", "filter", "when", "glob", "directory", "full", "include", "name"])
    path = os.path.join(tdir, t.name)
    body = open(path).read()
    conf_path = None
    if kind == "template":
        k = t.key if t.mode == "each" else None
        cond = f"{bs} if ctx.{k} == \"{x[k]}\" {be}" if k else f"{bs} if true {be}"
        bad = body + cond + rng.choice([f"{vs} ctx.nothing.deeper.still {ve}", f"{vs} 1|no_such_filter {ve}",
                                        f"{vs} \"a\"|int {ve}" if False else f"{vs} no_such_function() {ve}"]) + f"{bs} endif {be}"
        with open(path, "w") as f:
            f.write(bad)
    elif kind == "include":
        with open(path, "w") as f:
            f.write(body + f'{bs} include "inc/not_there.inc" {be}')
    elif kind == "syntax":
        with open(path, "w") as f:
            f.write(body + f"{bs} if ctx {be}")
    elif kind == "directory":
        os.makedirs(os.path.join(out, n, "x"))
    elif kind in ("filter", "when", "glob", "name"):
        # an additional configuration on top of all others would replace `templates`: edit the one in force
        for pl in ([a for a, b in zip(args[1:], args) if b == "-c"][-1:] or [os.path.join(tdir, "weaver.yaml")]):
            conf_path = pl
        s = open(conf_path).read()
        e = {"template": t.name, "filter": ".", "application_mode": "single", "file_name": f"bad{i}"}
        if kind == "filter":
            e["filter"] = rng.choice([".groups[", "nothing_of_that_name", '"a" + {}', "error(\"x\")"])
        elif kind == "when":
            e["when"] = rng.choice(["1", "null", "\"true\"", "empty", ".no | select(. != null)", "[true]", "$params", "(("])
        elif kind == "glob":
            e["template"] = "no_such_*.j2"
        else:
            e["file_name"] = f"{vs} ctx.no.such.thing {ve}"
        from props.c02 import yaml_load
        d = yaml_load(s)
        d["templates"].append(e)
        yamlout.write(conf_path, d)
    if kind == "full":
        rc, err = limited(c, args, cwd, env, 10)
    else:
        res = c.run(args, cwd=cwd, env=env)
        rc, err = res.rc, res.err
    c.count("fault:" + kind)
    c.saw(stable_hash(["fault", kind, key]))
    if rc != 1 or "panicked" in err:
        c.violation(f"{key}/fault/{kind}", f"exit status {rc} although the generation of {n} cannot succeed\n{err[-1500:]}\n" + desc,
                    base)
        return
    if kind == "full":
        return
    if kind == "directory":
        shutil.rmtree(os.path.join(out, n))
    if kind in ("template", "include", "syntax"):
        # of the template that fails nothing is judged but the element that cannot be made
        names = {m: (w if w is None or w[0] is not t else None) for m, w in want.items()}
        if os.path.exists(os.path.join(out, n)):
            c.violation(f"{key}/fault/{kind}", f"{n} is written although its template fails\n" + desc, base)
            return
    else:
        names = want
    if os.path.isdir(out):
        check_out(c, f"{key}/fault/{kind}", out, names, conf, {}, desc, base, partial=True)


def main(tier, seed):
    c = Check("C12", tier, seed, "exploration",
              "A case is a generated registry rendered through generated templates and configuration; each generated file is "
              "one evaluation. Distinct: by filters, modes, files and threads.",
              ["the resolved registry itself is judged by C02 and C03",
               "two elements given the same file name leave one of the two: which one is not judged",
               "what the templates write beyond the data, by helper functions, is judged by C20"])
    c.setup(shim=True)
    c.map(lambda i: case(c, i), range(c.n(300, 4000)))
    return c.finish()
