"""C09: statistics, filters, exit status and output formats agree with the findings.

A generated registry, history and configuration (finding filters, level overrides, threshold) go through
`registry live-check` once per output format and mode. The findings are those of the reference model after the
configured rules; every statistic is recomputed from the reported findings; every format carries the same."""
import fnmatch
import json
import os
import re
import struct

from lib import live
from lib.common import Check, stable_hash, diff_json
from props import c08
from props.c02 import Loader as BaseLoader

import yaml


class Loader(BaseLoader):
    pass


def tagged(loader, suffix, node):
    return {suffix: loader.construct_mapping(node, deep=True) if isinstance(node, yaml.MappingNode)
            else loader.construct_scalar(node)}


Loader.add_multi_constructor("!", tagged)

IDS = ["missing_attribute", "template_attribute", "deprecated", "not_stable", "type_mismatch", "undefined_enum_variant",
       "missing_namespace", "invalid_format", "illegal_namespace", "extends_namespace", "required_attribute_not_present",
       "recommended_attribute_not_present", "opt_in_attribute_not_present", "missing_metric", "missing_event",
       "unexpected_instrument", "unit_mismatch", "entity_required_attribute_not_present",
       "entity_association_not_satisfied", "no_such_id"]
LV = list(live.LEVELS)


# ------------------------------------------------------------- configuration
def globs(rng, names):
    out = []
    for _ in range(rng.randint(1, 2)):
        n = rng.choice(names)
        q = rng.random()
        if q < 0.4:
            out.append(n)
        elif q < 0.65:
            out.append(n.split(".")[0] + ".*" if "." in n else n[:2] + "*")
        elif q < 0.75:
            out.append("*." + n.split(".")[-1])
        elif q < 0.85:
            out.append("*")
        elif q < 0.92:
            out.append(n[:-1] + "?")
        else:
            out.append("{" + n + ",zzz}")
    return out


def match(p, name):
    """The glob language used: `*` any text, `?` one character, `{a,b}` alternatives."""
    if p.startswith("{"):
        return name in p[1:-1].split(",")
    return fnmatch.fnmatchcase(name, p)


def rules(rng, names):
    fs, os_ = [], []
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        f = {}
        for k, p in (("exclude", 0.5), ("min_level", 0.25), ("exclude_samples", 0.3)):
            if rng.random() < p:
                f[k] = {"exclude": lambda: rng.sample(IDS, rng.randint(0, 3)), "min_level": lambda: rng.choice(LV),
                        "exclude_samples": lambda: globs(rng, names)}[k]()
        if rng.random() < 0.4:
            f["signal_type"] = rng.choice(["span", "metric", "log", "resource", "nothing"])
        if rng.random() < 0.4:
            f["sample_names"] = globs(rng, names)
        fs.append(f)
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        o = {"level": rng.choice(LV)}
        if rng.random() < 0.7:
            o["ids"] = rng.sample(IDS, rng.randint(1, 6))
        if rng.random() < 0.4:
            o["signal_type"] = rng.choice(["span", "metric", "log", "resource"])
        if rng.random() < 0.4:
            o["sample_names"] = globs(rng, names)
        os_.append(o)
    return fs, os_


def toml(fs, os_):
    out = []
    for sec, l in (("finding_filters", fs), ("finding_level_overrides", os_)):
        for x in l:
            out.append(f"[[live-check.{sec}]]")
            out += [f"{k} = {json.dumps(v, ensure_ascii=False)}" for k, v in x.items()]
    return "\n".join(out) + "\n"


def sample_name(kind, x):
    if kind in ("attribute", "span", "span_event", "instrumentation_scope", "metric"):
        return x["name"]
    return x["event_name"] if kind == "log" else None


def scoped(rule, f, name):
    if rule.get("signal_type") is not None and f["signal_type"] != rule["signal_type"]:
        return False
    return not rule.get("sample_names") or (name is not None and any(match(p, name) for p in rule["sample_names"]))


def apply(fs, os_, f, name):
    f = dict(f)
    for o in os_:
        if scoped(o, f, name) and ("ids" not in o or f["id"] in o["ids"]):
            f["level"] = o["level"]
            break
    for r in fs:
        if scoped(r, f, name) and (f["id"] in r.get("exclude", []) or
                                   ("min_level" in r and live.LEVELS[f["level"]] < live.LEVELS[r["min_level"]]) or
                                   (name is not None and any(match(p, name) for p in r.get("exclude_samples", [])))):
            return None
    return f


# ---------------------------------------------------------------- statistics
def inc(d, k):
    d[k] = d.get(k, 0) + 1


def statistics(r, model, samples):
    """Recomputed from the report itself."""
    s = {"total_entities": 0, "total_entities_by_type": {}, "total_advisories": 0, "advice_level_counts": {},
         "highest_advice_level_counts": {}, "no_advice_count": 0, "advice_type_counts": {}, "advice_message_counts": {},
         "seen_non_registry_attributes": {}, "seen_non_registry_metrics": {}, "seen_non_registry_events": {}}
    for k in ("attributes", "metrics", "events"):
        s["seen_registry_" + k] = {a["name"]: 0 for a in r[k] if "deprecated" not in a}

    def see(k, n):
        inc(s["seen_registry_" + k] if n in s["seen_registry_" + k] else s["seen_non_registry_" + k], n)

    for p, (kind, res) in live.observed(samples).items():
        s["total_entities"] += 1
        inc(s["total_entities_by_type"], kind)
        advice = (res or {}).get("all_advice", [])
        for f in advice:
            s["total_advisories"] += 1
            inc(s["advice_level_counts"], f["level"])
            inc(s["advice_type_counts"], f["id"])
            inc(s["advice_message_counts"], f["message"])
        if advice:
            inc(s["highest_advice_level_counts"], max((f["level"] for f in advice), key=live.LEVELS.get))
        else:
            s["no_advice_count"] += 1
        (tk, tx), = samples[int(re.match(r"\d+", p)[0])].items()
        x = c08.entity(tx, p)
        if kind == "attribute":
            d = model.lookup(x["name"])
            see("attributes", d["name"] if d else x["name"])
        elif kind == "metric":
            see("metrics", x["name"])
        elif kind == "log" and x["event_name"]:
            see("events", x["event_name"])
    reg = [v for k in ("attributes", "metrics", "events") for v in s["seen_registry_" + k].values()]
    s["registry_coverage"] = sum(v > 0 for v in reg) / len(reg) if reg else 0.0
    return s


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


# ------------------------------------------------------------------- formats
def ansi_strip(t):
    return re.sub(r"\x1b\[[0-9;]*m", "", t)


def parse(fmt, stream, text):
    """-> samples, statistics (None when absent)."""
    if fmt == "json" and not stream:
        d = json.loads(text)
        return d["samples"], d.get("statistics")
    if fmt == "yaml" and not stream:
        d = yaml.load(text, Loader)
        return d["samples"], d.get("statistics")
    if fmt == "jsonl":
        docs = [json.loads(l) for l in text.splitlines() if l.strip()]
    elif fmt == "json":
        docs, dec, i = [], json.JSONDecoder(), 0
        while True:
            m = re.compile(r"\s*").match(text, i)
            i = m.end()
            if i >= len(text):
                break
            d, i = dec.raw_decode(text, i)
            docs.append(d)
    else:
        docs = [yaml.load(t, Loader) for t in re.split(r"\n\n(?=\S)", text) if t.strip()]
    stats = None
    if docs and (docs[-1] is None or "total_entities" in docs[-1]):
        stats = docs.pop()
    return docs, stats


def ansi_counts(text):
    """Findings as (level, message), and the totals of the statistics section."""
    t = ansi_strip(text)
    head, sep, tail = t.partition("\nSamples\n")
    if not sep and t.startswith("Samples\n"):
        head, tail = "", t[8:]
    found = sorted(re.findall(r"^ *- \[(\w+)\] (.*)$", head, re.M))
    nums = re.findall(r"^ +- (.+): (\d+)$", tail, re.M)
    cov = re.findall(r"- total seen: ([\d.]+)%", tail)
    return found, nums, cov


def unescape(s):
    def f(m):
        e = m[1]
        if e.startswith("u{"):
            return chr(int(e[2:-1], 16))
        return {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(e, e)
    return re.sub(r"\\(u\{[0-9a-f]+\}|.)", f, s)


def emitted(text):
    """Log records printed by the OTLP stdout exporter."""
    out = []
    for rec in re.split(r"^Log #\d+$", text, flags=re.M)[1:]:
        g = lambda rx: next((unescape(x) for x in re.findall(rx, rec)), None)
        a = lambda n: g(re.escape("weaver.finding." + n) + r': String\((?:Owned|Static|Boxed)\("(.*)"\)\)$'.replace("$", "(?m:$)"))
        out.append({"event": g(r'EventName: "(.*)"'), "sev": g(r"SeverityNumber: (\w+)"),
                    "message": g(r'Body: String\((?:Owned|Static|Boxed)\("(.*)"\)\)(?m:$)'), "id": a("id"), "level": a("level"),
                    "signal_type": a("signal.type"), "signal_name": a("signal.name")})
    return out


# ----------------------------------------------------------------------- case
def case(c, i):
    rng = c.rng("case", i)
    base = c.dir(f"k{i}")
    r, root, flags, mode = c08.build(c, base, rng, i)
    if root is None:
        c.count("registries_not_packaged")
        return
    tel = live.Telemetry(rng, r)
    samples = [tel.sample() for _ in range(rng.choice([0, 1, 3, 6, 10, 20, 30]))]
    names = [a["name"] for a in r["attributes"]] + [m["name"] for m in r["metrics"] + r["events"]] + \
        ["GET /x", "exception", "lib", "flat", "no.such.thing"]
    fs, os_ = rules(rng, names)
    open(f"{base}/.weaver.toml", "w").write(toml(fs, os_))
    json.dump(samples, open(f"{base}/in.json", "w"))
    fail = rng.choice([None, None, "violation", "improvement", "information", "none"])
    key = f"case{i}"
    model = live.Model(r)
    want = {}
    for p, (kind, found) in model.check(samples).items():
        (tk, tx), = samples[int(re.match(r"\d+", p)[0])].items()
        n = sample_name(kind, c08.entity(tx, p))
        want[p] = (kind, [g for g in (apply(fs, os_, f, n) for f in found) if g is not None])
    args = ["registry", "live-check", "-r", root, *flags, "--input-source", "in.json", "--input-format", "json"]
    if fail:
        args += ["--fail-on", fail]
    runs = [("json", False, False)]
    runs += [rng.choice([("json", True, False), ("jsonl", True, False), ("jsonl", False, False), ("yaml", True, False),
                         ("yaml", False, False)]),
             rng.choice([("ansi", True, False), ("ansi", False, False), ("dir", False, False), ("otlp", False, False)])]
    if rng.random() < 0.15:
        runs.append((rng.choice(["json", "jsonl", "yaml"]), rng.random() < 0.5, True))
    top = max((live.LEVELS[f["level"]] for _, l in want.values() for f in l), default=-1)
    thr = {"none": 9}.get(fail or "violation", live.LEVELS.get(fail or "violation"))
    ref = ref_stats = None
    for fmt, stream, nostats in runs:
        k2 = f"{key}/{fmt}{'-stream' if stream else ''}{'-nostats' if nostats else ''}"
        a = args + (["--no-stats"] if nostats else [])
        rf = fmt
        if fmt in ("dir", "otlp"):
            rf = rng.choice(["json", "jsonl", "yaml"]) if fmt == "dir" else "json"
            a += ["-o", "out"]
        a += ["--format", rf]
        if fmt == "otlp":
            a += ["--emit-otlp-logs", "--otlp-logs-stdout"]
        if not stream:
            a += ["--no-stream"]
        res = c.run(a, cwd=base)
        if res.timed_out:
            c.count("timeouts")
            return
        exp_rc = 1 if top >= thr and not nostats else 0
        c.saw(stable_hash([r, samples, fs, os_, fail, fmt, stream, nostats]), 2,
              sample={"mode": mode, "samples": len(samples), "filters": fs, "overrides": os_, "fail_on": fail,
                      "format": fmt})
        c.count(f"format:{fmt}")
        c.count(f"exit:{exp_rc}")
        if res.rc != exp_rc:
            c.violation(k2 + "/exit", f"exit status {res.rc}, expected {exp_rc}: threshold {fail or 'default'}, highest "
                        f"level of a finding {[n for n, v in live.LEVELS.items() if v == top]}\n" + res.brief(), keep=base)
            return
        text = res.out
        if fmt in ("dir", "otlp"):
            try:
                text = open(f"{base}/out/live_check.{rf}").read()
            except OSError:
                c.violation(k2, f"no report in the output directory: {os.listdir(base + '/out') if os.path.isdir(base + '/out') else None}",
                            keep=base)
                return
            for f in os.listdir(base + "/out"):
                os.unlink(f"{base}/out/{f}")
        if fmt == "ansi":
            ansi(c, k2, base, want, ref_stats, text)
            continue
        try:
            got, stats = parse(rf, stream and fmt not in ("dir", "otlp"), text)
        except Exception as e:
            c.violation(k2, f"unreadable report: {e}\n" + res.brief(), keep=base)
            return
        if len(got) != len(samples):
            c.violation(k2, f"{len(samples)} samples, {len(got)} in the report", keep=base)
            return
        if ref is None:
            c08.judge(c, k2, want, live.observed(got), base)
            ref = got
            exp = statistics(r, model, got)
            ref_stats = stats
            d = diff_json({k: v for k, v in exp.items() if k != "registry_coverage"},
                          {k: v for k, v in (stats or {}).items() if k != "registry_coverage"})
            if not d and abs((stats or {}).get("registry_coverage", -1) - exp["registry_coverage"]) > 1e-6:
                d = [f"registry_coverage {stats.get('registry_coverage')} instead of {exp['registry_coverage']}"]
            if d:
                c.violation(k2 + "/stats", "the statistics differ from those of the reported findings:\n" + "\n".join(d),
                            keep=base)
                return
        else:
            d = diff_json(norm(ref), norm(got))
            if d:
                c.violation(k2, f"{fmt} report differs from the JSON report:\n" + "\n".join(d), keep=base)
                return
            if nostats:
                if stats is not None:
                    c.violation(k2, f"statistics given in spite of --no-stats: {json.dumps(stats)[:300]}", keep=base)
            else:
                d = diff_json(norm(ref_stats), norm(stats))
                if d:
                    c.violation(k2, f"{fmt} statistics differ from the JSON report:\n" + "\n".join(d), keep=base)
        if fmt == "otlp":
            exp = sorted(json.dumps([f["id"], f["level"], f["message"], f["signal_type"], f["signal_name"]])
                         for _, l in want.values() for f in l)
            recs = emitted(res.out)
            seen = sorted(json.dumps([f["id"], f["level"], f["message"], f["signal_type"], f["signal_name"]]) for f in recs)
            c.count("log_records", len(recs))
            if exp != seen:
                c.violation(k2, f"log records missing {[x for x in exp if x not in seen][:4]} unexpected "
                            f"{[x for x in seen if x not in exp][:4]} ({len(exp)} findings, {len(seen)} records)", keep=base)
            for f in recs:
                if f["event"] != "weaver.live_check.finding" or \
                        f["sev"] != {"violation": "Error", "improvement": "Warn", "information": "Info"}.get(f["level"]):
                    c.violation(k2, f"log record {f}", keep=base)
                    break


def norm(x):
    """Order of findings apart (policies give a set), numbers as numbers."""
    if isinstance(x, dict):
        x = {k: norm(v) for k, v in x.items()}
        if isinstance(x.get("all_advice"), list):
            x["all_advice"] = sorted(x["all_advice"], key=lambda f: json.dumps(f, sort_keys=True))
        return x
    if isinstance(x, list):
        return [norm(v) for v in x]
    if isinstance(x, float):
        return round(x, 6)
    return x


def ansi(c, key, base, want, stats, text):
    found, nums, cov = ansi_counts(text)
    exp = sorted((f["level"], f["message"].split("\n")[0].rstrip()) for _, l in want.values() for f in l)
    found = sorted((a, b.rstrip()) for a, b in found)
    if exp != found:
        c.violation(key, f"findings missing {[x for x in exp if x not in found][:4]} unexpected "
                    f"{[x for x in found if x not in exp][:4]} ({len(exp)} expected, {len(found)} shown)", keep=base)
        return
    if stats is None:
        return
    w = [("total", stats["total_entities"])]
    if stats["total_entities"]:
        w += list(stats["total_entities_by_type"].items()) + [("no advice", stats["no_advice_count"])] + \
            list(stats["highest_advice_level_counts"].items())
    w += [("total", stats["total_advisories"])]
    if stats["total_advisories"]:
        w += list(stats["advice_level_counts"].items()) + list(stats["advice_type_counts"].items()) + \
            list(stats["advice_message_counts"].items())
    w = sorted((k, str(v)) for k, v in w if "\n" not in k)
    if w != sorted(nums):
        c.violation(key, f"totals missing {[x for x in w if x not in nums][:6]} unexpected "
                    f"{[x for x in nums if x not in w][:6]}", keep=base)
    if len(cov) != 1 or abs(float(cov[0]) - 100 * stats["registry_coverage"]) > 0.011:
        c.violation(key, f"coverage {cov} shown, {stats['registry_coverage']} in the report", keep=base)


def main(tier, seed):
    c = Check("C09", tier, seed, "exploration",
              "A case is a registry, 0-30 samples, a configuration of filters and level overrides and a threshold, run in "
              "3-4 output formats and modes. Distinct: by all of these. Every statistic of the report is recomputed from "
              "its findings; non-trivial: every case (an empty run must give zero totals).",
              ["the reference model in lib/live.py states the documented rules",
               "registry items that are deprecated do not count towards coverage"])
    c.setup()
    c.map(lambda i: case(c, i), range(c.n(420, 6000)))
    return c.finish()
