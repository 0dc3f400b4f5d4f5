"""C01: resolution is a function of the registry's content.

Every generated registry is resolved under perturbed schedules (injected delays at
file opens and reads, shuffled directory listings, several thread counts) and in
several layouts; the monitor compares bytes, exit status and the set of diagnostics."""
import collections
import os

from lib import reg, v1, v2, yamlout
from lib.common import Check, diff_json, stable_hash


def permute(rng, x, lists):
    """Reorders mapping keys everywhere, and the lists whose order carries no meaning."""
    if isinstance(x, dict):
        keys = list(x)
        rng.shuffle(keys)
        out = {}
        for k in keys:
            v = x[k]
            if k in lists and isinstance(v, list):
                v = v[:]
                rng.shuffle(v)
            out[k] = v if k in ("examples", "annotations") else permute(rng, v, lists)
        return out
    if isinstance(x, list):
        return [permute(rng, v, lists) for v in x]
    return x


V1_LISTS = {"groups", "attributes"}
V2_LISTS = set(v2.SECTIONS) | {"identity", "description"}


def adverse(kind, content, one_file):
    """Every item before what it depends on: in one file, or in one file each."""
    if kind == "v1":
        items = [("groups", g) for g in reversed(content)]
        head = {}
    else:
        items = [(s, x) for s in reversed(v2.SECTIONS) for x in reversed(content.get(s, []))]
        head = {"file_format": "definition/2"}
    files = {}
    for n, (sec, it) in enumerate(items):
        doc = files.setdefault("all.yaml" if one_file else f"n{n:03d}.yaml", dict(head))
        doc.setdefault(sec, []).append(it)
    return files


def break_it(rng, kind, files):
    """Plants a few faults so that the diagnostics of a failing registry are compared too."""
    paths = list(files)
    for _ in range(rng.randint(1, 3)):
        doc = files[rng.choice(paths)]
        if kind == "v1":
            g = rng.choice(doc["groups"])
            r = rng.random()
            if r < 0.3:
                g.setdefault("attributes", []).append({"ref": f"no.such.attr{rng.randrange(9)}"})
            elif r < 0.6:
                g["extends"] = f"no.such.group{rng.randrange(9)}"
            elif r < 0.8 and g["type"] == "metric":
                g.pop("unit", None)
            else:
                other = files[rng.choice(paths)]["groups"]
                other.append(dict(g))
        else:
            secs = [s for s in ("spans", "metrics", "events") if doc.get(s)]
            if secs:
                doc[rng.choice(secs)][0].setdefault("attributes", []).append({"ref": f"no.such.attr{rng.randrange(9)}"})
            else:
                doc.setdefault("metric_refinements", []).append(
                    {"id": f"bad{rng.randrange(99)}", "ref": "no.such.metric"})
    return files


def strip_paths(x):
    if isinstance(x, dict):
        return {k: strip_paths(v) for k, v in x.items() if k not in ("provenance", "path", "registry_url")}
    if isinstance(x, list):
        return [strip_paths(v) for v in x]
    return x


def bag(res, root):
    ds = reg.diags(res)
    if ds is None:
        return None
    return collections.Counter((d["diagnostic"].get("severity"), reg.normal_message(d["diagnostic"]["message"], root))
                               for d in ds)


def main(tier, seed):
    c = Check("C01", tier, seed, "exploration",
              "A case is a generated registry (v1 or v2 definitions, one in six with planted faults) resolved once "
              "undisturbed, then under several perturbed schedules (random delays at every open and read, shuffled "
              "directory listings, 1/2/8 loader threads), then in other layouts (definitions redistributed over other "
              "files and directories; groups, attributes and mapping keys reordered). Distinct: registry x observed "
              "file-open order for schedules, registry x layout for layouts. Non-trivial: at least two definition "
              "files.",
              ["the shim perturbs file access of the loader, not every instruction",
               "a registry that defines one attribute key twice is not a valid registry and is not laid out anew"])
    c.setup(shim=True)
    orders = set()

    def case(i):
        rng = c.rng("case", i)
        kind = "v1" if i % 2 == 0 else "v2"
        broken = i % 6 == 5 or i % 6 == 2
        if kind == "v1":
            content = v1.deep_groups(rng) if i % 8 == 4 else v1.gen(rng)
            files = v1.split_files(rng, content, rng.randint(2, 8))
        else:
            content = v2.gen_deep(rng) if i % 8 == 3 else v2.gen(rng)
            files = v2.split_files(rng, content, rng.randint(2, 8))
        if broken:
            import copy
            files = break_it(rng, kind, copy.deepcopy(files))
        root = c.dir(f"c{i}/reg")
        reg.write_tree(root, files, rng)
        v2flag = ["--v2"] if kind == "v2" or rng.random() < 0.4 else []
        fmt = rng.choice(["json", "yaml", "json"])
        args = ["registry", "resolve", "-r", root, "--format", fmt, "--diagnostic-format", "json"] + v2flag
        base = c.run(args)
        if base.timed_out:
            raise RuntimeError("baseline run timed out")
        bb = bag(base, root)
        multi = len(files) >= 2
        for k in range(c.n(5, 10)):
            log = os.path.join(c.work, f"c{i}/log{k}")
            threads = rng.choice(["1", "2", "3", "8"])
            env = {"RAYON_NUM_THREADS": threads,
                   "PERTURB_MAX_US": rng.choice(["200", "2000", "8000"])}
            r = c.run(args, perturb=rng.randrange(1 << 30), env=env, perturb_log=log)
            if r.timed_out:
                c.count("timeouts")
                continue
            order = ""
            if os.path.exists(log):
                order = open(log).read().replace(root, "")
                os.unlink(log)
            sig = stable_hash([i, order])
            orders.add(sig)
            c.saw(("s" + sig) if multi else None,
                  sample={"registry": i, "kind": kind, "threads": threads, "open_order": order.split()[:8]}
                  if k == 0 else None)
            if (r.rc, r.out) != (base.rc, base.out):
                c.violation(f"schedule/{kind}/case{i}",
                            f"two runs on the same registry differ (threads={threads}): rc {base.rc} vs {r.rc}\n"
                            + first_diff(base.out, r.out), keep=root)
            else:
                rb = bag(r, root)
                if rb != bb:
                    c.violation(f"schedule-diagnostics/{kind}/case{i}",
                                f"the set of diagnostics differs between runs:\nonly first: {(bb or {}) - (rb or {}) if bb is not None and rb is not None else bb}"
                                f"\nonly second: {(rb or {}) - (bb or {}) if bb is not None and rb is not None else rb}", keep=root)
        if broken:
            c.count("broken_registries")
            return
        if base.rc != 0:
            c.violation(f"rejected/{kind}/case{i}", "a valid registry is rejected\n" + base.brief(), keep=root)
            return
        jargs = ["--format", "json"] + v2flag
        b0 = c.run(["registry", "resolve", "-r", root] + jargs)
        ref = strip_paths(b0.json())
        for k in range(c.n(3, 6)):
            if k == 0:
                nf = adverse(kind, content, one_file=i % 3 == 0)
            elif kind == "v1":
                nf = v1.split_files(rng, content, rng.randint(1, 9))
                nf = {p: permute(rng, d, V1_LISTS) for p, d in nf.items()}
            else:
                nf = v2.split_files(rng, content, rng.randint(1, 9))
                nf = {p: permute(rng, d, V2_LISTS) for p, d in nf.items()}
            r2 = os.path.join(c.work, f"c{i}/lay{k}")
            reg.write_tree(r2, nf, rng)
            r = c.run(["registry", "resolve", "-r", r2] + jargs)
            if r.timed_out:
                c.count("timeouts")
                continue
            c.saw("l" + stable_hash([i, sorted(nf)]))
            c.count("layouts")
            if r.rc != 0:
                c.violation(f"layout/{kind}/case{i}", "another layout of a valid registry is rejected\n" + r.brief(),
                            keep=[root, r2])
                continue
            d = diff_json(ref, strip_paths(r.json()))
            if d:
                c.violation(f"layout/{kind}/case{i}", "another layout resolves differently:\n" + "\n".join(d),
                            keep=[root, r2])

    c.map(case, range(c.n(360, 4000)))
    c.counters["distinct_open_orders"] = len(orders)
    return c.finish()


def first_diff(a, b):
    la, lb = a.splitlines(), b.splitlines()
    for n, (x, y) in enumerate(zip(la, lb)):
        if x != y:
            return f"line {n + 1}: {x[:200]!r} vs {y[:200]!r}"
    return f"lengths {len(la)} vs {len(lb)} lines"
