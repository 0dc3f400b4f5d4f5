"""C21: archives and sub-folders never let a registry reach outside its own tree.

Each case is a small world owned by an unprivileged user: a home, a working directory, and files of others next to them, all of
them writable by that user so that an escape would succeed and show. The program runs there as that user, on generated
registries (policies, templates) packed in archives of every make, with entries that try to get out in hostile cases. A
monitor compares the whole world before and after (contents, modes, times of directories, hence transient files too), looks
for words of the outside files in what the program prints, and compares the result with that of the plain folder."""
import gzip
import io
import json
import os
import shutil
import signal
import stat
import subprocess
import tarfile
import threading
import time
import zipfile
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer

from lib import reg, v1, v2, yamlout
from lib.common import Check, Result, diff_json, stable_hash
from props.c12 import make

UID = 65534
SECRET = "zzsecretword"
OUT_YAML = f"""groups:
  - id: registry.{SECRET}
    type: attribute_group
    brief: {SECRET}
    attributes:
      - {{id: {SECRET}.key, type: string, brief: {SECRET}, stability: stable, examples: [a]}}
"""
POLICY = """package after_resolution
import rego.v1
deny contains {"type": "semconv_attribute", "id": "packed_policy", "category": "naming", "group": "g", "attr": "a"} if { true }
"""
DIRS = ["model", "data/files", "a/b/c", "model", "m o d/ü", "x.y/model", "model/model"]


class World:
    """-> a scratch directory with everything a case may touch"""

    def __init__(self, c, root):
        self.c, self.root = c, root
        self.home = os.path.join(root, "home")
        self.cwd = os.path.join(root, "cwd")
        self.outside = os.path.join(root, "outside")
        for d in (self.home, self.cwd, self.outside, os.path.join(self.home, ".weaver/vdir_cache"),
                  os.path.join(self.home, ".weaver/vdir_cache/other"), os.path.join(self.outside, "sub")):
            os.makedirs(d)
        for f in ("outside/secret.yaml", "outside/sub/secret.yaml", "home/secret.yaml", "cwd/secret.yaml",
                  "home/.weaver/secret.yaml", "home/.weaver/vdir_cache/other/secret.yaml"):
            with open(os.path.join(root, f), "w") as h:
                h.write(OUT_YAML)

    def own(self):
        for d, ds, fs in os.walk(self.root):
            for x in [d] + [os.path.join(d, f) for f in fs]:
                os.chown(x, UID, UID, follow_symlinks=False)
        os.chmod(self.root, 0o755)

    def run(self, args, timeout=120):
        e = {"HOME": self.home, "PATH": "/usr/bin:/bin", "LANG": "C.UTF-8", "TERM": "dumb", "RUST_BACKTRACE": "0"}
        args = [str(a) for a in args]
        t = time.time()
        p = subprocess.Popen([self.c.weaver] + args, cwd=self.cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, start_new_session=True, user=UID, group=UID, extra_groups=[])
        late = False
        try:
            o, r = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            late = True
            os.killpg(p.pid, signal.SIGKILL)
            o, r = p.communicate()
        return Result(args, p.returncode, o.decode("utf-8", "replace"), r.decode("utf-8", "replace"), late, time.time() - t)

    def snapshot(self):
        """everything in the world; the cache directory itself is the temporary area, its entries are judged, not its times"""
        cache = os.path.join(self.home, ".weaver/vdir_cache")
        out = {}
        for d, ds, fs in os.walk(self.root):
            for x in [d] + [os.path.join(d, f) for f in fs] + [os.path.join(d, s) for s in ds if
                                                               os.path.islink(os.path.join(d, s))]:
                st = os.lstat(x)
                rel = os.path.relpath(x, self.root)
                what = [oct(st.st_mode), st.st_uid]
                if stat.S_ISLNK(st.st_mode):
                    what.append(os.readlink(x))
                elif stat.S_ISREG(st.st_mode):
                    what += [st.st_mtime_ns, st.st_nlink, stable_hash(open(x, "rb").read())]
                elif x != cache:
                    what.append(st.st_mtime_ns)
                out[rel] = what
        return out


def entries(root, top, rng):
    """-> [(name in the archive, path or None for a directory, mode)]"""
    out = []
    for d, ds, fs in os.walk(root):
        rel = os.path.relpath(d, root)
        rel = "" if rel == "." else rel + "/"
        out.append((top + "/" + rel, None))
        out += [(top + "/" + rel + f, os.path.join(d, f)) for f in fs]
    if rng.random() < 0.4:
        out = [e for e in out if e[1]]
    if rng.random() < 0.3:
        rng.shuffle(out)
    return out


def tar(path, items, rng, fmt=None, readonly=False, level=None):
    """items: (name, content bytes | None for a directory | ("sym"|"hard"|"chr"|"fifo", target))"""
    buf = io.BytesIO()
    t = tarfile.open(fileobj=buf, mode="w", format=fmt if fmt is not None else
                     rng.choice([tarfile.GNU_FORMAT, tarfile.PAX_FORMAT]),
                     pax_headers={"comment": "0123456789abcdef"} if rng.random() < 0.3 else None)
    for name, what in items:
        i = tarfile.TarInfo(name.rstrip("/") if name != "/" else name)
        i.mtime = 1_700_000_000
        i.mode = 0o644
        data = None
        if what is None:
            i.type = tarfile.DIRTYPE
            i.mode = 0o555 if readonly else 0o755
        elif isinstance(what, tuple):
            i.type = {"sym": tarfile.SYMTYPE, "hard": tarfile.LNKTYPE, "chr": tarfile.CHRTYPE, "fifo": tarfile.FIFOTYPE,
                      "cont": tarfile.CONTTYPE}[what[0]]
            i.linkname = what[1]
        else:
            i.size = len(what)
            data = io.BytesIO(what)
            i.mode = 0o444 if readonly else 0o644
        t.addfile(i, data)
    t.close()
    with gzip.open(path, "wb", compresslevel=level or rng.randint(0, 9)) as f:
        f.write(buf.getvalue())


def zipped(path, items, rng):
    with zipfile.ZipFile(path, "w") as z:
        for name, what in items:
            i = zipfile.ZipInfo(name if what is not None or name.endswith("/") else name + "/", (2023, 1, 2, 3, 4, 6))
            i.compress_type = rng.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED])
            if isinstance(what, tuple):
                i.external_attr = (0o120777 if what[0] == "sym" else 0o100644) << 16
                z.writestr(i, what[1])
            elif what is None:
                i.external_attr = (0o40755 << 16) | 0x10
                z.writestr(i, b"")
            else:
                i.external_attr = (0o100644 if rng.random() < 0.8 else 0) << 16
                z.writestr(i, what)


def packed(root, sub, rng, hard=False):
    """-> the entries of an archive holding the tree `root` under `sub`, with other things around it"""
    top = rng.choice(["top", "semantic-conventions-1.0", "a b", "model", "."])
    items = [(top + "/", None)] if rng.random() < 0.7 else []
    inner = top + ("/" + sub if sub else "")
    if sub and rng.random() < 0.6:
        parts = sub.split("/")
        items += [(top + "/" + "/".join(parts[:i]) + "/", None) for i in range(1, len(parts))]
    for name, src in entries(root, inner, rng):
        items.append((name, open(src, "rb").read() if src else None))
    if sub:
        decoys = [f"{top}/{sub}2/d.yaml", f"{top}/x{sub}/d.yaml", f"{top}/other/{sub}/d.yaml", f"{top}/d.yaml",
                  f"{top}/{sub.upper()}/d.yaml"]
        if "/" in sub:
            decoys.append(f"{top}/{sub.rsplit('/', 1)[0]}/d.yaml")
        decoys = [(d, OUT_YAML.encode()) for d in decoys if rng.random() < 0.6]
        at = rng.randint(0, len(items))
        items[at:at] = decoys
    if hard:
        files = [k for k, (n, w) in enumerate(items) if isinstance(w, bytes) and (not sub or n.startswith(inner + "/"))]
        first = {}
        for k in files:
            n, w = items[k]
            if w in first:
                items[k] = (n, ("hard", first[w]))
            else:
                first[w] = n
    return items


def relative(doc, forms):
    """the resolved registry without the name it was given under"""
    def path(s):
        for f in sorted(forms, key=len, reverse=True):
            f = f.rstrip("/")
            if s.startswith(f + "/"):
                return os.path.normpath(s[len(f) + 1:])
        return s

    def walk(x):
        if isinstance(x, dict):
            return {k: path(v) if k == "path" and isinstance(v, str) else walk(v) for k, v in x.items()
                    if k != "registry_url"}
        if isinstance(x, list):
            return [walk(v) for v in x]
        return x
    return walk(doc)


def judge_effects(c, key, w, before, res, detail, keep, secret=True):
    after = w.snapshot()
    if res.timed_out:
        raise RuntimeError("timed out: " + res.brief())
    bad = []
    for k in sorted(set(before) | set(after)):
        if before.get(k) != after.get(k):
            bad.append(f"{k}: {before.get(k)} -> {after.get(k)}")
    if bad:
        c.violation(f"{key}-files", "files outside the temporary area, or left in it:\n" + "\n".join(bad[:10]) + "\n" + detail +
                    "\n" + res.brief(), keep)
    if res.panicked or res.rc not in (0, 1):
        c.violation(f"{key}-crash", detail + "\n" + res.brief(), keep)
    if secret and SECRET in res.out + res.err:
        c.violation(f"{key}-read", "something outside the archive was read\n" + detail + "\n" + res.brief(), keep)
    return not bad


# ------------------------------------------------------------------------- equivalence of the ways to name a registry
def equivalence(c, i, server):
    rng = c.rng("eq", i)
    w = World(c, c.dir(f"eq{i}"))
    form = rng.choice(["v1", "v2"])
    plain = os.path.join(w.root, "plain")
    make(rng, form, plain)
    if rng.random() < 0.3:
        # files with equal content, for hard links
        for n in ("README.md", "docs/README.md", "docs/other.md"):
            os.makedirs(os.path.dirname(os.path.join(plain, n)), exist_ok=True)
            open(os.path.join(plain, n), "w").write("same text\n")
    if rng.random() < 0.2:
        os.makedirs(os.path.join(plain, "long" * 20 + "/" + "name" * 20), exist_ok=True)
        os.rename(*[os.path.join(plain, x) for x in (lambda f: (f, "long" * 20 + "/" + "name" * 20 + "/" + os.path.basename(f)))(
            sorted(os.path.relpath(os.path.join(d, f), plain) for d, _, fs in os.walk(plain) for f in fs
                   if f.endswith((".yaml", ".yml")))[0])])
    if rng.random() < 0.3:
        os.makedirs(os.path.join(plain, "docs"), exist_ok=True)
        open(os.path.join(plain, "docs/empty.txt"), "w").close()
    q = rng.random()
    if q < 0.08:                                       # an empty file is no registry file
        broken = True
        open(os.path.join(plain, rng.choice(["zz.yaml", "docs.yml"])), "w").close()
    elif q < 0.2:
        broken = True
        open(os.path.join(plain, "broken.yaml"), "w").write("groups:\n  - id: broken\n    type: span\n    brief: x\n    span_kind: "
                                                            "client\n    attributes:\n      - ref: no.such.attribute\n")
    else:
        broken = False
    sub = rng.choice([None] + DIRS)
    hard = rng.random() < 0.3
    forms = []
    # folders
    for n in rng.sample(["reg", "re@g", "v@1.0/reg", "reg[x]", "a[b]/reg", "reg.v1[model]", "@reg", "sp ace", "ünï", "reg.git",
                         "x.zip.d"], 2):
        d = os.path.join(w.cwd, n)
        if not os.path.exists(d):
            shutil.copytree(plain, d)
        forms.append(rng.choice([n, "./" + n, n + "/", d, d + "/", "../cwd/" + n]))
    # archives
    for k in range(2):
        items = packed(plain, sub, rng, hard)
        name = rng.choice(["r", "r", "r", "a@b", "a[1]", "a b", "d/r"]) + str(k)
        os.makedirs(os.path.dirname(os.path.join(w.cwd, name)), exist_ok=True)
        if rng.random() < 0.5:
            name += ".tar.gz"
            tar(os.path.join(w.cwd, name), items, rng, readonly=rng.random() < 0.2)
        else:
            name += ".zip"
            # a zip archive has no hard links
            zipped(os.path.join(w.cwd, name), [(n, dict(items)[x[1]] if isinstance(x, tuple) else x) for n, x in items], rng)
        suffix = ""
        if sub:
            suffix = "[" + rng.choice([sub, sub, sub, sub + "/", "./" + sub]) + "]"
        if k and server and not set(name) & set("@ [/"):
            shutil.copy(os.path.join(w.cwd, name), os.path.join(server.root, f"{i}-{name}"))
            forms.append(f"{server.url}/{i}-{name}{suffix}")
        else:
            forms.append(rng.choice(["", "./", w.cwd + "/"]) + name + suffix)
    w.own()
    before = w.snapshot()
    extra = [] if form == "v1" and rng.random() < 0.5 else ["--v2"]
    want = None
    for f in [plain] + forms:
        r = w.run(["registry", "resolve", "-r", f, "-f", "json", "--quiet", "--skip-policies", "--diagnostic-format", "json"] + extra)
        kind = "archive" if f in forms[2:] else "folder"
        detail = f"registry {f!r} (sub-folder {sub!r}, {form}, hard links {hard})"
        judge_effects(c, f"eq{i}", w, before, r, detail, w.cwd)
        try:
            doc = relative(json.loads(r.out), forms + [plain]) if r.out.strip() else None
        except ValueError:
            c.violation(f"eq{i}-output", detail + "\n" + r.brief(), w.cwd)
            continue
        msgs = sorted(json.dumps(next(iter(d["error"])) if isinstance(d["error"], dict) else d["error"])
                      for d in reg.diags(r))
        if want is None:
            want = (r.rc, doc, msgs)
            if r.rc != (1 if broken else 0):
                raise RuntimeError("generator: " + r.brief())
            continue
        c.saw(stable_hash([form, sub, kind, hard, broken, doc]), sample=f"{detail}: exit {r.rc}" if i < 2 else None)
        c.count(f"forms_{kind}" if not f.startswith("http") else "forms_remote")
        if (r.rc, msgs) != (want[0], want[2]):
            c.violation(f"eq{i}-status", f"{detail}: exit {r.rc} {msgs}, as a plain folder {want[0]} {want[2]}\n" + r.brief(), w.cwd)
        else:
            d = diff_json(want[1], doc)
            if d:
                c.violation(f"eq{i}-result", f"{detail}: not the same result\n" + "\n".join(d), w.cwd)
    # other commands on the same archives, for what they leave behind
    f = forms[-1]
    for cmd in rng.sample([["check", "-r", f], ["stats", "-r", f], ["diff", "-r", f, "--baseline-registry", forms[-2],
                           "--diff-format", "json"], ["diff", "-r", plain, "--baseline-registry", f, "--diff-format", "json"],
                           ["json-schema"], ["check", "-r", plain, "--baseline-registry", f]], 2):
        r = w.run(["registry"] + cmd + ([] if cmd[0] in ("json-schema", "diff") else extra))
        if r.rc == 2:
            raise RuntimeError("usage: " + r.brief())
        judge_effects(c, f"eq{i}-{cmd[0]}", w, before, r, str(cmd), w.cwd)
        c.saw(None)
    shutil.rmtree(w.root)


# ---------------------------------------------------------------------------------------------------- missing sub-folders
def missing(c, i):
    rng = c.rng("miss", i)
    w = World(c, c.dir(f"ms{i}"))
    plain = os.path.join(w.root, "plain")
    make(rng, "v1", plain)
    sub = rng.choice(DIRS)
    items = packed(plain, sub, rng)
    names = {n.rstrip("/") for n, _ in items}
    name = "r.tar.gz" if i % 2 else "r.zip"
    (tar if i % 2 else zipped)(os.path.join(w.cwd, name), items, rng)
    w.own()
    before = w.snapshot()
    for s in ["nope", sub + "/nope", sub[:-1].rstrip("/"), "nope/" + sub, sub.swapcase() + "_", "/".join(reversed(sub.split("/"))) + "/q"]:
        if any("/".join(n.split("/")[1:]) == s or "/".join(n.split("/")[1:]).startswith(s + "/") for n in names) or not s:
            continue
        r = w.run(["registry", rng.choice(["check", "resolve"]), "-r", f"{name}[{s}]", "--quiet"])
        judge_effects(c, f"ms{i}", w, before, r, f"{name}[{s}]", w.cwd)
        c.saw(stable_hash([name, sub, s]))
        c.count("missing_sub_folders")
        if r.rc == 0:
            c.violation(f"ms{i}-accepted", f"the sub-folder {s!r} is not in the archive (entries: {sorted(names)[:20]})\n" + r.brief(),
                        w.cwd)
    shutil.rmtree(w.root)


# -------------------------------------------------------------------------------------------------------- hostile archives
def attacks(rng, w, top, kind):
    """-> entries that try to leave the tree"""
    out = w.outside
    t = top
    y = OUT_YAML.replace(SECRET, "planted").encode()
    up = "../" * rng.randint(1, 8)
    rel_out = "../../../../outside"      # from $HOME/.weaver/vdir_cache/repoXXXX
    x = [
        [(f"{t}/../x.yaml", y)], [(f"{t}/{up}x.yaml", y)], [(f"../{t}/x.yaml", y)], [(f"{t}/a/../../x.yaml", y)],
        [(f"{out}/planted.yaml", y)], [(f"/{t}{out}/planted.yaml", y)], [(f"{t}/{rel_out}/planted.yaml", y)],
        [(f"{t}/../", None), (f"{t}/../d/", None)], [(f"{t}/../other/secret.yaml", y)], [(f"{t}//../x.yaml", y)],
        [(f"{t}/./../x.yaml", y)], [(f"{t}/model/../../x.yaml", y)], [(f"{t}\\..\\..\\x.yaml", y)], [("..", None)],
        [(f"{t}/..", None)], [("x.yaml", y)], [("/", None)], [(f"{t}/../../../secret.yaml", y)], [(f"{t}/model/../../other/p.yaml", y)],
    ]
    s = [
        [(f"{t}/l", ("sym", out)), (f"{t}/l/planted.yaml", y)],
        [(f"{t}/l", ("sym", rel_out)), (f"{t}/l/planted.yaml", y)],
        [(f"{t}/l", ("sym", out)), (f"{t}/l/", None), (f"{t}/l/p/planted.yaml", y)],
        [(f"{t}/l", ("sym", "..")), (f"{t}/l/planted.yaml", y)],
        [(f"{t}/l", ("sym", "../other")), (f"{t}/l/planted.yaml", y)],
        [(f"{t}/a/b/c", ("sym", "../..")), (f"{t}/e", ("sym", "a/b/c/..")), (f"{t}/e/planted.yaml", y)],
        [(f"{t}/s.yaml", ("sym", out + "/secret.yaml"))],
        [(f"{t}/model/s.yaml", ("sym", rel_out.replace("../", "../../", 1) + "/secret.yaml"))],
        [(f"{t}/model", ("sym", out))],
        [(f"{t}/l", ("sym", out)), (f"{t}/k", ("sym", "l/secret.yaml")), (f"{t}/k.yaml", ("sym", "k"))],
        [(f"{t}/l", ("sym", out)), (f"{t}/h.yaml", ("hard", f"{t}/l/secret.yaml"))],
        [(f"{t}/h.yaml", ("hard", out + "/secret.yaml"))],
        [(f"{t}/h.yaml", ("hard", "secret.yaml"))],
        [(f"{t}/h.yaml", ("hard", f"{t}/../other/secret.yaml"))],
        [(f"{t}/h.yaml", ("hard", "../../outside/secret.yaml"))],
        [(f"{t}/x.yaml", ("sym", out + "/new.yaml")), (f"{t}/x.yaml", y)],
        [(f"{t}/x.yaml", ("sym", out + "/secret.yaml")), (f"{t}/x.yaml", y)],
        [(f"{t}/b.yaml", y), (f"{t}/x.yaml", ("sym", out + "/secret.yaml")), (f"{t}/x.yaml", ("hard", f"{t}/b.yaml"))],
        [(f"{t}/x.yaml", ("sym", out + "/new.yaml")), (f"{t}/b.yaml", y), (f"{t}/x.yaml", ("hard", f"{t}/b.yaml"))],
        [(f"{t}/manifest.yaml", ("sym", out + "/secret.yaml"))],
        [(f"{t}/d", ("sym", out)), (f"{t}/d", None), (f"{t}/d/planted.yaml", y)],
        [(f"{t}", ("sym", out)), (f"{t}/planted.yaml", y)],
        [(f"{t}", ("hard", out + "/secret.yaml"))],
        [(f"{t}/p.yaml", ("fifo", ""))], [(f"{t}/n.yaml", ("chr", ""))], [(f"{t}/loop", ("sym", "loop"))],
        [(f"{t}/l1", ("sym", "l2")), (f"{t}/l2", ("sym", out)), (f"{t}/l1/planted.yaml", y)],
        [(f"{t}/l1", ("sym", "l2")), (f"{t}/l1/planted.yaml", y), (f"{t}/l2", ("sym", out))],
        [(f"{t}/dang", ("sym", out + "/newdir")), (f"{t}/dang/p.yaml", y)],
        [(f"{t}/dang", ("sym", out + "/newdir")), (f"{t}/dang", None)],
    ]
    if kind == "zip":
        return rng.choice(x + x + [k for k in s if all(not isinstance(e[1], tuple) or e[1][0] == "sym" for e in k)])
    return rng.choice(x + s)


def hostile(c, i):
    rng = c.rng("host", i)
    w = World(c, c.dir(f"ho{i}"))
    plain = os.path.join(w.root, "plain")
    make(rng, rng.choice(["v1", "v2"]), plain)
    sub = rng.choice([None, None, "model", "a/b"])
    top = "top"
    kind = rng.choice(["tar", "tar", "zip"])
    items = [(n, open(s, "rb").read() if s else None) for n, s in entries(plain, top + ("/" + sub if sub else ""), rng)]
    kinds = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        a = attacks(rng, w, top + ("/" + sub if sub and rng.random() < 0.7 else ""), kind)
        kinds.append(a)
        at = rng.choice([0, 0, len(items), rng.randint(0, len(items))])
        items[at:at] = a
    name = "h.tar.gz" if kind == "tar" else "h.zip"
    path = os.path.join(w.cwd, name)
    if kind == "tar":
        tar(path, items, rng)
    else:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            zipped(path, items, rng)
    damage = rng.random() < 0.15
    if damage:
        b = bytearray(open(path, "rb").read())
        if rng.random() < 0.5:
            b = b[:rng.randint(0, len(b))]
        else:
            for _ in range(rng.randint(1, 6)):
                b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
        open(path, "wb").write(bytes(b))
    w.own()
    before = w.snapshot()
    what = [[(n.replace(w.root, "$W"), x if not isinstance(x, tuple) else (x[0], x[1].replace(w.root, "$W"))) if not
             isinstance(x, bytes) else (n.replace(w.root, "$W"), "text") for n, x in a] for a in kinds]
    for args in rng.sample([["resolve", "-f", "json"], ["check"], ["check", "--follow-symlinks"], ["resolve", "-f", "json",
                                                                                                  "--follow-symlinks"],
                            ["stats"], ["resolve", "--v2", "--follow-symlinks"]], 2):
        r = w.run(["registry"] + args + ["-r", name + (f"[{sub}]" if sub else "")])
        judge_effects(c, f"ho{i}", w, before, r, f"{kind} with {what} (sub-folder {sub}, damaged {damage}), {args}", w.cwd)
        c.saw(stable_hash([kind, what, sub, args[0], len(args), r.rc, damage]),
              sample=f"{kind} with {what}: {args} exit {r.rc}" if i in (3, 4, 5, 6) else None)
        c.count(f"hostile_{kind}_exit_{r.rc}" + ("_damaged" if damage else ""))
    shutil.rmtree(w.root)


# --------------------------------------------------------------------- policies, templates and dependencies from archives
def others(c, i):
    rng = c.rng("oth", i)
    w = World(c, c.dir(f"ot{i}"))
    plain = os.path.join(w.cwd, "plain")
    make(rng, "v2", plain)
    sub = rng.choice(["p", "p/q", None])
    ext = rng.choice([".tar.gz", ".zip"])
    pack = tar if ext == ".tar.gz" else zipped
    pre = "top/" + (sub + "/" if sub else "")
    sfx = f"[{sub}]" if sub else ""
    pack(os.path.join(w.cwd, "pol" + ext), [(pre + "d/x.rego", POLICY.encode()), ("top/other/y.rego", b"package broken {")][
        :2 if sub else 1], rng)
    pack(os.path.join(w.cwd, "tpl" + ext), [
        (pre + "registry/tgt/weaver.yaml", b"templates:\n  - pattern: a.j2\n    filter: .\n    application_mode: single\n    "
                                           b"file_name: out.txt\n"),
        (pre + "registry/tgt/a.j2", b"{% include 'part.inc' %}{{ ctx.registry.attributes | map(attribute='key') | join(',') }}"),
        (pre + "registry/tgt/part.inc", b"")], rng)
    items = [("top/" + ("m/n/" if sub else "") + os.path.relpath(os.path.join(d, f), plain), open(os.path.join(d, f), "rb").read())
             for d, _, fs in os.walk(plain) for f in fs]
    pack(os.path.join(w.cwd, "dep" + ext), items, rng)
    os.makedirs(os.path.join(w.cwd, "main"))
    dep = os.path.join(w.cwd, "dep" + ext) + ("[m/n]" if sub else "")
    main = {"file_format": "definition/2", "attributes": [], "imports": {k: ["*"] for k in ("metrics", "events", "entities",
                                                                                         "spans", "attribute_groups")}}
    for tgt, p in (("main", dep), ("main2", plain)):
        os.makedirs(os.path.join(w.cwd, tgt), exist_ok=True)
        yamlout.write(os.path.join(w.cwd, tgt, "m.yaml"), main)
        yamlout.write(os.path.join(w.cwd, tgt, "manifest.yaml"), reg.manifest_v2("main", deps=[
            {"schema_url": "https://dep.example/schemas/1.0.0", "registry_path": p}]))
    w.own()
    base = w.snapshot()
    r = w.run(["registry", "check", "--v2", "-r", "plain", "-p", "pol" + ext + sfx, "--diagnostic-format", "json"])
    judge_effects(c, f"ot{i}-policy", w, base, r, "policies from an archive", w.cwd)
    hits = [d for d in reg.diags(r) if "packed_policy" in json.dumps(d)]
    c.saw(stable_hash(["policy", ext, sub, r.rc]))
    if r.rc != 1 or not hits:
        c.violation(f"ot{i}-policy", f"the policy in pol{ext}{sfx} was not applied\n" + r.brief(), w.cwd)
    out = os.path.join(w.cwd, "out")
    r = w.run(["registry", "generate", "--v2", "-r", "plain", "-t", "tpl" + ext + sfx, "tgt", out, "--skip-policies"])
    x = w.run(["registry", "resolve", "--v2", "-r", "plain", "-f", "json", "--skip-policies", "--quiet"])
    want = ",".join(a["key"] for a in json.loads(x.out)["registry"]["attributes"])
    got = open(os.path.join(out, "out.txt")).read() if os.path.exists(os.path.join(out, "out.txt")) else None
    shutil.rmtree(out, ignore_errors=True)
    after = w.snapshot()
    base["cwd"] = after["cwd"]
    judge_effects(c, f"ot{i}-templates", w, base, r, "templates from an archive", w.cwd)
    c.saw(stable_hash(["templates", ext, sub, want]))
    if r.rc != 0 or got is None or got.strip() != want:
        c.violation(f"ot{i}-templates", f"the templates in tpl{ext}{sfx}: output {got!r}, wanted {want!r}\n" + r.brief(), w.cwd)
    res = [w.run(["registry", "resolve", "--v2", "-r", m, "-f", "json", "--quiet", "--skip-policies"]) for m in ("main", "main2")]
    for r in res:
        judge_effects(c, f"ot{i}-dep", w, base, r, "a dependency in an archive", w.cwd)
    a, b = [relative(json.loads(r.out), [dep, plain, "main", "main2"]) if r.out.strip() else None for r in res]
    d = diff_json(b, a)
    c.saw(stable_hash(["dependency", ext, sub, b]))
    c.count("archive_dependencies_resolved", int(b is not None))
    if res[0].rc != res[1].rc or d:
        c.violation(f"ot{i}-dep", f"a dependency at {dep!r} does not give what the folder gives: " + "\n".join(d) + "\n" +
                    res[0].brief() + "\n" + res[1].brief(), w.cwd)
    shutil.rmtree(w.root)


class Server:
    """serves the files of a directory"""

    def __init__(self, root):
        self.root = root

        class H(BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.1"

            def do_GET(s):
                p = os.path.join(root, os.path.basename(s.path))
                try:
                    b = open(p, "rb").read()
                    s.send_response(200)
                except OSError:
                    b = b"no such file"
                    s.send_response(404)
                s.send_header("Content-Length", str(len(b)))
                s.end_headers()
                s.wfile.write(b)

            def log_message(s, *a):
                pass
        self.httpd = ThreadingHTTPServer(("127.0.0.1", 0), H)
        self.url = f"http://127.0.0.1:{self.httpd.server_address[1]}"
        threading.Thread(target=self.httpd.serve_forever, daemon=True).start()


def main(tier, seed):
    c = Check("C21", tier, seed, "exploration",
              "a distinct archive (or other form of a registry) with its command and what came out",
              ["the program runs as an unprivileged user whose files are all in the scratch directory",
               "an outside file that is read and of which nothing is shown goes unnoticed"])
    c.setup()
    os.chmod(c.work, 0o755)
    os.chmod(c.home, 0o700)
    srv = Server(c.dir("http"))
    c.map(lambda i: equivalence(c, i, srv), range(c.n(90, 1500)))
    c.map(lambda i: missing(c, i), range(c.n(25, 300)))
    c.map(lambda i: hostile(c, i), range(c.n(320, 6000)))
    c.map(lambda i: others(c, i), range(c.n(24, 200)))
    srv.httpd.shutdown()
    return c.finish()
