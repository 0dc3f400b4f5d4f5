"""C23: remote registries are fetched whole, and credentials go only where they are configured to go.

Generated registries (dependencies, baselines, templates, policies) are put behind HTTP servers of this process, in archives,
as published packages or in git repositories, with redirects, demands for a token, and faults. A monitor records every request
with its headers and every run of a token command; a model of the `[[auth]]` rules says which token each request must carry.
What the program gives is compared with what it gives for the same content in a local folder."""
import base64
import gzip
import json
import os
import random
import re
import shutil
import subprocess
import threading
import warnings
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer

from lib import reg, yamlout
from lib.common import Check, diff_json, stable_hash
from props.c12 import make
from props.c21 import packed, relative, tar, zipped

HOSTS = ["127.0.0.1", "127.0.0.2", "127.0.0.3"]
POLICY = """package after_resolution
import rego.v1
deny contains {"type": "semconv_attribute", "id": "remote_policy", "category": "naming", "group": "g", "attr": "a"} if { true }
"""
WEAVER_YAML = """templates:
  - pattern: a.j2
    filter: .
    application_mode: single
    file_name: out.txt
"""


class Net:
    """one server on three addresses, with the routes of all cases and a record of the requests"""

    def __init__(self):
        self.routes, self.log, self.lock = {}, {}, threading.Lock()
        self.git = {}
        net = self

        class H(BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.1"

            def handle_one_request(s):
                try:
                    BaseHTTPRequestHandler.handle_one_request(s)
                except OSError:
                    s.close_connection = True

            def answer(s, code, body=b"", headers=(), cut=None, chunked=False):
                s.send_response(code)
                for k, v in headers:
                    s.send_header(k, v)
                if chunked:
                    s.send_header("Transfer-Encoding", "chunked")
                else:
                    s.send_header("Content-Length", str(len(body)))
                s.end_headers()
                if cut is not None:
                    body = body[:cut]
                    s.close_connection = True
                if chunked:
                    rng = random.Random(len(body))
                    at = 0
                    while at < len(body):
                        n = rng.randint(1, 4000)
                        part = body[at:at + n]
                        s.wfile.write(b"%x\r\n" % len(part) + part + b"\r\n")
                        at += n
                    if cut is None:
                        s.wfile.write(b"0\r\n\r\n")
                else:
                    s.wfile.write(body)
                s.wfile.flush()

            def go(s):
                n = int(s.headers.get("Content-Length") or 0)
                data = s.rfile.read(n)
                path, _, query = s.path.partition("?")
                case = path.split("/")[1]
                here = f"http://{s.connection.getsockname()[0]}:{net.port}"
                with net.lock:
                    net.log.setdefault(case, []).append({
                        "url": here + s.path, "method": s.command, "auth": s.headers.get("Authorization"),
                        "headers": {k.lower(): v for k, v in s.headers.items()}})
                g = net.git.get(case)
                if g and path.startswith(f"/{case}/git/"):
                    return s.backend(g, path, query, data)
                r = net.routes.get(here + path)
                if r is None:
                    return s.answer(404, b"not here")
                if r.get("need") is not None and s.headers.get("Authorization") != "Bearer " + r["need"]:
                    return s.answer(r.get("deny", 401), b"denied")
                if "to" in r:
                    return s.answer(r["code"], b"moved", [("Location", r["to"])])
                if "status" in r:
                    return s.answer(r["status"], r.get("body", b"sorry"))
                body, h = r["body"], [("Content-Type", r.get("type", "application/octet-stream"))]
                if r.get("gzip") and "gzip" in s.headers.get("Accept-Encoding", ""):
                    body = gzip.compress(body)
                    h.append(("Content-Encoding", "gzip"))
                cut = None
                if r.get("cut") is not None:
                    cut = int(r["cut"] * len(body))
                s.answer(200, body, h, cut, r.get("chunked"))

            do_GET = do_POST = do_HEAD = go

            def backend(s, g, path, query, data):
                if g.get("basic") and s.headers.get("Authorization") != "Basic " + g["basic"]:
                    return s.answer(401, b"denied", [("WWW-Authenticate", 'Basic realm="zz"')])
                e = {"GIT_PROJECT_ROOT": g["root"], "GIT_HTTP_EXPORT_ALL": "1", "PATH_INFO": path.split("/git", 1)[1],
                     "QUERY_STRING": query, "REQUEST_METHOD": s.command, "CONTENT_TYPE": s.headers.get("Content-Type", ""),
                     "CONTENT_LENGTH": str(len(data)), "PATH": "/usr/bin:/bin", "HOME": g["root"], "REMOTE_ADDR": "127.0.0.1",
                     "GIT_CONFIG_NOSYSTEM": "1", "GIT_CONFIG_COUNT": "2", "GIT_CONFIG_KEY_0": "safe.directory",
                     "GIT_CONFIG_VALUE_0": "*", "GIT_CONFIG_KEY_1": "uploadpack.allowAnySHA1InWant",
                     "GIT_CONFIG_VALUE_1": "true"}
                if s.headers.get("Content-Encoding"):
                    e["HTTP_CONTENT_ENCODING"] = s.headers["Content-Encoding"]
                if s.headers.get("Git-Protocol"):
                    e["GIT_PROTOCOL"] = s.headers["Git-Protocol"]
                p = subprocess.run(["/usr/lib/git-core/git-http-backend"], input=data, env=e, capture_output=True)
                h, _, body = p.stdout.partition(b"\r\n\r\n")
                code, hs = 200, []
                for line in h.decode("latin-1").split("\r\n"):
                    k, _, v = line.partition(": ")
                    if k.lower() == "status":
                        code = int(v.split()[0])
                    elif k:
                        hs.append((k, v))
                cut = g.get("cut") if s.command == "POST" and b"want " in data else None
                s.answer(code, body, hs, None if cut is None else int(cut * len(body)))

            def log_message(s, *a):
                pass

        class Server(ThreadingHTTPServer):
            daemon_threads = True
            request_queue_size = 128

            def handle_error(s, *a):
                pass
        for attempt in range(50):
            self.servers = []
            try:
                first = Server((HOSTS[0], 0), H)
                self.port = first.server_address[1]
                self.servers = [first] + [Server((h, self.port), H) for h in HOSTS[1:]]
                break
            except OSError:
                for x in self.servers:
                    x.server_close()
        for x in self.servers:
            threading.Thread(target=x.serve_forever, daemon=True).start()

    def url(self, host, path):
        return f"http://{host}:{self.port}{path}"

    def requests(self, case):
        with self.lock:
            return list(self.log.get(case, []))

    def forget(self, case):
        with self.lock:
            self.log.pop(case, None)
            for u in [u for u in list(self.routes) if f"/{case}/" in u]:
                del self.routes[u]

    def close(self):
        for x in self.servers:
            x.shutdown()
            x.server_close()


# --------------------------------------------------------------------------------------------------------------- auth rules
class Rules:
    """the [[auth]] entries of a case, and which token a request to a URL must carry"""

    def __init__(self, rng, base, urls, net, n=None):
        self.rng, self.base, self.rules, self.env = rng, base, [], {}
        self.secrets = []
        cand = []
        for u in urls:
            host = u.split("/")[2]
            parts = u.split("/")
            cand += [u, u, "/".join(parts[:-1]) + "/", "/".join(parts[:-1]), f"http://{host}/", f"http://{host}",
                     u[:rng.randint(len(f"http://{host}/"), len(u))], "http://", u + "x", u + "/", u.replace("http:", "https:"),
                     f"http://{rng.choice(HOSTS)}:{net.port}/", f"http://{host.split(':')[0]}", u.upper(), host, "https://",
                     f"http://{host}/nothere/" + "long/" * 20, "/".join(parts[:-1]) + "/" + parts[-1][:1]]
        seen = set()
        for p in rng.sample(cand, min(len(cand), n if n is not None else rng.choice([0, 1, 1, 2, 3, 4, 6]))):
            if p in seen:
                continue
            seen.add(p)
            self.add(p)

    def secret(self):
        s = "tokzz" + "".join(self.rng.choice("abcdefghijkmnpqrstuvwxyz0123456789") for _ in range(16)) + \
            self.rng.choice(["", "", "==", ".x-y_z", "~+/"])
        self.secrets.append(s)
        return s

    def add(self, prefix, kind=None):
        rng, k = self.rng, len(self.rules)
        kind = kind or rng.choice(["token", "env", "env", "env-unset", "env-empty", "cmd", "cmd", "cmd-fail", "cmd-empty",
                                   "cmd-blank", "cmd-none", "cmd-pad"])
        s = self.secret()
        r = {"prefix": prefix, "kind": kind, "token": s, "counter": None}
        if kind == "token":
            r["line"] = f"token = {json.dumps(s)}"
        elif kind.startswith("env"):
            name = f"ZZ_TOKEN_{k}"
            r["line"] = f"token_env = {json.dumps(name)}"
            if kind != "env-unset":
                self.env[name] = s if kind == "env" else ""
            if kind != "env":
                r["token"] = None
        else:
            script, r["counter"] = os.path.join(self.base, f"cmd{k}.sh"), os.path.join(self.base, f"ran{k}")
            say = {"cmd": f"printf '%s\\nsecond line\\n' '{s}'", "cmd-fail": f"echo '{s}'; exit 3", "cmd-empty": "true",
                   "cmd-blank": f"echo; echo '{s}'", "cmd-none": "true", "cmd-pad": f"printf '  %s \\r\\n' '{s}'"}[kind]
            with open(script, "w") as f:
                f.write(f"printf x >> '{r['counter']}'\n{say}\n")
            argv = ["/bin/sh", script, f"arg {k}"] if kind != "cmd-none" else \
                rng.choice([[], [os.path.join(self.base, "no-such-program")]])
            r["line"] = f"token_command = {json.dumps(argv)}"
            if kind not in ("cmd", "cmd-pad"):
                r["token"] = None
        self.rules.append(r)

    def match(self, url):
        m = [r for r in self.rules if url.startswith(r["prefix"])]
        return max(m, key=lambda r: len(r["prefix"])) if m else None

    def expect(self, url):
        r = self.match(url)
        return r["token"] if r else None

    def toml(self):
        out = []
        for k, r in enumerate(self.rng.sample(self.rules, len(self.rules))):
            lines = [f"url_prefix = {json.dumps(r['prefix'])}", r["line"]]
            if self.rng.random() < 0.3:
                lines.append(f'name = "rule {k}"')
            self.rng.shuffle(lines)
            out.append("[[auth]]\n" + "\n".join(lines) + "\n")
        return "\n".join(out)

    def describe(self):
        return [f"{r['prefix']} <- {r['kind']}" for r in self.rules]


# --------------------------------------------------------------------------------------------------------- what is published
def route(rng, net, case, name, body, rules_later, fault=None):
    """Puts `body` behind a URL, perhaps after redirects. -> (first url, hops)"""
    host = rng.choice(HOSTS)
    hops = [net.url(host, f"/{case}/{name}")]
    n = rng.choice([0, 0, 0, 1, 1, 2, 3])
    at = len(rules_later)
    for k in range(n):
        h = host if rng.random() < 0.5 else rng.choice(HOSTS)
        hops.append(net.url(h, f"/{case}/hop{at}-{k}/" + rng.choice(["", "d/"]) + rng.choice([name.rsplit("/", 1)[-1], "blob"]) + str(k)))
    for k in range(n):
        to = hops[k + 1]
        if to.split("/")[2] == hops[k].split("/")[2] and rng.random() < 0.5:
            to = "/" + to.split("/", 3)[3]
        net.routes[hops[k]] = {"to": to, "code": rng.choice([301, 302, 303, 307, 308])}
    net.routes[hops[-1]] = {"body": body, "gzip": rng.random() < 0.3, "chunked": rng.random() < 0.3,
                            "type": rng.choice(["application/octet-stream", "text/html", "application/x-yaml", ""])}
    rules_later.append(hops)
    return hops[0]


def local(c, rng, base, form):
    plain = os.path.join(base, "plain")
    make(rng, form, plain)
    if form == "v2":
        yamlout.write(os.path.join(plain, "manifest.yaml"), {"schema_url": "https://dep.example/schemas/1.0.0",
                                                             "description": "x"})
    return plain


def published(c, rng, net, case, base, form, plain, kind, hops):
    """-> (how the remote registry is named, the local name of the same content)"""
    if kind == "archive":
        sub = rng.choice([None, "model", "a/b"])
        items = packed(plain, sub, rng)
        ext = rng.choice([".zip", ".tar.gz"])
        tmp = os.path.join(base, "packed" + ext)
        (zipped if ext == ".zip" else tar)(tmp, items, rng)
        name = rng.choice(["reg", "archive/refs/tags/v1.0", "a%20b", "x.y/z", "reg"]) + ext
        u = route(rng, net, case, name, open(tmp, "rb").read(), hops)
        return u + (f"[{sub}]" if sub else ""), plain
    pub = os.path.join(base, "pub")
    name = rng.choice(["manifest.yaml", "v1/manifest.yaml", "releases/1.0.0/manifest.yaml"])
    data = rng.choice(["resolved.yaml", "data/resolved.yaml", "resolved.yaml", "ABS"])
    if data == "ABS":
        # the manifest is written with the URL; the reference has it beside it
        q = c.run(["registry", "package", "--v2", "-r", plain, "-o", pub, "--resolved-registry-uri", "resolved.yaml"])
    else:
        q = c.run(["registry", "package", "--v2", "-r", plain, "-o", pub, "--resolved-registry-uri", data])
    if q.rc != 0:
        raise RuntimeError("package: " + q.brief())
    res = next(os.path.join(d, f) for d, _, fs in os.walk(pub) for f in fs if f == "resolved.yaml")
    man = open(os.path.join(pub, "manifest.yaml")).read()
    body = open(res, "rb").read()
    if data == "ABS":
        u2 = route(rng, net, case, "elsewhere/resolved.yaml", body, hops)
        man = man.replace("resolved_registry_uri: resolved.yaml", f"resolved_registry_uri: {u2}")
        assert u2 in man, man
        u1 = route(rng, net, case, name, man.encode(), hops)
    else:
        u1 = route(rng, net, case, name, man.encode(), hops)
        u2 = u1.rsplit("/", 1)[0] + "/" + data
        net.routes[u2] = {"body": body, "gzip": rng.random() < 0.3, "chunked": rng.random() < 0.3}
        hops.append([u2])
        at = os.path.join(pub, data)
        if at != res:
            os.makedirs(os.path.dirname(at), exist_ok=True)
            shutil.copy(res, at)
    return u1, os.path.join(pub)


FAULTS = ["status", "status", "cut", "cut", "cut", "loop", "refused", "garbage", "empty", "denied"]


def judge_requests(c, key, net, case, hops, rules, detail, keep, must=True):
    """the model of the [[auth]] rules against the recorded requests"""
    reqs = net.requests(case)
    origin = {}
    for h in hops:
        for k, u in enumerate(h):
            origin[u] = (h, k)
    seen = set()
    for q in reqs:
        if q["url"] not in origin:
            c.violation(f"{key}-stray", f"{detail}: a request for {q['url']}, which nothing names\n{reqs}", keep)
            continue
        h, k = origin[q["url"]]
        want = rules.expect(h[0])
        got = q["auth"]
        host0 = h[0].split("/")[2]
        mine = q["url"].split("/")[2] == host0
        crossed = any(x.split("/")[2] != host0 for x in h[:k + 1])
        again = q["url"] in seen                            # a loop has come back
        seen.add(q["url"])
        if (k == 0 or not crossed) and not again:
            ok = {None if want is None else "Bearer " + want}
        elif mine:
            ok = {None, None if want is None else "Bearer " + want}
        else:
            own = rules.expect(q["url"])
            ok = {None, None if own is None else "Bearer " + own}
        c.saw(stable_hash(["req", k, crossed, mine, want is None, got is None, rules.match(h[0]) and rules.match(h[0])["kind"]]))
        c.count("requests_with_token" if got else "requests_without_token")
        if got not in ok:
            c.violation(f"{key}-token", f"{detail}: the request for {q['url']} (hop {k} of {h}) carries {got!r}, wanted one of "
                        f"{sorted(map(str, ok))}; rules {rules.describe()}", keep)
    if must:
        for h in hops:
            if not any(q["url"] == h[0] for q in reqs):
                c.violation(f"{key}-unfetched", f"{detail}: {h[0]} was never asked for", keep)
    # the commands
    asked = {q["url"] for q in reqs}
    for r in rules.rules:
        if r["counter"]:
            n = os.path.getsize(r["counter"]) if os.path.exists(r["counter"]) else 0
            used = [u for u in asked if u in origin and origin[u][1] == 0 and rules.match(u) is r]
            c.count("token_command_runs", n)
            if n and not used:
                c.violation(f"{key}-command", f"{detail}: the token command of {r['prefix']} was run, no request is its concern: "
                            f"{sorted(asked)}; rules {rules.describe()}", keep)
            if n > 1 and r["token"] is not None:
                c.violation(f"{key}-command", f"{detail}: the token command of {r['prefix']} was run {n} times in one run", keep)


def judge_leaks(c, key, rules, res, dirs, detail, keep):
    for s in rules.secrets:
        core = s[:21]
        if core in res.out + res.err:
            c.violation(f"{key}-printed", f"{detail}: a token is printed\n" + res.brief(4000), keep)
        for d in dirs:
            for dd, _, fs in os.walk(d):
                for f in fs:
                    p = os.path.join(dd, f)
                    if f != ".weaver.toml" and f != "cfg.toml" and not os.path.islink(p) and core.encode() in open(p, "rb").read():
                        c.violation(f"{key}-written", f"{detail}: a token is in {p}", keep)


def tree(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            t = open(os.path.join(r, f), "rb").read().decode("utf-8", "replace")
            out[os.path.relpath(os.path.join(r, f), d)] = re.sub(r"(?m)^\s+path: .*$", "", t)   # where a definition comes from
    return out


def config_args(rng, w, text, named=True):
    """writes the configuration; -> the arguments that make the program find it"""
    if rng.random() < 0.3 and named:
        p = os.path.join(w, "cfg.toml")
        args = ["--config", p]
    else:
        p = os.path.join(w if rng.random() < 0.7 else os.path.dirname(w), ".weaver.toml")
        args = []
    open(p, "w").write(text)
    return args


# ------------------------------------------------------------------------------------------------------ fetching over HTTP
def fetch(c, i, net):
    rng = c.rng("fetch", i)
    case = f"f{i}"
    base = c.dir(case)
    home, cwd, ref = (os.path.join(base, x) for x in ("home", "w/cwd", "ref"))
    for d in (home, cwd, ref):
        os.makedirs(d)
    use = rng.choice(["main", "main", "main", "dependency", "override", "baseline", "templates", "policy"])
    kind = rng.choice(["archive", "published"]) if use not in ("templates", "policy") else "archive"
    form = "v2" if kind == "published" or use in ("dependency", "override") else rng.choice(["v1", "v2"])
    plain = local(c, rng, base, form)
    hops = []
    v2 = ["--v2"] if form == "v2" or rng.random() < 0.5 else []
    extra_toml = ref_toml = ""
    if use in ("templates", "policy"):
        ext = rng.choice([".zip", ".tar.gz"])
        sub = rng.choice([None, "p", "p/q"])
        pre = "top/" + (sub + "/" if sub else "")
        one = use == "policy" and rng.random() < 0.4
        items = [(pre + "registry/tgt/weaver.yaml", WEAVER_YAML.encode()),
                 (pre + "registry/tgt/a.j2", b"{{ ctx | tojson }}")] if use == "templates" else \
            [(pre + "d/x.rego", POLICY.encode())]
        d = os.path.join(base, use)
        for n, b in items:
            p = os.path.join(d, n[len(pre):])
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "wb").write(b)
        tmp = os.path.join(base, "x" + ext)
        (zipped if ext == ".zip" else tar)(tmp, items, rng)
        if one:
            there, here = route(rng, net, case, "rules/x.rego", POLICY.encode(), hops), os.path.join(d, "d/x.rego")
        else:
            there, here = route(rng, net, case, "arch" + ext, open(tmp, "rb").read(), hops) + (f"[{sub}]" if sub else ""), d
    else:
        there, here = published(c, rng, net, case, base, form, plain, kind, hops)
    rules = Rules(rng, base, [h[0] for h in hops] + [h[-1] for h in hops if len(h) > 1], net)
    # demands
    for h in hops:
        want = rules.expect(h[0])
        host = h[0].split("/")[2]
        if want is not None:
            for k, u in enumerate(h):
                if not any(x.split("/")[2] != host for x in h[:k + 1]) and rng.random() < 0.6:
                    net.routes[u]["need"] = want
                    net.routes[u]["deny"] = rng.choice([401, 403, 404])
    # a fault
    fault = None
    if rng.random() < 0.35:
        fault = rng.choice(FAULTS)
        h = rng.choice(hops)
        u = rng.choice(h)
        r = net.routes[u]
        if fault == "status":
            net.routes[u] = {"status": rng.choice([400, 401, 403, 404, 410, 429, 500, 502, 503]),
                             "body": rng.choice([b"sorry", r.get("body", b""), b""])}
        elif fault == "cut":
            u = h[-1]
            net.routes[u]["cut"] = rng.choice([0.0, 0.5, 0.9, 0.999, rng.random()])
        elif fault == "loop":
            net.routes[u] = {"to": rng.choice([u, h[0]]), "code": rng.choice([301, 302, 307, 308])}
        elif fault == "refused":
            # nothing listens on port 1 of the loopback addresses
            net.routes[u] = {"to": f"http://127.0.0.1:1/{case}/x.zip", "code": 302}
        elif fault == "garbage":
            net.routes[h[-1]]["body"] = rng.choice([b"<html><body>Please log in</body></html>", b"{]", os.urandom(300), b"\x1f\x8b\x08\x00"])
        elif fault == "empty":
            net.routes[h[-1]]["body"] = b""
        else:
            net.routes[u]["need"] = "another-token"
            net.routes[u]["deny"] = rng.choice([401, 403, 404])
        if fault in ("garbage", "empty") and use == "policy":
            # an empty file is a policy without rules
            fault = "garbage"
            net.routes[h[-1]]["body"] = b"<html><body>Please log in</body></html>"

    outs = []
    main = plain
    if use in ("dependency", "override"):
        doc = {"file_format": "definition/2", "attributes": [], "imports": {k: ["*"] for k in ("metrics", "events", "entities",
                                                                                            "spans", "attribute_groups")}}
        for d, p in (("main", there), ("mainref", here)):
            t = os.path.join(base, d)
            os.makedirs(t)
            yamlout.write(os.path.join(t, "m.yaml"), doc)
            given = p if use == "dependency" else rng.choice([None, "/nonexistent/x", net.url(HOSTS[0], f"/{case}/never.zip")])
            dep = {"schema_url": "https://dep.example/schemas/1.0.0"}
            if given:
                dep["registry_path"] = given
            yamlout.write(os.path.join(t, "manifest.yaml"), reg.manifest_v2("main", deps=[dep]))
        if use == "override":
            extra_toml = f'[resolve.schema_url_overrides]\n"https://dep.example/schemas/1.0.0" = {json.dumps(there)}\n'
            ref_toml = f'[resolve.schema_url_overrides]\n"https://dep.example/schemas/1.0.0" = {json.dumps(here)}\n'
        v2 = ["--v2"]
    sample = os.path.join(base, "in.json")
    open(sample, "w").write(json.dumps([{"attribute": {"name": "some.key", "value": 3}}]))
    out, refout = os.path.join(cwd, "out"), os.path.join(ref, "out")

    def args(x, o, m):
        if use == "main":
            return cmd(x, o)
        if use in ("dependency", "override"):
            return ["resolve", "-r", m, "-f", "json", "--skip-policies"] + v2
        if use == "baseline":
            return bcmd(x)
        if use == "templates":
            return ["generate", "-r", plain, "-t", x, "tgt", o, "--skip-policies"] + v2
        return ["check", "-r", plain, "-p", x] + v2

    cmds = [lambda x, o: ["resolve", "-r", x, "-f", "json", "--skip-policies"] + v2,
            lambda x, o: ["resolve", "-r", x, "-f", "json", "--skip-policies"] + v2,
            lambda x, o: ["check", "-r", x] + v2,
            lambda x, o: ["stats", "-r", x, "--format", "json"] + v2,
            lambda x, o: ["diff", "-r", x, "--baseline-registry", plain, "--diff-format", "json"] + v2,
            lambda x, o: ["live-check", "-r", x, "--input-source", sample, "--input-format", "json", "--format", "json"] + v2,
            lambda x, o: ["resolve", "-r", x, "-o", o, "-f", "yaml", "--skip-policies"] + v2]
    if form == "v2" and kind == "archive":
        cmds.append(lambda x, o: ["package", "--v2", "-r", x, "-o", o, "--resolved-registry-uri", "resolved.yaml"])
    cmd = rng.choice(cmds)
    bcmd = rng.choice([lambda x: ["diff", "-r", plain, "--baseline-registry", x, "--diff-format", "json"] + v2,
                       lambda x: ["check", "-r", plain, "--baseline-registry", x] + v2])
    # `generate` has a --config of its own
    glob = config_args(rng, cwd, extra_toml + "\n" + rules.toml(), use != "templates")
    if ref_toml:
        open(os.path.join(ref, ".weaver.toml"), "w").write(ref_toml)
    tail = ["--quiet", "--diagnostic-format", "json"]
    if rng.random() < 0.15:
        tail = ["--debug", "--diagnostic-format", "json"]
    env = {"HOME": home, **rules.env}
    threads = rng.choice([None, "1", "8"])
    if threads:
        env["RAYON_NUM_THREADS"] = threads
    a = args(there, out, os.path.join(base, "main"))
    detail = f"{use} {kind} {form} {a} {glob} fault={fault} hops={hops}"
    r = c.run(["registry"] + a + glob + tail, cwd=cwd, env=env, timeout=150)
    if r.timed_out:
        raise RuntimeError("timed out: " + detail)
    c.count(f"use_{use}")
    c.count("faults" if fault else "fetches")
    keep = base
    if r.rc == 2:
        raise RuntimeError("usage: " + r.brief())
    if r.panicked or r.rc not in (0, 1):
        c.violation(f"{case}-crash", detail + "\n" + r.brief(), keep)
    judge_requests(c, case, net, case, [h for h in hops], rules, detail, keep, must=not fault)
    judge_leaks(c, case, rules, r, [cwd, home], detail, keep)
    cache = os.path.join(home, ".weaver/vdir_cache")
    if os.path.isdir(cache) and os.listdir(cache):
        c.violation(f"{case}-left", f"{detail}: left behind {os.listdir(cache)}", keep)
    if fault:
        c.saw(stable_hash(["fault", fault, use, kind, a[0]]), sample=f"{detail}: exit {r.rc}" if i < 3 else None)
        if r.rc != 1 or not (reg.diags(r) or "rror" in r.err or "×" in r.err):
            c.violation(f"{case}-fault", f"{detail}: not reported\nroutes {[(u, {k: v for k, v in net.routes[u].items() if k != 'body'}) for h in hops for u in h]}\n" + r.brief(), keep)
        elif r.out.strip() and a[0] in ("resolve", "stats", "diff", "live-check"):
            c.violation(f"{case}-fault-output", f"{detail}: a result all the same\n" + r.brief(), keep)
        elif tree(out) if os.path.isdir(out) else os.path.exists(out):
            c.violation(f"{case}-fault-files", f"{detail}: files all the same\n" + r.brief(), keep)
    else:
        q = c.run(["registry"] + args(here, refout, os.path.join(base, "mainref")) + ["--quiet", "--diagnostic-format", "json"],
                  cwd=ref, env={"HOME": home})
        if q.timed_out or q.rc not in (0, 1):
            raise RuntimeError("reference: " + q.brief())
        names = [there, here, os.path.join(base, "main"), os.path.join(base, "mainref"), there.split("[")[0]]

        def view(x, o):
            try:
                d = json.loads(x.out[x.out.index("{"):]) if "{" in x.out else None
            except ValueError:
                d = x.out
            files = tree(o) if os.path.isdir(o) else open(o).read() if os.path.exists(o) else None

            def plainer(v):
                if isinstance(v, str):
                    for nm in sorted(names, key=len, reverse=True):
                        v = v.replace(nm, "<R>")
                    return os.path.normpath(v) if v.startswith("<R>") else v
                if isinstance(v, dict):
                    return {k: plainer(z) for k, z in v.items() if k not in ("registry_url", "registry_path")}
                if isinstance(v, list):
                    return [plainer(z) for z in v]
                return v
            return [plainer(relative(d, names)), plainer(files)]
        msgs = [sorted(json.dumps(next(iter(d["error"])) if isinstance(d.get("error"), dict) else d.get("error"))
                       for d in reg.diags(x)) for x in (r, q)]
        va, vb = view(r, out), view(q, refout)
        c.saw(stable_hash([use, kind, a[0], vb]), sample=f"{detail}: exit {r.rc}" if i < 6 else None)
        c.count(f"exit_{r.rc}")
        if "--debug" in tail:
            msgs = [[], []]                                 # log lines among the diagnostics
        if (r.rc, msgs[0]) != (q.rc, msgs[1]):
            c.violation(f"{case}-status", f"{detail}: exit {r.rc} {msgs[0]}; from the local folder {q.rc} {msgs[1]}\n" + r.brief() +
                        "\n" + q.brief(), keep)
        else:
            d = diff_json(vb, va)
            if d:
                c.violation(f"{case}-result", f"{detail}: not what the local folder gives\n" + "\n".join(d), keep)
    net.forget(case)
    if not c.violations:
        shutil.rmtree(base)


# ------------------------------------------------------------------------------------------------------- malformed [[auth]]
def malformed(c, i, net):
    rng = c.rng("bad", i)
    case = f"m{i}"
    base = c.dir(case)
    home, cwd = os.path.join(base, "home"), os.path.join(base, "w/cwd")
    os.makedirs(home), os.makedirs(cwd)
    hops = []
    plain = local(c, rng, base, "v1")
    tmp = os.path.join(base, "x.zip")
    zipped(tmp, packed(plain, None, rng), rng)
    u = route(rng, net, case, "x.zip", open(tmp, "rb").read(), hops)
    p = f"url_prefix = {json.dumps(u)}\n"
    bad = rng.choice([p + 'token = "a"\ntoken_env = "B"\n', p + 'token_env = "B"\ntoken_command = ["true"]\n',
                      p + 'token = "a"\ntoken_command = ["true"]\n', p, 'token = "a"\n', p + 'token = "a"\nbogus = true\n',
                      p + 'token = 3\n', p + 'token_command = "gh auth token"\n', p + 'token_env = ["A"]\n', p + 'Token = "a"\n',
                      "url_prefix = [\"http://\"]\ntoken = \"a\"\n", p + p + 'token = "a"\n', p + 'tokenenv = "A"\n',
                      p + 'token_cmd = ["true"]\n', p + 'token = "a"\nname = 3\n'])
    text = "[[auth]]\n" + bad
    if rng.random() < 0.5:
        good = f'[[auth]]\nurl_prefix = "http://"\ntoken = "b"\n\n'
        text = rng.choice([good + text, text + good])
    glob = config_args(rng, cwd, text)
    r = c.run(["registry", rng.choice(["check", "resolve", "stats"]), "-r", rng.choice([u, u, plain])] + glob, cwd=cwd,
              env={"HOME": home})
    c.saw(stable_hash(["malformed", bad.replace(u, "U"), len(text) > len(bad) + 20]))
    c.count("malformed_rules")
    if r.rc != 1 or r.panicked:
        c.violation(f"{case}-accepted", f"malformed rules are accepted:\n{text}\n" + r.brief(), base)
    if net.requests(case):
        c.violation(f"{case}-asked", f"a request in spite of malformed rules:\n{text}\n{net.requests(case)}", base)
    net.forget(case)
    shutil.rmtree(base, ignore_errors=True) if not c.violations else None


# --------------------------------------------------------------------------------------------------------------------- git
def git(base, *args, cwd=None):
    e = {"HOME": base, "PATH": "/usr/bin:/bin", "GIT_CONFIG_NOSYSTEM": "1", "GIT_AUTHOR_NAME": "a", "GIT_AUTHOR_EMAIL": "a@b.c",
         "GIT_COMMITTER_NAME": "a", "GIT_COMMITTER_EMAIL": "a@b.c", "GIT_CONFIG_GLOBAL": "/dev/null"}
    p = subprocess.run(["git", *args], cwd=cwd, env=e, capture_output=True, text=True)
    if p.returncode:
        raise RuntimeError(f"git {args}: {p.stderr}")
    return p.stdout.strip()


def gitcase(c, i, net):
    rng = c.rng("git", i)
    case = f"g{i}"
    base = c.dir(case)
    home, cwd, root = (os.path.join(base, x) for x in ("home", "w/cwd", "git"))
    for d in (home, cwd, root):
        os.makedirs(d)
    form = rng.choice(["v1", "v2"])
    name = rng.choice(["reg.git", "org/reg.git", "semantic-conventions", "a.b/reg"])
    sub = rng.choice([None, None, "model", "a/b"])
    work = os.path.join(base, "work")
    os.makedirs(work)
    default = rng.choice(["main", "master", "trunk", "release/1.x"])
    git(base, "init", "-q", "-b", default, work)
    revs = {}                                               # refspec -> local folder of its content
    names = rng.sample(["dev", "feature/x", "v9", "a-b_c", "1.0", "zz.yaml"], 2)
    tags = rng.sample(["v1.0.0", "1.2", "release-3", "t/x", "v2"], 2)
    n = rng.randint(2, 4)
    shas = []
    for k in range(n):
        if k == 1 and rng.random() < 0.7:
            git(base, "checkout", "-q", "-b", names[0], cwd=work)
        elif k == 2:
            git(base, "checkout", "-q", default, cwd=work)
        for x in os.listdir(work):
            if x != ".git":
                p = os.path.join(work, x)
                shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
        there = os.path.join(work, sub or "")
        make(c.rng("git", i, k), form, there)
        if sub:
            open(os.path.join(work, "other.yaml"), "w").write("groups: 3\n")
        if rng.random() < 0.3:
            open(os.path.join(work, "README.md"), "w").write("text\n")
        git(base, "add", "-A", cwd=work)
        git(base, "commit", "-q", "-m", f"c{k}", cwd=work)
        sha = git(base, "rev-parse", "HEAD", cwd=work)
        content = os.path.join(base, f"content{k}")
        shutil.copytree(there, content, ignore=shutil.ignore_patterns(".git"))
        revs[sha] = content
        shas.append(sha)
        if rng.random() < 0.5 and tags:
            t = tags.pop()
            annotated = rng.random() < 0.5
            git(base, "tag", *(["-a", "-m", "x"] if annotated else []), t, cwd=work)
            revs[t] = content
    for b in git(base, "for-each-ref", "--format=%(refname:short) %(objectname)", "refs/heads", cwd=work).splitlines():
        b, s = b.split()
        revs[b] = revs[s]
    git(base, "checkout", "-q", default, cwd=work)
    revs[None] = revs[git(base, "rev-parse", "HEAD", cwd=work)]
    bare = os.path.join(root, name)
    os.makedirs(os.path.dirname(bare), exist_ok=True)
    git(base, "clone", "-q", "--bare", work, bare)
    if rng.random() < 0.3:
        git(base, "gc", "-q", cwd=bare)
    g = {"root": root}
    url = net.url(rng.choice(HOSTS), f"/{case}/git/{name}")
    with net.lock:
        net.git[case] = g
    rules = Rules(rng, base, [url], net, rng.choice([0, 0, 2]))
    # what the user's own git configuration says
    hostile = rng.choice([None, None, "insteadOf", "helper", "filter", "header", "env", "proxy"])
    marker = os.path.join(base, "marker")
    env = {"HOME": home, **rules.env}
    conf = ""
    allow = rng.random() < 0.3
    basic = None
    if hostile == "insteadOf":
        git(base, "init", "-q", "-b", "main", os.path.join(base, "evil"))
        conf = f'[url "{url}x"]\n\tinsteadOf = {url}\n'
    elif hostile == "helper":
        basic = base64.b64encode(b"user:passzzsecret").decode()
        g["basic"] = basic
        conf = f'[credential]\n\thelper = "!f() {{ echo x >> {marker}; echo username=user; echo password=passzzsecret; }}; f"\n'
    elif hostile == "filter":
        conf = f'[filter "zz"]\n\tsmudge = "sh -c \'echo x >> {marker}; cat >/dev/null; echo groups: []\'"\n\trequired = true\n'
    elif hostile == "header":
        conf = '[http]\n\textraHeader = "X-Secret: zzsecretheader"\n'
    elif hostile == "proxy":
        conf = '[http]\n\tproxy = http://127.0.0.1:1/\n'
    elif hostile == "env":
        env.update({"GIT_CONFIG_COUNT": "1", "GIT_CONFIG_KEY_0": f"url.{url}x.insteadOf", "GIT_CONFIG_VALUE_0": url})
    if conf:
        how = rng.choice(["home", "xdg", "global"])
        p = {"home": os.path.join(home, ".gitconfig"), "xdg": os.path.join(home, "xdg/git/config"),
             "global": os.path.join(home, "other.cfg")}[how]
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").write(conf)
        if how == "xdg":
            env["XDG_CONFIG_HOME"] = os.path.join(home, "xdg")
        elif how == "global":
            env["GIT_CONFIG_GLOBAL"] = p
    if hostile == "filter":
        git(base, "checkout", "-q", default, cwd=work)
        open(os.path.join(work, ".gitattributes"), "w").write("*.yaml filter=zz\n*.yml filter=zz\n")
        git(base, "add", "-A", cwd=work)
        git(base, "commit", "-q", "-m", "attributes", cwd=work)
        git(base, "push", "-q", bare, f"{default}:{default}", cwd=work)
    glob = config_args(rng, cwd, rules.toml())
    sfx = f"[{sub}]" if sub else ""
    specs = rng.sample([k for k in revs if k is not None], min(2, len(revs) - 1)) + [None]
    if hostile == "filter":
        specs = [default, None]
    bad = ["nope", "0" * 40, "v1.0.0x", shas[0][:-1] + ("0" if shas[0][-1] != "0" else "1"), default + "/x"]
    v2 = ["--v2"] if form == "v2" or rng.random() < 0.5 else []
    for spec in specs + [rng.choice(bad)] + (["SUB"] if sub else []) + (["CUT"] if rng.random() < 0.3 else []):
        if not name.endswith(".git") and spec in (None, "CUT") and not sub:
            continue                                        # such a URL is a file
        ext = {"SUB": "[no/such]", "CUT": sfx, None: sfx}.get(spec, f"@{spec}{sfx}")
        cut = spec == "CUT"
        g["cut"] = rng.choice([0.3, 0.9, 0.99]) if cut else None
        if os.path.exists(marker):
            os.remove(marker)
        net.log.pop(case, None)
        a = ["registry", "resolve", "-r", url + ext, "-f", "json", "--skip-policies", "--quiet", "--diagnostic-format", "json"] + v2
        if allow:
            a.insert(rng.choice([0, len(a)]), "--allow-git-credentials")
        r = c.run(a + glob, cwd=cwd, env=env, timeout=150)
        detail = f"git {a} (default branch {default}, revisions {sorted(map(str, revs))}, user configuration {hostile})"
        if r.timed_out or r.rc == 2:
            raise RuntimeError("timed out or usage: " + r.brief())
        c.count("git_clones")
        reqs = net.requests(case)
        if r.panicked or r.rc not in (0, 1):
            c.violation(f"{case}-crash", detail + "\n" + r.brief(), base)
        judge_leaks(c, case, rules, r, [cwd, home], detail, base)
        for q in reqs:
            tok = q["auth"]
            own = rules.expect(q["url"].split("?")[0].split("/info/refs")[0].split("/git-upload-pack")[0])
            c.saw(stable_hash(["gitreq", hostile, allow, tok is None]))
            if tok and tok.startswith("Bearer") and tok != f"Bearer {own}":
                c.violation(f"{case}-token", f"{detail}: a git request carries {tok!r}", base)
            if not allow and ("x-secret" in q["headers"] or (tok or "").startswith("Basic") or f"/{name}x" in q["url"]):
                c.violation(f"{case}-config", f"{detail}: the user's git configuration was applied: {q}", base)
        if not allow and os.path.exists(marker):
            c.violation(f"{case}-helper", f"{detail}: a program of the user's git configuration was run", base)
        cache = os.path.join(home, ".weaver/vdir_cache")
        if os.path.isdir(cache) and os.listdir(cache):
            c.violation(f"{case}-left", f"{detail}: left behind {os.listdir(cache)}", base)
        if "passzzsecret" in r.out + r.err:
            c.violation(f"{case}-printed", f"{detail}: a password is printed\n" + r.brief(), base)
        if allow and hostile in ("insteadOf", "filter", "header", "proxy", "env"):
            c.saw(None)
            continue                                        # the user's git configuration counts, whatever it does
        fails = spec in bad or spec in ("SUB", "CUT") or hostile == "helper"     # no credentials in clear text, even so
        if hostile == "helper" and allow and spec not in bad and not os.path.exists(marker):
            c.violation(f"{case}-helper", f"{detail}: the credential helper was not asked\n" + r.brief(), base)
        c.saw(stable_hash(["git", spec, sub, hostile, allow, r.rc, stable_hash(r.out)]), sample=f"{detail}: exit {r.rc}" if i < 2 else None)
        if fails:
            c.count("git_failures")
            if r.rc != 1 or r.out.strip():
                c.violation(f"{case}-accepted", f"{detail}: there is no such thing (or it is not to be had), and no error\n" + r.brief(), base)
            continue
        want = c.run(["registry", "resolve", "-r", revs[spec], "-f", "json", "--skip-policies", "--quiet", "--diagnostic-format",
                      "json"] + v2, cwd=os.path.join(base, "git"), env={"HOME": home})
        if want.rc != 0:
            raise RuntimeError("reference: " + want.brief())
        if r.rc != 0:
            c.violation(f"{case}-refused", f"{detail}: refused\n" + r.brief(), base)
            continue
        d = diff_json(relative(json.loads(want.out), [revs[spec]]), relative(json.loads(r.out), [url + ext]))
        if d:
            other = [k for k, v in revs.items() if v != revs[spec]]
            c.violation(f"{case}-result", f"{detail}: not the content of {spec} (others: {other})\n" + "\n".join(d), base)
    with net.lock:
        net.git.pop(case, None)
    net.forget(case)
    if not c.violations:
        shutil.rmtree(base)


def main(tier, seed):
    c = Check("C23", tier, seed, "exploration",
              "a distinct request (hop, host, rule that applies), or a distinct remote content with its command and result",
              ["servers are plain HTTP on loopback addresses; TLS and the GitHub API are not reached",
               "git over HTTP is served by git's own http-backend"])
    c.setup()
    warnings.simplefilter("ignore")
    net = Net()
    c.map(lambda i: fetch(c, i, net), range(c.n(340, 5000)))
    c.map(lambda i: malformed(c, i, net), range(c.n(40, 400)))
    c.map(lambda i: gitcase(c, i, net), range(c.n(70, 1000)))
    net.close()
    return c.finish()
