"""C18: search, browsing API, MCP tools and statistics all agree with the registry.

The resolved registry, as `registry resolve --v2` prints it, is the reference. The HTTP server and the MCP server are
started on the same registry and asked by several clients at once (and in a pipeline); a checker holds every answer
against the reference: lookups by name, the documented ranking and filters of a search, the concatenation of its
pages, jq filters (against the jq program), namespace browsing, live check through MCP (against `registry live-check`),
and the statistics (recounted here)."""
import collections
import copy
import http.client
import json
import os
import queue
import shutil
import signal
import socket
import subprocess
import threading
import time
import urllib.parse

from lib import live, reg, v1
from lib.common import Check, diff_json, stable_hash
from props import c12

KINDS = [("attribute", "attributes", "key"), ("metric", "metrics", "name"), ("span", "spans", "type"),
         ("event", "events", "name"), ("entity", "entities", "type")]
STAB = ["stable", "development", "alpha", "beta", "release_candidate"]
WORDS = ["alpha", "server", "Request", "duration", "the", "HTTP", "db", "client.id", "pool_size", "héllo", "ÉTÉ",
         "x", "v1.2", "count", "of", "requests", "_", "...", "state", "error.type"]


# ------------------------------------------------------------------ registries
def enrich(rng, r, names_too):
    """Distinguishing texts, overlapping names."""
    def text():
        return " ".join(rng.choice(WORDS) for _ in range(rng.randint(1, 6)))
    pool = [a["name"] for a in r["attributes"]]
    for part in ("attributes", "metrics", "spans", "events", "entities"):
        for x in r[part]:
            if rng.random() < 0.8:
                x["brief"] = text() if rng.random() < 0.7 else text() + " " + rng.choice(pool)
            if rng.random() < 0.5:
                x["note"] = text() + rng.choice(["", " " + rng.choice(pool).upper(), "\n\nmore " + text()])
            if part == "entities":
                x["stability"] = rng.choice(STAB)
                if rng.random() < 0.2:
                    x["deprecated"] = live.dep(rng, pool)
    if names_too:
        for k, part in (("name", "metrics"), ("name", "events"), ("name", "spans")):
            seen = set()
            for x in r[part]:
                q = rng.random()
                n = x[k]
                if q < 0.25:
                    n = rng.choice(pool)
                elif q < 0.45:
                    n = rng.choice(pool) + "." + rng.choice(["count", "active_requests", "State"])
                if n not in seen and n.lower() not in {s.lower() for s in seen}:
                    x[k] = n
                seen.add(x[k])
    return r


def big(rng):
    """More items than one answer may hold."""
    r = live.gen(rng)
    for i in range(1150):
        r["attributes"].append({"name": f"bulk.p{i % 37}.a{i}", "type": "int", "brief": f"no {i % 10}",
                                "stability": rng.choice(STAB)})
    return r


def build(c, base, rng, i, kind):
    root = f"{base}/reg"
    if kind in ("v1", "v2"):
        os.makedirs(root)
        c12.make(rng, kind, root)
        return root, None
    r = big(rng) if kind == "big" else live.gen(rng)
    enrich(rng, r, True)
    if kind == "live1":
        live.drop_refinements(r)
        files = live.as_v1(rng, r)
    else:
        files = live.as_v2(rng, r)
    reg.write_tree(root, files, rng, manifest=reg.manifest("https://example.test/r/1.0.0"))
    if kind == "pkg":
        p = c.run(["registry", "package", "--v2", "-r", root, "-o", f"{base}/pkg", "--resolved-registry-uri",
                   "resolved.yaml"])
        if p.rc == 0:
            return f"{base}/pkg", r
    return root, r


# ------------------------------------------------------------------- reference
class Ref:
    def __init__(self, doc):
        self.doc = doc
        self.items = []
        self.by = {}
        for kind, part, k in KINDS:
            for x in doc["registry"].get(part, []):
                self.items.append((kind, x[k], x))
                self.by.setdefault(kind, {})[x[k]] = x

    @staticmethod
    def score(q, name, x, sep):
        q, name = q.lower(), name.lower()
        brief, note = (x.get("brief") or "").lower(), (x.get("note") or "").lower()

        def cut(s, white):
            out, cur = [], ""
            for ch in s:
                if ch in sep or ch == "_" or (white and ch.isspace()):
                    out.append(cur)
                    cur = ""
                else:
                    cur += ch
            return out + [cur]
        toks = [t for t in cut(q, True) if t]
        ids = cut(name, False)
        if name == q:
            s = 100
        elif name.startswith(q):
            s = 80
        elif q in name:
            s = 70
        elif toks and all(any(t in i for i in ids) for t in toks):
            s = 60
        elif q in brief:
            s = 40
        elif q in note:
            s = 20
        elif toks and all(t in brief for t in toks):
            s = 35
        elif toks and all(t in note for t in toks):
            s = 15
        else:
            return 0
        return max(1, s // 10) if x.get("deprecated") else s

    def search(self, q, kind="all", stability=None, hide=False, sep="."):
        """The full ranked list: [(score, kind, name, item)]."""
        out = []
        for k, n, x in self.items:
            if kind not in ("all", k) or (stability and x.get("stability") != stability):
                continue
            if hide and x.get("deprecated"):
                continue
            s = self.score(q, n, x, sep) if q else 0
            if s or not q:
                out.append((s, k, n, x))
        return sorted(out, key=lambda t: -t[0])

    def browse(self, prefix, sep):
        prefix = prefix or ""
        while prefix.endswith(sep):
            prefix = prefix[:-len(sep)]
        subs, direct, total, depth = set(), [], 0, 0
        for key, a in self.by.get("attribute", {}).items():
            if prefix and not key.startswith(prefix + sep):
                continue
            rest = key[len(prefix + sep):] if prefix else key
            parts = rest.split(sep)
            total += 1
            depth = max(depth, len(parts))
            if len(parts) > 1:
                subs.add((prefix + sep if prefix else "") + parts[0])
            else:
                direct.append({"key": key, "brief": a.get("brief", ""), "stability": a["stability"]})
        return {"prefix": prefix, "sub_namespaces": sorted(subs), "attributes": sorted(direct, key=lambda d: d["key"]),
                "total_attribute_count": total, "max_depth": depth}


def tally(xs):
    return dict(collections.Counter(str(x) for x in xs))


def type_name(t):
    return f"enum(card:{len(t['members']):03d})" if isinstance(t, dict) else t


def stats_v2(doc):
    r = doc["registry"]

    def common(l):
        return {"count": len(l), "stability_breakdown": tally(x["stability"] for x in l),
                "deprecated_count": sum(1 for x in l if x.get("deprecated")),
                "total_with_note": sum(1 for x in l if x.get("note"))}
    get = lambda k: r.get(k, [])
    return {"registry": {
        "attributes": {"attribute_count": len(get("attributes")),
                       "attribute_type_breakdown": tally(type_name(a["type"]) for a in get("attributes")),
                       "stability_breakdown": tally(a["stability"] for a in get("attributes")),
                       "deprecated_count": sum(1 for a in get("attributes") if a.get("deprecated"))},
        "metrics": {"common": common(get("metrics")), "metric_names": sorted({m["name"] for m in get("metrics")}),
                    "instrument_breakdown": tally(m["instrument"] for m in get("metrics")),
                    "unit_breakdown": tally(m["unit"] for m in get("metrics"))},
        "spans": {"common": common(get("spans")), "span_kind_breakdown": tally(s["kind"] for s in get("spans"))},
        "events": {"common": common(get("events")), "event_names": sorted({e["name"] for e in get("events")})},
        "entities": {"common": common(get("entities")), "entity_types": sorted({e["type"] for e in get("entities")}),
                     "entity_identity_length_distribution": tally(len(e.get("identity", [])) for e in get("entities"))},
        "attribute_groups": {"common": common(get("attribute_groups"))}}, "refinements": {}}


def stats_v1(doc):
    groups = doc["groups"]
    out = {}
    for g in groups:
        out.setdefault(g["type"], []).append(g)
    br = {}
    for t, l in out.items():
        d = {"common_stats": {
            "count": len(l), "total_attribute_count": sum(len(g.get("attributes", [])) for g in l),
            "total_with_prefix": sum(1 for g in l if g.get("prefix")),
            "total_with_note": sum(1 for g in l if g.get("note")),
            "stability_breakdown": tally(g["stability"] for g in l if g.get("stability")),
            "deprecated_count": sum(1 for g in l if g.get("deprecated")),
            "attribute_card_breakdown": tally(len(g.get("attributes", [])) for g in l)}}
        if t == "metric":
            d["metric_names"] = sorted({g["metric_name"] for g in l})
            d["instrument_breakdown"] = tally(g["instrument"] for g in l)
            d["unit_breakdown"] = tally(g["unit"] for g in l)
        if t == "span":
            d["span_kind_breakdown"] = tally(g["span_kind"] for g in l if g.get("span_kind"))
        br[t] = {"".join(w.capitalize() for w in t.split("_")): d}
    cat = {json.dumps(a, sort_keys=True): a for g in groups for a in g.get("attributes", [])}
    cat = list(cat.values())
    lv = [live.level_of(a.get("requirement_level")) for a in cat]
    return br, len(groups), {"attribute_count": len(cat),
                             "attribute_type_breakdown": tally(type_name(a["type"]) for a in cat),
                             "requirement_level_breakdown": tally(lv),
                             "stability_breakdown": tally(a["stability"] for a in cat if a.get("stability")),
                             "deprecated_count": sum(1 for a in cat if a.get("deprecated"))}, cat


def norm_stats(x):
    if isinstance(x, dict):
        return {str(k): (sorted(v) if k in ("metric_names", "event_names", "entity_types") else norm_stats(v))
                for k, v in x.items()}
    return x


# --------------------------------------------------------------------- queries
def a_query(rng, ref):
    """None | a query text."""
    q = rng.random()
    if q < 0.06:
        return rng.choice([None, ""])
    kind, n, x = rng.choice(ref.items)
    if q < 0.2:
        s = n
    elif q < 0.32:
        s = n[:rng.randint(1, len(n))]
    elif q < 0.44:
        a = rng.randrange(len(n))
        s = n[a:a + rng.randint(1, 6)]
    elif q < 0.6:
        t = [w for w in n.replace("_", ".").split(".") if w]
        rng.shuffle(t)
        s = rng.choice([" ", ".", "_", "  ", ". ", "\t", "\n", "\u3000"]).join(w[:rng.randint(1, len(w))] for w in t) or "."
    elif q < 0.85:
        words = ((x.get("brief") or "") + " " + (x.get("note") or "")).split() or ["b"]
        a = rng.randrange(len(words))
        w = words[a:a + rng.randint(1, 3)]
        if rng.random() < 0.5:
            rng.shuffle(w)
        s = rng.choice([" ", " ", " ", "\t", "\u3000"]).join(w)
    elif q < 0.9:
        s = rng.choice([".", "_", " ", "..", "a b c", "no.such.thing", "zzz", "%", "/", "é", "\u00a0", "*", "\\"])
    else:
        s = " ".join(rng.choice(WORDS) for _ in range(rng.randint(1, 3)))
    return rng.choice([s, s, s.upper(), s.title()])


def filters_jq(rng, ref):
    part, k = rng.choice([(p, k) for _, p, k in KINDS])
    names = [n for _, n, _ in ref.items]
    n = rng.choice(names)
    return rng.choice([
        f".registry.{part} | length", f"[.registry.{part}[].{k}]", f".registry.{part}[] | .{k}",
        f".registry.{part}[] | select(.{k} == {json.dumps(n)})",
        f"[.registry.{part}[] | select(.stability == \"stable\") | .{k}] | sort",
        f".registry.{part} | group_by(.stability) | map({{s: .[0].stability, n: length}})",
        f"[.registry.{part}[] | select(.{k} | startswith({json.dumps(n[:3])}))] | length",
        f".registry | keys", ".refinements | keys", ". | type", ".registry.attributes | map(.key) | unique",
        f".registry.{part}[0:2]", f"[.registry.{part}[] | .brief | ascii_upcase]",
        f"[.registry.{part}[] | {{(.{k}): .stability}}] | add", ".schema_url", "empty", ".nothing.here", "1, 2, 3",
        "[limit(3; .registry.attributes[] | .key)]", "reduce .registry.attributes[] as $a (0; . + 1)",
        "[paths] | length"])


BAD_JQ = [".[", "foo(", "error(\"no\")", "$undefined", "1 +", ".registry.attributes | .[\"x\"]"]


# ------------------------------------------------------------------ HTTP client
class Server:
    def __init__(self, c, root, flags, cwd):
        self.c = c
        for _ in range(5):
            with socket.socket() as s:
                s.bind(("127.0.0.1", 0))
                self.port = s.getsockname()[1]
            self.p = subprocess.Popen(
                [c.weaver, "serve", "-r", root, "--bind", f"127.0.0.1:{self.port}", *flags], cwd=cwd,
                env={"HOME": c.home, "PATH": "/usr/bin:/bin", "RUST_BACKTRACE": "0"}, stdin=subprocess.DEVNULL,
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
            self.out = []
            self.reader = threading.Thread(target=self._read, daemon=True)
            self.reader.start()
            t = time.time()
            while time.time() - t < 60 and self.p.poll() is None:
                try:
                    if self.get("/health")[0] == 200:
                        return
                except OSError:
                    time.sleep(0.05)
            self.stop()
        raise RuntimeError("the server did not start: " + "".join(self.out)[-1500:])

    def _read(self):
        for line in self.p.stdout:
            self.out.append(line.decode("utf-8", "replace"))

    def get(self, path, method="GET", headers=None, body=None):
        h = http.client.HTTPConnection("127.0.0.1", self.port, timeout=60)
        try:
            h.request(method, path, body=body, headers=headers or {})
            r = h.getresponse()
            return r.status, {k.lower(): v for k, v in r.getheaders()}, r.read()
        finally:
            h.close()

    def raw(self, data):
        with socket.create_connection(("127.0.0.1", self.port), timeout=10) as s:
            s.settimeout(2)
            try:
                s.sendall(data)
                while s.recv(65536):
                    pass
            except OSError:
                pass

    def alive(self):
        return self.p.poll() is None

    def stop(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()
        self.reader.join(5)


def client(c, key, srv, ref, rng, n, base):
    """n requests, each answer judged."""
    for j in range(n):
        if time.time() > c.deadline:
            return
        kind = rng.choice(["get"] * 4 + ["missing"] * 2 + ["search"] * 6 + ["pages", "filter", "badfilter", "badparam",
                                                                            "stats"])
        what = f"{key}/http"
        if kind in ("get", "missing"):
            k, name, x = rng.choice(ref.items)
            slashes = ""
            if kind == "missing":
                name = rng.choice([name + "x", name[:-1], name.upper(), name + ".", "no.such", name.replace(".", "_"),
                                   name + "%", "ü" + name, " " + name, name + "/y", "a" * 3000,
                                   rng.choice(ref.items)[1]]) or "x"
                k = rng.choice(KINDS)[0]
            path = f"/api/v1/registry/{k}/" + slashes + urllib.parse.quote(name, safe="")
            st, hd, body = srv.get(path)
            want = ref.by.get(k, {}).get(name.lstrip("/"))
            if name == "." or name == "..":
                continue
            c.saw(stable_hash(["get", k, name, want]))
            c.count("http_found" if want is not None else "http_absent")
            try:
                doc = json.loads(body)
            except ValueError:
                doc = None
            if want is None:
                if st != 404 or not isinstance(doc, dict) or not doc.get("error"):
                    c.violation(what, f"{path}: an unknown {k} is answered with {st}: {body[:300]!r}", keep=base)
            elif st != 200 or doc != want:
                c.violation(what, f"{path}: {st}\n" + "\n".join(diff_json(want, doc)[:6]), keep=base)
        elif kind in ("search", "pages"):
            q = a_query(rng, ref)
            t = rng.choice(["all"] * 8 + ["attribute"] * 3 + [k for k, _, _ in KINDS])
            stab = rng.choice([None] * 8 + STAB)
            hide = rng.random() < 0.3
            params = {}
            if q is not None:
                params["q"] = q
            if t != "all" or rng.random() < 0.2:
                params["type"] = t
            if stab:
                params["stability"] = "experimental" if stab == "development" and rng.random() < 0.4 else stab
            if hide or rng.random() < 0.1:
                params["hide_deprecated"] = "true" if hide else "false"
            want = ref.search(q, t, stab, hide)
            if kind == "search":
                limit = rng.choice([None] * 4 + [1, 2, 3, 10, 20] + [0, 49, 50, 51, 999, 1000, 1001, 10 ** 6, 2 ** 63])
                off = rng.choice([None] * 6 + [0, 1, 2, 5, 40, len(want), len(want) + 3, 10 ** 6, 2 ** 63])
                judge_page(c, what, srv, params, q, want, limit, off, base)
            else:
                size = rng.choice([1, 2, 3, 7, 20])
                if len(want) > 60 * size:
                    size = len(want) // 25 + 1
                got, off = [], 0
                while off == 0 or off < len(want):
                    r = judge_page(c, what, srv, params, q, want, size, off, base)
                    if r is None:
                        break
                    got += r
                    off += size
                else:
                    names = [(g.get("result_type"), g.get("key") or g.get("name") or g.get("type")) for g in got]
                    c.count("page_walks")
                    if len(got) != len(want):
                        c.violation(what + "/pages", f"{params} by {size}: {len(got)} results, {len(want)} matches: "
                                    f"{names[:20]}", keep=base)
        elif kind == "filter":
            f = filters_jq(rng, ref)
            st, hd, body = srv.get("/api/v1/registry/filter?" + urllib.parse.urlencode({"filter": f}))
            jq = subprocess.run(["/usr/bin/jq", "-c", f], input=json.dumps(ref.doc).encode(), capture_output=True)
            if jq.returncode:
                c.count("jq_refused")
                continue
            outs = [json.loads(l) for l in jq.stdout.decode().splitlines()]
            want = outs[0] if len(outs) == 1 else outs
            c.saw(stable_hash(["jq", f, want]))
            c.count("filters")
            if st != 200 or json.loads(body) != want:
                c.violation(what + "/filter", f"filter {f!r}: {st} {body[:400]!r}\nexpected {json.dumps(want)[:400]}",
                            keep=base)
        elif kind == "badfilter":
            f = rng.choice(BAD_JQ)
            st, hd, body = srv.get("/api/v1/registry/filter?" + urllib.parse.urlencode({"filter": f}))
            c.saw("badfilter" + f)
            try:
                ok = st == 400 and json.loads(body)["error"]
            except (ValueError, KeyError, TypeError):
                ok = False
            if not ok:
                c.violation(what + "/filter", f"invalid filter {f!r} answered with {st} {body[:300]!r}", keep=base)
        elif kind == "badparam":
            path = "/api/v1/registry/search?" + rng.choice(
                ["limit=-1", "limit=x", "offset=-1", "type=nothing", "stability=odd", "hide_deprecated=maybe",
                 "limit=99999999999999999999999", "type=Metric"])
            st, hd, body = srv.get(path)
            c.saw("badparam" + path)
            if st != 400:
                c.violation(what + "/params", f"{path} answered with {st} {body[:200]!r}", keep=base)
        else:
            st, hd, body = srv.get("/api/v1/registry/stats")
            want = stats_v2(ref.doc)
            doc = json.loads(body)
            c.saw(stable_hash(want))
            c.count("http_stats")
            extra = {k: doc.pop(k, None) for k in ("schema_url", "version")}
            d = diff_json(norm_stats(want), norm_stats(doc))
            if extra != {"schema_url": ref.doc.get("schema_url"), "version": "v2"}:
                d.append(f"{extra}, expected the schema URL {ref.doc.get('schema_url')} and version v2")
            if d or st != 200:
                c.violation(what + "/stats", f"{st}\n" + "\n".join(d[:6]), keep=base)


def judge_results(want, got):
    if len(got) != len(want):
        return [f"{len(got)} results, {len(want)} expected"]
    d = []
    for i, ((s, k, n, x), g) in enumerate(zip(want, got)):
        e = {**x, "score": s, "result_type": k}
        if e != g:
            d += [f"[{i}] expected the {k} {n} with score {s}"] + diff_json(e, g, limit=3)
            if len(d) > 5:
                break
    return d


def judge_page(c, what, srv, params, q, want, limit, off, base):
    p = dict(params)
    if limit is not None:
        p["limit"] = limit
    if off is not None:
        p["offset"] = off
    path = "/api/v1/registry/search?" + urllib.parse.urlencode(p)
    st, hd, body = srv.get(path)
    lim = 50 if limit is None else min(limit, 1000)
    page = want[(off or 0):][:lim]
    c.saw(stable_hash([p, [w[:3] for w in page]]))
    c.count("searches")
    if page:
        c.count("searches_with_results")
    try:
        doc = json.loads(body)
        got = doc["results"]
    except (ValueError, KeyError, TypeError):
        c.violation(what + "/search", f"{path} answered with {st} {body[:300]!r}", keep=base)
        return None
    d = diff_json({"query": q, "total": len(want), "count": len(page), "offset": off or 0},
                  {k: v for k, v in doc.items() if k != "results"})
    d += judge_results(page, got)
    if d or st != 200:
        c.violation(what + "/search", f"{path}: {st}\n" + "\n".join(d[:8]), keep=base)
        return None
    return got


def serve(c, key, base, rng, root, flags, doc):
    ref = Ref(doc)
    cors = rng.choice([None, "*", "http://a.test", "http://a.test, https://b.test:8080"])
    srv = Server(c, root, flags + (["--cors-origins", cors] if cors else []), base)
    try:
        # the answers do not change when the files do
        os.rename(root, f"{base}/moved")
        n = c.n(45, 150)
        ts = [threading.Thread(target=guard, args=(c, client, c, key, srv, ref, c.rng(key, "client", t), n, base))
              for t in range(4)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        # hostile requests leave it able to answer
        for data in (b"GET / HTTP/1.1\r\nHost: x\r\nContent-Length: 99\r\n\r\nabc", b"\x00\xff\x16\x03", b"GET /api",
                     b"GET /" + b"a" * 70000 + b" HTTP/1.1\r\n\r\n", b"GET /api/v1/registry/attribute/%ff HTTP/1.1\r\n"
                     b"Host: x\r\nConnection: close\r\n\r\n", b"POST /api/v1/registry/search HTTP/1.1\r\nHost: x\r\n"
                     b"Connection: close\r\n\r\n"):
            srv.raw(data)
        k, n, x = rng.choice(ref.items)
        st, hd, body = srv.get(f"/api/v1/registry/{k}/" + urllib.parse.quote(n, safe=""))
        c.saw("after_hostile")
        if st != 200 or json.loads(body) != x:
            c.violation(key + "/after", f"after malformed requests, {k} {n} is answered with {st} {body[:200]!r}",
                        keep=base)
        # cross-origin access only where it was configured
        for origin in (None, "http://a.test", "https://b.test:8080", "http://evil.test", "http://a.test.evil.test"):
            st, hd, body = srv.get("/api/v1/registry/stats", headers={"Origin": origin} if origin else {})
            allowed = hd.get("access-control-allow-origin")
            ok = [o.strip() for o in (cors or "").split(",")]
            want = "*" if cors == "*" else (origin if origin and origin in ok else None)
            c.saw(stable_hash(["cors", cors, origin]))
            if allowed != want:
                c.violation(key + "/cors", f"--cors-origins {cors}, Origin {origin}: access-control-allow-origin "
                            f"{allowed}, expected {want}", keep=base)
        for name, other in (("MaterializedRegistryV2", "materialized-registry-v2"),
                            ("SemconvDefinitionV2", None), ("LiveCheckSample", None), ("Nothing", None)):
            st, hd, body = srv.get("/api/v1/schema/" + name)
            c.saw("schema" + name)
            if st != (404 if name == "Nothing" else 200) or not isinstance(json.loads(body), dict):
                c.violation(key + "/schema", f"schema {name}: {st} {body[:200]!r}", keep=base)
            elif other and json.loads(body) != c.run(["registry", "json-schema", "-j", other]).json():
                c.violation(key + "/schema", f"schema {name} differs from `registry json-schema -j {other}`", keep=base)
        if not srv.alive():
            c.violation(key + "/alive", "the server ended: " + "".join(srv.out)[-1500:], keep=base)
    finally:
        srv.stop()
        if any("panicked at" in l for l in srv.out):
            c.violation(key + "/panic", "".join(srv.out)[-1500:], keep=base)


def guard(c, fn, *a):
    try:
        fn(*a)
    except Exception:
        import traceback
        with c.lock:
            c.errors.append(traceback.format_exc()[-2500:])


# -------------------------------------------------------------------------- MCP
class Mcp:
    def __init__(self, c, root, flags, cwd):
        self.p = subprocess.Popen([c.weaver, "registry", "mcp", "-r", root, *flags], cwd=cwd,
                                  env={"HOME": c.home, "PATH": "/usr/bin:/bin", "RUST_BACKTRACE": "0"},
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                  start_new_session=True)
        self.q = queue.Queue()
        self.err = []
        self.ids = collections.Counter()
        threading.Thread(target=self._out, daemon=True).start()
        threading.Thread(target=self._err, daemon=True).start()

    def _out(self):
        for line in self.p.stdout:
            self.q.put(line.decode("utf-8", "replace"))
        self.q.put(None)

    def _err(self):
        for line in self.p.stderr:
            self.err.append(line.decode("utf-8", "replace"))

    def send(self, *msgs):
        data = "".join(m if isinstance(m, str) else json.dumps(m) + "\n" for m in msgs)
        self.p.stdin.write(data.encode())
        self.p.stdin.flush()

    def recv(self, n, timeout=90):
        """n responses by id."""
        out, odd, end = {}, [], time.time() + timeout
        while len(out) < n and time.time() < end:
            try:
                line = self.q.get(timeout=max(0.1, end - time.time()))
            except queue.Empty:
                break
            if line is None:
                break
            try:
                m = json.loads(line)
            except ValueError:
                odd.append(line)
                continue
            if "id" in m and m["id"] is not None:
                self.ids[m["id"]] += 1
                out[m["id"]] = m
            else:
                odd.append(line)
        return out, odd

    def stop(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()


GETTERS = {"attribute": ("get_attribute", "key"), "metric": ("get_metric", "name"), "span": ("get_span", "type"),
           "event": ("get_event", "name"), "entity": ("get_entity", "type")}


def fin(r):
    return [{"id": f["id"], "level": f["level"], "message": f["message"]} for f in (r or {}).get("all_advice", [])]


def compact(sample):
    (kind, s), = sample.items()
    out = []

    def attrs(l):
        return [{"name": a["name"], "findings": fin(a.get("live_check_result"))} for a in l or []
                if fin(a.get("live_check_result"))]

    def entry(t, x, al, name=None):
        f, a = fin(x.get("live_check_result")), attrs(al)
        if f or a:
            out.append({"type": t, "findings": f, "attribute_findings": a, **({"name": name} if name is not None else {})})
    if kind == "attribute":
        if fin(s.get("live_check_result")):
            out.append({"name": s["name"], "findings": fin(s["live_check_result"])})
    elif kind == "metric":
        entry("metric", s, [], s["name"])
        for p in s.get("data_points") or []:
            entry("data_point", p, p["attributes"], s["name"])
            for e in p.get("exemplars") or []:
                entry("exemplar", e, e["filtered_attributes"], s["name"])
    else:
        entry(kind, s, s.get("attributes"), s.get("name") if kind == "instrumentation_scope" else None)
        for e in s.get("span_events") or []:
            entry("span_event", e, e["attributes"])
        for l in s.get("span_links") or []:
            entry("span_link", l, l["attributes"])
    return out


def settle(x):
    """Findings of one element in any order."""
    if isinstance(x, dict):
        return {k: (sorted((settle(y) for y in v), key=lambda y: json.dumps(y, sort_keys=True))
                    if k in ("all_advice", "findings", "attribute_findings") else settle(v)) for k, v in x.items()}
    if isinstance(x, list):
        return [settle(y) for y in x]
    return x


def mcp(c, key, base, rng, root, flags, doc, r):
    ref = Ref(doc)
    sep = rng.choice([".", ".", ".", "_", "::", "/"])
    fl = flags + (["--namespace-separator", sep] if sep != "." or rng.random() < 0.3 else [])
    m = Mcp(c, root, fl, base)
    what = key + "/mcp"
    try:
        m.send({"jsonrpc": "2.0", "id": "init", "method": "initialize", "params": {
            "protocolVersion": "2024-11-05", "capabilities": {}, "clientInfo": {"name": "t", "version": "1"}}})
        got, odd = m.recv(1)
        if "result" not in got.get("init", {}):
            if m.p.poll() is None and not got:
                raise RuntimeError("no answer to initialize")
            c.violation(what, f"initialize: {got} {''.join(m.err)[-800:]}", keep=base)
            return
        m.send({"jsonrpc": "2.0", "method": "notifications/initialized"})
        m.send({"jsonrpc": "2.0", "id": "list", "method": "tools/list"})
        got, odd = m.recv(1)
        tools = {t["name"] for t in got["list"]["result"]["tools"]}
        want = {g for g, _ in GETTERS.values()} | {"search", "live_check", "browse_namespace"}
        c.saw("tools")
        if tools != want:
            c.violation(what, f"tools {tools}", keep=base)
        calls = []
        for j in range(c.n(60, 200)):
            calls.append(a_call(rng, ref, sep, r))
        # the reference of live check: the command on the same samples
        allsamples = []
        for t, a, e in calls:
            if t == "live_check":
                e.append(len(allsamples))
                allsamples += ([{"resource": {"attributes": []}}] if allsamples else []) + a["samples"]
        checked = None
        if any(t == "live_check" for t, _, _ in calls):
            checked = []
            for t, a, e in calls:
                if t != "live_check":
                    continue
                with open(f"{base}/in.json", "w") as f:
                    json.dump(a["samples"], f)
                res = c.run(["registry", "live-check", "-r", root, "--v2", "--format", "json", "--no-stream",
                             "--input-source", f"{base}/in.json", "--input-format", "json"], cwd=base)
                e.append(res.json()["samples"] if res.out else None)
        msgs = [{"jsonrpc": "2.0", "id": j, "method": "tools/call", "params": {"name": t, "arguments": a}}
                for j, (t, a, e) in enumerate(calls)]
        burst = rng.choice([1, 7, len(msgs)])
        got = {}
        for k in range(0, len(msgs), burst):
            m.send(*msgs[k:k + burst])
            g, odd = m.recv(len(msgs[k:k + burst]))
            got.update(g)
            if len(g) != len(msgs[k:k + burst]):
                break
        time.sleep(0.05)
        lost = [j for j in range(len(msgs)) if m.ids[j] != 1]
        c.count("mcp_calls", len(msgs))
        if lost:
            if m.p.poll() is None and not any("panicked" in l for l in m.err):
                g, odd = m.recv(1, 5)
                if set(range(len(msgs))) - set(m.ids):
                    c.violation(what, f"calls {lost[:5]} were answered {[m.ids[j] for j in lost[:5]]} times", keep=base)
            else:
                c.violation(what, f"the server ended with {len(lost)} calls unanswered: {''.join(m.err)[-800:]}",
                            keep=base)
            return
        for j, (t, a, e) in enumerate(calls):
            judge_call(c, what, ref, sep, t, a, e, got[j], base)
        # what is not a call of a tool is refused, and the next call is answered all the same
        for k, bad in enumerate([
                {"jsonrpc": "2.0", "id": "b0", "method": "tools/call", "params": {"name": "nothing", "arguments": {}}},
                {"jsonrpc": "2.0", "id": "b1", "method": "tools/call", "params": {"name": "get_metric", "arguments": {}}},
                {"jsonrpc": "2.0", "id": "b2", "method": "tools/call",
                 "params": {"name": "search", "arguments": {"type": "odd", "query": "x"}}},
                {"jsonrpc": "2.0", "id": "b3", "method": "tools/call",
                 "params": {"name": "live_check", "arguments": {"samples": [{"nothing": 1}]}}}]):
            m.send(bad)
            g, odd = m.recv(1, 20)
            a = g.get(f"b{k}")
            c.saw(f"mcpbad{k}")
            if a is None or not ("error" in a or (a.get("result") or {}).get("isError")):
                c.violation(what, f"{bad} answered with {a}", keep=base)
        t, a, e = "browse_namespace", {}, []
        m.send({"jsonrpc": "2.0", "id": "last", "method": "tools/call", "params": {"name": t, "arguments": a}})
        g, odd = m.recv(1, 30)
        if "last" not in g:
            c.violation(what, f"no answer after refused calls: {''.join(m.err)[-600:]}", keep=base)
        else:
            judge_call(c, what, ref, sep, t, a, e, g["last"], base)
        m.p.stdin.close()
        try:
            rc = m.p.wait(30)
        except subprocess.TimeoutExpired:
            c.violation(what, "the server does not end when its input does", keep=base)
            return
        if rc != 0:
            c.violation(what, f"exit status {rc} when the input ends: {''.join(m.err)[-600:]}", keep=base)
    finally:
        m.stop()


def a_call(rng, ref, sep, r):
    q = rng.random()
    if q < 0.3:
        k, n, x = rng.choice(ref.items)
        if rng.random() < 0.3:
            n = rng.choice([n + "x", n.upper(), n[:-1], "", "no.such", rng.choice(ref.items)[1], "it's", "\"q\""])
            k = rng.choice(KINDS)[0]
        t, p = GETTERS[k]
        return t, {p: n}, [k, n]
    if q < 0.62:
        query = a_query(rng, ref)
        if query and sep != "." and rng.random() < 0.5:
            query = query.replace(".", sep)
        a = {} if query is None else {"query": query}
        if rng.random() < 0.5:
            a["type"] = rng.choice(["all"] + [k for k, _, _ in KINDS])
        if rng.random() < 0.3:
            a["stability"] = rng.choice(["stable", "development", "experimental"])
        if rng.random() < 0.6:
            a["limit"] = rng.choice([0, 1, 2, 5, 20, 99, 100, 101, 5000])
        return "search", a, []
    if q < 0.9 or r is None:
        k, n, x = rng.choice(ref.items)
        parts = n.split(sep)
        p = sep.join(parts[:rng.randint(0, len(parts))])
        p = rng.choice([p, p, p, p + sep, p + sep + sep, p[:-1], p.upper(), n, "no.such", sep])
        return "browse_namespace", ({} if rng.random() < 0.1 else {"prefix": p}), []
    tel = live.Telemetry(rng, r)
    a = {"samples": [tel.sample() for _ in range(rng.randint(0, 8))]}
    a["samples"] = [s for s in a["samples"]]
    if rng.random() < 0.7:
        a["output"] = rng.choice(["full", "findings_only", "findings_only"])
    return "live_check", a, []


def judge_call(c, what, ref, sep, t, a, e, msg, base):
    try:
        res = msg["result"]
        text = res["content"][0]["text"]
        assert len(res["content"]) == 1 and not res.get("isError")
    except (KeyError, IndexError, TypeError, AssertionError):
        c.violation(what, f"{t} {json.dumps(a)[:300]}: {json.dumps(msg)[:500]}", keep=base)
        return
    c.count("mcp_" + t)
    try:
        doc = json.loads(text)
    except ValueError:
        doc = None
    d = []
    if t.startswith("get_"):
        k, n = e
        want = ref.by.get(k, {}).get(n)
        c.saw(stable_hash(["mcp", k, n, want]))
        if want is None:
            if text != f"{k.capitalize()} '{n}' not found in registry":
                d = [f"an unknown {k} is answered with {text[:200]}"]
        else:
            d = diff_json(want, doc)
    elif t == "search":
        stab = a.get("stability")
        stab = "development" if stab == "experimental" else stab
        want = ref.search(a.get("query"), a.get("type", "all"), stab, sep=sep)
        page = want[:min(a.get("limit", 20), 100)]
        c.saw(stable_hash(["mcp", a, sep, [w[:3] for w in page]]))
        if not isinstance(doc, dict):
            d = [text[:200]]
        else:
            d = diff_json({"count": len(page), "total": len(want)}, {k: v for k, v in doc.items() if k != "results"})
            d += judge_results(page, doc.get("results", []))
    elif t == "browse_namespace":
        want = ref.browse(a.get("prefix"), sep)
        c.saw(stable_hash(["mcp", a, want]))
        d = diff_json(want, doc)
    else:
        full = e[-1]
        if full is None:
            c.count("live_check_no_reference")
            return
        c.saw(stable_hash(["mcp", a]))
        if a.get("output") == "findings_only":
            per = [compact(s) for s in full]
            want = {"findings": [x for p in per for x in p], "total_samples_checked": len(a["samples"]),
                    "samples_with_findings": sum(1 for p in per if p)}
            c.count("mcp_findings", len(want["findings"]))
        else:
            want = full
        d = diff_json(settle(want), settle(doc))
    if d:
        c.violation(f"{what}/{t}", f"{t} {json.dumps(a)[:400]} (separator {sep!r})\n" + "\n".join(d[:8]), keep=base)


# ------------------------------------------------------------------------ cases
def statistics(c, key, base, root, v1form, doc):
    for flags in ([["--v2"], []] if v1form else [["--v2"]]):
        res = c.run(["registry", "stats", "-r", root, *flags, "--format", "json"], cwd=base)
        try:
            got = res.json()
        except ValueError:
            c.violation(key + "/stats", "no statistics\n" + res.brief(), keep=base)
            continue
        text = c.run(["registry", "stats", "-r", root, *flags], cwd=base).out
        if flags or not v1form:
            want = {"version": "v2", **stats_v2(doc)}
            d = diff_json(norm_stats(want), norm_stats(got))
            lines = [f"  - count: {len(doc['registry'].get(p, []))}" for p in ("attributes", "metrics", "spans")]
        else:
            v1doc = c.run(["registry", "resolve", "-r", root, "-f", "json"], cwd=base).json()
            br, n, cat, attrs = stats_v1(v1doc)
            st = got["registry_stats"]
            d = diff_json([{"group_count": n, "group_breakdown": norm_stats(br)}],
                          [{k: norm_stats(v) for k, v in s.items() if k != "url"} for s in st])
            d += diff_json({"version": "v1", "catalog_stats": norm_stats(cat)},
                           {"version": got["version"], "catalog_stats": norm_stats(got["catalog_stats"])})
            lines = [f"  - {n} groups"] + [f"    - {len(v)} " for v in []]
            lines += [f"Number of deduplicated attributes: {cat['attribute_count']} "]
            search(c, key, base, root, c.rng(key, "search"), attrs)
        c.saw(stable_hash(got))
        c.count("statistics")
        miss = [l for l in lines if l not in text]
        if d or miss:
            c.violation(key + "/stats", f"stats {flags}\n" + "\n".join(d[:8]) + f"\nnot in the text form: {miss}",
                        keep=base)


def search(c, key, base, root, rng, attrs):
    """`registry search PATTERN`: the names of the attributes that contain it."""
    names = sorted(a["name"] for a in attrs)
    for p in ["", "no.such.name"] + [rng.choice(names)[rng.randint(0, 3):][:rng.randint(1, 9)] for _ in range(3)]:
        if p.startswith("-"):
            continue
        res = c.run(["registry", "search", "-r", root, p], cwd=base)
        got = sorted(l for l in res.out.splitlines() if l)
        want = [n for n in names if p in n]
        c.saw(stable_hash(["cli", p, want]))
        c.count("cli_searches")
        if got != want:
            c.violation(key + "/cli-search", f"search {p!r}: {got[:20]}, expected {want[:20]}\n" + res.err[-300:],
                        keep=base)


def case(c, item):
    i, kind = item
    rng = c.rng("case", i)
    key = f"case{i}-{kind}"
    base = c.dir(f"k{i}")
    root, r = build(c, base, rng, i, kind)
    res = c.run(["registry", "resolve", "-r", root, "--v2", "-f", "json", "--skip-policies"], cwd=base)
    if res.rc != 0:
        res = c.run(["registry", "resolve", "-r", root, "--v2", "-f", "json"], cwd=base)
    try:
        doc = res.json()
        ref = Ref(doc)
        assert ref.items
    except (ValueError, KeyError, AssertionError):
        c.count("registries_not_resolved")
        return
    if any(len({n for _, n, _ in g}) != len(g) for g in
           [[t for t in ref.items if t[0] == k] for k, _, _ in KINDS]):
        c.count("registries_with_equal_names")
        return
    c.saw(stable_hash(doc), sample={"kind": kind, "items": {k: len(ref.by.get(k, {})) for k, _, _ in KINDS}})
    v1form = kind in ("v1", "live1")
    flags = [] if v1form and rng.random() < 0.5 else ["--v2"]
    if kind != "big" or c.thorough:
        statistics(c, key, base, root, v1form, doc)
        mcp(c, key, base, rng, root, flags, doc, r)
    serve(c, key, base, rng, root, flags, doc)
    shutil.rmtree(base, ignore_errors=True)


def bad_cors(c, i):
    base = c.dir(f"cors{i}")
    root = f"{base}/reg"
    os.makedirs(root)
    c12.make(c.rng("cors"), "v2", root)
    origin = ["http://a.test,*", "*,*", "http://a.test\u0001", "http://a\n.test"][i]
    res = c.run(["serve", "-r", root, "--v2", "--bind", "127.0.0.1:0", "--cors-origins", origin], cwd=base, timeout=20)
    c.saw(f"badcors{i}")
    if res.timed_out:
        c.violation(f"cors{i}", f"--cors-origins {origin!r} is served", keep=base)
    elif res.rc != 1 or res.panicked:
        c.violation(f"cors{i}", f"--cors-origins {origin!r}\n" + res.brief(), keep=base)


def main(tier, seed):
    c = Check("C18", tier, seed, "exploration",
              "one judgement per answer of the HTTP API, of an MCP tool, of the search and stats commands, each held "
              "against the resolved registry; distinct by question and expected answer")
    c.setup()
    kinds = ["live2", "live1", "v2", "v1", "pkg"]
    items = [(0, "big")] + [(i, kinds[i % 5]) for i in range(1, c.n(26, 201))]
    c.map(lambda it: case(c, it), items, jobs=6)
    c.map(lambda i: bad_cors(c, i), range(4))
    return c.finish()
