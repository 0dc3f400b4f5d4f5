"""C10: telemetry the OTLP receiver acknowledged is checked exactly once.

Senders of our own speak OTLP to `registry live-check`, alone or concurrently, and record every send, acknowledgement
and stop. The final report is compared with the history: acknowledged before the stop means present exactly once with
the values sent and the findings the registry calls for; anything else sent, at most once; nothing else at all."""
import collections
import http.client
import json
import os
import re
import shutil
import signal
import socket
import struct
import threading
import time

from lib import h2, live, otlp
from lib.common import Check, stable_hash
from props import c08

KINDS = {"internal": 1, "server": 2, "client": 3, "producer": 4, "consumer": 5}
TID, SID = bytes(range(1, 17)), bytes(range(8, 16))


class Gen:
    """Requests as OTLP dictionaries, with the samples they stand for."""

    def __init__(self, rng, r):
        self.rng, self.r, self.tel = rng, r, live.Telemetry(rng, r)

    def attrs(self, l):
        l = [a for a in l if otlp.fits(a.get("value"))]
        if l and self.rng.random() < 0.05:
            l = l + [{"name": "raw.bytes", "value": b"\x00\xff"}]
        return [otlp.kv(a) for a in l], [otlp.seen_attr(a) for a in l]

    def resource(self):
        if self.rng.random() < 0.2:
            return None, None
        a, s = self.attrs(self.tel.resource()["resource"]["attributes"])
        return {"attributes": a}, {"attributes": s}

    def scope(self):
        q = self.rng.random()
        url = self.rng.choice(["", "", "https://x.test/1.0.0"])
        if q < 0.3:
            return None, url, {"name": "", "version": "", "schema_url": url, "attributes": []} if url else None
        x = self.tel.scope()["instrumentation_scope"]
        a, s = self.attrs(x["attributes"])
        return {"name": x["name"], "version": "1.0", "attributes": a}, url, \
            {"name": x["name"], "version": "1.0", "schema_url": url, "attributes": s}

    def exemplars(self, l):
        out, seen = [], []
        for e in l or []:
            a, s = self.attrs(e["filtered_attributes"])
            v = e["value"]
            out.append({"filtered_attributes": a, "as_int" if isinstance(v, int) else "as_double": v,
                        "time_unix_nano": 1704067200 * 10 ** 9, "span_id": SID, "trace_id": TID})
            seen.append({"filtered_attributes": s, "value": v, "timestamp": "2024-01-01T00:00:00+00:00",
                         "span_id": SID.hex(), "trace_id": TID.hex()})
        return out, seen

    def span(self):
        rng = self.rng
        x = self.tel.span()["span"]
        a, s = self.attrs(x["attributes"])
        kind = rng.choice([0, KINDS[x["kind"]]])
        m = {"trace_id": TID, "span_id": SID, "name": x["name"], "kind": kind, "attributes": a, "events": [], "links": []}
        seen = {"name": x["name"], "kind": x["kind"] if kind else "internal", "attributes": s, "span_events": [],
                "span_links": [], "status": None}
        if "status" in x:
            m["status"] = {"code": ["unset", "ok", "error"].index(x["status"]["code"]), "message": "m"}
            seen["status"] = {"code": x["status"]["code"], "message": "m"}
        for e in x.get("span_events", []):
            ea, es = self.attrs(e["attributes"])
            m["events"].append({"name": e["name"], "attributes": ea})
            seen["span_events"].append({"name": e["name"], "attributes": es})
        for e in x.get("span_links", []):
            ea, es = self.attrs(e["attributes"])
            m["links"].append({"trace_id": TID, "span_id": SID, "attributes": ea})
            seen["span_links"].append({"attributes": es})
        return m, {"span": seen}

    def metric(self):
        rng = self.rng
        x = self.tel.metric()["metric"]
        ins = x["instrument"]
        seen = {"name": x["name"], "instrument": {"summary": "Summary", "weird": "Unspecified"}.get(ins, ins),
                "unit": x["unit"], "data_points": None}
        m = {"name": x["name"], "unit": x["unit"]}
        pts = x.get("data_points") or []
        if ins == "weird":
            return m, {"metric": seen}
        if ins == "summary":
            m["summary"] = {"data_points": [{"count": 1, "sum": 2.0}]}
            return m, {"metric": seen}
        expo = ins == "histogram" and rng.random() < 0.5
        out, sp = [], []
        for p in pts:
            a, s = self.attrs(p["attributes"])
            ex, es = self.exemplars(p.get("exemplars"))
            if expo:
                sc, off = rng.choice([-3, 0, 5]), rng.choice([-2, 0, 9])
                d = {"attributes": a, "count": p["count"], "sum": 1.5, "scale": sc, "zero_count": 2, "exemplars": ex,
                     "positive": {"offset": off, "bucket_counts": [1, 2]}, "min": -1.0, "max": 2.0, "flags": 1}
                t = {"attributes": s, "count": p["count"], "sum": 1.5, "scale": sc, "zero_count": 2, "exemplars": es,
                     "positive": {"offset": off, "bucket_counts": [1, 2]}, "negative": None, "min": -1.0, "max": 2.0,
                     "flags": 1}
            elif ins == "histogram":
                d = {"attributes": a, "count": p["count"], "sum": 1.5, "bucket_counts": [1, 2], "explicit_bounds": [0.5],
                     "exemplars": ex}
                t = {"attributes": s, "count": p["count"], "sum": 1.5, "bucket_counts": [1, 2], "explicit_bounds": [0.5],
                     "min": None, "max": None, "flags": 0, "exemplars": es}
            else:
                v = p["value"]
                d = {"attributes": a, "as_int" if isinstance(v, int) else "as_double": v, "exemplars": ex}
                t = {"attributes": s, "value": v, "flags": 0, "exemplars": es}
            out.append(d)
            sp.append(t)
        seen["data_points"] = sp
        if ins == "histogram":
            m["exponential_histogram" if expo else "histogram"] = {"data_points": out, "aggregation_temporality": 2}
        elif ins == "gauge":
            m["gauge"] = {"data_points": out}
        else:
            m["sum"] = {"data_points": out, "is_monotonic": ins == "counter", "aggregation_temporality": 2}
        return m, {"metric": seen}

    def log(self):
        x = self.tel.log()["log"]
        a, s = self.attrs(x["attributes"])
        n = self.rng.choice([0, 9, 17])
        m = {"event_name": x["event_name"], "severity_number": n, "severity_text": "T", "attributes": a}
        seen = {"event_name": x["event_name"], "severity_number": n, "severity_text": "T", "attributes": s,
                "trace_id": None, "span_id": None}
        if self.rng.random() < 0.4:
            m.update(trace_id=TID, span_id=SID)
            seen.update(trace_id=TID.hex(), span_id=SID.hex())
        return m, {"log": seen}

    def request(self, kind=None):
        """-> kind, message, [(sample, resource)]"""
        rng = self.rng
        kind = kind or rng.choice(["traces", "metrics", "logs", "traces", "metrics", "logs", "profiles"])
        rs, out = [], []
        table, strings = [], [""]
        for _ in range(rng.choice([1, 1, 1, 2, 0])):
            res, seen = self.resource()
            if seen is not None:
                out.append(({"resource": seen}, None))
            scopes = []
            for _ in range(rng.choice([1, 1, 2, 0])):
                sc, url, ss = self.scope()
                if ss is not None:
                    out.append(({"instrumentation_scope": ss}, None))
                items = []
                for _ in range(rng.choice([0, 1, 1, 2, 3])):
                    if kind == "profiles":
                        a, s = self.attrs([self.tel.attr() for _ in range(rng.randint(0, 3))])
                        idx = []
                        for x in a:
                            strings.append(x["key"])
                            table.append({"key_strindex": len(strings) - 1, **({"value": x["value"]} if "value" in x else {})})
                            idx.append(len(table) - 1)
                        m = {"original_payload_format": "pprof", "attribute_indices": idx}
                        y = {"profile": {"original_payload_format": "pprof", "attributes": s}}
                    else:
                        m, y = {"traces": self.span, "metrics": self.metric, "logs": self.log}[kind]()
                    items.append(m)
                    out.append((y, seen))
                f = {"traces": "spans", "metrics": "metrics", "logs": "log_records", "profiles": "profiles"}[kind]
                scopes.append({**({"scope": sc} if sc is not None else {}), f: items, "schema_url": url})
            f = {"traces": "scope_spans", "metrics": "scope_metrics", "logs": "scope_logs", "profiles": "scope_profiles"}[kind]
            rs.append({**({"resource": res} if res is not None else {}), f: scopes})
        f = {"traces": "resource_spans", "metrics": "resource_metrics", "logs": "resource_logs",
             "profiles": "resource_profiles"}[kind]
        msg = {f: rs}
        if kind == "profiles":
            msg["dictionary"] = {"string_table": strings, "attribute_table": table}
        return kind, otlp.encode(otlp.REQUESTS[kind], msg), out


FIELDS = {"span": ("name", "kind", "status", "attributes", "span_events", "span_links"),
          "metric": ("name", "instrument", "unit", "data_points"),
          "log": ("event_name", "severity_number", "severity_text", "attributes", "trace_id", "span_id"),
          "resource": ("attributes",), "instrumentation_scope": ("name", "version", "schema_url", "attributes"),
          "profile": ("original_payload_format", "attributes")}
SUB = {"attributes": ("name", "value", "type"), "filtered_attributes": ("name", "value", "type"),
       "span_events": ("name", "attributes"), "span_links": ("attributes",),
       "exemplars": ("filtered_attributes", "value", "timestamp", "span_id", "trace_id"),
       "status": ("code", "message"), "positive": ("offset", "bucket_counts"),
       "data_points": ("attributes", "value", "count", "sum", "bucket_counts", "explicit_bounds", "min", "max", "scale",
                       "zero_count", "positive", "negative", "flags", "exemplars")}


def project(x, fields):
    out = {}
    for f in fields:
        v = x.get(f)
        if f in SUB and isinstance(v, list):
            v = [project(y, SUB[f]) for y in v]
        elif f in SUB and isinstance(v, dict):
            v = project(v, SUB[f])
        if v is None or v == [] and f != "attributes":
            continue
        out[f] = v
    return out


def numbers(x):
    """2 and 2.0 are the same number here: the type of an attribute is compared on its own."""
    if isinstance(x, dict):
        return {k: numbers(v) for k, v in x.items()}
    if isinstance(x, list):
        return [numbers(v) for v in x]
    return int(x) if isinstance(x, float) and x == int(x) and abs(x) < 2 ** 53 else x


def canon(sample, entities):
    (k, x), = sample.items()
    return json.dumps([k, numbers(project(x, FIELDS[k])), entities], sort_keys=True)


def expected(model, sample, resource):
    out = {}
    (k, x), = sample.items()
    model.top(out, "0", k, x, resource)
    return canon(sample, [[p, kind, live.bag(fs)] for p, (kind, fs) in sorted(out.items())])


def reported(sample):
    seen = live.observed([sample])
    return canon(sample, [[p, kind, live.bag((res or {}).get("all_advice", []))] for p, (kind, res) in sorted(seen.items())])


# -------------------------------------------------------------------- senders
class History:
    def __init__(self):
        self.lock = threading.Lock()
        self.acked, self.other, self.stop_at, self.cut = [], [], None, 0

    def add(self, status, t, exp):
        with self.lock:
            if status == 0 and (self.stop_at is None or t < self.stop_at):
                self.acked.append(exp)
            else:
                self.other.append(exp)


def hostile(c, rng, rc, gen):
    """Traffic that must leave no trace: malformed, oversized, aborted and misdirected requests."""
    k = rng.choice(["garbage", "abort", "service", "huge", "http1"])
    c.count("hostile:" + k)
    try:
        if k == "http1":
            with socket.create_connection(("127.0.0.1", rc.port), timeout=20) as s:
                s.sendall(b"GET / HTTP/1.1\r\nHost: x\r\n\r\n")
                s.recv(100)
            return
        cl = rc.client()
        if k == "garbage":
            st = cl.call(otlp.PATHS["traces"], b"\x0a\xff\xff\xff\xff\x0f" + bytes(rng.randrange(256) for _ in range(20)))
        elif k == "service":
            st = cl.call("/no.such.Service/Export", b"")
        elif k == "huge":
            st = cl.call(otlp.PATHS["logs"], otlp.encode("ExportLogsServiceRequest", {"resource_logs": [{"scope_logs": [
                {"log_records": [{"event_name": "x" * (5 << 20)}]}]}]}))
        else:
            _, msg, _ = gen.request("traces")
            while len(msg) < 30:
                _, msg, _ = gen.request("traces")
            i = cl.start(otlp.PATHS["traces"], msg)
            cl.s.sendall(h2.frame(h2.DATA, 0, i, cl.streams[i]["body"][:20]))
            st = None
        cl.close()
        if st == 0:
            return k
    except (OSError, h2.Closed):
        pass
    return None


def sender(c, rng, rc, gen, model, hist, n, stop):
    try:
        cl = rc.client()
        left = n
        while left > 0 and not stop.is_set():
            k = min(left, rng.choice([1, 1, 1, 3, 8]))
            left -= k
            reqs = [gen.request() for _ in range(k)]
            exps = [[expected(model, s, r) for s, r in out] for _, _, out in reqs]
            ids = []
            try:
                for kind, msg, _ in reqs:
                    ids.append(cl.start(otlp.PATHS[kind], msg, rng.choice([None, None, 7, 100])))
            except OSError:
                pass
            for j, exp in enumerate(exps):
                if j < len(ids):
                    st = cl.finish(ids[j])
                    hist.add(st, time.monotonic(), exp)
                    c.count("acks" if st == 0 else "not_acked")
            if rng.random() < 0.05:
                cl.close()
                cl = rc.client()
            if rng.random() < 0.1:
                time.sleep(rng.random() * 0.02)
        cl.close()
    except (OSError, h2.Closed):
        c.count("senders_cut_off")
        hist.cut += 1


def case(c, i):
    rng = c.rng("case", i)
    base = c.dir(f"k{i}")
    r, root, flags, mode = c08.build(c, base, rng, i, ["v2", "v1"][i % 2])
    model = live.Model(r)
    how = ["stop", "http", "sigint", "sighup", "inactivity"][i % 5] if i % 10 < 9 else "http"
    midway = rng.random() < 0.3 and how != "inactivity"
    fmt = rng.choice([("json", False), ("json", False), ("jsonl", True), ("jsonl", False)])
    args = ["registry", "live-check", "-r", root, *flags, "--format", fmt[0]] + ([] if fmt[1] else ["--no-stream"])
    if how == "http":
        args += ["--output", "http"]
    rc = otlp.Receiver(c, args, base, inactivity=2 if how == "inactivity" else 0, perturb=i if i % 3 == 0 else None)
    hist, stop = History(), threading.Event()
    key = f"case{i}"
    try:
        n = rng.choice([1, 2, 3, 4])
        per = rng.choice([2, 5, 20]) if i % 7 else 60
        gens = [Gen(c.rng("gen", i, j), r) for j in range(n)]
        th = [threading.Thread(target=sender, args=(c, c.rng("send", i, j), rc, gens[j], model, hist, per, stop))
              for j in range(n)]
        for t in th:
            t.start()
        for _ in range(rng.choice([0, 1, 2])):
            k = hostile(c, rng, rc, Gen(c.rng("h", i), r))
            if k:
                c.violation(key, f"a request of kind {k} was acknowledged", keep=base)
        if not midway:
            for t in th:
                t.join()
        else:
            time.sleep(rng.random() * 0.3)
            c.count("stopped_midway")
        body = None
        hist.stop_at = time.monotonic() if midway else float("inf")
        if how == "stop":
            st, body = rc.stop()                   # it may be gone before the answer is sent
            if st not in (None, 200):
                c.violation(key, f"/stop answered {st}: {body[:300]}", keep=base)
        elif how == "http":
            try:
                st, body = rc.http("POST", "/stop")
            except (ConnectionError, http.client.HTTPException) as e:
                c.violation(key, f"/stop is to answer with the report, and does not answer: {e!r}", keep=base)
                return
            if st != 200:
                c.violation(key, f"/stop answered {st}: {body[:300]}", keep=base)
        elif how != "inactivity":
            rc.signal(signal.SIGINT if how == "sigint" else signal.SIGHUP)
        code, out, err = rc.wait()
        stop.set()
        for t in th:
            t.join()
    finally:
        stop.set()
        if rc.p.poll() is None:
            rc.kill()
    c.count("stop:" + how)
    if how == "inactivity" and (hist.other or hist.cut):
        c.count("inactive_too_early")              # the machine was too slow for the timeout: nothing to judge
        return
    if code is None:
        c.violation(key, f"did not end within 90 s of being stopped by {how}\n{err[-800:]}", keep=base)
        return
    if how == "http":
        if out.strip():
            c.violation(key, f"report on stdout as well as in the answer: {out[:200]}", keep=base)
        out = body
    try:
        from props.c09 import parse
        got, stats = parse(fmt[0], fmt[1], out)
    except Exception as e:
        c.violation(key, f"unreadable report: {e}\n{out[:500]}\n{err[-800:]}", keep=base)
        return
    seen = collections.Counter(reported(s) for s in got)
    need = collections.Counter(x for e in hist.acked for x in e)
    may = collections.Counter(x for e in hist.other for x in e)
    c.saw(stable_hash([sorted(need), how, fmt]), sum(need.values()),
          sample={"senders": n, "requests_acked": len(hist.acked), "stop": how, "midway": midway, "samples": len(got),
                  "format": fmt})
    c.count("samples_reported", len(got))
    lost = need - seen
    extra = seen - need - may
    c.count("not_acked_but_reported", sum((seen - need).values()))
    if lost:
        c.violation(key + "/lost", f"stopped by {how}: {sum(lost.values())} samples acknowledged but not reported as sent, "
                    f"e.g.\n{next(iter(lost))[:900]}\nunexpected instead: {(list(extra) or ['none'])[0][:900]}", keep=base)
    elif extra:
        c.violation(key + "/extra", f"stopped by {how}: {sum(extra.values())} samples reported more often than sent, e.g.\n"
                    f"{next(iter(extra))[:900]}", keep=base)
    if stats is not None and stats["total_entities"] != sum(len(live.observed([s])) for s in got):
        c.violation(key + "/stats", "total_entities differs from the entities reported", keep=base)
    worst = max((live.LEVELS[f["level"]] for s in got for _, (_, x) in live.observed([s]).items()
                 for f in (x or {}).get("all_advice", [])), default=-1)
    if code != (1 if worst == 2 else 0):
        c.violation(key + "/exit", f"exit status {code} with findings up to level {worst}\n{err[-500:]}", keep=base)
    shutil.rmtree(base, ignore_errors=True)


def active(c, kind):
    """As long as requests of any kind keep coming, the receiver does not stop for inactivity."""
    base = c.dir("act-" + kind)
    rng = c.rng("active", kind)
    r, root, flags, _ = c08.build(c, base, rng, 0, "v2")
    rc = otlp.Receiver(c, ["registry", "live-check", "-r", root, *flags, "--format", "json", "--no-stream"], base,
                       inactivity=2)
    gen = Gen(rng, r)
    try:
        last, gap, statuses = time.monotonic(), 0, []
        try:
            cl = rc.client()
            for _ in range(9):
                t = time.monotonic()
                statuses.append(cl.call(otlp.PATHS[kind], gen.request(kind)[1]))
                gap = max(gap, time.monotonic() - last)
                last = t
                time.sleep(0.5)
        except (OSError, h2.Closed):
            statuses.append(None)
            gap = max(gap, time.monotonic() - last)
        if gap >= 1.8:
            c.count("machine_too_slow")
            return
        c.saw("active" + kind, len(statuses))
        if any(s != 0 for s in statuses):
            c.violation("active-" + kind, f"stopped although {kind} requests kept coming (longest gap {gap:.2f} s of 2 s): "
                        f"{statuses}", keep=base)
            return
        if rc.wait()[0] is None:
            c.violation("active-" + kind, "did not stop after 2 s without requests", keep=base)
    finally:
        if rc.p.poll() is None:
            rc.kill()


def prompt(c, i):
    """A /stop that arrives as soon as the admin port is open gets the report like any other."""
    base = c.dir(f"prompt{i}")
    rng = c.rng("prompt", i)
    r, root, flags, _ = c08.build(c, base, rng, 0, "v2")
    http_out = i % 3 != 2
    args = ["registry", "live-check", "-r", root, *flags, "--format", "json", "--no-stream",
            *(["--output", "http"] if http_out else [])]
    cpu = sorted(os.sched_getaffinity(0))
    rc = otlp.Receiver(c, args, base, wait=False, cpus=None if i % 4 == 3 else {cpu[i % len(cpu)]})
    try:
        t = time.monotonic()
        while True:
            try:
                st, body = rc.http("POST", "/stop")
                break
            except ConnectionRefusedError:
                if rc.p.poll() is not None or time.monotonic() - t > 60:
                    raise RuntimeError("the receiver did not come up: " + rc.wait(1)[2][-500:])
            except (ConnectionError, http.client.HTTPException) as e:
                st, body = None, repr(e)
                break
        code, out, err = rc.wait()
    finally:
        if rc.p.poll() is None:
            rc.kill()
    c.saw(f"prompt{i}")
    if code != 0:
        c.violation(f"prompt/{i}", f"exit status {code} after /stop at once\n{err[-500:]}", keep=base)
        return
    if http_out:
        if st != 200 or out.strip():
            c.violation(f"prompt/{i}", f"/stop as soon as the port is open: status {st}, stdout {out[:200]!r}", keep=base)
            return
        out = body
    try:
        rep = json.loads(out)
        if rep["samples"] or rep["statistics"]["total_entities"]:
            c.violation(f"prompt/{i}", f"a report of what was not sent: {out[:300]}", keep=base)
    except (ValueError, KeyError, TypeError) as e:
        c.violation(f"prompt/{i}", f"/stop as soon as the port is open: no report ({e!r}): {out[:300]!r}", keep=base)
    shutil.rmtree(base, ignore_errors=True)


def main(tier, seed):
    c = Check("C10", tier, seed, "exploration",
              "A case is a live-check run with 1-4 concurrent senders (several calls in flight on each connection), hostile "
              "traffic and one way of stopping, during or after the sending. Each sample of an acknowledged request is one "
              "judgement. Distinct: by the multiset of samples, the way of stopping and the output format.",
              ["values of kinds that a sample cannot carry (maps, bytes) are expected without a value",
               "summary data points are not expected: the instrument is documented as unsupported",
               "a log body is not compared: it is shown in a debugging form"])
    c.setup(shim=True)
    c.map(lambda i: case(c, i) if isinstance(i, int) else prompt(c, i[0]) if isinstance(i, tuple) else active(c, i),
          ["traces", "metrics", "logs", "profiles"] + list(range(c.n(170, 1700))) + [(i,) for i in range(c.n(48, 400))])
    return c.finish()
