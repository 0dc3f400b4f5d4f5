"""OTLP messages as dictionaries, their wire form, and a receiver process under test."""
import http.client
import itertools
import json
import os
import signal
import socket
import struct
import subprocess
import threading
import time

from . import h2, live

SCHEMA = {}
for _line in """
AnyValue: 1 string_value string, 2 bool_value bool, 3 int_value int64, 4 double_value double, 5 array_value
  ArrayValue, 6 kvlist_value KeyValueList, 7 bytes_value bytes
ArrayValue: 1 values *AnyValue
KeyValueList: 1 values *KeyValue
KeyValue: 1 key string, 2 value AnyValue
InstrumentationScope: 1 name string, 2 version string, 3 attributes *KeyValue, 4 dropped_attributes_count uint32
EntityRef: 1 schema_url string, 2 type string, 3 id_keys *string, 4 description_keys *string
Resource: 1 attributes *KeyValue, 2 dropped_attributes_count uint32, 3 entity_refs *EntityRef
ResourceSpans: 1 resource Resource, 2 scope_spans *ScopeSpans, 3 schema_url string
ScopeSpans: 1 scope InstrumentationScope, 2 spans *Span, 3 schema_url string
Span: 1 trace_id bytes, 2 span_id bytes, 3 trace_state string, 4 parent_span_id bytes, 5 name string, 6 kind enum, 7
  start_time_unix_nano fixed64, 8 end_time_unix_nano fixed64, 9 attributes *KeyValue, 10 dropped_attributes_count
  uint32, 11 events *Event, 12 dropped_events_count uint32, 13 links *Link, 14 dropped_links_count uint32, 15 status
  Status, 16 flags fixed32
Event: 1 time_unix_nano fixed64, 2 name string, 3 attributes *KeyValue, 4 dropped_attributes_count uint32
Link: 1 trace_id bytes, 2 span_id bytes, 3 trace_state string, 4 attributes *KeyValue, 5 dropped_attributes_count
  uint32, 6 flags fixed32
Status: 2 message string, 3 code enum
ResourceMetrics: 1 resource Resource, 2 scope_metrics *ScopeMetrics, 3 schema_url string
ScopeMetrics: 1 scope InstrumentationScope, 2 metrics *Metric, 3 schema_url string
Metric: 1 name string, 2 description string, 3 unit string, 5 gauge Gauge, 7 sum Sum, 9 histogram Histogram, 10
  exponential_histogram ExponentialHistogram, 11 summary Summary, 12 metadata *KeyValue
Gauge: 1 data_points *NumberDataPoint
Sum: 1 data_points *NumberDataPoint, 2 aggregation_temporality enum, 3 is_monotonic bool
Histogram: 1 data_points *HistogramDataPoint, 2 aggregation_temporality enum
ExponentialHistogram: 1 data_points *ExponentialHistogramDataPoint, 2 aggregation_temporality enum
Summary: 1 data_points *SummaryDataPoint
NumberDataPoint: 2 start_time_unix_nano fixed64, 3 time_unix_nano fixed64, 4 as_double double, 5 exemplars
  *Exemplar, 6 as_int sfixed64, 7 attributes *KeyValue, 8 flags uint32
HistogramDataPoint: 2 start_time_unix_nano fixed64, 3 time_unix_nano fixed64, 4 count fixed64, 5 sum ?double, 6
  bucket_counts *fixed64, 7 explicit_bounds *double, 8 exemplars *Exemplar, 9 attributes *KeyValue, 10 flags uint32,
  11 min ?double, 12 max ?double
ExponentialHistogramDataPoint: 1 attributes *KeyValue, 2 start_time_unix_nano fixed64, 3 time_unix_nano fixed64, 4
  count fixed64, 5 sum ?double, 6 scale sint32, 7 zero_count fixed64, 8 positive Buckets, 9 negative Buckets, 10
  flags uint32, 11 exemplars *Exemplar, 12 min ?double, 13 max ?double, 14 zero_threshold double
Buckets: 1 offset sint32, 2 bucket_counts *uint64
SummaryDataPoint: 2 start_time_unix_nano fixed64, 3 time_unix_nano fixed64, 4 count fixed64, 5 sum double, 6
  quantile_values *ValueAtQuantile, 7 attributes *KeyValue, 8 flags uint32
ValueAtQuantile: 1 quantile double, 2 value double
Exemplar: 2 time_unix_nano fixed64, 3 as_double double, 4 span_id bytes, 5 trace_id bytes, 6 as_int sfixed64, 7
  filtered_attributes *KeyValue
ResourceLogs: 1 resource Resource, 2 scope_logs *ScopeLogs, 3 schema_url string
ScopeLogs: 1 scope InstrumentationScope, 2 log_records *LogRecord, 3 schema_url string
LogRecord: 1 time_unix_nano fixed64, 2 severity_number enum, 3 severity_text string, 5 body AnyValue, 6 attributes
  *KeyValue, 7 dropped_attributes_count uint32, 8 flags fixed32, 9 trace_id bytes, 10 span_id bytes, 11
  observed_time_unix_nano fixed64, 12 event_name string
ProfilesDictionary: 1 mapping_table *Mapping, 2 location_table *Location, 3 function_table *Function, 4 link_table
  *ProfileLink, 5 string_table *string, 6 attribute_table *KeyValueAndUnit, 7 stack_table *Stack
ResourceProfiles: 1 resource Resource, 2 scope_profiles *ScopeProfiles, 3 schema_url string
ScopeProfiles: 1 scope InstrumentationScope, 2 profiles *Profile, 3 schema_url string
Profile: 1 sample_type ValueType, 2 samples *ProfileSample, 3 time_unix_nano fixed64, 4 duration_nano uint64, 5
  period_type ValueType, 6 period int64, 7 profile_id bytes, 8 dropped_attributes_count uint32, 9
  original_payload_format string, 10 original_payload bytes, 11 attribute_indices *int32
ProfileLink: 1 trace_id bytes, 2 span_id bytes
ValueType: 1 type_strindex int32, 2 unit_strindex int32
ProfileSample: 1 stack_index int32, 2 attribute_indices *int32, 3 link_index int32, 4 values *int64, 5
  timestamps_unix_nano *fixed64
Mapping: 1 memory_start uint64, 2 memory_limit uint64, 3 file_offset uint64, 4 filename_strindex int32, 5
  attribute_indices *int32
Stack: 1 location_indices *int32
Location: 1 mapping_index int32, 2 address uint64, 3 lines *Line, 4 attribute_indices *int32
Line: 1 function_index int32, 2 line int64, 3 column int64
Function: 1 name_strindex int32, 2 system_name_strindex int32, 3 filename_strindex int32, 4 start_line int64
KeyValueAndUnit: 1 key_strindex int32, 2 value AnyValue, 3 unit_strindex int32
ExportTraceServiceRequest: 1 resource_spans *ResourceSpans
ExportMetricsServiceRequest: 1 resource_metrics *ResourceMetrics
ExportLogsServiceRequest: 1 resource_logs *ResourceLogs
ExportProfilesServiceRequest: 1 resource_profiles *ResourceProfiles, 2 dictionary ProfilesDictionary
""".strip().replace("\n  ", " ").splitlines():
    _n, _f = _line.split(": ", 1)
    SCHEMA[_n] = {}
    for _x in _f.split(", "):
        _k, _name, _t = _x.split()
        SCHEMA[_n][_name] = (int(_k), _t.lstrip("*?"), _t[0] if _t[0] in "*?" else "")

ONEOF = {"string_value", "bool_value", "int_value", "double_value", "array_value", "kvlist_value", "bytes_value", "as_double",
         "as_int", "gauge", "sum", "histogram", "exponential_histogram", "summary"}
PATHS = {"traces": "/opentelemetry.proto.collector.trace.v1.TraceService/Export",
         "metrics": "/opentelemetry.proto.collector.metrics.v1.MetricsService/Export",
         "logs": "/opentelemetry.proto.collector.logs.v1.LogsService/Export",
         "profiles": "/opentelemetry.proto.collector.profiles.v1development.ProfilesService/Export"}
REQUESTS = {"traces": "ExportTraceServiceRequest", "metrics": "ExportMetricsServiceRequest",
            "logs": "ExportLogsServiceRequest", "profiles": "ExportProfilesServiceRequest"}


def varint(v):
    v &= (1 << 64) - 1
    out = bytearray()
    while v >= 128:
        out.append(v & 127 | 128)
        v >>= 7
    out.append(v)
    return bytes(out)


def scalar(t, v):
    """-> wire type, bytes"""
    if t == "string":
        b = v.encode("utf-8", "surrogatepass")
        return 2, varint(len(b)) + b
    if t == "bytes":
        return 2, varint(len(v)) + v
    if t == "double":
        return 1, struct.pack("<d", v)
    if t == "fixed64":
        return 1, struct.pack("<Q", v)
    if t == "sfixed64":
        return 1, struct.pack("<q", v)
    if t == "fixed32":
        return 5, struct.pack("<I", v)
    if t == "sint32":
        return 0, varint((v << 1) ^ (v >> 31))
    return 0, varint(int(v))


def encode(msg, d):
    out = b""
    for k, v in d.items():
        n, t, rep = SCHEMA[msg][k]
        if v is None:
            continue
        vals = v if rep == "*" else [v]
        if rep == "*" and t not in SCHEMA and t not in ("string", "bytes") and vals:
            b = b"".join(scalar(t, x)[1] for x in vals)
            out += varint(n << 3 | 2) + varint(len(b)) + b
            continue
        for x in vals:
            if t in SCHEMA:
                b = encode(t, x)
                out += varint(n << 3 | 2) + varint(len(b)) + b
            else:
                w, b = scalar(t, x)
                out += varint(n << 3 | w) + b
    return out


def decode(msg, b):
    sch = {n: (k, t, rep) for k, (n, t, rep) in SCHEMA[msg].items()}
    out, i = {}, 0

    def vi(i):
        v = s = 0
        while True:
            v |= (b[i] & 127) << s
            s += 7
            i += 1
            if not b[i - 1] & 128:
                return v, i

    def conv(t, w, raw):
        if t in SCHEMA:
            return decode(t, raw)
        if t == "string":
            return raw.decode()
        if t == "bytes":
            return raw
        if t == "double":
            return struct.unpack("<d", raw)[0]
        if t in ("fixed64", "sfixed64", "fixed32"):
            return int.from_bytes(raw, "little", signed=t == "sfixed64")
        if t == "bool":
            return bool(raw)
        if t == "sint32":
            return (raw >> 1) ^ -(raw & 1)
        if t in ("int64", "int32", "enum") and raw >= 1 << 63:
            return raw - (1 << 64)
        return raw

    while i < len(b):
        key, i = vi(i)
        n, w = key >> 3, key & 7
        if w == 0:
            raw, i = vi(i)
        elif w == 1:
            raw, i = b[i:i + 8], i + 8
        elif w == 5:
            raw, i = b[i:i + 4], i + 4
        else:
            ln, i = vi(i)
            raw, i = b[i:i + ln], i + ln
        if n not in sch:
            out.setdefault("?", []).append(n)
            continue
        k, t, rep = sch[n]
        if rep == "*" and w == 2 and t not in SCHEMA and t not in ("string", "bytes"):
            j = 0
            while j < len(raw):
                if t in ("double", "fixed64", "sfixed64"):
                    out.setdefault(k, []).append(conv(t, 1, raw[j:j + 8]))
                    j += 8
                else:
                    v = s = 0
                    while True:
                        v |= (raw[j] & 127) << s
                        s += 7
                        j += 1
                        if not raw[j - 1] & 128:
                            break
                    out.setdefault(k, []).append(conv(t, 0, v))
        elif rep == "*":
            out.setdefault(k, []).append(conv(t, w, raw))
        else:
            out[k] = conv(t, w, raw)
    return out


# --------------------------------------------------------------- attributes
def any_value(v):
    if v is None:
        return {}
    if isinstance(v, bool):
        return {"bool_value": v}
    if isinstance(v, int):
        return {"int_value": v}
    if isinstance(v, float):
        return {"double_value": v}
    if isinstance(v, str):
        return {"string_value": v}
    if isinstance(v, bytes):
        return {"bytes_value": v}
    if isinstance(v, dict):
        return {"kvlist_value": {"values": [{"key": k, "value": any_value(x)} for k, x in v.items()]}}
    return {"array_value": {"values": [any_value(x) for x in v]}}


def from_any(a):
    """A decoded AnyValue as a JSON value (None when it holds nothing)."""
    if not a:
        return None
    (k, v), = a.items()
    if k == "array_value":
        return [from_any(x) for x in v.get("values", [])]
    if k == "kvlist_value":
        return {x["key"]: from_any(x.get("value")) for x in v.get("values", [])}
    return v


def fits(v):
    """Values that OTLP can carry."""
    if isinstance(v, int) and not isinstance(v, bool):
        return -2 ** 63 <= v < 2 ** 63
    if isinstance(v, list):
        return all(fits(x) for x in v)
    if isinstance(v, dict):
        return all(fits(x) for x in v.values())
    return True


def shown(v):
    """What is kept of a value: maps, bytes and absent values have no representation."""
    if v is None or isinstance(v, (dict, bytes)):
        return None
    if isinstance(v, list):
        return [y for y in (shown(x) for x in v) if y is not None]
    return v


def kv(a):
    out = {"key": a["name"]}
    if "value" in a:
        out["value"] = any_value(a["value"])
    return out


def seen_attr(a):
    v = shown(a.get("value"))
    return {"name": a["name"], "value": v, "type": None if v is None else live.infer(v)}


# ------------------------------------------------------------------ receiver
_ports = itertools.cycle(range(12000 + os.getpid() * 997 % 16000, 12000 + os.getpid() * 997 % 16000 + 4000))
_port_lock = threading.Lock()


def free_port():
    """A port below the range the kernel hands out, so that nothing else takes it before the receiver does."""
    while True:
        with _port_lock:
            p = next(_ports)
        with socket.socket() as s:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            try:
                s.bind(("127.0.0.1", p))
                return p
            except OSError:
                pass


class Receiver:
    """A weaver command that receives OTLP, with its ports."""

    def __init__(self, c, args, cwd, env=None, grpc="--otlp-grpc-port", inactivity=0, perturb=None, wait=True, cpus=None):
        self.c = c
        e = {"HOME": c.home, "PATH": "/usr/bin:/bin", "LANG": "C.UTF-8", "TERM": "dumb", "RUST_BACKTRACE": "0"}
        if perturb is not None and c.shim:
            e.update(LD_PRELOAD=c.shim, PERTURB_SEED=str(perturb))
        e.update(env or {})
        self.out = open(f"{cwd}/rcv.out", "wb+")
        self.err = open(f"{cwd}/rcv.err", "wb+")
        for _ in range(5):
            self.port, self.admin = free_port(), free_port()
            self.p = subprocess.Popen([c.weaver, *map(str, args), grpc, str(self.port), "--admin-port", str(self.admin),
                                       "--inactivity-timeout", str(inactivity)], cwd=cwd, env=e, stdin=subprocess.DEVNULL,
                                      stdout=self.out, stderr=self.err, start_new_session=True,
                                      preexec_fn=(lambda: os.sched_setaffinity(0, cpus)) if cpus else None)
            if not wait or self.ready():
                return
            self.kill()
        raise RuntimeError("the receiver did not come up: " + open(f"{cwd}/rcv.err").read()[-800:])

    def ready(self, timeout=60):
        t = time.time()
        while time.time() - t < timeout:
            if self.p.poll() is not None:
                return False
            try:
                with socket.create_connection(("127.0.0.1", self.port), timeout=5):
                    pass
                if self.http("GET", "/health")[0] == 200:
                    return True
            except OSError:
                pass
            time.sleep(0.02)
        return False

    def http(self, method, path, timeout=60):
        h = http.client.HTTPConnection("127.0.0.1", self.admin, timeout=timeout)
        try:
            h.request(method, path)
            r = h.getresponse()
            return r.status, r.read().decode("utf-8", "replace")
        finally:
            h.close()

    def stop(self):
        """asks the receiver to stop; it may go away before the answer is sent"""
        try:
            return self.http("POST", "/stop")
        except (OSError, http.client.HTTPException):
            return None, ""

    def client(self):
        return h2.Client(self.port)

    def signal(self, s):
        os.kill(self.p.pid, s)

    def wait(self, timeout=90):
        """-> exit status (None: still running), stdout, stderr"""
        try:
            rc = self.p.wait(timeout)
        except subprocess.TimeoutExpired:
            rc = None
            self.kill()
        r = []
        for f in (self.out, self.err):
            f.seek(0)
            r.append(f.read().decode("utf-8", "replace"))
            f.close()
        return rc, r[0], r[1]

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()
