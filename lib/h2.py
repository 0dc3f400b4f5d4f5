"""A small HTTP/2 and gRPC endpoint, enough to speak OTLP to and from the program under test."""
import socket
import struct
import threading

HUFFMAN = (
    "13:1ff8 23:7fffd8 28:fffffe2 28:fffffe3 28:fffffe4 28:fffffe5 28:fffffe6 28:fffffe7 28:fffffe8 24:ffffea "
    "30:3ffffffc 28:fffffe9 28:fffffea 30:3ffffffd 28:fffffeb 28:fffffec 28:fffffed 28:fffffee 28:fffffef "
    "28:ffffff0 28:ffffff1 28:ffffff2 30:3ffffffe 28:ffffff3 28:ffffff4 28:ffffff5 28:ffffff6 28:ffffff7 "
    "28:ffffff8 28:ffffff9 28:ffffffa 28:ffffffb 6:14 10:3f8 10:3f9 12:ffa 13:1ff9 6:15 8:f8 11:7fa 10:3fa "
    "10:3fb 8:f9 11:7fb 8:fa 6:16 6:17 6:18 5:0 5:1 5:2 6:19 6:1a 6:1b 6:1c 6:1d 6:1e 6:1f 7:5c 8:fb 15:7ffc "
    "6:20 12:ffb 10:3fc 13:1ffa 6:21 7:5d 7:5e 7:5f 7:60 7:61 7:62 7:63 7:64 7:65 7:66 7:67 7:68 7:69 7:6a 7:6b "
    "7:6c 7:6d 7:6e 7:6f 7:70 7:71 7:72 8:fc 7:73 8:fd 13:1ffb 19:7fff0 13:1ffc 14:3ffc 6:22 15:7ffd 5:3 6:23 "
    "5:4 6:24 5:5 6:25 6:26 6:27 5:6 7:74 7:75 6:28 6:29 6:2a 5:7 6:2b 7:76 6:2c 5:8 5:9 6:2d 7:77 7:78 7:79 "
    "7:7a 7:7b 15:7ffe 11:7fc 14:3ffd 13:1ffd 28:ffffffc 20:fffe6 22:3fffd2 20:fffe7 20:fffe8 22:3fffd3 "
    "22:3fffd4 22:3fffd5 23:7fffd9 22:3fffd6 23:7fffda 23:7fffdb 23:7fffdc 23:7fffdd 23:7fffde 24:ffffeb "
    "23:7fffdf 24:ffffec 24:ffffed 22:3fffd7 23:7fffe0 24:ffffee 23:7fffe1 23:7fffe2 23:7fffe3 23:7fffe4 "
    "21:1fffdc 22:3fffd8 23:7fffe5 22:3fffd9 23:7fffe6 23:7fffe7 24:ffffef 22:3fffda 21:1fffdd 20:fffe9 "
    "22:3fffdb 22:3fffdc 23:7fffe8 23:7fffe9 21:1fffde 23:7fffea 22:3fffdd 22:3fffde 24:fffff0 21:1fffdf "
    "22:3fffdf 23:7fffeb 23:7fffec 21:1fffe0 21:1fffe1 22:3fffe0 21:1fffe2 23:7fffed 22:3fffe1 23:7fffee "
    "23:7fffef 20:fffea 22:3fffe2 22:3fffe3 22:3fffe4 23:7ffff0 22:3fffe5 22:3fffe6 23:7ffff1 26:3ffffe0 "
    "26:3ffffe1 20:fffeb 19:7fff1 22:3fffe7 23:7ffff2 22:3fffe8 25:1ffffec 26:3ffffe2 26:3ffffe3 26:3ffffe4 "
    "27:7ffffde 27:7ffffdf 26:3ffffe5 24:fffff1 25:1ffffed 19:7fff2 21:1fffe3 26:3ffffe6 27:7ffffe0 27:7ffffe1 "
    "26:3ffffe7 27:7ffffe2 24:fffff2 21:1fffe4 21:1fffe5 26:3ffffe8 26:3ffffe9 28:ffffffd 27:7ffffe3 27:7ffffe4 "
    "27:7ffffe5 20:fffec 24:fffff3 20:fffed 21:1fffe6 22:3fffe9 21:1fffe7 21:1fffe8 23:7ffff3 22:3fffea "
    "22:3fffeb 25:1ffffee 25:1ffffef 24:fffff4 24:fffff5 26:3ffffea 23:7ffff4 26:3ffffeb 27:7ffffe6 26:3ffffec "
    "26:3ffffed 27:7ffffe7 27:7ffffe8 27:7ffffe9 27:7ffffea 27:7ffffeb 28:ffffffe 27:7ffffec 27:7ffffed "
    "27:7ffffee 27:7ffffef 27:7fffff0 26:3ffffee 30:3fffffff"
)
CODES = {}
for _i, _c in enumerate(HUFFMAN.split()):
    _n, _v = _c.split(":")
    CODES[(int(_n), int(_v, 16))] = _i

STATIC = [None, (":authority", ""), (":method", "GET"), (":method", "POST"), (":path", "/"), (":path", "/index.html"),
          (":scheme", "http"), (":scheme", "https"), (":status", "200"), (":status", "204"), (":status", "206"),
          (":status", "304"), (":status", "400"), (":status", "404"), (":status", "500"), ("accept-charset", ""),
          ("accept-encoding", "gzip, deflate")]
STATIC += [(n, "") for n in (
    "accept-language accept-ranges accept access-control-allow-origin age allow authorization cache-control "
    "content-disposition content-encoding content-language content-length content-location content-range content-type "
    "cookie date etag expect expires from host if-match if-modified-since if-none-match if-range if-unmodified-since "
    "last-modified link location max-forwards proxy-authenticate proxy-authorization range referer refresh retry-after "
    "server set-cookie strict-transport-security transfer-encoding user-agent vary via www-authenticate").split()]
assert len(STATIC) == 62


def huff(b):
    out, n, v = bytearray(), 0, 0
    for x in b:
        for k in range(7, -1, -1):
            v = v << 1 | x >> k & 1
            n += 1
            s = CODES.get((n, v))
            if s is not None:
                out.append(s)
                n = v = 0
    return bytes(out)


class Hpack:
    """Decoder with a dynamic table; what we encode is always literal."""

    def __init__(self):
        self.dyn, self.max = [], 4096

    def get(self, i):
        return STATIC[i] if i < len(STATIC) else self.dyn[i - len(STATIC)]

    def add(self, h):
        self.dyn.insert(0, h)
        self.trim()

    def trim(self):
        while self.dyn and sum(len(a) + len(b) + 32 for a, b in self.dyn) > self.max:
            self.dyn.pop()

    def decode(self, b):
        i, out = 0, []

        def num(i, bits):
            m = (1 << bits) - 1
            v = b[i] & m
            i += 1
            if v == m:
                s = 0
                while True:
                    v += (b[i] & 127) << s
                    s += 7
                    i += 1
                    if not b[i - 1] & 128:
                        break
            return v, i

        def text(i):
            h = b[i] & 128
            n, i = num(i, 7)
            s = b[i:i + n]
            return (huff(s) if h else s).decode("latin1"), i + n

        while i < len(b):
            x = b[i]
            if x & 128:
                k, i = num(i, 7)
                out.append(self.get(k))
                continue
            if x & 0xe0 == 0x20:
                self.max, i = num(i, 5)
                self.trim()
                continue
            bits = 6 if x & 0xc0 == 0x40 else 4
            k, i = num(i, bits)
            if k:
                name = self.get(k)[0]
            else:
                name, i = text(i)
            val, i = text(i)
            out.append((name, val))
            if bits == 6:
                self.add((name, val))
        return out


def encode(headers):
    out = bytearray()

    def num(v, bits, first):
        m = (1 << bits) - 1
        if v < m:
            out.append(first | v)
            return
        out.append(first | m)
        v -= m
        while v >= 128:
            out.append(v & 127 | 128)
            v >>= 7
        out.append(v)

    for n, v in headers:
        out.append(0)
        for s in (n, v):
            s = s.encode()
            num(len(s), 7, 0)
            out.extend(s)
    return bytes(out)


def frame(kind, flags, stream, payload=b""):
    return struct.pack(">I", len(payload))[1:] + bytes([kind, flags]) + struct.pack(">I", stream) + payload


DATA, HEADERS, RST, SETTINGS, PING, GOAWAY, WINDOW, CONT = 0, 1, 3, 4, 6, 7, 8, 9


class Closed(Exception):
    pass


class Conn:
    def __init__(self, sock):
        self.s = sock
        self.buf = b""
        self.hp = Hpack()

    def need(self, n):
        while len(self.buf) < n:
            d = self.s.recv(65536)
            if not d:
                raise Closed("end of stream")
            self.buf += d
        out, self.buf = self.buf[:n], self.buf[n:]
        return out

    def read(self):
        h = self.need(9)
        n = int.from_bytes(h[:3], "big")
        return h[3], h[4], int.from_bytes(h[5:9], "big") & 0x7fffffff, self.need(n)

    def block(self, flags, payload):
        """Header block of a HEADERS frame (with its continuations)."""
        if flags & 8:
            payload = payload[1:len(payload) - payload[0]]
        if flags & 32:
            payload = payload[5:]
        while not flags & 4:
            k, flags, _, more = self.read()
            assert k == CONT
            payload += more
        return self.hp.decode(payload)


class Client(Conn):
    """gRPC client: unary calls, several at a time on one connection."""

    def __init__(self, port, host="127.0.0.1", timeout=60):
        super().__init__(socket.create_connection((host, port), timeout=timeout))
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.s.sendall(b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n" + frame(SETTINGS, 0, 0) +
                       frame(WINDOW, 0, 0, struct.pack(">I", 1 << 24)))
        self.next = 1
        self.win, self.init, self.max = 65535, 65535, 16384
        self.streams = {}

    def start(self, path, msg, shred=None):
        """Opens a call; the body goes out as the windows allow, in frames of at most `shred` bytes."""
        i, self.next = self.next, self.next + 2
        body = b"\0" + struct.pack(">I", len(msg)) + msg
        self.streams[i] = {"body": body, "win": self.init, "headers": [], "data": b"", "done": False, "shred": shred,
                           "error": None}
        self.s.sendall(frame(HEADERS, 4, i, encode([(":method", "POST"), (":scheme", "http"), (":path", path),
                                                    (":authority", "localhost"), ("te", "trailers"),
                                                    ("content-type", "application/grpc")])))
        return i

    def pump(self):
        for i, st in self.streams.items():
            while st["body"] and not st["done"]:
                n = min(len(st["body"]), self.win, st["win"], self.max, st["shred"] or 1 << 30)
                if n <= 0:
                    break
                part, st["body"] = st["body"][:n], st["body"][n:]
                self.win -= n
                st["win"] -= n
                self.s.sendall(frame(DATA, 0 if st["body"] else 1, i, part))

    def step(self):
        kind, flags, i, p = self.read()
        st = self.streams.get(i)
        if kind == SETTINGS and not flags & 1:
            for k in range(0, len(p), 6):
                a, v = struct.unpack(">HI", p[k:k + 6])
                if a == 4:
                    for x in self.streams.values():
                        x["win"] += v - self.init
                    self.init = v
                elif a == 5:
                    self.max = v
            self.s.sendall(frame(SETTINGS, 1, 0))
        elif kind == PING and not flags & 1:
            self.s.sendall(frame(PING, 1, 0, p))
        elif kind == WINDOW:
            v = int.from_bytes(p, "big")
            if i == 0:
                self.win += v
            elif st:
                st["win"] += v
        elif kind == GOAWAY:
            raise Closed("goaway")
        elif kind == HEADERS:
            h = self.block(flags, p)
            if st:
                st["headers"] += h
        elif kind == DATA and st:
            st["data"] += p
        elif kind == RST and st:
            st["done"], st["error"] = True, "reset"
        if kind in (HEADERS, DATA) and flags & 1 and st:
            st["done"] = True

    def finish(self, i):
        """Waits for the answer of call i -> gRPC status, or None if there was none."""
        try:
            while not self.streams[i]["done"]:
                self.pump()
                self.step()
        except (OSError, Closed) as e:
            self.streams[i]["error"] = str(e)
        st = self.streams.pop(i)
        g = dict(st["headers"]).get("grpc-status")
        return None if g is None else int(g)

    def call(self, path, msg, shred=None):
        try:
            i = self.start(path, msg, shred)
            self.pump()
        except OSError:
            return None
        return self.finish(i)

    def close(self):
        self.s.close()


class Server(threading.Thread):
    """Collects unary gRPC requests as (path, message) and acknowledges them."""

    def __init__(self, fail=None, host="127.0.0.1", refuse=None):
        super().__init__(daemon=True)
        self.l = socket.socket()
        self.l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.l.bind((host, 0))
        self.l.listen(64)
        self.port = self.l.getsockname()[1]
        self.requests, self.errors, self.fail, self.refuse = [], [], fail, refuse
        self.lock = threading.Lock()
        self.start()

    def run(self):
        while True:
            try:
                s, _ = self.l.accept()
            except OSError:
                return
            threading.Thread(target=self.serve, args=(s,), daemon=True).start()

    def serve(self, s):
        c = Conn(s)
        streams = {}
        try:
            s.settimeout(120)
            c.need(24)
            s.sendall(frame(SETTINGS, 0, 0, struct.pack(">HI", 4, 1 << 24)) +
                      frame(WINDOW, 0, 0, struct.pack(">I", 1 << 30)))
            while True:
                kind, flags, i, p = c.read()
                if kind == SETTINGS and not flags & 1:
                    s.sendall(frame(SETTINGS, 1, 0))
                elif kind == PING and not flags & 1:
                    s.sendall(frame(PING, 1, 0, p))
                elif kind == HEADERS:
                    streams[i] = [dict(c.block(flags, p)), b""]
                elif kind == DATA:
                    if flags & 8:
                        p = p[1:len(p) - p[0]]
                    streams[i][1] += p
                if kind in (HEADERS, DATA) and flags & 1:
                    h, body = streams.pop(i)
                    n = int.from_bytes(body[1:5], "big")
                    st = 0
                    with self.lock:
                        if self.refuse and h.get(":path") == self.refuse:
                            st = 3                   # INVALID_ARGUMENT: not to be retried
                        elif self.fail and self.fail(len(self.requests)):
                            st = 14
                        else:
                            self.requests.append((h.get(":path"), body[5:5 + n], body[:1] != b"\0" or len(body) != n + 5))
                    ans = frame(HEADERS, 4, i, encode([(":status", "200"), ("content-type", "application/grpc")]))
                    if st == 0:
                        ans += frame(DATA, 0, i, b"\0\0\0\0\0")
                    ans += frame(HEADERS, 5, i, encode([("grpc-status", str(st))]))
                    s.sendall(ans)
        except (OSError, Closed):
            pass
        except Exception as e:                       # a bug of ours must not pass for silence
            self.errors.append(repr(e))

    def close(self):
        self.l.close()
