"""A small stand-in for a Solana node (HTTP JSON-RPC and program subscriptions), and a driver for
the executables of the repository.  Standard library only."""
import base64, hashlib, http.server, json, os, socket, struct, subprocess, sys, tempfile, threading, time, urllib.request

REPO = os.getcwd()
A58 = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"


def b58(b):
    n, o = int.from_bytes(b, "big"), b""
    while n:
        n, r = divmod(n, 58)
        o = A58[r:r + 1] + o
    return (b"1" * (len(b) - len(b.lstrip(b"\0"))) + o).decode()


def unb58(s, size=None):
    n = 0
    for c in s.encode():
        n = n * 58 + A58.index(c)
    b = n.to_bytes((n.bit_length() + 7) // 8, "big")
    b = b"\0" * (len(s) - len(s.lstrip("1"))) + b
    return b if size is None or len(b) >= size else b"\0" * (size - len(b)) + b


# ---- ed25519, as far as addresses need it
P = 2**255 - 19
D = -121665 * pow(121666, P - 2, P) % P
L = 2**252 + 27742317777372353535851937790883648493


def on_curve(b):
    y = int.from_bytes(b, "little") & ((1 << 255) - 1)
    if y >= P:
        y %= P
    x2 = (y * y - 1) * pow(D * y * y + 1, P - 2, P) % P
    return x2 == 0 or pow(x2, (P - 1) // 2, P) == 1


def _add(p, q):
    a, b = (p[1] - p[0]) * (q[1] - q[0]) % P, (p[1] + p[0]) * (q[1] + q[0]) % P
    c, d = 2 * p[3] * q[3] * D % P, 2 * p[2] * q[2] % P
    e, f, g, h = b - a, d - c, d + c, b + a
    return e * f % P, g * h % P, f * g % P, e * h % P


def public(seed):
    h = hashlib.sha512(seed).digest()
    k = int.from_bytes(h[:32], "little") & ((1 << 254) - 8) | (1 << 254)
    by = 4 * pow(5, P - 2, P) % P
    x2 = (by * by - 1) * pow(D * by * by + 1, P - 2, P) % P
    x = pow(x2, (P + 3) // 8, P)
    if (x * x - x2) % P:
        x = x * pow(2, (P - 1) // 4, P) % P
    if x & 1:
        x = P - x
    q, r = (x, by, 1, x * by % P), (0, 1, 1, 0)
    while k:
        if k & 1:
            r = _add(r, q)
        q, k = _add(q, q), k >> 1
    z = pow(r[2], P - 2, P)
    return (r[1] * z % P | ((r[0] * z % P & 1) << 255)).to_bytes(32, "little")


class Key:
    def __init__(self, name):
        self.seed = hashlib.sha256(name.encode()).digest()
        self.pub = public(self.seed)
        self.arg = b58(self.seed + self.pub)


def pda(seeds, prog):
    for bump in range(255, -1, -1):
        h = hashlib.sha256(b"".join(seeds) + bytes([bump]) + prog + b"ProgramDerivedAddress").digest()
        if not on_curve(h):
            return h


def program():
    import re
    t = open(REPO + "/api/src/lib.rs").read()
    return unb58(re.search(r'declare_id!\("(\w+)"\)', t).group(1), 32)


VRF = program()
SYS = bytes(32)


def queue_of(owner, index):
    return pda([b"queue", owner, bytes([index])], VRF)


def item(slot, id, prog, disc=b"\x07", metas=(), args=b"", prio=1):
    return dict(slot=slot, id=id, prog=prog, disc=disc, metas=list(metas), args=args, prio=prio)


def queue_data(index, items, size=4000):
    body = b""
    for it in items:
        at = 16 + len(body)
        d = at + 96
        m, a = d + len(it["disc"]), d + len(it["disc"]) + 33 * len(it["metas"])
        body += struct.pack("<Q32s32sIIIHHHBB4x", it["slot"], it["id"], it["prog"], d, m, a, len(it["disc"]), len(it["metas"]), len(it["args"]), it["prio"], 1) + b"\0" * 0
        body += b"\0" * (at + 96 - 16 - len(body))
        body += it["disc"] + b"".join(k + bytes([w]) for k, w in it["metas"]) + it["args"]
        body += b"\0" * (-len(body) % 8)
    head = struct.pack("<IIB3x", len(items), 16 + len(body), index) + b"\0" * 4
    return struct.pack("<Q", 3) + (head + body).ljust(size - 8, b"\0")


# ---- transactions
class Tx:
    def __init__(self, raw):
        self.raw, self.at = raw, 0
        self.sigs = [self.take(64) for _ in range(self.short())]
        self.message = raw[self.at:]
        self.nsig, self.ro_s, self.ro_u = self.take(3)
        self.keys = [self.take(32) for _ in range(self.short())]
        self.hash = self.take(32)
        self.ixs = []
        for _ in range(self.short()):
            p = self.keys[self.take(1)[0]]
            acc = [self.keys[i] for i in self.take(self.short())]
            self.ixs.append((p, acc, self.take(self.short())))
        self.when = time.time()

    def take(self, n):
        self.at += n
        return self.raw[self.at - n:self.at]

    def short(self):
        v = s = 0
        while True:
            b = self.take(1)[0]
            v |= (b & 127) << s
            s += 7
            if b < 128:
                return v

    def vrf(self):
        return [(a, d) for p, a, d in self.ixs if p == VRF]

    def fulfils(self):
        """the request it fulfils, or None"""
        for a, d in self.vrf():
            if d[0] == 4:
                return d[8:40]

    def purges(self):
        return any(d[0] == 9 for a, d in self.vrf())


class Node:
    """on_send(tx): True accepts, None answers with an error.  on_status(tx): "ok", "no", "failed" or None."""

    def __init__(self):
        self.accounts, self.slot, self.hashes, self.sends, self.asked = {}, 1000, [], [], 0
        self.on_send, self.on_status = lambda tx: True, lambda tx: "no"
        self.on_program = lambda: True
        self.txs, self.socks, self.lock = {}, [], threading.RLock()
        node = self

        class H(http.server.BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.1"

            def log_message(self, *a):
                pass

            def do_POST(self):
                v = json.loads(self.rfile.read(int(self.headers["content-length"])))
                try:
                    r = node.answer(v["method"], v.get("params") or [])
                except Exception as e:
                    r = None
                    print("node:", v["method"], e)
                o = dict(jsonrpc="2.0", id=v["id"])
                o.update(dict(result=r[0]) if r is not None else dict(error=dict(code=-32603, message="unavailable")))
                b = json.dumps(o).encode()
                self.send_response(200)
                self.send_header("content-type", "application/json")
                self.send_header("content-length", str(len(b)))
                self.end_headers()
                self.wfile.write(b)

        s = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
        s.daemon_threads = True
        threading.Thread(target=s.serve_forever, daemon=True).start()
        self.rpc = "http://127.0.0.1:%d" % s.server_port
        l = socket.create_server(("127.0.0.1", 0))
        self.ws = "ws://127.0.0.1:%d" % l.getsockname()[1]
        threading.Thread(target=self.listen, args=(l,), daemon=True).start()

    def put(self, key, data, owner=VRF, lamports=10**9):
        with self.lock:
            self.accounts[key] = (owner, data, lamports)

    def account(self, key):
        a = self.accounts.get(key)
        return a and dict(lamports=a[2], owner=b58(a[0]), data=[base64.b64encode(a[1]).decode(), "base64"], executable=False, rentEpoch=0, space=len(a[1]))

    def answer(self, m, p):
        with self.lock:
            ctx = dict(slot=self.slot)
            if m == "getLatestBlockhash":
                h = hashlib.sha256(b"hash%d" % len(self.hashes)).digest()
                self.hashes.append((h, self.slot))
                return [dict(context=ctx, value=dict(blockhash=b58(h), lastValidBlockHeight=10**6))]
            if m == "getProgramAccounts":
                self.asked += 1
                if not self.on_program():
                    return None
                f = [x["memcmp"] for x in (p[1].get("filters") or []) if "memcmp" in x]
                def fits(d):
                    for x in f:
                        b = x["bytes"]
                        b = bytes(b) if isinstance(b, list) else base64.b64decode(b) if x.get("encoding") == "base64" else unb58(b)
                        if d[x["offset"]:x["offset"] + len(b)] != b:
                            return False
                    return True
                return [[dict(pubkey=b58(k), account=self.account(k)) for k, a in self.accounts.items() if a[0] == VRF and fits(a[1])]]
            if m == "getAccountInfo":
                return [dict(context=ctx, value=self.account(unb58(p[0], 32)))]
            if m == "getMultipleAccounts":
                return [dict(context=ctx, value=[self.account(unb58(k, 32)) for k in p[0]])]
            if m == "sendTransaction":
                t = Tx(base64.b64decode(p[0]))
                self.sends.append(t)
                sig = b58(t.sigs[0])
                self.txs[sig] = t
                return [sig] if self.on_send(t) else None
            if m == "getSignatureStatuses":
                t = self.txs.get(p[0][0])
                s = t and self.on_status(t)
                if s is None:
                    return None
                e = {"InstructionError": [1, {"Custom": 1}]} if s == "failed" else None
                v = None if s == "no" else dict(slot=self.slot, confirmations=None, err=e, status=dict(Err=e) if e else dict(Ok=None), confirmationStatus="finalized")
                return [dict(context=ctx, value=[v])]
            if m in ("getSlot", "getBlockHeight"):
                return [self.slot]
            if m == "isBlockhashValid":
                return [dict(context=ctx, value=True)]
            if m == "getVersion":
                return [{"solana-core": "3.0.0", "feature-set": 1}]
            if m == "getMinimumBalanceForRentExemption":
                return [890880]
        return None

    def listen(self, l):
        while True:
            c, _ = l.accept()
            threading.Thread(target=self.subscriber, args=(c,), daemon=True).start()

    def subscriber(self, c):
        try:
            h = b""
            while b"\r\n\r\n" not in h:
                h += c.recv(4096)
            key = [x.split(b":", 1)[1].strip() for x in h.split(b"\r\n") if x.lower().startswith(b"sec-websocket-key")][0]
            acc = base64.b64encode(hashlib.sha1(key + b"258EAFA5-E914-47DA-95CA-C5AB0DC85B11").digest())
            c.sendall(b"HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " + acc + b"\r\n\r\n")
            f = c.makefile("rb")
            while True:
                a, b = f.read(2)
                n = b & 127
                if n == 126:
                    n = struct.unpack(">H", f.read(2))[0]
                mask, d = f.read(4), f.read(n)
                d = bytes(x ^ mask[i % 4] for i, x in enumerate(d))
                if a & 15 == 8:
                    c.close()
                    return
                if a & 15 == 1:
                    v = json.loads(d)
                    self.frame(c, dict(jsonrpc="2.0", id=v.get("id"), result=7))
                    if v.get("method") == "programSubscribe":
                        with self.lock:
                            self.socks.append(c)
        except Exception:
            with self.lock:
                if c in self.socks:
                    self.socks.remove(c)

    def frame(self, c, v):
        b = json.dumps(v).encode()
        c.sendall(b"\x81" + (bytes([len(b)]) if len(b) < 126 else b"\x7e" + struct.pack(">H", len(b)) if len(b) < 65536 else b"\x7f" + struct.pack(">Q", len(b))) + b)

    def notify(self, key, slot=None, data=None, owner=None):
        """tell the subscribers what an account holds (default: what it does hold)"""
        o, d, n = self.accounts[key]
        d, o = d if data is None else data, o if owner is None else owner
        v = dict(jsonrpc="2.0", method="programNotification", params=dict(subscription=7, result=dict(context=dict(slot=slot or self.slot), value=dict(
            pubkey=b58(key), account=dict(lamports=n, owner=b58(o), data=[base64.b64encode(d).decode(), "base64"], executable=False, rentEpoch=0, space=len(d))))))
        for c in list(self.socks):
            try:
                self.frame(c, v)
            except OSError:
                pass


def until(f, seconds):
    end = time.time() + seconds
    while time.time() < end:
        if f():
            return True
        time.sleep(0.05)
    return bool(f())


def setup(ok, text):
    if not ok:
        print("DEMO SETUP:", text)
        done(4)


def claim(ok, text):
    print("ok:" if ok else "BROKEN:", text)
    if not ok:
        done(1)


KIDS = []


def done(code=0):
    for k in KIDS:
        k.kill()
    sys.stdout.flush()
    os._exit(code)


class Service:
    def __init__(self, node, key):
        s = socket.create_server(("127.0.0.1", 0))
        port = s.getsockname()[1]
        s.close()
        env = {k: v for k, v in os.environ.items() if not k.startswith("LASERSTREAM") and not k.startswith("VRF_")}
        self.http = "http://127.0.0.1:%d/stats" % port
        self.log = tempfile.TemporaryFile()
        self.p = subprocess.Popen([REPO + "/target/debug/vrf-oracle", "--identity", key.arg, "--rpc-url", node.rpc, "--websocket-url", node.ws, "--http-port", str(port)],
                                  stdout=subprocess.DEVNULL, stderr=self.log, env=env)
        KIDS.append(self.p)
        setup(until(lambda: node.asked >= 1 and node.socks, 40), "the service does not connect")

    def stats(self):
        return json.load(urllib.request.urlopen(self.http, timeout=5))


def cli(node, key, *args):
    p = subprocess.run([REPO + "/target/debug/vrf-cli", "--rpc-url", node.rpc, "--keypair", key.arg, *args], capture_output=True, text=True, timeout=60)
    return p.returncode, p.stdout + p.stderr
