"""C26: the DTLS reader thread and the pre-shared key callbacks."""
import asyncio
import ctypes
import queue
import socket
import ssl
import sys
import threading
import types

ID = "C26"
LEVEL = "exploration"
RULE = ("real reader threads of 1-3 client and server connections on scripted sockets: bursts and pauses of 0-40 datagrams of 0-1500 bytes, callbacks that raise, change or are missing for a while, read errors of several types at "
        "any point, stop; key callbacks called through their C function pointers with keys of 0-300 bytes and every relation of buffer sizes, all memory around the allowed buffers watched. "
        "Non-trivial: distinct (reads, deliveries) interleavings and (key, buffer) relations")
REQUIRE = {"datagrams read": 4000, "delivered": 3500, "delivered while reading": 300, "read errors": 150, "stops": 80, "server datagrams": 1000, "keys handed over": 1000, "keys that do not fit": 500, "identities that do not fit": 100,
           "bytes sent": 1000, "raising callbacks": 100}
ASSUMPTIONS = ["OpenSSL itself is not available to this interpreter: the socket below the reader is scripted, the key callbacks are called like OpenSSL does", "a datagram read when stop() was called already may be delivered or not"]
CASE_CPU_LIMIT = 60


def plan(tier):
    return dict(cases=300000, seconds=780) if tier == "thorough" else dict(cases=12000, seconds=200)


def gen_conn(rng):
    server = rng.random() < 0.45
    script = []
    for _ in range(rng.choice((0, 1, 3, 10, 40))):
        script.append(("data", rng.randbytes(rng.choice((0, 1, 4, 60, 60, 576, 1024, 1280, 1281, 1499, 1500))), rng.randrange(4)))
        if rng.random() < 0.1:
            script.append(script[-1])  # the same once more
        if rng.random() < 0.15:
            script.append(("pause", rng.choice((0, 0.0005, 0.002))))
        if rng.random() < 0.04:
            script.append(("callback", rng.choice(("none", "raise", "normal", "other"))))
    script.append(("error", rng.choice(("ssl", "os", "timeout", "value", "eof"))) if rng.random() < 0.6 else ("stop", rng.randint(0, 2)))
    if script[-1][0] == "error" and rng.random() < 0.3:
        script.append(("data", b"after the error", 0))
    sends = [rng.randbytes(rng.choice((0, 1, 50, 1400))) for _ in range(rng.choice((0, 0, 1, 5)))]
    if sends and rng.random() < 0.3:
        sends.append(sends[-1])
    return dict(server=server, script=script, sends=sends)


def gen(rng, i, tier):
    psk = []
    for _ in range(rng.choice((2, 6))):
        n = rng.choice((0, 1, 16, 16, 32, 255, 256, rng.randrange(300)))
        room = rng.choice((n, n, n + 1, 256, max(0, n - 1), n // 2, 0, 512))
        psk.append(dict(server=rng.random() < 0.5, key=rng.choice((rng.randbytes(n), bytes(n), b"\xff" * n)), room=room, identity=rng.choice((128, 128, 128, 16, 15, 14, 7, 1, 0))))
    return dict(conns=[gen_conn(rng) for _ in range(rng.choice((0, 1, 1, 2, 3)))], psk=psk, switch=rng.choice((5e-3, 1e-5, 1e-6)))


class ScriptedSocket:
    """What dtls/ssl would return. recv() follows the script of the connection"""

    def __init__(self, conn):
        self.conn = conn
        self.handshaken = False
        self.sent = []
        self._connected = True
        self._sslobj = types.SimpleNamespace(_ssl=types.SimpleNamespace(value=0))

    def bind(self, address):
        self.conn["bound"] = address

    def listen(self, _n):
        pass

    def connect(self, address):
        self.conn["peer"] = address

    def do_handshake(self):
        self.handshaken = True

    def send(self, data):
        self.sent.append(bytes(data))
        return len(data)

    def recv(self, size):
        return self._next(size)[0]

    def recvfrom(self, size):
        return self._next(size)

    def _next(self, size):
        return self.conn["next"](size)


class FakeOpenssl:
    libssl = None
    SSL = None
    installed = None

    def _make_function(self, name, *_rest):
        setattr(self, name, lambda _ctx, callback: self.installed.append((name, callback)))


ERRORS = {"ssl": lambda: ssl.SSLError(1, "bad record"), "os": lambda: ConnectionResetError(104, "reset"), "timeout": lambda: socket.timeout("timed out"), "value": lambda: ValueError("boo"), "eof": lambda: EOFError()}


def prepare():
    import dtls

    if not hasattr(dtls, "openssl"):
        dtls.openssl = FakeOpenssl()
    from pyzwave import dtlsconnection

    return dtls, dtlsconnection


def execute(sc, mon):
    dtls, module = prepare()
    before = sys.getswitchinterval()
    sys.setswitchinterval(sc["switch"])
    unraisable = []
    threaderrors = []
    hooks = sys.unraisablehook, threading.excepthook
    sys.unraisablehook = lambda u: unraisable.append(repr(u.exc_value))
    threading.excepthook = lambda a: threaderrors.append(repr(a.exc_value))
    try:
        asyncio.run(main(sc, mon, dtls, module))
        asyncio.run(keys(sc, mon, module))
    finally:
        sys.setswitchinterval(before)
        sys.unraisablehook, threading.excepthook = hooks
        for name in ("wrap_socket",):
            if hasattr(ssl, name):
                delattr(ssl, name)
    mon.check(not unraisable, "callback-raised", "a key callback raised %s" % unraisable)
    mon.check(not threaderrors, "reader-raised", "the reader thread ended with %s" % threaderrors)


async def keys(sc, mon, module):
    for p in sc["psk"]:
        connection = module.DTLSConnection()
        connection.start = lambda: None  # no reader is needed for these
        configured = bytes(bytearray(p["key"]))  # a copy of its own
        if p["server"]:
            connection.listen(configured)
            wrapper = connection.serverPskCbWrapper
        else:
            task = asyncio.ensure_future(connection.connect("fd00::1", configured))
            await asyncio.sleep(0)
            wrapper = connection.clientPskCbWrapper
            task.cancel()
        guard = 600
        areas = []
        for room in (p["room"], p["identity"]):
            total = guard + room + guard
            area = (ctypes.c_char * total)()
            fill = bytes(0xA0 | (k * 7 + 3) & 0x0F for k in range(total))
            ctypes.memmove(area, fill, total)
            areas.append((area, fill, room, ctypes.cast(ctypes.addressof(area) + guard, ctypes.POINTER(ctypes.c_char))))
        key, identity = areas
        try:
            if p["server"]:
                result = wrapper(None, b"Client_identity", key[3], p["room"])
            else:
                result = wrapper(None, b"hint", identity[3], p["identity"], key[3], p["room"])
        except (ctypes.ArgumentError, TypeError) as error:
            mon.fail("wrong-callback", "the %s key callback cannot be called the way OpenSSL does: %s" % ("server" if p["server"] else "client", error))
            continue
        what = "%s key callback with a %d byte key, %d bytes for it and %d for the identity" % ("server" if p["server"] else "client", len(p["key"]), p["room"], p["identity"])
        for name, (area, fill, room, _ptr) in (("key", key), ("identity", identity)):
            raw = bytes(area.raw)
            outside = raw[:guard] + raw[guard + room:]
            mon.check(outside == fill[:guard] + fill[guard + room:], "overrun", "%s wrote outside the %s buffer (%d bytes)" % (what, name, sum(a != b for a, b in zip(outside, fill[:guard] + fill[guard + room:]))))
        fits = len(p["key"]) <= p["room"]
        named = p["server"] or len("Client_identity") <= p["identity"]
        mon.count("keys handed over" if fits else "keys that do not fit")
        if not named:
            mon.count("identities that do not fit")
        written = bytes(key[0].raw)[guard:guard + len(p["key"])]
        if fits and named:
            mon.check(result == len(p["key"]) and written == p["key"], "wrong-key", "%s returned %d and wrote %s instead of %s" % (what, result, written.hex(), p["key"].hex()))
            if not p["server"]:
                mon.check(bytes(identity[0].raw)[guard:guard + 15] == b"Client_identity", "wrong-identity", "%s wrote the identity %r" % (what, bytes(identity[0].raw)[guard:guard + 15]))
        elif not fits:
            mon.check(result == 0, "wrong-key", "%s returned %d, although the key does not fit" % (what, result))
        mon.seen("key", p["server"], len(p["key"]) - p["room"], p["identity"], result > 0)


async def main(sc, mon, dtls, module):
    loop = asyncio.get_running_loop()
    loop_thread = threading.get_ident()
    errors = []
    loop.set_exception_handler(lambda _l, c: errors.append(c))
    making = queue.Queue()
    opened = []

    def wrap(sock, **kwargs):
        sock.close()
        made = ScriptedSocket(making.get_nowait())
        opened.append(made)
        return made

    ssl.wrap_socket = wrap
    dtls.wrap_server = wrap
    dtls.openssl.installed = []
    conns = []
    stamp = [0]
    lock = threading.Lock()

    def tick():
        with lock:
            stamp[0] += 1
            return stamp[0]

    for number, spec in enumerate(sc["conns"]):
        conn = dict(spec=spec, got=[], read=[], position=0, mode="normal", number=number, ended=threading.Event(), stopping=False, wrong=[], after=0)
        conns.append(conn)
        connection = module.DTLSConnection()
        conn["connection"] = connection

        def deliver(*args, conn=conn, tag="normal"):
            mode = conn["mode"]
            conn["got"].append((tick(), args, tag, threading.get_ident()))
            if mode == "raise":
                mon.count("raising callbacks")
                raise RuntimeError("callback raises")

        conn["normal"] = deliver
        conn["other"] = lambda *args, deliver=deliver: deliver(*args, tag="other")

        def following(size, conn=conn, connection=connection):
            script = conn["spec"]["script"]
            while True:
                if conn["position"] >= len(script):
                    # nothing more will come
                    conn["after"] += 1
                    conn["idle"] = True
                    conn["release"].wait()
                    raise OSError(9, "closed")
                item = script[conn["position"]]
                conn["position"] += 1
                if item[0] == "data":
                    address = ("fd00::%x" % item[2], 41230 + item[2], 0, 0)
                    conn["read"].append((tick(), item[1], address, conn["current"], conn["stopping"]))
                    mon.count("datagrams read")
                    return item[1][:size], address
                if item[0] == "pause":
                    threading.Event().wait(item[1])
                elif item[0] == "callback":
                    done = threading.Event()

                    def change(kind=item[1]):
                        conn["mode"] = "raise" if kind == "raise" else "normal"
                        conn["current"] = None if kind == "none" else kind
                        connection.onMessage(None if kind == "none" else conn["other"] if kind == "other" else conn["normal"])
                        done.set()

                    # between two reads, so it is known which callback each datagram is for
                    loop.call_soon_threadsafe(change)
                    done.wait(30)
                elif item[0] == "error":
                    mon.count("read errors")
                    conn["failed"] = True
                    raise ERRORS[item[1]]()
                elif item[0] == "stop":
                    done = threading.Event()

                    def stop():
                        connection.stop()
                        conn["stopping"] = True
                        done.set()

                    loop.call_soon_threadsafe(stop)
                    done.wait(30)
                    mon.count("stops")
                    return b"after stop", ("fd00::9", 1, 0, 0)

        conn["current"] = "normal"
        conn["release"] = threading.Event()
        conn["next"] = following
        connection.onMessage(conn["normal"])
        making.put(conn)
        if spec["server"]:
            connection.listen(b"\x12\x34")
            for _ in range(4000):
                if len(opened) > number:
                    break
                await asyncio.sleep(0.005)
        else:
            await connection.connect("127.0.0.1", b"\x12\x34")
            mon.check(len(opened) == number + 1 and opened[number].handshaken, "not-connected", "connect() returned before the handshake was done")
        mon.check(len(opened) == number + 1, "not-connected", "no socket was opened")
        if not spec["server"]:
            mon.check(conn.get("peer") == ("127.0.0.1", 41230), "wrong-peer", "connected to %s" % (conn.get("peer"),))
        for data in spec["sends"]:
            connection.send(data) if not spec["server"] else None
        if not spec["server"]:
            mon.count("bytes sent", sum(map(len, spec["sends"])))
            mon.check(opened[number].sent == [d for d in spec["sends"]], "wrong-send", "sent %r instead of %r" % (opened[number].sent, spec["sends"]))
    for conn in conns:
        for _ in range(2500):
            if not conn["connection"].is_alive():
                break
            await asyncio.sleep(0.0005 if _ < 200 else 0.01)
        else:
            mon.fail("reader-alive", "the reader of connection %d still runs after %r" % (conn["number"], conn["spec"]["script"][-2:]))
    await asyncio.sleep(0)
    await asyncio.sleep(0)
    for conn in conns:
        judge(mon, conn, loop_thread)
    unexpected = [e for e in errors if "callback raises" not in str(e.get("exception"))]
    mon.check(not unexpected, "loop-exception", "exception in the event loop: %s" % unexpected)
    names = [name for name, _cb in dtls.openssl.installed]
    for conn in conns:
        wrapper = conn["connection"].serverPskCbWrapper if conn["spec"]["server"] else conn["connection"].clientPskCbWrapper
        name = "SSL_set_psk_%s_callback" % ("server" if conn["spec"]["server"] else "client")
        mon.check((name, wrapper) in dtls.openssl.installed, "no-key-callback", "%s was not called with the key callback: %s" % (name, names))


def judge(mon, conn, loop_thread):
    where = "connection %d (%s)" % (conn["number"], "server" if conn["spec"]["server"] else "client")
    got = [(args, tag) for _t, args, tag, _ident in conn["got"]]
    mon.check(all(g[3] == loop_thread for g in conn["got"]), "wrong-thread", "%s: a callback ran on another thread than the loop's" % where)
    want = []
    for _t, data, address, current, _stopping in conn["read"]:
        if current is None:
            continue
        want.append(((data, address) if conn["spec"]["server"] else (data,), "other" if current == "other" else "normal"))
    if got[len(want):] and conn["spec"]["script"][-1][0] == "stop" and got[-1][0][0] == b"after stop":
        got = got[:-1]
    mon.check(got == want, "not-delivered", "%s: read %d datagrams, delivered %d: %r instead of %r" % (where, len(want), len(got), [(a[0][:8], a[1:], t) for a, t in got][:12], [(a[0][:8], a[1:], t) for a, t in want][:12]))
    script = conn["spec"]["script"]
    mon.check(conn["position"] == len(script) or conn.get("failed"), "not-read", "%s: the reader ended by itself, %d datagrams or more are left" % (where, len([i for i in script[conn["position"]:] if i[0] == "data"])))
    mon.count("delivered", len(got))
    if conn["spec"]["server"]:
        mon.count("server datagrams", len(got))
    order = sorted([(r[0], "r") for r in conn["read"]] + [(g[0], "d") for g in conn["got"]])
    last = max([r[0] for r in conn["read"]] or [0])
    mon.count("delivered while reading", len([1 for t, k in order if k == "d" and t < last]))
    mon.seen("".join(k for _t, k in order))
