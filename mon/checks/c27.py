"""C27: the UDP transport on real loopback sockets."""
import asyncio
import select
import socket
import time

import core

ID = "C27"
LEVEL = "exploration"
RULE = ("histories of 3-40 operations on 1-4 connected and 0-2 listening transports over real loopback sockets (IPv4 and IPv6): sends of 1-65507 arbitrary bytes, equal datagrams repeated, datagrams from the peer and replies to the sender's address, "
        "peers that are gone for a while (ICMP errors), raising, missing and changed callbacks, stopping and connecting again, sending before connecting, transports talking to each other. "
        "Non-trivial: distinct (operation, size class, peers) combinations")
REQUIRE = {"datagrams to peers": 1500, "datagrams from peers": 1000, "listener datagrams": 500, "listener replies": 300, "stops": 200, "sends before connecting": 300, "peers gone": 50, "reconnects": 30, "restarts": 100,
           "transport to transport": 50, "equal datagrams": 500}
ASSUMPTIONS = ["the kernel does not drop datagrams on the loopback interface while few are outstanding", "a datagram sent to a peer that is gone is lost", "empty datagrams are not sent"]
PORT = 4123


def plan(tier):
    return dict(cases=60000, seconds=780, workers=1) if tier == "thorough" else dict(cases=4000, seconds=200, workers=1)


def size(rng):
    return rng.choice((1, 2, 7, 40, 300, 1280, 1500, 4096, rng.randrange(1, 200), rng.randrange(1, 200), rng.randrange(1, 9000), 65507 if rng.random() < 0.2 else 60))


def payloads(rng, pool, n):
    """Datagrams of one operation, some of them sent before, or just before"""
    out = []
    for _ in range(n):
        r = rng.random()
        out.append(out[-1] if out and r < 0.2 else rng.choice(pool) if pool and r < 0.3 else rng.randbytes(size(rng)))
        pool.append(out[-1])
    return out


def gen(rng, i, tier):
    clients = [dict(peer="127.%d.%d.%d" % (rng.randrange(1, 255), rng.randrange(255), n + 1) if rng.random() < 0.8 else "::1", early=rng.random() < 0.3) for n in range(rng.choice((1, 1, 2, 4)))]
    seen = set()
    for n, c in enumerate(clients):
        if c["peer"] in seen:
            c["peer"] = "127.9.9.%d" % (n + 1)
        seen.add(c["peer"])
    listeners = [dict() for _ in range(rng.choice((0, 1, 1, 2)))]
    ops, pool = [], []
    for _ in range(rng.choice((3, 10, 40))):
        r = rng.random()
        c = rng.randrange(len(clients))
        if r < 0.35:
            ops.append(("send", c, payloads(rng, pool, rng.choice((1, 1, 3, 8)))))
        elif r < 0.6:
            ops.append(("receive", c, payloads(rng, pool, rng.choice((1, 1, 3, 8)))))
        elif r < 0.85 and listeners:
            ops.append(("listen", rng.randrange(len(listeners)), rng.randrange(4), payloads(rng, pool, rng.choice((1, 2, 5))), rng.random() < 0.6))
        elif r < 0.89:
            ops.append(("stop", c))
        elif r < 0.92:
            ops.append(("gone", c))
        elif r < 0.95:
            ops.append(("callback", c, rng.choice(("none", "raise", "normal", "other"))))
        elif r < 0.97 and listeners:
            ops.append(("stoplistener", rng.randrange(len(listeners))))
        else:
            ops.append((rng.choice(("reconnect", "restart")), c))
    return dict(clients=clients, listeners=listeners, ops=ops, pair=[rng.randbytes(size(rng)) for _ in range(3)] if i % 10 == 0 else None)


def peer_socket(host):
    family = socket.AF_INET6 if ":" in host else socket.AF_INET
    s = socket.socket(family, socket.SOCK_DGRAM)
    s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 1 << 20)
    for _ in range(200):
        try:
            s.bind((host, PORT))
            break
        except OSError as error:
            if error.errno in (99, 97):
                s.close()
                return None
            time.sleep(0.02)
    else:
        s.close()
        raise core.Inconclusive("port %d is in use" % PORT)
    s.setblocking(False)
    return s


def drain(s, left=()):
    out = list(left)
    while True:
        try:
            out.append(s.recvfrom(70000))
        except (BlockingIOError, ConnectionRefusedError):
            return out


async def receive(s, n, timeout=5.0):
    """n datagrams, and whatever else is there"""
    end = time.monotonic() + timeout
    got = drain(s)
    while len(got) < n and time.monotonic() < end:
        await asyncio.sleep(0.0002 if time.monotonic() < end - timeout + 0.02 else 0.002)
        got += drain(s)
    await asyncio.sleep(0)
    return drain(s, got)


async def until(cond, timeout=5.0):
    end = time.monotonic() + timeout
    while not cond() and time.monotonic() < end:
        await asyncio.sleep(0.0002 if time.monotonic() < end - timeout + 0.02 else 0.002)
    await asyncio.sleep(0)
    return cond()


ALONE = []


def alone():
    """Only one run at a time, or they would receive each other's datagrams"""
    if ALONE:
        return
    s = socket.socket(socket.AF_UNIX, socket.SOCK_DGRAM)
    end = time.monotonic() + 600
    while True:
        try:
            s.bind("\0verif-c27")
            break
        except OSError as error:
            if time.monotonic() > end:
                raise core.Inconclusive("another run of this check does not end") from error
            time.sleep(0.2)
    ALONE.append(s)


def execute(sc, mon):
    alone()
    sockets = []
    try:
        asyncio.run(asyncio.wait_for(main(sc, mon, sockets), 300))
    finally:
        for s in sockets:
            s.close()


async def main(sc, mon, sockets):
    from pyzwave.connection import Connection

    loop = asyncio.get_running_loop()
    errors = []
    loop.set_exception_handler(lambda _l, c: errors.append(c))
    clients, listeners = [], []

    def record(owner, tag):
        def called(*args):
            owner["got"].append((args, tag))
            if owner["mode"] == "raise":
                raise RuntimeError("callback raises")

        return called

    def new_owner(**kw):
        owner = dict(connection=Connection(), got=[], mode="normal", alive=False, current="normal", **kw)
        owner["normal"], owner["other"] = record(owner, "normal"), record(owner, "other")
        owner["connection"].onMessage(owner["normal"])
        return owner

    async def open_client(c):
        await c["connection"].connect(c["peer"], b"\x12\x34")
        c["alive"] = True
        c["source"] = None
        # the transport's address is learnt from what it sends
        probe = b"probe %d" % len(clients)
        ok = c["connection"].send(probe)
        mon.check(ok is True, "send-failed", "send() on a connected transport returned %r" % (ok,))
        got = await receive(c["socket"], 1)
        mon.check([g[0] for g in got] == [probe], "not-sent", "the peer %s received %r instead of the one datagram sent" % (c["peer"], [g[0][:20] for g in got]))
        c["source"] = got[0][1]

    for spec in sc["clients"]:
        s = peer_socket(spec["peer"])
        if s is None:
            continue
        sockets.append(s)
        c = new_owner(peer=spec["peer"], socket=s)
        clients.append(c)
        if spec["early"]:
            mon.count("sends before connecting")
            ok = c["connection"].send(b"too early")
            mon.check(ok is False, "early-send", "send() before connecting returned %r" % (ok,))
        await open_client(c)
    for _spec in sc["listeners"]:
        probe = socket.socket(socket.AF_INET6, socket.SOCK_DGRAM)
        probe.bind(("::", 0))
        port = probe.getsockname()[1]
        probe.close()
        li = new_owner(port=port)
        await li["connection"].listen(b"\x12\x34", port)
        li["alive"] = True
        senders = []
        for n in range(4):
            host = "127.0.0.1" if n % 2 else "::1"
            s = socket.socket(socket.AF_INET if n % 2 else socket.AF_INET6, socket.SOCK_DGRAM)
            sockets.append(s)
            s.bind((host, 0))
            s.setblocking(False)
            senders.append((s, host))
        li["senders"] = senders
        listeners.append(li)
    for op in sc["ops"]:
        if op[0] in ("send", "receive", "stop", "gone", "callback", "reconnect", "restart"):
            if op[1] >= len(clients):
                continue
            await client_op(op, clients[op[1]], mon, open_client, sockets)
        else:
            await listener_op(op, listeners[op[1]], mon)
        quiet(clients, listeners, mon, op)
        mon.seen(op[0], len(clients), len(listeners), len(op[2][0]).bit_length() if op[0] in ("send", "receive") else None, tuple(c["alive"] for c in clients))
    await asyncio.sleep(0.001)
    quiet(clients, listeners, mon, "the end")
    for owner in clients + listeners:
        if owner["alive"]:
            owner["connection"].stop()
    await asyncio.sleep(0)
    await asyncio.sleep(0)
    await asyncio.sleep(0)
    if sc["pair"] is not None:
        for s in sockets:
            s.close()
        await pair(sc, mon, new_owner)
    await asyncio.sleep(0)
    await asyncio.sleep(0)
    unexpected = [e for e in errors if "callback raises" not in str(e.get("exception"))]
    mon.check(not unexpected, "loop-exception", "exception in the event loop: %s" % unexpected)


def quiet(clients, listeners, mon, op):
    """Nothing has happened on any transport that was not asked for"""
    for c in clients:
        if not c["alive"]:
            mon.check(not c["got"], "after-stop", "a stopped transport delivered %r" % (c["got"],))
        mon.check(not c["got"], "misdirected", "after %s: transport to %s delivered %r without reason" % (op[0], c["peer"], [(a[0][:20], t) for a, t in c["got"]]))
        if c["socket"].fileno() >= 0:
            got = drain(c["socket"])
            mon.check(not got, "misdirected", "after %s: the peer %s received %r without reason" % (op[0], c["peer"], [g[0][:20] for g in got]))
    for li in listeners:
        mon.check(not li["got"], "misdirected", "after %s: the listener delivered %r without reason" % (op[0], li["got"][:3]))
        for s, _host in li["senders"]:
            mon.check(not drain(s), "misdirected", "after %s: a datagram arrived nobody sent" % (op[0],))


async def client_op(op, c, mon, open_client, sockets):
    connection = c["connection"]
    if op[0] == "reconnect" and not c["alive"]:
        mon.count("reconnects")
        await open_client(c)
        await asyncio.sleep(0)
        return
    if op[0] == "callback":
        c["mode"] = "raise" if op[2] == "raise" else "normal"
        c["current"] = op[2] if op[2] != "raise" else "normal"
        connection.onMessage(None if op[2] == "none" else c["other"] if op[2] == "other" else c["normal"])
        return
    if not c["alive"]:
        return
    if op[0] == "restart":
        mon.count("restarts")
        connection.stop()
        await open_client(c)
        await asyncio.sleep(0)
        await asyncio.sleep(0)
        await asyncio.sleep(0)
        ok = connection.send(b"still there")
        got = await receive(c["socket"], 1)
        mon.check([g[0] for g in got] == [b"still there"], "not-sent", "after stopping and connecting again, the peer received %r (send() returned %r)" % (got, ok))
        return
    if op[0] == "send":
        mon.count("equal datagrams", len(op[2]) - len(set(op[2])))
        for batch in batches(op[2]):
            for data in batch:
                ok = connection.send(data)
                mon.check(ok is True, "send-failed", "send() of %d bytes returned %r" % (len(data), ok))
            got = await receive(c["socket"], len(batch))
            mon.count("datagrams to peers", len(batch))
            mon.check([g[0] for g in got] == batch, "not-sent", "sent %s, the peer received %s" % (show(batch), show([g[0] for g in got])))
            mon.check(all(g[1] == c["source"] for g in got), "misdirected", "datagrams of one transport came from %s" % {g[1] for g in got})
    elif op[0] == "receive":
        for batch in batches(op[2]):
            for data in batch:
                c["socket"].sendto(data, c["source"])
            want = [((data,), c["current"]) for data in batch] if c["current"] != "none" else []
            await until(lambda: len(c["got"]) >= len(want))
            if not want:
                await asyncio.sleep(0.002)
            mon.count("datagrams from peers", len(batch))
            mon.check(c["got"] == want, "not-delivered", "the peer sent %s, delivered were %s" % (show(batch), [(show(a), t) for a, t in c["got"]]))
            c["got"].clear()
    elif op[0] == "stop":
        mon.count("stops")
        connection.stop()
        c["alive"] = False
        await asyncio.sleep(0)
        await asyncio.sleep(0)
        await asyncio.sleep(0)
        try:
            c["socket"].sendto(b"to a stopped transport", c["source"])
            await asyncio.sleep(0.001)
            drain(c["socket"])
        except OSError:
            pass
    elif op[0] == "gone":
        # the peer is gone for a while
        mon.count("peers gone")
        c["socket"].close()
        connection.send(b"lost")
        await asyncio.sleep(0.003)
        connection.send(b"lost, too")
        await asyncio.sleep(0.003)
        c["socket"] = peer_socket(c["peer"])
        sockets.append(c["socket"])
        await asyncio.sleep(0.001)
        drain(c["socket"])
        connection.send(b"there again")
        got = await receive(c["socket"], 1)
        mon.check([g[0] for g in got] == [b"there again"], "not-sent", "after its peer was gone for a while a transport does not send any more: %r" % (got,))


def batches(datagrams):
    """Few enough bytes at a time that the kernel has room for them"""
    batch, total = [], 0
    for d in datagrams:
        if batch and total + len(d) > 60000:
            yield batch
            batch, total = [], 0
        batch.append(d)
        total += len(d) + 1000
    if batch:
        yield batch


def show(datagrams):
    return [(len(d), d[:8].hex()) for d in datagrams if isinstance(d, (bytes, bytearray))]


async def listener_op(op, li, mon):
    connection = li["connection"]
    if op[0] == "stoplistener":
        if li["alive"]:
            mon.count("stops")
            connection.stop()
            li["alive"] = False
            await asyncio.sleep(0)
            await asyncio.sleep(0)
        return
    _, _, n, datagrams, reply = op
    s, host = li["senders"][n]
    if not li["alive"]:
        return
    for batch in batches(datagrams):
        for data in batch:
            s.sendto(data, (host, li["port"]))
        await until(lambda: len(li["got"]) >= len(batch))
        got = list(li["got"])
        li["got"].clear()
        mon.count("listener datagrams", len(batch))
        mon.check([a[0] for a, _t in got] == batch, "not-delivered", "%s was sent to the listener, delivered were %s" % (show(batch), show([a[0] for a, _t in got])))
        port = s.getsockname()[1]
        for args, _tag in got:
            mon.check(len(args) == 2 and args[1][1] == port and args[1][0] in (host, "::ffff:" + host), "wrong-address", "the sender %s was reported as %s" % ((host, port), args[1:]))
        if reply:
            for (args, _tag), data in zip(got, batch):
                connection.sendTo(data[::-1], args[1])
            back = await receive(s, len(batch))
            mon.count("listener replies", len(batch))
            mon.check([b[0] for b in back] == [d[::-1] for d in batch], "not-sent", "%d replies were sent, the sender received %s" % (len(batch), show([b[0] for b in back])))
            mon.check(all(b[1][1] == li["port"] for b in back), "misdirected", "replies came from %s" % {b[1] for b in back})


async def pair(sc, mon, new_owner):
    """A connected and a listening transport on the port of the protocol"""
    server = new_owner()
    for _ in range(100):
        try:
            await server["connection"].listen(b"", PORT)
            break
        except OSError:
            await asyncio.sleep(0.02)
    else:
        raise core.Inconclusive("port %d is in use" % PORT)
    clients = [new_owner(), new_owner()]
    for c, host in zip(clients, ("127.0.0.1", "127.0.0.7")):
        await c["connection"].connect(host, b"")
    for data in sc["pair"]:
        for n, c in enumerate(clients):
            mon.count("transport to transport")
            c["connection"].send(data)
            await until(lambda: server["got"])
            got = list(server["got"])
            server["got"].clear()
            mon.check(len(got) == 1 and got[0][0][0] == data, "not-delivered", "a transport sent %s, the listener received %s" % (show([data]), show([g[0][0] for g in got])))
            server["connection"].sendTo(data + b"!" if len(data) < 65507 else data, got[0][0][1])
            await until(lambda: c["got"], timeout=0.003 if n else 5)
            back = list(c["got"])
            c["got"].clear()
            if n == 0:
                mon.check(len(back) == 1 and back[0][0][0] == (data + b"!" if len(data) < 65507 else data), "not-delivered", "the answer was %s" % (back[:1],))
            mon.check(not clients[1 - n]["got"], "misdirected", "an answer reached the other transport")
    for owner in clients + [server]:
        owner["connection"].stop()
    await asyncio.sleep(0)
    await asyncio.sleep(0)
