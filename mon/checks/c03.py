"""C03: malformed traffic is contained and never disturbs later traffic."""
import asyncio

import codec
import dispatch
import gw
import msggen
import sim
import world

ID = "C03"
LEVEL = "exploration"
RULE = ("hostile datagrams (random bytes, truncations, bit flips, insertions, bad lengths, unknown options, deep nesting, huge frames, surprising valid frames) on the gateway connection, node connections and the "
        "unsolicited listener, from known, unknown and gateway addresses, interleaved with valid sends, requests, unsolicited reports and node list updates; mutated replies to every network management request during "
        "startup; the decoder on its own. Non-trivial: distinct (mutation, target, message type)")
REQUIRE = {"hostile frames": 6000, "probes": 1500, "debug strings": 4000, "node list probes": 150, "mutated replies": 300, "decoded without error": 1500, "rejected by the decoder": 400}
ASSUMPTIONS = ["hostile frames never carry the sequence number of a pending command or the type of a pending reply unless that reply is what is mutated (then the request may end)",
               "commands shorter than two bytes may be shown to the application as the unknown command 0"]

TARGETS = ("gateway", "node", "known", "known", "unknown", "gateway source")
NEVER = (b"\x80\x03", b"\x20\x03", b"\x52\x02")  # replies and reports the probes are judged by


def plan(tier):
    return dict(cases=60000, seconds=780) if tier == "thorough" else dict(cases=1400, seconds=200)


def mutate(rng, frame):
    """(kind, bytes)"""
    kind = rng.choice(("truncate", "truncate", "truncate", "flip", "flip", "insert", "extend", "remove", "splice"))
    data = bytearray(frame)
    if kind == "truncate":
        data = data[:rng.randint(0, max(0, len(data) - 1))]
    elif kind == "flip":
        for _ in range(rng.choice((1, 1, 2, 5))):
            if data:
                data[rng.randrange(len(data))] ^= 1 << rng.randrange(8)
    elif kind == "insert":
        pos = rng.randint(0, len(data))
        data[pos:pos] = rng.randbytes(rng.randint(1, 3))
    elif kind == "extend":
        data += rng.randbytes(rng.randint(1, 30))
    elif kind == "remove" and data:
        pos = rng.randrange(len(data))
        del data[pos:pos + rng.randint(1, 3)]
    elif kind == "splice" and data:
        data[rng.randrange(len(data))] = rng.choice((0, 1, 0x7F, 0x80, 0xFF))
    return kind, bytes(data)


def hostile(rng):
    """(kind, message name, bytes)"""
    r = rng.random()
    if r < 0.08:
        return "random", "", rng.randbytes(rng.choice((0, 1, 2, 3, 7, 8, 30)))
    if r < 0.2:
        head = bytes([0x23, 0x02, rng.choice((0, 0x80, 0x40, 0x20, 0x30, 0x38, rng.randrange(256))), rng.randrange(256), rng.randrange(256), rng.randrange(256), rng.randrange(256)])
        return "random packet", "", (head + rng.randbytes(rng.choice((0, 1, 2, 3, 20))))[:rng.choice((3, 5, 6, 7, 8, 40))]
    if r < 0.24:  # nesting
        n = rng.choice((3, 30, 120, 300, 3000))
        inner = rng.choice((b"", b"\x20", b"\x20\x01\x05"))
        if rng.random() < 0.5:
            return "nested packets", "", bytes((0x23, 0x02, 0x00, 0x50, 5, 0, 0)) * n + inner
        for _ in range(min(n, 60)):
            inner = bytes((0x6C, 0x01, rng.randrange(64), len(inner) & 0xFF)) + inner
        return "nested supervision", "", codec.zip_packet(inner)
    if r < 0.26:
        return "huge", "", bytes((0x23, 0x02, 0x00, rng.choice((0x50, 0xD0)), 5, 0, 0)) + rng.randbytes(rng.choice((1500, 60000)))
    if r < 0.36:  # bad header extensions
        body = rng.randbytes(rng.choice((0, 1, 2, 8)))
        length = rng.choice((0, 1, 2, len(body) + 1, len(body) + 2, 255))
        flags = rng.choice((0, 0x80, 0x40, 0x20, 0x30))
        return "bad extension", "", bytes((0x23, 0x02, flags, 0xD0, rng.randrange(256), 0, 0, length)) + body + b"\x20\x01\x05"
    name = rng.choice(msggen.NAMES if rng.random() < 0.8 else ("Zip.ZipPacket", "ZipND.ZipNodeAdvertisement", "Supervision.Get", "NetworkManagementProxy.NodeInfoCachedReport"))
    frame = codec.encode(name, msggen.values(name, rng), lambda bits: rng.getrandbits(bits))
    wrapped = name != "Zip.ZipPacket" and rng.random() < 0.75
    if r < 0.5:
        kind = "valid"
    elif wrapped and r < 0.8:
        kind, frame = mutate(rng, frame)
        kind += " command"
    else:
        kind = "valid"
    if wrapped:
        frame = codec.zip_packet(bytes(frame), seq=rng.randrange(256), ack=rng.random() < 0.3, source=rng.choice((0, 0, 1, 127)), dest=rng.choice((0, 1)))
        if kind == "valid" and r > 0.5:
            kind, frame = mutate(rng, frame)
            kind += " packet"
    elif r > 0.5:
        kind, frame = mutate(rng, frame)
        kind += " frame"
    return kind, name, bytes(frame)


def unwanted(frame):
    return any(x in frame for x in NEVER) or (frame[:2] == b"\x58\x01" and len(frame) >= 20)


def gen(rng, i, tier):
    mode = ("traffic", "traffic", "lists", "replies", "replies", "decode")[i % 6]
    sc = dict(mode=mode, seed=rng.randrange(1 << 30))
    if mode == "decode":
        sc["frames"] = [hostile(rng) for _ in range(100)]
        return sc
    sc["nodes"] = sorted(rng.sample(range(2, 233), rng.choice((1, 2, 3))))
    sc["cc"] = {n: [0x20, 0x80] + rng.sample((0x25, 0x70, 0x85, 0x86, 0x87, 0x31, 0x32, 0x59, 0x5E, 0x72, 0x6C, 0x8E), rng.randint(2, 12)) for n in sc["nodes"]}
    if mode == "replies":
        # which network management replies are replaced by which mutation
        sc["replies"] = [(rng.choice(("truncate", "mutate", "nothing first", "short")), rng.randrange(1 << 30)) if rng.random() < 0.6 else None for _ in range(30)]
        sc["multi"] = rng.random() < 0.6
        return sc
    frames = []
    soak = mode == "traffic" and rng.random() < 0.15
    aim = rng.choice(TARGETS)
    while len(frames) < (300 if soak else 40):
        kind, name, frame = hostile(rng)
        if mode == "lists" and rng.random() < 0.5:
            v = dict(seqNo=rng.randrange(256), status=rng.randrange(256), nodeListControllerId=1, nodes=set(sc["nodes"] + rng.sample(range(1, 233), rng.choice((0, 1, 2)))))
            frame = codec.encode("NetworkManagementProxy.NodeListReport", v)
            kind, frame = mutate(rng, frame) if rng.random() < 0.5 else ("truncate", frame[:rng.randint(2, 8)])
            frame = codec.zip_packet(frame, ack=rng.random() < 0.3)
            kind, name = kind + " list", "NetworkManagementProxy.NodeListReport"
        if unwanted(frame) and not (mode == "lists" and kind.endswith(" list")):
            continue
        frames.append((kind, name, frame, aim if soak else rng.choice(TARGETS), rng.choice((0, 0, 0, 0.001, 0.01, 0.2))))
    sc["frames"] = frames
    sc["probes"] = [rng.choice(("send", "request", "node send", "unsolicited")) for _ in range(12)]
    return sc


def describe(mon, message):
    mon.count("debug strings")
    text = message.debugString()
    mon.check(isinstance(text, str) and isinstance(str(message), str), "debug-string", "the debug string of %r is %r" % (type(message), text))


def run_decode(sc, mon):
    from pyzwave.message import Message

    for kind, name, frame in sc["frames"]:
        mon.count("hostile frames")
        mon.seen(kind, "decode", name)
        for data in (bytes(frame), bytearray(frame)):
            try:
                message = Message.decode(data)
            except Exception:  # pylint: disable=broad-except
                mon.count("rejected by the decoder")
                continue
            mon.count("decoded without error")
            mon.check(isinstance(message, Message), "non-command", "%s decoded to %r" % (frame.hex()[:200], message))
            try:
                describe(mon, message)
            except Exception as error:  # pylint: disable=broad-except
                if type(error).__name__ == "Violation":
                    raise
                mon.fail("debug-string", "describing the command decoded from %s raised %r" % (frame.hex()[:200], error))


def watch(mon, w):
    from pyzwave.message import Message

    class Watch:
        def __init__(self, tag):
            self.tag = tag

        def __getattr__(self, name):
            if name not in ("onMessageReceived", "messageReceived", "onMessage", "addNodeStatus", "removeNodeStatus"):
                raise AttributeError(name)

            def called(_sender, *args):
                message = args[2] if (self.tag == "zip" and name == "messageReceived") else args[0]
                if not isinstance(message, Message):
                    mon.fail("non-command", "%s.%s was called with %r" % (self.tag, name, args))
                inner = getattr(message, "command", None) if type(message).__name__ == "ZipPacket" else message
                if not isinstance(inner, Message):
                    mon.fail("non-command", "%s.%s was called with a packet without a command" % (self.tag, name))
                mon.count("messages delivered")
                try:
                    describe(mon, message)
                except RecursionError:
                    mon.fail("debug-string", "describing %r raised RecursionError" % message)

            return called

    w.zip.addListener(Watch("zip"))
    w.app.addListener(Watch("app"))
    for node in w.app.nodes.values():
        node.addListener(Watch("node"))


def no_errors(mon, loop, what):
    mon.check(not loop.errors, "loop-exception", "exception in the event loop %s: %s" % (what, loop.errors and sim.error_text(loop.errors[0])))


class Probes:
    """Valid operations that have to work whatever else arrives"""

    def __init__(self, sc, mon, w):
        self.sc, self.mon, self.w, self.n = sc, mon, w, 0
        self.levels = {}
        w.fake.device_hook = self.device

    def device(self, node, sent):
        if sent.cmd == "Battery.Get":
            return [(0.01, codec.zip_packet(("Battery.Report", dict(batteryLevel=self.levels.get(node, 0)))))]
        return []

    async def run(self, kind):
        from pyzwave.commandclass import Basic, Battery

        mon, w = self.mon, self.w
        self.n += 1
        n = self.n & 0xFF
        node_id = self.sc["nodes"][self.n % len(self.sc["nodes"])]
        node = w.node(node_id)
        mon.count("probes")
        if kind == "send":
            result = await w.zip.send(Basic.Set(value=n))
            mon.check(result is True, "send-disturbed", "a command sent to the gateway and acknowledged at once ended with %r" % result)
        elif kind == "node send":
            result = await node.send(Basic.Set(value=n))
            mon.check(result is True, "send-disturbed", "a command sent to node %d and acknowledged at once ended with %r" % (node_id, result))
        elif kind == "request":
            self.levels[node_id] = node_id % 101
            try:
                report = await node.sendAndReceive(Battery.Get(), Battery.Report)
            except asyncio.TimeoutError:
                mon.fail("request-disturbed", "a request to node %d that was answered at once timed out" % node_id)
                return
            mon.check(report.batteryLevel == node_id % 101, "request-disturbed", "a request to node %d answered with level %d returned %r" % (node_id, node_id % 101, report.batteryLevel))
        else:
            got = []

            class Listener:
                pass

            def heard(_sender, message, _flags):
                got.append(int(message.value))

            listener = Listener()
            setattr(listener, dispatch.handler_name("Basic.Report"), heard)
            node.supported[0x20].addListener(listener)
            w.fake.unsolicited(0.001, node_id, ("Basic.Report", dict(value=n)))
            await asyncio.sleep(0.1)
            mon.check(got.count(n) == 1, "report-disturbed", "node %d reported %d unsolicited, its listener got %s" % (node_id, n, got))
            delattr(listener, dispatch.handler_name("Basic.Report"))

    async def lists(self):
        """A valid node list update has to be followed"""
        w, mon = self.w, self.mon
        extra = next(n for n in range(2, 233) if n not in w.fake.devices)
        for _ in range(2):
            if extra in w.fake.devices:
                w.fake.remove_device(extra)
            else:
                w.fake.add_device(extra, world.device([0x20, 0x80]))
            w.fake.push_list(0.01)
            await asyncio.sleep(60)
            mon.count("node list probes")
            want = {"%d:0" % n for n in w.fake.devices}
            have = {x for x in w.app.nodes if x.endswith(":0")}
            mon.check(want == have, "list-disturbed", "after a valid node list report of %s the application knows %s" % (sorted(want), sorted(have)))


def deliver(mon, w, frame, target, node, rng):
    """A hostile datagram arrives now"""
    fake = w.fake
    data = bytearray(frame)
    if len(data) >= 5 and data[:2] == b"\x23\x02" and data[2] & 0x70:
        # acknowledgements of commands that are really pending are not hostile but wrong
        recent = {s.seq for s in fake.wire[-60:] if s.packet}
        while data[4] in recent:
            data[4] = rng.randrange(256)
    frame = bytes(data)
    mon.count("hostile frames")
    listeners = fake.net.listeners()
    if target == "gateway":
        conns = fake.net.connected(gw.GW_IP)
        if conns:
            fake._deliver(conns[0], frame, None)
    elif target == "node":
        conns = fake.net.connected(gw.ip_text(gw.node_ip(node)))
        if conns:
            fake._deliver(conns[0], frame, None)
    elif listeners:
        host = {"known": gw.ip_text(gw.node_ip(node)), "unknown": "fd00:cccc::77", "gateway source": gw.GW_IP}[target]
        fake._deliver(listeners[0], frame, (host, rng.choice((4123, 1, 65535)), 0, 0))


def run_traffic(sc, mon):
    import random

    rng = random.Random(sc["seed"])

    async def main(loop, net):
        devices = {n: world.device(cc) for n, cc in sc["cc"].items()}
        w = world.World(loop, mon, devices)
        await w.start()
        probes = Probes(sc, mon, w)
        watch(mon, w)
        for n in sc["nodes"]:
            await probes.run("node send")
        no_errors(mon, loop, "before any hostile traffic")
        at = 0.0
        for kind, name, frame, target, gap in sc["frames"]:
            at += gap
            mon.seen(kind, target, name)
            loop.sim_at(loop.time() + 0.002 + at, deliver, mon, w, frame, target, rng.choice(sc["nodes"]), rng)
        if sc["mode"] == "traffic":
            end = loop.time() + at + 0.01
            todo = list(sc["probes"])
            while todo or loop.time() < end:
                # three operations at a time while the frames arrive
                batch = [probes.run(todo.pop() if todo else rng.choice(("send", "request", "node send"))) for _ in range(1 if not todo else min(3, len(todo)))]
                kinds = await asyncio.gather(*batch, return_exceptions=True)
                for k in kinds:
                    if isinstance(k, BaseException):
                        raise k
                await asyncio.sleep(0.02)
        await asyncio.sleep(5000 if sc["mode"] == "lists" else 40)
        no_errors(mon, loop, "after hostile frames %s" % [f[:4] for f in sc["frames"]])
        await probes.lists()
        for kind in ("send", "request", "node send", "unsolicited"):
            for _ in sc["nodes"]:
                await probes.run(kind)

    _, loop = sim.run(main)
    no_errors(mon, loop, "after hostile frames %s" % [f[:4] for f in sc["frames"]])


def run_replies(sc, mon):
    """Mutated replies to the requests made while starting"""
    import random

    async def main(loop, net):
        devices = {n: world.device(cc + ([0x60] if sc["multi"] else []), endpoints=[dict(cc=[0x20], generic=1, specific=1)] * (2 if sc["multi"] else 0)) for n, cc in sc["cc"].items()}
        fake = world.NetworkGateway(loop, mon, devices)
        todo = list(sc["replies"])

        def service(sent):
            if fake.node_of(sent) not in (None, fake.controller):
                return None
            reply = fake.network(sent)
            if reply is None or not todo:
                return None
            what = todo.pop(0)
            if what is None:
                return None
            how, seed = what
            rng = random.Random(seed)
            frame = codec.encode(*reply)
            mon.count("mutated replies")
            mon.seen("reply", how, reply[0])
            if how == "truncate":
                return [(0.01, codec.zip_packet(frame[:rng.randint(2, len(frame) - 1)]))]
            if how == "short":
                return [(0.01, codec.zip_packet(frame[:rng.randint(2, min(len(frame), 5))]))]
            if how == "nothing first":
                return [(0.01, codec.zip_packet(frame)[:rng.randint(0, 8)]), (0.02, codec.zip_packet(frame))]
            return [(0.01, mutate(rng, codec.zip_packet(frame))[1]), (0.03, codec.zip_packet(frame))]

        fake.service_hook = service
        w = world.World(loop, mon, devices, fake=fake)
        try:
            await asyncio.wait_for(w.zip.connect(), 3000)
            await asyncio.wait_for(w.app.startup(), 6000)
        except Exception as error:  # pylint: disable=broad-except
            if type(error).__name__ == "Violation":
                raise
            import core

            mon.fail("startup-broken", "a mutated reply ended the startup with %r" % (error,), core.describe(error))
            return
        no_errors(mon, loop, "while starting with mutated replies")
        todo.clear()
        await asyncio.sleep(100)
        # the list may have been damaged: afterwards everything works
        other = next(n for n in range(200, 232) if n not in fake.devices)
        fake.push_list(0, [other])
        await asyncio.sleep(30)
        fake.push_list(0)
        await asyncio.sleep(60)
        have = sorted(w.app.nodes)
        want = sorted("%d:%d" % (n, e) for n, d in devices.items() for e in range(1 + len(d["endpoints"])))
        mon.count("node list probes")
        mon.check(have == want, "list-disturbed", "valid node list reports after mutated replies: the application knows %s, the gateway has %s" % (have, want))
        probes = Probes(sc, mon, w)
        for kind in ("send", "request", "node send", "unsolicited"):
            for _ in sc["nodes"]:
                await probes.run(kind)
        no_errors(mon, loop, "after mutated replies")

    _, loop = sim.run(main)
    no_errors(mon, loop, "after mutated replies")


def execute(sc, mon):
    if sc["mode"] == "decode":
        run_decode(sc, mon)
    elif sc["mode"] == "replies":
        run_replies(sc, mon)
    else:
        run_traffic(sc, mon)
