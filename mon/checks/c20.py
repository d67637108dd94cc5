"""C20: keep-alives as a timed trace per connection."""
import asyncio

import codec
import gw
import sim
import world

ID = "C20"
LEVEL = "exploration"
RULE = ("hours of virtual time on a gateway connection and connections to several nodes (directly and through the application), with commands at random gaps including exactly 25 s and just before and after, "
        "bursts, overlapping, unacknowledged, delayed and cancelled commands, address lookups and incoming packets of every kind in between. Non-trivial: distinct sequences of (connection, kind, gap class)")
REQUIRE = {"keep-alives judged": 20000, "commands judged": 10000, "connections judged": 1500, "commands just before the keep-alive": 300, "connection setups judged": 800}
ASSUMPTIONS = ["at exactly 25 seconds the keep-alive and the command may come in either order", "address lookups are no commands"]
PERIOD = 25
EPS = 0.002


def plan(tier):
    return dict(cases=120000, seconds=780) if tier == "thorough" else dict(cases=7000, seconds=200)


def gen(rng, i, tier):
    many = rng.random() < 0.01
    nodes = rng.sample(range(1, 233), rng.choice((12, 40)) if many else rng.randint(1, 4))
    t = 0.0
    actions = []
    gaps = rng.choice(((0, 1, 5), (24.9, 24.999, 25, 25.001, 25.1), (25, 25, 50, 75), (10, 30, 60, 100, 400), (24.5, 24.99, 3, 12.5), (0.5, 24.999, 25, 26, 700, 3600)))
    for _ in range(3 * len(nodes) if many else rng.randint(1, 25)):
        t += rng.choice(gaps) * rng.choice((1, 1, 1, rng.random()))
        kind = rng.choice(("send", "send", "send", "node", "node", "lookup", "incoming", "cancel", "burst", "raw"))
        actions.append(dict(t=round(t, 4), kind=kind, node=rng.choice(nodes), n=rng.randrange(6), timeout=rng.choice((3, 3, 1, 10, 60)), after=rng.choice((0, 0.5, 2.9))))
    return dict(controller=world.pick_controller(rng, nodes), mode=rng.choice(("connection", "gateway", "application")), nodes=nodes, actions=actions, tail=rng.choice((10, 26, 60, 300, 3000)), lost=rng.choice((0, 0, 0.3, 1)),
                early=rng.random() < 0.2, waiting=rng.random() < 0.3, ackdelay=rng.choice((0.01, 0.01, 1, 2.9, 20)))


def execute(sc, mon):
    import random

    rnd = random.Random(repr(sc))
    ctx = {}

    async def main(loop, net):
        from pyzwave.commandclass import Basic, Version

        if sc["mode"] == "application":
            w = world.World(loop, mon, {n: world.device([0x20]) for n in sc["nodes"]}, controller=sc.get("controller", 1))
            fake, conn = w.fake, w.zip
        else:
            fake = gw.FakeGateway(loop, mon)
            for n in sc["nodes"]:
                fake.nodes[n] = gw.node_ip(n)
            conn = gw.new_gateway() if sc["mode"] == "gateway" else gw.new_connection()
        ctx["fake"] = fake
        tasks = []

        def command(n):
            return [Basic.Get(), Basic.Set(value=3), Version.VersionGet(), Basic.Report(value=1), Version.VersionCommandClassGet(requestedCommandClass=3), Basic.Get()][n]

        async def quietly(coro):
            try:
                return await coro
            except asyncio.TimeoutError:
                return None

        if sc["early"]:
            tasks.append(asyncio.ensure_future(quietly(conn.send(Basic.Get()))))
            await asyncio.sleep(rnd.choice((0.1, 4, 24.9, 30)))
        if sc["mode"] == "application":
            await w.start()
        elif sc["mode"] == "gateway":
            await gw.connect_only(conn)
        else:
            await conn.connect()
        acks = rnd.random

        def on_ack(sent):
            if acks() < sc["lost"]:
                return []
            if sc["waiting"] and acks() < 0.5:
                return [(0.01, codec.zip_waiting(sent.seq, 30)), (sc["ackdelay"] * 5, codec.zip_ack(sent.seq))]
            return [(sc["ackdelay"], codec.zip_ack(sent.seq))]

        fake.ack_hook = on_ack
        start = loop.time()

        def start_send(coro):
            tasks.append(asyncio.ensure_future(quietly(coro)))
            return tasks[-1]

        def act(a):
            kind = a["kind"]
            if kind == "node" and sc["mode"] != "connection":
                start_send(node_send(a))
            elif kind == "lookup" and sc["mode"] != "connection":
                start_send(conn.ipOfNode(a["node"]))
            elif kind == "incoming":
                for transport in net.connected():
                    frame = (codec.encode("Zip.ZipKeepAlive", dict(ackRequest=0, ackResponse=1)), codec.zip_packet(("Basic.Report", dict(value=9))), codec.zip_ack(a["n"]),
                             codec.encode("Zip.ZipKeepAlive", dict(ackRequest=1, ackResponse=0)), b"\x23", codec.zip_waiting(a["n"], 5))[a["n"]]
                    fake.inject(0, transport, frame)
            elif kind == "cancel":
                task = start_send(conn.send(command(a["n"]), timeout=a["timeout"]))
                loop.sim_at(loop.time() + a["after"], task.cancel)
            elif kind == "burst":
                for k in range(a["n"] + 1):
                    start_send(conn.send(command(k), timeout=a["timeout"]))
            elif kind == "raw" and sc["mode"] == "gateway":
                start_send(conn.sendToNode(a["node"], command(a["n"])))
            else:
                start_send(conn.send(command(a["n"]), timeout=a["timeout"]))

        async def node_send(a):
            if sc["mode"] == "application":
                return await w.node(a["node"]).send(command(a["n"]), timeout=a["timeout"])
            return await conn.sendToNode(a["node"], command(a["n"]))

        end = 0
        for a in sc["actions"]:
            loop.sim_at(start + a["t"], act, a)
            end = max(end, a["t"])
        await asyncio.sleep(end + sc["tail"] + 0.0007)
        ctx["end"] = loop.time()
        for task in tasks:
            if task.done() and not task.cancelled():
                task.result()

    _, loop = sim.run(main)
    errors = [e for e in sim.settle_errors(loop)]
    mon.check(not errors, "loop-exception", "exception in the event loop: %s" % (errors and sim.error_text(errors[0])))
    fake, end = ctx["fake"], ctx["end"]
    opened = {tid: t for t, tid, dest, _ in loop.net.log if dest == "open"}
    shape = []
    for transport in loop.net.transports:
        if transport.remote is None:
            continue
        mon.count("connections judged")
        mon.check(transport.remote[1] == 4123, "wrong-port", "connected to port %s" % transport.remote[1])
        last, what = opened[transport.id], "the connection was set up"
        for sent in (s for s in fake.wire if s.transport is transport):
            gap = sent.t - last
            if sent.name == "Zip.ZipKeepAlive":
                mon.check(codec.decode(sent.frame)[1] == dict(ackRequest=1, ackResponse=0), "wrong-keep-alive",
                          "the keep-alive %s does not (only) request an acknowledgement" % sent.frame.hex())
                mon.check(gap >= PERIOD - EPS, "too-early", "a keep-alive was sent to %s at %.3f, only %.3f s after %s" % (sent.host, sent.t, gap, what))
                mon.check(gap <= PERIOD + EPS, "too-late", "a keep-alive was sent to %s at %.3f, %.3f s after %s" % (sent.host, sent.t, gap, what))
                mon.count("keep-alives judged")
                if what.startswith("the conn"):
                    mon.count("connection setups judged")
                last, what = sent.t, "the last keep-alive"
            elif sent.name == "Zip.ZipPacket":
                mon.check(gap <= PERIOD + EPS, "missing", "nothing was sent to %s for %.3f s after %s at %.3f" % (sent.host, gap, what, last))
                mon.count("commands judged")
                if PERIOD - 0.6 <= gap <= PERIOD:
                    mon.count("commands just before the keep-alive")
                last, what = sent.t, "a command"
            else:
                mon.check(sent.name.startswith("ZipND."), "unexpected", "a %s was sent to %s" % (sent.name, sent.host))
                continue
            shape.append((transport.id, sent.name[4:6], int(gap) if gap < PERIOD else 25))
        mon.check(end - last <= PERIOD + EPS, "missing", "nothing was sent to %s for %.3f s after %s at %.3f" % (transport.remote[0], end - last, what, last))
    mon.seen(shape[:40])
