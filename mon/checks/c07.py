"""C07: routing of commands to nodes under concurrent address lookups and adversarial advertisements."""
import asyncio

import codec
import gw
import sim
import world

ID = "C07"
LEVEL = "exploration"
RULE = ("concurrent sends to up to five (sometimes up to 140) nodes (gateway object, node and endpoint objects) before and after first use; advertisements delayed, lost, duplicated, reordered, bursting in one loop turn, "
        "for other nodes, after the lookup timed out, with changing addresses; failing socket creation; replies on every connection. "
        "Non-trivial: distinct (results, connection order) patterns")
REQUIRE = {"commands judged": 1500, "concurrent first uses": 150, "foreign advertisements": 300, "replies judged": 500, "unanswered lookups": 30, "commands after a failed connection attempt": 50}
ASSUMPTIONS = ["an advertisement at the exact lookup timeout may count either way"]
EPS = 1e-4


def plan(tier):
    return dict(cases=80000, seconds=780) if tier == "thorough" else dict(cases=14000, seconds=200)


def gen(rng, i, tier):
    nodes = rng.sample((1, 2, 3, 5, 7, 16, 17, 33, 100, 128, 200, 232), rng.randint(1, 5))
    many = rng.random() < 0.04  # nodes
    if many:
        nodes = rng.sample(range(1, 233), rng.choice((12, 20, 40, 70, 140)))
    ops, t = [], 0.0
    idle = not many and rng.random() < 0.015
    gap = rng.choice((100, 4000, 20000) if idle else (0, 0, 0.001, 0.1, 2))
    for _ in range(3 * len(nodes) if many else rng.randint(3, 6) if idle else rng.randint(2, 16)):
        ops.append(dict(at=t, node=rng.choice(nodes), how=rng.choice(("send", "send", "node", "endpoint", "connect", "request", "lookup")), sep=rng.choice((0, 0, 3, 127)),
                        dep=rng.choice((0, 1, 2, 5, 127)), reply=rng.choice((None, 0, 1, 9, 127))))
        t += rng.choice((0, 0, gap, gap * rng.random()))
    plans = {}
    for node in nodes:
        plans[node] = []
        for _attempt in range(6):
            adv = []
            if rng.random() < 0.8:
                adv.append((rng.choice((0, 0.01, 0.01, 0.5, 2.5, rng.uniform(0, 2.9))), node, 0))
            if rng.random() < 0.1:
                adv.append((rng.uniform(3.1, 8), node, 0))
            if rng.random() < 0.15:
                adv.append((rng.uniform(0, 2.9), node, rng.choice((0, 1))))
            for _ in range(rng.choice((0, 0, 1, 3))):
                adv.append((rng.choice((0, 0.005, 0.01, rng.uniform(0, 3))), rng.choice(nodes + [250]), rng.choice((0, 0, 1))))
            plans[node].append(adv)
    stray = [(rng.uniform(0, t + 4), rng.choice(nodes + [250]), rng.choice((0, 1))) for _ in range(rng.choice((0, 0, 2, 5)))]
    return dict(nodes=nodes, ops=ops, plans=plans, stray=stray, fail=rng.sample(nodes, rng.choice((0, 0, 0, 1, min(2, len(nodes))))), swap=rng.random() < 0.3)


def address(node, variant):
    return int.from_bytes(bytes.fromhex("fd00cccc") + bytes([0] * 9) + bytes([variant, 0, node]), "big")


def execute(sc, mon):
    outcome, events, heard = {}, [], []
    ctx = {}

    async def main(loop, net):
        from pyzwave.commandclass import ZipGateway, ManufacturerSpecific
        from pyzwave.node import Node, NodeEndPoint

        fake = ctx["fake"] = world.NetworkGateway(loop, mon)
        z = gw.new_gateway()
        await gw.connect_only(z)
        base = ctx["base"] = loop.time()
        attempts = {}

        class Listener:
            def messageReceived(self, _sender, node, endpoint, message, flags):
                fake.order += 1
                heard.append((node, endpoint, message, loop.time()))

        z.addListener(Listener())

        def solicited(node, sent):
            n = attempts[node] = attempts.get(node, -1) + 1
            out = []
            for delay, other, variant in sc["plans"].get(node, [[]] * 6)[min(n, 5)]:
                out.append((delay, codec.advertisement(other, address(other, variant))))
                if other != node:
                    mon.count("foreign advertisements")
            if sc["swap"]:
                out.reverse()
            return out

        fake.solicit_hook = solicited
        for at, node, variant in sc["stray"]:
            fake.inject(at, net.connected(gw.GW_IP)[0], codec.advertisement(node, address(node, variant)))
        failing = set(sc["fail"])

        def fail_connect(remote):
            for node in list(failing):
                if remote and remote[0] in (gw.ip_text(address(node, 0)), gw.ip_text(address(node, 1))):
                    failing.discard(node)
                    ctx.setdefault("failed", {})[node] = (loop.time(), fake.order)
                    raise OSError(101, "Network is unreachable")
            return None

        net.fail_connect = None
        real = loop.create_datagram_endpoint

        async def create(factory, local_addr=None, remote_addr=None, **kwargs):
            fail_connect(remote_addr)
            await asyncio.sleep(0)
            return await real(factory, local_addr=local_addr, remote_addr=remote_addr, **kwargs)

        loop.create_datagram_endpoint = create

        def device(sent):
            if sent.cmd != "ZipGateway.ApplicationNodeInfoSet":
                return []
            k = int.from_bytes(sent.args["commandClasses"], "big")
            op = sc["ops"][k]
            if op["how"] == "request":
                return [(0.02, codec.zip_packet(("ManufacturerSpecific.Report", dict(manufacturerID=k, productTypeID=op["node"], productID=77)), source=op["dep"]))]
            if op["reply"] is None:
                return []
            return [(0.02, codec.zip_packet(("ManufacturerSpecific.Report", dict(manufacturerID=k, productTypeID=op["node"], productID=3)), source=op["reply"]))]

        fake.command_hook = device

        nodes = {n: Node(n, z, []) for n in sc["nodes"]}

        async def one(k, op):
            await asyncio.sleep(op["at"])
            fake.order += 1
            entry = outcome[k] = dict(start=loop.time(), order=fake.order)
            cmd = ZipGateway.ApplicationNodeInfoSet(commandClasses=k.to_bytes(4, "big"))
            try:
                if op["how"] == "send":
                    entry["result"] = await z.sendToNode(op["node"], cmd, sourceEP=op["sep"], destEP=op["dep"])
                elif op["how"] == "node":
                    entry["result"] = await nodes[op["node"]].send(cmd)
                elif op["how"] == "endpoint":
                    entry["result"] = await NodeEndPoint(nodes[op["node"]], op["dep"], z, []).send(cmd)
                elif op["how"] == "request":
                    conn = await z.connectToNode(op["node"])
                    msg = await conn.sendAndReceive(cmd, ManufacturerSpecific.Report, destEP=op["dep"])
                    entry["result"] = True
                    ctx.setdefault("requests", []).append((k, int(msg.productTypeID)))
                elif op["how"] == "lookup":
                    entry["address"] = (await z.ipOfNode(op["node"])).compressed
                    entry["result"] = True
                else:
                    entry["result"] = bool(await z.connectToNode(op["node"]))
            except asyncio.TimeoutError:
                entry["result"] = False
            except (Exception, asyncio.CancelledError) as error:  # pylint: disable=broad-except
                # (nobody cancels these)
                entry["result"] = error
            entry["end"] = loop.time()

        await asyncio.gather(*[one(k, op) for k, op in enumerate(sc["ops"])])
        await asyncio.sleep(15)

    _, loop = sim.run(main)
    judge(sc, mon, outcome, heard, ctx, loop)


def judge(sc, mon, outcome, heard, ctx, loop):
    fake, base = ctx["fake"], ctx["base"]
    errors = sim.settle_errors(loop)
    mon.check(not errors, "loop-exception", "exception in the event loop: %s" % (errors and sim.error_text(errors[0])))
    adverts = {}
    for order, t, _transport, frame in fake.delivered:
        if frame[:2] == b"\x58\x01":
            node = frame[3]
            adverts.setdefault(node, []).append((t, order, gw.ip_text(int.from_bytes(frame[4:20], "big"))))
    by_tag = {}
    for sent in fake.wire:
        if sent.cmd == "ZipGateway.ApplicationNodeInfoSet":
            by_tag.setdefault(int.from_bytes(sent.args["commandClasses"], "big"), []).append(sent)
    pattern = []
    raised = {}
    for k, op in enumerate(sc["ops"]):
        entry = outcome[k]
        result = entry["result"]
        where = "%r (at %.3f)" % (op, entry["start"] - base)
        mon.count("commands judged")
        if isinstance(result, Exception):
            if isinstance(result, OSError) and op["node"] in ctx.get("failed", {}):
                pattern.append("x")
                raised[op["node"]] = raised.get(op["node"], 0) + 1
                mon.check(raised[op["node"]] == 1, "failure-sticks", "%s raised %r, but only the first attempt failed" % (where, result))
                mon.check(k not in by_tag, "misrouted", "%s failed, but was transmitted to %s" % (where, [s.host for s in by_tag.get(k, [])]))
                continue
            import core

            mon.fail("send-raised", "%s raised %r" % (where, result), core.describe(result))
            continue
        packets = by_tag.get(k, [])
        mon.check(len(packets) <= 1, "not-once", "%s was transmitted %d times" % (where, len(packets)))
        for sent in packets:
            known = [a for t, order, a in adverts.get(op["node"], []) if order < sent.order]
            mon.check(sent.host in known, "misrouted", "%s was transmitted to %s, the addresses advertised for node %d so far are %s" % (
                where, sent.host, op["node"], known))
            mon.check(sent.dest[1] == 4123, "misrouted", "sent to port %r" % (sent.dest,))
            want = {"send": (op["sep"], op["dep"]), "node": (0, 0), "endpoint": (0, op["dep"]), "request": (0, op["dep"])}[op["how"]]
            mon.check((sent.packet["sourceEP"], sent.packet["destEP"]) == want, "wrong-endpoint", "%s was sent from endpoint %d to %d, expected %r" % (
                where, sent.packet["sourceEP"], sent.packet["destEP"], want))
        if result and op["how"] == "lookup":
            known = [a for t, _order, a in adverts.get(op["node"], []) if entry["start"] - EPS <= t <= entry["end"] + EPS]
            mon.check(entry["address"] in known, "wrong-address", "%s returned %s, advertised meanwhile were %s" % (where, entry["address"], known))
            mon.count("explicit lookups answered")
        elif result and op["how"] != "connect":
            mon.check(packets, "not-sent", "%s reported success, but nothing was transmitted" % where)
        # A concurrent first attempt on a socket that could not be created ends with that error, then the later ones look up anew
        failed_at, failed_order = ctx.get("failed", {}).get(op["node"], (0, 0))
        if failed_at and entry["end"] > failed_at:
            mon.count("commands after a failed connection attempt")
        timely = [t for t, order, _a in adverts.get(op["node"], []) if order > max(entry["order"], failed_order) and t < entry["start"] + 3 - EPS and t > failed_at + EPS]
        if timely:
            mon.check(result is True or result is not False, "lookup-missed", "%s failed although node %d was advertised at %.3f" % (
                where, op["node"], timely[0] - base))
        elif not any(t <= entry["end"] + EPS for t, _o, _a in adverts.get(op["node"], [])):
            mon.count("unanswered lookups")
            mon.check(result is False and not packets, "phantom", "%s returned %r, but node %d was never advertised" % (where, result, op["node"]))
        pattern.append(bool(result))
    hosts = {}
    for transport in loop.net.transports:
        if transport.remote and transport.remote[0] != gw.GW_IP:
            value = int.from_bytes(__import__("ipaddress").IPv6Address(transport.remote[0]).packed, "big")
            hosts.setdefault(value & 0xFF, []).append(transport.remote[0])
    for node, items in hosts.items():
        mon.check(len(items) <= 1, "two-connections", "%d connections were opened for node %d: %s" % (len(items), node, items))
    starts = {}
    for k, op in enumerate(sc["ops"]):
        starts.setdefault(op["node"], []).append(outcome[k])
    for items in starts.values():
        first = min(items, key=lambda e: e["order"])
        mon.count("concurrent first uses", sum(1 for e in items if e is not first and e["start"] < first["end"]))
    # Replies on node connections
    replies = {}
    for node, endpoint, message, _t in heard:
        k = int(message.manufacturerID)
        replies.setdefault(k, []).append((node, endpoint, int(message.productTypeID)))
    for k, op in enumerate(sc["ops"]):
        if op["reply"] is None or k not in by_tag or op["how"] == "request":
            continue
        mon.count("replies judged")
        if any(o["how"] == "request" for o in sc["ops"] if o["node"] == op["node"]):
            mon.check(len(replies.get(k, [])) <= 1, "reply-misattributed", "reply %d was delivered %r" % (k, replies.get(k)))
            if not replies.get(k):
                continue
        mon.check(replies.get(k) == [(op["node"], op["reply"], op["node"])], "reply-misattributed",
                  "the reply of node %d endpoint %d was delivered as %r" % (op["node"], op["reply"], replies.get(k)))
    for k, node in ctx.get("requests", []):
        mon.check(node == sc["ops"][k]["node"], "reply-misattributed", "a request to node %d returned a message of node %d" % (sc["ops"][k]["node"], node))
    mon.seen(tuple(pattern), tuple(sorted(hosts)))
