"""C08: unsolicited packets are attributed to their source and acknowledged exactly once."""
import asyncio
import ipaddress

import codec
import gw
import sim
import world

ID = "C08"
LEVEL = "exploration"
RULE = ("histories of unsolicited packets to the listener of a connected gateway with a running application: known, unknown, removed, later added and never resolved sources, "
        "random ports, sequence numbers (with repetitions), endpoints, header extensions, flags and commands, bare commands without Z/IP header, concurrent with traffic on the other sockets and with repeated node lists. "
        "Non-trivial: distinct (source kind, ack request, extension, command type, endpoints>0)")
REQUIRE = {"packets judged": 3000, "known sources": 1500, "unknown sources": 500, "acks judged": 700, "with header extension": 500, "node deliveries": 600, "repeated packets": 200, "packets without Z/IP header": 500, "node lists in between": 500, "lookups lost meanwhile": 800}
ASSUMPTIONS = ["node list reports are judged by C09, not here"]

NAMES = ["Basic.Set", "Basic.Report", "Configuration.Report", "ManufacturerSpecific.Report", "Meter.Report", "SensorMultilevel.Report", "SwitchBinary.Report",
         "Battery.Report", "Association.Report", "Version.VersionReport", "Indicator.Report", "unknown"]


def plan(tier):
    return dict(cases=60000, seconds=780) if tier == "thorough" else dict(cases=4500, seconds=200)


def gen_packet(rng, nodes, tag):
    import msggen

    kind = rng.choice(("known", "known", "known", "known", "unknown", "removed", "unresolved", "added", "gateway", "moved", "old address", "reused"))
    name = rng.choice(NAMES)
    if name == "unknown":
        command = bytes([rng.choice((0x26, 0x30, 0x9F)), rng.choice((0x77, 0x88))]) + rng.randbytes(rng.randint(0, 6))
    else:
        command = (name, msggen.values(name, rng))
    exts = None
    if rng.random() < 0.4:
        exts = msggen.ext(rng)
    return dict(kind=kind, node=rng.choice(nodes), command=command, ack=rng.random() < 0.5, ext=exts, seq=rng.choice((0, 1, 0xFF, rng.randrange(256))),
                source=rng.choice((0, 0, 1, 2, 127, rng.randrange(128))), dest=rng.choice((0, 0, 1, 127, rng.randrange(128))),
                flip=rng.randrange(127), port=rng.choice((4123, 4123, 41230, 1024, 65535)), at=rng.choice((0, 0.001, rng.uniform(0, 5))),
                more=rng.randrange(2), secure=rng.randrange(2), unsol_from=rng.random() < 0.5)


def gen(rng, i, tier):
    nodes = rng.sample(range(1, 233), rng.choice((40, 80, 200)) if rng.random() < 0.02 else rng.randint(1, 5))
    packets = [gen_packet(rng, nodes, k) for k in range(rng.randint(5, 25))]
    for _ in range(rng.choice((0, 1, 3))):  # the same report again, byte for byte
        again = rng.choice(packets)
        packets.append(dict(again, at=again["at"] + rng.choice((0, 0, 0.5, 10)), again=True))
    bare = []  # datagrams that are not Z/IP packets
    for _ in range(rng.choice((0, 0, 1, 3))):
        command = rng.choice((("Basic.Set", dict(value=1)), ("Supervision.Get", dict(statusUpdates=0, sessionID=rng.randrange(64), command=("Basic.Set", dict(value=2)))),
                              ("Basic.Report", dict(value=rng.randrange(256))), ("Configuration.Report", dict(parameterNumber=1, size=1, value=3))))
        bare.append((rng.uniform(0, 5), rng.choice(nodes), command))
    return dict(controller=world.pick_controller(rng, nodes), nodes=nodes, packets=packets, bare=bare, lists=[rng.uniform(0, 5) for _ in range(rng.choice((0, 0, 1, 1, 3)))], scheme=rng.randrange(len(gw.SCHEMES)),
                cc=[rng.sample((0x60, 0x20, 0x70, 0x25, 0x85, 0x86, 0x9F), rng.randint(0, 5)) for _ in nodes], mode=i % 3,
                deaf=rng.random() < 0.4)




def execute(sc, mon):
    heard, node_heard, acks = [], [], []
    ctx = {}
    gw.scheme = gw.SCHEMES[sc["scheme"]]

    async def main(loop, net):
        devices = {n: world.device(cc, endpoints=[dict(cc=[0x20], generic=1, specific=1)] * 2) for n, cc in zip(sc["nodes"], sc["cc"])}
        w = world.World(loop, mon, devices, controller=sc.get("controller", 1))
        fake = w.fake
        ids = dict(removed=231, unresolved=232, added=230, moved=229, reused=228, left=227)
        for key in list(ids):
            while ids[key] in sc["nodes"] or ids[key] == fake.controller or list(ids.values()).count(ids[key]) > 1:
                ids[key] -= 1
        for key in ("removed", "moved", "left"):
            fake.add_device(ids[key], world.device([0x20]))
        await w.start()
        for key in ("removed", "moved", "left"):
            fake.unsolicited(0.1, ids[key], ("Basic.Report", dict(value=1)))
        await asyncio.sleep(1)
        # now the removed one leaves, one appears and one appears without an address
        for key in ("removed", "moved", "left"):
            fake.remove_device(ids[key])
        fake.add_device(ids["added"], world.device([0x20]))
        fake.push_list(0)
        await asyncio.sleep(5)
        # one comes back with another address, one gets the address of one that has left
        fake.add_device(ids["moved"], world.device([0x20]))
        fake.nodes[ids["moved"]] = gw.node_ip(0x4000 + ids["moved"])
        fake.add_device(ids["reused"], world.device([0x20]))
        fake.nodes[ids["reused"]] = gw.node_ip(ids["left"])
        fake.push_list(0)
        await asyncio.sleep(5)
        fake.add_device(ids["unresolved"], world.device([0x20]))
        del fake.nodes[ids["unresolved"]]
        fake.push_list(0)
        await asyncio.sleep(10)
        if sc["mode"] == 1:  # an identical report in between
            fake.push_list(0)
            await asyncio.sleep(5)

        class Listener:
            def messageReceived(self, _sender, node, endpoint, message, flags):
                heard.append((node, endpoint, message, flags))

        w.zip.addListener(Listener())

        class NodeListener:
            def __init__(self, node):
                self.node = node

            def onMessage(self, _node, message):
                node_heard.append((self.node, message))

        for key, node in w.app.nodes.items():
            node.addListener(NodeListener(key))
        ctx["app"] = set(w.app.nodes)
        fake.listener_hook = lambda sent: acks.append(sent)
        order = []

        def deliver(k, p):
            node = p["node"] if p["kind"] == "known" else ids.get(p["kind"], p["node"])
            if p["kind"] == "unknown":
                # not more than one bit from an address that is known
                known = {gw.node_ip(n) for n in list(fake.nodes) + list(ids.values())} | {gw.node_ip(0x4000 + ids["moved"])} | {int(ipaddress.IPv6Address(gw.GW_IP))}
                stranger = gw.node_ip(p["node"]) ^ (1 << p["flip"])
                while stranger in known:
                    stranger ^= 1 << 60
                source = (gw.ip_text(stranger), p["port"], 0, 0)
                node = None
            elif p["kind"] == "gateway":
                source, node = (gw.GW_IP, p["port"], 0, 0), None
            else:
                source = (gw.ip_text(gw.node_ip(node)), p["port"], 0, 0)
                if p["kind"] in ("removed", "unresolved"):
                    node = None
                elif p["kind"] == "moved":
                    source = (gw.ip_text(gw.node_ip(0x4000 + node)), p["port"], 0, 0)
                elif p["kind"] == "reused":
                    source = (gw.ip_text(gw.node_ip(ids["left"])), p["port"], 0, 0)
                elif p["kind"] == "old address":
                    source, node = (gw.ip_text(gw.node_ip(ids["moved"])), p["port"], 0, 0), None
            frame = codec.zip_packet(p["command"], seq=p["seq"], ack=p["ack"], source=p["source"], dest=p["dest"], ext=p["ext"],
                                     moreInformation=p["more"], secureOrigin=p["secure"])
            mark = len(heard), len(acks)
            fake._unsolicited(None, frame, source, {})
            order.append((k, node, source, mark, (len(heard), len(acks)), ids))

        base = loop.time()
        for k, p in enumerate(sc["packets"]):
            loop.sim_at(base + p["at"], deliver, k, p)
        for at, node, command in sc["bare"]:
            mon.count("packets without Z/IP header")
            fake.unsolicited(at, node, codec.encode(*command))
        if sc["deaf"]:
            # lookups get lost from now on, all addresses are known
            fake.solicit_hook = lambda node, sent: []
            mon.count("lookups lost meanwhile")
        # the gateway repeats its node list, nothing has changed
        for at in sc["lists"]:
            mon.count("node lists in between")
            fake.push_list(at)
        # traffic on the other sockets at the same time
        gateway_conn = net.connected(gw.GW_IP)[0]
        for at in (0, 0.001, 1, 2):
            fake.inject(at, gateway_conn, codec.zip_packet(("Basic.Report", dict(value=1)), seq=1))
            fake.inject(at, gateway_conn, codec.zip_ack(5))
        await asyncio.sleep(40)
        ctx["order"] = order
        ctx["w"] = w

    _, loop = sim.run(main)
    errors = sim.settle_errors(loop)
    mon.check(not errors, "loop-exception", "exception in the event loop: %s" % (errors and sim.error_text(errors[0])))
    judge(sc, mon, heard, node_heard, acks, ctx)


def judge(sc, mon, heard, node_heard, acks, ctx):
    import msggen
    from pyzwave.message import Message

    expected_nodes = {}
    want_heard, want_acks = [], []
    for k, node, source, _m0, _m1, _ids in ctx["order"]:
        p = sc["packets"][k]
        mon.count("packets judged")
        if p.get("again"):
            mon.count("repeated packets")
        mon.seen(p["kind"], p["ack"], p["ext"] is not None, p["command"][0] if isinstance(p["command"], tuple) else "raw", p["source"] > 0, p["dest"] > 0)
        if node is None:
            mon.count("unknown sources")
            continue
        mon.count("known sources")
        want_heard.append((k, node))
        if p["ext"] is not None:
            mon.count("with header extension")
        if p["ack"]:
            want_acks.append((k, source))
        key = "%d:%d" % (node, p["source"])
        expected_nodes.setdefault(key, []).append(k)
    mon.check(len(heard) == len(want_heard), "wrong-count", "%d deliveries for %d packets of known nodes: %r, wanted %r" % (
        len(heard), len(want_heard), [(h[0], h[1], h[2]) for h in heard], want_heard))
    for (k, node), (got_node, got_ep, message, flags) in zip(want_heard, heard):
        p = sc["packets"][k]
        where = "packet %r" % (p,)
        mon.check(int(got_node) == node, "wrong-node", "%s of node %d was delivered for node %s" % (where, node, got_node))
        mon.check(int(got_ep) == p["source"], "wrong-endpoint", "%s was delivered for endpoint %s" % (where, got_ep))
        if isinstance(p["command"], tuple):
            error = msggen.compare(p["command"][0], p["command"][1], message)
            mon.check(not error, "wrong-command", "%s was delivered as %r: %s" % (where, message, error))
        else:
            want = int.from_bytes(p["command"][:2], "big")
            mon.check(isinstance(message, Message) and message.hid() == want, "wrong-command", "%s was delivered as %r" % (where, message))
        if p["ext"] is not None:
            error = msggen.compare_ext(p["ext"], flags, "header extension")
            mon.check(not error, "wrong-extension", "%s was delivered with %r: %s" % (where, flags, error))
        else:
            mon.check(not flags, "wrong-extension", "%s has no header extension, but was delivered with %r" % (where, flags))
    mon.check(len(acks) == len(want_acks), "ack-count", "%d packets sent by the listener, %d acknowledgements required: %r / %r" % (
        len(acks), len(want_acks), acks, [(sc["packets"][k]["kind"], s[0]) for k, s in want_acks]))
    for (k, source), sent in zip(want_acks, acks):
        p = sc["packets"][k]
        mon.count("acks judged")
        mon.check(sent.dest[:2] == source[:2], "ack-misdirected", "ack for %r went to %r" % (source, sent.dest))
        a = sent.packet
        mon.check(a is not None and a["ackResponse"] == 1 and not any(a[f] for f in (
            "ackRequest", "nackResponse", "nackWaiting", "nackQueueFull", "nackOptionError", "headerExtIncluded", "zwCmdIncluded")) and a["command"] is None,
            "ack-wrong", "the answer to %r was %s" % (p, sent.frame.hex()))
        mon.check((a["seqNo"], a["sourceEP"], a["destEP"]) == (p["seq"], p["dest"], p["source"]), "ack-wrong",
                  "packet with seq %d, endpoints %d->%d was acknowledged with seq %d, endpoints %d->%d" % (
                      p["seq"], p["source"], p["dest"], a["seqNo"], a["sourceEP"], a["destEP"]))
    # deliveries to the nodes: nobody consumes these commands, so the node level listeners get what no handler took
    got_nodes = {}
    for key, message in node_heard:
        got_nodes.setdefault(key, []).append(message)
        mon.count("node deliveries")
    for key, messages in got_nodes.items():
        want = [sc["packets"][k] for k in expected_nodes.get(key, [])]
        mon.check(len(messages) <= len(want), "wrong-node", "node %s got %d messages, %d were sent by it" % (key, len(messages), len(want)))
    for key, ks in expected_nodes.items():
        if key not in ctx["app"]:
            continue
        free = [k for k in ks if isinstance(sc["packets"][k]["command"], tuple) and sc["packets"][k]["command"][0] in (
            "Basic.Set", "Basic.Report", "Battery.Report", "Indicator.Report", "SwitchBinary.Report", "ManufacturerSpecific.Report", "Version.VersionReport")]
        got = [m for m in got_nodes.get(key, []) if repr(m).startswith("<Z-Wave")]
        names = sorted(x for x in (_name(m) for m in got) if x)
        want = sorted(sc["packets"][k]["command"][0] for k in free)
        mon.check([n for n in names if n in set(want)] == want, "not-delivered", "node %s: commands %r arrived, its listener got %r" % (key, want, names))


def _name(message):
    return "%s.%s" % (type(message).__module__.rsplit(".", 1)[-1], type(message).__name__)
