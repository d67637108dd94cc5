"""C24: connecting configures the gateway."""
import asyncio
import ipaddress

import codec
import gw
import sim
import world

ID = "C24"
LEVEL = "fault_enumeration"
RULE = ("every step of the handshake x every fault (answer lost, late, doubled, before its acknowledgement, acknowledgement lost or negative, alone and in pairs) x gateway modes x node lists of 1-232 nodes, "
        "with node list changes, noise and unsolicited traffic during and after it. Non-trivial: distinct (mode, faults, list size, lookups answered)")
REQUIRE = {"connects": 2500, "mode set": 800, "mode already set": 800, "mode unknown": 200, "destination registered": 2400, "node lists received": 2000, "node lists missing": 200, "lookups answered": 10000,
           "lookups unanswered": 500, "unsolicited accepted": 10000, "unsolicited of strangers": 2400, "recovered after a new list": 200}
ASSUMPTIONS = ["what is due when the mode report does not come is not specified, except that a gateway in standalone mode is never told so again", "an address answered more than 3 seconds late may count or not"]
STEPS = ("mode", "set", "dest", "list")
FAULTS = ("lost", "late", "unacked", "unacked-lost", "nack", "early", "dup", "slow")
IPFAULTS = ("lost", "late", "dup", "slow", "noaddress", "other-first")
DEST = int(ipaddress.IPv6Address("::ffff:c0a8:31"))
NODELIST = world.NMP + "NodeListGet"
STEP_OF = {"ZipGateway.GatewayModeGet": "mode", "ZipGateway.GatewayModeSet": "set", "ZipGateway.UnsolicitedDestinationSet": "dest", NODELIST: "list"}


def plan(tier):
    return dict(cases=300000, seconds=780) if tier == "thorough" else dict(cases=12000, seconds=200)


def scenario(mode, nodes, faults, ips, **kw):
    sc = dict(mode=mode, nodes=nodes, controller=1, faults=faults, ips=ips, push=None, noise=0, during=[], seed=0, ack=True)
    sc.update(kw)
    return sc


def enumerate_cases(tier):
    yield scenario(1, [], {}, {})
    for mode in (0, 1, 2, 3, 255):
        for nodes in ([], [2], [5, 9, 232]):
            yield scenario(mode, nodes, {}, {})
            for step in STEPS:
                for fault in FAULTS:
                    yield scenario(mode, nodes, {step: fault}, {})
            for n in [1] + nodes:
                for fault in IPFAULTS:
                    yield scenario(mode, nodes, {}, {n: fault})
            if mode in (0, 1) and len(nodes) != 1:
                for i, a in enumerate(STEPS):
                    for b in STEPS[i + 1:]:
                        for fa in FAULTS:
                            for fb in FAULTS:
                                yield scenario(mode, nodes, {a: fa, b: fb}, {})


def gen(rng, i, tier):
    mode = rng.choice((0, 1, 1, 2, 3, 17, 255))
    nodes = rng.sample(range(2, 233), rng.choice((0, 1, 2, 3, 5, 8, 20, 231) if i % 40 == 0 else (0, 1, 2, 3, 5)))
    p = rng.choice((0, 0.2, 0.5))
    faults = {s: rng.choice(FAULTS) for s in STEPS if rng.random() < p * 0.5}
    ips = {n: rng.choice(IPFAULTS) for n in [1] + nodes if rng.random() < p}
    push = None
    if rng.random() < 0.4:
        new = rng.sample(range(2, 233), rng.randint(0, 3))
        push = dict(at=rng.choice((0.02, 0.03, 0.05, 0.3, 2, 5, 9)), nodes=sorted(set(rng.sample(nodes, rng.randint(0, len(nodes)))) | set(new)))
    return scenario(mode, nodes, faults, ips, push=push, noise=rng.choice((0, 0, 1, 4)), seed=rng.randrange(1 << 30), ack=rng.random() < 0.5,
                    during=[(rng.choice((0.011, 0.04, 0.1, 1, 4, 10)), rng.choice(nodes + [1])) for _ in range(rng.choice((0, 0, 1, 3)))])


def execute(sc, mon):
    import random

    rng = random.Random(sc["seed"])
    ctx = dict(answered={}, report=None)

    async def main(loop, net):
        fake = world.NetworkGateway(loop, mon, {n: world.device() for n in sc["nodes"]}, sc["controller"])
        fake.mode = sc["mode"]
        if sc["push"]:
            for n in sc["push"]["nodes"]:
                if n not in fake.devices:
                    fake.add_device(n, world.device())
        healthy = [False]
        deadline = {}  # node -> latest time its last lookup may be answered

        def fault_of(sent):
            step = STEP_OF.get(sent.cmd)
            return step, ("ok" if healthy[0] else sc["faults"].get(step, "ok"))

        def on_ack(sent):
            _step, fault = fault_of(sent)
            if fault.startswith("unacked"):
                return []
            if fault == "nack":
                return [(0.01, codec.zip_packet(None, seq=sent.seq, nackResponse=1))]
            return [(0.8 if fault == "slow" else 0.01, codec.zip_ack(sent.seq))]

        def on_command(sent):
            step, fault = fault_of(sent)
            ctx.setdefault("commands", []).append((sent.t, sent.cmd, sent.args, [t.local for t in net.listeners()]))
            mon.check(sent.host == gw.GW_IP, "wrong-target", "%s was sent to %s" % (sent.cmd, sent.host))
            if step is None:
                mon.fail("unexpected", "connecting sent %s %s" % (sent.cmd, sent.args))
                return []
            if step == "list":
                reply = fake.report_list([sc["controller"]] + (sc["nodes"] if not healthy[0] and not ctx.get("pushed") else ctx["pushed"]), seq=sent.args["seqNo"])
            else:
                reply = fake.network(sent)
            if fault in ("lost", "nack", "unacked-lost") and (step in ("mode", "list")):
                return []
            if reply is None:
                return []
            delay = {"late": 7, "early": 0.001, "slow": 2.6}.get(fault, 0.02)
            if fault != "late":
                if step == "mode":
                    ctx["report"] = reply[1]["mode"]
                else:
                    ctx["list"] = sorted(reply[1]["nodes"])
            elif step == "list":
                ctx["maybe"] = sorted(reply[1]["nodes"])
            else:
                ctx["mode late"] = True
            out = [(delay, codec.zip_packet(reply))]
            if fault == "dup":
                out.append((delay + 0.001, codec.zip_packet(reply)))
                out.append((delay + 0.5, codec.zip_packet(reply)))
            return out

        def on_solicit(node, sent):
            fault = "ok" if healthy[0] else sc["ips"].get(node, "ok")
            if node not in fake.nodes:
                return []
            ad = codec.advertisement(node, fake.nodes[node])
            ctx.setdefault("asked", set()).add(node)
            if fault in ("lost",):
                ctx["answered"].setdefault(node, False)
                return []
            if fault == "noaddress":
                ctx["answered"].setdefault(node, False)
                return [(0.01, codec.advertisement(node, 0))]
            if fault == "late":
                ctx["answered"].setdefault(node, None)
                return [(3.2 + rng.random() * 3, ad)]
            ctx["answered"][node] = True
            out = [(2.9 if fault == "slow" else 0.01, ad)]
            if fault == "dup":
                out += [(0.012, ad), (1, ad)]
            if fault == "other-first":
                other = 200 + node % 30
                out.insert(0, (0.005, codec.advertisement(other if other not in fake.nodes else 250, gw.node_ip(99) + 7)))
            return out

        fake.ack_hook, fake.command_hook, fake.solicit_hook = on_ack, on_command, on_solicit
        zipgw = gw.new_gateway()
        heard = []

        class Listener:
            def messageReceived(self, _sender, nodeId, endpoint, message, flags):
                heard.append((nodeId, endpoint, getattr(message, "value", None)))

        listener = Listener()
        zipgw.addListener(listener)
        for delay, node in sc["during"]:
            fake.unsolicited(delay, node, ("Basic.Set", dict(value=200)))
        if sc["push"]:
            def push():
                if net.listeners():
                    ctx["pushed"] = sc["push"]["nodes"]
                    ctx["push after"] = "connected" in ctx
                    fake._push_list([sc["controller"]] + sc["push"]["nodes"])
            loop.sim_at(loop.time() + sc["push"]["at"], push)
        for _ in range(sc["noise"]):
            def noise():
                t = net.connected(gw.GW_IP)
                if t:
                    fake._deliver(t[0], rng.choice((b"\x23", b"\x23\x03\x40", b"\x58\x01", rng.randbytes(9), codec.zip_ack(rng.randrange(256)), b"\x23\x02\x00\x10")), None)
            loop.sim_at(loop.time() + rng.choice((0.005, 0.02, 1, 5)), noise)
        limit = 40 + 10 * (len(fake.nodes) + 1)
        task = asyncio.ensure_future(zipgw.connect())
        done, _ = await asyncio.wait([task], timeout=limit)
        mon.check(done, "hangs", "connect() did not return within %d s" % limit)
        task.result()
        ctx["connected"] = loop.time()
        mon.count("connects")
        await asyncio.sleep(limit)  # a node list received meanwhile is being handled
        mon.log("connected")
        judge_handshake(mon, sc, ctx, net, fake)

        async def from_all(nodes, must, base):
            for k, node in enumerate(sorted(nodes)):
                endpoint = (k * 7) % 128
                before = len(heard)
                fake.unsolicited(0.001, node, codec.zip_packet(("Basic.Set", dict(value=(base + k) % 200)), seq=k & 0xFF, ack=sc["ack"], source=endpoint))
                await asyncio.sleep(0.01)
                got = heard[before:]
                want = [(node, endpoint, (base + k) % 200)]
                mon.check(got in (want, []), "misattributed", "a message of node %d end point %d was delivered as %s" % (node, endpoint, got))
                if got == want:
                    mon.count("unsolicited accepted")
                mon.check(got == want or node not in must, "rejected", "after connecting, an unsolicited message of the listed node %d was not accepted (its address was answered in time)" % node)

        lists = [ctx[k] for k in ("list", "maybe") if k in ctx]
        if ctx.get("pushed") is not None:
            pushed = sorted([sc["controller"]] + ctx["pushed"])
            lists = [pushed] if ctx["push after"] else lists + [pushed]
        # which of two lists reported during connect counts is not specified
        final = sorted(set.intersection(*map(set, lists))) if lists else []
        if lists == [ctx.get("maybe")]:
            final = []
        must = {n for n in final if ctx["answered"].get(n)}
        for n in final:
            mon.check(n in ctx.get("asked", ()), "not-asked", "the address of the listed node %d was never asked for" % n)
        mon.count("lookups answered", len([n for n in final if ctx["answered"].get(n)]))
        mon.count("lookups unanswered", len([n for n in final if not ctx["answered"].get(n)]))
        await from_all(final, must, 0)
        before = len(heard)
        for stranger in ("fd00:bbbb::1", "fd00:cccc::5", "::", "fd00:bbbb::fe:0"):
            fake.unsolicited(0.001, 0, ("Basic.Set", dict(value=1)), source=(stranger, 4123, 0, 0))
        await asyncio.sleep(0.01)
        mon.count("unsolicited of strangers", 4)
        mon.check(len(heard) == before, "stranger", "a message of an unknown address was attributed to node %s" % (heard[before:],))
        # a node list afterwards, with everything answered
        healthy[0] = True
        everything = sorted(fake.nodes)
        fake.push_list(0.001, everything)
        await asyncio.sleep(limit)
        if any(sc["ips"].get(n) in ("lost", "late", "noaddress") for n in everything):
            mon.count("recovered after a new list")
        await from_all(everything, set(everything), 50)

    _, loop = sim.run(main)
    errors = sim.settle_errors(loop)
    mon.check(not errors, "loop-exception", "exception in the event loop: %s" % (errors and sim.error_text(errors[0])))
    mon.seen(sc["mode"], sorted(sc["faults"].items()), len(sc["nodes"]), sorted(map(str, ctx["answered"].values())))


def judge_handshake(mon, sc, ctx, net, fake):
    commands = ctx.get("commands", [])
    names = [c[1] for c in commands]
    sets = [c for c in commands if STEP_OF[c[1]] == "set"]
    mon.check(names and STEP_OF[names[0]] == "mode", "mode-not-read", "the first command sent is %s, not the one reading the gateway mode" % (names[:1],))
    for c in sets:
        mon.check(c[2]["mode"] == 1, "wrong-mode", "the gateway mode was set to %s" % c[2]["mode"])
    if sc["mode"] == 1:
        mon.count("mode already set")
        mon.check(not sets, "superfluous-set", "standalone mode was set although it already is")
    elif ctx["report"] is not None:
        mon.count("mode set")
        mon.check(sets, "mode-not-set", "the gateway is in mode %d, but standalone mode was not set" % sc["mode"])
        mon.check(len(sets) == 1 or "set" in sc["faults"], "superfluous-set", "standalone mode was set %d times" % len(sets))
    else:
        mon.count("mode unknown")
    listeners = [t for t in net.transports if t.remote is None]
    mon.check(len(listeners) == 1 and not listeners[0].closed and listeners[0].local and listeners[0].local[1] == 4123, "not-listening", "listening on %s" % [t.local for t in listeners])
    dest = [c for c in commands if STEP_OF[c[1]] == "dest"]
    mon.check(dest, "not-registered", "the unsolicited destination was not registered")
    for t, _name, args, open_then in dest:
        mon.check(args["port"] == 4123 and args["unsolicitedIPv6Destination"] == DEST, "wrong-destination", "registered %s" % (args,))
        mon.check(open_then, "not-listening-yet", "the unsolicited destination was registered at %.3f, before listening" % t)
        if sets and "set" not in sc["faults"]:
            mon.check(max(c[0] for c in sets) <= t, "order", "the destination was registered before the mode was set")
    mon.count("destination registered")
    mon.check(NODELIST in names or ctx.get("pushed") is not None, "list-not-asked", "the node list was not asked for")
    mon.count("node lists received" if "list" in ctx else "node lists missing")
