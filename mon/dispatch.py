"""
Shared workload of C11 and C12: messages (plain and supervised) for nodes and endpoints with listeners of all kinds,
pending requests, and a reference model of who has to be offered what.
"""
import asyncio

import codec
import gw
import msggen
import sim
import world

POOL = [n for n in msggen.LEAF_DECODE if n.split(".")[0] in (
    "Basic", "Battery", "Association", "Configuration", "Indicator", "ManufacturerSpecific", "Meter", "SwitchBinary", "Version", "ZwavePlusInfo",
    "ApplicationStatus", "MultiChannelAssociation", "SensorMultilevel", "Supervision")]
INTERNAL = {"Configuration.Report"}  # the command class itself handles these
CCS = [0x20, 0x80, 0x85, 0x70, 0x87, 0x72, 0x32, 0x25, 0x86, 0x5E, 0x22, 0x8E, 0x31, 0x6C, 0x26]
RESULTS = [None, None, False, True, 0, 1, "raise", "raise", "cancel"]
FAILS = ("raise", "cancel")


def listener(rng, key, cc):
    spec = dict(key=key, cc=cc, kind=rng.choice(("sync", "async", "slow")), result=rng.choice(RESULTS), slow=rng.choice((0.05, 0.05, 0.05, 2.5, 15)) if rng.random() < 0.9 else rng.choice((31, 65, 130)))
    if spec["result"] == "cancel" and spec["kind"] == "sync":
        spec["result"] = "raise"
    return spec


def gen_ext(rng):
    """Header extension options of a packet (None: no extension)"""
    if rng.random() < 0.5:
        return None
    return [(rng.random() < 0.5, typ, rng.randbytes({1: 3, 2: 0, 4: 2, 5: 0}[typ])) for typ in rng.sample((1, 2, 4, 4, 5), rng.choice((0, 1, 1, 2)))]


def gen(rng, supervised):
    nodes = {}
    controller = rng.choice((1, 1, 1, 5, 128, 232))
    ids = [n for n in range(1, 233) if n != controller]
    for n in rng.sample(rng.choice((ids, ids, [n for n in (1, 2, 127, 128, 231, 232) if n != controller])), rng.randint(1, 3)):
        nodes[n] = [rng.sample(CCS, rng.randint(2, len(CCS))) for _ in range(rng.choice((1, 1, 2, 3)))]
    listeners = []
    keys = [(n, e) for n, eps in nodes.items() for e in range(len(eps))]
    for key in keys:
        for cc in nodes[key[0]][key[1]]:
            for _ in range(rng.choice((0, 1, 1, 2, 3) * 6 + (12, 40))):
                listeners.append(listener(rng, key, cc))
        for _ in range(rng.choice((0, 1, 2, 3) * 6 + (12, 40))):
            listeners.append(listener(rng, key, None))
    controlled = {}
    for key in keys:
        if rng.random() < 0.5:
            others = [c for c in CCS if c not in nodes[key[0]][key[1]]]
            controlled[key] = rng.sample(others, min(len(others), rng.randint(1, 5)))
    messages, waits, t = [], [], 1.0
    for _ in range(rng.randint(3, 14)):
        key = rng.choice(keys)
        r = rng.random()
        supported = nodes[key[0]][key[1]]
        if key in controlled and rng.random() < 0.2:
            supported = controlled[key]
        name = rng.choice(POOL)
        if r < 0.6:
            options = [x for x in POOL if codec.T[x][0] in supported]
            name = rng.choice(options or POOL)
        if name.startswith("Supervision.Get"):
            name = "Basic.Set"
        if r > 0.93:
            command = bytes([rng.choice(supported + [0x9F]), 0xEE]) + rng.randbytes(rng.randint(0, 5))
        else:
            command = (name, msggen.values(name, rng))
        if rng.random() < 0.3 and not isinstance(command, bytes):
            waits.append(dict(at=t - 0.0004, key=key if rng.random() < 0.8 else rng.choice(keys), name=command[0], timeout=rng.choice((0.5, 3))))
        ep = key[1]
        if rng.random() < 0.05:
            ep = rng.choice((100, 127))
        via = rng.choice(("listener", "connection"))
        messages.append(dict(at=t, node=key[0], ep=ep, command=command, session=rng.randrange(64) if supervised and rng.random() < 0.7 else None,
                             via=via, updates=rng.randrange(2), ext=gen_ext(rng) if via == "listener" else None))
        if rng.random() < 0.12:
            # the same message once more at the same instant, on either way
            messages.append(dict(messages[-1], via=rng.choice(("listener", "connection"))))
        t += rng.choice((0, 0.001, 0.001, 0.01, 0.3, 4))
    return dict(controller=controller, nodes=nodes, controlled=controlled, listeners=listeners, messages=messages, waits=waits, ack=rng.choice((1, 1, 1, 0)), gateway=gen_gateway(rng))


def gen_gateway(rng):
    out = []
    for _ in range(rng.choice((0, 0, 1, 3))):
        name = rng.choice(("NetworkManagementInclusion.NodeAddStatus", "NetworkManagementInclusion.NodeRemoveStatus", "NetworkManagementInclusion.NodeRemoveStatus", "Basic.Report",
                           "ZipGateway.GatewayModeReport"))
        v = msggen.values(name, rng)
        if name.endswith("NodeRemoveStatus"):
            v["status"] = rng.choice((1, 2, 6, 6, 6, 7))
            v["nodeID"] = rng.choice((0, 0, 5))
        out.append(dict(at=1.0005 + rng.randrange(20) * 0.001, command=(name, v), result=rng.choice((None, True))))
    for _ in range(rng.choice((0, 0, 1, 2))):
        # from the address of the controller's own node
        name = rng.choice(("Basic.Report", "Basic.Set", "ZipGateway.GatewayModeReport", "Configuration.Report", "ManufacturerSpecific.Report"))
        out.append(dict(at=1.0005 + rng.randrange(20) * 0.001, command=(name, msggen.values(name, rng)), chip=rng.choice((0, 0, 1, 127))))
    return out


def handler_name(name):
    """The listener method of a command"""
    return "on" + "".join(x.title() for x in msggen.cls_of(name).NAME.lower().split("_"))


def run(sc, mon, supervise=True):
    """Returns (calls, wire, app_calls, waits, loop). calls: [(listener index, method, args)]"""
    calls, app_calls, wait_results = [], [], {}
    ctx = {}

    async def main(loop, net):
        devices = {}
        for n, eps in sc["nodes"].items():
            marked = [[0xEF] + sc["controlled"][n, e] if (n, e) in sc["controlled"] else [] for e in range(len(eps))]
            devices[n] = world.device(eps[0] + ([0x60] if len(eps) > 1 else []) + marked[0],
                                      endpoints=[dict(cc=c + more, generic=1, specific=1) for c, more in zip(eps[1:], marked[1:])])
        w = ctx["w"] = world.World(loop, mon, devices, controller=sc.get("controller", 1))
        fake = w.fake
        await w.start()

        def make(index, spec):
            def outcome():
                if spec["result"] == "cancel":
                    raise asyncio.CancelledError()
                if spec["result"] == "raise":
                    raise RuntimeError("listener %d raises" % index)
                return spec["result"]

            def record(name, args):
                calls.append((index, name, args))

            class Listener:
                if spec["cc"] is None:
                    if spec["kind"] == "sync":
                        def onMessage(self, *args):
                            record("onMessage", args)
                            return outcome()
                    else:
                        async def onMessage(self, *args):
                            record("onMessage", args)
                            if spec["kind"] == "slow":
                                await asyncio.sleep(spec["slow"])
                            return outcome()
                else:
                    def __getattr__(self, name):
                        if not name.startswith("on"):
                            raise AttributeError(name)

                        def plain(*args):
                            record(name, args)
                            return outcome()

                        async def coro(*args):
                            record(name, args)
                            if spec["kind"] == "slow":
                                await asyncio.sleep(spec["slow"])
                            return outcome()

                        return plain if spec["kind"] == "sync" else coro

            return Listener()

        for index, spec in enumerate(sc["listeners"]):
            node = w.node(*spec["key"])
            (node if spec["cc"] is None else node.supported[spec["cc"]]).addListener(make(index, spec))

        class AppListener:
            def messageReceived(self, _s, message):
                app_calls.append(("messageReceived", message))

            def addNodeStatus(self, _s, message):
                app_calls.append(("addNodeStatus", message))

            async def removeNodeStatus(self, _s, message):
                app_calls.append(("removeNodeStatus", message))

            def nodeRemoved(self, _s, node):
                app_calls.append(("nodeRemoved", node))

            def nodesRemoved(self, _s, nodes):
                app_calls.append(("nodesRemoved", list(nodes)))

        w.app.addListener(AppListener())
        # open the node connections
        from pyzwave.commandclass import Basic

        for n in sc["nodes"]:
            await w.node(n).send(Basic.Set(value=0))
        ctx["mark"] = len(fake.wire)
        if not sc["ack"]:
            fake.ack_hook = lambda sent: [] if sent.cmd == "Supervision.Report" else None
        base = loop.time()

        async def wait(k, spec):
            await asyncio.sleep(base + spec["at"] - loop.time())
            node = w.node(*spec["key"])
            try:
                wait_results[k] = (await node.waitForMessage(msggen.cls_of(spec["name"]), timeout=spec["timeout"]), loop.time() - base)
            except asyncio.TimeoutError:
                wait_results[k] = (None, loop.time() - base)

        tasks = [asyncio.ensure_future(wait(k, s)) for k, s in enumerate(sc["waits"])]
        for m in sc["messages"]:
            command = m["command"]
            if m["session"] is not None and supervise:
                if m.get("nested") is not None:
                    command = ("Supervision.Get", dict(statusUpdates=0, sessionID=m["nested"], command=command))
                command = ("Supervision.Get", dict(statusUpdates=m["updates"], sessionID=m["session"], command=command))
            frame_kw = dict(source=m["ep"], dest=0, seq=7, ext=m["ext"])
            if m["via"] == "listener":
                loop.sim_at(base + m["at"], fake._unsolicited, m["node"], codec.zip_packet(command, **frame_kw), None, {})
            else:
                loop.sim_at(base + m["at"], fake._from_node, m["node"], command, frame_kw)
        conn = net.connected(gw.GW_IP)[0]
        for m in sc["gateway"]:
            if m.get("chip") is not None:
                loop.sim_at(base + m["at"], fake._unsolicited, fake.controller, codec.zip_packet(m["command"], source=m["chip"], seq=9), None, {})
                continue
            loop.sim_at(base + m["at"], fake._deliver, conn, codec.zip_packet(m["command"]), None)
        await asyncio.sleep(600)
        await asyncio.gather(*tasks)

    _, loop = sim.run(main)
    errors = sim.settle_errors(loop)
    mon.check(not errors, "loop-exception", "exception in the event loop: %s" % (errors and sim.error_text(errors[0])))
    return calls, ctx["w"].fake.wire[ctx["mark"]:], app_calls, wait_results, ctx["w"]


def model(sc):
    """For every message: dict(known, cc=[listener], node=[listener], handled, consumed=[wait])"""
    pending = {k: dict(w) for k, w in enumerate(sc["waits"])}
    out = []
    for m in sorted(sc["messages"], key=lambda m: m["at"]):
        key = (m["node"], m["ep"])
        r = dict(m=m, known=m["ep"] < len(sc["nodes"][m["node"]]), cc=[], node=[], handled=False, consumed=[], method=None)
        out.append(r)
        if not r["known"]:
            continue
        supported = sc["nodes"][m["node"]][m["ep"]]
        raw = isinstance(m["command"], (bytes, bytearray))
        name = None if raw else m["command"][0]
        cc = m["command"][0] if raw else codec.T[name][0]
        for k, w in list(pending.items()):
            if w["at"] < m["at"] and w["name"] == name and tuple(w["key"]) == key:
                if w["at"] + w["timeout"] > m["at"]:
                    r["consumed"].append(k)
                del pending[k]
        internal = name in INTERNAL and cc in supported
        cc_handled = internal
        if name and cc in supported and not internal:
            r["method"] = handler_name(name)
            for index, spec in enumerate(sc["listeners"]):
                if tuple(spec["key"]) == key and spec["cc"] == cc:
                    r["cc"].append(index)
                    if spec["result"] not in FAILS and spec["result"]:
                        cc_handled = True
        r["handled"] = cc_handled or bool(r["consumed"])
        if not r["handled"]:
            for index, spec in enumerate(sc["listeners"]):
                if tuple(spec["key"]) == key and spec["cc"] is None:
                    r["node"].append(index)
                    if spec["result"] not in FAILS and spec["result"]:
                        r["handled"] = True
    return out


def flags_value(flags):
    """Comparable content of the flags a listener got"""
    if not flags:
        return {}
    return {int(k): [(a[0], int(getattr(v, a[0]))) for a in v.attributes if a[0] != "-"] if hasattr(v, "attributes") else int(v) for k, v in flags.items()}


def flags_problem(m, flags):
    """None, or what is wrong with the flags of a message from the unsolicited listener"""
    want = {}
    for _critical, typ, data in m["ext"] or []:
        if typ == 1:
            want[1] = int.from_bytes(data, "big", signed=True)
        elif typ == 4:
            want[4] = (data[0], data[1] & 1)
    got = {}
    if not isinstance(flags, dict):
        return "header extension %r instead of %r" % (flags, want)
    for typ, value in flags.items():
        if int(typ) in (1, 4):
            got[int(typ)] = int(value) if int(typ) == 1 else (int(value.security2SecurityClass), int(value.crc16))
    return None if got == want else "header extension %r instead of %r" % (got, want)


def same(command, message):
    """None or what differs"""
    if isinstance(command, (bytes, bytearray)):
        want = int.from_bytes(command[:2], "big")
        return None if message.hid() == want else "expected command 0x%04X, got %r" % (want, message)
    return msggen.compare(command[0], command[1], message)
