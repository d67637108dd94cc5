"""
Long-running systems (C28, C29): the same cycle of hostile traffic and failing, cancelled and completed
operations is run over and over on one World, with quiet periods in between.

A cycle is a list of ops (t, kind, parameters...). Faults of the network are drawn from a generator
that is seeded the same for every cycle, so that cycles differ only in what the code under test kept.
"""
import asyncio
import collections
import gc
import inspect
import random
import sys

import codec
import devsim
import gw
import sim
import store
import world

PROXY = 1
HANDLES = (0, 1, 7, 255)
REQUESTS = {  # kind -> (request, reply) to devices
    "version": ("Version.VersionGet", "Version.VersionReport", {}),
    "ccversion": ("Version.VersionCommandClassGet", "Version.VersionCommandClassReport", dict(requestedCommandClass=0x85)),
    "man": ("ManufacturerSpecific.Get", "ManufacturerSpecific.Report", {}),
    "plus": ("ZwavePlusInfo.Get", "ZwavePlusInfo.Report", {}),
}
QUERIES = ("getNodeInfo", "getMultiChannelEndPoints", "getMultiChannelCapability", "getFailedNodeList", "addNode", "addNodeStop", "addNodeDSKSet", "addNodeKeysSet", "removeNode", "removeNodeStop",
           "removeFailedNode", "ipOfNode", "setGatewayMode", "getNodeList", "connectToNode")
KINDS = ("request",) * 5 + ("send",) * 3 + ("query",) * 5 + ("unsolicited",) * 4 + ("noise",) * 4 + ("list",) * 3 + ("interview",) * 2 + ("mail",) * 4 + ("lock", "service", "refuse", "adapter", "wait", "outage")
FAULTS = ("lost", "unacked", "nack", "late", "dup", "trunc", "waiting", "slow", "early", "silent-wait")


def gen_network(rng):
    devices, truths = {}, {}
    for node in rng.sample(range(2, 233), rng.choice((2, 3, 4))):
        dev = store.gen_device(rng)
        for cc in (0x86, 0x72, 0x5E):
            if cc not in dev["cc"]:
                dev["cc"].append(cc)
        devices[node] = dev
        truths[(node, 0)] = store.gen_truth(rng, dev["cc"])
        for k, ep in enumerate(dev["endpoints"]):
            truths[(node, k + 1)] = store.gen_truth(rng, ep["cc"])
    return devices, truths


def gen_ops(rng, devices, count):
    nodes = sorted(devices)
    ops = []
    for _ in range(count):
        kind = rng.choice(KINDS)
        op = dict(t=round(rng.choice((0, 0.5, 2, 5, rng.random() * 20)), 3), kind=kind, node=rng.choice(nodes), ep=0, n=rng.randrange(1 << 20), cancel=rng.choice((None, None, None, 0, 0.005, 0.3, 2.9, 3, 20)))
        if devices[op["node"]]["endpoints"] and rng.random() < 0.4:
            op["ep"] = rng.randint(1, len(devices[op["node"]]["endpoints"]))
        if kind == "request":
            op.update(what=rng.choice(sorted(REQUESTS)), timeout=rng.choice((0.02, 1, 3, 3, 10)))
        elif kind == "query":
            op.update(what=rng.choice(QUERIES), other=rng.choice(nodes + [rng.randint(1, 232)]))
        elif kind == "send":
            op.update(node=rng.choice(nodes + nodes + [rng.randint(1, 232)]), raw=rng.random() < 0.4)
        elif kind == "unsolicited":
            op.update(what=rng.choice(("report", "supervised", "stranger", "stranger", "acked", "own")))
        elif kind == "noise":
            op.update(what=rng.choice(("garbage", "ack", "waiting", "nack", "report", "advert", "late-report", "status")), where=rng.choice(("gateway", "node", "listener")))
        elif kind == "list":
            op.update(nodes=sorted(n for n in nodes if rng.random() < 0.5), back=rng.choice((0.001, 0.5, 3, 8)))
        elif kind == "mail":
            op.update(what=rng.choice(("push", "push", "push", "wake", "ack")), handle=rng.choice(HANDLES), entry=bytes([rng.randrange(3)]) * rng.choice((1, 2, 30)))
        elif kind == "service":
            op.update(what=rng.choice(("interview", "get", "supported")))
        elif kind == "refuse":
            op.update(other=rng.choice(nodes + [PROXY, rng.randint(1, 232)]), length=rng.choice((0.5, 5)))
        elif kind == "outage":
            op.update(other=rng.choice(nodes + [0, 0, PROXY]), length=rng.choice((5, 30)), burst=rng.choice((0, 3, 20)))
        ops.append(op)
    return sorted(ops, key=lambda o: o["t"])


class Worn:
    """A World that is worn by cycles of ops"""

    def __init__(self, loop, mon, devices, truths, storage=None, mailbox=True, fault_rate=0.4):
        self.loop, self.mon = loop, mon
        self.devices, self.truths, self.fault_rate = devices, truths, fault_rate
        self.w = world.World(loop, mon, devices, storage=storage)
        self.fake, self.zip, self.app = self.w.fake, self.w.zip, self.w.app
        self.box = None
        if mailbox:
            from pyzwave.mailbox import MailboxService

            self.box = MailboxService(self.zip)
        self.healthy = True
        self.rng = random.Random(0)
        self.faults = {}
        self.strangers = 0
        self.refused = set()
        self.dead = set()
        self.cycle = 0
        self.pops = collections.Counter()
        self.failed = []  # unexpected exceptions of ops
        self.fake.ack_hook = self.on_ack
        self.fake.device_hook = self.on_device
        self.fake.service_hook = self.on_service
        self.fake.solicit_hook = self.on_solicit
        loop.net.fail_connect = None

    # -- the network --------------------------------------------------------------
    def fault(self, sent):
        if self.healthy:
            return "ok"
        if sent.host in self.dead:
            return "dead"
        if sent.order not in self.faults:
            self.faults[sent.order] = self.rng.choice(FAULTS) if self.rng.random() < self.fault_rate else "ok"
        return self.faults[sent.order]

    def on_ack(self, sent):
        fault = self.fault(sent)
        if fault in ("unacked", "dead"):
            return []
        if fault == "nack":
            return [(0.01, codec.zip_packet(None, seq=sent.seq, nackResponse=1))]
        if fault == "waiting":
            return [(0.01, codec.zip_waiting(sent.seq, 20)), (15, codec.zip_ack(sent.seq))]
        if fault == "silent-wait":
            return [(0.01, codec.zip_waiting(sent.seq, 5))]
        if fault == "slow":
            return [(2.5, codec.zip_ack(sent.seq))]
        return [(0.01, codec.zip_ack(sent.seq))]

    def shape(self, fault, frames):
        """Delays for the complete reply"""
        if fault in ("lost", "nack", "silent-wait", "dead"):
            return []
        base = {"late": 4.2, "unacked": 0.5, "waiting": 15.1, "slow": 2.6, "early": 0.002}.get(fault, 0.02)
        if fault == "trunc":
            frames = [f[:max(2, len(f) // 2)] for f in frames]
        out = [(base + 0.003 * i, f) for i, f in enumerate(frames)]
        if fault == "dup":
            out += [(base + 0.3 + 0.003 * i, f) for i, f in enumerate(frames)]
        return out

    def on_service(self, sent):
        if self.fake.node_of(sent) not in (None, self.fake.controller):
            return None
        reply = self.fake.network(sent)
        if sent.cmd == world.NMI + "FailedNodeRemove":
            reply = (world.NMI + "FailedNodeRemoveStatus", dict(seqNo=sent.args["seqNo"], status=1, nodeID=sent.args["nodeID"]))
        if reply is None:
            return []
        fault = self.fault(sent)
        return [(d, codec.zip_packet(f)) for d, f in self.shape(fault, [codec.encode(*reply)])]

    def on_device(self, node, sent):
        fault = self.fault(sent)
        truth = self.truths.get((node, sent.packet["destEP"]))
        if truth is None or sent.cmd not in devsim.REPLY:
            return []
        replies = devsim.answer(truth, sent.cmd, sent.args)
        frames = [codec.encode(devsim.REPLY[sent.cmd], v) for v in replies]
        return [(d, codec.zip_packet(f, source=sent.packet["destEP"])) for d, f in self.shape(fault, frames)]

    def on_solicit(self, node, sent):
        if self.healthy or node not in self.fake.nodes:
            return None
        fault = self.fault(sent)
        ad = codec.advertisement(node, self.fake.nodes[node])
        if fault in ("lost", "unacked", "nack", "dead"):
            return []
        return [({"late": 3.4, "slow": 2.9}.get(fault, 0.01), ad)] + ([(0.5, ad)] if fault == "dup" else [])

    # -- ops ----------------------------------------------------------------------
    async def start(self):
        await self.w.start()
        await asyncio.sleep(5)

    async def one_cycle(self, ops, seed):
        self.cycle += 1
        self.rng = random.Random(seed)
        self.faults = {}
        self.healthy = False
        tasks = []
        start = self.loop.time()
        for op in ops:
            self.loop.sim_at(start + op["t"], self.begin, op, tasks)
        await asyncio.sleep(30.0007)
        self.healthy = True
        self.refused.clear()
        self.dead.clear()
        self.loop.net.fail_connect = None
        # the whole network is there again; what waited for sleeping nodes is over after at most 65 + 2.9 seconds
        self.fake.push_list(0)
        await asyncio.sleep(400)
        for task in tasks:
            if task.done() and not task.cancelled() and task.exception() is not None:
                raise task.exception()
            if not task.done():
                self.mon.fail("never-ends", "an operation did not end within 400 seconds after the network had recovered: %s" % task.get_coro())
        if self.box:
            await self.drain()
        await asyncio.sleep(100)
        gc.collect()
        errors = self.loop.errors
        self.mon.check(not errors, "loop-exception", "exception in the event loop: %s" % (errors and sim.error_text(errors[0])))

    async def drain(self):
        for handle in HANDLES:
            self.mail("wake", handle, None)
            await asyncio.sleep(0.5)
            for _ in range(30):
                last = [s for s in self.fake.sent_commands("Mailbox.Queue") if s.args["operation"] == 1 and s.args["queueHandle"] == handle]
                if last and last[-1].args["last"] and not last[-1].args["mailboxEntry"]:
                    break
                self.mail("ack", handle, None)
                await asyncio.sleep(0.5)

    def mail(self, what, handle, entry):
        if what == "wake":
            command = ("Mailbox.WakeupNotification", dict(queueHandle=handle))
        else:
            command = ("Mailbox.Queue", dict(last=0, operation=0 if what == "push" else 4, queueHandle=handle, mailboxEntry=entry or b""))
        self.fake.unsolicited(0, PROXY, command)

    def begin(self, op, tasks):
        self.mon.count("operations")
        coro = getattr(self, "op_" + op["kind"])(op)
        if coro is None:
            return
        task = asyncio.ensure_future(self.guard(coro))
        tasks.append(task)
        if op["cancel"] is not None:
            self.mon.count("cancellations")
            self.loop.sim_at(self.loop.time() + op["cancel"], task.cancel)

    async def guard(self, coro):
        try:
            return await coro
        except (asyncio.TimeoutError, OSError):
            return None
        except Exception:  # pylint: disable=broad-except
            # what a caller gets to see for a damaged reply is not judged here
            self.mon.count("operations that raised")
            return None

    def node(self, op):
        return self.app.nodes.get("%d:%d" % (op["node"], op["ep"]))

    def op_request(self, op):
        node = self.node(op)
        if node is None:
            return None
        request, reply, values = REQUESTS[op["what"]]
        return node.sendAndReceive(cls(request)(**values), cls(reply), timeout=op["timeout"])

    def op_send(self, op):
        node = self.node(op)
        command = cls("Basic.Set")(value=op["n"] & 0xFF)
        if node is not None and not op["raw"]:
            return node.send(command)
        return self.zip.sendToNode(op["node"], command)

    def op_adapter(self, op):
        return self.zip.sendAndReceive(cls("ZipGateway.GatewayModeGet")(), cls("ZipGateway.GatewayModeReport"), timeout=1)

    def op_wait(self, op):
        return self.zip.waitForMessage(cls("Version.VersionReport"), timeout=4)

    def op_query(self, op):
        from pyzwave.adapter import TxOptions
        from pyzwave.commandclass import NetworkManagementInclusion as NMI
        from pyzwave.types import dsk_t

        what, zipgw = op["what"], self.zip
        args = dict(getMultiChannelCapability=(op["other"], 1), getFailedNodeList=(), addNode=(TxOptions.NULL,), addNodeStop=(), removeNode=(), removeNodeStop=(), setGatewayMode=(1,), getNodeList=(),
                    addNodeDSKSet=(True, 0, dsk_t(b"")), addNodeKeysSet=(False, True, NMI.Keys(0))).get(what, (op["other"],))
        return getattr(zipgw, what)(*args)

    def op_service(self, op):
        node = self.node(op)
        if node is None:
            return None
        if op["what"] == "supported" and 0x31 in node.supported:
            return None
        if op["what"] == "get" and 0x70 in node.supported:
            return self.config(node, op["n"] & 0xFF)
        return node.interview()

    async def config(self, node, parameter):
        cc = node.supported[0x70]
        await cc.interview()
        return await cc.get(parameter)

    def op_interview(self, op):
        node = self.node(op)
        return None if node is None else node.interview()

    def op_lock(self, op):
        node = self.node(op)

        async def locked():
            with node.storageLock():
                await node.sendAndReceive(cls("Version.VersionGet")(), cls("Version.VersionReport"))
                if op["n"] & 1:
                    raise OSError("application error")

        return None if node is None else locked()

    def op_list(self, op):
        self.fake.push_list(0, [self.fake.controller] + op["nodes"])
        self.fake.push_list(op["back"])

    def op_mail(self, op):
        self.mail(op["what"], op["handle"], op["entry"])

    def op_outage(self, op):
        """A node (0: the gateway) answers nothing for a while"""
        host = gw.GW_IP if op["other"] == 0 else gw.ip_text(gw.node_ip(op["other"]))
        self.dead.add(host)
        self.loop.sim_at(self.loop.time() + op["length"], self.dead.discard, host)

        async def burst():
            sends = [self.guard(self.zip.send(cls("Basic.Get")()) if op["other"] == 0 else self.zip.sendToNode(op["other"], cls("Basic.Get")())) for _ in range(op["burst"])]
            await asyncio.gather(*sends)

        return burst()

    def op_refuse(self, op):
        host = gw.ip_text(gw.node_ip(op["other"]))
        self.refused.add(host)

        async def endpoint(*args, **kwargs):
            remote = kwargs.get("remote_addr")
            if remote and remote[0] in self.refused:
                raise OSError("refused")
            return await type(self.loop).create_datagram_endpoint(self.loop, *args, **kwargs)

        self.loop.create_datagram_endpoint = endpoint
        self.loop.sim_at(self.loop.time() + op["length"], self.refused.discard, host)

    def op_unsolicited(self, op):
        node, what, n = op["node"], op["what"], op["n"]
        fake = self.fake
        report = ("Basic.Report", dict(value=n & 0xFF))
        if what == "stranger":
            self.strangers += 1
            fake.unsolicited(0, node, (report, ("Version.VersionReport", {k: 1 for k in ("zwaveLibraryType", "zwaveProtocolVersion", "zwaveProtocolSubVersion", "applicationVersion", "applicationSubVersion")}))[n & 1],
                             source=(gw.ip_text(gw.node_ip(node) + (self.strangers << 20) + 17), 4123, 0, 0), ackRequest=n & 2 and 1)
        elif what == "supervised":
            fake.unsolicited(0, node, ("Supervision.Get", dict(statusUpdates=0, sessionID=n & 63, command=report)))
        elif what == "own":
            fake.unsolicited(0, PROXY, report)
        elif what == "acked":
            fake.unsolicited(0, node, codec.zip_packet(report, ackRequest=1, seq=n & 255))
        else:
            fake.unsolicited(0, node, codec.zip_packet(report, source=op["ep"]))

    def op_noise(self, op):
        n, what = op["n"], op["what"]
        frame = dict(garbage=bytes((n * k + 7) & 0xFF for k in range(n % 40 + 1)), ack=codec.zip_ack(n & 255), waiting=codec.zip_waiting(n & 255, 5), nack=codec.zip_packet(None, seq=n & 255, nackResponse=1),
                     report=codec.zip_packet(("Basic.Report", dict(value=n & 255))), advert=codec.advertisement(n % 232 + 1, gw.node_ip(n % 232 + 1)),
                     status=codec.zip_packet((world.NMI + "NodeRemoveStatus", dict(seqNo=n & 255, status=6, nodeID=n % 233))))
        frame["late-report"] = codec.zip_packet(("ZipGateway.GatewayModeReport", dict(mode=1)))
        data = frame[what]
        if op["where"] == "listener":
            for transport in self.loop.net.listeners():
                self.fake.inject(0, transport, data, (gw.ip_text(gw.node_ip(op["node"])), 4123, 0, 0))
            return
        host = gw.GW_IP if op["where"] == "gateway" else gw.ip_text(gw.node_ip(op["node"]))
        for transport in self.loop.net.connected(host):
            self.fake.inject(0, transport, data)


def cls(name):
    import msggen

    return msggen.cls_of(name)


# -- measuring -------------------------------------------------------------------------------------
PRIMITIVES = (asyncio.Future, asyncio.Event, asyncio.Lock, asyncio.Condition, asyncio.Semaphore, asyncio.Queue)
CONTAINERS = (dict, list, set, frozenset, tuple, collections.deque, bytearray)


def ours(obj):
    return str(getattr(type(obj), "__module__", "")).split(".")[0] == "pyzwave"


def measure(loop, roots):
    """{what: amount} of everything that may pile up"""
    gc.collect()
    out = collections.Counter()
    out["tasks"] = len([t for t in asyncio.all_tasks(loop) if not t.done()])
    out["timers"] = len([h for h in loop._scheduled if not h.cancelled()])
    out["open endpoints"] = len([t for t in loop.net.transports if not t.closed])
    for obj in gc.get_objects():
        if ours(obj):
            out["alive %s objects" % type(obj).__name__] += 1
        elif isinstance(obj, PRIMITIVES):
            out["alive %s" % type(obj).__name__] += 1
    seen = set()
    stack = list(roots)
    for name, module in list(sys.modules.items()):
        if name.split(".")[0] == "pyzwave" and module is not None and not name.endswith("ZW_classcmd"):
            for value in list(vars(module).values()):
                if isinstance(value, CONTAINERS):
                    stack.append(value)
                elif inspect.isclass(value) and str(getattr(value, "__module__", "")).split(".")[0] == "pyzwave":
                    stack.extend(v for v in list(vars(value).values()) if isinstance(v, CONTAINERS))
    total = 0
    while stack:
        obj = stack.pop()
        if id(obj) in seen:
            continue
        seen.add(id(obj))
        if isinstance(obj, dict):
            total += len(obj)
            stack.extend(obj.keys())
            stack.extend(obj.values())
        elif isinstance(obj, (bytearray, bytes, str)):
            total += len(obj) // 1024
        elif isinstance(obj, CONTAINERS):
            total += len(obj)
            stack.extend(obj)
        elif ours(obj) and not inspect.isclass(obj):
            stack.extend(getattr(obj, "__dict__", {}).values())
            if isinstance(obj, CONTAINERS):
                total += len(obj)
        elif isinstance(obj, PRIMITIVES) and hasattr(obj, "__dict__"):
            stack.extend(obj.__dict__.values())
    out["entries kept"] = total
    return out
