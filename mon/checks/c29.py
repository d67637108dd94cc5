"""C29: a system that went through anything behaves like a new one afterwards (differential)."""
import asyncio
import re

import codec
import devsim
import gw
import sim
import store
import world
import worn

ID = "C29"
LEVEL = "exploration"
RULE = ("a system is worn by 1-5 cycles of hostile operations (see C28), every node leaves and joins again, and then it and a new system on the same network run the same script of 6-25 steps (requests, commands, "
        "gateway queries, interviews, unsolicited commands, mailbox traffic, node list changes, with deterministic losses); results, events, commands sent and what is known about the nodes are compared per step. "
        "Non-trivial: distinct (wearing kinds, script kinds)")
REQUIRE = {"steps compared": 6000, "results compared": 5000, "commands compared": 8000, "events compared": 3000, "wearing operations": 15000, "faults": 5000, "nodes compared": 800}
ASSUMPTIONS = ["connections to nodes may be kept (all are open before the script starts, address lookups are not compared), sequence numbers, times and mailbox notifications are not compared", "what the storage kept is not part of the comparison (no storage is used)"]
EVENTS = ("nodeAdded", "nodesAdded", "nodeRemoved", "nodesRemoved", "messageReceived", "addNodeStatus", "removeNodeStatus")
FAULTS = ("ok", "ok", "ok", "ok", "lost", "unacked", "nack", "dup", "waiting", "slow")


def plan(tier):
    return dict(cases=60000, seconds=780) if tier == "thorough" else dict(cases=1100, seconds=200)


def gen(rng, i, tier):
    devices, truths = worn.gen_network(rng)
    ops = worn.gen_ops(rng, devices, rng.choice((4, 12, 30, 60)))
    if rng.random() < 0.5:
        kinds = set(rng.sample(sorted({o["kind"] for o in ops}), min(3, len({o["kind"] for o in ops}))))
        ops = [o for o in ops if o["kind"] in kinds]
    script = []
    for step in range(rng.choice((6, 12, 25))):
        group = worn.gen_ops(rng, devices, rng.choice((1, 1, 1, 3)))
        group = [dict(o, cancel=None, t=0) for o in group if o["kind"] not in ("refuse", "service", "wait", "outage") and o.get("what") not in ("waiting", "nack")
                 and (o["kind"], o.get("what")) != ("noise", "ack")]
        script.append(dict(group=group, fault=[rng.choice(FAULTS) for _ in range(5)]))
    return dict(devices=devices, truths=truths, ops=ops, cycles=rng.choice((1, 1, 2, 5)), seed=rng.randrange(1 << 30), rate=rng.choice((0.2, 0.5, 1)), script=script)


class Probe(worn.Worn):
    """The script on a system, new or worn"""

    step = None

    def fault(self, sent):
        if self.step is None:
            return super().fault(sent)
        if sent.name != "Zip.ZipPacket" or notification(sent):
            return "ok"
        # determined by what is sent, how often, and in which step
        key = (sent.host, sent.cmd, sent.packet["destEP"])
        if sent.order not in self.faults:
            n = self.asked.get(key, 0)
            self.asked[key] = n + 1
            self.faults[sent.order] = self.step["fault"][(n + len(sent.cmd or "")) % 5]
        return self.faults[sent.order]

    async def run_script(self, script):
        zipgw, app = self.zip, self.app
        out = []
        self.fake.push_list(0, [self.fake.controller])
        await asyncio.sleep(30)
        self.mon.check(not app.nodes, "not-removed", "all nodes left the network, but %s stayed" % sorted(app.nodes))
        self.fake.push_list(0)
        await asyncio.sleep(60)
        for node in sorted(self.devices):
            await zipgw.connectToNode(node)
        self.mail("wake", worn.HANDLES[0], None)
        await asyncio.sleep(10)
        events = self.w.events
        recorders = [self.w.listen(app, "app", EVENTS)]
        listened = {}
        for step in script:
            del events[:]
            for key, node in app.nodes.items():
                if listened.get(key) is not node:
                    listened[key] = node
                    recorders.append(self.w.listen(node, key, ("onMessage", "nodeUpdated")))
                    for cc in node.supported.values():
                        recorders.append(self.w.listen(cc, key, ("report", "commandClassUpdated")))
            self.step, self.asked, self.faults, self.healthy = step, {}, {}, False
            first = len(self.fake.wire)
            tasks = []
            for op in step["group"]:
                before = len(tasks)
                self.begin(op, tasks)
                if len(tasks) == before:
                    tasks.append(None)
            await asyncio.sleep(45.003)
            self.step, self.healthy = None, True
            results = ["nothing" if t is None else result(t) for t in tasks]
            wire = sorted(repr((s.host, s.cmd, {k: v for k, v in s.args.items() if k != "seqNo"}, s.packet["sourceEP"], s.packet["destEP"])) for s in self.fake.wire[first:]
                          if s.name == "Zip.ZipPacket" and s.command and s.cmd is not None and s.transport.remote is not None and not notification(s))
            wire += sorted(repr((s.dest, s.frame)) for s in self.fake.wire[first:] if s.transport.remote is None)
            heard = sorted(repr((tag, event, [plain(a) for a in args])) for _o, _t, tag, event, args in events)
            out.append((results, wire, heard, sorted(app.nodes), sorted(await zipgw.getNodeList()), zipgw.nodeId))
            await asyncio.sleep(60)
        out.append({key: store.snapshot(node) for key, node in app.nodes.items()})
        return out


def notification(sent):
    """A mailbox notification: they come at times of their own, C19 judges them"""
    return sent.cmd == "Mailbox.Queue" and sent.args["operation"] in (2, 3)


def result(task):
    if not task.done():
        return "unfinished"
    if task.cancelled():
        return "cancelled"
    if task.exception() is not None:
        return "raised " + type(task.exception()).__name__
    return plain(task.result())


def plain(value):
    from pyzwave.message import Message

    if isinstance(value, Message):
        return "%s %s" % (type(value).__name__, re.sub(r"seqNo = [^\n]*", "seqNo", value.debugString()))
    if isinstance(value, (list, tuple)):
        return [plain(v) for v in value]
    if isinstance(value, (set, frozenset)):
        return sorted(plain(v) for v in value)
    if value is None or isinstance(value, (bool, int, str, bytes)):
        return repr(value)
    if hasattr(value, "compressed"):
        return value.compressed
    if hasattr(value, "nodeId"):
        return "node %s" % value.nodeId
    return type(value).__name__


def execute(sc, mon):
    import copy

    outcome = []
    for worn_out in (False, True):
        case = copy.deepcopy(sc)

        async def main(loop, net):
            system = Probe(loop, mon, case["devices"], case["truths"], fault_rate=case["rate"])
            await system.start()
            if worn_out:
                for _ in range(case["cycles"]):
                    await system.one_cycle(case["ops"], case["seed"])
                    mon.count("wearing operations", len(case["ops"]))
                    mon.count("faults", len([f for f in system.faults.values() if f != "ok"]))
            return await system.run_script(case["script"])

        outcome.append(sim.run(main)[0])
    new, old = outcome
    for n, (a, b) in enumerate(zip(new[:-1], old[:-1])):
        mon.count("steps compared")
        what = [(o["kind"], o.get("what")) for o in sc["script"][n]["group"]]
        for name, x, y in zip(("results", "commands", "events", "known nodes", "node list", "controller"), a, b):
            mon.check(x == y, "differs", "after %d cycles of traffic the %s of step %d %s differ from those of a new system: %s" % (sc["cycles"], name, n, what, first_difference(y, x)))
            if isinstance(x, list):
                mon.count(name + " compared", len(x))
    mon.count("nodes compared", len(new[-1]))
    mon.check(set(new[-1]) == set(old[-1]), "differs", "other nodes are known than to a new system: %s" % sorted(old[-1]))
    for key in new[-1]:
        d = store.difference(new[-1][key], old[-1][key])
        mon.check(d is None, "differs", "after %d cycles of traffic something else is known about node %s than to a new system: %s" % (sc["cycles"], key, d))
    mon.seen(sorted({o["kind"] for o in sc["ops"]}), [sorted({o["kind"] + str(o.get("what")) for o in s["group"]}) for s in sc["script"]][:6])


def first_difference(have, want):
    if isinstance(have, list) and isinstance(want, list):
        extra = [x for x in have if x not in want]
        missing = [x for x in want if x not in have]
        if extra or missing:
            return "unexpected %s, missing %s" % (str(extra[:3])[:400], str(missing[:3])[:400])
    return "%s instead of %s" % (str(have)[:400], str(want)[:400])


__all__ = ["codec", "devsim", "gw", "world"]
