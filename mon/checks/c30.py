"""C30: inclusion and exclusion run as documented, from the user's decision to the usable node."""
import asyncio

import codec
import devsim
import msggen
import sim
import store
import world

ID = "C30"
LEVEL = "exploration"
RULE = ("histories of 1-6 inclusions (not secure, S0, S2 without and with user input; granted, reduced, denied, failed, aborted), exclusions (of own and foreign nodes, failed, aborted) and removals of failed nodes on networks of 0-4 nodes, "
        "driven by an application written as in docs/inclusion.rst against a reference inclusion automaton; notifications repeated or close together, node list reports before or after the status, other traffic in between. "
        "Non-trivial: distinct (episode, decision, order) sequences")
REQUIRE = {"inclusions": 1500, "key requests answered": 1000, "DSKs answered": 600, "DSK input": 300, "exclusions": 600, "foreign exclusions": 300, "failed nodes removed": 200, "aborted": 200, "nodes added": 1200,
           "nodes removed": 600, "statuses": 2500, "nodes interviewed": 1000, "removed by the node": 200}
ASSUMPTIONS = ["one inclusion or exclusion at a time", "a node list report follows every change of the network"]
NMI = world.NMI
SECURITY = ("none", "s0", "s2", "s2", "s2-input", "s2-input")


def plan(tier):
    return dict(cases=60000, seconds=780) if tier == "thorough" else dict(cases=5000, seconds=240)


def gen(rng, i, tier):
    nodes = rng.sample(range(2, 200), rng.choice((0, 1, 2, 4)))
    devices = {n: store.gen_device(rng) for n in nodes}
    present = list(nodes)
    episodes = []
    for _ in range(rng.choice((1, 2, 3, 6))):
        kind = rng.choice(("include",) * 4 + ("exclude", "exclude", "failed", "foreign", "abort-include", "abort-exclude"))
        e = dict(kind=kind, early=rng.random() < 0.4, gap=rng.choice((0, 0.001, 0.05, 2)), twice=rng.random() < 0.15, noise=rng.random() < 0.3, think=rng.choice((0, 0, 0.5, 20)), latency=rng.choice((0.001, 0.02, 1.5, 7)))
        if kind == "include":
            # ids are reused, too
            node = rng.choice([n for n in range(2, 233) if n not in present] if rng.random() < 0.5 else ([n for n in nodes if n not in present] or [rng.choice([n for n in range(200, 233) if n not in present])]))
            security = rng.choice(SECURITY)
            e.update(node=node, device=store.gen_device(rng), truth_seed=rng.randrange(1 << 30), security=security, requested=rng.choice((0x80, 0x81, 0x83, 0x87, 0x07, 0x04, 0x01)), csa=rng.random() < 0.3,
                     grant=rng.choice(("all", "all", "all", "s0", "none", "first")), dsk=rng.randbytes(16), length=rng.choice((2, 2, 16)) if security == "s2-input" else 0, accept=rng.random() < 0.85,
                     digits=rng.randrange(65536), outcome=rng.choice(("done",) * 5 + ("failed", "security")), tx=rng.choice((0, 2, 0x20, 0x22)))
            if e["outcome"] != "failed":
                present.append(node)
                if node not in nodes:
                    nodes.append(node)
        elif kind in ("exclude", "failed"):
            if not present:
                continue
            e.update(node=rng.choice(present), outcome=rng.choice(("done", "done", "done", "failed", "unknown", "silent")), node_api=rng.random() < 0.5)
            if e["outcome"] == "done":
                present.remove(e["node"])
        episodes.append(e)
    return dict(devices=devices, episodes=episodes)


def execute(sc, mon):
    import random
    import copy

    sc = copy.deepcopy(sc)

    async def main(loop, net):
        from pyzwave.adapter import TxOptions
        from pyzwave.commandclass import NetworkManagementInclusion as inclusion

        w = world.World(loop, mon, sc["devices"])
        await w.start()
        fake, adapter, app = w.fake, w.zip, w.app
        truths = {}
        log = []  # everything the application was told
        told = []  # everything the gateway reported
        decisions = []
        received = []  # the inclusion commands the gateway received
        now = {}
        problems = []

        class Program:
            """As in docs/inclusion.rst"""

            def addNodeStatus(self, _sender, status):
                log.append(("addNodeStatus", status))

            def removeNodeStatus(self, _sender, status):
                log.append(("removeNodeStatus", status))

            def nodeAdded(self, _sender, node):
                log.append(("nodeAdded", node.nodeId))

            def nodesAdded(self, _sender, nodes):
                log.append(("nodesAdded", sorted(n.nodeId for n in nodes)))

            def nodeRemoved(self, _sender, node):
                log.append(("nodeRemoved", node))

            def nodesRemoved(self, _sender, nodes):
                log.append(("nodesRemoved", sorted(nodes)))

            async def messageReceived(self, _sender, message):
                try:
                    return await self.decide(message)
                except Exception as error:
                    problems.append(error)
                    raise

            async def decide(self, message):
                e = now.get("e")
                if isinstance(message, inclusion.NodeAddKeysReport):
                    log.append(("keys", message))
                    await asyncio.sleep(e["think"])
                    if e["grant"] == "none":
                        args = (False, False, 0)
                    elif e["grant"] == "s0":
                        args = (False, True, inclusion.Keys.SECURITY_0_NETWORK_KEY)
                    elif e["grant"] == "first":
                        args = (message.requestCSA, True, inclusion.Keys.UNAUTHENTICATED_SECURITY_CLASS)
                    else:
                        args = (message.requestCSA, True, message.requestedKeys)
                    decisions.append(("NodeAddKeysSet", dict(grantCSA=int(bool(args[0])), accept=int(args[1]), grantedKeys=int(args[2])), await adapter.addNodeKeysSet(*args)))
                    return True
                if isinstance(message, inclusion.NodeAddDSKReport):
                    log.append(("dsk", message))
                    await asyncio.sleep(e["think"])
                    if message.inputDSKLength == 0:
                        args = (e["accept"], 0, b"")
                    else:
                        entered = e["dsk"][:message.inputDSKLength]
                        args = (True, message.inputDSKLength & 15, entered)
                        mon.count("DSK input")
                    decisions.append(("NodeAddDSKSet", dict(accept=int(args[0]), inputDSKLength=args[1], dsk=args[2]), await adapter.addNodeDSKSet(*args)))
                    return True
                log.append(("other", message))
                return False

        app.addListener(Program())

        def tell(delay, name, values, twice=False):
            told.append((name, values))
            fake.inject(delay, net.connected(world.gw.GW_IP)[0], codec.zip_packet((NMI + name, values)))
            if twice:
                told.append((name, values))
                fake.inject(delay + 0.0005, net.connected(world.gw.GW_IP)[0], codec.zip_packet((NMI + name, values)))

        def finish(e, seq):
            """The new node is in"""
            added = e["outcome"] != "failed"
            if added:
                dev = e["device"]
                fake.add_device(e["node"], dev)
                rng = random.Random(e["truth_seed"])
                truths[(e["node"], 0)] = store.gen_truth(rng, dev["cc"])
            d = e["device"]
            status = dict(seqNo=seq, status={"done": 6, "failed": 7, "security": 9}[e["outcome"]], newNodeID=e["node"] if added else 0, nodeInfoLength=len(d["cc"]) + 7 + 1, listening=int(d["listening"]), optFunc=0,
                          basicDeviceClass=d["basic"], genericDeviceClass=d["generic"], specificDeviceClass=d["specific"], commandClass=bytes(list(d["cc"]) + [0x20]))
            at = e["latency"]
            if added and e["early"]:
                fake.push_list(at)
                at += e["gap"]
            tell(at, "NodeAddStatus", status, e["twice"])
            if added and not e["early"]:
                fake.push_list(at + e["gap"])

        def leave(e, seq, status):
            if status == 6 and e.get("node"):
                fake.remove_device(e["node"])
            at = e["latency"]
            if e["early"] and e.get("node") and status == 6:
                fake.push_list(at)
                at += e["gap"]
            told.append(("NodeRemoveStatus", dict(seqNo=seq, status=status, nodeID=e.get("node", 0))))
            fake.inject(at, net.connected(world.gw.GW_IP)[0], codec.zip_packet((NMI + "NodeRemoveStatus", told[-1][1])))
            if not e["early"] and e.get("node") and status == 6:
                fake.push_list(at + e["gap"])

        def service(sent):
            if fake.node_of(sent) is not None or not (sent.cmd or "").startswith(NMI):
                return None
            name, a, e = sent.cmd[len(NMI):], sent.args, now["e"]
            received.append((name, a))
            if name == "NodeAdd" and a["mode"] == 7 and e["kind"] == "include":
                if e["security"] == "none":
                    finish(e, a["seqNo"])
                else:
                    keys = 0x80 if e["security"] == "s0" else e["requested"]
                    tell(e["latency"], "NodeAddKeysReport", dict(seqNo=a["seqNo"], requestCSA=int(e["csa"]), requestedKeys=keys))
            elif name == "NodeAddKeysSet":
                granted = a["grantedKeys"] & 0x07
                if a["accept"] and granted and e["security"].startswith("s2"):
                    tell(e["latency"], "NodeAddDSKReport", dict(seqNo=a["seqNo"], inputDSKLength=min(e["length"], 15), dsk=e["dsk"]))
                else:
                    finish(e, a["seqNo"])
            elif name == "NodeAddDSKSet":
                finish(e, a["seqNo"])
            elif name == "NodeRemove" and a["mode"] == 1 and e["kind"] in ("exclude", "foreign"):
                leave(e, a["seqNo"], 6 if e["kind"] == "foreign" or e["outcome"] == "done" else 7)
            elif name == "FailedNodeRemove":
                done = e["outcome"] == "done"
                if done:
                    fake.remove_device(e["node"])
                    fake.push_list(e["latency"] + e["gap"])
                if e["outcome"] == "silent":
                    return []
                return [(e["latency"], codec.zip_packet((NMI + "FailedNodeRemoveStatus", dict(seqNo=a["seqNo"], status={"done": 1, "failed": 2}.get(e["outcome"], 0), nodeID=e["node"]))))]
            return []

        fake.service_hook = service
        sim_devices = devsim.DevSim(fake, truths, [])
        assert sim_devices
        for n, e in enumerate(sc["episodes"]):
            now["e"] = e
            del log[:], told[:], decisions[:], received[:]
            before = set(app.nodes)
            kind = e["kind"]
            if e["noise"] and before:
                node = sorted(before)[0].split(":")[0]
                for at in (0, 0.01, 1):
                    fake.unsolicited(at, int(node), ("Basic.Report", dict(value=1)))
            want = []
            if kind == "include":
                mon.count("inclusions")
                want = [("NodeAdd", dict(mode=7, txOptions=e["tx"]))]
                mon.check(await adapter.addNode(TxOptions(e["tx"])) is True, "result", "starting the inclusion was acknowledged, but addNode did not return True")
            elif kind in ("exclude", "foreign"):
                mon.count("exclusions" if kind == "exclude" else "foreign exclusions")
                want = [("NodeRemove", dict(mode=1))]
                mon.check(await adapter.removeNode() is True, "result", "starting the exclusion was acknowledged, but removeNode did not return True")
            elif kind == "failed":
                want = [("FailedNodeRemove", dict(nodeID=e["node"]))]
                mon.count("failed nodes removed")
                wanted = {"done": 1, "failed": 2, "silent": 2}.get(e["outcome"], 0)
                if e["node_api"]:
                    objects = [x for x in app.nodes.values() if x.rootNodeId == e["node"]]
                    result = await objects[e["node"] % len(objects)].remove()
                    mon.count("removed by the node")
                    mon.check(result is (wanted == 1), "result", "the gateway reported status %d for the removal of failed node %d, Node.remove() returned %r" % (wanted, e["node"], result))
                else:
                    status = await adapter.removeFailedNode(e["node"])
                    mon.check(int(status) == wanted, "result", "the gateway reported status %d for the removal of failed node %d, the result is %r" % (wanted, e["node"], status))
            else:
                mon.count("aborted")
                add = kind == "abort-include"
                want = [("NodeAdd", dict(mode=7, txOptions=0)), ("NodeAdd", dict(mode=5, txOptions=0))] if add else [("NodeRemove", dict(mode=1)), ("NodeRemove", dict(mode=5))]
                await (adapter.addNode(TxOptions.NULL) if add else adapter.removeNode())
                await asyncio.sleep(e["think"])
                mon.check(await (adapter.addNodeStop() if add else adapter.removeNodeStop()) is True, "result", "stopping was acknowledged, but the result is not True")
            await asyncio.sleep(120)
            if problems:
                raise problems[0]
            judge(mon, n, e, log, told, decisions, received, want)
            # the network as the application sees it
            expected = set()
            for node, dev in fake.devices.items():
                expected.add("%d:0" % node)
                if 0x60 in dev["cc"]:
                    expected |= {"%d:%d" % (node, k + 1) for k in range(len(dev["endpoints"]))}
            mon.check(set(app.nodes) == expected, "wrong-nodes", "after episode %d (%s) the application knows %s, the network is %s" % (n, kind, sorted(app.nodes), sorted(expected)))
            added, removed = expected - before, before - expected
            foreign = kind == "foreign"
            have = [x for k, x in log if k == "nodeAdded"]
            mon.check(sorted(have) == sorted(added), "wrong-announcement", "nodes %s joined, announced: %s" % (sorted(added), have))
            have = [x for k, x in log if k == "nodeRemoved"]
            mon.check(sorted(map(str, have)) == sorted(list(removed) + ["0"] * foreign), "wrong-announcement", "nodes %s left%s, announced: %s" % (sorted(removed), " and a foreign node" if foreign else "", have))
            mon.count("nodes added", len(added))
            mon.count("nodes removed", len(removed))
            if kind == "include" and added:
                node = app.nodes["%d:0" % e["node"]]
                mon.check(sorted(node.supported) == sorted(set(known(e["device"]["cc"]))), "wrong-node", "the new node supports %s, the application has %s" % (sorted(set(e["device"]["cc"])), sorted(node.supported)))
                await node.interview()
                mon.count("nodes interviewed")
                for cc, obj in node.supported.items():
                    if cc != 0x60 and 0x86 in node.supported and cc in truths[(e["node"], 0)]["versions"]:
                        mon.check(int(obj.version) == truths[(e["node"], 0)]["versions"][cc] or cc == 0x86, "not-usable", "class %#x of the new node has version %s, the device reports %s" % (cc, obj.version, truths[(e["node"], 0)]["versions"][cc]))
        mon.seen([(e["kind"], e.get("security"), e.get("grant"), e.get("outcome"), e["early"]) for e in sc["episodes"]])

    _, loop = sim.run(main)
    errors = sim.settle_errors(loop)
    mon.check(not errors, "loop-exception", "exception in the event loop: %s" % (errors and sim.error_text(errors[0])))


def known(ccs):
    return [c for c in ccs if c != 0xEF]


def judge(mon, n, e, log, told, decisions, received, want):
    """What was reported reached the application, what it decided reached the gateway"""
    names = {"NodeAddStatus": "addNodeStatus", "NodeRemoveStatus": "removeNodeStatus", "NodeAddKeysReport": "keys", "NodeAddDSKReport": "dsk"}
    have = [(k, m) for k, m in log if k in names.values() or k == "other"]
    mon.check([k for k, _ in have] == [names[name] for name, _ in told], "notifications", "episode %d (%s): the gateway reported %s, the application was told %s" % (n, e["kind"], told, have))
    for (name, values), (_k, message) in zip(told, have):
        mon.count("statuses")
        bad = msggen.compare(NMI + name, values, message)
        mon.check(bad is None, "notification-differs", "episode %d: %s" % (n, bad))
    for name, args, result in decisions:
        mon.check(result is True, "result", "%s was acknowledged, the result is %r" % (name, result))
        mon.count("key requests answered" if name == "NodeAddKeysSet" else "DSKs answered")
    asked = [name for name, _v in told if name in ("NodeAddKeysReport", "NodeAddDSKReport")]
    mon.check(len(decisions) == len(asked), "decisions", "episode %d: the gateway asked %s, the application could decide %s" % (n, asked, decisions))
    wanted = want + [(name, args) for name, args, _ in decisions]
    have = [(name, {k: v for k, v in a.items() if k != "seqNo"}) for name, a in received]
    mon.check(have == wanted, "decisions", "episode %d (%s): the gateway received %s, the application decided %s" % (n, e["kind"], have, wanted))
    seqs = [a["seqNo"] for _n, a in received]
    mon.check(all(a != b for a, b in zip(seqs, seqs[1:])), "sequence", "consecutive commands carry the same sequence number: %s" % seqs)
