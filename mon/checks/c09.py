"""C09: the node registry follows the gateway's node list, every change announced exactly once."""
import asyncio

import codec
import gw
import sim
import world

ID = "C09"
LEVEL = "exploration"
RULE = ("histories of 1-8 phases, each a burst of 1-6 node list reports (overlapping: within one loop turn up to seconds apart) followed by quiet; reports during connecting and startup; address lookups "
        "and node information answered at once, late, out of order or never; nodes with and without endpoints; slow, raising and plain listeners; the controller with any id, listed or not. "
        "Non-trivial: distinct (phase pattern, number of changes, losses) combinations")
REQUIRE = {"reports": 2000, "overlapping reports": 800, "phases judged": 700, "added": 1500, "removed": 700, "lost answers": 200, "controller changes": 20, "empty lists": 20, "reports before startup": 20, "reports during startup": 20}
ASSUMPTIONS = ["reports that overlap may be coalesced: a node that came and went between two quiet moments may be announced or not",
               "a device keeps its endpoints while its id is in use"]


def plan(tier):
    return dict(cases=60000, seconds=780) if tier == "thorough" else dict(cases=4500, seconds=200)


def gen(rng, i, tier):
    controller = rng.choice((1, 1, 1, 5, 232))
    pool = rng.sample([n for n in range(1, 233) if n != controller], rng.randint(2, 8))
    many = rng.random() < 0.03
    if many:
        pool = rng.sample([n for n in range(1, 233) if n != controller], rng.choice((40, 80, 130, 231)))
    shapes = {n: (rng.random() < 0.3 and rng.randint(0, 4) or 0) for n in pool}
    faults = 0 if many else rng.choice((0, 0, 0.15, 0.4))

    def some():
        r = rng.random()
        if r < 0.07:
            return []
        if r < (0.5 if many else 0.15):
            return list(pool)
        return [n for n in pool if rng.random() < 0.55]

    current = some()
    first = list(current)
    phases = []
    for _ in range(rng.randint(1, 3 if many else 8)):
        burst = []
        gap = rng.choice((0, 0.0005, 0.02, 0.02, 1, 3.05))
        t = 0
        for _ in range(rng.choice((1, 1, 2) if many else (1, 1, 2, 3, 6))):
            if rng.random() < 0.6:
                # small change
                target = list(current)
                n = rng.choice(pool)
                target.remove(n) if n in target else target.append(n)
            else:
                target = some()
            current = target
            burst.append((t, list(target)))
            t += rng.choice((0, gap, gap * rng.random()))
        phases.append(burst)
    swap = [rng.choice(pool) if rng.random() < 0.3 else controller for _ in phases] if rng.random() < 0.12 else None
    latency = rng.choice((0, 0.001, 0.01)) if many else rng.choice((0, 0.001, 0.01, 0.5))
    return dict(idle=rng.random() < 0.005, absent=rng.random() < 0.12, swap=swap, controller=controller, pool=pool, shapes=shapes, first=first, phases=phases, faults=faults, seed=rng.randrange(1 << 30),
                early=rng.random() < 0.15, during=rng.random() < 0.3, listener=rng.choice(("plain", "plain", "slow", "raising")), slow=rng.choice((0, 0.01) if many else (0, 0.01, 2)),
                latency=latency)


def execute(sc, mon):
    import random

    rng = random.Random(sc["seed"])
    ctr = sc["controller"]
    roles = dict(now=ctr)
    log = []
    lost_info = set()

    async def main(loop, net):
        nonlocal ctr

        def dev(n):
            k = sc["shapes"][n]
            return world.device([0x60, 0x86] if k else [0x86], endpoints=[dict(cc=[0x25], generic=1, specific=1)] * k)

        reported = []
        fake = world.NetworkGateway(loop, mon, {n: dev(n) for n in sc["pool"]}, controller=ctr, latency=sc["latency"])
        now = set(sc["first"])
        fake.node_list = lambda: sorted({roles["now"], *now} if not sc["absent"] else now)
        calm = dict(v=False)

        def faulty(sent_key):
            """None: default answer; otherwise a delay, -1 = lost"""
            if calm["v"] or rng.random() >= sc["faults"]:
                return rng.choice((None, None, rng.uniform(0, 0.05)))
            mon.count("lost answers")
            return -1 if rng.random() < 0.7 else rng.uniform(3.1, 9)

        def solicit(node, _sent):
            f = faulty(node)
            if f is None:
                return None
            if f < 0:
                return []
            return [(f, codec.advertisement(node, gw.node_ip(node), fake.home))]

        def answer(sent):
            # (what the gateway answers is its list at that moment: never an older one than it has reported before)
            mon.count("lists requested")
            reported.append(sorted(now))
            fake._deliver(net.connected(gw.GW_IP)[0], codec.zip_packet(fake.report_list(seq=sent.args["seqNo"])), None)

        def service(sent):
            if sent.cmd == "NetworkManagementProxy.NodeListGet":
                loop.sim_at(loop.time() + sc["latency"], answer, sent)
                return []
            if sent.cmd in ("NetworkManagementProxy.NodeInfoCachedGet", "NetworkManagementProxy.MultiChannelEndPointGet", "NetworkManagementProxy.MultiChannelCapabilityGet"):
                f = faulty(sent.cmd)
                if f is None:
                    return None
                if f < 0 or f > 2.9:  # (answers to timed out requests are judged by C23)
                    lost_info.add(sent.args["nodeID"])
                    f = -1
                reply = fake.network(sent)
                return [] if f < 0 else [(f, codec.zip_packet(reply))]
            return None

        fake.solicit_hook, fake.service_hook = solicit, service
        w = world.World(loop, mon, {}, fake=fake)

        class Plain:
            def nodeAdded(self, _s, node):
                log.append(("added", node.nodeId, loop.time()))
                w.announced[node.nodeId] = node

            def nodesAdded(self, _s, nodes):
                log.append(("added+", tuple(n.nodeId for n in nodes), loop.time()))

            def nodeRemoved(self, _s, node):
                log.append(("removed", node, loop.time()))

            def nodesRemoved(self, _s, nodes):
                log.append(("removed+", tuple(nodes), loop.time()))

        class Other:
            async def nodeAdded(self, _s, node):
                await asyncio.sleep(sc["slow"])
                if sc["listener"] == "raising":
                    raise RuntimeError("listener")

            def nodesAdded(self, _s, nodes):
                if sc["listener"] == "raising":
                    raise RuntimeError("listener")

            async def nodeRemoved(self, _s, node):
                await asyncio.sleep(sc["slow"])
                if sc["listener"] == "raising":
                    raise ValueError("listener")

        if sc["listener"] != "plain":
            w.app.addListener(Other())
        w.announced = {}
        w.app.addListener(Plain())

        def report(nodes):
            now.clear()
            now.update(nodes)
            mon.count("reports")
            reported.append(list(nodes))
            if net.listeners():
                if not nodes and sc["absent"]:
                    mon.count("empty lists")
                fake._push_list(sorted(set(nodes) if sc["absent"] else {roles["now"], *nodes}))

        early = False
        if sc["early"]:
            calm["v"] = True
            await w.zip.connect()
            mon.count("reports before startup")
            report(sc["phases"][0][0][1])
            early = True
            await asyncio.sleep(rng.choice((0, 0.001, 0.03, 5)))
            calm["v"] = False
            await w.app.startup()
        else:
            calm["v"] = True  # what a gateway that does not answer does to connect() is judged by C24
            await w.zip.connect()
            calm["v"] = False
            if sc["during"]:
                for d, target in sc["phases"][0]:
                    mon.count("reports during startup")
                    loop.sim_at(loop.time() + rng.choice((1e-6, 0.001, 0.02)) + d, report, target)
                    early = True
            await w.app.startup()
        await settle()
        judge_phase(sc, mon, log, [], set(), [sc["first"]] + reported, w, lost_info, set(now), ctr, early=True)
        mark = len(log)
        before = set(now) - {ctr}
        phases = sc["phases"][1:] if early else sc["phases"]
        for number, burst in enumerate(phases):
            if sc["swap"] and sc["swap"][number] != ctr:
                mon.count("controller changes")
                before.discard(ctr)
                ctr = roles["now"] = fake.controller = sc["swap"][number]
            base = loop.time()
            for t, target in burst:
                loop.sim_at(base + t, report, target)
            mon.count("overlapping reports", len(burst) - 1)
            reported.clear()
            await asyncio.sleep(burst[-1][0])
            await settle()
            judge_phase(sc, mon, log, log[:mark], before, list(reported), w, lost_info, set(now), ctr)
            mark = len(log)
            before = set(now) - {ctr}

    async def settle():
        await asyncio.sleep(90000 if sc["idle"] else 600)

    _, loop = sim.run(main)
    errors = sim.settle_errors(loop)
    mon.check(not errors, "loop-exception", "exception in the event loop: %s" % (errors and sim.error_text(errors[0])))


def judge_phase(sc, mon, log, old, before, lists, w, lost_info, last, ctr, early=False):
    new = log[len(old):]
    mon.count("phases judged")
    lists = [set(x) - {ctr} for x in lists]
    final = lists[-1]
    assert final == last - {ctr}, (final, last)
    keys = set(w.app.nodes)
    roots = {int(k.split(":")[0]) for k in keys if k.endswith(":0")}
    mon.check(roots == final, "registry-differs", "the nodes are %s, the last reported list is %s (reports %s, before %s)" % (
        sorted(roots), sorted(final), [sorted(x) for x in lists], sorted(before)))
    for k in keys:
        root, ep = map(int, k.split(":"))
        mon.check(root in final, "registry-differs", "%s is in the registry, its node %d is not in the list" % (k, root))
        mon.check(w.app.nodes[k].nodeId == k and w.app.nodes[k].rootNodeId == root, "registry-differs", "nodes[%r] is %r" % (k, w.app.nodes[k].nodeId))
    for root in final:
        if root in lost_info:
            continue
        eps = {int(k.split(":")[1]) for k in keys if k.startswith("%d:" % root)}
        mon.check(eps == set(range(sc["shapes"][root] + 1)), "endpoints-differ", "node %d has %d endpoints, in the registry are %s" % (root, sc["shapes"][root], sorted(eps)))
    # announcements alternate, batch and single agree
    for single, batch in (("added", "added+"), ("removed", "removed+")):
        a = [n for kind, n, _t in log if kind == single]
        b = [n for kind, ns, _t in log if kind == batch for n in ns]
        mon.check(sorted(map(str, a)) == sorted(map(str, b)), "batch-differs", "%s announced one by one: %s, in batches: %s" % (single, a, b))
    state = {}
    for kind, n, _t in log:
        if kind not in ("added", "removed"):
            continue
        mon.check(state.get(n, "removed") != kind, "announced-twice", "node %s was announced as %s twice in a row: %s" % (n, kind, [x[:2] for x in log if x[1] == n]))
        state[n] = kind
    present = {n for n, kind in state.items() if kind == "added"}
    mon.check(present == keys, "announcements-differ", "announced as present: %s, in the registry: %s" % (sorted(present), sorted(keys)))
    for k in keys:
        mon.check(w.app.nodes[k] is w.announced[k], "another-node", "the registry holds another node object for %s than the one that was announced (and may be listened to)" % k)
    counts = {}
    for kind, n, _t in new:
        if kind in ("added", "removed"):
            mon.count(kind)
            root = int(str(n).split(":")[0])
            counts[kind, n] = counts.get((kind, n), 0) + 1
    for (kind, n), c in counts.items():
        root = int(str(n).split(":")[0])
        seq = [root in before] + [root in x for x in lists]
        if early:
            seq = [False] + [root in x for x in lists]
        changes = sum(1 for x, y in zip(seq, seq[1:]) if x != y and y == (kind == "added"))
        mon.check(c <= changes, "announced-too-often", "%s was announced as %s %d times, reported so %d times (present: %s)" % (n, kind, c, changes, seq))
    mon.seen(len(lists), len(counts), bool(lost_info), len(final), sc["listener"], early)
