"""C28: nothing is left behind; the same cycle of traffic and operations over and over."""
import random
import shutil
import tempfile

import sim
import worn

ID = "C28"
LEVEL = "exploration"
RULE = ("cycles of 5-60 operations (requests and commands to nodes and end points, gateway queries, lookups, interviews, storage locks, mailbox traffic, node list changes, unsolicited commands of nodes and strangers, "
        "garbage on every connection, refused connections; completed, timed out, lost, negatively acknowledged, delayed, duplicated, truncated or cancelled at any point) repeated 9 times with quiet periods; "
        "at quiet moments after cycles 3, 6 and 9 tasks, timers, endpoints, living objects and everything kept in collections are counted. Non-trivial: distinct sets of operations and faults")
REQUIRE = {"cycles": 1200, "operations": 20000, "cancellations": 6000, "faults": 8000, "strangers": 1000}
ASSUMPTIONS = ["pending work is over 400 seconds after the network has recovered", "something kept per node, address of a known node or mailbox queue is bounded and no leak",
               "growth of less than one item per cycle is not judged"]
CYCLES = 9


def plan(tier):
    return dict(cases=60000, seconds=780) if tier == "thorough" else dict(cases=700, seconds=200)


def gen(rng, i, tier):
    devices, truths = worn.gen_network(rng)
    ops = worn.gen_ops(rng, devices, rng.choice((5, 12, 25, 60)))
    if rng.random() < 0.5:
        # concentrate on a few kinds of operations
        kinds = set(rng.sample(sorted({o["kind"] for o in ops}), min(2, len({o["kind"] for o in ops}))))
        ops = [o for o in ops if o["kind"] in kinds]
    return dict(devices=devices, truths=truths, ops=ops, seed=rng.randrange(1 << 30), rate=rng.choice((0, 0.3, 0.7, 1)), storage=rng.random() < 0.25)


def execute(sc, mon):
    import copy

    sc = copy.deepcopy(sc)
    scratch = tempfile.mkdtemp(prefix="verif-c28-") if sc["storage"] else None
    measured = []

    async def one(w):
        await w.one_cycle(sc["ops"], sc["seed"])
        mon.count("cycles")
        mon.count("faults", len([f for f in w.faults.values() if f != "ok"]))

    async def main(loop, net):
        storage = None
        if scratch:
            from pyzwave.persistantstorage import YamlStorage

            storage = YamlStorage(scratch + "/s")
        w = worn.Worn(loop, mon, sc["devices"], sc["truths"], storage=storage, fault_rate=sc["rate"])
        await w.start()
        for cycle in range(1, CYCLES + 1):
            await one(w)
            if cycle % 3 == 0:
                measured.append((cycle, worn.measure(loop, [w.app, w.zip, w.box])))
        if suspects(measured):
            # what is bounded stops growing
            mon.count("confirmations")
            for cycle in range(CYCLES + 1, CYCLES + 61):
                await one(w)
                if cycle % 20 == CYCLES:
                    measured.append((cycle, worn.measure(loop, [w.app, w.zip, w.box])))
        mon.count("strangers", w.strangers)
        mon.seen(sorted({o["kind"] + str(o.get("what")) for o in sc["ops"]}), sorted(set(w.faults.values())))

    try:
        sim.run(main)
    finally:
        if scratch:
            shutil.rmtree(scratch)
    for what in suspects(measured):
        mon.fail("piling-up", "%s pile up while the same operations are repeated: %s" % (what, ", ".join("%d after %d cycles" % (m[what], cycle) for cycle, m in measured)))


def suspects(measured):
    """What grew by at least one per cycle all the time"""
    return [what for what in sorted(set().union(*(m for _, m in measured)))
            if all(b[what] - a[what] >= j - i for (i, a), (j, b) in zip(measured, measured[1:]))]
