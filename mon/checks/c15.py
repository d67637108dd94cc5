"""C15: node settings survive restarts; real YamlStorage on scratch directories."""
import asyncio
import os
import pathlib
import shutil
import tempfile

import devsim
import sim
import store
import world

ID = "C15"
LEVEL = "exploration"
RULE = ("networks of 1-4 nodes with endpoints whose classes are taught generated states (number boundaries, every association form, names that look like YAML) or interviewed with faults, configuration reports, "
        "storage locks, 1-3 restarts on the same path (existing, missing, nested, odd names; str or Path), class lists changed between the runs, the directory moved (and `path` set) or lost in between. At every save a snapshot is taken, after every restart compared. "
        "Non-trivial: distinct restored states")
REQUIRE = {"saves": 1500, "nodes completely saved": 400, "restarts": 180, "nodes compared": 500, "classes compared": 2000, "names compared": 150, "missing directories": 100, "interviewed restored": 300, "moved": 20, "wiped": 20, "not interviewed restored": 300}
ASSUMPTIONS = ["what is known is judged when a node has been quiet for a minute"]


def plan(tier):
    return dict(cases=20000, seconds=780) if tier == "thorough" else dict(cases=800, seconds=200)


def gen(rng, i, tier):
    devices, truths = {}, {}
    for node in rng.sample([2, 3, 5, 7, 20, 70, 71, 100, 232], rng.choice((1, 2, 4))):
        dev = store.gen_device(rng)
        devices[node] = dev
        truths[(node, 0)] = store.gen_truth(rng, dev["cc"])
        for k, ep in enumerate(dev["endpoints"]):
            truths[(node, k + 1)] = store.gen_truth(rng, ep["cc"])
    if rng.random() < 0.08:
        # identities that are easily mixed up in file names: 2:10, 21:0, 2:1, 2:11, 211:0
        some = [[c for c in store.STATEFUL if rng.random() < 0.4] or [0x72] for _ in range(15)]
        devices = {2: world.device(some[0] + [0x60], endpoints=[dict(cc=c, generic=1, specific=1) for c in some[1:13]]), 21: world.device(some[13]), 211: world.device(some[14])}
        truths = {(n, 0): store.gen_truth(rng, d["cc"]) for n, d in devices.items()}
        for k in range(12):
            truths[(2, k + 1)] = store.gen_truth(rng, some[k + 1])
    big = rng.random() < 0.03  # settings of tens of kilobytes
    runs = []
    for _ in range(rng.choice((1, 2, 3))):
        steps = []
        for _ in range(rng.choice((1, 3, 8))):
            key = rng.choice(sorted(truths))
            ccs = devices[key[0]]["cc"] if key[1] == 0 else devices[key[0]]["endpoints"][key[1] - 1]["cc"]
            what = rng.choice(("teach", "teach", "teach", "interview", "config", "config", "locked"))
            if not ccs:  # nothing to teach
                continue
            if what in ("teach", "locked"):
                steps.append((what, key, {cc: store.gen_state(rng, cc, big) for cc in rng.sample(ccs, rng.randint(1, len(ccs)))}))
            elif what == "config":
                steps.append((what, key, [(rng.choice((rng.randrange(256), rng.randrange(2))), s, store.number(rng, 8 * s)) for s in (rng.choice((1, 1, 2, 4)) for _ in range(rng.randint(1, 3)))]))
            else:
                steps.append((what, key, None))
            if rng.random() < 0.04:
                steps.append((rng.choice(("move", "wipe")), key, None))
        change = None
        if rng.random() < 0.25:
            node = rng.choice(sorted(devices))
            change = (node, rng.choice(("drop", "add", "both")), rng.choice(store.STATEFUL))
        runs.append(dict(steps=steps, change=change))
    return dict(devices=devices, truths=truths, runs=runs, faults=devsim.gen_faults(rng, rng.choice((0, 0.2)), 60),
                path=rng.choice(("", "settings", "a/b/c", "with space", "ünï", "x.yml", "trail/", "existing")), as_path=rng.random() < 0.3)


def execute(sc, mon):
    import copy

    sc = copy.deepcopy(sc)
    scratch = tempfile.mkdtemp(prefix="verif-c15-")
    try:
        os.mkdir(os.path.join(scratch, "base"))
        path = os.path.join(scratch, "base", sc["path"])
        if sc["path"] == "existing":
            os.makedirs(os.path.join(path, "nodes"))
        if not os.path.isdir(os.path.join(path, "nodes")):
            mon.count("missing directories")
        saved = {}
        for number, run in enumerate(sc["runs"]):
            path = live(sc, mon, run, pathlib.Path(path) if sc["as_path"] else path, saved, number, scratch)
            if run["change"]:
                node, how, cc = run["change"]
                ccs = sc["devices"][node]["cc"]
                if how in ("drop", "both") and ccs:
                    ccs.remove(ccs[0])
                if how in ("add", "both") and cc not in ccs:
                    ccs.append(cc)
                    sc["truths"][(node, 0)]["versions"].setdefault(cc, 3)
                if 0x60 not in ccs:
                    for k in [k for k in sc["truths"] if k[0] == node and k[1]]:
                        del sc["truths"][k]
                    for later in sc["runs"]:
                        later["steps"] = [s for s in later["steps"] if s[1] in sc["truths"]]
        live(sc, mon, dict(steps=[]), path, saved, len(sc["runs"]), scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def live(sc, mon, run, path, saved, number, scratch):
    """One run of the application on the path. Returns the path in the end"""
    wiped = set()

    async def main(loop, net):
        from pyzwave.persistantstorage import YamlStorage
        import pyzwave.commandclass.Configuration as Configuration  # noqa: F401

        storage = YamlStorage(path)
        w = world.World(loop, mon, sc["devices"], storage=storage)
        await w.start()
        dev = devsim.DevSim(w.fake, sc["truths"], sc["faults"])
        fresh = {}
        for key in list(w.app.nodes):
            node = w.app.nodes[key]
            fresh[key] = defaults(node)
            if number:
                compare(mon, node, key, saved.get(key), fresh[key], number)

            class Saved:
                """Called after the storage"""

                def nodeUpdated(self, node):
                    mon.count("saves")
                    wiped.discard(node.nodeId)
                    saved[node.nodeId] = store.snapshot(node)

            node.addListener(Saved())
        if number:
            mon.count("restarts")
        for what, key, arg in run["steps"]:
            name = "%d:%d" % key
            if name not in w.app.nodes:
                continue
            node = w.app.nodes[name]
            if what in ("teach", "locked"):
                states = {cc: s for cc, s in arg.items() if node.supports(cc)}
                if what == "teach":
                    for cc, state in states.items():
                        store.teach(node.supported[cc], state)
                        node.supported[cc].speak("commandClassUpdated")
                else:
                    with node.storageLock():
                        for cc, state in states.items():
                            store.teach(node.supported[cc], state)
                            node.supported[cc].speak("commandClassUpdated")
            elif what == "move":
                # The settings are moved elsewhere
                mon.count("moved")
                there = tempfile.mkdtemp(prefix="moved-", dir=scratch) + "/new"
                if os.path.isdir(storage.path):
                    os.rename(storage.path, there)
                storage.path = pathlib.Path(there) if sc["as_path"] else there
            elif what == "wipe":
                # All settings are lost
                mon.count("wiped")
                shutil.rmtree(storage.path, ignore_errors=True)
                saved.clear()
                wiped.update(fresh)
            elif what == "config":
                for p, size, value in arg:
                    w.fake.unsolicited(0.01, key[0], ("Configuration.Report", dict(parameterNumber=p, size=size, value=value)), source=None)
                await asyncio.sleep(1)
            else:
                await node.interview()
                await asyncio.sleep(30)
        await asyncio.sleep(60)
        # nothing that was learned is left unsaved
        for key, blank in fresh.items():
            if key in wiped:
                continue
            want = {cc: saved.get(key, {}).get(cc, s) for cc, s in blank.items()}
            diff = store.difference(store.snapshot(w.app.nodes[key]), want)
            mon.count("nodes completely saved")
            mon.check(diff is None, "not-saved", "run %d, node %s: what was last saved differs from what is known: %s" % (number, key, diff))

        return storage.path

    path, loop = sim.run(main)
    errors = sim.settle_errors(loop)
    mon.check(not errors, "loop-exception", "exception in the event loop: %s" % (errors and sim.error_text(errors[0])))
    return path


def defaults(node):
    """What a node that nothing was stored for knows"""
    from pyzwave.node import Node

    blank = Node(node.rootNodeId, node.adapter, list(node.supported))
    return store.snapshot(blank)


def compare(mon, node, key, want, blank, number):
    mon.count("nodes compared")
    have = store.snapshot(node)
    expected = {cc: (want or {}).get(cc, blank[cc]) for cc in blank}
    mon.count("classes compared", len(expected))
    for cc, s in expected.items():
        mon.count("interviewed restored" if s["interviewed"] else "not interviewed restored")
        if cc == 0x59:
            mon.count("names compared", len(s["groupings"]))
    diff = store.difference(expected, have)
    mon.check(diff is None, "not-restored" if want else "wrongly-restored", "restart %d, node %s: %s" % (number, key, diff))
    mon.seen(sorted((cc, repr(s)) for cc, s in expected.items()))
