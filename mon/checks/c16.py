"""C16: storage locks across tasks, nesting, exceptions and cancellation."""
import asyncio
import copy

import devsim
import sim
import store
import world

ID = "C16"
LEVEL = "exploration"
RULE = ("1-6 concurrent tasks over up to three nodes with endpoints: nested and overlapping storage locks, left normally, by an exception, by cancellation; changes through class updates, configuration reports, version requests and "
        "interviews inside and outside locks; listeners that raise or change the node again. Every change and every release is judged at once against a lock depth model. Non-trivial: distinct (depth, dirty, way out) sequences")
REQUIRE = {"changes in a lock": 1500, "changes outside": 800, "released dirty": 600, "released clean": 300, "nested": 400, "overlapping tasks": 200, "left by exception": 150, "left by cancellation": 50,
           "changed by the listener": 50, "settings compared": 1500}


def plan(tier):
    return dict(cases=150000, seconds=780) if tier == "thorough" else dict(cases=9000, seconds=200)


def gen_ops(rng, keys, depth=0):
    ops = []
    for _ in range(rng.choice((1, 2, 3, 5))):
        r = rng.random()
        key = rng.choice(keys)
        if r < 0.35:
            ops.append(("change", key, rng.randrange(8)))
        elif r < 0.45:
            # (often the same few parameters)
            ops.append(("report", key, rng.randrange(1 << 15) | rng.choice((0, 1 << 15, 1 << 15))))
        elif r < 0.5:
            ops.append(("version", key, rng.randrange(8)))
        elif r < 0.54:
            ops.append(("interview", key, 0))
        elif r < 0.65:
            ops.append(("sleep", rng.choice((0, 0, 0.01, 0.5, rng.random())) if rng.random() < 0.96 else rng.choice((70, 700, 8000)), 0))
        elif depth < 3:
            ops.append(("lock", key, dict(ops=gen_ops(rng, keys, depth + 1), out=rng.choice(("ok", "ok", "ok", "raise")))))
    return ops


def gen(rng, i, tier):
    keys = rng.choice(([(7, 0)], [(7, 0), (9, 0)], [(7, 0), (7, 1), (9, 0)]))
    tasks = [dict(at=rng.choice((0, 0, rng.random())), ops=gen_ops(rng, keys), cancel=rng.choice((None, None, None, rng.random() * 2)))
             for _ in range(rng.choice((1, 2, 3, 6)))]
    return dict(tasks=tasks, listener=rng.choice((None, None, "raise", "change")), faults=devsim.gen_faults(rng, 0.1, 20), seed=rng.randrange(1 << 30))


def settings(node):
    """What there is to save (defaults appear by being read)"""
    return {cc: {k: copy.deepcopy(v) for k, v in obj.__getstate__().items() if v} for cc, obj in node.supported.items()}


class Left(Exception):
    """Leaves a lock"""


def execute(sc, mon):
    ccs = [0x86, 0x70, 0x72, 0x25, 0x5E]

    async def main(loop, net):
        w = world.World(loop, mon, {7: world.device(ccs + [0x60], endpoints=[dict(cc=ccs, generic=1, specific=1)]), 9: world.device(ccs)})
        await w.start()
        import random

        rng = random.Random(sc["seed"])
        truth = {k: store.gen_truth(rng, ccs + [0x60]) for k in ((7, 0), (7, 1), (9, 0))}
        devsim.DevSim(w.fake, truth, [dict(f, kind="late") if f["kind"] == "trunc" else f for f in sc["faults"]])
        signals = {k: 0 for k in truth}
        depth = {k: 0 for k in truth}
        holders = {k: set() for k in truth}
        dirty = {k: False for k in truth}
        trail = []
        nodes = {k: w.node(*k) for k in truth}
        again = {k: 1 for k in truth}
        saved, cancelled = {k: settings(node) for k, node in nodes.items()}, set()

        def changed(key, what):
            """The node has just been told about a change"""
            locked = depth[key] > 0
            mon.count("changes in a lock" if locked else "changes outside")
            trail.append((what, depth[key], dirty[key]))
            mon.check(signals[key] == (0 if locked else 1), "saved-in-lock" if locked else "not-saved",
                      "%s changed (%s) with the lock held %d times: saving was signalled %d times; history %s" % (key, what, depth[key], signals[key], trail[-8:]))
            signals[key] = 0
            dirty[key] = dirty[key] or locked

        class OnSave:
            """Judge and disturb"""

            def __init__(self, key):
                self.key = key

            def nodeUpdated(self, node):
                signals[self.key] += 1
                saved[self.key] = settings(node)
                mon.check(node is nodes[self.key], "wrong-sender", "nodeUpdated of %s was sent by %r" % (self.key, node))
                if sc["listener"] == "change" and again[self.key]:
                    again[self.key] -= 1
                    keep, signals[self.key] = signals[self.key], 0
                    mon.count("changed by the listener")
                    node.supported[0x25].speak("commandClassUpdated")
                    signals[self.key] = keep

        class Raiser:
            """A listener that fails"""

            def nodeUpdated(self, node):
                raise RuntimeError("cannot save")

        class OnChange:
            """Sees the change after the node"""

            def __init__(self, key):
                self.key = key

            def commandClassUpdated(self, cc):
                changed(self.key, cc.name)

        for key, node in nodes.items():
            if sc["listener"] == "raise":
                node.addListener(Raiser())
            node.addListener(OnSave(key))
            for cc in node.supported.values():
                cc.addListener(OnChange(key))

        async def run(task, ops):
            from pyzwave.commandclass import Configuration, Zip

            for what, key, arg in ops:
                if what == "sleep":
                    await asyncio.sleep(key)
                elif what == "change":
                    supported = sorted(nodes[key].supported)
                    nodes[key].supported[supported[arg % len(supported)]].speak("commandClassUpdated")
                elif what == "report":
                    await nodes[key].handleMessage(Configuration.Report(parameterNumber=arg & (3 if arg >> 15 else 255), size=1, value=arg >> 8 & 127), Zip.HeaderExtension())
                elif what == "version":
                    # (the firmware may have been updated meanwhile)
                    supported = sorted(nodes[key].supported)
                    cc = supported[arg % len(supported)]
                    if arg & 1 and cc in truth[key]["versions"]:
                        truth[key]["versions"][cc] = 1 + truth[key]["versions"][cc] % 3
                    await nodes[key].supported[cc].requestVersion()
                elif what == "interview":
                    try:
                        await nodes[key].interview()
                    except asyncio.CancelledError:
                        cancelled.add(key)
                        raise
                else:
                    await locked(task, key, arg)

        async def locked(task, key, arg):
            out = None
            before = None
            try:
                with nodes[key].storageLock():
                    if depth[key]:
                        mon.count("nested")
                    depth[key] += 1
                    if holders[key] - {task}:
                        mon.count("overlapping tasks")
                    holders[key].add(task)
                    if depth[key] == 1:
                        dirty[key] = False
                    mon.check(signals[key] == 0, "saved-in-lock", "saving of %s was signalled by entering the lock" % (key,))
                    try:
                        await run(task, arg["ops"])
                        if arg["out"] == "raise":
                            mon.count("left by exception")
                            raise Left()
                    except BaseException as error:
                        out = error
                        if isinstance(error, asyncio.CancelledError):
                            mon.count("left by cancellation")
                        raise
                    finally:
                        depth[key] -= 1
                        if not depth[key]:
                            holders[key].clear()
                        before = signals[key]
                        # what a listener changes while it is told counts as outside of the lock
            except Left as error:
                mon.check(error is out, "exception-changed", "the lock raised %r instead of %r" % (error, out))
            finally:
                last = depth[key] == 0
                want = 1 if last and dirty[key] else 0
                trail.append(("release", depth[key], dirty[key], type(out).__name__))
                mon.check(before == 0, "saved-in-lock", "saving of %s was signalled inside of its lock; history %s" % (key, trail[-8:]))
                mon.check(signals[key] == want, "not-saved" if want else "wrongly-saved", "the %s lock of %s was released, %s: saving was signalled %d times; history %s" % (
                    "outermost" if last else "inner", key, "something changed" if dirty[key] else "nothing changed", signals[key], trail[-8:]))
                if last:
                    mon.count("released dirty" if dirty[key] else "released clean")
                    dirty[key] = False
                signals[key] = 0

        async def one(number, task):
            await asyncio.sleep(task["at"])
            await run(number, task["ops"])

        tasks = [asyncio.ensure_future(one(n, t)) for n, t in enumerate(sc["tasks"])]
        for task, t in zip(tasks, sc["tasks"]):
            if t["cancel"] is not None:
                loop.call_later(t["cancel"], task.cancel)
        results = await asyncio.gather(*tasks, return_exceptions=True)
        for r in results:
            if isinstance(r, BaseException) and not isinstance(r, asyncio.CancelledError):
                raise r
        await asyncio.sleep(1)
        for key in truth:
            mon.check(signals[key] == 0, "wrongly-saved", "saving of %s was signalled %d times without a change" % (key, signals[key]))
            if key not in cancelled:
                mon.count("settings compared")
                now = settings(nodes[key])
                mon.check(now == saved[key], "change-lost", "%s holds %s, when saving was signalled last it was %s; history %s" % (
                    key, {k: v for k, v in now.items() if saved[key].get(k) != v}, {k: v for k, v in saved[key].items() if now.get(k) != v}, trail[-8:]))
            nodes[key].supported[0x86].speak("commandClassUpdated")
        mon.seen(trail[:12])

    _, loop = sim.run(main)
    errors = sim.settle_errors(loop)
    mon.check(not errors, "loop-exception", "exception in the event loop: %s" % (errors and sim.error_text(errors[0])))
