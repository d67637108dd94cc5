"""C22: sensor reports against a reference filter."""
import asyncio
import copy

import devsim
import gw
import sim
import world

ID = "C22"
LEVEL = "exploration"
RULE = ("simulated multilevel sensors (root node and end point, with different sensors) of every version, interviewed by the real code (also again after they gained types and scales, with faults) or restored, then reports of "
        "every supported and several unsupported types with all four scales, all precisions, sizes and boundary values, in random order, over the connection, the listener and supervised. Non-trivial: distinct (version, known, scale mask, scale, way)")
REQUIRE = {"reports judged": 40000, "reports delivered": 10000, "reports filtered": 10000, "reports of old versions": 5000, "interviews complete": 800, "interviews incomplete": 60, "restored": 150, "supervised": 4000}
ASSUMPTIONS = ["while an interview has not told what is supported nothing is demanded for types that are not known yet", "types and scales a device no longer reports are not judged"]
CC = 0x31
TYPES = range(1, 256)
COMMON = (1, 2, 3, 4, 5, 6, 8, 9, 0x0B, 0x0F, 0x11, 0x1B, 0x23, 0x28, 0x30, 0x3F, 0x40, 0x41, 0x56, 0x7F, 0x80, 0xC8, 0xFF)


def plan(tier):
    return dict(cases=40000, seconds=780) if tier == "thorough" else dict(cases=3000, seconds=200)


def sensors(rng, old=None):
    out = dict(old or {})
    for t in rng.sample(COMMON, rng.choice((0, 1, 2, 4, 8))) if rng.random() < 0.98 else rng.sample(TYPES, rng.choice((33, 80, 255))):
        out[t] = out.get(t, 0) | rng.randrange(16)
    return out


def report(rng, types, masks):
    size = rng.choice((1, 2, 4))
    low, high = -(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1
    raw = rng.choice((0, 1, -1, low, high, rng.randint(low, high), rng.randint(low, high)))
    return (rng.choice(types), (raw, size, rng.randrange(8), rng.randrange(4)))


def gen(rng, i, tier):
    node = rng.choice((1, 232, rng.randrange(2, 150), rng.randrange(2, 150)))
    keys = rng.choice(([(node, 0)], [(node, 0), (node, 1)]))
    first = {k: sensors(rng) for k in keys}
    second = {k: sensors(rng, first[k]) for k in keys} if rng.random() < 0.3 else None
    plan_ = {}
    for k in keys:
        known = sorted(set(first[k]) | set((second or first)[k]))
        pairs = [(t, s) for t in known + rng.sample(COMMON, 3) + [rng.choice(TYPES)] for s in range(4)]
        rng.shuffle(pairs)
        out = []
        for t, s in pairs[:60]:
            _t, (raw, size, precision, _s) = report(rng, (t,), None)
            out.append((t, (raw, size, precision, s), rng.choice(("connection", "listener", "supervised")), rng.choice((None, True, False))))
        plan_[k] = out
    return dict(keys=keys, version=rng.choice((0, 1, 2, 3, 4, 4, 5, 5, 6, 7, 11, 255)), first=first, second=second, reports=plan_, restored=rng.random() < 0.2,
                faults=devsim.gen_faults(rng, rng.choice((0, 0, 0.15)), 40), early=rng.random() < 0.2, cluster=rng.random() < 0.4)


def execute(sc, mon):
    sc = copy.deepcopy(sc)
    heard = []

    async def main(loop, net):
        (node, _) = sc["keys"][0]
        ccs = [CC, 0x86, 0x6C]
        devices = {node: world.device(ccs + [0x60], endpoints=[dict(cc=ccs, generic=1, specific=1)] if len(sc["keys"]) > 1 else []), 150: world.device([CC])}
        w = world.World(loop, mon, devices, controller=5 if node != 5 else 1)
        await w.start()
        truth = {k: dict(versions={CC: sc["version"], 0x86: 2}, version=[1] * 5, config={}, agi=[], groups={}, sensors=sc["first"][k]) for k in sc["keys"]}
        dev = devsim.DevSim(w.fake, truth, sc["faults"], bystander=150)
        objs = {k: w.node(*k).supported[CC] for k in sc["keys"]}
        known = {k: None for k in sc["keys"]}  # (certain, possible) sensors

        class Hears:
            def __init__(self, key, level):
                self.key, self.level = key, level

        class CcListener(Hears):
            async def onReport(self, _sender, message, flags):
                await asyncio.sleep(0)
                return self.note(message)

            def note(self, message):
                heard.append((self.key, self.level, message))
                return results.get(self.key)

        class NodeListener(Hears):
            def onMessage(self, _sender, message):
                heard.append((self.key, self.level, message))

        results = {}
        for k in sc["keys"]:
            objs[k].addListener(CcListener(k, "class"))
            w.node(*k).addListener(NodeListener(k, "node"))

        async def send(k, t, value, way):
            command = ("SensorMultilevel.Report", dict(sensorType=t, sensorValue=value))
            if way == "supervised":
                mon.count("supervised")
                command = ("Supervision.Get", dict(statusUpdates=0, sessionID=3, command=command))
            if way == "listener" or not net.connected(gw.ip_text(gw.node_ip(k[0]))):
                w.fake._unsolicited(k[0], command, None, dict(source=k[1]))
            else:
                w.fake._from_node(k[0], command, dict(source=k[1]))
            await asyncio.sleep(0.02)

        async def reports(k):
            version = objs[k].version
            for t, value, way, result in sc["reports"][k]:
                results[k] = result
                before = len(heard)
                await send(k, t, value, way)
                got = [h for h in heard[before:] if h[0] == k]
                mon.check(not [h for h in heard[before:] if h[0] != k], "wrong-node", "a report of %d:%d was delivered to %s" % (*k, [h[0] for h in heard[before:]]))
                mon.count("reports judged")
                scale = value[3]
                if version < 5:
                    want = True
                    mon.count("reports of old versions")
                elif known[k] is None:
                    continue
                else:
                    certain, possible = known[k]
                    want = True if certain.get(t, 0) >> scale & 1 else None if possible.get(t, 0) >> scale & 1 or possible.get(t, 0) == -1 else False
                what = "version %d, supported %s: a report of %d:%d for type %d scale %d" % (version, {x: bin(m) for x, m in (known[k] or ({},))[0].items()}, *k, t, scale)
                if want is not None:
                    levels = [h[1] for h in got]
                    mon.count("reports delivered" if want else "reports filtered")
                    expected = (["class"] if result else ["class", "node"]) if want else []
                    mon.check(levels == expected, "not-delivered" if want else "not-filtered", "%s was delivered to %s, expected %s" % (what, levels, expected))
                exact = value[0] / 10 ** value[2]
                for _k, _level, message in got:
                    v = message.sensorValue
                    mon.check(int(message.sensorType) == t and v.scale == scale and abs(float(v) - exact) <= 1e-12 * abs(exact), "wrong-value",
                              "%s, value %r, was delivered as type %d scale %r value %r" % (what, exact, message.sensorType, v.scale, float(v)))
                mon.seen(version, known[k] and known[k][0].get(t), scale, way)

        if sc["early"]:
            for k in sc["keys"]:
                if objs[k].version < 5:
                    await reports(k)
        if sc["restored"]:
            mon.count("restored")
            for k in sc["keys"]:
                state = dict(version=max(5, sc["version"]), interviewed=True, supportedTypes=dict(sc["first"][k]))
                objs[k].__setstate__(state)
                known[k] = (dict(sc["first"][k]), dict(sc["first"][k]))
                await reports(k)
        for masks in (sc["first"], sc["second"]):
            if masks is None:
                continue
            for k in sc["keys"]:
                truth[k]["sensors"] = masks[k]
                first = len(dev.requests)
                try:
                    await objs[k].interview()
                except Exception:  # pylint: disable=broad-except
                    # an interview of a single class may end with an incomplete report
                    if not any(r["outcome"] == "unclear" for r in dev.requests[first:]):
                        raise
                await asyncio.sleep(100)
                asked = [r for r in dev.requests[first:] if r["name"].startswith("SensorMultilevel.") and (r["node"], r["ep"]) == k]
                certain, possible = known[k] or ({}, {t: -1 for t in TYPES})
                certain, possible = dict(certain), dict(possible)
                if objs[k].version < 5:
                    mon.check(not asked, "superfluous", "version %d was asked for its sensors" % objs[k].version)
                    known[k] = None
                elif asked and all(r["outcome"] == "ok" for r in asked):
                    mon.count("interviews complete")
                    mon.check(objs[k].interviewed, "not-interviewed", "the interview of %d:%d was answered, but is not complete" % k)
                    certain = dict(masks[k])
                    possible = dict(certain) if known[k] is None else {t: possible.get(t, 0) | certain.get(t, 0) for t in set(possible) | set(certain)}
                    known[k] = (certain, possible)
                else:
                    mon.count("interviews incomplete")
                    known[k] = ({}, {t: -1 for t in TYPES})
            for k in sc["keys"]:
                await reports(k)

    _, loop = sim.run(main)
    errors = sim.settle_errors(loop)
    mon.check(not errors, "loop-exception", "exception in the event loop: %s" % (errors and sim.error_text(errors[0])))
