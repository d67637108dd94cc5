"""C14: association interviews and lifeline setup against simulated devices with an association table."""
import asyncio
import copy
import random

import devsim
import sim
import world

ID = "C14"
LEVEL = "fault_enumeration"
RULE = ("devices with 0-20 (sometimes up to 255) association groups of 0-12 (sometimes up to 100) members (single, endpoint 0, other endpoints, the controller in every form), every combination of Z-Wave Plus, multi channel and multi channel association, "
        "controller ids other than 1, endpoint nodes; every request may be lost, unacknowledged, refused, early, late, doubled, truncated, preceded by a report of another group, node or endpoint, or delayed by a "
        "sleeping device; the set command may get lost before or after the device applied it; 1-3 interviews, the groups of the device changing in between (members, maximum, emptied, more or fewer groups). Enumerated: all capability x membership forms. Non-trivial: distinct (capabilities, membership, faults, sets)")
REQUIRE = {"interviews": 800, "groups judged": 2500, "lifeline set": 250, "lifeline already set": 150, "no lifeline wanted": 200, "multi channel set": 60, "group unanswered": 150, "foreign groups": 60,
           "split group reports": 5, "groups changed": 200, "groups dropped": 30}
ASSUMPTIONS = ["when the lifeline group itself could not be read the lifeline may be set or not, but not more than once per interview"]


def plan(tier):
    return dict(cases=60000, seconds=780) if tier == "thorough" else dict(cases=5000, seconds=200)


def gen_nodes(rng, multi, controller):
    out = []
    for _ in range(rng.choice((0, 0, 1, 2, 5, 12) * 4 + (40, 100))):
        n = rng.choice((rng.randint(1, 232), rng.randint(2, 10), rng.choice((1, 127, 128, 231, 232))))
        if n in (controller, devsim.POISON):
            continue
        e = rng.choice((None, None, 0, rng.randint(1, 127))) if multi else None
        if (n, e) not in out:
            out.append((n, e))
    if rng.random() < 0.4:
        out.insert(rng.randint(0, len(out)), (controller, rng.choice((None, 0, 0, 3)) if multi else None))
    # the wire carries single members first
    return sorted(out, key=lambda n: n[1] is not None)


def gen_key(rng, controller, root=True):
    plus, mc, mca = (rng.random() < 0.7, rng.random() < 0.5, rng.random() < 0.5)
    ccs = [0x86, 0x85] + [0x5E] * plus + [0x8E] * mca + [0x25] * (rng.random() < 0.3)
    if mc:
        ccs.append(0x60)
    rng.shuffle(ccs)
    count = rng.choice((0, 1, 1, 2, 3, 5, 20)) if rng.random() < 0.97 else rng.choice((127, 128, 254, 255))
    groups = {i + 1: (rng.randint(0, 255), gen_nodes(rng, mca, controller)) for i in range(count)}
    return ccs, groups


def gen(rng, i, tier):
    controller = rng.choice((1, 1, 1, 5, 17, rng.choice((127, 128, 200, 232))))
    devices, keys = {}, {}
    for node in rng.sample([n for n in range(1, 233) if n not in (controller, 150)], rng.choice((1, 1, 2))):
        ccs, groups = gen_key(rng, controller)
        eps = []
        keys[(node, 0)] = dict(ccs=ccs, groups=groups)
        if 0x60 in ccs:
            for k in range(rng.choice((0, 1, 2))):
                c, g = gen_key(rng, controller, False)
                eps.append(dict(cc=c, generic=1, specific=1))
                keys[(node, k + 1)] = dict(ccs=c, groups=g)
        devices[node] = world.device(ccs, endpoints=eps)
    return dict(controller=controller, devices=devices, keys=keys, faults=devsim.gen_faults(rng, rng.choice((0, 0.1, 0.4)), 90),
                rounds=rng.choice((1, 1, 2, 3)), full=rng.random() < 0.4, split=0, seed=rng.randrange(1 << 30))


def enumerate_cases(tier):
    for plus in (0, 1):
        for mc in (0, 1):
            for mca in (0, 1):
                for member in ([], [(1, None)], [(1, 0)], [(1, 3)], [(2, None)], [(1, None), (1, 3)], [(11, None), (1, 0)], [(2, 1)]):
                    if not mca and any(e is not None for _n, e in member):
                        continue
                    for fault in (None, "unacked", "lost", "late", "trunc"):
                        # requests: version, groupings, group 1, group 2, set, group 1
                        for at in ((0, 1, 2, 3, 4, 5) if tier == "thorough" else (2, 4, 5) if fault else (0,)):
                            ccs = [0x85] + [0x5E] * plus + [0x60] * mc + [0x8E] * mca
                            faults = [dict(kind="ok", ack=0.01, reply=0.02)] * at
                            if fault:
                                faults.append(dict(kind=fault, ack=0.3, reply=0.7, late=3.7, cut=0.6, wait=20, pick=0.3))
                            yield dict(controller=1, devices={7: world.device(ccs)}, keys={(7, 0): dict(ccs=ccs, groups={1: (5, member), 2: (3, [(9, None)])})},
                                       faults=faults, rounds=2, full=False, split=0)
    for split in (1, 2, 3):
        for mca in (0, 1):
            ccs = [0x85] + [0x8E] * mca
            yield dict(controller=1, devices={7: world.device(ccs)}, keys={(7, 0): dict(ccs=ccs, groups={1: (20, [(n, None) for n in range(20, 32)])})},
                       faults=[], rounds=1, full=False, split=split)


def execute(sc, mon):
    sc = copy.deepcopy(sc)  # the association tables change

    async def main(loop, net):
        devices = dict(sc["devices"])
        devices[150] = world.device([0x85, 0x8E])
        w = world.World(loop, mon, devices, controller=sc["controller"])
        await w.start()
        truth = {k: dict(versions={c: 2 for c in v["ccs"]}, version=[1] * 5, man=[1] * 3, plus=[1] * 5, sensors={}, agi=[], config={}, groups=copy.deepcopy(v["groups"]))
                 for k, v in sc["keys"].items()}
        dev = devsim.DevSim(w.fake, truth, sc["faults"], bystander=150, spare_ep={n: len(d["endpoints"]) + 1 for n, d in sc["devices"].items()})
        if sc["split"]:
            split_reports(sc, w, dev, mon)
        seen = {k: [] for k in sc["keys"]}
        for number in range(sc["rounds"]):
            if number and "seed" in sc:
                for key, spec in sorted(sc["keys"].items()):
                    evolve(random.Random("%d %d %s" % (sc["seed"], number, key)), mon, sc["controller"], spec, truth[key])
            first = len(dev.requests)
            sets = len(dev.sets)

            async def one(key):
                mon.count("interviews")
                node = w.node(*key)
                if sc["full"]:
                    await node.interview()
                else:
                    try:
                        await node.supported[0x85].interview()
                    except Exception:  # pylint: disable=broad-except
                        # an interview of a single class may end with an incomplete report
                        if not any(r["outcome"] == "unclear" for r in dev.requests[first:]):
                            raise

            await asyncio.gather(*(one(key) for key in sc["keys"]))
            await asyncio.sleep(300)
            for key, spec in sc["keys"].items():
                judge(mon, sc, w.node(*key), key, spec, truth[key], seen[key], [r for r in dev.requests[first:] if (r["node"], r["ep"]) == key], number, dev.replies)
            for r in dev.sets[sets:]:
                mon.check((r["node"], r["ep"]) in sc["keys"], "wrong-target", "%s was sent to %d:%d" % (r["name"], r["node"], r["ep"]))

    _, loop = sim.run(main)
    errors = sim.settle_errors(loop)
    mon.check(not errors, "loop-exception", "exception in the event loop: %s" % (errors and sim.error_text(errors[0])))


def evolve(rng, mon, controller, spec, truth):
    """The device is reconfigured between two interviews"""
    if rng.random() < 0.3:
        return
    groups = truth["groups"]
    multi = 0x8E in spec["ccs"]
    for g in list(groups):
        maximum, nodes = groups[g]
        what = rng.choice(("keep", "maximum", "maximum", "remove", "empty", "new"))
        if what == "maximum":
            maximum = rng.choice((0, 0, 1, 5, 255))
        elif what == "remove" and nodes:
            nodes = nodes[:-1] if rng.random() < 0.5 else nodes[1:]
        elif what == "empty":
            nodes = []
        elif what == "new":
            nodes = gen_nodes(rng, multi, controller)
        if what != "keep":
            mon.count("groups changed")
        groups[g] = (maximum, nodes)
    what = rng.choice(("keep", "keep", "more", "fewer", "none"))
    before = len(groups)
    if what == "more" and before < 255:
        groups[before + 1] = (rng.randint(0, 255), gen_nodes(rng, multi, controller))
    elif what == "fewer" and groups:
        for g in range(rng.randint(1, before), before + 1):
            del groups[g]
    elif what == "none":
        groups.clear()
    mon.count("groups dropped", max(0, before - len(groups)))
    spec["groups"] = copy.deepcopy(groups)


def split_reports(sc, w, dev, mon):
    """The device answers with several reports for one group"""
    plain = devsim.answer

    def on_device(node, sent):
        if sent.cmd in ("Association.Get", "MultiChannelAssociation.MultiChannelGet"):
            req = dev.by_sent[sent.order]
            report = devsim.REPLY[sent.cmd]
            values = plain(dev.truth[(node, 0)], sent.cmd, sent.args)[0]
            n = sc["split"] + 1
            members = values["nodes"]
            size = -(-len(members) // n)
            for i in range(n):
                dev.deliver(0.02 + 0.01 * i, req, report, dict(values, nodes=members[i * size:(i + 1) * size], reportsToFollow=n - 1 - i), node, 0, truthful=True)
            req["outcome"] = "ok"
            return []
        return dev.on_device(node, sent)

    w.fake.device_hook = on_device


def members(nodes):
    """The order in a report: single members first"""
    return sorted(nodes, key=lambda n: n[1] is not None)


def holds(nodes, controller):
    return (controller, None) in nodes or (controller, 0) in nodes


def judge(mon, sc, node, key, spec, truth, seen, requests, number, replies):
    where = "interview %d of %d:%d (classes %s)" % (number + 1, *key, [hex(c) for c in spec["ccs"]])
    obj = node.supported[0x85]
    ccs, controller = spec["ccs"], sc["controller"]
    gets = [r for r in requests if r["name"] in ("Association.Get", "MultiChannelAssociation.MultiChannelGet")]
    sets = [r for r in requests if r["name"] in ("Association.Set", "MultiChannelAssociation.MultiChannelSet")]
    asked = [r for r in requests if r["name"] == "Association.GroupingsGet"]
    form = "MultiChannelAssociation.MultiChannelGet" if 0x8E in ccs else "Association.Get"
    stored = {int(g): (int(v.maxNodes or 0), [(int(n), e) for n, e in v.nodes]) for g, v in obj.groupings.items()}
    for r in gets:
        mon.check(r["name"] == form, "wrong-form", "%s: groups are read with %s" % (where, r["name"]))
        if r["fault"]["kind"] == "foreign":
            mon.count("foreign groups")
    started = bool(seen)
    if asked and asked[-1]["outcome"] == "ok":
        started = True
        want = set(range(1, len(spec["groups"]) + 1))
        clouded = any(r["outcome"] == "unclear" for r in requests)
        mon.check(set(stored) == want, "wrong-groups", "%s: the device has the groups %s, stored are %s" % (where, sorted(want), sorted(stored)))
        mon.check(clouded or {r["args"]["groupingIdentifier"] for r in gets} == want, "not-asked", "%s: groups %s were read, the device has %s" % (
            where, sorted({r["args"]["groupingIdentifier"] for r in gets}), sorted(want)))
    elif asked and asked[-1]["outcome"] == "unclear":
        started = True
    elif not started:
        mon.check(not stored and not gets and not sets, "wrong-groups", "%s: the number of groups is unknown, but %s is stored" % (where, stored))
    clouded = any(r["outcome"] == "unclear" for r in requests)
    for g, (maximum, nodes) in stored.items():
        reads = [r for r in gets if r["args"]["groupingIdentifier"] == g]
        final = reads[-1] if reads else None
        mon.count("groups judged")
        nodes = members(nodes)
        past = [(0, [])] + [s[g] for s in seen if g in s]
        now = [truth["groups"].get(g), spec["groups"].get(g)]
        now = [(m, members([n for n in ns if n[1] is None or 0x8E in ccs])) for m, ns in (x for x in now if x)]
        # a doubled or late report of an earlier read answers a later read of the same group just as well
        stale = final is not None and any(x[5] is not final and x[5]["name"] == final["name"] and x[5]["args"] == final["args"] and (x[1], x[2]) == key and x[0] >= final["t"]
                                          for x in replies)
        if final is not None and final["outcome"] == "ok" and not stale:
            ok = (maximum, nodes) == now[0]
            if sc["split"]:
                mon.count("split group reports")
                mon.check(ok, "reports-to-follow", "%s: the device reported group %d in %d reports as %r, stored is %r" % (where, g, sc["split"] + 1, now[0], (maximum, nodes)))
                continue
            mon.check(ok, "wrong-group", "%s: the device reported group %d as %r, stored is %r" % (where, g, now[0], (maximum, nodes)))
        elif not clouded:
            now += [spec["groups"][g]] if g in spec["groups"] else []
            mon.count("group unanswered")
            mon.check((maximum, nodes) in past + now, "wrong-group", "%s: group %d is stored as %r, the device never reported this (it has %r)" % (where, g, (maximum, nodes), now[:1]))
    seen.append({g: (m, members(ns)) for g, (m, ns) in stored.items()})
    # the lifeline
    mon.check(len(sets) <= 1, "set-twice", "%s: associations were written %d times: %s" % (where, len(sets), [(r["name"], r["args"]) for r in sets]))
    if sets:
        r = sets[0]
        multi = 0x60 in ccs and 0x8E in ccs
        mon.count("lifeline set")
        if multi:
            mon.count("multi channel set")
        wanted = ("MultiChannelAssociation.MultiChannelSet", dict(groupingIdentifier=1, nodes=[(controller, 0)])) if multi else \
            ("Association.Set", dict(groupingIdentifier=1, nodes=[(controller, None)]))
        mon.check((r["name"], r["args"]) == wanted, "wrong-set", "%s: wrote %s %s, expected %s" % (where, r["name"], r["args"], wanted))
        mon.check(clouded or any(q["name"] == form and q["args"]["groupingIdentifier"] == 1 and q["order"] > r["order"] for q in gets), "not-re-read", "%s: the lifeline group was not read again" % where)
    lifeline = [r for r in gets if r["args"]["groupingIdentifier"] == 1 and (not sets or r["order"] < sets[0]["order"])]
    want = None
    if 0x5E not in ccs or (asked and asked[-1]["outcome"] == "ok" and not spec["groups"]) or not asked:
        want = False
        mon.count("no lifeline wanted")
    elif lifeline and lifeline[-1]["outcome"] == "ok":
        want = not holds(spec["groups"][1][1], controller)
        if not want:
            mon.count("lifeline already set")
    if want is not None and not clouded:
        mon.check(bool(sets) == want, "wrong-lifeline", "%s: lifeline group of the device is %r: %s" % (
            where, spec["groups"].get(1), "it was written" if sets else "it was not written"))
    mon.seen([c for c in ccs if c in (0x5E, 0x60, 0x8E)], spec["groups"].get(1, (0, []))[1][:3], [r["fault"]["kind"] for r in requests][:8], bool(sets))
    spec["groups"] = copy.deepcopy(truth["groups"])
