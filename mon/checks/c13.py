"""C13: interviews of simulated devices with faults at every request."""
import asyncio
import contextlib

import devsim
import sim
import world

ID = "C13"
LEVEL = "fault_enumeration"
RULE = ("devices with generated command class sets (unknown ones included), endpoints, versions, identities, sensors, association groups and group information; every request of an interview may be lost, "
        "unacknowledged, refused, answered early, late, twice, truncated, after a foreign report (other class, sensor, group, node, endpoint), over the other channel or after a long sleep; 1-3 interviews "
        "with changing device data, concurrently for several nodes and endpoints; plus one enumerated case per (request, fault). Non-trivial: distinct (class, outcome sequence)")
REQUIRE = {"interviews": 400, "classes judged": 3000, "versions learned": 900, "exchanges completed": 800, "exchanges failed": 200, "values judged": 3000,
           "group information judged": 300, "not interviewed": 200, "requests": 4000, "interviews cancelled": 100}
ASSUMPTIONS = ["association groups are judged by C14", "a truncated reply may end the request either way, but never stores anything the device did not report",
               "sensor types a device stops reporting may stay known", "group information arrives after the interview of its class has ended; it is judged when quiet"]

OWN = {0x86: "version", 0x72: "man", 0x5E: "plus", 0x31: "sensors", 0x59: "agi", 0x85: "groups"}
PLAIN = (0x20, 0x25, 0x32, 0x70, 0x80, 0x87, 0x22, 0x8E, 0x6C, 0x5A, 0x73, 0x98, 0x9F, 0x01, 0xEE)
TYPES = (1, 2, 3, 4, 5, 6, 7, 9, 0x0B, 0x0C, 0x0F, 0x11, 0x1B, 0x1F, 0x23, 0x28, 0x30, 0x55)
FIELDS = {"version": ("zwaveLibraryType", "zwaveProtocolVersion", "zwaveProtocolSubVersion", "applicationVersion", "applicationSubVersion"),
          "man": ("manufacturerID", "productTypeID", "productID"),
          "plus": ("zwavePlusVersion", "roleType", "nodeType", "installerIconType", "userIconType")}
OWN_REQUESTS = {"Version.VersionGet": 0x86, "ManufacturerSpecific.Get": 0x72, "ZwavePlusInfo.Get": 0x5E, "SensorMultilevel.SupportedGetSensor": 0x31,
                "SensorMultilevel.SupportedGetScale": 0x31, "AssociationGrpInfo.GroupInfoGet": 0x59, "Association.GroupingsGet": 0x85, "Association.Get": 0x85,
                "MultiChannelAssociation.MultiChannelGet": 0x85, "Association.Set": 0x85, "MultiChannelAssociation.MultiChannelSet": 0x85}

GROUP_REQUESTS = ("AssociationGrpInfo.GroupNameGet", "AssociationGrpInfo.GroupCommandListGet")


def plan(tier):
    return dict(cases=60000, seconds=780) if tier == "thorough" else dict(cases=3500, seconds=200)


def value(rng, top):
    while True:
        v = rng.choice((rng.randint(0, top), rng.randint(0, top), 0, 1, top))
        if v != devsim.POISON:
            return v


def gen_truth(rng, ccs, base=None):
    t = dict(versions={}, version=[value(rng, 255) for _ in range(5)], man=[value(rng, 65535) for _ in range(3)],
             plus=[value(rng, 255) for _ in range(3)] + [value(rng, 65535) for _ in range(2)])
    types = list(base["sensors"]) if base else rng.sample(TYPES, rng.choice((0, 1, 2, 3)))
    t["sensors"] = {x: rng.choice((1, 2, 3, 4, 8)) for x in types}
    n = len(base["agi"]) if base else rng.choice((0, 1, 2, 3, 9))
    t["agi"] = [dict(groupingIdentifier=i + 1, mode=0, profile=value(rng, 65535), eventCode=0,
                     name=rng.choice(("", "Lifeline", "Button %d" % rng.randint(1, 99), "Å" * rng.randint(1, 10))),
                     commands=[[rng.randint(0x20, 0x79), rng.randrange(256)] for _ in range(rng.choice((0, 1, 3)))]) for i in range(n)]
    t["agi_per_report"] = rng.choice((1, 2, 7))
    t["groups"] = base["groups"] if base else {i + 1: (rng.randint(1, 20), [(rng.randint(1, 100), None) for _ in range(rng.choice((0, 1, 2)))])
                                               for i in range(rng.choice((0, 1, 2, 3)))}
    t["config"] = {}
    for cc in ccs:
        t["versions"][cc] = base["versions"][cc] if base else rng.choice((1, 1, 2, 3, 4, 5, 7, 255 if rng.random() < 0.1 else 6, 0 if rng.random() < 0.1 else 5))
    return t


def gen_ccs(rng):
    ccs = [cc for cc in OWN if rng.random() < 0.6] + rng.sample(PLAIN, rng.choice((0, 1, 2, 4)))
    if rng.random() < 0.03:  # devices with very many classes
        ccs += rng.sample([cc for cc in range(0x21, 0xEE) if cc not in (*OWN, *PLAIN, 0x60, 0x6C, 0x8E, 0x20)], rng.choice((20, 40, 60)))
    rng.shuffle(ccs)
    return ccs


def gen(rng, i, tier):
    devices, keys = {}, {}
    for node in rng.sample(range(2, 100), rng.choice((1, 1, 2))):
        ccs = gen_ccs(rng)
        eps = []
        if rng.random() < 0.35:
            ccs.insert(rng.randint(0, len(ccs)), 0x60)
            eps = [dict(cc=gen_ccs(rng), generic=1, specific=1) for _ in range(rng.choice((1, 2)))] + [dict(cc=gen_ccs(rng), generic=1, specific=1)]
        devices[node] = world.device(ccs, endpoints=eps, listening=rng.random() < 0.6)
        keys[(node, 0)] = ccs
        for k, ep in enumerate(eps[:-1]):
            keys[(node, k + 1)] = ep["cc"]
    rounds, base = [], None
    for _ in range(rng.choice((1, 1, 2, 3))):
        if base is None or rng.random() < 0.5:
            base = {k: gen_truth(rng, ccs, base and base[k]) for k, ccs in keys.items()}
        who = [k for k in keys if rng.random() < 0.8] or list(keys)[:1]
        rounds.append(dict(truth=base, who=who, lock=rng.random() < 0.4, serial=rng.random() < 0.4, cancel=rng.choice((0.05, 0.5, 3, 20)) * rng.random() if rng.random() < 0.15 else None))
    return dict(devices=devices, keys=keys, rounds=rounds, faults=devsim.gen_faults(rng, rng.choice((0, 0.1, 0.3, 0.7)), 120))


def enumerate_cases(tier):
    """One device with every interviewed class: each fault at each of its requests, first interview, then a clean second one"""
    import random

    rng = random.Random(13)
    ccs = [0x86, 0x72, 0x31, 0x5E, 0x59, 0x25, 0x85]
    truth = gen_truth(rng, ccs)
    truth.update(sensors={1: 3, 5: 1}, versions={cc: 5 for cc in ccs}, groups={1: (5, [(9, None)])},
                 agi=[dict(groupingIdentifier=1, mode=0, profile=1, eventCode=0, name="Lifeline", commands=[[0x5A, 1]])])
    second = dict(truth, version=[6, 5, 4, 3, 2], man=[1, 2, 3], plus=[2, 5, 0, 0x700, 0x701])
    step = 1 if tier == "thorough" else 3
    n = 0
    for fault in devsim.FAULTS:
        for at in range(0, 21):
            n += 1
            if n % step:
                continue
            faults = [dict(kind="ok", ack=0.01, reply=0.02)] * at + [dict(kind=fault, ack=0.3, reply=0.7, late=3.7, cut=0.5, wait=20, pick=0.3)]
            yield dict(devices={7: world.device(ccs)}, keys={(7, 0): ccs}, faults=faults,
                       rounds=[dict(truth={(7, 0): truth}, who=[(7, 0)], lock=False, serial=True), dict(truth={(7, 0): second}, who=[(7, 0)], lock=True, serial=True)])


def execute(sc, mon):
    async def main(loop, net):
        import copy

        devices = dict(sc["devices"])
        devices[150] = world.device([0x86, 0x72, 0x5E, 0x31, 0x59, 0x85, 0x8E])
        w = world.World(loop, mon, devices)
        await w.start()
        dev = devsim.DevSim(w.fake, {}, sc["faults"], bystander=150, spare_ep={n: len(d["endpoints"]) for n, d in sc["devices"].items() if d["endpoints"]})
        state = {}
        for key, ccs in sc["keys"].items():
            state[key] = dict(versions={}, history=[], trunc=False)
        for number, rnd in enumerate(sc["rounds"]):
            dev.truth = {k: copy.deepcopy(rnd["truth"][k]) for k in rnd["truth"]}
            first = len(dev.requests)
            start_replies = len(dev.replies)

            async def one(key):
                node = w.node(*key)
                mon.count("interviews")
                with node.storageLock() if rnd["lock"] else contextlib.nullcontext():
                    await node.interview()

            if rnd.get("cancel") is not None:
                tasks = {key: asyncio.ensure_future(one(key)) for key in rnd["who"]}
                await asyncio.wait(list(tasks.values()), timeout=rnd["cancel"])
                for key, task in tasks.items():
                    mine = [r for r in dev.requests[first:] if (r["node"], r["ep"]) == key and r["name"] not in GROUP_REQUESTS]
                    if not task.done() and mine and mine[-1]["name"] in OWN_REQUESTS:
                        rnd.setdefault("cut", {})[key] = OWN_REQUESTS[mine[-1]["name"]]
                    task.cancel()
                await asyncio.gather(*tasks.values(), return_exceptions=True)
                for key, cc in rnd.get("cut", {}).items():
                    mon.count("interviews cancelled")
                    mon.check(not w.node(*key).supported[cc].interviewed, "dishonest", "interview %d of %d:%d was cancelled while class %#x was waiting for an answer, but the class is marked interviewed" % (number + 1, *key, cc))
            elif rnd["serial"]:
                for key in rnd["who"]:
                    await one(key)
            else:
                await asyncio.gather(*(one(key) for key in rnd["who"]))
            await asyncio.sleep(1500)  # group information may arrive over many naps of the device
            mon.count("requests", len(dev.requests) - first)
            for key in rnd["who"]:
                state[key]["history"].append(rnd["truth"][key])
                if rnd.get("cancel") is not None:
                    state[key]["trunc"] = state[key]["trunc"] or any(r["outcome"] == "unclear" or r["fault"]["kind"] == "trunc" for r in dev.requests[first:])
                    cancelled(mon, w.node(*key), key, sc["keys"][key], rnd["truth"][key], state[key], number)
                    continue
                judge(mon, w.node(*key), key, sc["keys"][key], rnd["truth"][key], state[key],
                      [r for r in dev.requests[first:] if (r["node"], r["ep"]) == key], dev.replies[start_replies:], number)
            for r in dev.requests[first:]:
                if (r["node"] == 150 or (r["node"], r["ep"]) not in sc["keys"]) and r["name"] in GROUP_REQUESTS:
                    continue  # the answer to its own group information report
                mon.check((r["node"], r["ep"]) in rnd["who"], "wrong-target", "interviewing %s asked %d:%d for %s" % (rnd["who"], r["node"], r["ep"], r["name"]))
            for ep, node in w.app.nodes.items():
                if node.rootNodeId == 150:
                    for cc in node.supported.values():
                        mon.check(cc.version == 0 and not cc.interviewed, "wrong-target", "class %#x of node %s changed though it was not interviewed" % (cc.id, ep))

    _, loop = sim.run(main)
    errors = sim.settle_errors(loop)
    mon.check(not errors, "loop-exception", "exception in the event loop: %s" % (errors and sim.error_text(errors[0])))


def cancelled(mon, node, key, ccs, truth, state, number):
    """An interview that did not end: versions are the device's or unknown"""
    for cc in set(ccs):
        obj = node.supported[cc]
        want, known = truth["versions"].get(cc, 0), state["versions"].get(cc, 0)
        mon.check(obj.version in (known, want, 0), "wrong-version", "interview %d of %d:%d, class %#x: stored version is %r, the device reports %d" % (number + 1, *key, cc, obj.version, want))
        mon.check(obj.version or not obj.interviewed, "dishonest", "interview %d of %d:%d, class %#x: marked interviewed without known version" % (number + 1, *key, cc))
        state["versions"][cc] = int(obj.version)


def judge(mon, node, key, ccs, truth, state, requests, replies, number):
    where0 = "interview %d of %d:%d" % (number + 1, *key)
    by_cc, version_asked = {}, {}
    state["group_requests"] = [r for r in requests if r["name"] in GROUP_REQUESTS]
    for r in requests:
        if r["name"] == "Version.VersionCommandClassGet":
            version_asked.setdefault(r["args"]["requestedCommandClass"], []).append(r)
        elif r["name"] in OWN_REQUESTS:
            by_cc.setdefault(OWN_REQUESTS[r["name"]], []).append(r)
    state["trunc"] = state["trunc"] or any(r["outcome"] == "unclear" for r in requests)
    for cc in set(ccs):
        if cc == 0x60 and cc not in truth["versions"]:
            truth["versions"][cc] = 0
        obj = node.supported[cc]
        where = "%s, class %#x" % (where0, cc)
        mon.count("classes judged")
        known = state["versions"].get(cc, 0)
        asked = version_asked.get(cc, [])
        own = by_cc.get(cc, [])
        if not known:
            mon.check(asked, "not-asked", "%s: its version is unknown and was not requested" % where)
            if own:
                mon.check(asked[0]["order"] < own[0]["order"], "version-not-first", "%s: interviewed before its version was requested" % where)
        outcomes = {r["outcome"] for r in asked}
        want = truth["versions"][cc]
        if "ok" in outcomes:
            mon.count("versions learned")
            mon.check(obj.version == want, "wrong-version", "%s: the device reports version %d, stored is %r" % (where, want, obj.version))
        elif outcomes == {"fail"} or (not outcomes and not known):
            mon.check(obj.version == known, "wrong-version", "%s: the version did not arrive, stored is %r (was %d)" % (where, obj.version, known))
        else:
            mon.check(obj.version in (known, want, 0), "wrong-version", "%s: stored version is %r, the device reports %d" % (where, obj.version, want))
        version = state["versions"][cc] = int(obj.version)
        if not version:
            mon.count("not interviewed")
            mon.check(not obj.interviewed, "dishonest", "%s: marked interviewed without known version" % where)
            continue
        exchange(mon, where, obj, cc, version, own, truth, state, replies, key, node)
        mon.seen(cc, [r["fault"]["kind"] for r in asked + own][:6], obj.interviewed)


def exchange(mon, where, obj, cc, version, own, truth, state, replies, key, node):
    kind = OWN.get(cc)
    if kind is None or (kind == "sensors" and version < 5):
        mon.check(obj.interviewed, "dishonest", "%s: version known and nothing else to ask, but not marked interviewed" % where)
        return
    names = [r["name"] for r in own]
    mon.check(own, "not-asked", "%s: version known, but it was not interviewed further" % where)
    outcomes = [r["outcome"] for r in own]
    done = all(o == "ok" for o in outcomes)
    if kind in FIELDS:
        judge_flag(mon, where, obj, outcomes)
        past = [t[kind] for t in state["history"]]
        for i, field in enumerate(FIELDS[kind]):
            have = getattr(obj, field)
            mon.count("values judged")
            if done:
                mon.check(have == truth[kind][i], "wrong-value", "%s: the device reported %s %r, stored is %r" % (where, field, truth[kind][i], have))
            else:
                mon.check(have in [0, None] + [p[i] for p in past], "wrong-value", "%s: %s is %r, which was never reported" % (where, field, have))
        return
    if kind == "sensors":
        got = [r for r in own if r["name"].endswith("GetSensor")]
        mon.check(got, "not-asked", "%s: the supported sensor types were not requested" % where)
        if got[-1]["outcome"] == "ok" and done:
            asked = {r["args"]["sensorType"] for r in own if r["name"].endswith("GetScale")}
            mon.check(asked == set(truth["sensors"]), "not-asked", "%s: scales of %s were requested, the device has %s" % (where, asked, set(truth["sensors"])))
        judge_flag(mon, where, obj, outcomes)
        ok = {r["args"]["sensorType"] for r in own if r["name"].endswith("GetScale") and r["outcome"] == "ok"}
        stored = {int(k): int(v) for k, v in obj.supportedTypes.items()}
        for t, mask in stored.items():
            mon.count("values judged")
            past = {h["sensors"].get(t) for h in state["history"]} | ({0} if state["trunc"] else set())
            mon.check(mask in past, "wrong-value", "%s: sensor type %d stored with scales %#x, reported were %s" % (where, t, mask, past))
        for t in ok:
            mon.check(stored.get(t) == truth["sensors"].get(t, 0), "wrong-value", "%s: sensor type %d was reported with scales %#x, stored is %s" % (
                where, t, truth["sensors"].get(t, 0), stored.get(t)))
        return
    if kind == "agi":
        # the class is done when its request was received, the reports follow
        sent = [r for r in own if r["ack"] is not None and r["fault"]["kind"] not in ("nack", "unacked")]
        mon.check(obj.interviewed == bool(sent), "dishonest", "%s: group information %s, but interviewed is %s" % (
            where, "requested" if sent else "could not be requested", obj.interviewed))
        judge_groups(mon, where, obj, truth, state, replies, key)
        return
    groupings = [r for r in own if r["name"].endswith("GroupingsGet")]
    mon.check(groupings, "not-asked", "%s: the number of groups was not requested" % where)
    if done:
        mon.check(obj.interviewed, "dishonest", "%s: everything was answered, but it is not marked interviewed" % where)
    elif groupings[-1]["outcome"] == "fail":
        mon.check(not obj.interviewed, "dishonest", "%s: the number of groups was not answered, but it is marked interviewed" % where)


def judge_flag(mon, where, obj, outcomes):
    if all(o == "ok" for o in outcomes):
        mon.count("exchanges completed")
        mon.check(obj.interviewed, "dishonest", "%s: everything was answered, but it is not marked interviewed" % where)
    elif "fail" in outcomes:
        mon.count("exchanges failed")
        mon.count("not interviewed")
        mon.check(not obj.interviewed, "dishonest", "%s: not everything was answered (%s), but it is marked interviewed" % (where, outcomes))


def judge_groups(mon, where, obj, truth, state, replies, key):
    past = [{g["groupingIdentifier"]: g for g in h["agi"]} for h in state["history"]]
    if state["trunc"]:
        return
    for number, group in obj.groupings.items():
        mon.count("group information judged")
        mon.check(any(number in p for p in past), "wrong-value", "%s: group %r is stored but was not reported" % (where, number))
        known = [p[number] for p in past if number in p]
        mon.check(int(group.profile) in [g["profile"] for g in known], "wrong-value", "%s: group %d has profile %r" % (where, number, group.profile))
        mon.check(group.name in [""] + [g["name"] for g in known], "wrong-value", "%s: group %d is named %r" % (where, number, group.name))
        mon.check(group.commands in [[]] + [g["commands"] for g in known], "wrong-value", "%s: group %d has the commands %r" % (where, number, group.commands))
    # what was reported after the last time the group was asked for must be there
    mine = [r for r in replies if (r[1], r[2]) == key]
    now = {g["groupingIdentifier"]: g for g in truth["agi"]}
    infos = [g["groupingIdentifier"] for r in mine if r[3] == "AssociationGrpInfo.GroupInfoReport" for g in r[4]["groups"]]
    for number in set(infos):
        mon.check(number in obj.groupings, "value-lost", "%s: group %d was reported, but is not stored" % (where, number))
        mon.check(int(obj.groupings[number].profile) == now[number]["profile"], "value-lost", "%s: group %d was reported with profile %r, stored is %r" % (
            where, number, now[number]["profile"], obj.groupings[number].profile))
        for field, report in (("name", "AssociationGrpInfo.GroupNameReport"), ("commands", "AssociationGrpInfo.GroupCommandListReport")):
            own = [r for r in mine if r[3] == report and r[4]["groupingIdentifier"] == number]
            last = [r for r in own if r[5]["n"] == max(x[5]["n"] for x in own)]
            later = [q for q in state["group_requests"] if devsim.REPLY[q["name"]] == report and q["args"]["groupingIdentifier"] == number]
            if last and later and later[-1]["n"] == last[0][5]["n"]:
                mon.count("group information judged")
                have = getattr(obj.groupings[number], field)
                mon.check(have == now[number][field], "value-lost", "%s: group %d was reported with %s %r, stored is %r" % (where, number, field, now[number][field], have))
