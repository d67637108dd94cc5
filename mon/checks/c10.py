"""C10: nodes and endpoint nodes are built faithfully from the reported node information."""
import asyncio

import codec
import sim
import world

ID = "C10"
LEVEL = "exploration"
RULE = ("networks of 1-4 devices with generated node information lists (0-60 bytes; known, unknown, duplicated classes; support/control and security marks at every position, repeated, missing, truncated; "
        "raw random lists), device classes, listening flags, 0-20 individual and aggregated endpoints with own lists, loaded at startup or by a later node list report; unanswered queries. "
        "Non-trivial: distinct (mark layout, sizes, endpoints, load path)")
REQUIRE = {"nodes judged": 500, "endpoint nodes judged": 400, "classes judged": 4000, "security marks": 150, "control marks": 150, "truncated marks": 15, "unanswered": 30}
ASSUMPTIONS = ["extended (two byte) command classes other than the security mark are only required not to prevent loading"]
KNOWN = [0x59, 0x85, 0x20, 0x80, 0x70, 0x87, 0x69, 0x72, 0x32, 0x8E, 0x31, 0x6C, 0x25, 0x86, 0x5E, 0x60, 0x22, 0x34, 0x4D, 0x52, 0x23, 0x58, 0x5F, 0x78]


def plan(tier):
    return dict(cases=80000, seconds=780) if tier == "thorough" else dict(cases=10000, seconds=200)


def gen_list(rng, raw_ok=True):
    r = rng.random()
    if raw_ok and r < 0.08:
        return list(rng.randbytes(rng.randint(0, 40)))
    n = rng.choice((0, 1, 2, 5, 10, rng.randint(0, 50)))
    out = []
    for _ in range(n):
        r = rng.random()
        if r < 0.5:
            out.append(rng.choice(KNOWN))
        else:
            out.append(rng.choice([x for x in (rng.randint(0x20, 0xEE), rng.randint(1, 0xEE), rng.choice(KNOWN))]))
    style = rng.random()
    if style < 0.6:
        out.insert(rng.randint(0, len(out)), 0xEF)
        if rng.random() < 0.2:
            out.insert(rng.randint(0, len(out)), 0xEF)
    if rng.random() < 0.5:
        at = rng.randint(0, len(out))
        out[at:at] = [0xF1, 0x00]
        if rng.random() < 0.5:
            out.insert(rng.randint(at + 2, len(out)), 0xEF)
    if rng.random() < 0.1:
        out.append(0xF1)
    return out


def gen(rng, i, tier):
    devices = {}
    for node in rng.sample(range(1, 233), rng.randint(1, 4)):
        cc = gen_list(rng)
        eps = []
        if rng.random() < 0.6:
            if 0x60 not in cc:
                cc.insert(rng.choice((0, 0, rng.randint(0, len(cc)))), 0x60)
            eps = [dict(cc=gen_list(rng), generic=rng.randrange(256), specific=rng.randrange(256)) for _ in range(rng.choice((0, 1, 2, 3, rng.randint(0, 20))))]
            if rng.random() < 0.03:
                eps = [dict(cc=rng.sample(KNOWN, rng.randint(0, 3)), generic=rng.randrange(256), specific=rng.randrange(256)) for _ in range(rng.choice((31, 32, 63, 64, 65, 100, 126, 127)))]
        dev = world.device(cc, rng.randrange(256), rng.randrange(256), rng.randrange(256), rng.random() < 0.5, eps, rng.choice((0, 0, len(eps) // 2, len(eps))))
        dev["lost"] = rng.choice((None,) * 8 + ("info", "endpoints", "capability"))
        dev["late"] = rng.random() < 0.3
        devices[node] = dev
    return dict(devices=devices, controller=world.pick_controller(rng, devices))


def model(cc):
    """(supported {id: s0}, exact)"""
    supported, i, sup, sec, exact = {}, 0, True, False, True
    while i < len(cc):
        c = cc[i]
        if c == 0xF1 and i + 1 < len(cc) and cc[i + 1] == 0:
            sec, sup = True, True
            i += 2
            continue
        if c == 0xEF:
            sup = False
        elif c >= 0xF1:
            exact = exact and c == 0xF1 and i + 1 == len(cc)
        elif sup:
            supported[c] = sec
        i += 1
    return supported, exact


def execute(sc, mon):
    async def main(loop, net):
        devices = sc["devices"]
        fake = world.NetworkGateway(loop, mon, {n: d for n, d in devices.items() if not d["late"]}, sc["controller"])

        def service(sent):
            a = sent.args
            dev = devices.get(a.get("nodeID")) if isinstance(a, dict) else None
            what = {"NetworkManagementProxy.NodeInfoCachedGet": "info", "NetworkManagementProxy.MultiChannelEndPointGet": "endpoints",
                    "NetworkManagementProxy.MultiChannelCapabilityGet": "capability"}.get(sent.cmd)
            if what and dev and dev["lost"] == what and (what != "capability" or a["endPoint"] % 2):
                mon.count("unanswered")
                return []
            return None

        fake.service_hook = service
        w = world.World(loop, mon, {}, fake=fake)
        added = []

        class Listener:
            def nodeAdded(self, _s, node):
                added.append(node)

        w.app.addListener(Listener())
        await w.start()
        for n, d in devices.items():
            if d["late"]:
                fake.add_device(n, d)
        fake.push_list(0)
        await asyncio.sleep(500)
        return w, added

    (w, added), loop = sim.run(main)
    errors = sim.settle_errors(loop)
    mon.check(not errors, "loop-exception", "exception in the event loop: %s" % (errors and sim.error_text(errors[0])))
    want = set()
    for n, dev in sc["devices"].items():
        key = "%d:0" % n
        want.add(key)
        mon.check(key in w.app.nodes, "not-loaded", "node %d with node information %s was not loaded" % (n, bytes(dev["cc"]).hex()))
        node = w.app.nodes[key]
        cc = [] if dev["lost"] == "info" else dev["cc"]
        supported, exact = model(cc)
        mon.count("nodes judged")
        judge_classes(mon, node, cc, supported, exact, "node %s" % key)
        if dev["lost"] != "info":
            got = (int(node.basicDeviceClass), int(node.genericDeviceClass), int(node.specificDeviceClass), bool(node.listening))
            mon.check(got == (dev["basic"], dev["generic"], dev["specific"], bool(dev["listening"])), "wrong-info", "node %s has %r, reported was %r" % (key, got, dev))
        mon.check((node.nodeId, int(node.rootNodeId), int(node.endpoint)) == (key, n, 0), "wrong-id", "node %d has the ids %r" % (n, (node.nodeId, node.rootNodeId, node.endpoint)))
        if exact:
            mon.check(node.isZWavePlus == (0x5E in supported), "wrong-plus", "node %s: isZWavePlus is %r" % (key, node.isZWavePlus))
        eps = [k for k in w.app.nodes if k.startswith("%d:" % n) and k != key]
        if exact or 0x60 in node.supported:
            count = len(dev["endpoints"]) if 0x60 in node.supported and dev["lost"] != "endpoints" else 0
            names = {"%d:%d" % (n, e) for e in range(1, count + 1)}
            mon.check(set(eps) == names, "wrong-endpoints", "node %d reported %d endpoints, there are %s" % (n, count, sorted(eps)))
        want |= set(eps)
        for flag in (True, False):
            node.flirs = node.isFailed = node.listening = flag
            for k in eps:
                ep = w.app.nodes[k]
                mon.check((bool(ep.flirs), bool(ep.isFailed), bool(ep.listening)) == (flag,) * 3, "wrong-parent-flag", "endpoint %s does not have the flags of its node" % k)
        for k in eps:
            e = int(k.split(":")[1])
            ep = w.app.nodes[k]
            spec = dev["endpoints"][e - 1]
            answered = not (dev["lost"] == "capability" and e % 2)
            ecc = spec["cc"] if answered else []
            esup, eexact = model(ecc)
            mon.count("endpoint nodes judged")
            judge_classes(mon, ep, ecc, esup, eexact, "endpoint %s" % k)
            mon.check((ep.nodeId, int(ep.rootNodeId), int(ep.endpoint)) == (k, n, e), "wrong-id", "endpoint %s has the ids %r" % (k, (ep.nodeId, ep.rootNodeId, ep.endpoint)))
            mon.check(ep.parent is node, "wrong-parent", "the parent of %s is %r" % (k, ep.parent))
            if answered:
                got = int(ep.genericDeviceClass), int(ep.specificDeviceClass)
                mon.check(got == (spec["generic"], spec["specific"]), "wrong-info", "endpoint %s has the device classes %r, reported was %r" % (k, got, spec))
            if dev["lost"] != "info":
                mon.check(int(ep.basicDeviceClass) == dev["basic"], "wrong-info", "endpoint %s has basic class %r, its node %r" % (k, ep.basicDeviceClass, dev["basic"]))
        mon.seen(bytes(x if x in (0xEF, 0xF1, 0) else 1 for x in cc), len(eps), dev["late"], dev["lost"])
    mon.check(set(w.app.nodes) == want, "registry-differs", "the nodes are %s, expected %s" % (sorted(w.app.nodes), sorted(want)))
    mon.check(sorted(n.nodeId for n in added) == sorted(want), "not-announced", "announced: %s, expected %s" % (sorted(n.nodeId for n in added), sorted(want)))
    mon.check(all(w.app.nodes[n.nodeId] is n for n in added), "not-announced", "another node object was announced than registered")


def judge_classes(mon, node, cc, supported, exact, where):
    if 0xEF in cc:
        mon.count("control marks")
    if bytes([0xF1, 0]) in bytes(cc):
        mon.count("security marks")
    if cc and cc[-1] == 0xF1:
        mon.count("truncated marks")
    if not exact:
        mon.count("raw lists")
        return
    got = {k: bool(v.securityS0) for k, v in node.supported.items() if k < 0xF1}
    text = "%s with node information %s" % (where, bytes(cc).hex())
    mon.check(set(got) == set(supported), "wrong-classes", "%s supports %s, expected %s" % (text, [hex(x) for x in sorted(got)], [hex(x) for x in sorted(supported)]))
    mon.check(got == supported, "wrong-security", "%s: security flags %s, expected %s" % (text, got, supported))
    for c, obj in node.supported.items():
        mon.count("classes judged")
        if c not in (0xF1,):
            mon.check(int(obj.id) == c, "wrong-class-object", "%s: the object for class 0x%02X has id 0x%02X" % (text, c, obj.id))
            mon.check(obj.node is node, "wrong-class-object", "%s: class 0x%02X belongs to %r" % (text, c, obj.node))
    for c in range(0xF1):
        mon.check(bool(node.supports(c)) == (c in supported), "wrong-supports", "%s: supports(0x%02X) is %r" % (text, c, node.supports(c)))
