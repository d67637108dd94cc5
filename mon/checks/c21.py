"""C21: configuration parameters against a register map of what was reported."""
import asyncio
import copy

import codec
import devsim
import gw
import sim
import world

ID = "C21"
LEVEL = "exploration"
RULE = ("histories of concurrent cached and uncached reads, writes, spontaneous reports (also supervised, to the listener or on the connection, from the root node or an end point), device side changes and "
        "incomplete, foreign, late, doubled and lost reports for all parameter numbers, the three sizes and boundary values on up to three addresses of two nodes. Non-trivial: distinct sequences of (operation, size, outcome)")
REQUIRE = {"cached reads": 1500, "uncached reads": 2500, "reads answered": 1500, "reads unanswered": 200, "writes": 1500, "writes acknowledged": 800, "writes not acknowledged": 100, "reports delivered": 5000,
           "stored parameters compared": 10000, "supervised reports": 300, "incomplete reports": 100}
ASSUMPTIONS = ["values are unsigned, as in the messages of this library", "a read is answered by any report for its parameter delivered while it waits (C05, C06 judge which)"]
CC = 0x70
TIMEOUT = "timeout"


def plan(tier):
    return dict(cases=300000, seconds=780) if tier == "thorough" else dict(cases=12000, seconds=200)


def value(rng):
    size = rng.choice((1, 2, 4))
    top = (1 << (8 * size)) - 1
    return size, rng.choice((0, 1, top, top >> 1, (top >> 1) + 1, rng.randint(0, top), rng.randint(0, top), rng.randint(0, top)))


def gen(rng, i, tier):
    a, b = rng.sample(range(2, 233), 2)
    keys = rng.choice(([(a, 0)], [(a, 0), (b, 0)], [(a, 0), (a, 1)], [(a, 0), (a, 1), (b, 0)]))
    many = rng.random() < 0.04
    params = sorted({rng.choice((0, 1, 2, 127, 128, 255, rng.randrange(256), rng.randrange(256))) for _ in range(rng.randint(40, 120) if many else rng.randint(1, 5))})
    config = {key: {p: value(rng) for p in range(256) if p in params or rng.random() < 0.05} for key in keys}
    actions, t = [], 0
    gaps = rng.choice(((0, 0, 0.001, 0.02), (0.01, 0.5, 1), (4, 5), (0, 0.3, 4, 10)))
    for _ in range(200 if many else rng.randint(4, 24)):
        t += rng.choice(gaps)
        size, val = value(rng)
        actions.append(dict(t=round(t, 4), kind=rng.choice(("get", "get", "fresh", "fresh", "fresh", "set", "set", "report", "report", "change", "broken")), key=rng.choice(keys), p=rng.choice(params), size=size, value=val,
                            way=rng.choice(("connection", "listener", "supervised")), enum=rng.random() < 0.5, cut=rng.random(), default=rng.random() < 0.5))
    return dict(keys=keys, config=config, actions=actions, faults=devsim.gen_faults(rng, rng.choice((0, 0.1, 0.4)), 60))


def execute(sc, mon):
    sc = copy.deepcopy(sc)
    registers = {key: {} for key in sc["keys"]}  # what was reported last
    incomplete = []
    reports = []  # (t, key, parameter, size, value)
    calls = []

    async def main(loop, net):
        from pyzwave.commandclass import Configuration

        devices = {n: world.device([CC, 0x60, 0x6C], endpoints=[dict(cc=[CC, 0x6C], generic=1, specific=1)] if (n, 1) in sc["keys"] else []) for n in sorted({k[0] for k in sc["keys"]})}
        devices[150 if 150 not in devices else 151] = world.device([CC])
        bystander = 150 if 150 in devices and 150 not in {k[0] for k in sc["keys"]} else 151
        w = world.World(loop, mon, devices)
        fake = w.fake
        await w.start()
        truth = {k: dict(config=dict(c), versions={}, sensors={}, agi=[], groups={}) for k, c in sc["config"].items()}
        dev = devsim.DevSim(fake, truth, sc["faults"], bystander=bystander)
        fake.hosts.update({gw.ip_text(gw.node_ip(n)): n for n in devices})

        deliver = fake._deliver

        def watch(transport, frame, source):
            node = fake.hosts.get((source or transport.remote)[0])
            try:
                name, packet = codec.decode(frame)
                command = packet.get("command") if name == "Zip.ZipPacket" else None
                while command and command[0] == "Supervision.Get":
                    command = command[1]["command"]
            except (ValueError, IndexError):
                command = None
            if command and command[0] == "Configuration.Report" and node is not None:
                key, v = (node, packet["sourceEP"]), command[1]
                mon.count("reports delivered")
                reports.append((loop.time(), key, v["parameterNumber"], v["size"], v["value"]))
                if key in registers:
                    registers[key][v["parameterNumber"]] = (v["size"], v["value"])
            elif b"\x70\x06" in frame:
                incomplete.append((loop.time(), node))
            deliver(transport, frame, source)

        fake._deliver = watch

        def on_set(req, sent):
            if req["name"] == "Configuration.Set" and req["fault"]["kind"] not in ("unacked", "nack", "lost"):
                truth[(req["node"], req["ep"])]["config"][req["args"]["parameterNumber"]] = (req["args"]["size"], req["args"]["value"])
            return []

        dev.other = on_set

        def obj(key):
            return w.node(*key).supported[CC]

        def compare(when):
            for key in sc["keys"]:
                stored = {int(p): (int(v.size), int(v.value)) for p, v in obj(key).parameters.items()}
                mon.count("stored parameters compared", max(1, len(stored)))
                if stored != registers[key]:
                    mon.fail("wrong-store", "%s %d:%d stores %s, reported was %s" % (when, *key, {p: v for p, v in sorted(stored.items()) if registers[key].get(p) != v},
                                                                                  {p: v for p, v in sorted(registers[key].items()) if stored.get(p) != v}))

        async def read(a):
            key, p, cached = a["key"], a["p"], a["kind"] == "get"
            known = registers[key].get(p)
            # reports of this very moment may already count or not
            now = [r for r in reports if r[1] == key and r[2] == p and loop.time() - r[0] < 0.0003]
            if now:
                now += [r for r in reports if r[1] == key and r[2] == p and r not in now][-1:]
            call = dict(a=a, t0=loop.time(), first=len(dev.requests), known=known)
            calls.append(call)
            try:
                call["value"] = await (obj(key).get(p, cached) if a["default"] or not cached else obj(key).get(p))
            except asyncio.TimeoutError:
                call["value"] = TIMEOUT
            call["t1"] = loop.time()
            call["last"] = len(dev.requests)
            if cached and now and (call["value"] is None or call["value"] in [r[4] for r in now]) and call["t1"] == call["t0"]:
                mon.count("reads while reported")
                call["silent"] = True
            elif cached and known is not None and not now:
                mon.count("cached reads")
                mon.check(call["value"] == known[1], "wrong-value", "the cached read of parameter %d of %d:%d returned %r, last reported was %r" % (p, *key, call["value"], known[1]))
                mon.check(call["t1"] == call["t0"] and call["first"] == call["last"], "traffic", "the cached read of parameter %d of %d:%d asked the device" % (p, *key))
                call["silent"] = True

        async def write(a):
            key = a["key"]
            call = dict(a=a, t0=loop.time(), first=len(dev.requests))
            calls.append(call)
            size = Configuration.Size(a["size"]) if a["enum"] else a["size"]
            call["value"] = await obj(key).set(a["p"], size, a["value"])
            call["t1"] = loop.time()
            call["last"] = len(dev.requests)

        tasks = []

        def act(a):
            key, p = a["key"], a["p"]
            if a["kind"] in ("get", "fresh"):
                tasks.append(asyncio.ensure_future(read(a)))
            elif a["kind"] == "set":
                tasks.append(asyncio.ensure_future(write(a)))
            elif a["kind"] == "change":
                truth[key]["config"][p] = (a["size"], a["value"])
            else:
                values = dict(parameterNumber=p, size=a["size"], value=a["value"])
                command = ("Configuration.Report", values)
                if a["kind"] == "broken":
                    mon.count("incomplete reports")
                    raw = codec.encode(*command)
                    command = raw[:2 + int(a["cut"] * (len(raw) - 2))]
                if a["way"] == "supervised":
                    mon.count("supervised reports")
                    inner = command if isinstance(command, bytes) else codec.encode(*command)
                    command = bytes((0x6C, 0x01, 5, len(inner))) + inner
                if a["way"] == "listener" or not net.connected(gw.ip_text(gw.node_ip(key[0]))):
                    fake._unsolicited(key[0], command, None, dict(source=key[1]))
                else:
                    fake._from_node(key[0], command, dict(source=key[1]))
            loop.sim_at(loop.time() + 0.0004, compare, "after %s," % a["kind"])

        base, end = loop.time(), 0
        for a in sc["actions"]:
            loop.sim_at(base + a["t"], act, a)
            end = max(end, a["t"])
        await asyncio.sleep(end + 0.001)
        await asyncio.sleep(300)
        compare("at the end,")
        for task in tasks:
            mon.check(task.done(), "hangs", "a read or write never returned")
            task.result()
        judge(mon, sc, dev, calls, reports, incomplete)

    _, loop = sim.run(main)
    errors = sim.settle_errors(loop)
    mon.check(not errors, "loop-exception", "exception in the event loop: %s" % (errors and sim.error_text(errors[0])))


def judge(mon, sc, dev, calls, reports, incomplete):
    used = set()
    for call in calls:
        a = call["a"]
        key, p = a["key"], a["p"]
        if call.get("silent"):
            continue
        name = "Configuration.Set" if a["kind"] == "set" else "Configuration.Get"
        want = dict(parameterNumber=p, default=0, size=a["size"], value=a["value"]) if a["kind"] == "set" else dict(parameterNumber=p)
        # the request of this call: the calls and the requests are in the same order where they look alike
        mine = [r for r in dev.requests if r["n"] not in used and (r["node"], r["ep"]) == key and r["name"] == name and r["args"] == want and call["t0"] <= r["t"] <= call["t1"]]
        what = "%s of parameter %d of %d:%d" % ("write" if a["kind"] == "set" else "read", p, *key)
        mon.check(mine, "not-sent", "the %s %s did not send %s" % (what, "(%d, %d)" % (a["size"], a["value"]) if a["kind"] == "set" else "", want))
        call["req"] = mine[0]
        used.add(mine[0]["n"])
    for r in dev.requests:
        mon.check(r["n"] in used or r["name"] == "Supervision.Report", "superfluous", "%s %s was sent to %d:%d without any call asking for it" % (r["name"], r["args"], r["node"], r["ep"]))
    for call in calls:
        a = call["a"]
        if call.get("silent"):
            continue
        key, p, req = a["key"], a["p"], call["req"]
        if a["kind"] == "set":
            mon.count("writes")
            # like calls at once are interchangeable
            twins = [c for c in calls if c is not call and c["a"]["kind"] == "set" and not c.get("silent") and c["req"]["args"] == req["args"] and c["a"]["key"] == key and c["t0"] == call["t0"]]
            acked = req["ack"] is not None
            mon.count("writes acknowledged" if acked else "writes not acknowledged")
            if not twins:
                mon.check(call["value"] is acked, "wrong-result", "the write of parameter %d of %d:%d returned %r, it was %s" % (p, *key, call["value"], "acknowledged" if acked else "not acknowledged"))
            continue
        mon.count("uncached reads")
        got = [r[4] for r in reports if r[1] == key and r[2] == p and call["t0"] <= r[0] <= call["t1"]]
        if call["value"] is TIMEOUT:
            mon.count("reads unanswered")
            twins = [c for c in calls if c is not call and c["a"]["kind"] != "set" and not c.get("silent") and c["a"]["key"] == key and c["a"]["p"] == p]
            mon.check(req["outcome"] != "ok" or twins, "no-value", "the read of parameter %d of %d:%d timed out, the device had answered in time" % (p, *key))
        else:
            mon.count("reads answered")
            broken = call["value"] is None and any(b[1] == key[0] and call["t0"] <= b[0] <= call["t1"] for b in incomplete)
            mon.check(call["value"] in got or broken, "wrong-value", "the read of parameter %d of %d:%d returned %r, the device reported %r meanwhile" % (p, *key, call["value"], got))
    mon.seen([(c["a"]["kind"], c["a"]["size"], bool(c["value"]), c.get("silent")) for c in calls][:12])
