"""C23: network management calls against a reference gateway."""
import asyncio

import codec
import gw
import sim
import world

ID = "C23"
LEVEL = "exploration"
RULE = ("histories of 3-700 sequential and concurrent network management calls with all arguments on a connected gateway; every answer may be lost, late, doubled, before its acknowledgement, for another node or end point, "
        "or the command refused or not acknowledged; failed nodes and devices change in between. Non-trivial: distinct sequences of (call, fault, result)")
REQUIRE = {"calls": 12000, "queries answered": 5000, "queries unanswered": 500, "commands accepted": 3000, "commands not accepted": 200, "cached node lists": 300, "node lists requested": 300,
           "foreign answers": 250, "concurrent calls": 2000, "histories past the sequence wrap": 15, "removals reported after 3 s": 40}
ASSUMPTIONS = ["an answer that comes after the usual 3 seconds (10 for a removal) may count or not", "a late or doubled answer for the same node answers a later request for it just as well"]
NMP, NMI = world.NMP, world.NMI
FAULTS = ("lost", "late", "dup", "early", "foreign", "unacked", "unacked-lost", "nack", "slow", "waiting")
QUERIES = {"getNodeList": ("NodeListGet", "NodeListReport", NMP), "getFailedNodeList": ("FailedNodeListGet", "FailedNodeListReport", NMP), "getNodeInfo": ("NodeInfoCachedGet", "NodeInfoCachedReport", NMP),
           "getMultiChannelEndPoints": ("MultiChannelEndPointGet", "MultiChannelEndPointReport", NMP), "getMultiChannelCapability": ("MultiChannelCapabilityGet", "MultiChannelCapabilityReport", NMP),
           "removeFailedNode": ("FailedNodeRemove", "FailedNodeRemoveStatus", NMI)}
COMMANDS = {"addNode": "NodeAdd", "addNodeStop": "NodeAdd", "removeNode": "NodeRemove", "removeNodeStop": "NodeRemove", "addNodeDSKSet": "NodeAddDSKSet", "addNodeKeysSet": "NodeAddKeysSet"}


def plan(tier):
    return dict(cases=300000, seconds=780) if tier == "thorough" else dict(cases=12000, seconds=200)


def gen_call(rng, nodes):
    name = rng.choice(list(QUERIES) * 2 + list(COMMANDS))
    node = rng.choice(nodes + [rng.randrange(1, 256)])
    c = dict(name=name, args=())
    if name in ("getNodeInfo", "getMultiChannelEndPoints", "removeFailedNode"):
        c["args"] = (node,)
    elif name == "getMultiChannelCapability":
        c["args"] = (node, rng.choice((1, 1, 2, 3, 127, rng.randrange(128))))
    elif name == "addNode":
        c["args"] = (rng.choice((0, 2, 0x20, 0x22)),)
    elif name == "addNodeDSKSet":
        n = rng.choice((0, 2, 2, 16, rng.randrange(16)))
        c["args"] = (rng.random() < 0.5, min(n, 15), rng.randbytes(n))
    elif name == "addNodeKeysSet":
        c["args"] = (rng.random() < 0.5, rng.random() < 0.5, rng.choice((0, 1, 2, 4, 7, 0x80, 0x87)))
    c["fault"] = rng.choice(FAULTS) if rng.random() < 0.3 else "ok"
    c["ack"], c["reply"] = rng.choice((0.001, 0.01, 0.5)), rng.choice((0.002, 0.02, 0.9))
    c["late"], c["pick"], c["status"] = rng.choice((3.6, 4.7, 7, 14)), rng.random(), rng.choice((0, 1, 2))
    c["gap"] = rng.choice((0, 0, None, None, None, 0.005, 5))  # None: after the previous call returned
    return c


def gen(rng, i, tier):
    many = rng.random() < 0.03
    nodes = rng.sample(range(1, 233), rng.choice((20, 60, 120)) if many else rng.randint(1, 5))
    devices = {}
    for n in nodes:
        k = 0 if many else rng.choice((0, 0, 1, 3, 5) * 6 + (127, 128, 254))
        devices[n] = world.device(rng.sample(range(0x20, 0xEF), rng.choice((0, 3, 10))), rng.randrange(256), rng.randrange(256), rng.randrange(256), rng.random() < 0.5,
                                  [dict(cc=rng.sample(range(0x20, 0xEF), rng.choice((0, 2, 9))), generic=rng.randrange(256), specific=rng.randrange(256)) for _ in range(k)], rng.choice((0, k, k // 2)) if k < 127 else k // 2)
    long_run = i % 100 == 7
    n = rng.randint(300, 700) if long_run else rng.choice((3, 6, 12, 25))
    calls = [gen_call(rng, nodes) for _ in range(n)]
    if not long_run and rng.random() < 0.02:
        rng.choice(calls)["gap"] = rng.choice((4000, 100000))
    if long_run:
        for c in calls:
            c["gap"] = None if c["gap"] == 5 else c["gap"]
            if rng.random() < 0.8:
                c["fault"] = "ok"
    return dict(devices=devices, controller=rng.choice((1 if 1 not in nodes else min(set(range(1, 233)) - set(nodes)), min(set(range(1, 233)) - set(nodes)), 232 if 232 not in nodes else min(set(range(1, 233)) - set(nodes)))),
                calls=calls, full=rng.random() < 0.3, failed=[rng.sample(sorted({*nodes, 77, 232}), rng.randint(0, len(nodes) if many else 2)) for _ in range(4)])


def expected_request(c):
    a = c["args"]
    name = c["name"]
    if name in ("getNodeList", "getFailedNodeList"):
        return {}
    if name == "getNodeInfo":
        return dict(nodeID=a[0], maxAge=15)
    if name in ("getMultiChannelEndPoints", "removeFailedNode"):
        return dict(nodeID=a[0])
    if name == "getMultiChannelCapability":
        return dict(nodeID=a[0], endPoint=a[1])
    if name == "addNode":
        return dict(mode=7, txOptions=a[0])
    if name == "addNodeStop":
        return dict(mode=5, txOptions=0)
    if name == "removeNode":
        return dict(mode=1)
    if name == "removeNodeStop":
        return dict(mode=5)
    if name == "addNodeDSKSet":
        return dict(accept=int(a[0]), inputDSKLength=a[1], dsk=a[2])
    return dict(grantCSA=int(a[0]), accept=int(a[1]), grantedKeys=a[2])


def execute(sc, mon):
    calls = [dict(c, n=n) for n, c in enumerate(sc["calls"])]
    ctx = {}

    async def main(loop, net):
        fake = world.NetworkGateway(loop, mon, sc["devices"], sc["controller"])
        zipgw = gw.new_gateway()
        if sc["full"]:
            await zipgw.connect()
        else:
            await gw.connect_only(zipgw)
        ctx["skip"] = len(fake.wire)
        known = [set(fake.node_list()) if sc["full"] else set()]
        running, requests, replies = [], [], []

        def match(sent):
            """The running call this request belongs to (equal ones are interchangeable)"""
            for c in running:
                if "req" not in c and request_name(c) == sent.cmd and all(sent.args.get(k) == v for k, v in expected_request(c).items()):
                    return c
            return None

        def on_ack(sent):
            if sent.cmd is None or not sent.cmd.startswith("NetworkManagement"):
                return None
            c = match(sent)
            mon.check(c is not None, "unexpected", "%s %s was sent, which no call asked for: %s" % (sent.cmd, sent.args, [(x["name"], x["args"]) for x in running]))
            mon.check(sent.host == gw.GW_IP and sent.packet["sourceEP"] == 0 and sent.packet["destEP"] == 0, "wrong-target", "%r was not sent to the gateway itself" % sent)
            requests.append(sent)
            c["req"] = sent
            fault = c["fault"]
            c["acked"] = None
            if fault in ("unacked", "unacked-lost"):
                return []
            if fault == "nack":
                return [(c["ack"], codec.zip_packet(None, seq=sent.seq, nackResponse=1))]
            c["acked"] = sent.t + c["ack"]
            if fault == "waiting":
                c["acked"] = sent.t + 20
                return [(0.01, codec.zip_waiting(sent.seq, 30)), (20, codec.zip_ack(sent.seq))]
            return [(c["ack"], codec.zip_ack(sent.seq))]

        def on_command(sent):
            c = next((c for c in calls if c.get("req") is sent), None)
            if c is None:
                return None
            if c["name"] == "removeFailedNode":
                reply = (NMI + "FailedNodeRemoveStatus", dict(seqNo=sent.args["seqNo"], status=c["status"], nodeID=sent.args["nodeID"]))
            else:
                fake.failed = set(sc["failed"][(c["n"] // 3) % 4])
                reply = fake.network(sent)
            c["certain"] = False
            if reply is None or c["name"] in COMMANDS:
                return []
            fault = c["fault"]
            base = (c["acked"] or sent.t + c["ack"]) - sent.t
            delay = base + c["reply"]
            if fault in ("lost", "nack", "unacked-lost"):
                return []
            if fault == "late":
                delay = base + c["late"]
            elif fault == "early":
                delay = base / 2
            elif fault == "unacked":
                delay = c["late"]
            elif fault == "waiting" and c["pick"] < 0.5:
                delay = 5
            c["certain"] = fault not in ("late", "unacked")
            if c["name"] == "removeFailedNode" and fault == "late" and c["late"] < 9:
                mon.count("removals reported after 3 s")
                c["certain"] = True
            if fault == "foreign":
                mon.count("foreign answers")
                for other in foreign(reply, c):
                    deliver(delay / 2, other, None, None)
            deliver(delay, reply, c, None)
            if fault == "dup":
                deliver(delay + (0.001, 0.4, 5)[int(c["pick"] * 3)], reply, c, None)
            return []

        # answers nobody asked for must not be mistaken for those to a call running at the same time
        asked = {x["args"][0] for x in calls if x["args"]}
        asked_eps = {x["args"][1] for x in calls if x["name"] == "getMultiChannelCapability"}

        def foreign(reply, c):
            name, values = reply
            if "nodeID" in values:
                other = next(n for n in range(1, 300) if (n + values["nodeID"]) % 256 not in asked)
                yield name, dict(values, nodeID=(other + values["nodeID"]) % 256, **({"genericDeviceClass": 0x77, "commandClass": b"\x99"} if "genericDeviceClass" in values else {"individualEndPoints": 99} if "individualEndPoints" in values else
                                                                                   {"status": (values["status"] + 1) % 3}))
            if "endPoint" in values:
                other = next(n for n in range(1, 129) if (n + values["endPoint"]) % 128 not in asked_eps)
                yield name, dict(values, endPoint=(values["endPoint"] + other) % 128, genericDeviceClass=0x77)
            if name.endswith("NodeInfoCachedReport"):
                yield name, dict(values, seqNo=(values["seqNo"] - 1 - int(c["pick"] * 20)) & 0xFF, genericDeviceClass=0x77, commandClass=b"\x99")

        transport = net.connected(gw.GW_IP)[0]

        def deliver(delay, reply, c, _):
            def now():
                replies.append((loop.time(), reply, c))
                fake._deliver(transport, codec.zip_packet(reply), None)

            loop.sim_at(loop.time() + delay, now)

        fake.ack_hook, fake.command_hook = on_ack, on_command

        async def run(c):
            from pyzwave.adapter import TxOptions
            from pyzwave.commandclass import NetworkManagementInclusion as inclusion
            from pyzwave.types import dsk_t

            args = list(c["args"])
            if c["name"] == "addNode":
                args[0] = TxOptions(args[0])
            elif c["name"] == "addNodeKeysSet":
                args[2] = inclusion.Keys(args[2])
            elif c["name"] == "addNodeDSKSet" and c["pick"] < 0.5:
                args[2] = dsk_t(args[2])  # the documented type
            mon.count("calls")
            if running:
                mon.count("concurrent calls")
            c["t0"] = loop.time()
            c["cached"] = set(known[0]) if c["name"] == "getNodeList" else None
            c["overlap"] = bool([x for x in running if x["name"] == "getNodeList"])
            running.append(c)
            try:
                c["result"] = await getattr(zipgw, c["name"])(*args)
            finally:
                running.remove(c)
            c["t1"] = loop.time()
            if c["name"] == "getNodeList":
                if c["result"]:
                    known[0] = set(c["result"])
                c["controller"] = zipgw.nodeId

        tasks = []
        for c in calls:
            if c["gap"]:
                await asyncio.sleep(c["gap"])
            tasks.append(asyncio.ensure_future(run(c)))
            if c["gap"] is None:
                done, _ = await asyncio.wait([tasks[-1]], timeout=600)
                mon.check(done, "hangs", "%s%r did not return within 600 s" % (c["name"], c["args"]))
            else:
                await asyncio.sleep(0)
        if tasks:
            done, left = await asyncio.wait(tasks, timeout=20 * len(tasks) + 600)
            mon.check(not left, "hangs", "%d calls did not return" % len(left))
        for t in tasks:
            t.result()
        ctx.update(requests=requests, replies=replies, fake=fake)

    _, loop = sim.run(main)
    errors = sim.settle_errors(loop)
    mon.check(not errors, "loop-exception", "exception in the event loop: %s" % (errors and sim.error_text(errors[0])))
    judge(mon, sc, calls, ctx)


def request_name(c):
    if c["name"] in QUERIES:
        request, _report, prefix = QUERIES[c["name"]]
        return prefix + request
    return NMI + COMMANDS[c["name"]]


def fields_equal(report, values, names):
    for f in names:
        got = getattr(report, f)
        if got is None or (bytes(got) if isinstance(values[f], bytes) else int(got)) != values[f]:
            return False
    return True


def same(c, result, values):
    """Is the result what this report says?"""
    name = c["name"]
    if name == "getNodeList":
        return set(result) == set(values["nodes"])
    if name == "getFailedNodeList":
        return set(result) == set(values["failedNodeList"])
    if name == "getMultiChannelEndPoints":
        return int(result) == values["individualEndPoints"] + values["aggregatedEndPoints"]
    if name == "removeFailedNode":
        return int(result) == values["status"]
    if name == "getNodeInfo":
        return fields_equal(result, values, ("status", "age", "listening", "optFunc", "basicDeviceClass", "genericDeviceClass", "specificDeviceClass")) and bytes(result.commandClass or b"") == values["commandClass"]
    return fields_equal(result, values, ("nodeID", "endPoint", "genericDeviceClass", "specificDeviceClass")) and bytes(result.commandClass or b"") == values["commandClass"]


def empty(c, result):
    name = c["name"]
    if name in ("getNodeList", "getFailedNodeList"):
        return result is not None and len(result) == 0
    if name == "getMultiChannelEndPoints":
        return result == 0
    if name == "removeFailedNode":
        return int(result) == 2
    return type(result).__name__ == QUERIES[name][1] and not result.commandClass and not result.genericDeviceClass and result.nodeID in (None, 0)


def show(c, result):
    if hasattr(result, "debugString"):
        return result.debugString().replace("\n", " ").replace("\t", "")
    return repr(result)


def judge(mon, sc, calls, ctx):
    replies = ctx["replies"]
    for c in calls:
        what = "%s%r" % (c["name"], c["args"])
        if c["name"] in COMMANDS:
            mon.check("req" in c, "not-sent", "%s sent nothing matching %s %s" % (what, request_name(c), expected_request(c)))
            accepted = c["acked"] is not None
            mon.count("commands accepted" if accepted else "commands not accepted")
            # equal calls at once are interchangeable
            twins = [x for x in calls if x is not c and x["name"] == c["name"] and x["args"] == c["args"] and x["t0"] <= c["t1"] and c["t0"] <= x["t1"]]
            if not twins:
                mon.check(c["result"] is accepted, "wrong-result", "%s returned %r, the command was %s" % (what, c["result"], "accepted" if accepted else "not accepted (%s)" % c["fault"]))
            continue
        if c["name"] == "getNodeList" and "req" not in c:
            mon.count("cached node lists")
            mon.check(c["cached"] or c["overlap"], "not-sent", "getNodeList() asked nobody, although no node list is known")
            mon.check(set(c["result"]) in ([c["cached"]] if not c["overlap"] else [c["cached"]] + [set(r[1][1]["nodes"]) for r in replies if r[1][0].endswith("NodeListReport") and "nodes" in r[1][1]]),
                      "wrong-result", "getNodeList() returned %s, the known list is %s" % (sorted(c["result"]), sorted(c["cached"])))
            continue
        mon.check("req" in c, "not-sent", "%s sent nothing matching %s %s" % (what, request_name(c), expected_request(c)))
        if c["name"] == "getNodeList":
            mon.count("node lists requested")
            mon.check(not c["cached"], "superfluous", "getNodeList() asked the gateway although the list is known")
        report = QUERIES[c["name"]][2] + QUERIES[c["name"]][1]
        got = [r[1][1] for r in replies if r[1][0] == report and c["t0"] <= r[0] <= c["t1"] and (r[2] is not None and r[2]["args"] == c["args"])]
        if not got:
            mon.count("queries unanswered")
            due = [r for r in replies if r[2] is c and c.get("certain") and r[0] > c["t1"]]
            mon.check(not due, "gave-up", "%s returned %s after %.2f s, the answer came after %.2f s" % (what, show(c, c["result"]), c["t1"] - c["t0"], due[0][0] - c["t0"] if due else 0))
            mon.check(empty(c, c["result"]), "not-empty", "%s was not answered, but returned %s" % (what, show(c, c["result"])))
        else:
            mon.count("queries answered")
            twins = [x for x in calls if x is not c and x["name"] == c["name"] and x["args"] == c["args"] and x["t0"] <= c["t1"] and c["t0"] <= x["t1"]]
            ok = any(same(c, c["result"], v) for v in got) or ((not c.get("certain") or twins) and empty(c, c["result"]))
            mon.check(ok, "wrong-result", "%s returned %s, the gateway reported %s" % (what, show(c, c["result"]), got))
        if c["name"] == "getNodeList" and c["result"]:
            mon.check(c["controller"] == sc["controller"], "wrong-controller", "the controller is node %s, the adapter has %s" % (sc["controller"], c["controller"]))
    seqs = [s.args["seqNo"] for s in ctx["requests"]]
    for a, b in zip(ctx["requests"], ctx["requests"][1:]):
        mon.check(a.args["seqNo"] != b.args["seqNo"], "same-sequence", "%s and the following %s both have the sequence number %d" % (a.cmd, b.cmd, a.args["seqNo"]))
    if len(seqs) > 256:
        mon.count("histories past the sequence wrap")
    mon.seen([(c["name"], c["fault"]) for c in calls][:10])
