"""C06: concurrent requests, replies, acknowledgement losses, timeouts and cancellations."""
import asyncio

import codec
import gw
import sim
import world
from checks.c04 import decode_quiet

ID = "C06"
LEVEL = "exploration"
RULE = ("concurrent requests of nine reply types to the gateway, two nodes and an endpoint through the public request methods and explicit waits; uniquely tagged replies before, "
        "together with and after the acknowledgement, duplicated, late, for other types/nodes/endpoints, over node connections and the unsolicited listener; lost, negative and "
        "late acknowledgements; cancellations at any time. Non-trivial: distinct sequences of request results")
REQUIRE = {"requests through command classes": 2000, "requests judged": 2000, "replied": 600, "timed out": 200, "unacked": 100, "cancelled": 100, "early replies": 100, "listener messages judged": 400,
           "concurrent same-type requests": 200}
ASSUMPTIONS = ["events at the exact timeout instant may count either way",
               "what a request that was not acknowledged returns is only required to be a timeout or the first matching message"]
EPS = 1e-4

TYPES = {
    "man": ("ManufacturerSpecific.Get", "ManufacturerSpecific.Report"),
    "cfg": ("Configuration.Get", "Configuration.Report"),
    "ver": ("Version.VersionGet", "Version.VersionReport"),
    "bas": ("Basic.Get", "Basic.Report"),
    "bat": ("Battery.Get", "Battery.Report"),
    "ind": ("Indicator.Get", "Indicator.Report"),
    "swb": ("SwitchBinary.Get", "SwitchBinary.Report"),
    "zwp": ("ZwavePlusInfo.Get", "ZwavePlusInfo.Report"),
    "grp": ("Association.GroupingsGet", "Association.GroupingsReport"),
}
# Reports of one byte
BYTES = {"bas": "value", "ind": "value", "swb": "value", "bat": "batteryLevel", "grp": "supportedGroupings"}
OWNERS = ("gw", "7:0", "9:0", "9:2")


def answers(req, m):
    """Whether the message can be the reply: a requested parameter only is answered by a report of it"""
    return req["typ"] != "cfg" or req["how"] != "sar" or m.get("param", 1) == req.get("param", 1)


def reply_of(typ, tag, param=1):
    if typ == "man":
        return (TYPES[typ][1], dict(manufacturerID=tag, productTypeID=0xFFFF - tag, productID=7))
    if typ == "cfg":
        return (TYPES[typ][1], dict(parameterNumber=param, size=4, value=tag))
    if typ == "ver":
        return (TYPES[typ][1], dict(zwaveLibraryType=tag >> 8, zwaveProtocolVersion=tag & 0xFF, zwaveProtocolSubVersion=1,
                                    applicationVersion=2, applicationSubVersion=3))
    if typ == "zwp":
        return (TYPES[typ][1], dict(zwavePlusVersion=1, roleType=5, nodeType=0, installerIconType=tag, userIconType=0))
    return (TYPES[typ][1], {BYTES[typ]: tag & 0xFF})


def tag_of(typ, msg):
    if typ == "man":
        return int(msg.manufacturerID)
    if typ == "cfg":
        return int(msg.value)
    if typ == "ver":
        return int(msg.zwaveLibraryType) << 8 | int(msg.zwaveProtocolVersion)
    if typ == "zwp":
        return int(msg.installerIconType)
    return int(getattr(msg, BYTES[typ]))


def plan(tier):
    return dict(cases=80000, seconds=780) if tier == "thorough" else dict(cases=6500, seconds=200)


def gen(rng, i, tier):
    reqs, msgs = [], []
    t = 0.0
    spread = rng.choice((0, 0.01, 0.5, 3))
    types = rng.sample(sorted(TYPES), rng.choice((1, 2, 4, 4, len(TYPES))))
    owners = rng.sample(OWNERS, rng.choice((1, 2, 4)))
    burst, slow = rng.random() < 0.1, rng.random() < 0.06
    tag = 0
    for _ in range(rng.randint(12, 40) if burst else rng.randint(1, 14)):
        req = dict(at=t, owner=rng.choice(owners), typ=rng.choice(types), timeout=rng.choice((3, 3, 3, 1, 10) * 3 + (0, 0.05, 0.4) if not slow else (3, 10, 45, 200, 5000)), cancel=None,
                   how=rng.choice(("sar", "sar", "sar", "wait", "session")))
        if rng.random() < 0.15:
            req["how"] = "sar"
        req["through"] = req["owner"] != "gw" and rng.random() < 0.3  # through a command class
        if req["typ"] == "cfg":
            req["param"] = rng.choice((1, 1, 200, 0, 2))
        r = rng.random()
        ack = rng.choice((0.0, 0.01, 0.01, 0.1, 1.0, 2.9))
        req["ack"] = ack if r < 0.82 else (None if r < 0.9 else "nack" if r < 0.95 else 3.5)
        if rng.random() < 0.15:
            req["cancel"] = rng.choice((0, 0.005, 0.5, rng.uniform(0, 4)))
        reqs.append(req)
        base = ack
        for _ in range(rng.choice((0, 1, 1, 1, 2))):
            tag += 1
            delay = rng.choice((0.0, base, base / 2, base + 0.001, base + rng.uniform(0, req["timeout"]), base + req["timeout"] + 0.2, base + req["timeout"]))
            msgs.append(dict(at=t + delay, owner=req["owner"], typ=req["typ"], tag=tag, via="unsol" if req["owner"] != "gw" and rng.random() < 0.3 else "conn"))
        t += rng.choice((0, 0, spread, spread * rng.random()))
    for _ in range(rng.choice((0, 2, 8))):
        tag += 1
        owner = rng.choice(owners)
        msgs.append(dict(at=rng.uniform(0, t + 8), owner=owner, typ=rng.choice(types), tag=tag,
                         via="unsol" if owner != "gw" and rng.random() < 0.5 else "conn"))
    for m in msgs:
        if m["typ"] == "cfg":
            m["param"] = rng.choice((1, 1, 1, 200, 0, 2))
    # afterwards, when everything has ended, listeners must hear everything
    quiet = t + 40 + (5000 if slow else 0)
    for owner in owners:
        for typ in types:
            tag += 1
            msgs.append(dict(at=quiet, owner=owner, typ=typ, tag=tag, via="conn"))
    starts = {r["at"] for r in reqs}
    for m in msgs:
        while m["at"] in starts:  # a message at the very instant a request starts may count either way
            m["at"] += 0.0004
    return dict(reqs=reqs, msgs=msgs, end=quiet + 5, supported=rng.random() < 0.3)


def execute(sc, mon):
    results = {}
    heard = []
    sent_at = {}
    ctx = {}

    async def main(loop, net):
        import pyzwave.commandclass as cc
        from pyzwave.commandclass.CommandClass import CommandClass

        def cls(name):
            module, attr = name.split(".")
            return getattr(getattr(cc, module), attr)

        base = [0x60, 0x86, 0x72, 0x20] if sc["supported"] else [0x60]
        devices = {7: world.device(base), 9: world.device(base, endpoints=[dict(cc=base, generic=1, specific=1)] * 2)}
        w = world.World(loop, mon, devices)
        fake = ctx["fake"] = w.fake
        await w.start()
        await w.zip.connectToNode(7)
        await w.zip.connectToNode(9)
        start = loop.time()
        ctx["start"] = start
        owners = {"gw": w.zip, "7:0": w.node(7), "9:0": w.node(9), "9:2": w.node(9, 2)}

        class Listener:
            """Node level listener"""

            def __init__(self, owner):
                self.owner = owner

            def onMessage(self, _node, message):
                note(self.owner, message)
                return True

        class AppListener:
            """Messages from the gateway itself"""

            def messageReceived(self, _app, message):
                note("gw", message)
                return True

        def note(owner, message):
            from pyzwave.message import Message

            for typ, names in TYPES.items():
                if isinstance(message, cls(names[1])):
                    fake.order += 1
                    heard.append((owner, typ, tag_of(typ, message), loop.time()))
                    assert isinstance(message, Message)

        for key in OWNERS[1:]:
            owners[key].addListener(Listener(key))
        w.app.addListener(AppListener())

        current = {}

        def acks(sent):
            k = current.get((sent.host, sent.packet["destEP"], sent.cmd))
            if k is None:
                return None
            req = sc["reqs"][k]
            results[k]["sent"] = sent
            if req["ack"] is None:
                return []
            if req["ack"] == "nack":
                return [(0.01, codec.zip_packet(None, seq=sent.seq, nackResponse=1))]
            return [(req["ack"], codec.zip_ack(sent.seq))]

        fake.ack_hook = acks

        def deliver(m):
            typ, owner = m["typ"], m["owner"]
            command = reply_of(typ, m["tag"], m.get("param", 1))
            fake.order += 1
            sent_at[m["tag"]] = (fake.order, loop.time())
            if owner == "gw":
                fake._deliver(net.connected(gw.GW_IP)[0], codec.zip_packet(command), None)
                return
            node, ep = map(int, owner.split(":"))
            if m["via"] == "unsol":
                fake._unsolicited(node, command, None, dict(source=ep))
            else:
                fake._from_node(node, command, dict(source=ep))

        for m in sorted(sc["msgs"], key=lambda m: m["at"]):
            loop.sim_at(start + m["at"], deliver, m)

        async def one(k, req):
            await asyncio.sleep(req["at"])
            owner = owners[req["owner"]]
            ask, answer = (cls(n) for n in TYPES[req["typ"]])
            cmd = ask(parameterNumber=req.get("param", 1)) if req["typ"] == "cfg" else ask()
            fake.order += 1
            entry = results[k] = dict(start=loop.time(), order=fake.order)
            if req["how"] == "sar":
                host = gw.GW_IP if req["owner"] == "gw" else gw.ip_text(gw.node_ip(int(req["owner"].split(":")[0])))
                ep = 0 if req["owner"] == "gw" else int(req["owner"].split(":")[1])
                current[(host, ep, TYPES[req["typ"]][0])] = k
            try:
                if req["how"] == "sar":
                    if req["through"]:
                        owner = CommandClass.load(0x20, False, owner)
                        mon.count("requests through command classes")
                    msg = await owner.sendAndReceive(cmd, answer, timeout=req["timeout"])
                elif req["how"] == "wait":
                    msg = await owner.waitForMessage(answer, timeout=req["timeout"])
                else:
                    session = owner.addWaitingSession(answer)
                    msg = await owner.waitForMessage(answer, session=session, timeout=req["timeout"])
                entry["result"] = ("msg", isinstance(msg, answer) and tag_of(req["typ"], msg))
            except asyncio.CancelledError:
                entry["result"] = ("cancelled",)
                raise
            except asyncio.TimeoutError:
                entry["result"] = ("timeout",)
            except Exception as error:  # pylint: disable=broad-except
                entry["result"] = ("raised", error)
            finally:
                fake.order += 1
                entry["end"], entry["end_order"] = loop.time(), fake.order

        tasks = [asyncio.ensure_future(one(k, req)) for k, req in enumerate(sc["reqs"])]
        for task, req in zip(tasks, sc["reqs"]):
            if req["cancel"] is not None:
                loop.call_later(req["at"] + req["cancel"], task.cancel)
        await asyncio.sleep(sc["end"])
        for k, task in enumerate(tasks):
            mon.check(task.done(), "hang", "request %r is still pending long after its timeout" % (sc["reqs"][k],))
        await asyncio.gather(*tasks, return_exceptions=True)

    _, loop = sim.run(main)
    judge(sc, mon, results, heard, sent_at, ctx["fake"], ctx["start"])
    errors = sim.settle_errors(loop)
    mon.check(not errors, "loop-exception", "exception in the event loop: %s" % (errors and sim.error_text(errors[0])))


def ack_time(entry, fake):
    """When the request was positively acknowledged, or None"""
    sent = entry.get("sent")
    if sent is None:
        return None
    for order, t, transport, frame in fake.delivered:
        if transport is sent.transport and order > sent.order:
            name, v = decode_quiet(frame)
            if name == "Zip.ZipPacket" and v["ackResponse"] and v["seqNo"] == sent.seq:
                return t
            if t > sent.t + 4:
                return None
    return None


def judge(sc, mon, results, heard, sent_at, fake, base):
    key = []
    by_key = {}
    for m in sc["msgs"]:
        by_key.setdefault((m["owner"], m["typ"]), []).append(m)
    for items in by_key.values():
        items.sort(key=lambda m: sent_at[m["tag"]][0])
    spans = {}
    for k, req in enumerate(sc["reqs"]):
        entry = results.get(k)
        if entry is None:
            continue
        mon.count("requests judged")
        where = "request %d %r" % (k, req)
        result = entry["result"]
        mon.check(result[0] != "raised", "request-raised", "%s raised %r" % (where, result[1:]),
                  result[0] == "raised" and __import__("core").describe(result[1]))
        stream = [m for m in by_key.get((req["owner"], req["typ"]), []) if answers(req, m)]
        low = lambda tag: tag & 0xFF if req["typ"] in BYTES else tag  # noqa: E731
        after = [m for m in stream if sent_at[m["tag"]][0] > entry["order"]]
        first = after[0] if after else None
        spans.setdefault((req["owner"], req["typ"]), []).append((entry["start"], entry["end"], entry["order"], entry["end_order"], req))
        if result[0] == "cancelled":
            mon.count("cancelled")
            key.append("c")
            continue
        if req["how"] == "sar":
            mon.check("sent" in entry or sent_by(entry, req, sc, results), "not-sent", "%s transmitted nothing" % where)
            # two requests for the same command to the same owner at the same instant share the hook entry
            if "sent" not in entry:
                continue
            ta = ack_time(entry, fake)
            if ta is not None and ta - entry["start"] > 3 - EPS:
                ta = "late" if ta - entry["start"] > 3 + EPS else "tie"
        else:
            ta = entry["start"]
        if ta in (None, "late", "tie"):
            mon.count("unacked")
            mon.check(result[0] == "timeout" or (first is not None and result == ("msg", low(first["tag"]))), "wrong-reply",
                      "%s was not acknowledged and returned %r, the first matching message was %r" % (where, result, first))
            mon.check(entry["end"] <= entry["start"] + 3 + req["timeout"] + EPS, "late-end", "%s ended %.3f s after its start" % (where, entry["end"] - entry["start"]))
            key.append("u")
            continue
        deadline = ta + req["timeout"]
        tm = sent_at[first["tag"]][1] if first else None
        if first is not None and abs(tm - deadline) <= EPS:
            key.append("tie")
            continue
        if first is not None and tm < deadline:
            if tm < ta:
                mon.count("early replies")
            mon.check(result == ("msg", low(first["tag"])), "wrong-reply", "%s acknowledged at %.3f returned %r, the first matching message was %r at %.3f" % (
                where, ta - base, result, first, tm - base))
            mon.check(abs(entry["end"] - max(ta, tm)) <= EPS, "late-end", "%s: reply at %.3f, ack at %.3f, returned at %.3f" % (
                where, tm - base, ta - base, entry["end"] - base))
            mon.count("replied")
            key.append("m")
        else:
            mon.check(result == ("timeout",), "wrong-reply", "%s acknowledged at %.3f returned %r, but nothing matching arrived in time" % (where, ta - base, result))
            mon.check(abs(entry["end"] - deadline) <= EPS, "late-end", "%s timed out at %.3f, expected %.3f" % (where, entry["end"] - base, deadline - base))
            mon.count("timed out")
            key.append("t")
    for items in spans.values():
        for i, a in enumerate(items):
            if any(b[0] < a[1] and a[0] < b[1] for b in items[i + 1:]):
                mon.count("concurrent same-type requests")
    # Messages no request was waiting for
    counts = {}
    for owner, typ, tag, _t in heard:
        counts[(owner, typ, tag)] = counts.get((owner, typ, tag), 0) + 1
    for (owner, typ), items in by_key.items():
        for m in items:
            order, t = sent_at[m["tag"]]
            tag = m["tag"] & 0xFF if typ in BYTES else m["tag"]
            got = counts.get((owner, typ, tag), 0)
            same = sum(1 for o in items if (o["tag"] & 0xFF if typ in BYTES else o["tag"]) == tag)
            mon.check(got <= same, "duplicated", "message %r was passed to the listeners %d times" % (m, got))
            open_now = [s for s in spans.get((owner, typ), []) if s[2] < order and s[1] >= t - EPS and answers(s[4], m)]
            if not open_now and same == 1:
                # with the type's command class supported and a handler for it, listeners may be satisfied before
                mon.count("listener messages judged")
                mon.check(got == 1, "swallowed", "no request was waiting for %r, but the listeners got it %d times" % (m, got))
    mon.seen(tuple(key))


def sent_by(entry, req, sc, results):
    """Concurrent identical requests: the transmission may have been credited to a sibling"""
    return any(o.get("sent") is not None and sc["reqs"][j]["owner"] == req["owner"] and sc["reqs"][j]["typ"] == req["typ"]
               for j, o in results.items())
