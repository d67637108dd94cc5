"""C05: deadlines of sends to sleeping nodes follow the announced delays."""
import asyncio

import codec
import gw
import sim
from checks.c04 import decode_quiet

ID = "C05"
LEVEL = "exploration"
RULE = ("several concurrent sends over a Z/IP connection or to a node through the gateway object; each answered by zero to five 'waiting' answers with announced delays "
        "(negative, zero, none, small, hours, 24-bit extremes, with other header options around them), followed by an acknowledgement before, around or after the resulting deadline, or none. "
        "Non-trivial: distinct (outcome, delay class sequence)")
REQUIRE = {"queued sends judged": 300, "queued sends delivered": 100, "queued sends expired": 100, "negative delays": 30, "no delay": 30}
ASSUMPTIONS = ["events at the exact deadline may count either way"]
EPS = 1e-3


def plan(tier):
    return dict(cases=80000, seconds=780) if tier == "thorough" else dict(cases=6000, seconds=200)


def wait_of(delay):
    if delay is None:
        return 60
    return 180 if delay < 0 else delay + 60


def enumerate_cases(tier):
    """Delays of many hours to many days, waited for"""
    days = (18 * 3600, 65535, 65536, 86400, 3 * 86400, 8 * 86400, 20 * 86400) + ((40 * 86400, 2 ** 23 - 1) if tier == "thorough" else ())
    for d in days:
        for late in (-1, 1):
            ops = [dict(at=0, timeout=3, node=None, answers=[(0.1, "wait", d, None), (0.1 + d + 60 + late, "ack", None, None)])]
            if late > 0:
                ops.append(dict(at=0.5, timeout=3, node=None, answers=[(0.1, "wait", d, None), (1 + d / 2, "wait", 30, "report")]))
            yield dict(ops=ops)


def gen(rng, i, tier):
    ops = []
    for _ in range(rng.randint(1, 5)):
        timeout = rng.choice((3, 3, 1, 10))
        op = dict(at=rng.choice((0, 0, rng.uniform(0, 5), rng.uniform(0, 300))), timeout=timeout, answers=[], node=rng.choice((None, None, 7, 9)))
        now, deadline = 0.0, timeout
        for _ in range(rng.choice((0, 1, 1, 1, 2, 3, 5) * 5 + (12, 40))):
            delay = rng.choice((None, None, 0, 1, -1, -2, -(2 ** 23), 5, 60, 59, 61, 119, 120, 121, 255, 256, 300, 3600, rng.randint(0, 1000), rng.randint(-300, 300)))
            if rng.random() < 0.04:
                delay = rng.choice((65535, 65536, 86400, 2 ** 23 - 1))
            step = rng.choice((0.01, 0.1, rng.uniform(0, 1))) * rng.choice((1, deadline - now)) * 0.99
            step = min(step, 20000)
            if now + step >= deadline:
                step = (deadline - now) * 0.9
            now += step
            extra = rng.choice((None, None, "report", "encap", "unknown"))
            op["answers"].append((now, "wait", delay, extra))
            deadline = now + wait_of(delay)
        left = deadline - now
        r = rng.random()
        if r < 0.25 or left > 30000:
            at = now + min(left * rng.uniform(0, 0.99), 20000)
        elif r < 0.4:
            at = deadline - rng.choice((0.01, 0.5, 1, 5))
        elif r < 0.55:
            at = deadline + rng.choice((0.01, 0.5, 1, 5))
        elif r < 0.6:
            at = now
        else:
            at = None
        if at is not None and at >= 0:
            op["answers"].append((at, "ack", None, rng.choice((None, "report"))))
        if rng.random() < 0.2:
            op["answers"].append((rng.uniform(0, max(1.0, min(deadline, 500))), "wait-other", rng.choice((0, 1000)), None))
        ops.append(op)
    return dict(ops=ops)


def ext_of(delay, extra):
    if delay is None and extra is None:
        return None
    out = []
    if extra == "report":
        out.append((False, 3, b"\x00\x01\x01\x01\x02\x00\x10"))
    if delay is not None:
        out.append((True, 1, delay.to_bytes(3, "big", signed=True)))
    if extra == "encap":
        out.append((True, 4, b"\x80\x00"))
    if extra == "unknown":
        out.append((False, 6, b"\x01\x02"))
    return out


def execute(sc, mon):
    outcome = {}
    ctx = {}

    async def main(loop, net):
        from pyzwave.commandclass import ZipGateway

        gateway = gw.FakeGateway(loop, mon)
        ctx["gw"] = gateway
        gateway.nodes = {7: gw.node_ip(7), 9: gw.node_ip(9)}
        if any(op["node"] for op in sc["ops"]):
            conn = gw.new_gateway()
            await gw.connect_only(conn)
            for node in (7, 9):
                await conn.connectToNode(node)
        else:
            conn = gw.new_connection()
            await conn.connect()

        def acks(sent):
            if sent.cmd != "ZipGateway.ApplicationNodeInfoSet":
                return []
            op = sc["ops"][int.from_bytes(sent.args["commandClasses"], "big")]
            out = []
            for delay, kind, announced, extra in op["answers"]:
                if kind == "ack":
                    out.append((delay, codec.zip_packet(None, seq=sent.seq, ext=ext_of(None, extra), ackResponse=1)))
                else:
                    seq = sent.seq if kind == "wait" else (sent.seq + 100) & 0xFF
                    out.append((delay, codec.zip_packet(None, seq=seq, ext=ext_of(announced, extra), nackResponse=1, nackWaiting=1)))
            return out

        gateway.ack_hook = acks

        async def one(k, op):
            await asyncio.sleep(op["at"])
            entry = outcome[k] = dict(start=loop.time())
            cmd = ZipGateway.ApplicationNodeInfoSet(commandClasses=k.to_bytes(4, "big"))
            try:
                if op["node"]:
                    entry["result"] = await conn.sendToNode(op["node"], cmd, timeout=op["timeout"])
                else:
                    entry["result"] = await conn.send(cmd, timeout=op["timeout"])
            except Exception as error:  # pylint: disable=broad-except
                entry["result"] = error
            entry["end"] = loop.time()

        await asyncio.gather(*[one(k, op) for k, op in enumerate(sc["ops"])])

    _, loop = sim.run(main)
    gateway = ctx["gw"]
    errors = sim.settle_errors(loop)
    mon.check(not errors, "loop-exception", "exception in the event loop: %s" % (errors and sim.error_text(errors[0])))
    by_tag = {}
    for sent in gateway.wire:
        if sent.cmd == "ZipGateway.ApplicationNodeInfoSet":
            by_tag.setdefault(int.from_bytes(sent.args["commandClasses"], "big"), []).append(sent)
    key = []
    for k, op in enumerate(sc["ops"]):
        entry = outcome[k]
        if isinstance(entry["result"], Exception):
            import core

            mon.fail("send-raised", "send() raised %r" % (entry["result"],), core.describe(entry["result"]))
            continue
        mon.check(len(by_tag.get(k, [])) == 1, "not-once", "command transmitted %d times" % len(by_tag.get(k, [])))
        sent = by_tag[k][0]
        want, at, queued, fuzzy = reference(entry["start"], op["timeout"], sent, gateway, mon)
        if fuzzy:
            continue
        where = "send at %.3f (timeout %s, answers %r)" % (entry["start"], op["timeout"], [(round(a, 3), b, c) for a, b, c, _d in op["answers"]])
        mon.check(entry["result"] is want, "wrong-result", "%s returned %r after %.3f s, expected %r after %.3f s" % (
            where, entry["result"], entry["end"] - entry["start"], want, at - entry["start"]))
        mon.check(abs(entry["end"] - at) <= EPS if (queued or want) else entry["end"] <= at + EPS, "wrong-deadline",
                  "%s returned %r after %.3f s, expected after %.3f s" % (where, want, entry["end"] - entry["start"], at - entry["start"]))
        mon.count("sends judged")
        if queued:
            mon.count("queued sends judged")
            mon.count("queued sends delivered" if want else "queued sends expired")
        key.append((want, tuple(min(c, 1000) // 50 if c is not None else None for _a, b, c, _d in op["answers"] if b == "wait")))
    mon.seen(tuple(key))


def reference(start, timeout, sent, gateway, mon):
    deadline = start + timeout
    queued = fuzzy = False
    for order, t, transport, frame in gateway.delivered:
        if transport is not sent.transport or order < sent.order:
            continue
        name, v = decode_quiet(frame)
        if name != "Zip.ZipPacket" or v["seqNo"] != sent.seq or not (v["ackResponse"] or (v["nackResponse"] and v["nackWaiting"])):
            continue
        if abs(t - deadline) <= EPS:
            return None, None, None, True
        if t > deadline:
            break
        if v["ackResponse"]:
            return True, t, queued, fuzzy
        delay = None
        data = v.get("headerExtension", b"")
        while data:
            if data[0] & 0x7F == 1:
                delay = int.from_bytes(data[2:5], "big", signed=True)
            data = data[2 + data[1]:]
        mon.count("no delay" if delay is None else "negative delays" if delay < 0 else "announced delays")
        queued = True
        deadline = t + wait_of(delay)
    return False, deadline, queued, fuzzy
