"""C04: send() results against the acknowledgements actually delivered."""
import asyncio

import codec
import gw
import sim

ID = "C04"
LEVEL = "exploration"
RULE = ("generated histories of concurrent sends on one to three connections; per send: acknowledgement lost, delayed, duplicated, late, negative, for another sequence "
        "number, with header extension or answered from the same loop turn; cancellations; long timeouts kept in flight past the wrap of the "
        "8-bit sequence number. Non-trivial: distinct (per-send outcome/ack pattern sequence)")
REQUIRE = {"sends through node objects": 5000, "sends judged": 2000, "results true": 500, "results false": 200, "cancelled": 50, "sequence wraps": 3}
ASSUMPTIONS = ["at the exact timeout instant either result is accepted", "fewer than 256 commands in flight per connection"]
EPS = 1e-4


def plan(tier):
    return dict(cases=80000, seconds=780) if tier == "thorough" else dict(cases=3000, seconds=200)


TIMEOUTS = (3, 3, 3, 1, 0.5, 10)


def gen_op(rng, at, conn):
    timeout = rng.choice(TIMEOUTS)
    op = dict(at=at, conn=conn, timeout=timeout, default=timeout == 3 and rng.random() < 0.5, sep=rng.choice((0, 0, 1, 127)), dep=rng.choice((0, 0, 1, 2, 127)),
              cancel=None, acks=[], bad=False)
    r = rng.random()
    if r < 0.03:
        op["bad"] = True
    elif r < 0.12:
        op["cancel"] = rng.choice((0, 0.001, rng.uniform(0, timeout), timeout))
    kinds = rng.random()
    if kinds < 0.55:
        op["acks"].append(("ack", rng.choice((0, 0.001, 0.02, rng.uniform(0, timeout * 0.99)))))
    elif kinds < 0.65:
        op["acks"].append(("ack", timeout + rng.choice((0.001, 0.5, 2))))
    elif kinds < 0.7:
        op["acks"].append(("ack", timeout))
    for _ in range(rng.choice((0, 0, 0, 1, 2))):
        op["acks"].append((rng.choice(("ack", "nack", "nack", "other+1", "other-1", "other+128", "queuefull", "optionerror", "keepalive", "junk", "empty")),
                           rng.choice((0, 0.001, rng.uniform(0, timeout * 1.2)))))
    return op


def gen(rng, i, tier):
    mode = i % 5
    ops = []
    conns = rng.choice((1, 1, 2, 3))
    t = 0.0
    if i % 50 == 25:
        # as many in flight as there are sequence numbers, but one
        n = rng.choice((254, 255, 255))
        ends = []
        for k in range(n):
            ends.append(rng.uniform(60, 3000))
            ops.append(dict(gen_op(rng, t, 0), timeout=5000, default=False, cancel=None, bad=False, acks=[("ack", ends[-1] - t)]))
            t += rng.choice((0, 0.01))
        for end in sorted(ends)[:rng.choice((5, 60))]:
            # whichever number is the free one
            ops.append(dict(gen_op(rng, max(t, end + 0.5), 0), timeout=5000, default=False, cancel=None, bad=False, acks=[("ack", rng.uniform(0, 4000))]))
    elif mode == 0:
        # long history with commands held in flight across the wrap
        n = rng.randint(260, 620)
        held = set(rng.sample(range(n // 2), rng.randint(1, 12)))
        for k in range(n):
            op = gen_op(rng, t, 0)
            if k in held:
                op.update(timeout=5000, default=False, cancel=None, bad=False, acks=[("ack", rng.uniform(50, 4000))] if rng.random() < 0.7 else [])
            elif rng.random() < 0.8:
                op.update(acks=[("ack", rng.uniform(0, 0.2))], cancel=None, bad=False)
            ops.append(op)
            t += rng.choice((0, 0.05, rng.uniform(0, 2)))
    else:
        n = rng.randint(2, 40)
        gap = rng.choice((0, 0.05, 0.5, 2, 5))
        for _ in range(n):
            ops.append(gen_op(rng, t, rng.randrange(conns)))
            t += rng.choice((0, gap, gap * rng.random()))
    through = rng.random() < 0.35
    if through:  # the objects a user talks to, down to the connection
        for op in ops:
            op["how"] = rng.choice(("gateway", "node", "endpoint", "class"))
            if op["how"] != "gateway":
                op["sep"] = 0
            if op["how"] == "node":
                op["dep"] = 0
            op["timeout"] = op["timeout"] if rng.random() < 0.7 or op["timeout"] > 10 else rng.choice((7, 30, 90))
            op["default"] = op["default"] and op["timeout"] == 3
    return dict(ops=ops, conns=conns, wide=mode == 0, through=through)


def execute(sc, mon):
    outcome = {}
    ctx = {}

    async def main(loop, net):
        from pyzwave.commandclass import ZipGateway, Basic

        gateway = gw.FakeGateway(loop, mon)
        ctx["gw"] = gateway
        conns = []
        if sc["through"]:
            from pyzwave.commandclass.CommandClass import CommandClass
            from pyzwave.node import Node, NodeEndPoint

            top = gw.new_gateway()
            await gw.connect_only(top)
            for k in range(sc["conns"]):
                gateway.nodes[k + 3] = (0xFD00AAAA << 96) + k + 3
                await top.connectToNode(k + 3)
            gateway.wire.clear()

            def sender(op):
                node = Node(op["conn"] + 3, top, [])
                if op["dep"]:
                    node = NodeEndPoint(node, op["dep"], top, [])
                return CommandClass.load(0x20, False, node) if op["how"] == "class" else node

            async def through(op, cmd, kwargs):
                if op["how"] == "gateway":
                    return await top.sendToNode(op["conn"] + 3, cmd, **kwargs)
                kwargs = {k: v for k, v in kwargs.items() if k == "timeout"}
                return await sender(op).send(cmd, **kwargs)
        for k in range(0 if sc["through"] else sc["conns"]):
            conn = gw.new_connection("fd00:aaaa::%d" % (k + 3))
            await conn.connect()
            conns.append(conn)

        def acks(sent):
            if sent.cmd != "ZipGateway.ApplicationNodeInfoSet":
                return []
            op = sc["ops"][int.from_bytes(sent.args["commandClasses"], "big")]
            out = []
            for kind, delay in op["acks"]:
                seq = sent.seq
                if kind == "ack":
                    ext = None if seq % 3 else [(True, 3, b"\x00\x01\x02")]
                    out.append((delay, codec.zip_packet(None, seq=seq, ext=ext, ackResponse=1, source=sent.packet["destEP"], dest=sent.packet["sourceEP"])))
                elif kind == "nack":
                    out.append((delay, codec.zip_packet(None, seq=seq, nackResponse=1)))
                elif kind == "queuefull":
                    out.append((delay, codec.zip_packet(None, seq=seq, nackResponse=1, nackQueueFull=1)))
                elif kind == "optionerror":
                    out.append((delay, codec.zip_packet(None, seq=seq, nackResponse=1, nackOptionError=1)))
                elif kind.startswith("other"):
                    out.append((delay, codec.zip_ack((seq + int(kind[5:])) & 0xFF)))
                elif kind == "keepalive":
                    out.append((delay, codec.encode("Zip.ZipKeepAlive", dict(ackRequest=0, ackResponse=1))))
                elif kind == "junk":
                    out.append((delay, bytes([0x23, 0x02, 0x40])))
                elif kind == "empty":
                    out.append((delay, codec.zip_packet(None, seq=seq)))
            return out

        gateway.ack_hook = acks

        async def one(k, op):
            await asyncio.sleep(op["at"])
            if op["bad"]:
                cmd = Basic.Set()
            else:
                cmd = ZipGateway.ApplicationNodeInfoSet(commandClasses=k.to_bytes(4, "big"))
            gateway.order += 1
            entry = dict(start=loop.time(), order=gateway.order)
            outcome[k] = entry
            kwargs = {} if op["default"] else dict(timeout=op["timeout"])
            if op["sep"] or op["dep"]:
                kwargs.update(sourceEP=op["sep"], destEP=op["dep"])
            try:
                if sc["through"]:
                    mon.count("sends through node objects")
                    entry["result"] = await through(op, cmd, kwargs)
                else:
                    entry["result"] = await conns[op["conn"]].send(cmd, **kwargs)
            except asyncio.CancelledError:
                entry["result"] = "cancelled"
                raise
            except Exception as error:  # pylint: disable=broad-except
                entry["result"] = error
            finally:
                gateway.order += 1
                entry["end"] = loop.time()
                entry["end_order"] = gateway.order

        tasks = [asyncio.ensure_future(one(k, op)) for k, op in enumerate(sc["ops"])]
        for task, op in zip(tasks, sc["ops"]):
            if op["cancel"] is not None:
                loop.call_later(op["at"] + op["cancel"], task.cancel)
        await asyncio.gather(*tasks, return_exceptions=True)
        await asyncio.sleep(1)

    _, loop = sim.run(main)
    judge(sc, mon, outcome, ctx["gw"], loop)


def judge(sc, mon, outcome, gateway, loop):
    pattern = []
    spans = {}
    by_tag = {}
    for sent in gateway.wire:
        if sent.name == "Zip.ZipKeepAlive":
            continue
        mon.check(sent.cmd == "ZipGateway.ApplicationNodeInfoSet", "stray-packet", "unexpected packet %r" % sent)
        by_tag.setdefault(int.from_bytes(sent.args["commandClasses"], "big"), []).append(sent)
    for k, op in enumerate(sc["ops"]):
        entry = outcome.get(k)
        if entry is None:  # cancelled before it started
            mon.check(k not in by_tag, "sent-after-cancel", "a send that was never started was transmitted")
            continue
        mon.count("sends judged")
        result = entry["result"]
        if op["bad"]:
            mon.check(isinstance(result, Exception) or result is False, "bad-accepted",
                      "a command that cannot be encoded was reported as %r" % (result,))
            mon.check(k not in by_tag, "bad-accepted", "unencodable command produced a packet")
            continue
        if isinstance(result, Exception):
            import core

            mon.fail("send-raised", "send() raised %r" % (result,), core.describe(result))
            continue
        packets = by_tag.get(k, [])
        mon.check(len(packets) == 1, "not-once", "command %d was transmitted %d times" % (k, len(packets)))
        sent = packets[0]
        p = sent.packet
        mon.check(sent.t == entry["start"], "late-transmit", "transmitted at %.3f, send() was called at %.3f" % (sent.t, entry["start"]))
        mon.check(p["ackRequest"] == 1 and p["zwCmdIncluded"] == 1 and not any(
            p[f] for f in ("ackResponse", "nackResponse", "nackWaiting", "nackQueueFull", "nackOptionError", "headerExtIncluded")),
            "wrong-flags", "command packet with flags %r" % p)
        mon.check(p["sourceEP"] == op["sep"] and p["destEP"] == op["dep"], "wrong-endpoint",
                  "sent with endpoints %d/%d, requested %d/%d" % (p["sourceEP"], p["destEP"], op["sep"], op["dep"]))
        mon.check(sent.host == "fd00:aaaa::%d" % (op["conn"] + 3), "wrong-host", "sent to %s" % sent.host)
        spans.setdefault(op["conn"], []).append((sent.order, entry["end_order"], sent.seq, k))
        deadline = entry["start"] + op["timeout"]
        # the first positive acknowledgement with this sequence number delivered on this connection
        hit = None
        for order, t, transport, frame in gateway.delivered:
            if transport is sent.transport and order > sent.order and t <= deadline + EPS:
                name, values = decode_quiet(frame)
                if name == "Zip.ZipPacket" and values["ackResponse"] and values["seqNo"] == sent.seq:
                    hit = t
                    break
        if result == "cancelled":
            mon.count("cancelled")
            pattern.append("c")
            continue
        mon.check(result is True or result is False, "not-bool", "send() returned %r" % (result,))
        if hit is not None and hit < deadline - EPS:
            mon.check(result is True, "ack-missed", "acknowledged %.4f s after sending (timeout %s), but send() returned %r" % (
                hit - entry["start"], op["timeout"], result), dict(op=op, seq=sent.seq))
            mon.check(entry["end"] <= hit + EPS, "late-result", "acknowledged at %.4f, reported at %.4f" % (hit, entry["end"]))
        elif hit is None:
            mon.check(result is False, "false-ack", "send() returned True without an acknowledgement for sequence number %d" % sent.seq,
                      dict(op=op))
        mon.check(entry["end"] <= deadline + EPS, "late-result", "send() with timeout %s returned after %.4f s" % (
            op["timeout"], entry["end"] - entry["start"]))
        mon.count("results true" if result else "results false")
        pattern.append(("T" if result else "F", len(op["acks"])))
    for conn, items in spans.items():
        mon.count("sequence wraps", len(items) // 256)
        for i, (a, b, seq, k) in enumerate(items):
            for a2, _b2, seq2, k2 in items[i + 1:]:
                if seq2 == seq and a2 < b and a < _b2:
                    mon.fail("sequence-collision", "sends %d and %d in flight together both carry sequence number %d" % (k, k2, seq))
    mon.seen(tuple(pattern))
    errors = sim.settle_errors(loop)
    mon.check(not errors, "loop-exception", "exception in the event loop: %s" % (errors and sim.error_text(errors[0])))


_CACHE = {}


def decode_quiet(frame):
    if frame not in _CACHE:
        if len(_CACHE) > 20000:
            _CACHE.clear()
        try:
            _CACHE[frame] = codec.decode(frame)
        except (ValueError, IndexError):
            _CACHE[frame] = (None, None)
    return _CACHE[frame]
