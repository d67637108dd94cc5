"""
Mailbox workloads (C18, C19): the real MailboxService behind a stand-in adapter with programmed send
outcomes, or behind the real ZIPGateway and a simulated gateway with programmed acknowledgements.
Everything received and sent is recorded; the judges work on the recorded history.

History: Push/Pop triggers and Sends. A send has t0 (on the wire), t1 (its outcome known) and ok.
"""
import asyncio

import codec
import gw
import sim
import world

PROXY = 1
EPS = 1e-6


class Send:
    __slots__ = ("n", "t0", "t1", "ok", "node", "op", "handle", "entry", "last", "role")

    def __init__(self, n, t0, node, op, handle, entry, last):
        self.n, self.t0, self.t1, self.ok, self.node = n, t0, None, None, node
        self.op, self.handle, self.entry, self.last, self.role = op, handle, entry, last, None

    def __repr__(self):
        return "%s %s/%s%s @%.3f-%s %s" % ({0: "PUSH", 1: "POP", 2: "WAITING", 3: "PING"}.get(self.op, self.op), self.handle, self.entry.hex(), " last" if self.last else "",
                                           self.t0, self.t1 and "%.3f" % self.t1, self.ok)


class History:
    def __init__(self):
        self.events = []  # ("push"/"pop", t, handle, entry) and ("send", Send)
        self.n = 0

    def done(self, t, s, ok):
        s.t1, s.ok = t, ok
        self.events.append(("done", t, s))

    def send(self, t, node, values):
        self.n += 1
        s = Send(self.n, t, node, values["operation"], values["queueHandle"], bytes(values["mailboxEntry"] or b""), bool(values["last"]))
        self.events.append(("send", t, s))
        return s

    @property
    def sends(self):
        return [e[2] for e in self.events if e[0] == "send"]


def crc(data):
    """crc-aug-ccitt"""
    value = 0x1D0F
    for byte in data:
        value ^= byte << 8
        for _ in range(8):
            value = ((value << 1) ^ 0x1021 if value & 0x8000 else value << 1) & 0xFFFF
    return value


def gen_entries(rng, n):
    """Distinct entries with distinct checksums"""
    out, seen = [], set()
    alike = rng.random() < 0.4  # messages that differ in a few bytes only
    while len(out) < n:
        e = rng.randbytes(rng.choice((1, 2, 2, 3, 8, 60) if rng.random() < 0.9 else (127, 128, 200, 255, 256, 700, 1100)))
        if alike and out and rng.random() < 0.8:
            e = bytearray(rng.choice(out))
            kind = rng.randrange(4)
            at = rng.choice((0, len(e) - 1, rng.randrange(len(e))))
            if kind == 0:
                e[at] ^= 1 << rng.randrange(8)
            elif kind == 1:
                e.append(rng.choice((0, 0xFF, rng.randrange(256))))
            elif kind == 2:
                e[:0] = rng.choice((b"\0", b"\xff", rng.randbytes(4)))
            elif len(e) > 1:
                del e[at]
            e = bytes(e)
        if crc(e) not in seen:
            seen.add(crc(e))
            out.append(e)
    return out


def gen_deep(rng):
    """A queue far deeper than usual, emptied while some deliveries fail"""
    handle = rng.choice((0, 1, 255))
    entries = gen_entries(rng, rng.choice((40, 70, 110)))
    actions = [(round(0.05 * i, 4), "push", handle, e) for i, e in enumerate(entries)]
    t = 0.05 * len(entries) + 10
    for i in range(rng.randint(5, len(entries))):
        t += rng.choice((0.01, 1, 5))
        actions.append((round(t, 4), "ack" if i and rng.random() < 0.8 else "wake", handle, None))
    outcomes = [("yes", 0.001)] * len(entries) + [("yes", 0.01) if rng.random() < 0.7 else ("no", 3) for _ in range(len(entries))]
    return dict(actions=actions, outcomes=outcomes, real=rng.random() < 0.3, tail=10, drain=True, nodes=False, loop_outcomes=False)


def gen(rng, long_run, max_actions):
    if rng.random() < 0.003:
        return gen_deep(rng)
    many = rng.random() < 0.02
    handles = rng.sample(range(1, 256), rng.choice((10, 20, 40)) if many else rng.choice((1, 1, 2, 3)))
    if rng.random() < 0.2:
        handles[rng.randrange(len(handles))] = 0
    if rng.random() < 0.2 and 1 not in handles:
        handles.append(1)
    entries = gen_entries(rng, rng.choice((1, 2, 4, 8)))
    t = 0.0
    actions = []
    gaps = rng.choice(((0, 0, 0.001, 0.5), (0.5, 2, 5), (0, 0.01, 4, 30, 90), (50, 60, 61, 600)))
    if long_run:
        gaps = gaps + (200, 660, 1300)
    for _ in range(3 * len(handles) if many else rng.randint(2, max_actions)):
        t += rng.choice(gaps) * rng.choice((1, 1, rng.random()))
        handle = rng.choice(handles)
        kind = rng.choice(("push", "push", "push", "wake", "wake", "ack", "ack0", "noise"))
        if kind == "push":
            actions.append((round(t, 4), "push", handle, rng.choice(entries)))
            while rng.random() < 0.3:
                actions.append((round(t, 4) + rng.choice((0, 0, 0.001)), "push", rng.choice(handles), rng.choice(entries)))
        elif kind == "noise":
            actions.append((round(t, 4), "noise", handle, rng.randrange(8)))
        else:
            actions.append((round(t, 4), kind, handle, None))
            if rng.random() < 0.2:
                actions.append((round(t, 4), kind, rng.choice(handles), None))
    rate = rng.choice((0, 0, 0.2, 0.5))
    real = rng.random() < 0.35
    outcomes = []
    for _ in range(60):
        if rng.random() < rate:
            outcomes.append(rng.choice((("no", rng.choice((0, 0.5, 3))), ("raise", rng.choice((0, 0.2)))) if not real else (("no", 3), ("no", 3), ("late", rng.choice((5, 40))))))
        else:
            outcomes.append(("yes", rng.choice((0, 0.001, 0.01, 0.7, 2.5)) if not real else rng.choice((0.001, 0.01, 0.7, 2.5))))
    tail = 10
    if long_run:
        # Seldom entries wait for days
        tail = rng.choice((10, 200, 700)) if many or rng.random() < 0.99 else rng.choice((5000, 90000, 90000, 700000))
    return dict(actions=actions, outcomes=outcomes, real=real, tail=tail, drain=rng.random() < 0.8, nodes=rng.random() < 0.5,
                loop_outcomes=rng.random() < 0.5)


def gen_init(rng):
    """Initializing the mailbox: destination, port and whether the gateway acknowledges"""
    ip = rng.choice((0xFFFFC0A80031, rng.randrange(1 << 128), 1, (1 << 128) - 1, 0xFD00 << 112 | rng.randrange(1 << 64)))
    return ip, rng.choice((4123, 4123, 41230, 1, 0xFFFF, 0x00FF, 0xFF00, rng.randrange(1, 65536))), rng.choice((0.001, 0.5, 2.9, None))


def execute(sc, mon):
    """Run the scenario, return its History"""
    history = History()
    drain_from = []

    async def main(loop, net):
        from pyzwave.mailbox import MailboxService

        start = loop.time()
        perfect, configured = [], []
        used = [0]

        def outcome():
            used[0] += 1
            if perfect:
                return ("yes", 0.01)
            i = used[0] - 1
            if i >= len(sc["outcomes"]):
                if not sc["loop_outcomes"]:
                    return ("yes", 0.01)
                i %= len(sc["outcomes"])
            return sc["outcomes"][i]

        if sc["real"]:
            devices = {5: world.device([0x20])} if sc["nodes"] else {}
            w = world.World(loop, mon, devices, controller=PROXY)
            await w.start()
            def on_ack(sent):
                if sent.cmd == "Mailbox.ConfigurationSet":
                    configured.append((w.fake.node_of(sent), dict(sent.args)))
                    answer = sc["init"][2]
                    return [] if answer is None else [(answer, codec.zip_ack(sent.seq))]
                if sent.cmd != "Mailbox.Queue":
                    return None
                s = history.send(loop.time(), PROXY if w.fake.node_of(sent) == PROXY else w.fake.node_of(sent), sent.args)
                kind, delay = outcome()
                loop.sim_at(loop.time() + (3 if kind == "no" else delay), lambda: history.done(loop.time(), s, kind != "no"))
                if kind == "no":
                    return []
                if kind == "late":
                    return [(0.01, codec.zip_waiting(sent.seq, 30)), (delay, codec.zip_ack(sent.seq))]
                return [(delay, codec.zip_ack(sent.seq))]

            w.fake.ack_hook = on_ack
            service = MailboxService(w.zip)

            def deliver(command):
                w.fake._unsolicited(PROXY, command, None, {})

        else:
            adapter = stub_adapter(loop, history, outcome, mon, sc.get("init"))
            service = MailboxService(adapter)

            def deliver(command):
                from pyzwave.message import Message

                adapter.speak("messageReceived", PROXY, 0, Message.decode(codec.encode(*command)), 0)

        if sc.get("init"):
            import ipaddress

            ip, port, answer = sc["init"]
            mon.count("initialized")
            result = await service.initialize(ipaddress.IPv6Address(ip), port)
            mon.check(result is (answer is not None), "wrong-result", "the gateway %s the configuration of the mailbox, initialize returned %r" % ("acknowledged" if answer is not None else "did not acknowledge", result))
            have = configured if sc["real"] else [(None, codec.decode(m)[1]) for m in adapter.sent]
            mon.check([m for _n, m in have] == [dict(mode=2, forwardingDestinationIPv6Address=ip, udpPortNumber=port)], "wrong-configuration",
                      "the mailbox was to forward to %s port %d, the gateway was sent %s" % (ipaddress.IPv6Address(ip), port, have))
            mon.check(all(n is None for n, _ in have), "wrong-node", "the configuration was sent to node %s" % [n for n, _ in have])
            del configured[:]

        last_wake = [None]

        def act(kind, handle, entry):
            if kind == "push":
                history.events.append(("push", loop.time(), handle, entry))
                mon.count("pushes")
                deliver(("Mailbox.Queue", dict(last=0, operation=0, queueHandle=handle, mailboxEntry=entry)))
            elif kind == "wake":
                history.events.append(("pop", loop.time(), handle, None))
                last_wake[0] = handle
                mon.count("wake-ups")
                deliver(("Mailbox.WakeupNotification", dict(queueHandle=handle)))
            elif kind == "ack" and handle:
                history.events.append(("pop", loop.time(), handle, None))
                mon.count("acknowledgements")
                deliver(("Mailbox.Queue", dict(last=0, operation=4, queueHandle=handle, mailboxEntry=b"")))
            elif kind in ("ack", "ack0"):
                # without queue handle: of the queue that was woken up last
                history.events.append(("pop", loop.time(), last_wake[0] or 0, None))
                mon.count("acknowledgements without queue")
                deliver(("Mailbox.Queue", dict(last=0, operation=4, queueHandle=0, mailboxEntry=b"")))
            elif kind == "noise":
                deliver((("Mailbox.NodeFailing", dict(queueHandle=handle)), ("Mailbox.Queue", dict(last=0, operation=5, queueHandle=handle, mailboxEntry=b"")),
                         ("Mailbox.Queue", dict(last=1, operation=6, queueHandle=handle, mailboxEntry=b"\x01")), ("Mailbox.ConfigurationGet", {}),
                         ("Basic.Report", dict(value=3)), ("Mailbox.Queue", dict(last=0, operation=2, queueHandle=handle, mailboxEntry=b"\x07")),
                         ("Mailbox.Queue", dict(last=0, operation=3, queueHandle=handle, mailboxEntry=b"\x07")), ("Mailbox.Queue", dict(last=0, operation=1, queueHandle=handle, mailboxEntry=b"\x07")))[entry])

        end = 0
        base = loop.time()
        for t, kind, handle, entry in sc["actions"]:
            loop.sim_at(base + t, act, kind, handle, entry)
            end = max(end, t)
        await asyncio.sleep(end + sc["tail"] + 0.0003)
        if sc["drain"]:
            perfect.append(1)
            await asyncio.sleep(61)
            drain_from.append(loop.time())
            handles = sorted({a[2] for a in sc["actions"] if a[1] == "push"})
            for handle in handles:
                act("wake", handle, None)
                await asyncio.sleep(0.5)
                for _ in range(12 + len([a for a in sc["actions"] if a[1] == "push"])):
                    last = [s for s in history.sends if s.op == 1 and s.handle == handle]
                    if last and last[-1].last and not last[-1].entry:
                        break
                    act("ack", handle, None)
                    await asyncio.sleep(0.5)
            await asyncio.sleep(200)
        history.end = loop.time()
        assert start is not None and service is not None

    _, loop = sim.run(main)
    errors = sim.settle_errors(loop)
    mon.check(not errors, "loop-exception", "exception in the event loop: %s" % (errors and sim.error_text(errors[0])))
    history.drain = drain_from[0] if drain_from else None
    for s in history.sends:
        mon.log(repr(s))
    return history


def stub_adapter(loop, history, outcome, mon, init=None):
    from pyzwave.util import Listenable

    class Adapter(Listenable):
        async def sendToNode(self, nodeId, cmd, **kwargs):
            name, values = codec.decode(cmd.compose())
            mon.check(name == "Mailbox.Queue", "wrong-command", "the mailbox sent a %s" % name)
            s = history.send(loop.time(), nodeId, values)
            kind, delay = outcome()
            if delay:
                await asyncio.sleep(delay)
            history.done(loop.time(), s, kind == "yes")
            if kind == "raise":
                raise OSError("sending failed")
            return s.ok

        sent = []

        async def send(self, cmd, **kwargs):
            self.sent.append(cmd.compose())
            return init[2] is not None

    return Adapter()


# -- the model -----------------------------------------------------------------------------------
class Rec:
    """An accepted entry"""

    __slots__ = ("handle", "entry", "since", "push", "delivered", "maybe", "beats", "popping")

    def __init__(self, handle, entry, since, push, maybe=False):
        self.handle, self.entry, self.since, self.push = handle, entry, since, push
        self.delivered, self.maybe, self.beats, self.popping = None, maybe, [], None


def model(history, mon, judge):
    """
    Walk through the history. judge=True reports violations of C18. Returns the accepted entries with
    their heartbeats for C19.
    """
    fail = mon.check if judge else (lambda *a: None)
    recs = []
    waiting = []  # [t, handle, entry, answered Send or None]
    triggers = []  # [t, handle, POP Send or None]
    queue = {}  # handle -> [Rec] accepted, in order

    timeline = [(t, kind, rest) for kind, t, *rest in history.events]

    def live(handle, t):
        return [r for r in queue.get(handle, []) if r.delivered is None or r.delivered > t - EPS]

    def expected(r, t):
        """Is a notification due now?"""
        before = r.beats[-1] if r.beats else r.push
        return before.t0 + 60 - 0.01 <= t <= (t if before.t1 is None else before.t1) + 60 + 0.01

    def sure(r, t):
        return not r.maybe and r.since < t - EPS and r.delivered is None and r.popping is None

    for t, kind, rest in timeline:
        if kind == "push":
            handle, entry = rest
            same = [r for r in live(handle, t) if r.entry == entry]
            known = any(sure(r, t) for r in same)
            waiting.append([t, handle, entry, None, known, bool(same)])
        elif kind == "pop":
            triggers.append([t, rest[0], None])
        elif kind == "send":
            s = rest[0]
            fail(s.node == PROXY, "wrong-node", "%r was sent to node %s" % (s, s.node))
            if s.op in (2, 3):
                fail(not s.last, "wrong-flag", "%r carries the last flag" % s)
                slot = None
                due = [r for r in live(s.handle, t) if r.entry == s.entry and r.delivered is None and expected(r, t)]
                for r in due:
                    # being delivered: this may also answer an identical push
                    if r.popping is not None and any(w[1] == s.handle and w[2] == s.entry and w[3] is None and t - w[0] <= 0.5 for w in waiting):
                        r.maybe = True
                if s.op == 2 and not due:
                    for w in waiting:
                        if w[1] == s.handle and w[2] == s.entry and w[3] is None and t - w[0] <= 0.5:
                            slot = w
                            break
                if slot is not None:
                    slot[3] = s
                    s.role = ("push", slot)
                else:
                    s.role = ("beat", None)
                    owners = due or [r for r in queue.get(s.handle, []) if r.entry == s.entry]
                    if owners:
                        owners[-1].beats.append(s)
                        s.role = ("beat", owners[-1])
            elif s.op == 1:
                open_ = [g for g in triggers if g[1] == s.handle and g[2] is None]
                fail(open_, "unexpected-pop", "%r was sent without a wake-up or acknowledgement for its queue" % s)
                if open_:
                    open_[0][2] = s
                entries = live(s.handle, t)
                must = [r for r in entries if sure(r, t)]
                may = sorted((r for r in entries if not sure(r, t)), key=lambda r: r.delivered is not None)
                uncertain = bool(may) or any(w[1] == s.handle and w[3] is not None and w[3].t1 is not None and abs(w[3].t1 - t) < EPS for w in waiting)
                chosen = None
                oldest = [r for r in must if r.entry == s.entry and not any(o.since < r.push.t0 - EPS for o in must)]
                if oldest:
                    chosen = oldest[0]
                elif any(r.entry == s.entry for r in may):
                    chosen = [r for r in may if r.entry == s.entry][0]
                elif must:
                    what = "an empty entry" if not s.entry else s.entry.hex()
                    fail(False, "wrong-entry", "at %.3f queue %d holds %s, but the wake-up was answered with %s" % (t, s.handle, [r.entry.hex() for r in must], what))
                    chosen = next((r for r in must if r.entry == s.entry), None)
                elif s.entry:
                    fail(uncertain, "not-queued", "at %.3f %r was sent, but the entry is not queued" % (t, s))
                mon.count("pops judged")
                others = [r for r in must if r is not chosen]
                if others:
                    fail(not s.last, "wrong-flag", "%r carries the last flag, but %d more entries are queued" % (s, len(others)))
                elif not [r for r in may if r is not chosen] and not uncertain:
                    fail(s.last, "wrong-flag", "%r lacks the last flag, but nothing remains" % s)
                if chosen is not None:
                    if chosen.popping is not None:
                        chosen.maybe = True
                    chosen.popping = s
                    s.role = ("pop", chosen)
                    mon.count("entries delivered" if s.ok else "deliveries failed")
                else:
                    s.role = ("pop", None)
                    mon.count("empty answers")
        elif kind == "done":
            s = rest[0]
            if s.role is None:
                continue
            what, arg = s.role
            if what == "push":
                if s.ok:
                    same = [r for r in live(s.handle, t) if r.entry == s.entry]
                    if same:
                        mon.count("accepted while queued")
                        if any(r.delivered is None for r in same):
                            continue  # already queued (or being delivered: then either is fine)
                    r = Rec(s.handle, s.entry, t, s, maybe=bool(same))
                    recs.append(r)
                    queue.setdefault(s.handle, []).append(r)
                    mon.count("entries queued")
                else:
                    mon.count("entries not accepted")
            elif what == "pop" and arg is not None:
                if s.ok:
                    fail(arg.delivered is None, "delivered-twice", "entry %s of queue %d was delivered twice" % (s.entry.hex(), s.handle))
                    arg.delivered = t
                    # an identical push accepted meanwhile may be queued again
                    overlapping = [w for w in waiting if w[1] == s.handle and w[2] == s.entry and ((w[3] is not None and w[3].ok and arg.since - EPS <= w[3].t1 and w[3].t1 >= s.t0 - EPS and w[3] is not arg.push)
                                                                                                   or abs(w[0] - t) < EPS)]
                    if overlapping:
                        r = Rec(s.handle, s.entry, t, s, maybe=True)
                        recs.append(r)
                        queue[s.handle].append(r)
                if arg.popping is s:
                    arg.popping = None
    for t, handle, entry, s, known, maybe in waiting:
        if not known and not maybe:
            # identical pushes at once may be answered by one notification
            twins = [w for w in waiting if w[1] == handle and w[2] == entry and w[3] is not None and abs(w[0] - t) < 4]
            # or the same entry was accepted at that very moment
            twins += [r for r in recs if r.handle == handle and r.entry == entry and abs(r.since - t) < EPS]
            fail(s is not None or twins, "not-reported", "the entry %s pushed to queue %d at %.3f was not reported as waiting" % (entry.hex(), handle, t))
        if known:
            mon.count("duplicates pushed")
    for t, handle, s in triggers:
        # answers of a queue may be sent one after the other
        busy = any(p.op == 1 and p.handle == handle and (p.t1 is None or p.t1 > history.end - 1) for p in history.sends)
        if t < history.end - 1 and not busy:
            fail(s is not None, "not-answered", "the wake-up or acknowledgement for queue %d at %.3f was not answered" % (handle, t))
    if history.drain is not None:
        for r in recs:
            if not r.maybe:
                fail(r.delivered is not None, "lost", "the entry %s of queue %d, accepted at %.3f, was never delivered" % (r.entry.hex(), r.handle, r.since))
        for handle in {w[1] for w in waiting}:
            pops = [s for s in history.sends if s.op == 1 and s.handle == handle]
            fail(pops and not pops[-1].entry and pops[-1].last, "never-empty", "queue %d never became empty: %s" % (handle, pops[-3:]))
    return recs


__all__ = ["gw"]
