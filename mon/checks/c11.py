"""C11: exactly one truthful supervision report for every supervised command."""
import dispatch

ID = "C11"
LEVEL = "exploration"
RULE = ("histories of 3-14 plain and supervised commands (all node command types, unknown commands) for up to three nodes with endpoints, over the unsolicited listener and node connections, with sync, "
        "async, slow, raising, handling and refusing listeners, pending requests, lost acknowledgements; every history also run unencapsulated. Non-trivial: distinct (command, handled by, via, endpoint) combinations")
REQUIRE = {"supervised": 900, "plain": 400, "status success": 250, "status no support": 250, "supervised for endpoints": 80, "listener calls compared": 800, "nested": 60}
ASSUMPTIONS = ["a supervision request without encapsulated command is not judged; of one nested in another only the report of the outer one is judged"]


def plan(tier):
    return dict(cases=80000, seconds=780) if tier == "thorough" else dict(cases=4000, seconds=200)


def gen(rng, i, tier):
    sc = dispatch.gen(rng, True)
    if rng.random() < 0.15:
        sc["waits"] = []
        for m in sc["messages"]:
            if m["session"] is not None and rng.random() < 0.5:
                m["nested"] = rng.choice([s for s in range(64) if s not in [x["session"] for x in sc["messages"]]])
    return sc


def execute(sc, mon):
    calls, wire, app_calls, waits, w = dispatch.run(sc, mon)
    expected = {}
    plain, inner = 0, {}
    for r in dispatch.model(sc):
        m = r["m"]
        if m["session"] is None:
            plain += 1
            mon.count("plain")
            continue
        if not r["known"]:
            continue
        if m.get("nested") is not None:
            mon.count("nested")
            inner.setdefault((m["node"], m["ep"]), []).append((m["session"], m["nested"]))
            continue
        mon.count("supervised")
        mon.count("status success" if r["handled"] else "status no support")
        if m["ep"]:
            mon.count("supervised for endpoints")
        mon.seen(m["command"][0] if isinstance(m["command"], tuple) else "raw", bool(r["cc"]), bool(r["node"]), bool(r["consumed"]), r["handled"], m["via"], m["ep"] > 0)
        expected.setdefault((m["node"], m["ep"]), []).append((m["session"], 0xFF if r["handled"] else 0))
    got = {}
    for sent in wire:
        if sent.cmd != "Supervision.Report":
            continue
        node = w.fake.node_of(sent)
        mon.check(node is not None, "misdirected", "a supervision report was sent to %s" % sent.host)
        a = sent.args
        got.setdefault((node, sent.packet["destEP"]), []).append((a["sessionID"], a["status"]))
        mon.check(not a["moreStatusUpdates"] and not a["wakeUpRequest"] and a["duration"] == 0, "wrong-report", "supervision report %r" % (a,))
    for key in set(got) | set(expected) | set(inner):
        have = got.get(key, [])
        for outer, nested in inner.get(key, []):
            # one report for the outer command; whether the inner one is answered is open
            if [s for s, _ in have].count(outer) != 1 + [s for s, _ in expected.get(key, [])].count(outer) + [s for s, _ in inner[key]].count(outer) - 1:
                mon.fail("not-once", "node %d endpoint %d: the reports %s were sent, among them not one for the nested command of session %d" % (key + (have, outer)))
        skip = [x for pair in inner.get(key, []) for x in pair]
        want, have = sorted(x for x in expected.get(key, []) if x[0] not in skip), sorted(x for x in have if x[0] not in skip)
        if want == have:
            continue
        kind = "not-once" if sorted(s for s, _ in want) != sorted(s for s, _ in have) else "wrong-status"
        mon.fail(kind, "node %d endpoint %d: supervised commands need the reports (session, status) %s, sent were %s; commands: %s" % (
            key + (want, have, [(m["session"], m["command"], m["via"]) for m in sc["messages"] if (m["node"], m["ep"]) == key])))
    others = [s for s in wire if s.cmd != "Supervision.Report" and s.name == "Zip.ZipPacket" and s.transport.remote]
    mon.check(not others, "unexpected-traffic", "sent %s" % others[:3])
    if inner:
        return
    # the same history without encapsulation
    calls2, wire2, _app, waits2, _w = dispatch.run(sc, mon, supervise=False)
    mon.check(not [s for s in wire2 if s.cmd == "Supervision.Report"], "unasked-report", "a supervision report was sent for a command that was not supervised")
    a = sorted((i, name) for i, name, _args in calls)
    b = sorted((i, name) for i, name, _args in calls2)
    mon.count("listener calls compared", len(b))
    mon.check(a == b, "handled-differently", "listener calls with encapsulation: %s, without: %s (commands %s)" % (
        [x for x in a if a.count(x) != b.count(x)], [x for x in b if a.count(x) != b.count(x)], [m["command"] for m in sc["messages"]]))
    pend = [(i, name, args) for i, name, args in calls2]
    for i, name, args in calls:
        for pos, other in enumerate(pend):
            if other[0] == i and other[1] == name and _equal(args, other[2]):
                del pend[pos]
                break
        else:
            mon.fail("handled-differently", "listener %d got %s with %r, but not when the command came unencapsulated" % (i, name, args[1:]))
    for k in waits:
        mon.check((waits[k][0] is None) == (waits2[k][0] is None), "handled-differently", "the request %r ended differently when the reply was supervised" % (sc["waits"][k],))


def _equal(a, b):
    """Same arguments: message and header extension"""
    if [dispatch.flags_value(x) for x in a[2:]] != [dispatch.flags_value(x) for x in b[2:]]:
        return False
    a, b = a[1], b[1]
    return type(a) is type(b) and a.hid() == b.hid() and a.debugString() == b.debugString()
