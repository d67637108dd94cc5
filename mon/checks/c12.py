"""C12: received commands reach exactly the right listeners."""
import codec
import dispatch

ID = "C12"
LEVEL = "exploration"
RULE = ("histories of 3-14 commands (all node command types, unknown commands and endpoints) for up to three nodes with endpoints, over the unsolicited listener and node connections; 0-3 sync, async, slow, raising, "
        "handling and refusing listeners on every command class and node; pending requests; commands of the gateway itself and of the controller's own node. Non-trivial: distinct (command, listener results) combinations")
REQUIRE = {"messages": 1500, "command class offers": 800, "node offers": 300, "consumed by a request": 100, "raising listeners offered": 300, "gateway commands": 150, "of a controlled class": 60, "with header extension": 300, "commands of the controller's node": 1000, "orders judged": 2000}
ASSUMPTIONS = ["the reports the command classes handle themselves are judged by C13, C14, C21 and C22"]


def plan(tier):
    return dict(cases=80000, seconds=780) if tier == "thorough" else dict(cases=7000, seconds=200)


def gen(rng, i, tier):
    return dispatch.gen(rng, rng.random() < 0.3)


def execute(sc, mon):
    calls, wire, app_calls, waits, w = dispatch.run(sc, mon)
    rest = list(calls)
    consumed = set()
    for r in dispatch.model(sc):
        m = r["m"]
        mon.count("messages")
        key = (m["node"], m["ep"])
        cc = m["command"][0] if isinstance(m["command"], bytes) else codec.T[m["command"][0]][0]
        if cc in sc["controlled"].get(key, ()):
            mon.count("of a controlled class")
        if m["ext"]:
            mon.count("with header extension")
        where = "%s for %d:%d%s" % (m["command"], m["node"], m["ep"], "" if m["session"] is None else " (supervised)")
        consumed |= set(r["consumed"])
        if r["consumed"]:
            mon.count("consumed by a request")
        for index in r["cc"] + r["node"]:
            spec = sc["listeners"][index]
            method = r["method"] if index in r["cc"] else "onMessage"
            mon.count("command class offers" if index in r["cc"] else "node offers")
            if spec["result"] in dispatch.FAILS:
                mon.count("raising listeners offered")
            why = None
            for pos, entry in enumerate(rest):
                if entry[0] == index and entry[1] == method:
                    why = dispatch.same(m["command"], entry[2][1])
                    if why is None and index in r["cc"] and m["via"] == "listener":
                        why = dispatch.flags_problem(m, entry[2][2])
                    if why is None:
                        break
            else:
                mon.fail("not-offered", "%s was not offered to listener %r as %s (%s); all calls: %s" % (where, spec, method, why, [(c[0], c[1]) for c in calls]))
                continue
            owner = w.node(*spec["key"])
            owner = owner if spec["cc"] is None else owner.supported[spec["cc"]]
            mon.check(entry[2][0] is owner, "wrong-sender", "%s was offered by %r" % (where, entry[2][0]))
            del rest[pos]
        mon.seen(m["command"][0] if isinstance(m["command"], tuple) else "raw", tuple(str(sc["listeners"][i]["result"]) for i in r["cc"]), bool(r["node"]), bool(r["consumed"]))
    mon.check(not rest, "wrongly-offered", "offered without reason: %s" % [(sc["listeners"][i], name, args[1:]) for i, name, args in rest])
    # in the order they arrived
    arrived = {}
    for r in dispatch.model(sc):
        for index in r["cc"]:
            arrived.setdefault(index, []).append(r["m"]["command"])
    for index, commands in arrived.items():
        have = [c for c in calls if c[0] == index]
        mon.count("orders judged", len(commands) > 1)
        mon.check(all(dispatch.same(command, c[2][1]) is None for command, c in zip(commands, have)), "out-of-order", "listener %r: commands arrived as %s, offered as %s" % (sc["listeners"][index], commands, [c[2][1] for c in have]))
    for k, spec in enumerate(sc["waits"]):
        got = waits[k][0]
        mon.check((got is not None) == (k in consumed), "request-differs", "the request %r ended with %r, its message %s" % (spec, got, "arrived" if k in consumed else "did not arrive"))
    # the gateway's own commands
    want = []
    for m in sc["gateway"]:
        name, v = m["command"]
        mon.count("gateway commands")
        if m.get("chip") is not None:
            mon.count("commands of the controller's node")
            want.append(("messageReceived", m["command"]))
        elif name.endswith("NodeAddStatus"):
            want.append(("addNodeStatus", m["command"]))
        elif name.endswith("NodeRemoveStatus"):
            want.append(("removeNodeStatus", m["command"]))
            if v["status"] == 6 and v["nodeID"] == 0:
                want += [("nodeRemoved", 0), ("nodesRemoved", [0])]
        else:
            want.append(("messageReceived", m["command"]))
    have = list(app_calls)
    for event, arg in want:
        for pos, entry in enumerate(have):
            if entry[0] == event and (entry[1] == arg if not isinstance(arg, tuple) else dispatch.same(arg, entry[1]) is None):
                del have[pos]
                break
        else:
            mon.fail("not-offered", "the gateway's %r was not announced as %s: %s" % (arg, event, app_calls))
    mon.check(not have, "wrongly-offered", "announced by the application without reason: %s" % have)
