"""C17: damaged settings files and failing saves; real YamlStorage on scratch directories, real I/O faults."""
import asyncio
import copy
import os
import pathlib
import resource
import shutil
import sys
import tempfile
import types

import devsim
import sim
import store
import world

ID = "C17"
LEVEL = "fault_enumeration"
RULE = ("networks of 1-3 nodes with endpoints and generated settings; files cut at every point, with flipped, inserted, removed and binary bytes, in other encodings, with other structures, wrong and "
        "out-of-range values, anchors, tags, several documents, directories and links in place of the file; saves that fail for a full disk at a given byte, a missing, unwritable or replaced directory or "
        "file, during reports, interviews and lock releases; then a restart without faults. Non-trivial: distinct (damage, parse result, restored classes)")
REQUIRE = {"damaged files": 250, "startups with damaged files": 200, "classes restored from damaged files": 250, "classes restored from undamaged files": 200, "failing saves": 200, "reports during failing saves": 60,
           "interviews with failing saves": 40, "lock releases with failing saves": 30, "classes unreadable": 60, "restarts after the fault": 150}
ASSUMPTIONS = ["the settings of a node whose own save failed may be lost until its next save", "a class whose own settings are damaged may keep what could be read"]

CANARY = "verif_c17_canary"
FIRED = []


def plan(tier):
    return dict(cases=15000, seconds=780) if tier == "thorough" else dict(cases=600, seconds=200)


SCALARS = ("", "null", "x", "-1", "300", "1e400", "9" * 5000, "true", "[]", "{}", "[1, 2]", "{1: 2}", "0x10", "1.5", "' '", "\"\\0\"", "~", "٣", "[[1, 2], [3]]", "{a: b}", "!!python/none x",
           "{1: {value: x}}", "{1: {}}", "{x: {maxNodes: 1}}", "{1: {nodes: [x]}}", "{1: {nodes: ['1:2:3']}}", "{300: -1}", "{1: {commands: [[x, y]]}}", "{1: {commands: 7}}", "{1: null}", "{'': {}}")
WHOLE = ("", "\n", "null\n", "x", "[]", "- 1\n- 2\n", "{}", "supported:\n", "supported: null\n", "supported: []\n", "supported: x\n", "supported: {}\n", "supported: 5\n", "supported: [1, 2]\n", "---\n...\n---\n",
         "a: 1\n---\nb: 2\n", "\x00" * 50, "\t", "%YAML 9.9\n---\nx: 1\n", "&a [*a]\n", "supported: &a {134: *a, 112: *a, 114: *a}\n", "supported: *unknown\n", "[" * 3000, "{" * 3000, "supported: !!python/object/apply:%s.fire []\n" % CANARY,
         "!!python/object/apply:%s.fire []\n" % CANARY, "supported: {134: !!python/object/apply:%s.fire [], 112: !!python/name:os.system x}\n" % CANARY, "? [1]\n: 2\n", "supported:\n  ? {a: b}\n  : c\n",
         "x: " + "\"" + "a" * 100000, ": : :\n", "'", "supported: {<<: {134: {version: 9}}}\n", "\ufeffsupported: {}\n", "supported: {134: {version: 2}\n", "supported: !!binary x\n", "supported: !!timestamp 1\n", "!!set {a, b}\n")


def gen(rng, i, tier):
    devices, truths, states = {}, {}, {}
    for node in rng.sample([2, 3, 5, 7, 20, 70, 100, 232], rng.choice((1, 2, 3))):
        dev = store.gen_device(rng)
        if 0x70 not in dev["cc"]:
            dev["cc"].insert(0, 0x70)
        devices[node] = dev
        truths[(node, 0)] = store.gen_truth(rng, dev["cc"])
        for k, ep in enumerate(dev["endpoints"]):
            truths[(node, k + 1)] = store.gen_truth(rng, ep["cc"])
    for key in truths:
        ccs = ccs_of(devices, key)
        states[key] = {cc: store.gen_state(rng, cc) for cc in ccs if rng.random() < 0.8}
    damages, faults = {}, []
    keys = sorted(truths)
    r = rng.random()
    if r < 0.75:
        for key in rng.sample(keys, rng.randint(1, min(2, len(keys)))):
            damages[key] = gen_damage(rng)
    if r > 0.45:
        for _ in range(rng.choice((1, 2, 4))):
            key = rng.choice(keys)
            faults.append(dict(key=key, kind=rng.choice(("full", "full", "full", "dir", "nodes-file", "dangling", "devfull", "vanish", "long")), at=rng.random(),
                               during=rng.choice(("report", "report", "interview", "lock", "teach")), param=rng.randrange(256), value=rng.randrange(256), supervised=rng.random() < 0.4,
                               states={cc: store.gen_state(rng, cc) for cc in ccs_of(devices, key) if rng.random() < 0.5}))
    return dict(devices=devices, truths=truths, states=states, damages=damages, faults=faults, interview=rng.random() < 0.5)


def ccs_of(devices, key):
    return devices[key[0]]["cc"] if key[1] == 0 else devices[key[0]]["endpoints"][key[1] - 1]["cc"]


def gen_damage(rng):
    kind = rng.choice(("cut", "cut", "flip", "insert", "delete", "binary", "whole", "encoding", "structure", "structure", "class", "class", "class", "attribute", "attribute", "attribute", "directory", "dangling", "loop", "swap-lines"))
    return dict(kind=kind, at=rng.random(), at2=rng.random(), bit=rng.randrange(8), n=rng.choice((1, 2, 17)), data=bytes(rng.randrange(256) for _ in range(rng.choice((1, 3, 40)))),
                whole=rng.choice(WHOLE), encoding=rng.choice(("utf-16", "utf-32", "utf-8-sig", "cp037", "utf-16-be")), scalar=rng.choice(SCALARS), pick=rng.random(), pick2=rng.random(),
                structure=rng.choice(("list", "pairs", "deep", "rename", "upper", "extra", "dup", "floatkeys", "quoted")))


def enumerate_cases(tier):
    """One file with every class, cut at every byte; and every prepared content"""
    import random

    rng = random.Random(17)
    ccs = [0x70, 0x86, 0x72, 0x5E, 0x31, 0x59, 0x85, 0x25]
    devices = {9: world.device(ccs), 12: world.device([0x70, 0x86])}
    truths = {k: store.gen_truth(rng, ccs_of(devices, k)) for k in ((9, 0), (12, 0))}
    states = {(9, 0): {}, (12, 0): {}}
    for cc in ccs:
        while True:
            state = store.gen_state(rng, cc)
            if len(state) > 2 or cc == 0x25:
                break
        states[(9, 0)][cc] = state
    states[(12, 0)] = {0x86: store.gen_state(rng, 0x86), 0x70: store.gen_state(rng, 0x70)}
    base = dict(devices=devices, truths=truths, states=states, faults=[], interview=False)
    step = 1 if tier == "thorough" else 29
    for at in range(0, 1400, step):
        yield dict(base, damages={(9, 0): dict(kind="cut-byte", byte=at)})
    for whole in WHOLE:
        yield dict(base, damages={(9, 0): dict(kind="whole", whole=whole)}, interview=True)
    for number, scalar in enumerate(SCALARS):
        for j, cc in enumerate(ccs):
            if tier == "thorough" or (number + j) % 4 == 0:
                yield dict(base, damages={(9, 0): dict(kind="class", scalar=scalar, cc=cc, pick=0)})
    # a save that fails at every byte
    for at in range(0, 1400, 20 * (step if step == 1 else 7)):
        yield dict(base, damages={}, faults=[dict(key=(9, 0), kind="full", byte=at, at=0, during="report", param=3, value=9, supervised=True, states={})])


# -- damage ------------------------------------------------------------------------------------
def apply_damage(path, d):
    """Damage the file. Returns False if there is nothing to damage"""
    import yaml

    kind = d["kind"]
    if kind in ("directory", "dangling", "loop"):
        if os.path.lexists(path):
            os.unlink(path)
        if kind == "directory":
            os.mkdir(path)
        elif kind == "dangling":
            os.symlink(os.path.join(os.path.dirname(path), "no", "where"), path)
        else:
            os.symlink(path, path)
        return True
    data = open(path, "rb").read() if os.path.exists(path) else b""
    at = int(d.get("at", 0) * len(data))
    if kind == "cut":
        out = data[:at]
    elif kind == "cut-byte":
        if d["byte"] >= len(data):
            return False
        out = data[:d["byte"]]
    elif kind == "flip":
        if not data:
            return False
        out = data[:at] + bytes([data[at] ^ (1 << d["bit"])]) + data[at + 1:]
    elif kind == "insert":
        out = data[:at] + d["data"] + data[at:]
    elif kind == "delete":
        out = data[:at] + data[at + d["n"]:]
    elif kind == "binary":
        out = d["data"] * 20
    elif kind == "whole":
        out = d["whole"].encode()
    elif kind == "encoding":
        out = data.decode().encode(d["encoding"])
    elif kind == "swap-lines":
        lines = data.split(b"\n")
        a, b = int(d["at"] * len(lines)), int(d["at2"] * len(lines))
        lines[a], lines[b] = lines[b], lines[a]
        out = b"\n".join(lines)
    else:
        tree = yaml.load(data.decode(), Loader=yaml.BaseLoader)
        if not tree:
            return False
        classes = tree["supported"]
        if not classes:
            return False
        names = sorted(classes)
        cc = str(d["cc"]) if "cc" in d else names[int(d["pick"] * len(names))]
        if kind == "class":
            if cc not in classes:
                return False
            classes[cc] = Raw(d["scalar"])
        elif kind == "attribute":
            fields = sorted(classes[cc])
            classes[cc][fields[int(d["pick2"] * len(fields))]] = Raw(d["scalar"])
        else:
            how = d["structure"]
            if how == "list":
                tree["supported"] = [{k: v} for k, v in classes.items()]
            elif how == "pairs":
                tree = [tree]
            elif how == "deep":
                tree = dict(supported=dict(supported=classes))
            elif how == "rename":
                classes["x" + cc] = classes.pop(cc)
            elif how == "upper":
                tree = dict(Supported=classes)
            elif how == "extra":
                classes["nonsense"] = dict(a=1)
                classes["999999"] = ["x"]
                tree["other"] = 7
            elif how == "dup":
                classes[" " + cc] = "x"
            elif how == "floatkeys":
                tree["supported"] = {k + ".0": v for k, v in classes.items()}
        out = dump(tree).encode()
    with open(path, "wb") as fd:
        fd.write(out)
    return True


class Raw(str):
    """Text put into the document as it is"""


def dump(node):
    if isinstance(node, Raw):
        return str(node)
    if isinstance(node, dict):
        return "{" + ", ".join("%s: %s" % (dump(k), dump(v)) for k, v in node.items()) + "}"
    if isinstance(node, list):
        return "[" + ", ".join(dump(v) for v in node) + "]"
    import json

    return json.dumps(str(node))


def read_tree(path):
    """{class: subtree} the file holds, or None if it holds none"""
    import yaml

    try:
        with open(path, "r") as fd:
            tree = yaml.load(fd, Loader=yaml.BaseLoader)
        found = tree.get("supported", {})
        return {k: v for k, v in found.items() if isinstance(k, str)}
    except Exception:  # pylint: disable=broad-except
        return None


def same(a, b):
    try:
        return a == b
    except RecursionError:
        return False


# -- execution ---------------------------------------------------------------------------------
def execute(sc, mon):
    sc = copy.deepcopy(sc)
    scratch = tempfile.mkdtemp(prefix="verif-c17-")
    canary = types.ModuleType(CANARY)
    canary.fire = lambda *a: FIRED.append(1)
    sys.modules[CANARY] = canary
    FIRED.clear()
    old = resource.getrlimit(resource.RLIMIT_FSIZE)
    try:
        path = os.path.join(scratch, "settings")
        saved = learn(sc, mon, path)
        files = {}
        from pyzwave.persistantstorage import YamlStorage

        storage = YamlStorage(path)
        expect = {}
        trees = {}
        for key in sc["truths"]:
            name = "%d:%d" % key
            files[name] = str(storage.pathForNode(name))
            before = read_tree(files[name]) if os.path.exists(files[name]) else {}
            mon.check(before is not None, "unreadable-save", "the saved settings of %s cannot be read back" % name)
            expect[name] = {str(cc): "saved" if str(cc) in before else "default" for cc in ccs_of(sc["devices"], key)}
            if key in sc["damages"]:
                os.makedirs(os.path.dirname(files[name]), exist_ok=True)
                if not apply_damage(files[name], sc["damages"][key]):
                    continue
                mon.count("damaged files")
                after = (read_tree(files[name]) if os.path.isfile(files[name]) else None) or {}
                trees[name] = (before, after)
                for cc in expect[name]:
                    if cc not in after:
                        expect[name][cc] = "default"
                    elif not same(after[cc], before.get(cc)):
                        expect[name][cc] = "damaged"
                mon.seen(sc["damages"][key]["kind"], len(after), sorted(expect[name].values()))
        run(sc, mon, path, saved, files, expect, trees)
        mon.check(not FIRED, "executed", "code named in a settings file was executed")
        final(sc, mon, path)
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, old)
        sys.modules.pop(CANARY, None)
        shutil.rmtree(scratch)


def teach(node, states):
    for cc, state in states.items():
        if node.supports(cc):
            store.teach(node.supported[cc], state)
            node.supported[cc].speak("commandClassUpdated")


def learn(sc, mon, path):
    saved = {}

    async def main(loop, net):
        from pyzwave.persistantstorage import YamlStorage

        w = world.World(loop, mon, sc["devices"], storage=YamlStorage(path))
        await w.start()
        for key, states in sc["states"].items():
            node = w.node(*key)
            with node.storageLock():
                teach(node, states)
            saved[node.nodeId] = store.snapshot(node)
        for key, node in w.app.nodes.items():
            saved.setdefault(key, store.snapshot(node))

    _, loop = sim.run(main)
    judge_errors(mon, loop)
    return saved


def judge_errors(mon, loop):
    errors = sim.settle_errors(loop)
    mon.check(not errors, "loop-exception", "exception in the event loop: %s" % (errors and sim.error_text(errors[0])))


class Fault:
    """Make saves of a node fail"""

    def __init__(self, mon, path, file, fault):
        self.mon, self.path, self.file, self.fault = mon, path, file, fault
        self.undo = []

    def __enter__(self):
        kind, file = self.fault["kind"], self.file
        nodes = os.path.dirname(file)
        if kind == "full":
            size = os.path.getsize(file) if os.path.isfile(file) else 300
            limit = self.fault["byte"] if "byte" in self.fault else int(self.fault["at"] * size)
            old = resource.getrlimit(resource.RLIMIT_FSIZE)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, old[1]))
            self.undo.append(lambda: resource.setrlimit(resource.RLIMIT_FSIZE, old))
        elif kind in ("dir", "dangling", "devfull"):
            if os.path.isdir(file) and not os.path.islink(file):
                os.rmdir(file)
            elif os.path.lexists(file):
                os.unlink(file)
            os.makedirs(nodes, exist_ok=True)
            if kind == "dir":
                os.mkdir(file)
                self.undo.append(lambda: os.path.isdir(file) and not os.path.islink(file) and os.rmdir(file))
            else:
                os.symlink("/dev/full" if kind == "devfull" else os.path.join(nodes, "no", "where"), file)
                self.undo.append(lambda: os.path.islink(file) and os.unlink(file))
        elif kind == "nodes-file":
            aside = nodes + ".aside"
            if os.path.isdir(nodes):
                os.rename(nodes, aside)
                with open(nodes, "w") as fd:
                    fd.write("x")

                def back():
                    os.unlink(nodes)
                    os.rename(aside, nodes)

                self.undo.append(back)
        elif kind == "vanish":
            aside = self.path + ".aside"
            os.rename(self.path, aside)

            def restore():
                if os.path.isdir(self.path):
                    shutil.rmtree(self.path)
                os.rename(aside, self.path)

            self.undo.append(restore)
        return self

    def __exit__(self, *_args):
        for undo in reversed(self.undo):
            undo()


class Collect:
    """Node level listener"""

    def __init__(self):
        self.got = []

    async def onMessage(self, _sender, message):
        self.got.append(message)
        return True


def run(sc, mon, path, saved, files, expect, trees):
    async def main(loop, net):
        from pyzwave.persistantstorage import YamlStorage

        storage = YamlStorage(path)
        w = world.World(loop, mon, sc["devices"], storage=storage)
        await w.start()
        devsim.DevSim(w.fake, sc["truths"], [])
        if sc["damages"]:
            mon.count("startups with damaged files")
        listeners = {}
        for key in sc["truths"]:
            name = "%d:%d" % key
            node = w.node(*key)
            judge_restored(mon, node, name, saved[name], expect[name], name in {"%d:%d" % k for k in sc["damages"]}, trees.get(name))
            listeners[name] = Collect()
            node.addListener(listeners[name])
        await usable(sc, mon, w, listeners, "after startup")
        for fault in sc["faults"]:
            await one_fault(sc, mon, w, storage, path, files, fault, listeners)
        if sc["interview"]:
            for key in sc["truths"]:
                node = w.node(*key)
                await node.interview()
                judge_interview(mon, node, key, sc, "after damage")
            await asyncio.sleep(60)
            await usable(sc, mon, w, listeners, "after interviewing")

    _, loop = sim.run(main)
    judge_errors(mon, loop)


def judge_restored(mon, node, name, want, expect, damaged, trees):
    blank = _blank(node)
    have = store.snapshot(node)
    for cc in have:
        what = expect.get(str(cc), "default")
        if what == "damaged":
            mon.count("classes unreadable")
            judge_partial(mon, name, cc, have[cc], want[cc], blank[cc], trees)
            continue
        mon.count("classes restored from damaged files" if damaged else "classes restored from undamaged files")
        expected = want[cc] if what == "saved" else blank[cc]
        mon.check(have[cc] == expected, "not-restored", "node %s%s: class %#x, whose settings are %s, is %s instead of %s" % (
            name, " (damaged file)" if damaged else "", cc, "intact in the file" if what == "saved" else "not in the file", have[cc], expected))


def judge_partial(mon, name, cc, have, want, blank, trees):
    """A class of which something can not be read has, field by field, what the file says or the default. If it claims to be interviewed, it has everything the file still says"""
    before, after = (tree.get(str(cc)) for tree in trees)
    if not isinstance(before, dict) or not isinstance(after, dict) or have == blank:
        return
    for field in blank:
        if field not in after:
            accepted = [blank[field]]
        elif not same(after[field], before.get(field)):
            continue
        elif have["interviewed"]:
            accepted = [want[field]]
        else:
            accepted = [want[field], blank[field]]
        mon.count("fields of damaged classes")
        mon.check(have[field] in accepted, "half-restored", "node %s: the file holds only some of class %#x (%s of %s), and its %s is %r instead of %s%s" % (
            name, cc, [f for f in sorted(after, key=repr) if f in blank and same(after[f], before.get(f))], sorted(before), field, have[field], " or ".join(map(repr, accepted)), ", though it claims to be interviewed" if have["interviewed"] else ""))


def _blank(node):
    from pyzwave.node import Node

    return store.snapshot(Node(node.rootNodeId, node.adapter, list(node.supported)))


async def usable(sc, mon, w, listeners, when):
    """Every node receives reports"""
    for key in sc["truths"]:
        name = "%d:%d" % key
        listeners[name].got.clear()
        w.fake._unsolicited(key[0], ("Basic.Report", dict(value=77)), None, dict(source=key[1]))
    await asyncio.sleep(1)
    for key in sc["truths"]:
        name = "%d:%d" % key
        mon.count("nodes used")
        mon.check(len(listeners[name].got) == 1, "not-usable", "%s: a report of node %s was delivered %d times" % (when, name, len(listeners[name].got)))


def judge_interview(mon, node, key, sc, when):
    truth = sc["truths"][key]
    fields = {0x86: ("version", ("zwaveLibraryType", "zwaveProtocolVersion", "zwaveProtocolSubVersion", "applicationVersion", "applicationSubVersion")),
              0x72: ("man", ("manufacturerID", "productTypeID", "productID")), 0x5E: ("plus", ("zwavePlusVersion", "roleType", "nodeType", "installerIconType", "userIconType"))}
    for cc, obj in node.supported.items():
        if not obj.version and not truth["versions"].get(cc):
            continue
        mon.count("interviewed classes judged")
        mon.check(obj.version, "not-usable", "%s: the version of class %#x of node %s is still unknown after an interview" % (when, cc, node.nodeId))
        if cc in fields:
            kind, names = fields[cc]
            have = [getattr(obj, n) for n in names]
            mon.check(have == truth[kind] and obj.interviewed, "not-usable", "%s: class %#x of node %s has %s after an interview, the device reported %s" % (when, cc, node.nodeId, have, truth[kind]))


async def one_fault(sc, mon, w, storage, path, files, fault, listeners):
    key = fault["key"]
    name = "%d:%d" % key
    node = w.node(*key)
    others = {n: (open(f, "rb").read() if os.path.isfile(f) else None) for n, f in files.items() if n != name}
    what = "%s while saving %s (%s)" % (fault["kind"], name, fault["during"])
    kind = fault["kind"]
    real_path = None
    if kind == "long":
        # a directory name the file system does not take
        real_path = storage.path
        storage.path = os.path.join(path, "x" * 300)
    wire = len(w.fake.wire)
    try:
        with Fault(mon, path, files[name], fault):
            mon.count("failing saves")
            if fault["during"] == "report" and key[1] == 0 or fault["during"] == "report" and node.supports(0x70):
                await report(mon, w, node, key, fault, what, wire, listeners)
            elif fault["during"] == "interview":
                await node.interview()
                await asyncio.sleep(5)
                mon.count("interviews with failing saves")
                judge_interview(mon, node, key, sc, what)
            elif fault["during"] == "lock":
                with node.storageLock():
                    teach(node, fault["states"])
                mon.count("lock releases with failing saves")
            else:
                teach(node, fault["states"])
            await asyncio.sleep(1)
    finally:
        if real_path is not None:
            storage.path = real_path
    for n, f in files.items():
        if n != name:
            now = open(f, "rb").read() if os.path.isfile(f) else None
            mon.check(now == others[n], "disturbed", "%s changed the settings file of node %s" % (what, n))
    await usable(sc, mon, w, listeners, what)


async def report(mon, w, node, key, fault, what, wire, listeners):
    listeners["%d:%d" % key].got.clear()
    command = ("Configuration.Report", dict(parameterNumber=fault["param"], size=1, value=fault["value"]))
    if fault["supervised"]:
        command = ("Supervision.Get", dict(statusUpdates=0, sessionID=11, command=command))
    w.fake._unsolicited(key[0], command, None, dict(source=key[1], ackRequest=1))
    await asyncio.sleep(1)
    mon.count("reports during failing saves")
    obj = node.supported[0x70]
    stored = obj.parameters.get(fault["param"])
    mon.check(stored is not None and stored.value == fault["value"] and stored.size == 1, "report-lost", "%s: the reported parameter was not stored" % what)
    sent = w.fake.wire[wire:]
    acks = [s for s in sent if s.packet and s.packet["ackResponse"]]
    mon.check(len(acks) == 1, "not-acked", "%s: the report was acknowledged %d times" % (what, len(acks)))
    if fault["supervised"]:
        reports = [s for s in sent if s.cmd == "Supervision.Report"]
        mon.check(len(reports) == 1 and reports[0].args["sessionID"] == 11 and reports[0].args["status"] == 0xFF, "report-lost", "%s: the supervision reports were %s" % (what, [r.args for r in reports]))


def final(sc, mon, path):
    """Without faults everything can be saved again and is restored"""
    saved = {}

    async def main(loop, net):
        from pyzwave.persistantstorage import YamlStorage

        storage = YamlStorage(path)
        for key in sc["damages"]:
            f = str(storage.pathForNode("%d:%d" % key))
            if os.path.islink(f):
                os.unlink(f)
            elif os.path.isdir(f):
                os.rmdir(f)
        w = world.World(loop, mon, sc["devices"], storage=storage)
        await w.start()
        for key in sc["truths"]:
            node = w.node(*key)
            teach(node, {0x70: dict(version=3, interviewed=True, parameters={9: dict(value=5, size=1)})} if node.supports(0x70) else {c: dict(version=1) for c in list(node.supported)[:1]})
            saved[node.nodeId] = store.snapshot(node)

    _, loop = sim.run(main)
    judge_errors(mon, loop)

    async def again(loop, net):
        from pyzwave.persistantstorage import YamlStorage

        w = world.World(loop, mon, sc["devices"], storage=YamlStorage(path))
        await w.start()
        mon.count("restarts after the fault")
        for key in sc["truths"]:
            node = w.node(*key)
            diff = store.difference(saved[node.nodeId], store.snapshot(node))
            mon.check(diff is None, "not-restored", "node %s after the fault, saved again and restarted: %s" % (node.nodeId, diff))

    _, loop = sim.run(again)
    judge_errors(mon, loop)


__all__ = ["pathlib"]
