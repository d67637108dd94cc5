"""
Simulated Z-Wave devices behind the fake gateway: constant truth, per-request faults.

truth[(node, ep)] = dict(versions={cc: version}, version=(5 values), man=(3), plus=(5), sensors={type: scale mask},
    agi=[dict(groupingIdentifier, mode, profile, eventCode, name, commands)], groups={id: (max, [(node, ep or None)])},
    config={parameter: (size, value)})
Every command a device receives is noted in `requests` with the fault that was applied and its outcome:
  ok       acknowledged in time and a complete, right reply delivered in time
  fail     not acknowledged, or no right reply in time
  unclear  a truncated reply was delivered
"""
import codec
import gw

# request -> reply
REPLY = {
    "Version.VersionCommandClassGet": "Version.VersionCommandClassReport",
    "Version.VersionGet": "Version.VersionReport",
    "ManufacturerSpecific.Get": "ManufacturerSpecific.Report",
    "ZwavePlusInfo.Get": "ZwavePlusInfo.Report",
    "SensorMultilevel.SupportedGetSensor": "SensorMultilevel.SupportedSensorReport",
    "SensorMultilevel.SupportedGetScale": "SensorMultilevel.SupportedScaleReport",
    "AssociationGrpInfo.GroupInfoGet": "AssociationGrpInfo.GroupInfoReport",
    "AssociationGrpInfo.GroupNameGet": "AssociationGrpInfo.GroupNameReport",
    "AssociationGrpInfo.GroupCommandListGet": "AssociationGrpInfo.GroupCommandListReport",
    "Association.GroupingsGet": "Association.GroupingsReport",
    "Association.Get": "Association.Report",
    "MultiChannelAssociation.MultiChannelGet": "MultiChannelAssociation.MultiChannelReport",
    "Configuration.Get": "Configuration.Report",
}
CC_OF = {name: codec.T[name][0] for name in codec.T}
POISON = 0x7A  # no truth contains it


def answer(truth, name, a):
    """The device's replies to a command, or [] """
    if name == "Version.VersionCommandClassGet":
        cc = a["requestedCommandClass"]
        return [dict(requestedCommandClass=cc, commandClassVersion=truth["versions"].get(cc, 0))]
    if name == "Version.VersionGet":
        keys = ("zwaveLibraryType", "zwaveProtocolVersion", "zwaveProtocolSubVersion", "applicationVersion", "applicationSubVersion")
        return [dict(zip(keys, truth["version"]))]
    if name == "ManufacturerSpecific.Get":
        return [dict(zip(("manufacturerID", "productTypeID", "productID"), truth["man"]))]
    if name == "ZwavePlusInfo.Get":
        return [dict(zip(("zwavePlusVersion", "roleType", "nodeType", "installerIconType", "userIconType"), truth["plus"]))]
    if name == "SensorMultilevel.SupportedGetSensor":
        return [dict(bitMask=sorted(truth["sensors"]))]
    if name == "SensorMultilevel.SupportedGetScale":
        return [dict(sensorType=a["sensorType"], scaleBitMask=truth["sensors"].get(a["sensorType"], 0))]
    if name == "AssociationGrpInfo.GroupInfoGet":
        groups = truth["agi"]
        if not a["listMode"]:
            groups = [g for g in groups if g["groupingIdentifier"] == a["groupingIdentifier"]]
        size = truth.get("agi_per_report", 7)
        return [dict(listMode=a["listMode"], dynamicInfo=0, groupCount=len(groups[i:i + size]), groups=groups[i:i + size])
                for i in range(0, len(groups), size)]
    if name in ("AssociationGrpInfo.GroupNameGet", "AssociationGrpInfo.GroupCommandListGet"):
        for g in truth["agi"]:
            if g["groupingIdentifier"] == a["groupingIdentifier"]:
                if name.endswith("NameGet"):
                    return [dict(groupingIdentifier=g["groupingIdentifier"], name=g["name"])]
                return [dict(groupingIdentifier=g["groupingIdentifier"], commandClass=g["commands"])]
        return []
    if name == "Association.GroupingsGet":
        return [dict(supportedGroupings=len(truth["groups"]))]
    if name in ("Association.Get", "MultiChannelAssociation.MultiChannelGet"):
        g = a["groupingIdentifier"]
        if g not in truth["groups"]:
            return []
        maximum, nodes = truth["groups"][g]
        if name == "Association.Get":
            nodes = [n for n in nodes if n[1] is None]
        return [dict(groupingIdentifier=g, maxNodesSupported=maximum, reportsToFollow=0, nodes=nodes)]
    if name == "Configuration.Get":
        size, value = truth["config"].get(a["parameterNumber"], (1, 0))
        return [dict(parameterNumber=a["parameterNumber"], size=size, value=value)]
    return []


def poisoned(name, values):
    """The same report with other values"""
    v = dict(values)
    for key in v:
        if key in ("size", "groupCount", "listMode", "dynamicInfo", "reportsToFollow", "requestedCommandClass", "sensorType", "groupingIdentifier", "parameterNumber"):
            continue
        if key == "bitMask":
            v[key] = [POISON]
        elif key == "nodes":
            v[key] = [(POISON, None)]
        elif key == "groups":
            v[key] = [dict(g, profile=POISON) for g in v[key]]
        elif key == "name":
            v[key] = "poison"
        elif key == "commandClass":
            v[key] = [[POISON, POISON]]
        elif key == "scaleBitMask":
            v[key] = 15
        elif key == "supportedGroupings":
            v[key] = POISON
        else:
            v[key] = POISON
    return v


KEYED = {"Version.VersionCommandClassReport": "requestedCommandClass", "SensorMultilevel.SupportedScaleReport": "sensorType",
         "Association.Report": "groupingIdentifier", "MultiChannelAssociation.MultiChannelReport": "groupingIdentifier",
         "Configuration.Report": "parameterNumber"}
FAULTS = ("lost", "unacked", "nack", "late", "dup", "early", "foreign", "other-node", "other-ep", "trunc", "waiting", "slow", "split")


def gen_faults(rng, rate, n=60):
    out = []
    for _ in range(n):
        if rng.random() >= rate:
            out.append(dict(kind="ok", ack=rng.choice((0.001, 0.01, 0.3)), reply=rng.choice((0.002, 0.02, 0.7))))
        else:
            out.append(dict(kind=rng.choice(FAULTS), ack=rng.choice((0.001, 0.01, 0.3, 1.7)), reply=rng.choice((0.002, 0.02, 0.7, 2.1)),
                            late=rng.choice((3.2, 3.7, 4.4, 6.1)), cut=rng.random(), wait=rng.choice((2, 20, 70)), pick=rng.random()))
    return out


class DevSim:
    """Attach to a NetworkGateway: answers device commands from the truth with faults"""

    def __init__(self, fake, truth, faults, bystander=None, spare_ep=None):
        self.fake, self.truth, self.faults = fake, truth, list(faults)
        self.requests = []
        self.bystander, self.spare_ep = bystander, spare_ep
        self.used = 0
        self.by_sent = {}
        self.sets = []
        self.replies = []  # (t, node, ep, name, values) truthful complete replies when delivered
        self.other = None  # (request, sent) -> [(delay, command)] for commands without table entry
        fake.ack_hook = self.on_ack
        fake.device_hook = self.on_device

    def on_ack(self, sent):
        node = self.fake.node_of(sent)
        if node is None or sent.command is None:
            return None
        fault = self.faults[self.used] if self.used < len(self.faults) else dict(kind="ok", ack=0.01, reply=0.02)
        self.used += 1
        req = dict(node=node, ep=sent.packet["destEP"], name=sent.cmd, args=sent.args, t=sent.t, order=sent.order, fault=fault,
                   sent=sent, outcome="fail", ack=None, n=len(self.requests))
        self.requests.append(req)
        self.by_sent[sent.order] = req
        kind = fault["kind"]
        if kind == "unacked":
            return []
        if kind == "nack":
            return [(fault["ack"], codec.zip_packet(None, seq=sent.seq, nackResponse=1))]
        delay = fault["ack"]
        if kind == "waiting":
            delay = fault["wait"]
            req["ack"] = sent.t + delay
            return [(0.01, codec.zip_waiting(sent.seq, fault["wait"] + 5)), (delay, codec.zip_ack(sent.seq))]
        req["ack"] = sent.t + delay
        return [(delay, codec.zip_ack(sent.seq))]

    def on_device(self, node, sent):
        req = self.by_sent[sent.order]
        fault, kind = req["fault"], req["fault"]["kind"]
        truth = self.truth.get((node, req["ep"]))
        name = req["name"]
        if truth is None:
            return []
        if name in ("Association.Set", "MultiChannelAssociation.MultiChannelSet"):
            self.sets.append(req)
            if kind not in ("unacked", "nack", "lost") or fault.get("pick", 0) > 0.5:
                maximum, nodes = truth["groups"].get(req["args"]["groupingIdentifier"], (0, []))
                nodes = list(nodes) + [n for n in req["args"]["nodes"] if n not in nodes]
                truth["groups"][req["args"]["groupingIdentifier"]] = (maximum, nodes)
            req["outcome"] = "ok" if req["ack"] is not None else "fail"
            return []
        if name not in REPLY:
            req["outcome"] = "ok" if req["ack"] is not None else "fail"
            return self.other(req, sent) if self.other else []
        report = REPLY[name]
        replies = answer(truth, name, req["args"])
        base = req["ack"] - sent.t if req["ack"] is not None else fault["ack"]
        if kind in ("lost", "nack") or not replies:
            return []
        delay = base + fault["reply"]
        if kind == "early":
            delay = base / 2
        elif kind == "late":
            delay = base + fault["late"]
        elif kind == "unacked":
            if fault["pick"] < 0.5:
                return []
            delay = fault["late"]
        if kind == "foreign" and report in KEYED:
            for values in replies:
                v = poisoned(report, values)
                v[KEYED[report]] = (v[KEYED[report]] % 250) + 1
                self.deliver(delay / 2, req, report, v, node, req["ep"])
        if kind == "other-node" and self.bystander:
            self.deliver(delay / 2, req, report, poisoned(report, replies[0]), self.bystander, req["ep"], unsol=True)
        if kind == "other-ep" and self.spare_ep and self.spare_ep.get(node, req["ep"]) != req["ep"]:
            self.deliver(delay / 2, req, report, poisoned(report, replies[0]), node, self.spare_ep[node])
        if kind == "trunc":
            frame = codec.encode(report, replies[0])
            cut = 2 + int(fault["cut"] * (len(frame) - 2))
            req["outcome"] = "unclear"
            self.deliver(delay, req, frame[:cut], None, node, req["ep"])
            if fault["pick"] < 0.5:
                return []
            delay += 0.2
        for i, values in enumerate(replies):
            self.deliver(delay + 0.003 * i, req, report, values, node, req["ep"], truthful=True, unsol=kind == "split")
            if kind == "dup":
                self.deliver(delay + 0.003 * i + (0.0005, 0.4, 3.6)[int(fault["pick"] * 3)], req, report, values, node, req["ep"], truthful=True)
        if kind not in ("late", "unacked", "trunc") and (req["ack"] is not None):
            req["outcome"] = "ok"
        return []

    def deliver(self, delay, req, report, values, node, ep, truthful=False, unsol=False):
        command = report if isinstance(report, bytes) else (report, values)
        self.fake.loop.sim_at(self.fake.loop.time() + delay, self._deliver, command, node, ep, truthful, unsol, req)

    def _deliver(self, command, node, ep, truthful, unsol, req):
        if truthful:
            self.fake.order += 1
            self.replies.append((self.fake.loop.time(), node, ep, command[0], command[1], req))
        if unsol or not self.fake.net.connected(gw.ip_text(gw.node_ip(node))):
            self.fake._unsolicited(node, command, None, dict(source=ep))
        else:
            self.fake._from_node(node, command, dict(source=ep))
