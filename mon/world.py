"""
A complete simulated Z-Wave network around the real ZIPGateway and Application.

Devices are plain dicts: dict(cc=[node information bytes], basic, generic, specific, listening,
endpoints=[dict(cc, generic, specific)...]). NetworkGateway answers the network management traffic
from them; device commands (sent to a node's own address) go to device_hook(node, sent) which returns
[(delay, command)] replies, command being (name, values) or a raw frame.
"""
import asyncio

import codec
import gw

NMP = "NetworkManagementProxy."
NMI = "NetworkManagementInclusion."


def device(cc=(), basic=4, generic=0x10, specific=1, listening=True, endpoints=(), aggregated=0):
    return dict(cc=list(cc), basic=basic, generic=generic, specific=specific, listening=listening, endpoints=list(endpoints),
                aggregated=aggregated)


class NetworkGateway(gw.FakeGateway):
    """Z/IP gateway with a node list"""

    def __init__(self, loop, mon, devices=None, controller=1, latency=0.01):
        super().__init__(loop, mon, latency)
        self.controller = controller
        self.devices = {}
        self.failed = set()
        self.device_hook = None
        self.service_hook = None  # (sent) -> None or [(delay, command)]
        self.mode = 1
        self.nodes[controller] = gw.node_ip(controller)
        self.hosts = {gw.ip_text(gw.node_ip(controller)): controller}
        self.acks = True
        self.listening_on = (None, None)
        for node, dev in (devices or {}).items():
            self.add_device(node, dev)

    def add_device(self, node, dev):
        self.devices[node] = dev
        self.nodes[node] = gw.node_ip(node)
        self.hosts[gw.ip_text(self.nodes[node])] = node

    def remove_device(self, node):
        self.devices.pop(node, None)
        self.nodes.pop(node, None)

    def node_list(self):
        return sorted({self.controller, *self.devices})

    def report_list(self, nodes=None, seq=0):
        return (NMP + "NodeListReport", dict(seqNo=seq, status=0, nodeListControllerId=self.controller,
                                             nodes=self.node_list() if nodes is None else sorted(nodes)))

    def node_of(self, sent):
        return self.hosts.get(sent.host)

    def serve(self, sent):
        if self.service_hook:
            replies = self.service_hook(sent)
            if replies is not None:
                return replies
        node = self.node_of(sent)
        if node is not None:
            if self.device_hook:
                return self.device_hook(node, sent)
            return []
        reply = self.network(sent)
        return [] if reply is None else [(self.latency, codec.zip_packet(reply))]

    def network(self, sent):
        """The gateway's own reply to a command, or None"""
        name, a = sent.cmd, sent.args
        if name == "ZipGateway.GatewayModeGet":
            return ("ZipGateway.GatewayModeReport", dict(mode=self.mode))
        if name == "ZipGateway.GatewayModeSet":
            self.mode = a["mode"]
        elif name == "ZipGateway.UnsolicitedDestinationSet":
            self.listening_on = (a["unsolicitedIPv6Destination"], a["port"])
        elif name == NMP + "NodeListGet":
            return self.report_list(seq=a["seqNo"])
        elif name == NMP + "FailedNodeListGet":
            return (NMP + "FailedNodeListReport", dict(seqNo=a["seqNo"], failedNodeList=sorted(self.failed)))
        elif name == NMP + "NodeInfoCachedGet":
            return self.node_info(a["nodeID"], a["seqNo"])
        elif name == NMP + "MultiChannelEndPointGet":
            dev = self.devices.get(a["nodeID"])
            if dev:
                return (NMP + "MultiChannelEndPointReport", dict(seqNo=a["seqNo"], nodeID=a["nodeID"],
                                                                 individualEndPoints=len(dev["endpoints"]) - dev["aggregated"],
                                                                 aggregatedEndPoints=dev["aggregated"]))
        elif name == NMP + "MultiChannelCapabilityGet":
            dev = self.devices.get(a["nodeID"])
            if dev and 1 <= a["endPoint"] <= len(dev["endpoints"]):
                ep = dev["endpoints"][a["endPoint"] - 1]
                return (NMP + "MultiChannelCapabilityReport", dict(
                    seqNo=a["seqNo"], nodeID=a["nodeID"], commandClassLength=len(ep["cc"]) & 0xFF, endPoint=a["endPoint"],
                    genericDeviceClass=ep["generic"], specificDeviceClass=ep["specific"], commandClass=bytes(ep["cc"])))
        return None

    def node_info(self, node, seq):
        dev = self.devices.get(node)
        if dev is None:
            return None
        return (NMP + "NodeInfoCachedReport", dict(
            seqNo=seq, status=0, age=0, listening=int(dev["listening"]), optFunc=0, basicDeviceClass=dev["basic"],
            genericDeviceClass=dev["generic"], specificDeviceClass=dev["specific"], commandClass=bytes(dev["cc"])))

    # -- traffic initiated by the network ---------------------------------------
    def from_node(self, delay, node, command, **kw):
        """A command from a node on the connection to that node (a reply). The connection must exist when it is due"""
        self.loop.sim_at(self.loop.time() + delay, self._from_node, node, command, kw)

    def _from_node(self, node, command, kw):
        host = gw.ip_text(gw.node_ip(node))
        transports = self.net.connected(host)
        if not transports:
            return
        self._deliver(transports[-1], codec.zip_packet(command, **kw), None)

    def unsolicited(self, delay, node, command, source=None, **kw):
        """A packet from a node to the unsolicited listener"""
        self.loop.sim_at(self.loop.time() + delay, self._unsolicited, node, command, source, kw)

    def _unsolicited(self, node, command, source, kw):
        listeners = self.net.listeners()
        if not listeners:
            return
        frame = command if isinstance(command, (bytes, bytearray)) else codec.zip_packet(command, **kw)
        source = source or (gw.ip_text(gw.node_ip(node)), 4123, 0, 0)
        self._deliver(listeners[0], bytes(frame), source)

    def push_list(self, delay, nodes=None):
        """The gateway reports its node list unsolicited"""
        self.loop.sim_at(self.loop.time() + delay, self._push_list, nodes)

    def _push_list(self, nodes):
        self._unsolicited(None, self.report_list(nodes), (gw.GW_IP, 4123, 0, 0), {})


class Recorder:
    """Listener recording every event it is called with: (order, t, tag, event, args)"""

    def __init__(self, fake, tag, events, log, results=None):
        self._fake, self._tag, self._log = fake, tag, log
        for event in events:
            setattr(self, event, self._make(event, (results or {}).get(event)))

    def _make(self, event, result):
        def called(_sender, *args):
            self._fake.order += 1
            self._log.append((self._fake.order, self._fake.loop.time(), self._tag, event, args))
            return result

        return called


class NullStorage:
    """Storage that keeps nothing"""

    def nodeAdded(self, application, node):
        pass

    def nodeUpdated(self, node):
        pass


def pick_controller(rng, nodes):
    """The node id of the controller, usually 1"""
    free = [n for n in (1, 1, 1, 1, 1, 2, 127, 128, 200, 232, rng.randint(1, 232)) if n not in nodes]
    return rng.choice(free or [min(set(range(1, 233)) - set(nodes))])


class World:
    """The running system under test"""

    def __init__(self, loop, mon, devices, controller=1, storage=None, fake=None):
        from pyzwave.application import Application

        self.loop, self.mon = loop, mon
        self.fake = fake or NetworkGateway(loop, mon, devices, controller)
        self.zip = gw.new_gateway()
        self.storage = storage if storage is not None else NullStorage()
        self.app = Application(self.zip, self.storage)
        self.events = []

    async def start(self):
        await self.zip.connect()
        await self.app.startup()
        return self

    def listen(self, obj, tag, events, results=None):
        recorder = Recorder(self.fake, tag, events, self.events, results)
        obj.addListener(recorder)
        return recorder

    def node(self, node, endpoint=0):
        key = "%d:%d" % (node, endpoint)
        if key not in self.app.nodes:
            self.mon.fail("node-missing", "the gateway lists node %s, but the application does not know it (it has %s)" % (key, sorted(self.app.nodes)))
        return self.app.nodes[key]


async def quiet(seconds=60):
    await asyncio.sleep(seconds)
