"""
Fake Z/IP gateway and Z/IP nodes for the simulated network, speaking through the independent codec.

Everything the code under test sends ends in FakeGateway.on_send, is decoded (a frame that cannot be
decoded or that has reserved bits set is itself a violation) and appended to self.wire:
  Sent(t, transport, host, frame, packet, command)
Replies are computed by overridable methods and injected after configurable delays.
"""
import ipaddress

import codec

GW_IP = "fd00:aaaa::3"


SCHEMES = ("fd00:bbbb::%x:0", "fd00:bbbb:%x::1", "fd00:bbbb::%x", "::ffff:0:%x", "fd00:%x:bbbb::3", "2001:db8::%x:0:0:3")
scheme = SCHEMES[0]


def node_ip(node):
    """IPv6 address (int) of a node"""
    return int(ipaddress.IPv6Address(scheme % node))


def ip_text(value):
    return ipaddress.IPv6Address(value).compressed


class Sent:
    """One datagram sent by the code under test"""

    __slots__ = ("t", "transport", "host", "dest", "frame", "name", "packet", "command", "order")

    def __init__(self, t, transport, host, dest, frame, name, packet, command, order):
        self.t, self.transport, self.host, self.dest, self.frame = t, transport, host, dest, frame
        self.name, self.packet, self.command, self.order = name, packet, command, order

    @property
    def seq(self):
        return self.packet["seqNo"]

    @property
    def cmd(self):
        return self.command[0] if self.command else None

    @property
    def args(self):
        return self.command[1] if self.command else None

    def __repr__(self):
        return "<%.3f #%s -> %s %s %s>" % (self.t, self.transport.id, self.host, self.name if self.command is None else self.command,
                                           self.frame.hex())


class FakeGateway:
    """Default behaviour: ack everything, answer nothing. Subclasses and callbacks add services."""

    def __init__(self, loop, mon, latency=0.01):
        self.loop = loop
        self.net = loop.net
        self.mon = mon
        self.latency = latency
        self.wire = []
        self.nodes = {}  # node id -> ip (int), answered to solicitations
        self.home = 0x11223344
        self.order = 0
        self.delivered = []  # (order, t, transport, frame)
        self.net.on_send = self.on_send
        # hooks: each may return None (default handling) or a list of (delay, frame)
        self.ack_hook = None        # (sent) -> [(delay, frame)]
        self.command_hook = None    # (sent) -> [(delay, frame)]
        self.solicit_hook = None    # (node, sent) -> [(delay, frame)]
        self.listener_hook = None   # (sent)
        self.mode = 1
        self.strict = True

    # -- incoming ------------------------------------------------------------
    def on_send(self, transport, data, dest):
        t = self.loop.time()
        self.order += 1
        try:
            name, values = codec.decode(data)
        except (ValueError, IndexError) as error:
            self.mon.fail("bad-frame", "sent a malformed frame %s to %s: %s" % (data.hex(), dest[0], error))
            return
        packet = values if name == "Zip.ZipPacket" else None
        command = values.get("command") if packet else None
        if command is not None and command[0] is None:
            command = (None, command[1])
        sent = Sent(t, transport, dest[0], dest, data, name, packet, command, self.order)
        self.wire.append(sent)
        self.mon.count("datagrams sent")
        self.mon.log("send", round(t, 4), dest[0], name, values if packet is None else (packet["seqNo"], command))
        if transport.remote is None:
            if self.listener_hook:
                self.listener_hook(sent)
            return
        if name == "Zip.ZipPacket":
            if packet["ackRequest"]:
                acks = self.ack_hook(sent) if self.ack_hook else None
                if acks is None:
                    acks = [(self.latency, codec.zip_ack(sent.seq))]
                self.reply(transport, acks)
            if command is not None:
                replies = self.command_hook(sent) if self.command_hook else None
                if replies is None:
                    replies = self.serve(sent)
                self.reply(transport, replies or [])
        elif name == "ZipND.ZipInvNodeSolicitation":
            replies = self.solicit_hook(values["nodeId"], sent) if self.solicit_hook else None
            if replies is None:
                replies = self.advertise(values["nodeId"])
            self.reply(transport, replies)

    def reply(self, transport, replies):
        for delay, frame in replies:
            if isinstance(frame, tuple):
                frame = codec.zip_packet(frame)
            self.inject(delay, transport, frame)

    def inject(self, delay, transport, frame, source=None):
        """Deliver a frame later and note the moment in self.delivered"""
        self.loop.sim_at(self.loop.time() + delay, self._deliver, transport, bytes(frame), source)

    def _deliver(self, transport, frame, source):
        if transport.closed:
            return
        self.order += 1
        self.delivered.append((self.order, self.loop.time(), transport, frame))
        self.mon.log("recv", round(self.loop.time(), 4), (source or transport.remote)[0], frame.hex())
        self.mon.count("datagrams delivered")
        before = len(self.loop.errors)
        transport.deliver_raw(frame, source or transport.remote, self.loop)
        return before

    # -- services ------------------------------------------------------------
    def advertise(self, node):
        if node not in self.nodes:
            return []
        return [(self.latency, codec.advertisement(node, self.nodes[node], self.home))]

    def serve(self, sent):
        """Replies to a command; override"""
        return []

    # -- helpers for checks ----------------------------------------------------
    def sent_commands(self, name, host=None):
        return [s for s in self.wire if s.cmd == name and (host is None or s.host == host)]


def new_connection(address=GW_IP):
    from pyzwave.zipconnection import ZIPConnection

    return ZIPConnection(address, b"\x12\x34")


def new_gateway(address=GW_IP):
    from pyzwave.zipgateway import ZIPGateway

    return ZIPGateway(address, b"\x12\x34")


async def connect_only(gateway):
    """Connect a ZIPGateway's own connection without the configuration sequence of ZIPGateway.connect()"""
    from pyzwave.zipconnection import ZIPConnection

    await ZIPConnection.connect(gateway)
