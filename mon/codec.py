"""
Reference wire codec: Z-Wave command layouts written down as tables, independent of pyzwave's types.

A message is (name, values): name is "Module.Class" of the public pyzwave class, values a dict.
Field kinds (MSB first, big endian):
  u<bits>  unsigned           s<bits> signed          r<bits> reserved (zero, values key None)
  f1       flag               bytes   rest of frame
  dsk16    16 byte DSK        dskn    DSK, length in an earlier field
  ipv6     16 bytes (as int)
  nodes29  29 byte node mask  mask    little endian rest-of-frame mask, bit j of byte k = 8k+j+1
  assoc    association list   float   precision/scale/size + value
  lstr     length + utf-8     cmdlist length + (class, command) pairs
  groups   AGI groups, count in groupCount
  cfgval   value of `size` bytes (unsigned)
  lmsg     length prefixed command   msg  command, rest of frame
  ext      Z/IP header extension (only if headerExtIncluded)
  nifcc    command classes of a node add status (length field - 7)
  meta     provisioning metadata TLVs
"""
import struct

# Command classes of interest
ZIP = 0x23
T = {}  # name -> (cc, cmd, fields)
BY_ID = {}


def _m(name, cc, cmd, *fields):
    parsed = []
    for f in fields:
        if isinstance(f, str):
            fname, kind = f.split(":")
            parsed.append((fname or None, kind))
        else:
            parsed.append(f)
    T[name] = (cc, cmd, parsed)
    BY_ID[(cc, cmd)] = name


NMI = 0x34
NMP = 0x52

_m("ApplicationStatus.ApplicationBusy", 0x22, 0x01, "status:u8", "waitTime:u8")
_m("Association.Set", 0x85, 0x01, "groupingIdentifier:u8", "nodes:assoc")
_m("Association.Get", 0x85, 0x02, "groupingIdentifier:u8")
_m("Association.Report", 0x85, 0x03, "groupingIdentifier:u8", "maxNodesSupported:u8", "reportsToFollow:u8", "nodes:assoc")
_m("Association.GroupingsGet", 0x85, 0x05)
_m("Association.GroupingsReport", 0x85, 0x06, "supportedGroupings:u8")
_m("MultiChannelAssociation.MultiChannelSet", 0x8E, 0x01, "groupingIdentifier:u8", "nodes:assoc")
_m("MultiChannelAssociation.MultiChannelGet", 0x8E, 0x02, "groupingIdentifier:u8")
_m("MultiChannelAssociation.MultiChannelReport", 0x8E, 0x03, "groupingIdentifier:u8", "maxNodesSupported:u8", "reportsToFollow:u8", "nodes:assoc")
_m("AssociationGrpInfo.GroupNameGet", 0x59, 0x01, "groupingIdentifier:u8")
_m("AssociationGrpInfo.GroupNameReport", 0x59, 0x02, "groupingIdentifier:u8", "name:lstr")
_m("AssociationGrpInfo.GroupInfoGet", 0x59, 0x03, "refreshCache:f1", "listMode:f1", ":r6", "groupingIdentifier:u8")
_m("AssociationGrpInfo.GroupInfoReport", 0x59, 0x04, "listMode:f1", "dynamicInfo:f1", "groupCount:u6", "groups:groups")
_m("AssociationGrpInfo.GroupCommandListGet", 0x59, 0x05, "allowCache:f1", ":r7", "groupingIdentifier:u8")
_m("AssociationGrpInfo.GroupCommandListReport", 0x59, 0x06, "groupingIdentifier:u8", "commandClass:cmdlist")
for _mod, _cc in (("Basic", 0x20), ("Indicator", 0x87), ("SwitchBinary", 0x25)):
    _m(_mod + ".Set", _cc, 0x01, "value:u8")
    _m(_mod + ".Get", _cc, 0x02)
    _m(_mod + ".Report", _cc, 0x03, "value:u8")
_m("Battery.Get", 0x80, 0x02)
_m("Battery.Report", 0x80, 0x03, "batteryLevel:u8")
_m("Configuration.Set", 0x70, 0x04, "parameterNumber:u8", "default:f1", ":r4", "size:u3", "value:cfgval")
_m("Configuration.Get", 0x70, 0x05, "parameterNumber:u8")
_m("Configuration.Report", 0x70, 0x06, "parameterNumber:u8", ":r5", "size:u3", "value:cfgval")
_m("Configuration.BulkGet", 0x70, 0x08, "parameterOffset:u16", "numberOfParameters:u8")
_m("Configuration.BulkReport", 0x70, 0x09, "parameterOffset:u16", "numberOfParameters:u8", "reportsToFollow:u8",
   "default:f1", "handshake:f1", ":r3", "size:u3", "parameter:bytes")
_m("Mailbox.ConfigurationGet", 0x69, 0x01)
_m("Mailbox.ConfigurationSet", 0x69, 0x02, ":r5", "mode:u3", "forwardingDestinationIPv6Address:ipv6", "udpPortNumber:u16")
_m("Mailbox.ConfigurationReport", 0x69, 0x03, ":r3", "supportedModes:u2", "mode:u3", "mailboxCapacity:u16",
   "forwardingDestinationIPv6Address:ipv6", "udpPortNumber:u16")
_m("Mailbox.Queue", 0x69, 0x04, ":r4", "last:f1", "operation:u3", "queueHandle:u8", "mailboxEntry:bytes")
_m("Mailbox.WakeupNotification", 0x69, 0x05, "queueHandle:u8")
_m("Mailbox.NodeFailing", 0x69, 0x06, "queueHandle:u8")
_m("Mailbox.QueueFlush", 0x69, 0x07, "queueHandle:u8")
_m("ManufacturerSpecific.Get", 0x72, 0x04)
_m("ManufacturerSpecific.Report", 0x72, 0x05, "manufacturerID:u16", "productTypeID:u16", "productID:u16")
_m("Meter.Get", 0x32, 0x01, "rateType:u2", "scale:u3", ":r3", "scale2:u8")
_m("Meter.Report", 0x32, 0x02, "scale2:f1", "rateType:u2", "meterType:u5", "meterValue:float", "deltaTime:u16")
_m("Meter.SupportedGet", 0x32, 0x03)
_m("Meter.SupportedReport", 0x32, 0x04, "meterReset:f1", "rateType:u2", "meterType:u5", "moreScaleTypes:f1",
   "scaleSupported:u7", "nbrScaleSupportedBytesToFollow:u8", "scaleSupportedByteN:bytes")
_m("Meter.Reset", 0x32, 0x05)
_m("NetworkManagementInclusion.NodeAdd", NMI, 0x01, "seqNo:u8", ":r8", "mode:u8", "txOptions:u8")
_m("NetworkManagementInclusion.NodeAddStatus", NMI, 0x02, "seqNo:u8", "status:u8", ":r8", "newNodeID:u8", "nodeInfoLength:u8",
   "listening:f1", ":r7", "optFunc:f1", ":r7", "basicDeviceClass:u8", "genericDeviceClass:u8", "specificDeviceClass:u8",
   "commandClass:nifcc")
_m("NetworkManagementInclusion.NodeRemove", NMI, 0x03, "seqNo:u8", ":r8", "mode:u8")
_m("NetworkManagementInclusion.NodeRemoveStatus", NMI, 0x04, "seqNo:u8", "status:u8", "nodeID:u8")
_m("NetworkManagementInclusion.FailedNodeRemove", NMI, 0x07, "seqNo:u8", "nodeID:u8")
_m("NetworkManagementInclusion.FailedNodeRemoveStatus", NMI, 0x08, "seqNo:u8", "status:u8", "nodeID:u8")
_m("NetworkManagementInclusion.FailedNodeReplace", NMI, 0x09, "seqNo:u8", "nodeID:u8", "txOptions:u8", "mode:u8")
_m("NetworkManagementInclusion.FailedNodeReplaceStatus", NMI, 0x0A, "seqNo:u8", "status:u8", "nodeID:u8")
_m("NetworkManagementInclusion.NodeNeightborUpdateRequest", NMI, 0x0B, "seqNo:u8", "nodeID:u8")
_m("NetworkManagementInclusion.NodeNeightborUpdateStatus", NMI, 0x0C, "seqNo:u8", "status:u8")
_m("NetworkManagementInclusion.ReturnRouteAssign", NMI, 0x0D, "seqNo:u8", "sourceNodeID:u8", "destinationNodeID:u8")
_m("NetworkManagementInclusion.ReturnRouteAssignComplete", NMI, 0x0E, "seqNo:u8", "status:u8")
_m("NetworkManagementInclusion.ReturnRouteDelete", NMI, 0x0F, "seqNo:u8", "nodeID:u8")
_m("NetworkManagementInclusion.ReturnRouteDeleteComplete", NMI, 0x10, "seqNo:u8", "status:u8")
_m("NetworkManagementInclusion.NodeAddKeysReport", NMI, 0x11, "seqNo:u8", ":r7", "requestCSA:f1", "requestedKeys:u8")
_m("NetworkManagementInclusion.NodeAddKeysSet", NMI, 0x12, "seqNo:u8", ":r6", "grantCSA:f1", "accept:f1", "grantedKeys:u8")
_m("NetworkManagementInclusion.NodeAddDSKReport", NMI, 0x13, "seqNo:u8", ":r4", "inputDSKLength:u4", "dsk:dsk16")
_m("NetworkManagementInclusion.NodeAddDSKSet", NMI, 0x14, "seqNo:u8", "accept:f1", ":r3", "inputDSKLength:u4", "dsk:dskin")
_m("NetworkManagementInclusion.SmartStartJoinStartedReport", NMI, 0x15, "seqNo:u8", "dsk:dsk16")
_m("NetworkManagementInclusion.IncludedNIFReport", NMI, 0x19, "seqNo:u8", "dsk:dsk16")
_m("NetworkManagementProxy.NodeListGet", NMP, 0x01, "seqNo:u8")
_m("NetworkManagementProxy.NodeListReport", NMP, 0x02, "seqNo:u8", "status:u8", "nodeListControllerId:u8", "nodes:nodes29")
_m("NetworkManagementProxy.NodeInfoCachedGet", NMP, 0x03, "seqNo:u8", ":r4", "maxAge:u4", "nodeID:u8")
_m("NetworkManagementProxy.NodeInfoCachedReport", NMP, 0x04, "seqNo:u8", "status:u4", "age:u4", "listening:f1", ":r7",
   "optFunc:f1", ":r7", ":r8", "basicDeviceClass:u8", "genericDeviceClass:u8", "specificDeviceClass:u8", "commandClass:bytes")
_m("NetworkManagementProxy.MultiChannelEndPointGet", NMP, 0x05, "seqNo:u8", "nodeID:u8")
_m("NetworkManagementProxy.MultiChannelEndPointReport", NMP, 0x06, "seqNo:u8", "nodeID:u8", ":r8", ":r1", "individualEndPoints:u7",
   ":r1", "aggregatedEndPoints:u7")
_m("NetworkManagementProxy.MultiChannelCapabilityGet", NMP, 0x07, "seqNo:u8", "nodeID:u8", ":r1", "endPoint:u7")
_m("NetworkManagementProxy.MultiChannelCapabilityReport", NMP, 0x08, "seqNo:u8", "nodeID:u8", "commandClassLength:u8", ":r1",
   "endPoint:u7", "genericDeviceClass:u8", "specificDeviceClass:u8", "commandClass:bytes")
_m("NetworkManagementProxy.FailedNodeListGet", NMP, 0x0B, "seqNo:u8")
_m("NetworkManagementProxy.FailedNodeListReport", NMP, 0x0C, "seqNo:u8", "failedNodeList:nodes29")
_m("NodeProvisioning.Set", 0x78, 0x01, "seqNo:u8", "dsk:dsk16", "metaDataExtension:bytes")
_m("NodeProvisioning.ListIterationGet", 0x78, 0x03, "seqNo:u8", "remainingCounter:u8")
_m("NodeProvisioning.ListIterationReport", 0x78, 0x04, "seqNo:u8", "remainingCount:u8", ":r3", "dskLengthN:u5", "dsk:dskn",
   "metaDataExtension:meta")
_m("SensorMultilevel.SupportedGetSensor", 0x31, 0x01)
_m("SensorMultilevel.SupportedSensorReport", 0x31, 0x02, "bitMask:mask")
_m("SensorMultilevel.SupportedGetScale", 0x31, 0x03, "sensorType:u8")
_m("SensorMultilevel.Get", 0x31, 0x04, "sensorType:u8", ":r3", "scale:u2", ":r3")
_m("SensorMultilevel.Report", 0x31, 0x05, "sensorType:u8", "sensorValue:float")
_m("SensorMultilevel.SupportedScaleReport", 0x31, 0x06, "sensorType:u8", ":r4", "scaleBitMask:u4")
_m("Supervision.Get", 0x6C, 0x01, "statusUpdates:f1", ":r1", "sessionID:u6", "command:lmsg")
_m("Supervision.Report", 0x6C, 0x02, "moreStatusUpdates:f1", "wakeUpRequest:f1", "sessionID:u6", "status:u8", "duration:u8")
_m("Version.VersionGet", 0x86, 0x11)
_m("Version.VersionReport", 0x86, 0x12, "zwaveLibraryType:u8", "zwaveProtocolVersion:u8", "zwaveProtocolSubVersion:u8",
   "applicationVersion:u8", "applicationSubVersion:u8")
_m("Version.VersionCommandClassGet", 0x86, 0x13, "requestedCommandClass:u8")
_m("Version.VersionCommandClassReport", 0x86, 0x14, "requestedCommandClass:u8", "commandClassVersion:u8")
_m("Zip.ZipPacket", 0x23, 0x02, "ackRequest:f1", "ackResponse:f1", "nackResponse:f1", "nackWaiting:f1", "nackQueueFull:f1",
   "nackOptionError:f1", ":r2", "headerExtIncluded:f1", "zwCmdIncluded:f1", "moreInformation:f1", "secureOrigin:f1", ":r4",
   "seqNo:u8", ":r1", "sourceEP:u7", ":r1", "destEP:u7", "headerExtension:ext", "command:msg")
_m("Zip.ZipKeepAlive", 0x23, 0x03, "ackRequest:f1", "ackResponse:f1", ":r6")
_m("ZipGateway.GatewayModeSet", 0x5F, 0x01, "mode:u8")
_m("ZipGateway.GatewayModeGet", 0x5F, 0x02)
_m("ZipGateway.GatewayModeReport", 0x5F, 0x03, "mode:u8")
_m("ZipGateway.GatewayPeerSet", 0x5F, 0x04, "peerProfile:u8", "ipv6:ipv6", "port:u16", ":r2", "peerNameLength:u6")
_m("ZipGateway.UnsolicitedDestinationSet", 0x5F, 0x08, "unsolicitedIPv6Destination:ipv6", "port:u16")
_m("ZipGateway.ApplicationNodeInfoSet", 0x5F, 0x0B, "commandClasses:bytes")
_m("ZipND.ZipInvNodeSolicitation", 0x58, 0x04, ":r5", "local:f1", ":r2", "nodeId:u8")
_m("ZipND.ZipNodeAdvertisement", 0x58, 0x01, ":r5", "local:f1", "validity:u2", "nodeId:u8", "ipv6:ipv6", "homeId:u32")
_m("ZwavePlusInfo.Get", 0x5E, 0x01)
_m("ZwavePlusInfo.Report", 0x5E, 0x02, "zwavePlusVersion:u8", "roleType:u8", "nodeType:u8", "installerIconType:u16", "userIconType:u16")


class BitBuf:
    """Bit string under construction"""

    def __init__(self):
        self.value = 0
        self.bits = 0

    def put(self, value, bits):
        if not 0 <= value < (1 << bits):
            raise ValueError("value %r does not fit %d bits" % (value, bits))
        self.value = (self.value << bits) | value
        self.bits += bits

    def raw(self, data):
        assert self.bits % 8 == 0
        self.value = (self.value << (8 * len(data))) | int.from_bytes(data, "big")
        self.bits += 8 * len(data)

    def bytes(self):
        assert self.bits % 8 == 0, self.bits
        return self.value.to_bytes(self.bits // 8, "big")


class Cursor:
    def __init__(self, data):
        self.data = data
        self.pos = 0  # in bits

    def take(self, bits):
        out = 0
        for _ in range(bits):
            byte = self.data[self.pos // 8]
            out = (out << 1) | ((byte >> (7 - self.pos % 8)) & 1)
            self.pos += 1
        return out

    def raw(self, n):
        i = self.pos // 8
        if i + n > len(self.data):
            raise IndexError
        self.pos += 8 * n
        return bytes(self.data[i:i + n])

    def rest(self):
        return self.raw(len(self.data) - self.pos // 8)

    def left(self):
        return len(self.data) - self.pos // 8


def node_mask(nodes):
    mask = bytearray(29)
    for n in nodes:
        mask[(n - 1) // 8] |= 1 << ((n - 1) % 8)
    return bytes(mask)


def encode_assoc(nodes):
    single = bytes(n for n, e in nodes if e is None)
    multi = [(n, e) for n, e in nodes if e is not None]
    if not multi:
        return single
    return single + b"\x00" + bytes(x for pair in multi for x in pair)


def encode_ext(ext):
    """ext: list of (critical, type, data bytes)"""
    body = b"".join(bytes([(0x80 if crit else 0) | typ, len(data)]) + data for crit, typ, data in ext)
    return bytes([len(body) + 1]) + body


def encode(name, values, reserved=None, skip_default=False):
    """Encode a message. reserved: callable(bits) -> noise for reserved fields"""
    cc, cmd, fields = T[name]
    buf = BitBuf()
    buf.put(cc, 8)
    buf.put(cmd, 8)
    for fname, kind in fields:
        k, arg = kind[0], kind[1:]
        if fname is None:
            buf.put(reserved(int(arg)) if reserved else 0, int(arg))
            continue
        if fname not in values and kind in ("ext", "msg", "bytes", "assoc", "nifcc", "meta"):
            continue
        v = values[fname]
        if k in "uf" and arg.isdigit():
            buf.put(int(v), int(arg))
        elif k == "s" and arg.isdigit():
            buf.put(v & ((1 << int(arg)) - 1), int(arg))
        elif kind in ("bytes", "dsk16", "dskn", "dskin", "nifcc"):
            buf.raw(bytes(v))
        elif kind == "ipv6":
            buf.put(v, 128)
        elif kind == "nodes29":
            buf.raw(node_mask(v))
        elif kind == "mask":
            size = max([(x + 7) // 8 for x in v] or [1])
            mask = bytearray(size)
            for x in v:
                mask[(x - 1) // 8] |= 1 << ((x - 1) % 8)
            buf.raw(bytes(mask))
        elif kind == "assoc":
            buf.raw(encode_assoc(v))
            if reserved and all(e is None for _n, e in v) and reserved(2) == 0:
                buf.raw(b"\0")  # the marker may be sent although no end points follow
        elif kind == "float":
            raw, size, precision, scale = v
            buf.put(precision, 3)
            buf.put(scale, 2)
            buf.put(size, 3)
            buf.raw(raw.to_bytes(size, "big", signed=True))
        elif kind == "lstr":
            data = v.encode("utf-8")
            buf.put(len(data), 8)
            buf.raw(data)
        elif kind == "cmdlist":
            buf.put(2 * len(v), 8)
            for c, m in v:
                buf.put(c, 8)
                buf.put(m, 8)
        elif kind == "groups":
            for g in v:
                buf.raw(struct.pack(">BBHBH", g["groupingIdentifier"], g["mode"], g["profile"],
                                    reserved(8) if reserved else 0, g["eventCode"]))
        elif kind == "cfgval":
            buf.raw(v.to_bytes(values["size"], "big"))
        elif kind == "lmsg":
            data = encode_any(v, reserved)
            buf.put(len(data), 8)
            buf.raw(data)
        elif kind == "msg":
            if v is not None:
                buf.raw(encode_any(v, reserved))
        elif kind == "ext":
            if values.get("headerExtIncluded"):
                buf.raw(encode_ext(v))
        elif kind == "meta":
            for crit, typ, data in v:
                buf.put(typ, 7)
                buf.put(crit, 1)
                buf.put(len(data), 8)
                buf.raw(data)
        else:
            raise AssertionError(kind)
    return buf.bytes()


def encode_any(msg, reserved=None):
    """msg: (name, values) or raw bytes"""
    if isinstance(msg, (bytes, bytearray)):
        return bytes(msg)
    return encode(msg[0], msg[1], reserved)


def decode(data):
    """Decode a frame sent by the code under test. Raises IndexError/ValueError if it is malformed; unknown ids give (None, ...)."""
    if len(data) < 2:
        raise ValueError("short frame %r" % (data,))
    name = BY_ID.get((data[0], data[1]))
    if name is None:
        return (None, {"raw": bytes(data)})
    cur = Cursor(data)
    cur.take(16)
    values = {}
    for fname, kind in T[name][2]:
        k, arg = kind[0], kind[1:]
        if fname is None:
            if cur.take(int(arg)) != 0:
                raise ValueError("reserved bits set in %s: %s" % (name, data.hex()))
        elif k in "uf" and arg.isdigit():
            values[fname] = cur.take(int(arg))
        elif k == "s" and arg.isdigit():
            v = cur.take(int(arg))
            values[fname] = v - (1 << int(arg)) if v >> (int(arg) - 1) else v
        elif kind in ("bytes", "nifcc", "dskin"):
            values[fname] = cur.rest()
        elif kind == "dsk16":
            values[fname] = cur.raw(16)
        elif kind == "ipv6":
            values[fname] = cur.take(128)
        elif kind == "assoc":
            rest = cur.rest()
            nodes = []
            if 0 in rest:
                i = rest.index(0)
                head, tail = rest[:i], rest[i + 1:]
                if len(tail) % 2:
                    raise ValueError("odd multi channel part")
                nodes = [(n, None) for n in head] + [(tail[j], tail[j + 1]) for j in range(0, len(tail), 2)]
            else:
                nodes = [(n, None) for n in rest]
            values[fname] = nodes
        elif kind == "cfgval":
            values[fname] = int.from_bytes(cur.raw(values["size"]), "big")
        elif kind == "lmsg":
            n = cur.take(8)
            values[fname] = decode(cur.raw(n))
        elif kind == "msg":
            values[fname] = decode(cur.rest()) if cur.left() else None
        elif kind == "ext":
            if values["headerExtIncluded"]:
                n = cur.take(8)
                values[fname] = cur.raw(n - 1)
        else:
            values[fname] = cur.rest()
    if cur.pos != 8 * len(data):
        raise ValueError("trailing bytes in %s: %s" % (name, data.hex()))
    return (name, values)


def zip_packet(command, seq=0, ack=False, source=0, dest=0, ext=None, **flags):
    """A Z/IP packet with an embedded command ((name, values), bytes or None)"""
    values = dict(ackRequest=int(ack), ackResponse=0, nackResponse=0, nackWaiting=0, nackQueueFull=0, nackOptionError=0,
                  headerExtIncluded=int(ext is not None), zwCmdIncluded=int(command is not None), moreInformation=0,
                  secureOrigin=1, seqNo=seq, sourceEP=source, destEP=dest, command=command)
    if ext is not None:
        values["headerExtension"] = ext
    values.update(flags)
    return encode("Zip.ZipPacket", values)


def zip_ack(seq, **kw):
    return zip_packet(None, seq=seq, ackResponse=1, **kw)


def zip_waiting(seq, delay=None):
    ext = None if delay is None else [(True, 1, delay.to_bytes(3, "big", signed=True))]
    return zip_packet(None, seq=seq, ext=ext, nackResponse=1, nackWaiting=1)


def advertisement(node, ip, home=0x11223344, validity=0, local=0):
    return encode("ZipND.ZipNodeAdvertisement", dict(local=local, validity=validity, nodeId=node, ipv6=ip, homeId=home))
