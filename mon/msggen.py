"""Random field values for the reference codec's tables, and comparison with pyzwave's decoded attributes."""
import importlib
import ipaddress

import codec

# Types pyzwave can only decode (their list/set/str/float attributes have no encoder)
DECODE_ONLY = {
    "AssociationGrpInfo.GroupNameReport", "AssociationGrpInfo.GroupInfoReport", "AssociationGrpInfo.GroupCommandListReport",
    "Configuration.Report", "Meter.Report", "NetworkManagementInclusion.NodeAddStatus",
    "NetworkManagementProxy.NodeListReport", "NetworkManagementProxy.FailedNodeListReport",
    "NodeProvisioning.ListIterationReport", "SensorMultilevel.SupportedSensorReport", "SensorMultilevel.Report",
}
NAMES = sorted(codec.T)
COMPOSABLE = [n for n in NAMES if n not in DECODE_ONLY]
LEAF = [n for n in COMPOSABLE if n not in ("Zip.ZipPacket", "Supervision.Get")]
LEAF_DECODE = [n for n in NAMES if n not in ("Zip.ZipPacket", "Supervision.Get")]


def cls_of(name):
    mod, cls = name.split(".")
    return getattr(importlib.import_module("pyzwave.commandclass." + mod), cls)


def uint(rng, bits):
    top = (1 << bits) - 1
    r = rng.random()
    if r < 0.15:
        return 0
    if r < 0.3:
        return top
    if r < 0.45:
        return 1 << rng.randrange(bits)
    if r < 0.55:
        return top ^ (1 << rng.randrange(bits))
    return rng.randint(0, top)


def blob(rng, limit=24):
    r = rng.random()
    n = 0 if r < 0.15 else 1 if r < 0.25 else rng.randint(0, limit)
    if rng.random() < 0.1:
        n = rng.randint(limit, 200)
    return bytes(rng.choice((0, 0xFF, rng.randrange(256), rng.randrange(256))) for _ in range(n))


def text(rng, limit=12):
    alphabet = "ab Zé√𝄞:#'\"\n-0\0"
    return "".join(rng.choice(alphabet) for _ in range(rng.randint(0, limit)))


def assoc(rng, limit=8):
    singles = [(rng.randint(1, 232), None) for _ in range(rng.choice((0, 0, 1, 2, rng.randint(0, limit))))]
    multis = [(rng.randint(1, 232), rng.choice((0, 0, 1, 2, 127, rng.randrange(256))))
              for _ in range(rng.choice((0, 0, 0, 1, 2, rng.randint(0, limit))))]
    return singles + multis


KNOWN_IME = {0: 1, 1: 2, 2: 5, 4: 1, 5: 1}


def ime(rng):
    """[(type, data)] of a maintenance report with unique types"""
    out = []
    types = rng.sample(range(0, 9), rng.randint(0, 5))
    if rng.random() < 0.25:
        types.insert(rng.randint(0, len(types)), rng.randint(9, 255))
    for t in types:
        n = KNOWN_IME.get(t, rng.randint(0, 6))
        out.append((t, bytes(rng.randrange(256) for _ in range(n))))
    return out


def ext(rng):
    """Header extension options [(critical, type, data)]: at most one of each known type, unknown ones in between"""
    out = []
    kinds = rng.sample((1, 3, 4), rng.randint(0, 3))
    for t in kinds:
        if t == 1:
            d = rng.choice((0, 1, -1, 60, 120, 255, 256, 65535, 65536, 2 ** 23 - 1, -2 ** 23, rng.randint(-2 ** 23, 2 ** 23 - 1)))
            out.append((rng.random() < 0.5, 1, d.to_bytes(3, "big", signed=True)))
        elif t == 3:
            body = b"".join(bytes([a, len(b)]) + b for a, b in ime(rng))
            out.append((rng.random() < 0.5, 3, body))
        else:
            out.append((True, 4, bytes([rng.randrange(256), rng.randrange(2)])))
    if rng.random() < 0.3:
        # optional options this library does not know (maintenance get, multicast addressing, future ones)
        t = rng.choice((2, 5, 6, 20, 127))
        out.insert(rng.randint(0, len(out)), (False, t, bytes(rng.randrange(256) for _ in range(rng.randint(0, 5)))))
    return out


def values(name, rng, depth=0, for_compose=False):
    out = {}
    for fname, kind in codec.T[name][2]:
        if fname is None:
            continue
        k, arg = kind[0], kind[1:]
        if kind == "ext":
            out[fname] = ext(rng) if out["headerExtIncluded"] else []
        elif k == "u" and arg.isdigit():
            out[fname] = uint(rng, int(arg))
            if fname == "size":
                out[fname] = rng.choice((1, 2, 4))
        elif k == "f" and arg == "1":
            out[fname] = rng.randrange(2)
            if fname == "headerExtIncluded" and for_compose:
                out[fname] = 0
        elif kind == "bytes":
            out[fname] = blob(rng)
        elif kind == "dsk16":
            out[fname] = bytes(uint(rng, 8) for _ in range(16))
        elif kind == "dskin":
            n = rng.choice((0, 2, 2, 16, rng.randint(0, 16)))
            out[fname] = bytes(uint(rng, 8) for _ in range(n))
            if rng.random() < 0.7:
                out["inputDSKLength"] = min(15, n)
        elif kind == "dskn":
            n = rng.choice((0, 16))
            out["dskLengthN"] = n
            out[fname] = bytes(uint(rng, 8) for _ in range(n))
        elif kind == "ipv6":
            out[fname] = rng.choice((0, 1, 2 ** 128 - 1, 0xFFFF0A000001, uint(rng, 128), rng.getrandbits(128)))
        elif kind == "nodes29":
            density = rng.choice((0, 0.02, 0.3, 1))
            out[fname] = {n for n in range(1, 233) if rng.random() < density} | set(rng.sample((1, 8, 9, 16, 17, 224, 217, 225, 231, 232), rng.randint(0, 3)))
        elif kind == "mask":
            out[fname] = {n for n in range(1, 48) if rng.random() < rng.choice((0.05, 0.3))} or {rng.randint(1, 40)}
        elif kind == "assoc":
            out[fname] = assoc(rng)
        elif kind == "float":
            size = rng.choice((1, 2, 4))
            raw = rng.choice((0, 1, -1, (1 << (8 * size - 1)) - 1, -(1 << (8 * size - 1)),
                              rng.randint(-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1)))
            out[fname] = (raw, size, rng.randrange(8), rng.randrange(4))
        elif kind == "lstr":
            out[fname] = text(rng)
        elif kind == "cmdlist":
            out[fname] = [[uint(rng, 8), uint(rng, 8)] for _ in range(rng.randint(0, 6))]
        elif kind == "groups":
            n = rng.choice((0, 1, 1, 2, 5))
            out["groupCount"] = n
            out[fname] = [dict(groupingIdentifier=uint(rng, 8), mode=uint(rng, 8), profile=uint(rng, 16), eventCode=uint(rng, 16))
                          for _ in range(n)]
        elif kind == "cfgval":
            out[fname] = uint(rng, 8 * out["size"])
        elif kind in ("lmsg", "msg"):
            if kind == "msg" and (rng.random() < 0.15 or not out["zwCmdIncluded"]):
                out["zwCmdIncluded"] = 0
                out[fname] = None
                continue
            pool = LEAF if for_compose else LEAF_DECODE
            inner = rng.choice(pool)
            if depth == 0 and rng.random() < 0.15:
                inner = "Supervision.Get"
            out[fname] = (inner, values(inner, rng, depth + 1, for_compose))
            while kind == "lmsg" and len(codec.encode(*out[fname])) > 250:  # (its length is one byte)
                out[fname] = (inner, values(inner, rng, depth + 1, for_compose))
        elif kind == "nifcc":
            out[fname] = blob(rng)
            out["nodeInfoLength"] = 7 + len(out[fname])
            if len(out[fname]) > 240:
                out[fname] = out[fname][:240]
                out["nodeInfoLength"] = 247
        elif kind == "meta":
            types = rng.sample((0, 1, 2, 3, 0x32, 0x33, 0x34, 0x35, 0x36, 0x37), rng.randint(0, 4))
            out[fname] = [(rng.randrange(2), t, blob(rng, 10)[:100]) for t in types]
        else:
            raise AssertionError(kind)
    return out


def dsk_text(raw):
    return "-".join("%05d" % (raw[i] << 8 | raw[i + 1]) for i in range(0, len(raw), 2))


def build(name, vals, rng, via_setattr=False):
    """Construct the pyzwave message, using the value forms its users use"""
    from pyzwave.types import dsk_t

    cls = cls_of(name)
    kwargs = {}
    for fname, kind in codec.T[name][2]:
        if fname is None or fname not in vals:
            continue
        v = vals[fname]
        if kind == "ext":
            continue
        if kind == "ipv6":
            addr = ipaddress.IPv6Address(v)
            v = rng.choice((addr, addr.compressed, addr.exploded, v))
        elif kind in ("dsk16", "dskin"):
            # dsk_t is the documented type
            v = rng.choice((v, dsk_text(v), dsk_t(v)) if len(v) == 16 else (v, dsk_t(v)))
        elif kind == "assoc":
            form = rng.randrange(3)
            v = [((n if form == 0 else str(n)) if e is None else ((n, e) if form < 2 else "%d:%d" % (n, e))) for n, e in v]
        elif kind in ("lmsg", "msg"):
            v = None if v is None else build(v[0], v[1], rng, via_setattr)
        elif kind == "f1":
            v = rng.choice((v, bool(v)))
        if isinstance(v, int) and rng.random() < 0.2:
            # a value of another message
            v = dict(cls.attributes)[fname](v)
        kwargs[fname] = v
    if not via_setattr:
        return cls(**kwargs)
    msg = cls()
    for fname, v in kwargs.items():
        setattr(msg, fname, v)
    return msg


def compare(name, vals, msg, path=""):
    """None, or a description of the first difference between the decoded message and the reference values"""
    from pyzwave.message import Message

    here = path + name
    if type(msg) is not cls_of(name):
        return "%s decoded as %s" % (here, type(msg).__name__)
    for fname, kind in codec.T[name][2]:
        if fname is None or fname not in vals:
            continue
        want = vals[fname]
        where = here + "." + fname
        if kind == "ext":
            bad = compare_ext(want if vals.get("headerExtIncluded") else [], msg.headerExtension, where)
            if bad:
                return bad
            continue
        got = getattr(msg, fname)
        if kind == "msg" and want is None:
            if got is not None:
                return "%s is %r, expected nothing" % (where, got)
            continue
        if kind in ("lmsg", "msg"):
            if isinstance(want, (bytes, bytearray)):
                if not isinstance(got, Message):
                    return "%s is %r" % (where, got)
                if got.hid() != (want[0] << 8 | want[1]) or got.cmdClass() != want[0]:
                    return "%s: unknown command decoded with id 0x%04X" % (where, got.hid())
                continue
            bad = compare(want[0], want[1], got, where + "/")
            if bad:
                return bad
            continue
        ok, shown = same(kind, want, got, msg)
        if not ok:
            return "%s is %s, transmitted %r" % (where, shown, want)
    return None


def same(kind, want, got, msg=None):
    k, arg = kind[0], kind[1:]
    try:
        if got is None:
            # A field at the very end of the frame that carries nothing
            return (want in (b"", [], "", ()) or (isinstance(want, (set, dict)) and not want)), "unset"
        if k in "us" and arg.isdigit():
            return int(got) == want, repr(got)
        if k == "f" and arg == "1":
            return bool(got) == bool(want) and bool(got == want), repr(got)
        if kind in ("bytes",):
            return bytes(got) == want, repr(got)
        if kind in ("dsk16", "dskn"):
            return got == dsk_text(want) and str(got) == dsk_text(want), repr(got)
        if kind == "dskin":
            return bytes_of_dsk(got) == want, repr(got)
        if kind == "ipv6":
            return int(got) == want, repr(got)
        if kind in ("nodes29", "mask"):
            return {int(x) for x in got} == set(want), repr(got)
        if kind == "assoc":
            return [tuple(x) for x in got] == [tuple(x) for x in want], repr(got)
        if kind == "float":
            raw, _size, precision, scale = want
            exact = raw / 10 ** precision
            return abs(float(got) - exact) <= 1e-12 * abs(exact) and got.scale == scale, "%r scale %r" % (float(got), got.scale)
        if kind == "lstr":
            return str(got) == want, repr(got)
        if kind == "cmdlist":
            return [list(x) for x in got] == [list(x) for x in want], repr(got)
        if kind == "groups":
            shown = [{f: int(getattr(g, f)) for f in ("groupingIdentifier", "mode", "profile", "eventCode")} for g in got]
            return shown == want, repr(shown)
        if kind == "cfgval":
            return int(got) == want, repr(got)
        if kind == "nifcc":
            return bytes(got) == want, repr(got)
        if kind == "meta":
            return {int(t): bytes(d) for t, d in got.items()} == {t: d for _c, t, d in want}, repr(got)
    except Exception as error:  # pylint: disable=broad-except
        return False, "not usable (%r): %r" % (error, got)
    raise AssertionError(kind)


def bytes_of_dsk(dsk):
    """Bytes a DSK-like value would put on the wire"""
    from pyzwave.types import BitStreamWriter

    if isinstance(dsk, (bytes, bytearray)):
        return bytes(dsk)
    stream = BitStreamWriter()
    dsk.serialize(stream)
    return bytes(stream)


def compare_ext(want, got, where):
    """None, or what is wrong with a header extension"""
    try:
        return _compare_ext(want, got, where)
    except (AttributeError, TypeError, ValueError, KeyError) as error:
        return "%s is not usable (%r): %r" % (where, error, got)


def _compare_ext(want, got, where):
    from pyzwave.commandclass.Zip import IMEType, ZIPPacketOptionType as O

    known = {t: d for _c, t, d in want if t in (1, 3, 4)}
    delay = int.from_bytes(known[1], "big", signed=True) if 1 in known else 0
    if not known:
        if got is None:
            return None
        if {int(k) for k in got} & {1, 3, 4}:
            return "%s contains %r, none transmitted" % (where, dict(got))
        if hasattr(got, "expectedDelay") and int(got.expectedDelay) != 0:
            return "%s.expectedDelay is %r, none transmitted" % (where, got.expectedDelay)
        return None
    if int(got.expectedDelay) != delay:
        return "%s.expectedDelay is %r, transmitted %d" % (where, got.expectedDelay, delay)
    if {int(k) for k in got} & {1, 3, 4} != set(known):
        return "%s has options %r, transmitted %r" % (where, sorted(int(k) for k in got), sorted(known))
    if 4 in known:
        enc = got[O.ENCAPSULATION_FORMAT_INFORMATION]
        if int(enc.security2SecurityClass) != known[4][0] or bool(enc.crc16) != bool(known[4][1] & 1):
            return "%s encapsulation info %r/%r, transmitted %s" % (where, enc.security2SecurityClass, enc.crc16, known[4].hex())
    if 3 in known:
        rep = got[O.MAINTENANCE_REPORT]
        data = known[3]
        sent = {}
        while data:
            sent[data[0]] = data[2:2 + data[1]]
            data = data[2 + data[1]:]
        if {int(k) for k in rep if int(k) <= 8} != {k for k in sent if k <= 8}:
            return "%s maintenance report has %r, transmitted %r" % (where, sorted(int(k) for k in rep), sorted(sent))
        for t, raw in sent.items():
            if t > 8:
                continue
            val = rep[IMEType(t)]
            if t in (0, 4, 5):
                good = int(val) == raw[0]
            elif t == 1:
                good = int(val) == int.from_bytes(raw, "big")
            elif t == 2:
                good = [int(getattr(val, a)) for a in ("repeater1", "repeater2", "repeater3", "repeater4", "speed")] == list(raw)
            else:
                good = bytes(val) == raw
            if not good:
                return "%s maintenance value %d is %r, transmitted %s" % (where, t, val, raw.hex())
    return None
