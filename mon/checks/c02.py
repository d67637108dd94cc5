"""C02: decode() of reference-encoded frames gives the transmitted values, and re-encodes to an equal frame."""
import random

import codec
import msggen

ID = "C02"
LEVEL = "exploration"
RULE = ("every value of every field of up to 8 bits of every type, every node and sensor bit, every float format; then every known command type in turn, boundary-weighted field values, with noise in reserved bits in half of the cases, extra trailing bytes of "
        "later command versions, unknown commands and unknown optional header options. Non-trivial: distinct (type, frame)")
REQUIRE = {"frames decoded": 1000, "re-encoded": 300, "header extensions decoded": 30, "unknown commands": 30, "frames decoded again after the first result was modified": 100, "handles sent as addresses": 300}
ASSUMPTIONS = ["reference tables in mon/codec.py describe the documented layouts"]
OPEN_ENDED = ("bytes", "assoc", "ext", "msg", "mask", "meta", "dskin", "nifcc", "nodes29")


def plan(tier):
    return dict(cases=9000000, seconds=780) if tier == "thorough" else dict(cases=300000, seconds=200)


def enumerate_cases(tier):
    """Every value of every narrow field of every type, the other fields at one random setting"""
    for name in msggen.NAMES:
        for f, k in codec.T[name][2]:
            if f and k[0] in "uf" and k[1:].isdigit() and f not in LENGTHS:
                yield dict(kind="sweep", name=name, field=f, width=k, tier=tier, seed=len(name) * 1000 + len(f))
            elif k == "float":
                yield dict(kind="sweep", name=name, field=f, width=k, tier=tier, seed=len(name) * 1000 + len(f))
            elif k in ("nodes29", "mask"):
                yield dict(kind="sweep", name=name, field=f, width=k, tier=tier, seed=len(name) * 1000 + len(f))


LENGTHS = ("size", "headerExtIncluded", "dskLengthN", "groupCount", "nodeInfoLength", "zwCmdIncluded")


def sweep(sc, mon):
    from pyzwave.message import Message
    from checks.c01 import sweep_values

    rng = random.Random(sc["seed"])
    name, field, width = sc["name"], sc["field"], sc["width"]
    vals = msggen.values(name, rng)
    if width == "float":
        each = [(raw, size, precision, scale) for size in (1, 2, 4) for precision in range(8) for scale in range(4)
                for raw in (0, 1, -1, 123, (1 << (8 * size - 1)) - 1, -(1 << (8 * size - 1)))]
    elif width in ("nodes29", "mask"):
        top = 232 if width == "nodes29" else 64
        each = [{n} for n in range(1, top + 1)] + [{n, (n * 7) % top + 1} for n in range(1, top + 1)] + [set(range(1, top + 1))]
    else:
        each = sweep_values(width, sc["tier"])
    for value in each:
        one = dict(vals, **{field: value})
        frame = codec.encode(name, one, (lambda bits: rng.getrandbits(bits)) if rng.random() < 0.5 else None)
        try:
            msg = Message.decode(frame)
        except Exception as error:  # pylint: disable=broad-except
            mon.fail("cannot-decode", "well-formed %s frame %s (%r) cannot be decoded: %r" % (name, frame.hex(), one, error))
            return
        mon.count("frames decoded")
        mon.seen(name, frame)
        bad = msggen.compare(name, one, msg)
        mon.check(bad is None, "wrong-value", "%s (frame %s)" % (bad, frame.hex()))


def gen(rng, i, tier):
    sc = dict(seed=rng.getrandbits(32), noise=rng.random() < 0.5, trailing=b"", kind="known")
    if rng.random() < 0.03:
        while True:
            hid = (rng.randrange(256), rng.randrange(256))
            if hid not in codec.BY_ID and hid != (0, 0):
                break
        sc.update(kind="unknown", raw=bytes(hid) + msggen.blob(rng), wrap=rng.random() < 0.5)
        return sc
    name = msggen.NAMES[i % len(msggen.NAMES)]
    if rng.random() < 0.1:
        name = "Zip.ZipPacket"
    sc.update(name=name, vals=msggen.values(name, rng))
    fields = codec.T[name][2]
    if not any(k in OPEN_ENDED for _f, k in fields) and rng.random() < 0.15:
        sc["trailing"] = bytes(rng.randrange(256) for _ in range(rng.randint(1, 4)))
    if name == "Mailbox.NodeFailing" and rng.random() < 0.6:
        # the gateway sends the address of the proxy, its last byte is the handle
        sc.update(trailing=b"", address=rng.choice((b"\xfd\x00\xbb\xbb" + bytes(11), bytes(15), rng.randbytes(15))))
    return sc


def execute(sc, mon):
    from pyzwave.message import Message, UnknownMessage

    if sc["kind"] == "sweep":
        return sweep(sc, mon)
    if sc["kind"] == "unknown":
        raw = sc["raw"]
        mon.count("unknown commands")
        if sc["wrap"]:
            msg = Message.decode(codec.zip_packet(raw, seq=7)).command
        else:
            msg = Message.decode(raw)
        mon.seen("unknown", raw)
        mon.check(isinstance(msg, UnknownMessage), "unknown-command", "frame %s decoded as %r" % (raw.hex(), type(msg).__name__))
        mon.check(msg.hid() == (raw[0] << 8 | raw[1]) and msg.cmdClass() == raw[0], "unknown-command",
                  "frame %s decoded with id 0x%04X class 0x%02X" % (raw.hex(), msg.hid(), msg.cmdClass()))
        return
    name, vals = sc["name"], sc["vals"]
    rng = random.Random(sc["seed"])
    noise = (lambda bits: rng.getrandbits(bits)) if sc["noise"] else None
    frame = codec.encode(name, vals, noise) + sc["trailing"]
    if sc.get("address"):
        mon.count("handles sent as addresses")
        frame = frame[:2] + sc["address"] + frame[2:3]
    source = rng.choice((bytes, bytearray))(frame)
    try:
        msg = Message.decode(source)
    except Exception as error:  # pylint: disable=broad-except
        mon.fail("cannot-decode", "well-formed %s frame %s (%r) cannot be decoded: %r" % (name, frame.hex(), vals, error))
        return
    mon.count("frames decoded")
    if vals.get("headerExtension"):
        mon.count("header extensions decoded")
    mon.seen(name, frame)
    bad = msggen.compare(name, vals, msg)
    mon.check(bad is None, "wrong-value", "%s (frame %s)" % (bad, frame.hex()))
    if name == "Meter.Report":
        want = vals["meterValue"][3] | (4 if vals["scale2"] else 0)
        mon.check(int(msg.scale) == want, "wrong-value", "Meter.Report.scale is %r, transmitted %d" % (msg.scale, want))
    if sc["seed"] % 4 == 0:
        # What one reader does to its copy must not reach whoever decodes the same bytes later
        mon.count("frames decoded again after the first result was modified")
        vandalise(msg)
        msg = Message.decode(source)
        bad = msggen.compare(name, vals, msg)
        mon.check(bad is None, "wrong-value", "second decoding of the same frame: %s (frame %s)" % (bad, frame.hex()))
        mon.check(bytes(source) == frame, "wrong-value", "decoding changed the buffer it was given")
    if name in msggen.DECODE_ONLY or (name == "Zip.ZipPacket" and (vals["headerExtIncluded"] or not composable_inner(vals["command"]))) \
            or (name == "Supervision.Get" and not composable_inner(vals["command"])):
        return
    mon.count("re-encoded")
    try:
        again = bytes(msg.compose())
    except Exception as error:  # pylint: disable=broad-except
        mon.fail("cannot-reencode", "%s decoded from %s cannot be encoded again: %r" % (name, frame.hex(), error))
        return
    want = codec.encode(name, vals)
    mon.check(again == want, "reencoding-differs", "%s decoded from %s re-encodes to %s instead of %s" % (
        name, frame.hex(), again.hex(), want.hex()))


def vandalise(msg):
    from pyzwave.message import Message

    for attr in [a for a, _t in getattr(msg, "attributes", ()) if not a.startswith("_")]:
        try:
            value = getattr(msg, attr)
        except Exception:  # pylint: disable=broad-except
            continue
        if isinstance(value, Message):
            vandalise(value)
        elif isinstance(value, (list, set, dict, bytearray)):
            value.clear()
        else:
            try:
                setattr(msg, attr, 1)
            except Exception:  # pylint: disable=broad-except
                pass


def composable_inner(cmd):
    if cmd is None or isinstance(cmd, bytes):
        return False
    if cmd[0] in msggen.DECODE_ONLY:
        return False
    if cmd[0] == "Supervision.Get":
        return composable_inner(cmd[1]["command"])
    return True
