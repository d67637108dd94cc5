"""C01: compose() equals the reference encoding; an unrepresentable field never changes other fields."""
import random

import codec
import msggen

ID = "C01"
LEVEL = "exploration"
RULE = ("every composable command type in turn, field values from boundary-weighted generators, built through the constructor or by "
        "attribute assignment, nested in Z/IP packets and supervision; before that every value of every field of up to 8 bits of every type; one in five cases makes a single field unrepresentable. "
        "Non-trivial: distinct (type, encoded bytes)")
REQUIRE = {"encodings compared": 500, "unrepresentable fields tried": 100, "command objects changed and encoded again": 100}
ASSUMPTIONS = ["reference tables in mon/codec.py describe the documented layouts"]


def plan(tier):
    return dict(cases=9000000, seconds=780) if tier == "thorough" else dict(cases=400000, seconds=200)


def sweep_values(kind, tier):
    bits = int(kind[1:])
    if bits <= 8:
        return range(1 << bits)
    if bits == 16 and tier == "thorough":
        return range(1 << 16)
    return sorted({v for k in range(bits) for v in ((1 << k) - 1, 1 << k, (1 << k) + 1, ((1 << bits) - 1) ^ (1 << k))} | {(1 << bits) - 1})


def enumerate_cases(tier):
    """Every value of every narrow field of every type, the other fields at one random setting"""
    for name in msggen.COMPOSABLE:
        for f, k in codec.T[name][2]:
            if f and k[0] in "uf" and k[1:].isdigit() and f not in ("size", "headerExtIncluded", "dskLengthN", "groupCount", "zwCmdIncluded"):
                yield dict(kind="sweep", name=name, field=f, width=k, tier=tier, seed=len(name) * 1000 + len(f))


def sweep(sc, mon):
    rng = random.Random(sc["seed"])
    name, field = sc["name"], sc["field"]
    vals = msggen.values(name, rng, for_compose=True)
    for value in sweep_values(sc["width"], sc["tier"]):
        one = dict(vals, **{field: value})
        try:
            got = bytes(msggen.build(name, one, rng, rng.random() < 0.5).compose())
        except Exception as error:  # pylint: disable=broad-except
            mon.fail("cannot-encode", "%s with in-range values %r cannot be encoded: %r" % (name, one, error))
            return
        want = codec.encode(name, one)
        mon.count("encodings compared")
        mon.seen(name, want)
        mon.check(got == want, "encoding-differs", "%s %r encodes to %s, layout prescribes %s" % (name, one, got.hex(), want.hex()))


def gen(rng, i, tier):
    name = msggen.COMPOSABLE[i % len(msggen.COMPOSABLE)]
    vals = msggen.values(name, rng, for_compose=True)
    sc = dict(name=name, vals=vals, seed=rng.getrandbits(32), setattr=rng.random() < 0.5, bad=None, omit=[])
    fields = [(f, k) for f, k in codec.T[name][2] if f]
    if rng.random() < 0.2:
        numeric = [(f, int(k[1:])) for f, k in fields if k[0] == "u" and k[1:].isdigit() and f not in ("size",)]
        if numeric:
            f, bits = rng.choice(numeric)
            sc["bad"] = (f, rng.choice(((1 << bits), (1 << bits) + rng.randint(0, 1 << bits), (2 << bits) - 1, (4 << bits) - 1, -1, -2, 1 << (bits + 8))))
    elif rng.random() < 0.2:
        sc["omit"] = [f for f, k in fields if k in ("bytes", "assoc") and name != "NetworkManagementInclusion.NodeAddDSKSet"]
    return sc


def execute(sc, mon):
    if sc.get("kind") == "sweep":
        return sweep(sc, mon)
    name, vals = sc["name"], dict(sc["vals"])
    rng = random.Random(sc["seed"])
    if sc["bad"]:
        return out_of_range(sc, mon, rng)
    for f in sc["omit"]:
        vals[f] = {"bytes": b"", "assoc": []}[dict(codec.T[name][2])[f]]
    given = {f: v for f, v in vals.items() if f not in sc["omit"]}
    try:
        msg = msggen.build(name, given, rng, sc["setattr"])
        got = msg.compose()
    except Exception as error:  # pylint: disable=broad-except
        mon.fail("cannot-encode", "%s with in-range values %r cannot be encoded: %r" % (name, vals, error))
        return
    want = codec.encode(name, vals)
    mon.count("encodings compared")
    mon.seen(name, want)
    mon.check(bytes(got) == want, "encoding-differs",
              "%s %r encodes to %s, layout prescribes %s" % (name, vals, bytes(got).hex(), want.hex()))
    # Encoding is repeatable and does not depend on what was encoded before
    mon.check(msg.compose() == got, "encoding-differs", "%s: encoding the same command twice gives different bytes" % name)
    if sc["seed"] % 3 == 0:
        reuse(name, vals, msg, rng, mon)


def reuse(name, vals, msg, rng, mon):
    """The same command object with some fields assigned again, at the top or inside the command it carries"""
    fresh = msggen.values(name, rng, for_compose=True)
    fields = [f for f, k in codec.T[name][2] if f and f in fresh]
    coupled = {"size", "value", "defaultValue", "dskLengthN", "dskN", "zwCmdIncluded", "command", "headerExtIncluded", "inputDSKLength", "inputDSK"}
    chosen = {f for f in fields if f not in coupled and rng.random() < 0.6}
    if coupled & set(fields) and rng.random() < 0.5:
        chosen |= coupled & set(fields)
    for f in fields:
        if any(k in ("dskin", "dskn", "nifcc", "groups", "cfgval") for _f, k in codec.T[name][2]):
            chosen = set(fields)
    now = dict(vals)
    donor = msggen.build(name, {f: fresh[f] for f in chosen}, rng, True)
    for f in fields:
        if f in chosen:
            now[f] = fresh[f]
            setattr(msg, f, getattr(donor, f))
    inner = now.get("command")
    if isinstance(inner, tuple) and rng.random() < 0.7:
        iname, ivals = inner
        simple = [(f, int(k[1:])) for f, k in codec.T[iname][2] if f and k[0] == "u" and k[1:].isdigit() and f not in coupled]
        if simple:
            f, bits = rng.choice(simple)
            value = msggen.uint(rng, bits)
            now["command"] = (iname, dict(ivals, **{f: value}))
            setattr(msg.command, f, value)
    mon.count("command objects changed and encoded again")
    try:
        got = bytes(msg.compose())
    except Exception as error:  # pylint: disable=broad-except
        mon.fail("cannot-encode", "%s changed to in-range values %r cannot be encoded: %r" % (name, now, error))
        return
    want = codec.encode(name, now)
    mon.seen(name, want)
    mon.check(got == want, "encoding-differs", "%s reused with %r encodes to %s, layout prescribes %s" % (name, now, got.hex(), want.hex()))


def out_of_range(sc, mon, rng):
    name = sc["name"]
    field, value = sc["bad"]
    vals = sc["vals"]
    mon.count("unrepresentable fields tried")
    mon.seen(name, field, value)
    try:
        msg = msggen.build(name, {f: v for f, v in vals.items() if f != field}, rng, sc["setattr"])
        setattr(msg, field, value)
        got = bytes(msg.compose())
    except Exception:  # pylint: disable=broad-except
        mon.count("unrepresentable fields refused")
        return
    legal = dict(vals)
    # Accepted: whatever it was encoded as, everything else must be as it is with a legal value of this field
    width = next(int(k[1:]) for f, k in codec.T[name][2] if f == field)
    for candidate in ([value & ((1 << width) - 1)] + ([x for x in range(1 << width)] if width <= 8 else [])):
        legal[field] = candidate
        if codec.encode(name, legal) == got:
            return
    legal[field] = 0
    mon.fail("neighbour-corrupted", "%s with %s=%d (not representable) encodes to %s; with 0 it is %s: other fields changed" % (
        name, field, value, got.hex(), codec.encode(name, legal).hex()))
