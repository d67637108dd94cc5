"""C25: typed attributes against a reference attribute store."""
import enum
import importlib
import ipaddress
import pkgutil

ID = "C25"
LEVEL = "exploration"
RULE = ("every declared attribute of every command, command class and value object (found by reflection): histories of 1-25 constructor values, assignments in every acceptable form (number, text, bytes, tuple, enumeration member, "
        "saved state, object of the declared type), repeated and equal values, reads and save/restore on up to three objects of one class. Non-trivial: distinct (class, attribute, form, changed)")
REQUIRE = {"assignments": 40000, "changes": 20000, "unchanged assignments": 5000, "defaults read": 5000, "constructed": 10000, "saved and restored": 1000, "other attributes compared": 100000, "attributes covered": 250}
ASSUMPTIONS = ["whether assigning a collection of equal value objects is an update is not specified", "whether a first assignment of the default value is an update is not specified", "a float that changes only its scale or size may be signalled or not", "values outside the declared range are not assigned"]


def plan(tier):
    return dict(cases=400000, seconds=780) if tier == "thorough" else dict(cases=70000, seconds=200)


CLASSES = []


def classes():
    if CLASSES:
        return CLASSES
    import pyzwave

    for info in pkgutil.walk_packages(pyzwave.__path__, "pyzwave."):
        importlib.import_module(info.name)
    from pyzwave.util import AttributesMixin

    found = {}

    def walk(cls):
        for sub in cls.__subclasses__():
            if sub.__module__.startswith("pyzwave."):
                names = [a for a, t in sub.attributes if a not in ("-", "_") and kind_of(t)]
                if names:
                    found[sub.__module__ + "." + sub.__qualname__] = sub
            walk(sub)

    walk(AttributesMixin)
    CLASSES.extend(found[k] for k in sorted(found))
    return CLASSES


RANGES = {"uint3_t": (0, 7), "uint4_t": (0, 15), "uint5_t": (0, 31), "uint7_t": (0, 127), "uint8_t": (0, 255), "uint16_t": (0, 65535), "uint32_t": (0, 2 ** 32 - 1), "int24_t": (-2 ** 23, 2 ** 23 - 1)}


def kind_of(t):
    """(kind, parameter) of a declared type, None if it is not known here"""
    names = [c.__name__ for c in t.__mro__]
    if "reserved_t" in names:
        return None
    if "Message" in names:
        return ("message", None)
    for n in names:
        if n in RANGES:
            return ("int", RANGES[n])
    if "flag_t" in names:
        return ("bits", 1)
    if "BitsBase" in names:
        return ("bits", t.sizeBits)
    if "InputDSK" in names:
        return ("inputdsk", None)
    for n, k in (("dsk_t", "dsk"), ("float_t", "float"), ("IPv6", "ipv6"), ("Nodes", "nodes"), ("NodeList", "set"), ("SensorSupported", "set"), ("HeaderExtension", None), ("MetadataExtension", "metadata"),
                 ("ZIPPacketOptionData", None)):
        if n in names:
            return (k, None) if k else None
    if "Groupings" in names:
        return ("agi" if t.__module__.endswith("AssociationGrpInfo") else "groupings", None)
    if "VarDictAttributeType" in names:
        return ("parameters" if hasattr(t, "_marker") else "vardict", None)
    for base, k in ((str, "str"), (bytes, "bytes"), (int, "anyint"), (list, "list"), (set, "set"), (float, "float")):
        if issubclass(t, base):
            return (k, None)
    return None


def pick(rng, pool, fresh):
    """A value used before, or a new one"""
    if pool and rng.random() < 0.3:
        return rng.choice(pool)
    value = fresh()
    pool.append(value)
    return value


TEXTS = ("", "a", "Switch", "åäö ☃", "x" * 200, "12", "None", " ")


def gen_value(rng, kind, par, name, owner):
    """A JSON-able reference value"""
    if kind == "int":
        lo, hi = par
        return rng.choice((lo, hi, 0, 1, rng.randint(lo, hi), rng.randint(lo, hi)))
    if kind == "bits":
        return rng.choice((0, (1 << par) - 1, rng.randrange(1 << par)))
    if kind == "anyint":
        return rng.choice((0, 1, -1, 2 ** 31, -2 ** 31, rng.randint(-300, 300)))
    if kind == "float":
        return (rng.choice((0, 21.5, -0.5, 100, rng.randint(-9999, 9999) / 10)), rng.choice((1, 2, 4)), rng.randrange(4))
    if kind == "str":
        return rng.choice(TEXTS + (chr(rng.randrange(32, 0x2FF)) * rng.randrange(9),))
    if kind == "bytes":
        return rng.randbytes(rng.choice((0, 1, 2, 16, rng.randrange(40))))
    if kind == "dsk":
        return rng.choice((bytes(16), rng.randbytes(16), rng.randbytes(16), b"", b"\xff" * 16))
    if kind == "inputdsk":
        return rng.randbytes(rng.choice((0, 2, 2, 16, rng.randrange(17))))
    if kind == "ipv6":
        return rng.choice((0, 1, 2 ** 128 - 1, rng.getrandbits(128), 0xFFFF00000000 | rng.getrandbits(32)))
    if kind == "nodes":
        return [(rng.randrange(1, 233), rng.choice((None, 0, 1, 127))) for _ in range(rng.choice((0, 1, 2, 5)))]
    if kind == "set":
        return sorted(rng.sample(range(1, 233), rng.choice((0, 1, 3, 20))))
    if kind == "list":
        if name in ("commands",):
            return [[rng.randrange(256), rng.randrange(256)] for _ in range(rng.choice((0, 1, 4)))]
        return [rng.randrange(256) for _ in range(rng.choice((0, 1, 4)))]
    if kind == "vardict":
        if owner == "Configuration":
            return {rng.randrange(1, 256): dict(value=rng.randint(-1000, 1000), size=rng.choice((1, 2, 4))) for _ in range(rng.choice((0, 1, 3)))}
        return {rng.randrange(1, 256): rng.randrange(256) for _ in range(rng.choice((0, 1, 3)))}
    if kind == "groupings":
        return {g + 1: dict(maxNodes=rng.randrange(256), nodes=[(rng.randrange(1, 233), rng.choice((None, 0, 5))) for _ in range(rng.randrange(3))]) for g in range(rng.randrange(4))}
    if kind == "agi":
        return {g + 1: dict(name=rng.choice(TEXTS), profile=rng.randrange(65536), commands=[[rng.randrange(256), rng.randrange(256)] for _ in range(rng.randrange(3))]) for g in range(rng.randrange(4))}
    if kind == "metadata":
        return {rng.choice((0, 1, 2, 3, 0x32, 0x33, 0x34, 0x35, 0x36, 0x37)): rng.randbytes(rng.randrange(5)) for _ in range(rng.randrange(4))}
    return ("Basic.Set", rng.randrange(256))  # message


FORMS = {"int": ("plain", "text", "typed", "enum", "bool"), "bits": ("plain", "typed", "bool", "text"), "anyint": ("plain", "text", "enum"), "float": ("plain", "tuple", "typed"), "str": ("plain", "typed"),
         "bytes": ("plain", "bytearray", "typed"), "dsk": ("plain", "text", "typed"), "inputdsk": ("plain", "typed"), "ipv6": ("plain", "text", "bytes", "typed", "stdlib"),
         "nodes": ("plain", "text", "typed"), "set": ("plain", "list", "typed"), "list": ("plain", "tuple-free"), "vardict": ("plain", "text", "typed"), "groupings": ("plain", "text"), "agi": ("plain",),
         "metadata": ("plain",), "message": ("typed",)}


class Num(enum.IntEnum):
    ZERO = 0
    ONE = 1
    SEVEN = 7
    BIG = 0x7F


def dsk_text(value):
    return "-".join("%05d" % (value[i] << 8 | value[i + 1]) for i in range(0, len(value), 2))


def make(t, kind, form, v):
    """The reference value in one of its acceptable forms"""
    if kind in ("int", "anyint", "bits"):
        if form == "text" and kind != "bits":
            return str(v)
        if form == "enum" and v in list(map(int, Num)):
            return Num(v)
        if form == "bool" and v in (0, 1):
            return bool(v)
        if form == "typed":
            return t(v)
        return v
    if kind == "float":
        if form == "plain" or t is float:
            return v[0]
        return t(*v) if form == "typed" else tuple(v)
    if kind in ("str", "bytes"):
        return bytearray(v) if form == "bytearray" else t(v) if form == "typed" else v
    if kind in ("dsk", "inputdsk"):
        if form == "text" and len(v) == 16:
            return dsk_text(v)
        if form == "typed":
            value = t()
            value.__setstate__(v)
            return value
        return v
    if kind == "ipv6":
        if form == "text":
            return ipaddress.IPv6Address(v).compressed
        if form == "bytes":
            return v.to_bytes(16, "big")
        if form == "typed":
            return t(v)
        return ipaddress.IPv6Address(v) if form == "stdlib" else v
    if kind == "nodes":
        if form == "text":
            return [str(n) if e is None else "%d:%d" % (n, e) for n, e in v]
        if form == "typed":
            value = t()
            value.extend((n, e) for n, e in v)
            return value
        return [(n, e) for n, e in v]
    if kind == "set":
        return list(v) if form == "list" else t(v) if form == "typed" else set(v)
    if kind == "list":
        return [list(x) if isinstance(x, (list, tuple)) else x for x in v]
    if kind == "message":
        from pyzwave.commandclass import Basic

        return Basic.Set(value=v[1])
    if kind == "groupings":
        return {(str(g) if form == "text" else g): dict(maxNodes=(str(x["maxNodes"]) if form == "text" else x["maxNodes"]), nodes=[str(n) if e is None else "%d:%d" % (n, e) for n, e in x["nodes"]]) for g, x in v.items()}
    if kind == "vardict":
        d = {(str(k) if form == "text" else k): (dict(x) if isinstance(x, dict) else x) for k, x in v.items()}
        if form == "typed":
            value = t()
            value.__setstate__(d)
            return value
        return d
    return {k: (dict(x) if isinstance(x, dict) else x) for k, x in v.items()}


def norm(kind, value):
    """What a stored value says, in plain Python values"""
    if value is None:
        return None
    try:
        return _norm(kind, value)
    except (TypeError, ValueError, AttributeError, OverflowError):
        # Not a value of this kind
        return ("unreadable", repr(value))


def _norm(kind, value):
    if kind in ("int", "anyint", "bits"):
        return int(value)
    if kind == "float":
        return (float(value), getattr(value, "_size", None), getattr(value, "scale", None))
    if kind == "str":
        return str(value)
    if kind == "bytes":
        return bytes(value)
    if kind in ("dsk", "inputdsk"):
        from pyzwave.types import BitStreamWriter

        if isinstance(value, bytes):
            return value
        stream = BitStreamWriter()
        value.serialize(stream)
        return bytes(stream)
    if kind == "ipv6":
        return int(value)
    if kind == "nodes":
        return [(int(n), None if e is None else int(e)) for n, e in value]
    if kind == "set":
        return sorted(int(x) for x in value)
    if kind == "list":
        return [[int(y) for y in x] if isinstance(x, (list, tuple)) else x for x in value]
    if kind == "message":
        return ("Basic.Set", int(value.value))
    if kind == "groupings":
        return {int(g): dict(maxNodes=int(x.maxNodes), nodes=norm("nodes", x.nodes)) for g, x in value.items()}
    if kind == "agi":
        return {int(g): dict(name=str(x.name), profile=int(x.profile), commands=norm("list", x.commands)) for g, x in value.items()}
    if kind == "metadata":
        return {int(k): bytes(x) for k, x in value.items()}
    return {int(k): (dict(value=int(x.value), size=int(x.size)) if not isinstance(x, int) else int(x)) for k, x in value.items()}


def same(kind, stored, v, form):
    got = norm(kind, stored)
    if kind == "float":
        if got[0] != float(v[0]):
            return False
        return form == "plain" or got[1] is None or got[1:] == (v[1], v[2])
    return got == jsonlike(kind, v)


def jsonlike(kind, v):
    if kind == "nodes":
        return [tuple(x) for x in v]
    if kind == "message":
        return tuple(v)
    if kind in ("groupings",):
        return {g: dict(x, nodes=[tuple(n) for n in x["nodes"]]) for g, x in v.items()}
    return v


def gen(rng, i, tier):
    cls = classes()
    n = i % len(cls) if i < 3 * len(cls) else rng.randrange(len(cls))
    name = cls[n].__module__ + "." + cls[n].__qualname__
    owner = cls[n].__module__.rsplit(".", 1)[1]
    attrs = [(a, kind_of(t)) for a, t in cls[n].attributes if a not in ("-", "_") and kind_of(t)]
    pools = {}

    def value():
        a, (kind, par) = rng.choice(attrs)
        return a, rng.choice(FORMS[kind]), pick(rng, pools.setdefault(a, []), lambda: gen_value(rng, kind, par, a, owner))

    ops = []
    for _ in range(rng.choice((1, 3, 8, 25))):
        r = rng.random()
        obj = rng.randrange(3)
        if r < 0.7:
            ops.append(("set", obj, *value()))
        elif r < 0.85:
            ops.append(("get", obj, rng.choice(attrs)[0]))
        elif r < 0.95:
            ops.append(("save", obj))
        else:
            ops.append(("set", obj, *value()))
            ops.append(ops[-1])
    init = [[value() for _ in range(rng.choice((0, 0, 1, 3)))] for _ in range(3)]
    return dict(cls=name, ops=ops, init=init)


class FakeNode:
    pass


def execute(sc, mon):
    cls = next(c for c in classes() if c.__module__ + "." + c.__qualname__ == sc["cls"])
    from pyzwave.commandclass.CommandClass import CommandClass
    from pyzwave.message import Message

    types = {a: t for a, t in cls.attributes if a not in ("-", "_")}
    kinds = {a: kind_of(t)[0] for a, t in types.items() if kind_of(t)}
    is_message = issubclass(cls, Message)
    updates = []

    def create(kwargs, keep):
        if issubclass(cls, CommandClass):
            obj = cls(False, FakeNode()) if cls.__name__ != "UnknownCommandClass" else cls(False, FakeNode(), 0xFE)
            for a, v in kwargs.items():
                setattr(obj, a, v)
        else:
            obj = cls(**kwargs)
        if keep:
            obj.attributeUpdated = lambda name, new, old: updates.append((name, new, old))
        return obj

    objs, store = [], []
    for init in sc["init"]:
        ref = {}
        kwargs = {}
        for a, form, v in init:
            if kinds[a] == "float" and form == "tuple":
                form = "typed"
            kwargs[a] = make(types[a], kinds[a], form, v)
            ref[a] = (v, form)
        objs.append(create(kwargs, True))
        store.append(ref)
        mon.count("constructed")

    def compare(where, number=None):
        for k, (obj, ref) in enumerate(zip(objs, store)):
            for a, (v, form) in ref.items():
                mon.count("other attributes compared")
                stored = getattr(obj, a)
                mon.check(isinstance(stored, types[a]), "wrong-type", "%s: %s.%s is a %s" % (where, sc["cls"], a, type(stored)))
                mon.check(same(kinds[a], stored, v, form), "wrong-value", "%s: object %d: %s.%s reads %r instead of %r" % (where, k, sc["cls"], a, norm(kinds[a], stored), v))

    compare("after construction")
    updates.clear()
    for op in sc["ops"]:
        obj, ref = objs[op[1]], store[op[1]]
        if op[0] == "set":
            _, _, a, form, v = op
            kind = kinds[a]
            value = make(types[a], kind, form, v)
            where = "after %s.%s = %r" % (sc["cls"], a, value)
            before = ref.get(a)
            setattr(obj, a, value)
            mon.count("assignments")
            if (sc["cls"], a) not in COVERED:
                COVERED.add((sc["cls"], a))
                mon.count("attributes covered")
            stored = getattr(obj, a)
            mon.check(isinstance(stored, types[a]), "wrong-type", "%s it is a %s" % (where, type(stored)))
            mon.check(same(kind, stored, v, form), "wrong-value", "%s it reads %r instead of %r" % (where, norm(kind, stored), v))
            old = None if before is None else before[0]
            got, updates[:] = list(updates), []
            mon.check(all(u[0] == a for u in got) and len(got) <= 1, "wrong-signal", "%s the updates are %s" % (where, got))
            if before is not None and kind == "float":
                changed = True if float(old[0]) != float(v[0]) else None if (old != v or before[1] != form) else False
            elif before is not None:
                changed = jsonlike(kind, old) != jsonlike(kind, v)
                if not changed and v and kind in ("groupings", "agi", "vardict"):
                    changed = None
            else:
                changed = True
                if not is_message and empty(kind, v):
                    changed = None
            if changed is not None:
                mon.count("changes" if changed else "unchanged assignments")
                mon.check(bool(got) == changed, "wrong-signal", "%s the value %s, but %d updates were signalled" % (where, "changed from %r" % (old,) if changed else "did not change", len(got)))
            if got:
                _name, new, previous = got[0]
                mon.check(isinstance(new, types[a]) and same(kind, new, v, form), "wrong-signal", "%s the new value was signalled as %r" % (where, new))
                if before is not None:
                    mon.check(previous is not None and same(kind, previous, old, "plain" if kind == "float" else before[1]), "wrong-signal", "%s the old value was signalled as %r instead of %r" % (where, previous, old))
                else:
                    mon.check(previous is None or isinstance(previous, types[a]) and empty(kind, norm(kind, previous)), "wrong-signal", "%s the old value was signalled as %r, there was none" % (where, previous))
            ref[a] = (v, form)
            mon.seen(sc["cls"], a, form, changed)
        elif op[0] == "get":
            a = op[2]
            if a not in ref:
                got = getattr(obj, a)
                mon.count("defaults read")
                if is_message:
                    default = getattr(types[a], "default", None)
                    mon.check(got == default if default is not None else got is None, "wrong-default", "%s.%s was never assigned, but reads %r" % (sc["cls"], a, got))
                else:
                    mon.check(isinstance(got, types[a]) and empty(kinds[a], norm(kinds[a], got)), "wrong-default", "%s.%s was never assigned, but reads %r" % (sc["cls"], a, got))
                mon.check(not updates, "wrong-signal", "reading %s.%s signalled %s" % (sc["cls"], a, updates))
        elif not is_message:
            state = obj.__getstate__()
            copy = create({}, False)
            copy.__setstate__(state)
            mon.count("saved and restored")
            for a, (v, form) in ref.items():
                stored = getattr(copy, a)
                mon.check(isinstance(stored, types[a]) and same(kinds[a], stored, v, form), "not-restored", "%s.%s was saved as %r and reads %r after restoring" % (sc["cls"], a, v, norm(kinds[a], stored)))
            # what happens to the copy does not affect the original
            for a, (v, form) in list(ref.items()):
                other = next((o for o in sc["ops"] if o[0] == "set" and o[2] == a and o[4] != v), None)
                if other:
                    setattr(copy, a, make(types[a], kinds[a], other[3], other[4]))
        compare("after %r" % (op,))
    mon.check(not updates, "wrong-signal", "superfluous updates %s" % updates)


def empty(kind, v):
    return v in (0, "", b"", [], {}, None) or kind == "float" and v[0] == 0


COVERED = set()
