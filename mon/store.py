"""Node settings: snapshots of what is known about a node, and the command class states to learn (C15-C17)."""
import core
import devsim
import world

STATEFUL = (0x86, 0x72, 0x5E, 0x31, 0x59, 0x85, 0x70)
OTHER = (0x20, 0x25, 0x32, 0x80, 0x87, 0x8E, 0x6C, 0x5A, 0x9F, 0xEE, 0x22, 0x01)
NASTY = ("", "null", "~", "true", "no", "12", "1.5", "0x10", "1e3", "- a", "a: b", "#x", " lead", "trail ", "a\nb", "a\n", "\t", "'q'", '"d"', "Ångström", "日本", "\x00", "\x85", "\u2028",
         "😀", "!tag", "&anchor", "*alias", "{a: 1}", "[1]", "%x", "@at", "`", "|", ">", "? k", "---", "...", "x" * 200, "2020-01-01", "=", "<<", "\r", "a\r\nb", "\x1b[0m", "\ufeff", "\u00a0")


def plain(value):
    """Value with its kind, comparable between two processes"""
    from pyzwave.util import AttributesMixin

    if isinstance(value, AttributesMixin):
        return {a[0]: plain(getattr(value, a[0])) for a in value.attributes if a[0] != "-"}
    if isinstance(value, dict):
        return {(type_of(k), k if isinstance(k, str) else int(k)): plain(v) for k, v in value.items()}
    if isinstance(value, (list, tuple)):
        return [plain(v) for v in value]
    if isinstance(value, bool) or value is None:
        return repr(value)
    if isinstance(value, int):
        return ("int", int(value))
    if isinstance(value, str):
        return ("str", str(value))
    return (type(value).__name__, repr(value))


def type_of(key):
    return "str" if isinstance(key, str) else "int"


def snapshot(node):
    """{class id: everything known about it}"""
    out = {}
    for cc, obj in node.supported.items():
        out[cc] = dict(version=plain(obj.version), interviewed=bool(obj.interviewed), **{a[0]: plain(getattr(obj, a[0])) for a in obj.attributes})
        for name, kind in obj.attributes:
            if not isinstance(getattr(obj, name), kind):
                raise core.Violation("wrong-type", "%s of class %#x is a %s instead of a %s" % (name, cc, type(getattr(obj, name)), kind))
    return out


def difference(want, have):
    for cc in sorted(set(want) | set(have)):
        if cc not in have or cc not in want:
            return "class %#x is %s" % (cc, "missing" if cc not in have else "unexpected")
        for field in want[cc]:
            if want[cc][field] != have[cc].get(field):
                return "class %#x: %s was %r, is now %r" % (cc, field, want[cc][field], have[cc].get(field))
    return None


def text(rng):
    r = rng.random()
    if r < 0.5:
        return rng.choice(NASTY)
    if r < 0.8:
        return "".join(rng.choice("aZ09 -_.:#'\"\\,[]{}&*!|>%@`åß€\n\t\u2028😀\x7f") for _ in range(rng.randint(0, 30)))
    return "Lifeline"


def number(rng, bits):
    top = (1 << bits) - 1
    return rng.choice((0, 1, top, top - 1, 10, 8, rng.randint(0, top), rng.randint(0, top)))


def gen_state(rng, cc, big=False):
    """Native state for CommandClass.__setstate__"""
    state = dict(version=rng.choice((0, 1, 2, 4, 5, 7, 255)), interviewed=rng.random() < 0.5)
    keep = rng.random()

    def put(name, value):
        if keep < 0.7 or rng.random() < 0.5:
            state[name] = value

    if cc == 0x86:
        for f in ("zwaveLibraryType", "zwaveProtocolVersion", "zwaveProtocolSubVersion", "applicationVersion", "applicationSubVersion"):
            put(f, number(rng, 8))
    elif cc == 0x72:
        for f in ("manufacturerID", "productTypeID", "productID"):
            put(f, number(rng, 16))
    elif cc == 0x5E:
        for f in ("zwavePlusVersion", "roleType", "nodeType"):
            put(f, number(rng, 8))
        for f in ("installerIconType", "userIconType"):
            put(f, number(rng, 16))
    elif cc == 0x31:
        put("supportedTypes", {number(rng, 8): rng.randint(0, 15) for _ in range(60 if big else rng.choice((0, 1, 5)))})
    elif cc == 0x59:
        shared = [[number(rng, 8), number(rng, 8)]]
        put("groupings", {number(rng, 8): dict(name=text(rng), profile=number(rng, 16), commands=rng.choice((shared, [], [[number(rng, 8), number(rng, 8)] for _ in range(60 if big else rng.randint(0, 6))])))
                          for _ in range(60 if big else rng.choice((0, 1, 3)))})
    elif cc == 0x85:
        put("groupings", {g + 1: dict(maxNodes=number(rng, 8), nodes=[(number(rng, 8), rng.choice((None, None, 0, number(rng, 7)))) for _ in range(100 if big else rng.choice((0, 1, 4)))])
                          for g in range(60 if big else rng.choice((0, 1, 3)))})
    elif cc == 0x70:
        put("parameters", {number(rng, 8): dict(value=rng.choice((0, 1, -1, 255, 65535, 1 << 31, (1 << 32) - 1, number(rng, 32))), size=rng.choice((1, 2, 4)))
                           for _ in range(600 if big else rng.choice((0, 1, 6)))})
    return state


def teach(obj, state):
    """Let a command class know something the way the code itself does: by assigning declared attributes"""
    obj.__setstate__(state)


def gen_device(rng):
    ccs = [c for c in STATEFUL if rng.random() < 0.6] + rng.sample(OTHER, rng.choice((0, 1, 3)))
    rng.shuffle(ccs)
    eps = []
    if rng.random() < 0.4:
        ccs.append(0x60)
        for _ in range(rng.choice((1, 2, 3))):
            c = [c for c in STATEFUL if rng.random() < 0.5] + rng.sample(OTHER, 1)
            eps.append(dict(cc=c, generic=1, specific=1))
    return world.device(ccs, endpoints=eps)


def gen_truth(rng, ccs):
    t = dict(versions={c: rng.choice((1, 2, 4, 5, 7)) for c in ccs}, version=[number(rng, 8) for _ in range(5)], man=[number(rng, 16) for _ in range(3)],
             plus=[number(rng, 8) for _ in range(3)] + [number(rng, 16) for _ in range(2)], sensors={rng.randint(1, 0x30): rng.randint(1, 15) for _ in range(rng.choice((0, 2)))})
    count = rng.choice((0, 1, 3))
    t["agi"] = [dict(groupingIdentifier=i, mode=0, profile=number(rng, 16), eventCode=0, name=text(rng)[:40], commands=[[number(rng, 8), number(rng, 8)] for _ in range(rng.choice((0, 2)))])
                for i in (range(1, count + 1) if rng.random() < 0.6 else rng.sample((1, 2, 100, 127, 128, 200, 255), count))]
    t["groups"] = {i + 1: (number(rng, 8), [(rng.randint(1, 232), None) for _ in range(rng.choice((0, 2)))]) for i in range(rng.choice((0, 1, 3)))}
    t["config"] = {p: (s, number(rng, 8 * s)) for p, s in ((number(rng, 8), rng.choice((1, 2, 4))) for _ in range(rng.choice((0, 3))))}
    return t


__all__ = ["devsim"]
