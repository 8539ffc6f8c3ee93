"""C29: the document model holds any Renoise song: read and written again nothing is lost, added or renamed."""
import json
import os
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape, quoteattr

from lib import sut
from lib.sut import check
from props.c23 import TEXTS, text

ID, LEVEL = "C29", "exploration"
ROUNDS = 2
RULE = ("Renoise 65 documents drawn from the shape of the format as committed here (285 kinds of parts, 2812 members): every kind with all "
        "its members by the shortest way to it, every value of every enumeration, texts that read like numbers or dates, random trees, long lists; texts with markup and any alphabet, "
        "numbers of any size. Monitor: read by the document model and written again, and built from its classes and written, the parsed trees "
        "must agree element by element; what is read back must equal what was built; fresh parts are empty and share nothing.")
REQUIRE = {"documents": 700, "elements": 60000, "members": 2812, "choices": 500, "built": 500, "fresh": 285, "texts": 2000}

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib", "renoise65.json")) as f:
    SHAPE = json.load(f)  # class -> [python name, name, E/A, type, many, fixed, required]
ROOT = "RenoiseSong"


def ways():
    """The shortest way from the root to every kind of part."""
    out, todo = {ROOT: []}, [ROOT]
    for c in todo:
        for f in SHAPE[c]:
            if f[3][0] == "class" and f[3][1] not in out:
                out[f[3][1]] = out[c] + [(c, f)]
                todo.append(f[3][1])
    return out


WAYS = ways()


def tasks(tier):
    return ([{"kind": "sweep", "i": i, "weight": 2} for i in range(8)]
            + [{"kind": "random", "i": i} for i in range(8 if tier == "quick" else 64)]
            + [{"kind": "long", "i": 0, "weight": 3}, {"kind": "fresh", "once": True}])


# A part is [class, {python name: value or list of values}]; values are parts, texts, numbers.
def value(g, ty):
    r = g.r
    k = ty[0]
    if k == "enum":
        return r.choice(sorted(ty[2].values()))
    if k == "bool":
        return r.random() < 0.5
    if k == "int":
        return r.choice((0, 1, -1, 64, 255, 1 << 31, -(1 << 31), 1 << 63, r.randrange(1000), r.randrange(-(1 << 40), 1 << 40)))
    if k == "float":
        return r.choice((0.0, 1.0, -1.0, 0.5, 1e-9, 1e20, 123456.789, -0.25, r.random(), r.uniform(-1e6, 1e6)))
    if k == "XmlDate":
        return f"{r.randrange(1990, 2040)}-{r.randrange(1, 13):02d}-{r.randrange(1, 29):02d}"
    if k == "XmlTime":
        return f"{r.randrange(24):02d}:{r.randrange(60):02d}:{r.randrange(60):02d}"
    return text(g)


LIKE = ("007", "1.50", "true", "+5", "1e3", "2020-01-02", "12:00:00", "0", "NaN", "[1]")


def alike(g, doc):
    """Every text reads like something else, every number is one another type would not keep."""
    cls, members = doc
    for f in SHAPE[cls]:
        if f[0] in members:
            def one(v, ty=f[3]):
                if ty[0] == "class":
                    return alike(g, v)
                return {"str": g.r.choice(LIKE), "int": (1 << 53) + 1 + g.r.randrange(9) * 2, "float": g.r.randrange(1000) + 0.3}.get(ty[0], v)

            v = members[f[0]]
            members[f[0]] = [one(x) for x in v] if f[4] else one(v)
    return doc


def part(g, cls, p, depth, budget, all_of=False):
    r = g.r
    out = {}
    for name, _tag, kind, ty, many, fixed, required in SHAPE[cls]:
        if fixed is not None:
            continue
        if not (all_of or required or r.random() < p):
            continue
        n = r.choice((1, 1, 2, 3)) if many else 1
        vals = []
        for _ in range(n):
            if ty[0] == "class":
                if depth <= 0 and not all_of or budget[0] <= 0:
                    break
                budget[0] -= 1
                vals.append([ty[1], part(g, ty[1], p if depth > 0 else 0, depth - 1, budget)])
            else:
                v = value(g, ty)
                if kind == "A" and isinstance(v, str):
                    v = " ".join(v.split())  # attributes are normalised by XML
                vals.append(v)
        if many and vals:
            out[name] = vals
        elif vals:
            out[name] = vals[0]
    return out


def around(g, cls, inner):
    """The shortest document with this part in it."""
    doc = [cls, inner]
    for parent, f in reversed(WAYS[cls]):
        members = {n: value(g, ty) for n, _t, _k, ty, _m, fixed, req in SHAPE[parent] if req and fixed is None}
        members[f[0]] = [doc] if f[4] else doc
        doc = [parent, members]
    return doc


def cases(task, g):
    r = g.r
    k = task["kind"]
    if k == "sweep":
        for i, cls in enumerate(sorted(SHAPE)):
            if i % 8 == task["i"]:
                for p in (1, 0, 0.5):
                    yield "document", {"doc": around(g, cls, part(g, cls, p, 1 if p == 1 else 3, [400], p == 1)), "cdata": r.random() < 0.3, "order": r.randrange(1 << 30)}
                for _ in range(2):
                    yield "document", {"doc": alike(g, around(g, cls, part(g, cls, 1, 0, [0], True))), "cdata": False, "order": r.randrange(1 << 30)}
                for name, _tag, _kind, ty, many, _fixed, _req in SHAPE[cls]:
                    if ty[0] == "enum":
                        for v in sorted(ty[2].values()):
                            members = part(g, cls, 0.1, 1, [5])
                            members[name] = [v, r.choice(sorted(ty[2].values()))] if many else v
                            yield "document", {"doc": around(g, cls, members), "cdata": False, "order": r.randrange(1 << 30)}
    elif k == "random":
        for _ in range(g.n(12, 60)):
            yield "document", {"doc": [ROOT, part(g, ROOT, r.choice((0.3, 0.6, 0.9)), r.choice((4, 8, 14)), [r.choice((100, 800))])],
                               "cdata": r.random() < 0.3, "order": r.randrange(1 << 30)}
    elif k == "long":
        for cls, members in sorted(SHAPE.items()):
            many = [f for f in members if f[4]]
            for f in r.sample(many, min(2, len(many))):
                n = r.choice((100, 300, 1000))
                inner = {f[0]: [[f[3][1], part(g, f[3][1], 0.1, 0, [0])] if f[3][0] == "class" else value(g, f[3]) for _ in range(n)]}
                inner.update((o[0], value(g, o[3])) for o in members if o[6] and o[5] is None)
                yield "document", {"doc": around(g, cls, inner), "cdata": False, "order": 0}
    else:
        yield "fresh", {}


def show(ty, v):
    if ty[0] == "bool":
        return "true" if v else "false"
    return repr(v) if ty[0] == "float" else str(v)


def write(tag, p, r, cdata, out):
    cls, members = p
    attrs, kids = [], []
    for name, t, kind, ty, many, fixed, _req in SHAPE[cls]:
        if fixed is not None:
            attrs.append(f" {t}={quoteattr(str(fixed))}")
        elif name in members:
            vals = members[name] if many else [members[name]]
            if kind == "A":
                attrs.append(f" {t}={quoteattr(show(ty, vals[0]))}")
            else:
                kids += [(t, ty, v) for v in vals]
    out.append(f"<{tag}{''.join(attrs)}>")
    for t, ty, v in kids:
        if ty[0] == "class":
            write(t, v, r, cdata, out)
        else:
            s = show(ty, v)
            if cdata and ty[0] == "str" and "]]>" not in s and r.random() < 0.5:
                out.append(f"<{t}><![CDATA[{s}]]></{t}>")
            else:
                out.append(f"<{t}>{escape(s)}</{t}>")
        if r.random() < 0.1:
            out.append(r.choice(("\n", "  ")))
    out.append(f"</{tag}>")


def plain(ty, s, where):
    """A value as written, by its meaning."""
    s = s or ""
    try:
        if ty[0] == "int":
            return int(s)
        if ty[0] == "float":
            return float(s)
    except ValueError:
        raise sut.Mismatch(f"{where} holds {s!r}, which is no number")
    if ty[0] == "bool":
        return {"true": True, "1": True, "false": False, "0": False}.get(s.strip(), s)
    return s


def tree(el, cls, where, ctx):
    """An element as written, in the form of a part (fixed attributes checked and left out)."""
    members = {}
    attrs = dict(el.attrib)
    known = {}
    for f in SHAPE[cls]:
        if f[2] == "E":
            known[f[1]] = f
        elif f[5] is not None:
            check(attrs.pop(f[1], None) == str(f[5]), lambda: f"{where}: attribute {f[1]} is {el.get(f[1])!r}, expected {f[5]!r}")
        elif f[1] in attrs:
            members[f[0]] = plain(f[3], attrs.pop(f[1]), f"{where}/@{f[1]}")
    check(not attrs, lambda: f"{where}: attributes {sorted(attrs)} were not there")
    for kid in el:
        f = known.get(kid.tag)
        check(f, lambda: f"{where}: element <{kid.tag}> is unknown there")
        name, tag, _k, ty, many = f[:5]
        at = f"{where}/{tag}"
        v = tree(kid, ty[1], at, ctx) if ty[0] == "class" else plain(ty, kid.text, at)
        if ty[0] != "class":
            check(not kid.attrib and not len(kid), lambda: f"{at}: has attributes or elements")
        if many:
            members.setdefault(name, []).append(v)
        else:
            check(name not in members, lambda: f"{at}: written twice")
            members[name] = v
        ctx.seen["members"].add((cls, tag))
        if ty[0] == "enum":
            ctx.seen["choices"].add((ty[1], v))
        if ty[0] == "str":
            ctx.counts["texts"] += 1
        ctx.counts["elements"] += 1
    for f in SHAPE[cls]:
        if f[2] == "A":
            ctx.seen["members"].add((cls, f[1]))
    return [cls, members]


def written(song, pretty):
    from xsdata.formats.dataclass.serializers import XmlSerializer
    from xsdata.formats.dataclass.serializers.config import SerializerConfig

    return XmlSerializer(config=SerializerConfig(pretty_print=pretty, encoding="UTF-8", xml_version="1.0")).render(song)


def read(data):
    from xsdata.formats.dataclass.parsers import XmlParser

    return XmlParser(context=context()).from_bytes(data, S_dao().RenoiseSong)


_cache = {}


def context():
    if "c" not in _cache:
        from xsdata.formats.dataclass.context import XmlContext

        _cache["c"] = XmlContext()
    return _cache["c"]


def S_dao():
    if "dao" not in _cache:
        import importlib

        _cache["dao"] = importlib.import_module("xrns.xml.song.renoise_song65")
    return _cache["dao"]


def find(name):
    c = S_dao()
    for n in name.split("."):
        c = getattr(c, n)
    return c


def build(p):
    from xsdata.models.datatype import XmlDate, XmlTime

    cls, members = p
    kinds = {f[0]: f for f in SHAPE[cls]}

    def one(ty, v):
        if ty[0] == "class":
            return build(v)
        if ty[0] == "enum":
            return find(ty[1])[next(k for k, x in ty[2].items() if x == v)]
        if ty[0] == "XmlDate":
            return XmlDate.from_string(v)
        if ty[0] == "XmlTime":
            return XmlTime.from_string(v)
        return v

    args = {}
    for name, v in members.items():
        f = kinds[name]
        args[name] = [one(f[3], x) for x in v] if f[4] else one(f[3], v)
    return find(cls)(**args)


def same_doc(got, want, what):
    # an empty text of an empty element
    if got != want:
        sut.same(got, want, what)


def parsed(xml, what, ctx):
    try:
        el = ET.fromstring(xml)
    except (ET.ParseError, LookupError, ValueError) as e:
        raise sut.Mismatch(f"{what} is not well-formed: {e}")
    check(el.tag == "RenoiseSong", lambda: f"{what} is a <{el.tag}>")
    return tree(el, ROOT, "", ctx)


def run_document(case, ctx):
    import random

    doc = case["doc"]
    r = random.Random(case["order"])
    out = ['<?xml version="1.0" encoding="UTF-8"?>\n']
    write("RenoiseSong", doc, r, case["cdata"], out)
    data = "".join(out).encode()
    with sut.call("reading a Renoise song"):
        song = read(data)
    with sut.call("writing a Renoise song that was read"):
        xml = written(song, case["order"] % 2 == 0)
    same_doc(parsed(xml, "the song written again", ctx), doc, "the song written again")
    with sut.call("reading it once more"):
        again = read(xml.encode())
    check(again == song, "a song read, written and read again is another one")
    with sut.call("building a Renoise song"):
        mine = build(doc)
    with sut.call("writing a Renoise song built from parts"):
        xml = written(mine, True)
    same_doc(parsed(xml, "the song built from parts", ctx), doc, "the song built from parts")
    with sut.call("reading a song built from parts"):
        back = read(xml.encode())
    check(back == mine, "a song read back is another one than was built")
    check(back == song, "a song built is another one than the same song read")
    ctx.counts["documents"] += 1
    ctx.counts["built"] += 1


def run_fresh(case, ctx):
    """New parts are empty and share nothing with older ones."""
    for cls in sorted(SHAPE):
        req = {f[0]: 7 if f[3][0] == "int" else "t" for f in SHAPE[cls] if f[6] and f[5] is None}
        with sut.call(f"making a {cls}"):
            a, b = find(cls)(**req), find(cls)(**req)
        check(a == b, f"two new {cls} differ")
        for name, tag, _k, ty, many, fixed, required in SHAPE[cls]:
            got = getattr(a, name, "missing")
            want = [] if many else fixed if fixed is not None else req.get(name)
            check(got == want and type(got) is type(want), lambda: f"{tag} of a new {cls} is {got!r}, expected {want!r}")
            if many:
                got.append("x")
                check(getattr(b, name) == [], f"{tag} of two {cls} is one list")
                check(getattr(find(cls)(**req), name) == [], f"{tag} of a new {cls} was used before")
        ctx.counts["fresh"] += 1


ORACLES = {"document": run_document, "fresh": run_fresh}
