#!/opt/venv/bin/python
"""Write lib/renoise65.json: the shape of a Renoise 65 document, as the tree this was written for has it.

Run once, on the original tree; the checks use the committed file, never the tree's own idea of the format.
"""
import dataclasses
import enum
import json
import os
import sys
import typing

sys.path.insert(0, os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src"))
import xrns.xml.song.renoise_song65 as dao  # noqa: E402

out = {}


def visit(c):
    if c.__qualname__ in out:
        return
    fields = out[c.__qualname__] = []
    todo = []
    hints = typing.get_type_hints(c, vars(dao))
    for f in dataclasses.fields(c):
        t = hints[f.name]
        many = typing.get_origin(t) is list
        args = [a for a in typing.get_args(t) if a is not type(None)] or [t]
        assert len(args) == 1, t
        t = args[0]
        kind = f.metadata["type"]
        assert kind in ("Element", "Attribute")
        if dataclasses.is_dataclass(t):
            ty = ["class", t.__qualname__]
            todo.append(t)
        elif issubclass(t, enum.Enum):
            ty = ["enum", t.__qualname__, {m.name: m.value for m in t}]
        else:
            ty = [t.__name__]
        fixed = None if f.init else f.default
        fields.append([f.name, f.metadata.get("name", f.name), kind[0], ty, int(many), fixed, int(bool(f.metadata.get("required")))])
    for t in todo:
        visit(t)


visit(dao.RenoiseSong)
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib", "renoise65.json"), "w") as f:
    f.write("{\n" + ",\n".join(f" {json.dumps(k)}: {json.dumps(v)}" for k, v in sorted(out.items())) + "\n}\n")
print(len(out), "classes", sum(map(len, out.values())), "fields")
