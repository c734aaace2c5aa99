"""Recorded classes whose parameters have all sorts of names."""
import types
from gsp.object import Object
from gsp.io.command import command
from mc import world

NAMES = ("value", "grid", "void", "id2", "idx", "identifier", "ID", "_id", "id_", "uuid", "i", "d", "method", "methodname", "timestamp", "command", "commands", "name", "classname", "queue",
         "data", "object", "object_id", "args", "kwargs", "parameters", "annotations", "key", "func", "type", "str", "X1", "é", "none", "true", "default", "with_a_rather_long_name_made_of_several_words")

SOURCE = '''
class Named(Object):
    @command()
    def __init__(self, NAME: int, other: Object = None, third: float = 0.5):
        Object.__init__(self)
        self.log = [("init", NAME, other, third)]

    @command()
    def put(self, first=None, NAME: Object = None):
        self.log.append(("put", first, NAME))

    @command("renamed")
    def renamed(self, NAME = 7, last: list = None):
        self.log.append(("renamed", NAME, last))
'''


def family(name):
    where = {"Object": Object, "command": command, "__name__": "named_backend"}
    exec(SOURCE.replace("NAME", name), where)
    m = types.ModuleType("named_backend")
    m.Named = where["Named"]
    return m


def program(name, how):
    """A recorded program: (queue, module, objects, commands expected)."""
    q = world.reset()
    m = family(name)
    N = m.Named
    if how == "named":
        a = N(**{name: 3})
        b = N(third=1.5, other=a, **{name: 4})
        b.put(**{name: a, "first": 2})
        a.put(**{name: b})
        a.put(5)
        a.renamed(**{name: "x"})
        b.renamed(last=[1], **{name: a})
    else:
        a = N(3)
        b = N(4, a, 1.5)
        b.put(2, a)
        a.put(None, b)
        a.put(5)
        a.renamed("x")
        b.renamed(a, [1])
    i, j = int(a.id), int(b.id)
    want = [("Named", "__init__", {"id": i, name: 3, "other": None, "third": 0.5}), ("Named", "__init__", {"id": j, name: 4, "other(id)": i, "third": 1.5}),
            ("Named", "put", {"id": j, "first": 2, name + "(id)": i}), ("Named", "put", {"id": i, "first": None, name + "(id)": j}),
            ("Named", "put", {"id": i, "first": 5, name: None}), ("Named", "renamed", {"id": i, name: "x", "last": None}), ("Named", "renamed", {"id": j, name + "(id)": i, "last": [1]})]
    logs = {i: [("init", 3, None, 0.5), ("put", None, j), ("put", 5, None), ("renamed", "x", None)], j: [("init", 4, i, 1.5), ("put", 2, i), ("renamed", i, [1])]}
    return q, m, (a, b), want, logs


def log_of(o):
    return [tuple(int(x.id) if isinstance(x, Object) else x for x in e) for e in o.log]
