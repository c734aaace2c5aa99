"""Helpers shared by the checks of the protocol layer (recording, replay, files)."""
import itertools, types
import gsp
from gsp.io.command import command, CommandQueue, Command
from gsp.io.convert import Converter
from gsp.object import Object, OID

_serial = itertools.count()


def fresh_queue(tag="q"):
    """A new empty, active queue."""
    q = gsp.io.queue("verif-%s-%d" % (tag, next(_serial)))
    return q


def reset():
    """New session: empty object registry, recording on, a new active queue."""
    Object.objects = {}
    Object.record = True
    gsp.io.record(True)
    return fresh_queue()


def canon(v):
    """Comparable description of a parameter value."""
    import numpy as np
    if isinstance(v, Converter):
        try:
            return canon(v())
        except BaseException as e:      # noqa: a conversion that fails is a value like another here
            return ("failing conversion", type(e).__name__)
    if isinstance(v, Object):
        return ("object", type(v).__name__, int(v.id))
    if isinstance(v, np.ndarray):
        return ("array", str(v.dtype), v.shape, v.tobytes())
    if isinstance(v, memoryview):
        return ("memoryview", bytes(v))
    if isinstance(v, bool) or v is None or isinstance(v, (float, str, bytes)):
        return (type(v).__name__, repr(v))
    if isinstance(v, int):
        return ("int", int(v))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(canon(x) for x in v)
    if isinstance(v, dict):
        return ("dict",) + tuple(sorted((k, canon(x)) for k, x in v.items()))
    return (type(v).__name__, repr(v))


def command_view(c):
    """(class, method, object id, {parameter: value}) of a command."""
    params = dict(c.parameters)
    oid = params.pop("id")
    return (c.classname, c.methodname, int(oid), {k: canon(v) for k, v in params.items()})


def view(queue):
    return [command_view(c) for c in queue.commands]


def identities(queue):
    return [id(c) for c in queue.commands]


class Boom(Exception):
    pass


_own = []


def restart():
    """As reset, in the queue of the previous restart (cheap, for cases that only need one queue)."""
    if not _own or CommandQueue.active is not _own[0]:
        _own[:] = [fresh_queue("own")]
    Object.objects = {}
    Object.record = True
    gsp.io.record(True)
    _own[0].readonly = False
    return _own[0].empty()


# ------------------------------------------------------------------ a small recorded class family
CALLS = []      # what the bodies of the recorded operations received (self id, name, values)


class Node(Object):
    @command()
    def __init__(self, value: int, label: str = "x", ref: Object = None):
        CALLS.append((self, "__init__", (value, label, ref)))
        Object.__init__(self)
        self.value, self.label, self.ref = value, label, ref
        self.log = []

    @command()
    def put(self, value: int, ref: Object = None):
        CALLS.append((self, "put", (value, ref)))
        self.log.append(("put", value, ref))
        return ("put", value, ref)

    @command("link")
    def link(self, ref: Object, label: str = "y"):
        CALLS.append((self, "link", (ref, label)))
        self.log.append(("link", ref, label))
        self.ref = ref
        return self

    @command()
    def fail(self, value: int):
        CALLS.append((self, "fail", (value,)))
        raise Boom("fail %r" % (value,))


class Deep(Node):
    """Recorded creation, base initialised without being recorded (as visuals do)."""
    @command()
    def __init__(self, value: int, label: str = "d", ref: Object = None, extra: float = 0.5):
        CALLS.append((self, "Deep", (value, label, ref, extra)))
        super().__init__(value, label, ref, __no_command__=True)
        self.extra = extra


class Plain(Node):
    """Creation and methods only recorded by the base (as canvases and renders are)."""
    def __init__(self, value, label="p", ref=None):
        super().__init__(value, label, ref)

    def put(self, value, ref=None):
        return super().put(value, ref)


class Bare(Object):
    @command()
    def __init__(self):
        CALLS.append((self, "Bare", ()))
        Object.__init__(self)
        self.value, self.label, self.ref, self.log = None, None, None, []
