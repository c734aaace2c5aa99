"""Another process, which loads saved queues and runs them; it draws what they make.

Each file is played by a fresh copy of a process that never created anything.
"""
import atexit
import os
import pickle
import struct
import subprocess
import sys

if __name__ != "__main__":
    from mc.core import Violation, HarnessError


def send(stream, obj):
    data = pickle.dumps(obj)
    stream.write(struct.pack("<q", len(data)) + data)
    stream.flush()


def receive(stream):
    head = stream.read(8)
    if len(head) < 8:
        return None
    return pickle.loads(stream.read(struct.unpack("<q", head)[0]))


class Player:
    def __init__(self):
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        self.process = subprocess.Popen([sys.executable, "-m", "mc.player"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, cwd=here)
        self.owner = os.getpid()

    def play(self, filename, **options):
        """[(picture, raster)] of the canvases made by running a file."""
        send(self.process.stdin, (filename, options))
        out = receive(self.process.stdout)
        if out is None:
            raise HarnessError("the player died")
        kind, value = out
        if kind != "ok":
            raise Violation("loading and running it fails: " + value)
        return value


_player = []


def player():
    """The player of this process."""
    if not _player or _player[0].owner != os.getpid():
        _player[:] = [Player()]
        atexit.register(_player[0].process.kill)
    return _player[0]


def pictures(raster=True):
    """What the canvases show, in the order they were made."""
    import numpy as np
    import matplotlib.pyplot as plt
    from mc import draw
    out = []
    for n in plt.get_fignums():
        f = plt.figure(n)
        r = None
        if raster:
            f.canvas.draw()
            r = np.array(f.canvas.buffer_rgba())
        out.append((draw.shot(f), r))
    return out


def play(filename, options):
    import gsp
    import gsp_matplotlib
    from gsp.io.command import CommandQueue
    gsp.io.record(options.get("record", False))
    queue = gsp.io.queue("played")
    for _ in range(options.get("loads", 1)):
        gsp.io.json.load(filename, queue)
    queue.run(gsp_matplotlib)
    gsp.io.record(False)
    return pictures(options.get("raster", True))


def serve():
    import traceback
    import warnings
    warnings.simplefilter("ignore")
    from mc import core
    sys.path.insert(0, core.REPO)
    import mc.draw, gsp, gsp_matplotlib
    stdin, stdout = sys.stdin.buffer, os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    while True:
        request = receive(stdin)
        if request is None:
            return
        pid = os.fork()
        if pid == 0:
            try:
                out = "ok", play(*request)
            except BaseException as e:      # noqa
                out = "error", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])
            try:
                send(stdout, out)
            finally:
                os._exit(0)
        _, status = os.waitpid(pid, 0)
        if status:
            send(stdout, ("error", "the process died (%d)" % status))


if __name__ == "__main__":
    serve()
