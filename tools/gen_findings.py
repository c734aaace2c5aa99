#!/usr/bin/env python3
"""Regenerates /verif/known_findings.txt: the defects repaired in /repo (and those that are not)."""
import subprocess, os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
PROP = {
    "blank lines of documentation blocks": "C36", "a buffer given more bytes": "C14",
    "narrow integers overflowed in glm": "C17", "negative vertex numbers of mesh": "C20",
    "sizes stored on a few bits": "C29",
    "identifiers given as arguments, objects": "C02",
    "memory and containers given as arguments": "C01", "the content of a buffer followed the memory": "C14",
    "unsigned sizes of a partitioned list": "C18",
    "numpy integers were refused as item size": "C18",   # start of the message -> property
 "an object passed for a defaulted": "C01", "run resolves dotted": "C02", "a command that fails during run": "C05", "the implicitly created active": "C04", "dump, save and load use the given": "C04",
 "arguments are checked before": "C07", "an argument of an annotated type": "C07", "objects passed as arguments are type-checked": "C07", "length and iteration of lists": "C18", "conversion of lists and tuples": "C07",
 "conversion of an argument to an object": "C02", "conversion to a list keeps": "C14", "buffers apply the updates": "C14", "buffers accept empty": "C14", "buffers of tracked arrays keep": "C14", "transforms and matrices are available": "C02",
 "segments are recorded": "C02", "matrices can be saved": "C11", "new objects do not take": "C03", "a failing save or load": "C05", "copying an operator keeps": "C23", "operators with constant operands": "C22", "chaining a chain": "C22",
 "a meter is": "C24", "a bound measure": "C24", "colormap bounds": "C25", "parameters of copied": "C23", "transforms evaluate on buffers": "C22", "an array on the left": "C22", "arrays derived from": "C13", "tracked arrays signal": "C12",
 "a refused registration": "C08", "text dumps list": "C10", "a failing render does": "C33", "points, markers and pixels are drawn once": "C28", "nearest pixels": "C28", "points, markers and segments accept vec2": "C28", "a constant color": "C28",
 "markers positions can be": "C28", "the raster of a canvas": "C34", "a viewport without size": "C30", "a visual keeps the matrices": "C32", "a save that fails": "C05", "a value is converted by": "C07", "assignments through zero": "C12",
 "clearing a view": "C13", "arrays whose memory": "C12", "components of vectors": "C15", "integer vectors": "C16", "orthographic and frustum": "C17", "lookat honours": "C17", "vertices can be fitted": "C20", "arguments of the camera": "C17",
 "parallel and opposite": "C17", "any selection of items": "C18", "trackball angles": "C19", "the icosahedron": "C20", "an accessor evaluates": "C25", "a viewport has square": "C31", "svg subpaths": "C26", "flags of svg": "C26",
 "outlines of the square": "C27", "colors can be converted": "C27", "positions of points, pixels": "C28", "the number of items a visual": "C25", "a component of a render output": "C25", "angles of markers": "C28", "a flat list of indices": "C29",
 "indices of paths": "C29", "recorded arguments and matrices": "C01", "visuals whose first render": "C33", "line caps of paths": "C35", "the buffer of a partial view": "C11"}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
used = set()
with open("known_findings.txt", "w") as f:
    f.write("# Genuine defects of vispy/GSP found by the checks. 'fixed:' lines suppress nothing.\n")
    for line in log:
        h, s = line.split(" ", 1)
        if not s.startswith("fix: "):
            continue
        keys = [k for k in PROP if s[5:].startswith(k)]
        assert len(keys) == 1, (s, keys)
        used.add(keys[0])
        f.write("fixed: property=%s %s %s\n" % (PROP[keys[0]], h, s[5:]))
assert used == set(PROP), set(PROP) - used
