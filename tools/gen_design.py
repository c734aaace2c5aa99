#!/usr/bin/env python3
"""Rewrites the table of planted bugs of DESIGN.md from seeded/*/meta.json (never read by a check)."""
import glob, json, os, re
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
MISSED = {
 "c05-registry-emptied-by-load": "registry compared across loads", "c07-empty-accepted": "empty values given for every annotation", "c08-same-type": "values of the very type of a converter",
 "c09-large-count": "shapes of more items", "c17-tiny-angle": "angles down to 1e-9", "c20-trailing-comment": "comments after the fields of a line", "c26-capital-exponent": "numbers with a capital exponent",
 "c27-white": "opaque white and black in every form", "c28-minimum-size": "sizes below a pixel", "c34-high-resolution": "resolutions beyond the usual ones",
 "c04-active-prefix": "queues whose names begin alike", "c08-qualname": "types nested in other types", "c10-by-identifier": "commands pushed again", "c16-reciprocal": "extreme homogeneous scales",
 "c20-repeated-faces": "faces given twice", "c22-single-precision": "expressions compared in double precision", "c28-many-points": "crowds: hundreds of items", "c29-many-segments": "crowds: hundreds of segments",
 "c31-small-steps": "resizes by one pixel",
 "c03-sixteen-bits": "identifiers beyond 16, 32 and 64 bits", "c04-empty-name": "empty and odd queue names", "c06-converted-while-saving": "queues inspected before and after saving", "c10-ends-with-id": "parameters whose names end like references",
 "c11-shared-buffer": "several views of the same bytes in one session", "c16-negative-w": "negative homogeneous coordinates", "c18-first-type": "lists whose items have other types than the first", "c20-tabs": "mesh files with tabs and odd spacing",
 "c26-negative-radius": "negative radii", "c27-clamped-list": "colors given as every kind of sequence", "c28-clipped-far": "items beyond the far and near planes", "c29-as-many-faces": "as many faces as vertices (every coincidence of counts)",
 "c31-height-only": "resizes along one direction only", "c35-equal-transform": "values equal to the former ones but another kind",
 "c02-unregistered-replay": "flags section: registration off during a replay", "c07-deep-subclass": "class chains of up to six levels", "c10-zero-parameters": "empty buffers/arrays as parameters",
 "c11-repeated-update": "writes section: sequences of equal and overlapping writes", "c12-aliased-update": "mirror keeps the bytes it was sent and applies them later", "c14-bytes-taken-for-base64": "raw bytes that look like text",
 "c16-view-of-strided": "sharing checked on strided sources", "c18-large-list": "lists of 40000 elements", "c19-shared-matrix": "several trackballs alive", "c23-times-one": "neutral constants (0, 1) in every expression",
 "c31-same-aspect": "sizes of the same aspect", "c32-resize-last-matrices": "resizes between renders",
 "c02-converted-in-place": "conversions section: conversions that cannot be repeated x repeated runs and listings", "c03-counter-set-back": "identifiers mentioned without an object; finer state key", "c08-falsy-result": "results section: any value as result, any value as source",
 "c09-stripped-names": "odd field names", "c11-compact-numbers": "whole-number fractions as viewport rectangles", "c28-rounded-depth": "depths 2e-5 apart",
 "c03-zero-id": "zero and negative identifiers", "c11-clock": "clock section: deferred and dated flushes", "c15-mixed-letters": "names mixing letters of several alphabets", "c20-large-sphere": "high resolutions",
 "c22-second-last": "rows section: operands of every length and shape", "c24-remembered-resolution": "several canvases/viewports evaluated in turn", "c33-copied-chain": "chains formed from parts already rendered", "c34-shared-figure": "several canvases alive",
 "c03-kept-identifier": "abandoned section: identifiers given to objects that were never registered", "c07-same-name": "classes of the same name in several modules", "c11-byte-order": "attributes section: byte orders, layouts, frozen arrays",
 "c28-pixel-resolution": "pixels on canvases of several resolutions", "c30-almost-square": "sides that differ by one pixel", "c16-almost-one": "homogeneous divisors close to one", "c36-unrecorded-session": "any earlier activity in the session",
}
rows = ["| bug | property | what it breaks | needs | caught by | missed at first; strengthened with |", "|---|---|---|---|---|---|"]
for f in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(f)); i = f.split("/")[1]
    c = lambda s: s.replace("|", "/").replace("\n", " ")
    rows.append("| %s | %s | %s | %s | %s quick | %s |" % (i, m["property"], c(m["what_it_breaks"]), c(m["needs"]), m["property"], MISSED.get(i, "")))
s = open("DESIGN.md").read()
s = re.sub(r"<!-- bugs -->.*<!-- /bugs -->", lambda _: "<!-- bugs -->\n" + "\n".join(rows) + "\n<!-- /bugs -->", s, flags=re.S)
open("DESIGN.md", "w").write(s)
print(len(rows) - 2, "bugs,", sum(1 for i in MISSED if os.path.exists("seeded/" + i)), "missed at first")
