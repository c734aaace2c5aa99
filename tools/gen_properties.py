#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the readable source of the property list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=hook)))

p("C01", "Every protocol call is recorded once, in order, with all its arguments",
  "While recording is on and the current command queue is writable, each call of a recordable operation appends exactly one command to that queue, in call order, naming the operation and carrying the identifier of the object it applies to and the value that every argument (positional, named or defaulted) had when the call was made, objects being carried as references to their identifiers. Calls made while recording is off, while the queue is read-only, or to initialise the base class of an object being created add nothing, and a call that raises adds nothing. Recording never changes what the call itself does or returns.",
  ["programs", "histories"],
  "every sequence of calls up to a bound, every way of passing each argument (positional/named/defaulted, plain value or object), every recording/read-only state",
  "test_io exercises one class with one int parameter; the combinations of argument passing style x object/plain x default x recording state are not sampled",
  ["gsp/io/command.py"], [("command decorator", "gsp/io/command.py:command"), ("queue push", "gsp/io/command.py:CommandQueue.push")],
  ["command queue content (method, object id, parameters)", "return values"])

p("C02", "Replaying a queue rebuilds the recorded objects, references and effects",
  "Running a recorded queue against an implementation module recreates every recorded object under its recorded identifier with the class and arguments it was recorded with, all references between objects preserved, and applies the recorded method calls to the right objects in the recorded order. Running a queue neither adds to it nor changes it, so it can be run again with the same outcome.",
  ["programs", "histories"],
  "every sequence of object creations, reference-taking calls and mutations up to a bound, in the recording process and in a fresh one, replayed once or twice",
  "the replay tests fail to run at this commit (they pass globals/locals to run) and cover one object with one int",
  ["gsp/io/command.py", "gsp/object.py"], [("Command.execute", "gsp/io/command.py:Command.execute"), ("CommandQueue.run", "gsp/io/command.py:CommandQueue.run"), ("id reassignment", "gsp/object.py:Object.id")],
  ["object registry after run", "attributes and call logs of the rebuilt objects"])

p("C03", "Object identifiers are unique and the registry resolves them",
  "At any time, distinct live objects have distinct identifiers, and looking up the identifier of an object that was created while object registration was on yields that very object, including after an object has been given an explicit identifier; an identifier that an object gave up no longer resolves to it. New objects never take over an identifier already in use by a registered object.",
  ["histories"],
  "every history of object creations, explicit identifier assignments and registration on/off switches up to a bound",
  "tests only count the registry entries after three creations",
  ["gsp/object.py"], [("OID counter", "gsp/object.py:OID"), ("id setter", "gsp/object.py:Object.id")],
  ["object registry", "object ids"])

p("C04", "Named command queues: one queue per name, the latest created is active",
  "Asking twice for a queue by the same name yields the same queue with its commands, different names yield different queues, and the special name 'active' designates the most recently created queue, which is the only one that recording appends to. A read-only queue accepts no command, emptying a queue removes its commands and nothing else, and an explicitly given queue is the one that is used even when it is empty.",
  ["histories"],
  "every history of queue lookups, creations, pushes, read-only switches, emptyings, saves and loads over a small set of names up to a bound, from a fresh process",
  "tests use one queue at a time in one process; aliasing between named queues and the active one depends on the history",
  ["gsp/io/command.py", "gsp/io/json.py"], [("NamedSingleton", "gsp/io/command.py:NamedSingleton"), ("CommandQueue", "gsp/io/command.py:CommandQueue")],
  ["queue identity and content"])

p("C05", "A failing run, save or load leaves the session and the file as they were",
  "When running a queue fails at any command, the queue keeps its commands and its writability and recording works as before. When saving fails, a previously saved file at that place keeps its content, and when loading fails the current queue and registered objects are untouched.",
  ["fault_sequences", "crash_points"],
  "a failure injected at every command of a run, at every parameter of a save (unserialisable value), and for every damaged/absent/unknown-format file of a load, followed by every continuation up to a bound",
  "no existing test makes a run, save or load fail",
  ["gsp/io/command.py", "gsp/io/json.py", "gsp/__init__.py"], [("CommandQueue.run read-only restoration", "gsp/io/command.py:CommandQueue.run"), ("save/load", "gsp/__init__.py:save,load"), ("json dump/load", "gsp/io/json.py")],
  ["queue state after the failure", "file bytes after the failure"])

p("C06", "A command queue survives a JSON save and load unchanged",
  "Saving a queue to JSON and loading it back yields the same commands in the same order: same operation, same object identifier, same parameters (object references and serialised values included), with the serialised form documented by the protocol (version, command id, timestamp, method, parameters); loaded commands have their own identifier and timestamp. Saving is repeatable: it does not change the queue, and saving the loaded queue yields the same operations and parameters again.",
  ["programs", "inputs"],
  "every queue up to a bound over an alphabet of operations and parameter values covering each serialisable kind (numbers, strings, colours, bytes, memory, arrays, dtypes, null, references)",
  "one test dumps one command with one converted int; nothing loads a file back and compares",
  ["gsp/io/json.py"], [("dump", "gsp/io/json.py:dump"), ("load", "gsp/io/json.py:load"), ("value encoding", "gsp/io/json.py:default")],
  ["JSON text", "loaded queue"])

p("C07", "Arguments of the wrong type are rejected unless a conversion is registered",
  "While recording is on, a recordable call is accepted exactly when each annotated argument is null, is an instance (or subclass instance) of one of the annotated types, or can be converted to one by a registered conversion; otherwise it raises a value error and records nothing. When a conversion applies, replaying or saving the command uses the converted value, and the conversion is applied to the value that was passed.",
  ["inputs", "configurations"],
  "every pair of annotation (single type or union) and argument class over a small class hierarchy, with every subset of registered conversions between them",
  "one test checks float passed for int; the union/subclass/converter combinations are unexplored",
  ["gsp/io/command.py", "gsp/io/convert.py"], [("type check", "gsp/io/command.py:command"), ("converter lookup", "gsp/io/convert.py:get_converter")],
  ["exception or not", "replayed/saved value"])

p("C08", "The conversion registry behaves as a map of type pairs",
  "Registering a conversion for a pair of types that already has one is refused and changes nothing, unregistering removes exactly the given pairs, and a conversion is found exactly when one is registered for the exact source type, for any source, or for a base class of the source value. Converting calls the registered function on the value and fails with a value error when none is found.",
  ["histories"],
  "every history of register/unregister/convert over a small alphabet of source types (single or several at once), wildcards and destination types up to a bound",
  "tests register and unregister one pair",
  ["gsp/io/convert.py"], [("register/unregister", "gsp/io/convert.py:register,unregister"), ("get_converter", "gsp/io/convert.py:get_converter")],
  ["result of lookups and conversions"])

p("C09", "Data type descriptions round-trip through their textual form",
  "Turning a scalar, vector (of two items or more) or flat packed structured data type, whose field names hold no separator, into its textual description and back yields the same data type, with the same field names, order, element types, element counts and item size. Distinct data types have distinct descriptions.",
  ["inputs"],
  "every scalar kind/size/byte order, every vector length and every ordered structure of up to three fields over those",
  "no test covers the descriptions",
  ["gsp/io/convert.py"], [("numpy_dtype_to_str / numpy_str_to_dtype", "gsp/io/convert.py")],
  ["data type equality, item size"])

p("C10", "Textual dumps list every command with its object and parameters",
  "The textual dumps of a queue contain one entry per command, in queue order, each naming the operation, the command identifier, the object identifier and every parameter with its value. Dumping neither changes the queue nor depends on whether commands were recorded or loaded from a file.",
  ["programs"],
  "every queue up to a bound over the same operation alphabet as the JSON property",
  "examples.commands only checks that a run does not crash on a handful of scenes",
  ["gsp/io/ansi.py", "gsp/io/text.py"], [("ansi dump", "gsp/io/ansi.py:dump"), ("text dump", "gsp/io/text.py:dump")],
  ["dump text"])

p("C11", "A saved scene, loaded and replayed elsewhere, draws the same picture",
  "Recording a scene, saving it, and loading and running it in another process with no access to the original objects draws the same picture as the original program: same viewports, and for every visual the same positions, sizes, colours, widths and stacking order. This holds whatever mix of arrays, per-item buffers, plain values and transforms the visuals were given, and reflects updates made to buffers and tracked arrays (even through views) before the scene was rendered.",
  ["programs", "configurations"],
  "every scene over an alphabet of canvases, viewport forms, the six visual kinds, each attribute form (constant, per-item array, transform), array updates and render sequences up to a bound",
  "io_saveload replays one canvas with two viewports; no test replays a scene with visuals",
  ["gsp/io/command.py", "gsp/io/json.py", "gsp_matplotlib/__init__.py", "gsp_matplotlib/core/buffer.py", "gsp_matplotlib/visual/"], [("recording", "gsp/io/command.py:command"), ("array conversions", "gsp_matplotlib/__init__.py"), ("buffer content", "gsp_matplotlib/core/buffer.py")],
  ["figure content (axes, collections) and raster of original vs replayed scene"])

p("C12", "A tracked array's mirror always equals the array",
  "After every item assignment or in-place operation (+=, -=, *=, /=) on a tracked array, made directly or through any view (slice, row, field, nested view), a tracker that applies the byte updates it is sent holds exactly the bytes of the tracked array. Only the array that was modified is signalled.",
  ["histories"],
  "every sequence of assignments up to a bound over arrays of each vector/structured kind, through every view chain of depth up to three and every scalar/slice/field key of a small index domain",
  "the array tests cannot run at this commit and only sample a few slices",
  ["gsp_matplotlib/glm/ndarray/tracked.py"], [("__setitem__ signalling", "gsp_matplotlib/glm/ndarray/tracked.py:tracked.__setitem__"), ("extents", "gsp_matplotlib/glm/ndarray/tracked.py:tracked._compute_extents")],
  ["mirror bytes vs array bytes"])

p("C13", "Dirty regions cover every modification until cleared; copies are independent",
  "For an array without a tracker, the reported dirty region encloses every byte modified since the last clear (the whole array when new, nothing after a clear), whatever views were used, including in-place arithmetic, and for modifications through indices and slices of a contiguous array it is the smallest contiguous byte range doing so. Modifying a copy or a computed result never marks, signals or changes the array it came from.",
  ["histories"],
  "every sequence of assignments, in-place operations, clears, copies and derived computations up to a bound",
  "the array tests cannot run at this commit",
  ["gsp_matplotlib/glm/ndarray/tracked.py"], [("dirty hull", "gsp_matplotlib/glm/ndarray/tracked.py:tracked._update"), ("in-place operators", "gsp_matplotlib/glm/ndarray/tracked.py"), ("array finalisation", "gsp_matplotlib/glm/ndarray/tracked.py:tracked.__array_finalize__")],
  ["dirty property", "array contents", "tracker calls"])

p("C14", "A buffer's content is its initial data overlaid with the updates sent to it",
  "A buffer created with a count, an item type and initial bytes (raw, memory view or base64 text) reads as an array of that many items of that type with those values, and each update replaces exactly the bytes from its offset on. The content does not depend on when it is first read.",
  ["histories", "inputs"],
  "every sequence of reads and updates (offset, length) up to a bound over scalar, vector and structured item types and each form of initial data",
  "no test reads a buffer back",
  ["gsp_matplotlib/core/buffer.py", "gsp/core/buffer.py"], [("content", "gsp_matplotlib/core/buffer.py:Buffer.__array__"), ("updates", "gsp_matplotlib/core/buffer.py:Buffer.set_data")],
  ["buffer read as array", "tracked arrays rendered from their buffer"])

p("C15", "Component access by letters reads and writes exactly the named components",
  "On vector arrays, reading letters (xyzw or rgba) gives the named components in the given order and writing them changes exactly those components, to the scalar, per-component, per-item or per-item-and-component values supplied. Reading back what was written gives the supplied values, and any other attribute name is not a component.",
  ["inputs"],
  "every vector kind, array length from zero dimensions to five items, every letter combination up to length four and every value form",
  "the swizzle tests cannot run at this commit and use a single length, hiding length/letter-count coincidences",
  ["gsp_matplotlib/glm/ndarray/swizzle.py", "gsp_matplotlib/glm/ndarray/vectors.py"], [("swizzle get/set", "gsp_matplotlib/glm/ndarray/swizzle.py")],
  ["array contents"])

p("C16", "Vector construction and conversion preserve coordinates",
  "Building vectors from sequences, arrays or other vectors, and converting between two, three and four component vectors, keeps the coordinates that both forms have, fills missing ones with the documented defaults, divides by the homogeneous coordinate when dropping it, and keeps item count and order. Conversions documented as copies share no memory with their argument and conversions documented as views share it.",
  ["inputs"],
  "every source form (scalar, tuple, list, plain/tracked/structured array, each dimension and dtype) x target dimension x copy/view conversion",
  "the vector tests cannot run at this commit",
  ["gsp_matplotlib/glm/vec234.py"], [("vec2/3/4", "gsp_matplotlib/glm/vec234.py"), ("to_vec*/as_vec*", "gsp_matplotlib/glm/vec234.py")],
  ["array contents and aliasing"])

p("C17", "Projection, view and model matrices map points as documented",
  "Scale, translate and rotation matrices (and products and transposes of them) map points as the corresponding geometric operation; look-at maps the eye to the origin and the centre onto the negative depth axis; orthographic, frustum and perspective matrices map the corners of their view volume to the corners of the clip cube; align maps the first direction to the second by a proper rotation for every pair of directions. The transpose option yields exactly the transpose.",
  ["inputs"],
  "every parameter tuple of a grid that includes asymmetric volumes, degenerate and antiparallel directions, all octants and quadrant angles",
  "no test covers the matrix functions",
  ["gsp_matplotlib/glm/glm.py", "gsp_matplotlib/glm/mat234.py"], [("matrix builders", "gsp_matplotlib/glm/glm.py"), ("matrix types", "gsp_matplotlib/glm/mat234.py")],
  ["matrices applied to points"])

p("C18", "Partitioned lists behave as a list of runs over one shared data array",
  "A partitioned list built from nested sequences or from data and sizes has one item per run, each item and each selection of items reads the corresponding consecutive data in order, writing an item or selection changes exactly that data, and sizes that do not partition the data (negative ones included) are refused. Items share the underlying data.",
  ["histories", "inputs"],
  "every partition of up to six data elements, every index, slice and index list, and every write sequence up to a bound",
  "the list test cannot run at this commit",
  ["gsp_matplotlib/glm/ndarray/ragged.py", "gsp_matplotlib/glm/vlist.py", "gsp/core/list.py"], [("ragged", "gsp_matplotlib/glm/ndarray/ragged.py"), ("protocol list", "gsp/core/list.py")],
  ["items, sizes and data"])

p("C19", "The trackball always yields a rotation and reports the angles it was set to",
  "Whatever sequence of drags, angle settings and resets is applied, the trackball's orientation matrix is a proper rotation and depends only on that sequence; setting the two angles makes them read back, leaving the other unchanged. A drag that goes nowhere leaves the orientation unchanged.",
  ["histories"],
  "every sequence of drags over a grid of screen positions and angle settings up to a bound",
  "no test covers the trackball",
  ["gsp_matplotlib/glm/trackball.py", "examples/common/camera.py"], [("quaternion update", "gsp_matplotlib/glm/trackball.py")],
  ["model matrix", "angles"])

p("C20", "Generated shapes are well-formed meshes of their documented geometry",
  "Every shape generator returns the documented numbers of vertices, lying on its documented surface (a sphere of the given radius; of radius 0.5 for the regular solids), and of faces that index existing vertices; in closed shapes, once vertices at the same place are merged, every edge is shared by exactly two faces. Fitting and centring vertices keep proportions and bring the longest side to the requested length, centred on the origin, and reading a mesh file yields the faces the file lists over its vertices, fitted and centred.",
  ["inputs"],
  "every resolution parameter up to a bound, every small mesh file over the line grammar and every small vertex set",
  "no test covers shapes or mesh loading",
  ["gsp_matplotlib/glm/shapes.py", "gsp_matplotlib/glm/glm.py"], [("shape generators", "gsp_matplotlib/glm/shapes.py"), ("mesh/fit/center", "gsp_matplotlib/glm/glm.py")],
  ["vertices and faces"])

p("C22", "Transform expressions evaluate to the arithmetic and composition they spell",
  "An expression built with + - * / between transforms, arrays and numbers (numbers or arrays on either side, / on the left excepted), and with application to data and chaining of accessors, colormaps and measures, evaluates to the same value as the corresponding array computation, the chained-in transform being applied first, whatever the nesting. An expression reports being bound exactly when every leaf has data to work on.",
  ["programs"],
  "every expression tree up to a bound over component accessors, operators, numbers on either side, chaining and arrays",
  "the transform tests only check that operands are stored; nothing is ever evaluated",
  ["gsp/transform/transform.py", "gsp/transform/operator.py", "gsp/transform/accessor.py"], [("operators", "gsp/transform/operator.py"), ("chaining", "gsp/transform/transform.py:Transform.__call__")],
  ["evaluated values", "bound flag"])

p("C23", "Composing or copying transforms never alters the transforms it starts from",
  "Building any expression from existing transforms, binding, chaining or copying them leaves those transforms evaluating to what they evaluated to before, and a copy evaluates to the same value as its original and stays independent of later changes to it (key, bounds, colormap name, data). Changing an operand after an expression was built does not change the expression.",
  ["histories"],
  "every history of builds, copies, bindings and mutations over a pool of transforms up to a bound",
  "no test mutates a transform after composing it",
  ["gsp/transform/transform.py", "gsp/transform/operator.py"], [("copy", "gsp/transform/transform.py:Transform.copy"), ("operand copies", "gsp/transform/operator.py:Operator.__init__")],
  ["evaluated values and parameters of every transform in the pool"])

p("C24", "Measures convert physical units consistently on every surface",
  "A length expressed in any unit (pixel, point, inch, millimetre, centimetre, metre, kilometre) converts to the same number of device pixels on a canvas or viewport of given resolution, in the proportions of the units, scaled by that surface's width along x and height along y and by the viewport's coordinate range. Sums, multiples and chains of measures convert to the sum, multiple and chain of the conversions.",
  ["inputs", "configurations"],
  "every unit x value form (scalar, pair, triple, per-item) x surface kind x size x resolution x zoom, and every pair of units",
  "tests only instantiate the measures",
  ["gsp/transform/measure.py"], [("Measure.evaluate", "gsp/transform/measure.py")],
  ["evaluated values"])

p("C25", "Accessors, colormaps and render outputs give the documented values",
  "A component accessor yields the named component (one letter of xyzw or rgba) or field of its data; a colormap maps data linearly from its minimum and maximum (given, or taken from the data) to the named map, and changing the map takes effect; a render-output transform yields the named variable (such as the screen positions of the current render) or named components of it at evaluation time. These hold when the transform is bound directly, chained, copied or used in an expression.",
  ["inputs", "programs"],
  "every accessor key x data form, every colormap bound combination (including zero bounds) x data set, every output name/component key, each bound directly, chained and copied",
  "no test evaluates any of them",
  ["gsp/transform/accessor.py", "gsp/transform/colormap.py", "gsp/transform/out.py"], [("Accessor.evaluate", "gsp/transform/accessor.py"), ("Colormap.evaluate", "gsp/transform/colormap.py"), ("Out.evaluate", "gsp/transform/out.py")],
  ["evaluated values"])

p("C26", "SVG path strings become the outline they describe",
  "Converting an SVG path string yields the outline defined by the SVG path grammar: move, line, horizontal, vertical, cubic, quadratic, smooth, arc and close commands, absolute and relative, implicit repetition, optional separators and several sub-paths. The current point after each command is the one the grammar defines.",
  ["inputs", "programs"],
  "every path of up to a bounded number of commands over the whole command alphabet with small coordinates, in several textual spellings",
  "only the twelve built-in marker strings are ever parsed by a test",
  ["gsp/core/svg.py"], [("path parser", "gsp/core/svg.py")],
  ["path vertices and codes"])

p("C27", "Named colours, markers and simple value types keep their documented meaning",
  "Each marker symbol has one stable, closed, normalised outline that is the same whenever and however often it is requested, and drawing markers never alters the outline others get. Converting colours between colour, list and tuple forms keeps the four channels in order.",
  ["histories", "inputs"],
  "every marker and every order of up to three requests/renders, every colour on a channel grid",
  "tests draw a few markers once",
  ["gsp/core/types.py", "gsp_matplotlib/visual/markers.py", "gsp/__init__.py"], [("marker cache", "gsp/core/types.py:Marker.path"), ("colour converters", "gsp/__init__.py")],
  ["marker outlines", "converted colours"])

p("C28", "Points, markers and pixels are drawn where projected, nearest last",
  "Rendering points, markers or pixels with model, view and projection matrices draws each item once, at its projected position, with its own size, colours and width, far items first so nearer items (of distinct depths) cover them. Constant attributes apply to every item, whatever the number of items. Pixels look the same on canvases of any resolution.",
  ["inputs", "configurations"],
  "every small set of positions (all depth orders, ties excluded) x item count 1..5 x each attribute constant or per item x matrix combinations",
  "image examples are only checked not to crash",
  ["gsp_matplotlib/visual/points.py", "gsp_matplotlib/visual/markers.py", "gsp_matplotlib/visual/pixels.py"], [("projection and depth sort", "gsp_matplotlib/visual/*.py:render")],
  ["drawn collections (offsets, sizes, face/edge colours, widths)"])

p("C29", "Segments, paths and polygons draw exactly the partition they are given",
  "Rendering segments, paths or polygons draws one item per pair of vertices, per run of the given size(s) or per list of vertex indices, through exactly those projected vertices in order, each with its own colours and width, the farthest (by distinct mean depths) first. All ways of specifying the same partition draw the same picture.",
  ["inputs", "configurations"],
  "every partition of up to six vertices in every form (integer, sizes, index lists) x depth orders x constant or per-item attributes",
  "image examples are only checked not to crash",
  ["gsp_matplotlib/visual/segments.py", "gsp_matplotlib/visual/paths.py", "gsp_matplotlib/visual/polygons.py"], [("partition and depth sort", "gsp_matplotlib/visual/*.py:render")],
  ["drawn collections (segments/paths, colours, widths)"])

p("C30", "Viewports occupy the requested rectangle of their canvas",
  "A viewport covers the rectangle asked for (integers in pixels, floats as fractions of the canvas, measures in physical units, no size meaning the whole canvas), reports its size in pixels accordingly, and shows the range [-1,1] along its shorter side with square units. Its background is the requested colour.",
  ["inputs", "configurations"],
  "every combination of position/size form on both axes x canvas sizes x resolutions",
  "examples draw two fixed layouts without checking them",
  ["gsp_matplotlib/core/viewport.py", "gsp_matplotlib/core/canvas.py"], [("Viewport._update", "gsp_matplotlib/core/viewport.py")],
  ["axes position, limits, colour", "viewport size"])

p("C31", "Resizing: the picture depends on the current size, not on how it was reached",
  "After any sequence of canvas resizes, viewport rectangles, visible ranges and measure-based positions and sizes are those of a scene created directly at the final size. Resizing back restores the original picture.",
  ["histories"],
  "every sequence of resizes over a set of sizes up to a bound, interleaved with renders, for each viewport form and each visual kind using measures",
  "no test resizes a canvas",
  ["gsp_matplotlib/core/viewport.py", "gsp_matplotlib/visual/"], [("resize callbacks", "gsp_matplotlib/core/viewport.py, gsp_matplotlib/visual/*.py")],
  ["axes and collections after resize events"])

p("C32", "Rendering is repeatable and independent across visuals and viewports",
  "Rendering a visual again with the same matrices changes nothing, rendering it with new matrices moves it in that viewport only, and rendering one visual never changes what another visual or another viewport shows. What is shown depends only on the last render of each visual in each viewport and on the current data.",
  ["histories"],
  "every sequence of renders over two visuals x two viewports x three matrix sets, and data/attribute updates, up to a bound",
  "examples render each visual once or twice in a fixed order",
  ["gsp/visual/visual.py", "gsp_matplotlib/visual/"], [("per-viewport collections", "gsp_matplotlib/visual/*.py:render"), ("variables", "gsp/visual/visual.py")],
  ["collections of every viewport after each step"])

p("C33", "Array tracking and recording survive every render, including failing ones",
  "After any render, successful or failing at any stage, arrays created afterwards are tracked and recorded exactly as before it, and rendering itself records no hidden buffer or transform commands beyond the render call. A later valid render of the same visual succeeds and draws what it should.",
  ["fault_sequences", "histories"],
  "a failure (error or interruption) injected at every call that visuals and transforms make during a render of every visual kind, first, repeated or on resize; renders of ordinary invalid data, followed by every continuation up to a bound",
  "no test makes a render fail",
  ["gsp_matplotlib/visual/", "gsp_matplotlib/__init__.py"], [("tracker class switch", "gsp_matplotlib/visual/*.py:render")],
  ["tracker class, queue content and drawing after the failure"])

p("C34", "A canvas rasterises to its size, background and viewports",
  "Rendering a canvas without a target returns one image whose height, width and channels match the canvas, transparent where no viewport is, with each viewport's background colour over exactly its rectangle (later viewports on top), bottom-left origin; saving to a file writes the same pixels. Rendering does not change the canvas.",
  ["inputs", "configurations"],
  "every canvas size/resolution of a grid x every layout of up to two viewports over a coarse pixel grid",
  "examples save images without comparing pixels",
  ["gsp_matplotlib/core/canvas.py"], [("Canvas.render", "gsp_matplotlib/core/canvas.py")],
  ["raster bytes", "saved files"])

p("C35", "Visual variables: what is set is what is read, evaluated and drawn",
  "Setting a named variable of a visual makes reading it return that value, evaluating it return the value (array, constant, null or the transform evaluated against current variables), and later renders use it; unknown names are refused and no other variable or visual is affected.",
  ["histories"],
  "every sequence of set/get/evaluate/render operations over the variables of each visual kind up to a bound",
  "no test uses the variables",
  ["gsp/visual/visual.py", "gsp/visual/points.py"], [("set/get/eval variable", "gsp/visual/visual.py")],
  ["returned values, drawn collections"])

p("C36", "Documentation blocks show their source and exactly what their body records",
  "A block `with mkdocs(title, formats):` starts a new session (no earlier command or object remains, command and object numbers start again at 1) and, at its end, prints an example with that title: the lines of its body and no other, with their relative indentation, blank lines kept, and, for each format asked for and no other, the dump of exactly the commands that the body recorded. Blocks of the same program do not affect one another, and an error raised in the body is raised to the program.",
  ["programs"],
  "every block body of a few statements (recorded or not, on one line or several, blank lines, comments), at every nesting and indentation, every choice of formats, sequences of up to three blocks, headers written on one line",
  "no test uses the documentation blocks",
  ["gsp/io/mkdocs.py"], [("mkdocs.__exit__", "gsp/io/mkdocs.py:mkdocs.__exit__"), ("mkdocs.dump", "gsp/io/mkdocs.py:mkdocs.dump")],
  ["printed text", "command queue and registry after the block"])

p("C37", "The protocol's own classes describe the scene the implementation would make",
  "A program written with the protocol's own classes (gsp.core, gsp.visual), which draw nothing, records the same commands with the same parameters, and the same final buffer contents, as the same program written with an implementation's classes (gsp_matplotlib). The file saved from it, loaded and replayed by the implementation, draws the picture that the implementation draws for that program.",
  ["programs", "histories"],
  "every attribute of every visual in every form, matrices, viewports and backgrounds in every form, by position or by name, buffers filled at once or by parts, every sequence of creations, edits and renders up to a bound; positions and indices that are expressions over protocol buffers (which hold no content) excepted",
  "tests run the examples with one of the two sets of classes and compare no result",
  ["gsp/core/", "gsp/visual/", "gsp_matplotlib/core/", "gsp_matplotlib/visual/"], [("protocol visuals", "gsp/visual/*.py"), ("protocol objects", "gsp/core/*.py"), ("implementation", "gsp_matplotlib/visual/*.py, gsp_matplotlib/core/*.py")],
  ["saved commands", "pictures replayed from the file"])

os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
with open("properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
