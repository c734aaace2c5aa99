From 858f635845c0d2dc246e733bf4843e5b54613bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:04 +0000
Subject: [PATCH 01/83] fix: an object passed for a defaulted parameter is no
 longer also recorded as its default

---
 gsp/io/command.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp/io/command.py b/gsp/io/command.py
index 4502ae4..6ad24ca 100644
--- a/gsp/io/command.py
+++ b/gsp/io/command.py
@@ -240,7 +240,7 @@ def command(name=None):
 
             # Default parameters
             for key,value in defaults.items():
-                if key not in parameters.keys():
+                if key not in parameters.keys() and key + "(id)" not in parameters.keys():
                     if isinstance(value, Object):
                         key = key + "(id)"
                     parameters[key] = value
-- 
2.43.0


From 40b2540cf97b8fb15e4daf98fd59bc0a24f61b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:04 +0000
Subject: [PATCH 02/83] fix: run resolves dotted creation commands in the
 backend module

---
 gsp/io/command.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsp/io/command.py b/gsp/io/command.py
index 6ad24ca..fd5c8ed 100644
--- a/gsp/io/command.py
+++ b/gsp/io/command.py
@@ -435,9 +435,9 @@ class Command:
         if "." in self.methodname:
             module, name = self.methodname.split(".")
             if len(module) > 0:
-                func = getattr(globals[module], name)
+                func = getattr(getattr(backend_module, module), name)
             else:
-                func = eval(name, globals, locals)
+                func = getattr(backend_module, name)
             object = func(**parameters)
             object.id = oid
             Object.objects[oid] = object
-- 
2.43.0


From 08d0eddce81a1cc29a286ab6a06a0e363dd3fe02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:04 +0000
Subject: [PATCH 03/83] fix: a command that fails during run does not leave the
 queue read-only

---
 gsp/io/command.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gsp/io/command.py b/gsp/io/command.py
index fd5c8ed..865b4c8 100644
--- a/gsp/io/command.py
+++ b/gsp/io/command.py
@@ -149,9 +149,11 @@ class CommandQueue(metaclass = NamedSingleton):
 
         readonly = self.readonly
         self.readonly = True
-        for command in self.commands:
-            command.execute(backend_module)
-        self.readonly = readonly
+        try:
+            for command in self.commands:
+                command.execute(backend_module)
+        finally:
+            self.readonly = readonly
 
 
     def push(self, command):
-- 
2.43.0


From 3f7af9edeaf0cfc705d6837d658fb284d80a144a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:04 +0000
Subject: [PATCH 04/83] fix: the implicitly created active queue is the queue
 named default

---
 gsp/io/command.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp/io/command.py b/gsp/io/command.py
index 865b4c8..7e4a8ec 100644
--- a/gsp/io/command.py
+++ b/gsp/io/command.py
@@ -62,7 +62,7 @@ class NamedSingleton(type):
     def __call__(cls, name="default", *args, **kwargs):
         if name == "active" or name is None:
             if CommandQueue.active is None:
-                CommandQueue.active = super(NamedSingleton, cls).__call__("default", *args, **kwargs)
+                CommandQueue.active = cls("default", *args, **kwargs)
             return CommandQueue.active
         if name not in cls._instances.keys():
             cls._instances[name] = super(NamedSingleton, cls).__call__(name, *args, **kwargs)
-- 
2.43.0


From eeaa93390c06589fb3e940bea3b270869f66fa04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:04 +0000
Subject: [PATCH 05/83] fix: dump, save and load use the given queue even when
 it is empty

---
 gsp/io/ansi.py | 2 +-
 gsp/io/json.py | 6 +++---
 gsp/io/text.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/gsp/io/ansi.py b/gsp/io/ansi.py
index 204dacd..f4b8d5d 100644
--- a/gsp/io/ansi.py
+++ b/gsp/io/ansi.py
@@ -76,7 +76,7 @@ def dump_command(command, stream=sys.stdout):
 def dump(queue=None, filename=None):
     """ Save command queue to a file """
 
-    queue = queue or CommandQueue("active")
+    queue = CommandQueue("active") if queue is None else queue
     commands = ""
     for command in queue.commands:
         commands += dump_command(command, stream=None)
diff --git a/gsp/io/json.py b/gsp/io/json.py
index adc4aaf..182fdac 100644
--- a/gsp/io/json.py
+++ b/gsp/io/json.py
@@ -60,7 +60,7 @@ def dump_command(command, stream=sys.stdout):
 def dump(queue=None, filename=None):
     """ Save command queue to a file """
 
-    queue = queue or CommandQueue("active")
+    queue = CommandQueue("active") if queue is None else queue
     commands = []
     for command in queue.commands:
         commands.append(dump_command(command, stream=None))
@@ -76,7 +76,7 @@ def dump(queue=None, filename=None):
 def save(filename, queue = None ):
     """ Save command queue to a file """
 
-    queue = queue or CommandQueue("active")
+    queue = CommandQueue("active") if queue is None else queue
     dump(queue, filename)
 
 
@@ -87,7 +87,7 @@ def load(filename, queue = None):
         commands = json.load(stream)["commands"]
 
     # Get default command queue
-    queue = queue or CommandQueue("active")
+    queue = CommandQueue("active") if queue is None else queue
     queue.empty()
 
     for command in commands:
diff --git a/gsp/io/text.py b/gsp/io/text.py
index 3e2312a..f97163b 100644
--- a/gsp/io/text.py
+++ b/gsp/io/text.py
@@ -61,9 +61,9 @@ def dump_command(command, stream=sys.stdout):
 def dump(queue=None, filename=None):
     """ Save command queue to a file """
 
-    queue = queue or CommandQueue.get_default()
+    queue = CommandQueue("active") if queue is None else queue
     commands = ""
-    for command in queue._commands:
+    for command in queue.commands:
         commands += dump_command(command, stream=None)
         commands += "\n"
 
-- 
2.43.0


From 58edcd7bbdbc79735453e72eda74543f967d592a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:18 +0000
Subject: [PATCH 06/83] fix: arguments are checked before the call, a rejected
 call has no effect

---
 gsp/io/command.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/gsp/io/command.py b/gsp/io/command.py
index 7e4a8ec..7f1a1c4 100644
--- a/gsp/io/command.py
+++ b/gsp/io/command.py
@@ -209,10 +209,8 @@ def command(name=None):
                 no_command = True
                 del kwargs["__no_command__"]
 
-            result = func(self, *args, **kwargs)
-
             if not __record__:
-                return result
+                return func(self, *args, **kwargs)
 
             queue = CommandQueue("active")
             keys = func.__code__.co_varnames[1:]
@@ -222,10 +220,8 @@ def command(name=None):
             values = args
             defaults = get_default_args(func)
 
-            # Add self (identifying by id) to parameters
-            parameters = {"id": self.id}
-
             # Parameters
+            parameters = {}
             for key,value in zip(keys,values):
                 # We change the name of the parameter to indicate it is an ID
                 # This will be used later whne executing a command queue
@@ -295,6 +291,12 @@ def command(name=None):
                             "No converter found for converting '%s' (%s) to %s."
                             % (key, parameter_type, annotated_types))
 
+            # Arguments have been checked, we can now proceed with the call
+            result = func(self, *args, **kwargs)
+
+            # Add self (identifying by id) to parameters
+            parameters = {"id": self.id} | parameters
+
             if not no_command and not queue.readonly:
                 classname = self.__class__.__name__
                 methodname = func.__code__.co_name if name is None else name
-- 
2.43.0


From d8b75b38be454fab7d1dc1a811461a87e02504de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:33 +0000
Subject: [PATCH 07/83] fix: an argument of an annotated type is not converted,
 nearest converter is preferred

---
 gsp/io/command.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gsp/io/command.py b/gsp/io/command.py
index 7f1a1c4..9c1d85b 100644
--- a/gsp/io/command.py
+++ b/gsp/io/command.py
@@ -260,8 +260,8 @@ def command(name=None):
 
                     base_types = inspect.getmro(value.__class__)
 
+                    # Parameter is an instance of one the annotated type
                     for annotated_type in annotated_types:
-                        # Parameter is an instance of one the annotated type
                         if (annotated_type == parameter_type or
                             isinstance(parameter_type,annotated_type) or
                             issubclass(parameter_type,annotated_type)):
@@ -271,6 +271,10 @@ def command(name=None):
                             check = True
                             break
 
+                    if check:
+                        continue
+
+                    for annotated_type in annotated_types:
                         # Search for possible converters in any base type
                         for base_type in base_types:
                             # Found converter, register it
@@ -283,6 +287,7 @@ def command(name=None):
                                 # else:
                                 # Delayed conversion
                                 parameters[key] = Converter(converter, value)
+                                break
 
                     if check:
                         continue
-- 
2.43.0


From 2128aecb0c1ed41ae0b1fe69cb51f00b56a323b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:06 +0000
Subject: [PATCH 08/83] fix: objects passed as arguments are type-checked like
 any other argument

---
 gsp/core/canvas.py   |  5 +++--
 gsp/core/viewport.py |  4 +---
 gsp/io/command.py    | 10 ++++++----
 3 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/gsp/core/canvas.py b/gsp/core/canvas.py
index a0c9b92..c234f29 100644
--- a/gsp/core/canvas.py
+++ b/gsp/core/canvas.py
@@ -4,6 +4,7 @@
 
 from gsp.object import Object
 from gsp.io.command import command
+from gsp.transform import Transform
 
 class Canvas(Object):
     """
@@ -26,8 +27,8 @@ class Canvas(Object):
     """
 
     @command("core.Canvas")
-    def __init__(self, width : int,
-                       height : int,
+    def __init__(self, width : Transform | int,
+                       height : Transform | int,
                        dpi : float):
         """
         Create a new Canvas
diff --git a/gsp/core/viewport.py b/gsp/core/viewport.py
index 5caf85f..dd3d477 100644
--- a/gsp/core/viewport.py
+++ b/gsp/core/viewport.py
@@ -7,9 +7,7 @@ from gsp.object import Object
 from gsp.io.command import command
 from gsp.core.types import Color
 from gsp.core.canvas import Canvas
-
-# from gsp.transform import Transform
-class Transform: pass
+from gsp.transform import Transform
 
 class Viewport(Object):
     """
diff --git a/gsp/io/command.py b/gsp/io/command.py
index 9c1d85b..1e840dd 100644
--- a/gsp/io/command.py
+++ b/gsp/io/command.py
@@ -246,17 +246,19 @@ def command(name=None):
             # Check if parameter is of the right type, else, search
             # for a conversion method inside the parameter class.
             for key,value in parameters.items():
-                if key in annotations.keys():
+                # Objects are referred to by their id, under the name "key(id)"
+                param = key.removesuffix("(id)")
+                if param in annotations.keys():
 
                     check = False
                     parameter_type = parameters[key].__class__
                     if "[" in parameter_type.__name__:
                         parameter_type = parameters[key].__class__.__base__
 
-                    if get_origin(annotations[key]) is UnionType:
-                        annotated_types = list(get_args(annotations[key]))
+                    if get_origin(annotations[param]) in (Union, UnionType):
+                        annotated_types = list(get_args(annotations[param]))
                     else:
-                        annotated_types = annotations[key],
+                        annotated_types = annotations[param],
 
                     base_types = inspect.getmro(value.__class__)
 
-- 
2.43.0


From 6cbada59d631d5126306c0260cca7455664c9d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:47 +0000
Subject: [PATCH 09/83] fix: length and iteration of lists

---
 gsp/core/list.py            |  2 +-
 gsp_matplotlib/core/list.py | 12 ++++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/gsp/core/list.py b/gsp/core/list.py
index ddca82f..61301c6 100644
--- a/gsp/core/list.py
+++ b/gsp/core/list.py
@@ -41,7 +41,7 @@ class List(Object):
         """ Return the number of items in the list """
         
         if isinstance(self._itemsizes, (int)):
-            return len(data) / self._itemsizes
+            return len(self._data) // self._itemsizes
         else:
             return len(self._itemsizes)
         
diff --git a/gsp_matplotlib/core/list.py b/gsp_matplotlib/core/list.py
index 37a57f0..26094d9 100644
--- a/gsp_matplotlib/core/list.py
+++ b/gsp_matplotlib/core/list.py
@@ -6,6 +6,7 @@ import numpy as np
 from gsp.io.command import command, register
 
 from gsp import core
+from . buffer import Buffer
 
 class List(core.List):
 
@@ -19,5 +20,16 @@ class List(core.List):
     def __array__(self):
         return self._data.__array__()
 
+    def __iter__(self):
+        data = np.asanyarray(self._data)
+        if isinstance(self._itemsizes, int):
+            itemsizes = [self._itemsizes]*len(self)
+        else:
+            itemsizes = np.asanyarray(self._itemsizes)
+        start = 0
+        for size in itemsizes:
+            yield data[start:start+size]
+            start += size
+
     def __repr__(self):
         return f"List({len(self)}, {self._data._dtype})"
-- 
2.43.0


From 100634414747ada2866c5f7a52a1f1dd9397b600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:47 +0000
Subject: [PATCH 10/83] fix: conversion of lists and tuples to buffers and
 lists

---
 gsp_matplotlib/__init__.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/gsp_matplotlib/__init__.py b/gsp_matplotlib/__init__.py
index be10153..0f50d6a 100644
--- a/gsp_matplotlib/__init__.py
+++ b/gsp_matplotlib/__init__.py
@@ -5,6 +5,7 @@
 from .core.canvas import Canvas
 from .core.viewport import Viewport
 from .core.buffer import Buffer
+from .core.list import List
 from gsp.core.types import Marker
 
 from . import core
@@ -26,7 +27,7 @@ def ndarray_to_Matrix(obj):
     return Matrix(obj)
 
 
-@register("list", "Buffer")
+@register(("list", "tuple"), "Buffer")
 def list_to_Buffer(obj):
     # WARN: Do we need to keep track of obj/Buffer such as not create
     #       several buffers pointing at the same underlying object?
@@ -34,17 +35,14 @@ def list_to_Buffer(obj):
     #       this convertes is called such that if the obj has been
     #       mofidied, it shoudl be ok
     # Z = glm.ndarray.tracked(obj)
-    Z = obj.view(glm.ndarray.tracked)
+    Z = np.asarray(obj).view(glm.ndarray.tracked)
     return Z._tracker.gsp_buffer
 
 @register("list", "List")
 def list_to_List(obj):
-    count = [len(sublist) for sublist in obj]
-    count = glm.ndarray.tracked(count)
-    items = [item for sublist in obj for item in sublist]
-    # items = glm.ndarray.tracked(items)
-    items = items.view(glm.ndarray.tracked)
-    return List(items, count)
+    count = np.array([len(sublist) for sublist in obj], dtype=int)
+    items = np.array([item for sublist in obj for item in sublist], dtype=int)
+    return List(ndarray_to_Buffer(items), ndarray_to_Buffer(count))
 
 @register("int", "Marker")
 def int_to_Marker(obj):
-- 
2.43.0


From 96d7ce96e0063edb69f136b0bdca73580da36329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:04 +0000
Subject: [PATCH 11/83] fix: conversion of an argument to an object is recorded
 before the command using it

---
 gsp/io/command.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/gsp/io/command.py b/gsp/io/command.py
index 1e840dd..841f4f9 100644
--- a/gsp/io/command.py
+++ b/gsp/io/command.py
@@ -251,6 +251,7 @@ def command(name=None):
                 if param in annotations.keys():
 
                     check = False
+                    to_object = False
                     parameter_type = parameters[key].__class__
                     if "[" in parameter_type.__name__:
                         parameter_type = parameters[key].__class__.__base__
@@ -289,15 +290,25 @@ def command(name=None):
                                 # else:
                                 # Delayed conversion
                                 parameters[key] = Converter(converter, value)
+                                to_object = (isinstance(annotated_type, type) and
+                                             issubclass(annotated_type, Object))
                                 break
 
                     if check:
+                        # Conversion to an object cannot be delayed because it
+                        # creates commands that must come before this one.
+                        if to_object and not no_command and not queue.readonly:
+                            parameters[key] = parameters[key]()
                         continue
                     else:
                         raise ValueError(
                             "No converter found for converting '%s' (%s) to %s."
                             % (key, parameter_type, annotated_types))
 
+            parameters = {
+                key + "(id)" if isinstance(value, Object) and not key.endswith("(id)") else key : value
+                for key,value in parameters.items() }
+
             # Arguments have been checked, we can now proceed with the call
             result = func(self, *args, **kwargs)
 
-- 
2.43.0


From ca27ce896ebf1b28d73fa666c3d4a859f439538e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:04 +0000
Subject: [PATCH 12/83] fix: conversion to a list keeps the type of its items

---
 gsp_matplotlib/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp_matplotlib/__init__.py b/gsp_matplotlib/__init__.py
index 0f50d6a..76d9459 100644
--- a/gsp_matplotlib/__init__.py
+++ b/gsp_matplotlib/__init__.py
@@ -41,7 +41,7 @@ def list_to_Buffer(obj):
 @register("list", "List")
 def list_to_List(obj):
     count = np.array([len(sublist) for sublist in obj], dtype=int)
-    items = np.array([item for sublist in obj for item in sublist], dtype=int)
+    items = np.array([item for sublist in obj for item in sublist] or count[:0])
     return List(ndarray_to_Buffer(items), ndarray_to_Buffer(count))
 
 @register("int", "Marker")
-- 
2.43.0


From 0bef37bfe4fc67fb224dd0a8b580fedc64d86556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:04 +0000
Subject: [PATCH 13/83] fix: buffers apply the updates they are sent and can be
 created from saved types and data

---
 gsp/__init__.py               |  3 ++-
 gsp/io/convert.py             |  2 ++
 gsp/io/json.py                |  3 ++-
 gsp_matplotlib/core/buffer.py | 26 +++++++++++++++++++-------
 4 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/gsp/__init__.py b/gsp/__init__.py
index 3e62dcb..ff7dc31 100644
--- a/gsp/__init__.py
+++ b/gsp/__init__.py
@@ -18,7 +18,8 @@ if sys.version_info < (3, 11):
 
 @io.register("str", "memoryview")
 def str_to_memoryview(obj):
-    return memoryview(bytes(obj))
+    import base64
+    return memoryview(base64.b64decode(obj))
 
 @io.register("list", "Color")
 def list_to_Color(obj):
diff --git a/gsp/io/convert.py b/gsp/io/convert.py
index d4f63d0..228aa0a 100644
--- a/gsp/io/convert.py
+++ b/gsp/io/convert.py
@@ -158,6 +158,8 @@ def numpy_dtype_to_str(dt):
 
 @register("str", "dtype")
 def numpy_str_to_dtype(desc):
+    if ":" not in desc:
+        return np.dtype(desc)
     dt = []
     elements = desc.split(",")
     for element in elements:
diff --git a/gsp/io/json.py b/gsp/io/json.py
index 182fdac..f06ba81 100644
--- a/gsp/io/json.py
+++ b/gsp/io/json.py
@@ -8,6 +8,7 @@ import base64
 import numpy as np
 from gsp.object import Object
 from . command import CommandQueue, Command
+from . convert import numpy_dtype_to_str
 
 def default(obj):
     from gsp.core.types import Color
@@ -17,7 +18,7 @@ def default(obj):
     elif isinstance(obj, bytes):
         return base64.b64encode(obj).decode()
     elif isinstance(obj, np.dtype):
-        return str(obj)
+        return numpy_dtype_to_str(obj)
     elif isinstance(obj, np.ndarray):
         return base64.b64encode(obj).decode()
     elif isinstance(obj, Color):
diff --git a/gsp_matplotlib/core/buffer.py b/gsp_matplotlib/core/buffer.py
index 32fa690..84e3d73 100644
--- a/gsp_matplotlib/core/buffer.py
+++ b/gsp_matplotlib/core/buffer.py
@@ -2,8 +2,10 @@
 # Authors: Nicolas P .Rougier <nicolas.rougier@gmail.com>
 # License: BSD 3 clause
 from __future__ import annotations # Solve circular references with typing
+import base64
 import numpy as np
 from gsp.io.command import command, register
+from gsp.io.convert import numpy_str_to_dtype
 
 from gsp import core
 
@@ -17,26 +19,36 @@ class Buffer(core.Buffer):
                        data : memoryview | bytes = None):
         super().__init__(count, dtype, data, __no_command__ = True)
         self._count = count
-        self._dtype = dtype
 
+        # Types and data are described by strings when loaded from a file
+        if isinstance(dtype, str):
+            self._dtype = numpy_str_to_dtype(dtype)
+        else:
+            self._dtype = dtype
         if isinstance(data, str):
-            import base64
             self._data = base64.b64decode(data)
         else:
             self._data = data
         self._array = None
+        self._shared = data is not None
 
     @command()
     def set_data(self, offset : int,
                        data : memoryview | bytes):
-        # Be careful with set_data when the underlying data is already tracked
-        # buffer = np.asanyarray(self).view(np.ubyte)
-        # buffer[offset:offset+len(data)] = np.frombuffer(data, np.ubyte)
-        pass
+        if isinstance(data, str):
+            data = base64.b64decode(data)
+
+        # The underlying data may be read-only or belong to someone else
+        if self._shared:
+            self._array = self.__array__().copy()
+            self._shared = False
+        buffer = self.__array__().reshape(-1).view(np.ubyte)
+        data = np.frombuffer(data, np.ubyte)
+        buffer[offset:offset+len(data)] = data
 
     def __array__(self):
         if self._array is None:
-            if self._data is not None:
+            if self._data is not None and self._count > 0:
                 self._array = np.frombuffer(self._data, self._dtype)
             else:
                 self._array = np.empty(self._count, self._dtype)
-- 
2.43.0


From 2f8dc6769226ce786073c570ba505d864ed8be4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:25 +0000
Subject: [PATCH 14/83] fix: buffers accept empty updates and bytes

---
 gsp/core/buffer.py            | 2 +-
 gsp_matplotlib/core/buffer.py | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/gsp/core/buffer.py b/gsp/core/buffer.py
index 2d62fa8..2de6579 100644
--- a/gsp/core/buffer.py
+++ b/gsp/core/buffer.py
@@ -40,7 +40,7 @@ class Buffer(Object):
 
     @command()
     def set_data(self, offset : int,
-                       data : memoryview):
+                       data : memoryview | bytes):
 
         """Update buffer content at given offset with new data.
 
diff --git a/gsp_matplotlib/core/buffer.py b/gsp_matplotlib/core/buffer.py
index 84e3d73..d5f6700 100644
--- a/gsp_matplotlib/core/buffer.py
+++ b/gsp_matplotlib/core/buffer.py
@@ -43,8 +43,9 @@ class Buffer(core.Buffer):
             self._array = self.__array__().copy()
             self._shared = False
         buffer = self.__array__().reshape(-1).view(np.ubyte)
-        data = np.frombuffer(data, np.ubyte)
-        buffer[offset:offset+len(data)] = data
+        if len(data):
+            data = np.frombuffer(data, np.ubyte)
+            buffer[offset:offset+len(data)] = data
 
     def __array__(self):
         if self._array is None:
-- 
2.43.0


From 7f46f6e98b18b4cf08f6cc5dbf6d8945ce1c2a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:25 +0000
Subject: [PATCH 15/83] fix: buffers of tracked arrays keep the shape of the
 array items

---
 gsp_matplotlib/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gsp_matplotlib/__init__.py b/gsp_matplotlib/__init__.py
index 76d9459..4120382 100644
--- a/gsp_matplotlib/__init__.py
+++ b/gsp_matplotlib/__init__.py
@@ -69,7 +69,9 @@ class Tracker:
     def __init__(self, ndarray):
         if ndarray is not None:
             self.ndarray = ndarray
-            self.gsp_buffer = Buffer(len(ndarray), ndarray.dtype, ndarray.data)
+            # Items of a multi-dimensional array are sub-arrays
+            dtype = np.dtype((ndarray.dtype, ndarray.shape[1:]))
+            self.gsp_buffer = Buffer(len(ndarray), dtype, ndarray.data)
             self.gsp_buffer.set_data(0, ndarray.tobytes())
 
     def set_data(self, offset, bytes):
-- 
2.43.0


From 8417ef6c40197fc5f0ddcbcef92e97df15ac2689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:25 +0000
Subject: [PATCH 16/83] fix: transforms and matrices are available to replay in
 gsp_matplotlib

---
 gsp_matplotlib/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsp_matplotlib/__init__.py b/gsp_matplotlib/__init__.py
index 4120382..bbc521c 100644
--- a/gsp_matplotlib/__init__.py
+++ b/gsp_matplotlib/__init__.py
@@ -6,7 +6,8 @@ from .core.canvas import Canvas
 from .core.viewport import Viewport
 from .core.buffer import Buffer
 from .core.list import List
-from gsp.core.types import Marker
+from gsp import transform
+from gsp.core.types import Marker, Matrix
 
 from . import core
 from . import visual
-- 
2.43.0


From 2ebb679eb7f61b70f039736ef169a29498a375db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:25 +0000
Subject: [PATCH 17/83] fix: segments are recorded as segments

---
 gsp_matplotlib/visual/segments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp_matplotlib/visual/segments.py b/gsp_matplotlib/visual/segments.py
index 3ad7918..95949b7 100644
--- a/gsp_matplotlib/visual/segments.py
+++ b/gsp_matplotlib/visual/segments.py
@@ -16,7 +16,7 @@ class Segments(visual.Segments):
 
     __doc__ = visual.Segments.__doc__
 
-    @command("visual.Points")
+    @command("visual.Segments")
     def __init__(self, positions   : Transform | Buffer,
                        line_caps   : Transform | Buffer | LineCap,
                        line_colors : Transform | Buffer | Color,
-- 
2.43.0


From d144fbc8d2d4fe6a5295539430b3c038bcbc78f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:52 +0000
Subject: [PATCH 18/83] fix: matrices can be saved and given back to render
 when replayed

---
 gsp/core/types.py                | 2 +-
 gsp/io/json.py                   | 4 +++-
 gsp/visual/visual.py             | 6 +++---
 gsp_matplotlib/__init__.py       | 2 +-
 gsp_matplotlib/visual/markers.py | 2 +-
 5 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/gsp/core/types.py b/gsp/core/types.py
index 4ccef29..c9714d0 100644
--- a/gsp/core/types.py
+++ b/gsp/core/types.py
@@ -50,7 +50,7 @@ class Matrix:
             The 16 values of the matrix
         """
 
-        self._data = np.frombuffer(data, dtype=np.float32)
+        self._data = np.array(data, dtype=np.float32).reshape(4,4)
 
     def __array__(self):
         return self._data
diff --git a/gsp/io/json.py b/gsp/io/json.py
index f06ba81..4479286 100644
--- a/gsp/io/json.py
+++ b/gsp/io/json.py
@@ -11,7 +11,7 @@ from . command import CommandQueue, Command
 from . convert import numpy_dtype_to_str
 
 def default(obj):
-    from gsp.core.types import Color
+    from gsp.core.types import Color, Matrix
 
     if isinstance(obj, memoryview):
         return base64.b64encode(bytes(obj)).decode()
@@ -23,6 +23,8 @@ def default(obj):
         return base64.b64encode(obj).decode()
     elif isinstance(obj, Color):
         return tuple(obj._color.tolist())
+    elif isinstance(obj, Matrix):
+        return obj._data.tolist()
     elif isinstance(obj, Object):
         return obj.id
     raise TypeError(f'Object of type {obj.__class__.__name__} is not JSON serializable')
diff --git a/gsp/visual/visual.py b/gsp/visual/visual.py
index ae20046..31c19dc 100644
--- a/gsp/visual/visual.py
+++ b/gsp/visual/visual.py
@@ -109,11 +109,11 @@ class Visual(Object):
 
         # We store the model/view/proj matrices for resize events
         if model is not None:
-            self._model = model
+            self._model = np.asarray(model)
         if view is not None:
-            self._view = view
+            self._view = np.asarray(view)
         if proj is not None:
-            self._proj = proj
+            self._proj = np.asarray(proj)
 
         try:
             self._transform = self._proj @ self._view @ self._model
diff --git a/gsp_matplotlib/__init__.py b/gsp_matplotlib/__init__.py
index bbc521c..d3f8513 100644
--- a/gsp_matplotlib/__init__.py
+++ b/gsp_matplotlib/__init__.py
@@ -23,7 +23,7 @@ from .glm.mat234 import *
 from gsp.io import register
 
 
-@register("ndarray", "Matrix")
+@register(("ndarray", "list"), "Matrix")
 def ndarray_to_Matrix(obj):
     return Matrix(obj)
 
diff --git a/gsp_matplotlib/visual/markers.py b/gsp_matplotlib/visual/markers.py
index 20550f7..1410fa6 100644
--- a/gsp_matplotlib/visual/markers.py
+++ b/gsp_matplotlib/visual/markers.py
@@ -112,7 +112,7 @@ class Markers(visual.Markers):
         #  - A unique type of marker
         #  But then, we would still need to keep track of the
         #  different variables to check is anything has changed.
-        P = glm.to_vec3(glm.to_vec4(positions) @ model.T)
+        P = glm.to_vec3(glm.to_vec4(positions) @ self._model.T)
         self.generate_markers(P)
 
         positions = glm.to_vec3(glm.to_vec4(positions) @ self._transform.T)
-- 
2.43.0


From 4ff18404cfad819dd9d97da980cfc7bb96bf15bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:52 +0000
Subject: [PATCH 19/83] fix: new objects do not take over an identifier already
 in use

---
 gsp/object.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gsp/object.py b/gsp/object.py
index 50ada14..5783ad4 100644
--- a/gsp/object.py
+++ b/gsp/object.py
@@ -29,6 +29,9 @@ class OID(int):
 
         if oid is None:
             oid = 1 + next(OID.counter)
+            # Skip identifiers that have been explicitly given to an object
+            while oid in Object.objects.keys():
+                oid = 1 + next(OID.counter)
         else:
             oid = int(oid)
         return super(OID, cls).__new__(cls, oid)
@@ -74,7 +77,7 @@ class Object:
 
     @id.setter
     def id(self, newid):
-        if self._id in Object.objects.keys():
+        if Object.objects.get(self._id) is self:
             del Object.objects[self._id]
             Object.objects[newid] = self
         self._id = newid
-- 
2.43.0


From 52ab133997cfed3dd88431067c996ef1bea7154a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:52 +0000
Subject: [PATCH 20/83] fix: a failing save or load leaves the file and the
 session as they were, creation commands reload as they were saved

---
 gsp/__init__.py |  6 +++---
 gsp/io/json.py  | 15 +++++++++++----
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/gsp/__init__.py b/gsp/__init__.py
index ff7dc31..9663773 100644
--- a/gsp/__init__.py
+++ b/gsp/__init__.py
@@ -81,12 +81,12 @@ def load(filename, format=None):
     import pathlib
     from gsp.io import queue, json
 
-    Object.objects = {}
-    queue = queue("active").empty()
+    queue = queue("active")
 
     format = format or pathlib.Path(filename).suffix[1:]
     if format in ["json"]:
-        json.load(filename)
+        json.load(filename, queue)
+        Object.objects = {}
     else:
         raise ValueError(f"Unknown format ({format})")
 
diff --git a/gsp/io/json.py b/gsp/io/json.py
index 4479286..433d2c3 100644
--- a/gsp/io/json.py
+++ b/gsp/io/json.py
@@ -72,8 +72,10 @@ def dump(queue=None, filename=None):
     if filename is None:
         return json.dumps(payload, indent=2, default=default)
     else:
+        # Encode first such that a failure does not destroy an existing file
+        content = json.dumps(payload, default=default)
         with open(filename, "w") as stream:
-            json.dump(payload, stream, default=default)
+            stream.write(content)
 
 
 def save(filename, queue = None ):
@@ -91,16 +93,21 @@ def load(filename, queue = None):
 
     # Get default command queue
     queue = CommandQueue("active") if queue is None else queue
-    queue.empty()
 
+    loaded = []
     for command in commands:
         method = command["method"]
         try:
             classname, methodname = method.split("/")
         except ValueError:
-            classname, methodname = method, "__init__"
+            classname, methodname = method.split(".")[-1], method
+            if "." not in method:
+                methodname = "__init__"
         parameters = command["parameters"]
-        command = Command(classname,  methodname, parameters)
+        loaded.append(Command(classname,  methodname, parameters))
+
+    queue.empty()
+    for command in loaded:
         queue.push(command)
 
     return queue
-- 
2.43.0


From f92483e8e97000440d001f2cb2517c49f234250b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:14 +0000
Subject: [PATCH 21/83] fix: copying an operator keeps its constant right
 operand

---
 gsp/transform/operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp/transform/operator.py b/gsp/transform/operator.py
index 81c1a8d..9a61786 100644
--- a/gsp/transform/operator.py
+++ b/gsp/transform/operator.py
@@ -115,7 +115,7 @@ class Operator(Transform):
         if isinstance(self._right, Transform):
             transform.set_right(self._right.copy())
         else:
-            transform.set_left(self._left)
+            transform.set_right(self._right)
 
         return transform
 
-- 
2.43.0


From 371d40f869056e33243d3e98ce3a723b526f3688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:14 +0000
Subject: [PATCH 22/83] fix: operators with constant operands and chains ending
 with an operator report being bound

---
 gsp/transform/operator.py  | 3 ++-
 gsp/transform/transform.py | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/gsp/transform/operator.py b/gsp/transform/operator.py
index 9a61786..6b0b3bf 100644
--- a/gsp/transform/operator.py
+++ b/gsp/transform/operator.py
@@ -46,7 +46,8 @@ class Operator(Transform):
         Indicate if this transform is bound
         """
 
-        return self.left.bound and self.right.bound
+        return all(operand.bound if isinstance(operand, Transform) else operand is not None
+                   for operand in (self.left, self.right))
 
     @property
     def operator(self):
diff --git a/gsp/transform/transform.py b/gsp/transform/transform.py
index 2bac37a..8989a2d 100644
--- a/gsp/transform/transform.py
+++ b/gsp/transform/transform.py
@@ -130,7 +130,9 @@ class Transform(Object):
         """
         Indicate if this transform is bound
         """
-        return self.last.buffer is not None
+        if self._next:
+            return self.last.bound
+        return self.buffer is not None
 
     def copy(self):
         """
-- 
2.43.0


From c1ea965f4f0e6614be9d3659935fdc98665021bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:14 +0000
Subject: [PATCH 23/83] fix: chaining a chain keeps all its transforms

---
 gsp/transform/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsp/transform/transform.py b/gsp/transform/transform.py
index 8989a2d..359062f 100644
--- a/gsp/transform/transform.py
+++ b/gsp/transform/transform.py
@@ -153,8 +153,8 @@ class Transform(Object):
 
         transform = self.copy()
         if isinstance(other, Transform):
-            transform.set_next(other.copy())
-            transform.set_buffer(None)
+            transform.last.set_buffer(None)
+            transform.last.set_next(other.copy())
         elif isinstance(other, (Buffer, np.ndarray, float, int, tuple)):
             if self.bound:
                 raise ValueError("Transform is already bound")
-- 
2.43.0


From 2a30440c4fce9e2c461f4985a32b89dfd412982a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:14 +0000
Subject: [PATCH 24/83] fix: a meter is 100 centimeters

---
 gsp/transform/measure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp/transform/measure.py b/gsp/transform/measure.py
index 4975fd7..27aad07 100644
--- a/gsp/transform/measure.py
+++ b/gsp/transform/measure.py
@@ -214,7 +214,7 @@ class Meter(Measure):
         """Evaluate the transform"""
 
         measure = Measure.evaluate(self, variables)
-        return 10e2*self.dpi(variables)/2.54 * measure
+        return 1e2*self.dpi(variables)/2.54 * measure
 
 class Kilometer(Measure):
     """
-- 
2.43.0


From 02f2059bab3fcd6cd09b5f394b4cfcc73ab466bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:14 +0000
Subject: [PATCH 25/83] fix: a bound measure can be multiplied

---
 gsp/transform/measure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp/transform/measure.py b/gsp/transform/measure.py
index 27aad07..91d331c 100644
--- a/gsp/transform/measure.py
+++ b/gsp/transform/measure.py
@@ -96,7 +96,7 @@ class Measure(Transform):
         return scale * value
 
     def __mul__(self, other):
-        if isinstance(other, (int,float,tuple,np.ndarray)):
+        if isinstance(other, (int,float,tuple,np.ndarray)) and not self.bound:
             return self(other)
         return Transform.__mul__(self, other)
 
-- 
2.43.0


From 84a9c7d067c60a3d5fba40615eb702b52ccd0030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:14 +0000
Subject: [PATCH 26/83] fix: colormap bounds can be zero, its name can be
 changed and it applies to buffers

---
 gsp/transform/colormap.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gsp/transform/colormap.py b/gsp/transform/colormap.py
index 7bae427..65d4c0d 100644
--- a/gsp/transform/colormap.py
+++ b/gsp/transform/colormap.py
@@ -1,6 +1,7 @@
 # Package: Graphic Server Protocol / Matplotlib
 # Authors: Nicolas P .Rougier <nicolas.rougier@gmail.com>
 # License: BSD 3 clause
+import numpy as np
 from gsp.core import Buffer
 from gsp.io.command import command
 from gsp.transform import Transform
@@ -52,7 +53,7 @@ class Colormap(Transform):
         colormap:
             Name of the colormap
         """
-        pass
+        self._colormap = colormap
 
     def copy(self):
         """
@@ -79,6 +80,8 @@ class Colormap(Transform):
         else:
             value = self._buffer
         cmap = plt.get_cmap(self._colormap)
-        norm = mpl.colors.Normalize(vmin=self._vmin or value.min(),
-                                    vmax=self._vmax or value.max())
+        value = np.asanyarray(value)
+        vmin = value.min() if self._vmin is None else self._vmin
+        vmax = value.max() if self._vmax is None else self._vmax
+        norm = mpl.colors.Normalize(vmin=vmin, vmax=vmax)
         return cmap(norm(value))
-- 
2.43.0


From 4e855e8c66b0f2e3b3aeefc6c85f86e576207859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:14 +0000
Subject: [PATCH 27/83] fix: parameters of copied transforms are recorded

---
 gsp/transform/accessor.py | 16 +++++++++++++++-
 gsp/transform/colormap.py |  9 +++++----
 gsp/transform/out.py      |  3 +--
 3 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/gsp/transform/accessor.py b/gsp/transform/accessor.py
index 7d2ea13..de3b1af 100644
--- a/gsp/transform/accessor.py
+++ b/gsp/transform/accessor.py
@@ -30,9 +30,23 @@ class Accessor(Transform):
 
     def copy(self):
         transform = Transform.copy(self)
-        transform._key = self._key
+        if transform._key != self._key:
+            transform.set_key(self._key)
         return transform
 
+    @command()
+    def set_key(self, key : str):
+        """
+        Set the name of the field to access
+
+        Parameters
+        ----------
+        key :
+            Name of the field to access
+        """
+
+        self._key = key
+
     def evaluate(self, buffers=None):
         if self._next:
             buffer = self._next.evaluate(buffers)
diff --git a/gsp/transform/colormap.py b/gsp/transform/colormap.py
index 65d4c0d..6e6d14d 100644
--- a/gsp/transform/colormap.py
+++ b/gsp/transform/colormap.py
@@ -60,10 +60,11 @@ class Colormap(Transform):
         Copy the transform
         """
 
-        transform = Transform.copy(self)
-        transform._colormap = self._colormap
-        transform._vmin = self._vmin
-        transform._vmax = self._vmax
+        transform = self.__class__(self._colormap, self._vmin, self._vmax)
+        transform.set_buffer(self._buffer)
+        transform.set_base(self.base)
+        if self._next:
+            transform.set_next(self._next.copy())
         return transform
 
 
diff --git a/gsp/transform/out.py b/gsp/transform/out.py
index 4df39a1..8a5abd4 100644
--- a/gsp/transform/out.py
+++ b/gsp/transform/out.py
@@ -34,10 +34,9 @@ class Out(Transform):
         Copy the transform
         """
 
-        transform = self.__class__()
+        transform = self.__class__(self.name)
         transform.set_buffer(self._buffer)
         transform.set_base(self.base)
-        transform.name = self.name
         if self._next:
             transform.set_next(self._next.copy())
         return transform
-- 
2.43.0


From e9a7fe074d86eb84443dcf7476ecb15d28da401f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:14 +0000
Subject: [PATCH 28/83] fix: transforms evaluate on buffers as they do on
 arrays

---
 gsp/transform/accessor.py | 1 +
 gsp/transform/operator.py | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/gsp/transform/accessor.py b/gsp/transform/accessor.py
index de3b1af..38d3bcf 100644
--- a/gsp/transform/accessor.py
+++ b/gsp/transform/accessor.py
@@ -55,6 +55,7 @@ class Accessor(Transform):
         else:
             raise ValueError("Transform is not bound")
 
+        buffer = np.asanyarray(buffer)
         if buffer.dtype.names:
             buffer = buffer[self._key]
         elif self._key in "xyzw":
diff --git a/gsp/transform/operator.py b/gsp/transform/operator.py
index 6b0b3bf..99bab74 100644
--- a/gsp/transform/operator.py
+++ b/gsp/transform/operator.py
@@ -1,6 +1,7 @@
 # Package: Graphic Server Protocol / Matplotlib
 # Authors: Nicolas P .Rougier <nicolas.rougier@gmail.com>
 # License: BSD 3 clause
+import numpy as np
 from gsp.core import Buffer
 from . transform import Transform
 from gsp.io.command import command
@@ -124,11 +125,15 @@ class Operator(Transform):
 
         if isinstance(self._left, Transform):
             left = self._left.evaluate(variables)
+        elif isinstance(self._left, (Buffer, list, tuple)):
+            left = np.asanyarray(self._left)
         else:
             left = self._left
 
         if isinstance(self._right, Transform):
             right = self._right.evaluate(variables)
+        elif isinstance(self._right, (Buffer, list, tuple)):
+            right = np.asanyarray(self._right)
         else:
             right = self._right
 
-- 
2.43.0


From 9ab68d619b70ffd9c6edb9ef35242667261d8d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:14 +0000
Subject: [PATCH 29/83] fix: an array on the left of an operator does not hide
 the transform

---
 gsp/transform/transform.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gsp/transform/transform.py b/gsp/transform/transform.py
index 359062f..2d5a4d1 100644
--- a/gsp/transform/transform.py
+++ b/gsp/transform/transform.py
@@ -9,6 +9,10 @@ from gsp.io.command import command
 
 class Transform(Object):
 
+    # Arithmetic between a numpy array and a transform is a transform
+    # See https://numpy.org/doc/stable/user/c-info.beyond-basics.html
+    __array_priority__ = 2
+
     @command("transform.Transform")
     def __init__(self, base : Transform = None,
                        next : Transform = None,
-- 
2.43.0


From 11367519d749068fe56aa67ace9a14071e206926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:30 +0000
Subject: [PATCH 30/83] fix: arrays derived from a tracked array have their own
 buffer

---
 gsp_matplotlib/__init__.py            | 6 ++++++
 gsp_matplotlib/glm/ndarray/tracked.py | 8 ++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/gsp_matplotlib/__init__.py b/gsp_matplotlib/__init__.py
index d3f8513..7134215 100644
--- a/gsp_matplotlib/__init__.py
+++ b/gsp_matplotlib/__init__.py
@@ -63,6 +63,12 @@ def ndarray_to_Buffer(obj):
 
 @register("tracked", "Buffer")
 def tracked_to_Buffer(obj):
+    if obj._tracker is None:
+        # Result of a computation, it is tracked from now on
+        obj._tracker = Tracker(obj)
+    elif isinstance(obj.base, glm.ndarray.tracked) and obj.size != obj.base.size:
+        # Partial view, the tracked buffer is the one of the whole array
+        return ndarray_to_Buffer(np.array(obj))
     return obj._tracker.gsp_buffer
 
 
diff --git a/gsp_matplotlib/glm/ndarray/tracked.py b/gsp_matplotlib/glm/ndarray/tracked.py
index a48e145..4c8656a 100644
--- a/gsp_matplotlib/glm/ndarray/tracked.py
+++ b/gsp_matplotlib/glm/ndarray/tracked.py
@@ -48,9 +48,13 @@ class tracked(np.ndarray):
         else:
             self._extents = self._compute_extents(obj)
         self._dirty = self._extents
-        self._tracker = getattr(obj, '_tracker', None)
-        if self._tracker is None and self.__tracker_class__ is not None:
+        if isinstance(obj, tracked):
+            # Only a view is tracked by the tracker of the array it comes from
+            self._tracker = obj._tracker if np.may_share_memory(self, obj) else None
+        elif obj is not None and self.__tracker_class__ is not None:
             self._tracker = self.__tracker_class__(obj)
+        else:
+            self._tracker = None
 
     def clear(self):
         """ Clear dirty region"""
-- 
2.43.0


From 00bd696f2bfc82d4ecf9a36dfba22cc47204655a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:17 +0000
Subject: [PATCH 31/83] fix: tracked arrays signal exactly the bytes modified
 through any view and by in-place operations

---
 gsp_matplotlib/glm/ndarray/tracked.py | 84 +++++++++++++++------------
 1 file changed, 48 insertions(+), 36 deletions(-)

diff --git a/gsp_matplotlib/glm/ndarray/tracked.py b/gsp_matplotlib/glm/ndarray/tracked.py
index 4c8656a..1ba34c8 100644
--- a/gsp_matplotlib/glm/ndarray/tracked.py
+++ b/gsp_matplotlib/glm/ndarray/tracked.py
@@ -46,7 +46,7 @@ class tracked(np.ndarray):
         if obj is None:
             self._extents = 0, self.size*self.itemsize
         else:
-            self._extents = self._compute_extents(obj)
+            self._extents = 0, self.nbytes
         self._dirty = self._extents
         if isinstance(obj, tracked):
             # Only a view is tracked by the tracker of the array it comes from
@@ -90,15 +90,17 @@ class tracked(np.ndarray):
     def _compute_extents(self, Z):
         """Compute extents (start, stop) in bytes in the base array"""
 
-        if Z.base is not None:
-            base = Z.base.__array_interface__['data'][0]
-            view = Z.__array_interface__['data'][0]
-            offset = view - base
-            shape = np.array(Z.shape) - 1
-            strides = Z.strides[-len(shape):]
-            size = (shape*strides).sum() + Z.itemsize
-            return offset, offset+size
-        return 0, Z.size*Z.itemsize
+        if Z.size == 0:
+            return 0, 0
+        base = self
+        while isinstance(base.base, tracked):
+            base = base.base
+        # Bytes of an array are the ones of its contiguous copy
+        if not base.flags.c_contiguous:
+            return 0, base.nbytes
+        start, stop = np.lib.array_utils.byte_bounds(Z)
+        offset = base.__array_interface__['data'][0]
+        return start - offset, stop - offset
 
     # def _compute_extents(self, Z):
     #     """Compute extents (start, stop) in bytes in the base array"""
@@ -121,43 +123,49 @@ class tracked(np.ndarray):
         Z = np.ndarray.__getitem__(self, key)
         if not hasattr(Z, 'shape') or Z.shape == ():
             return Z
-        Z._extents = self._compute_extents(Z)
         return Z
 
     def __setitem__(self, key, value):
         Z = np.ndarray.__getitem__(self, key)
         if Z.shape == ():
-            # This test for the case of [...,index] notation. Since we
-            # know the result is a scalar, we can safely remove the
-            # ellipsis component (that should be the first item).
-            if (isinstance(key, tuple)):
-                key = tuple([k for k in key if k is not Ellipsis])
-            key = tuple(np.mod(np.array(key), self.shape))
-            offset = np.ravel_multi_index(key, self.shape, mode='wrap')*self.itemsize
-            self._update(offset, offset+self.itemsize)
+            # A scalar does not tell where it comes from, the ellipsis makes
+            # it a (zero-dimensional) view.
+            if not isinstance(key, tuple):
+                key = (key,)
+            if not isinstance(key[0], str) and Ellipsis not in key:
+                Z = np.ndarray.__getitem__(self, key + (Ellipsis,))
+            extents = self._compute_extents(Z)
 
         # Test for fancy indexing
         elif (Z.base is not self and (isinstance(key, list) or
                (hasattr(key, '__iter__') and
                 any(isinstance(k, (list,np.ndarray)) for k in key)))):
             raise NotImplementedError("Fancy indexing not supported")
+        elif Z.size and not np.may_share_memory(Z, self):
+            # Copy (masks and indices), we do not know what is modified
+            extents = self._compute_extents(self)
         else:
-            Z._extents = self._compute_extents(Z)
-            self._update(Z._extents[0], Z._extents[1])
+            extents = self._compute_extents(Z)
         np.ndarray.__setitem__(self, key, value)
+        self._modified(extents)
 
+    def _modified(self, extents):
+        """Mark extents as dirty and signal the tracker (if any)"""
+
+        if extents[0] == extents[1]:
+            return
+        self._update(*extents)
         if self._tracker:
             base = self
             while base.base is not None and isinstance(base.base, tracked):
                 base = base.base
-            data = base.view(np.ubyte).ravel()
-            start, stop = self._dirty
-            if base is not self:
+            start, stop = base._dirty
+            if base.flags.c_contiguous:
+                data = np.ndarray.view(base, np.ndarray).reshape(-1).view(np.ubyte)
                 base._tracker.set_data(start, data[start:stop].tobytes())
-                base.clear()
             else:
-                self._tracker.set_data(start, data[start:stop].tobytes())
-                self.clear()
+                base._tracker.set_data(start, base.tobytes()[start:stop])
+            base.clear()
 
     def __getslice__(self, start, stop):
         return self.__getitem__(slice(start, stop))
@@ -166,17 +174,21 @@ class tracked(np.ndarray):
         self.__setitem__(slice(int(start), int(stop)), value)
 
     def __iadd__(self, other):
-        self._update(self._extents[0], self._extents[1])
-        return np.ndarray.__iadd__(self, other)
+        Z = np.ndarray.__iadd__(self, other)
+        self._modified(self._compute_extents(self))
+        return Z
 
     def __isub__(self, other):
-        self._update(self._extents[0], self._extents[1])
-        return np.ndarray.__isub__(self, other)
+        Z = np.ndarray.__isub__(self, other)
+        self._modified(self._compute_extents(self))
+        return Z
 
     def __imul__(self, other):
-        self._update(self._extents[0], self._extents[1])
-        return np.ndarray.__imul__(self, other)
+        Z = np.ndarray.__imul__(self, other)
+        self._modified(self._compute_extents(self))
+        return Z
 
-    def __idiv__(self, other):
-        self._update(self._extents[0], self._extents[1])
-        return np.ndarray.__idiv__(self, other)
+    def __itruediv__(self, other):
+        Z = np.ndarray.__itruediv__(self, other)
+        self._modified(self._compute_extents(self))
+        return Z
-- 
2.43.0


From c897d5d26fe9d7d4d3bc6513706e9f3bfbc35d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:24 +0000
Subject: [PATCH 32/83] fix: a refused registration of converters changes
 nothing

---
 gsp/io/convert.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/gsp/io/convert.py b/gsp/io/convert.py
index 228aa0a..07e0e3c 100644
--- a/gsp/io/convert.py
+++ b/gsp/io/convert.py
@@ -51,20 +51,14 @@ def register(src_types : str | tuple[str,...],
     """
 
     def inner(func):
-        if isinstance(src_types,(list,tuple)):
-            for src_type in src_types:
-                if (src_type,dst_type) not in converters.keys():
-                    converters[(src_type, dst_type)] = func
-                else:
-                    raise TypeError(
-                        f"A converter for '{src_type}' to '{dst_type}' has already been registered.")
-        else:
-            src_type = src_types
-            if (src_type,dst_type) not in converters.keys():
-                converters[(src_type, dst_type)] = func
-            else:
+        types = src_types if isinstance(src_types,(list,tuple)) else (src_types,)
+        # Nothing is registered if one of the converters already exists
+        for src_type in types:
+            if (src_type,dst_type) in converters.keys():
                 raise TypeError(
                     f"A converter for '{src_type}' to '{dst_type}' has already been registered.")
+        for src_type in types:
+            converters[(src_type, dst_type)] = func
 
         return func
     return inner
-- 
2.43.0


From a64c46cad6af97cd29b0f743abd7d0f51c958df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:24 +0000
Subject: [PATCH 33/83] fix: text dumps list object parameters, unannotated
 parameters and loaded commands

---
 gsp/io/ansi.py |  7 +++++--
 gsp/io/text.py | 16 ++++++++++++++--
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/gsp/io/ansi.py b/gsp/io/ansi.py
index f4b8d5d..0eeefce 100644
--- a/gsp/io/ansi.py
+++ b/gsp/io/ansi.py
@@ -51,12 +51,15 @@ def dump_command(command, stream=sys.stdout):
         if key == "id":
             s += "     - OBJECT_ID: %s" % value + dim(" (int)\n")
         else:
+            # Parameters have no known annotation when they are not
+            # annotated or when the command comes from a file
+            annotations = command.annotations or {}
             if key.endswith("(id)"):
                 key = key[:-4]
-                vtype = command.annotations[key]
+                vtype = annotations.get(key, int)
                 key += "_ID"
             else:
-                vtype = command.annotations[key]
+                vtype = annotations.get(key, type(value))
 
             if hasattr(vtype, "__name__"):
                 vtype = vtype.__name__
diff --git a/gsp/io/text.py b/gsp/io/text.py
index f97163b..d62864d 100644
--- a/gsp/io/text.py
+++ b/gsp/io/text.py
@@ -40,12 +40,24 @@ def dump_command(command, stream=sys.stdout):
 
         # Immediate conversion for lisibility in the documentation
         if isinstance(value, Converter):
-            value = str(value()) + " (converted)"
+            value = value()
+            if isinstance(value, Object):
+                value = value.id
+            else:
+                value = str(value) + " (converted)"
 
         if key == "id":
             s += "     - OBJECT_ID: %s" % value + dim(" (int)\n")
         else:
-            vtype = command.annotations[key]
+            # Parameters have no known annotation when they are not
+            # annotated or when the command comes from a file
+            annotations = command.annotations or {}
+            if key.endswith("(id)"):
+                key = key[:-4]
+                vtype = annotations.get(key, int)
+                key += "_ID"
+            else:
+                vtype = annotations.get(key, type(value))
             if hasattr(vtype, "__name__"):
                 vtype = vtype.__name__
             else:
-- 
2.43.0


From 804fa9e37551e82734d19d05439376d25035b084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 34/83] fix: a failing render does not disable the tracking of
 arrays

---
 gsp_matplotlib/glm/ndarray/tracked.py | 18 ++++++++++++++++++
 gsp_matplotlib/visual/markers.py      | 13 +++----------
 gsp_matplotlib/visual/paths.py        | 13 +++----------
 gsp_matplotlib/visual/pixels.py       | 14 +++-----------
 gsp_matplotlib/visual/points.py       | 13 +++----------
 gsp_matplotlib/visual/polygons.py     | 13 +++----------
 gsp_matplotlib/visual/segments.py     | 13 +++----------
 7 files changed, 36 insertions(+), 61 deletions(-)

diff --git a/gsp_matplotlib/glm/ndarray/tracked.py b/gsp_matplotlib/glm/ndarray/tracked.py
index 1ba34c8..6f64800 100644
--- a/gsp_matplotlib/glm/ndarray/tracked.py
+++ b/gsp_matplotlib/glm/ndarray/tracked.py
@@ -3,8 +3,26 @@
 # Copyright 2023 Nicolas P. Rougier - BSD 2 Clauses licence
 # -----------------------------------------------------------------------------
 """ Memory aware array class """
+import functools
 import numpy as np
 
+def untracked(func):
+    """
+    Function decorator that disables the tracking of the tracked
+    arrays created by the function. Tracking is restored whatever the
+    function does.
+    """
+
+    @functools.wraps(func)
+    def inner(*args, **kwargs):
+        tracker_class = tracked.__tracker_class__
+        tracked.__tracker_class__ = None
+        try:
+            return func(*args, **kwargs)
+        finally:
+            tracked.__tracker_class__ = tracker_class
+    return inner
+
 class tracked(np.ndarray):
     """
     A tracked array keeps track of the smallest contiguous block
diff --git a/gsp_matplotlib/visual/markers.py b/gsp_matplotlib/visual/markers.py
index 1410fa6..52136bb 100644
--- a/gsp_matplotlib/visual/markers.py
+++ b/gsp_matplotlib/visual/markers.py
@@ -65,6 +65,9 @@ class Markers(visual.Markers):
             self.paths.append(path)
 
 
+    # Tracking is disabled for newly created glm.ndarray (or else,
+    # this will create GSP buffers)
+    @glm.ndarray.untracked
     def render(self, viewport=None, model=None, view=None, proj=None):
 
         super().render(viewport, model, view, proj)
@@ -72,11 +75,6 @@ class Markers(visual.Markers):
         view = view if view is not None else self._view
         proj = proj if proj is not None else self._proj
 
-        # Disable tracking for newly created glm.ndarray (or else,
-        # this will create GSP buffers)
-        tracker = glm.ndarray.tracked.__tracker_class__
-        glm.ndarray.tracked.__tracker_class__ = None
-
         # Create the collection if necessary
         if viewport not in self._viewports:
             collection = viewport._axes.scatter([],[])
@@ -95,8 +93,6 @@ class Markers(visual.Markers):
         # render Such call is only used to declare that this visual is
         # to be rendered on that viewport.
         if self._transform is None:
-            # Restore tracking
-            glm.ndarray.tracked.__tracker_class__ = tracker
             return
 
         collection = self._viewports[viewport]
@@ -151,6 +147,3 @@ class Markers(visual.Markers):
             collection.set_sizes(sizes[sort_indices])
         else:
             collection.set_sizes([sizes]*len(positions))
-
-        # Restore tracking
-        glm.ndarray.tracked.__tracker_class__ = tracker
diff --git a/gsp_matplotlib/visual/paths.py b/gsp_matplotlib/visual/paths.py
index b1df20d..d2c69b0 100644
--- a/gsp_matplotlib/visual/paths.py
+++ b/gsp_matplotlib/visual/paths.py
@@ -28,6 +28,9 @@ class Paths(visual.Paths):
                          line_styles, line_joins, line_caps, __no_command__ = True)
 
 
+    # Tracking is disabled for newly created glm.ndarray (or else,
+    # this will create GSP buffers)
+    @glm.ndarray.untracked
     def render(self, viewport=None, model=None, view=None, proj=None):
 
         super().render(viewport, model, view, proj)
@@ -35,11 +38,6 @@ class Paths(visual.Paths):
         view = view if view is not None else self._view
         proj = proj if proj is not None else self._proj
 
-        # Disable tracking for newly created glm.ndarray (or else,
-        # this will create GSP buffers)
-        tracker = glm.ndarray.tracked.__tracker_class__
-        glm.ndarray.tracked.__tracker_class__ = None
-
 
         # 1. First things first, how many paths?
 
@@ -68,8 +66,6 @@ class Paths(visual.Paths):
         # render Such call is only used to declare that this visual is
         # to be rendered on that viewport.
         if self._transform is None:
-            # Restore tracking
-            glm.ndarray.tracked.__tracker_class__ = tracker
             return
 
         # Project positions onto screen
@@ -142,6 +138,3 @@ class Paths(visual.Paths):
         # Unique line width
         else:
             collection.set_linewidths(line_widths)
-
-        # Restore tracking
-        glm.ndarray.tracked.__tracker_class__ = tracker
diff --git a/gsp_matplotlib/visual/pixels.py b/gsp_matplotlib/visual/pixels.py
index fab47b4..3149db2 100644
--- a/gsp_matplotlib/visual/pixels.py
+++ b/gsp_matplotlib/visual/pixels.py
@@ -30,6 +30,9 @@ class Pixels(visual.Pixels):
         super().__init__(positions, colors, __no_command__ = True)
 
 
+    # Tracking is disabled for newly created glm.ndarray (or else,
+    # this will create GSP buffers)
+    @glm.ndarray.untracked
     def render(self, viewport, model=None, view=None, proj=None):
 
         super().render(viewport, model, view, proj)
@@ -37,11 +40,6 @@ class Pixels(visual.Pixels):
         view = view if view is not None else self._view
         proj = proj if proj is not None else self._proj
 
-        # Disable tracking for newly created glm.ndarray (or else,
-        # this will create GSP buffers)
-        tracker = glm.ndarray.tracked.__tracker_class__
-        glm.ndarray.tracked.__tracker_class__ = None
-
         # Create the collection if necessary
         if viewport not in self._viewports:
             size = 0.25*(72/viewport._canvas._dpi)**2
@@ -61,8 +59,6 @@ class Pixels(visual.Pixels):
         # render Such call is only used to declare that this visual is
         # to be rendered on that viewport.
         if self._transform is None:
-            # Restore tracking
-            glm.ndarray.tracked.__tracker_class__ = tracker
             return
 
         collection = self._viewports[viewport]
@@ -80,7 +76,3 @@ class Pixels(visual.Pixels):
                 collection.set_facecolors(colors[sort_indices])
             else:
                 collection.set_facecolors(colors)
-
-
-        # Restore tracking
-        glm.ndarray.tracked.__tracker_class__ = tracker
diff --git a/gsp_matplotlib/visual/points.py b/gsp_matplotlib/visual/points.py
index 57e9ac8..469aa23 100644
--- a/gsp_matplotlib/visual/points.py
+++ b/gsp_matplotlib/visual/points.py
@@ -25,6 +25,9 @@ class Points(visual.Points):
                          line_widths, __no_command__ = True)
 
 
+    # Tracking is disabled for newly created glm.ndarray (or else,
+    # this will create GSP buffers)
+    @glm.ndarray.untracked
     def render(self, viewport=None, model=None, view=None, proj=None):
 
         super().render(viewport, model, view, proj)
@@ -32,11 +35,6 @@ class Points(visual.Points):
         view = view if view is not None else self._view
         proj = proj if proj is not None else self._proj
 
-        # Disable tracking for newly created glm.ndarray (or else,
-        # this will create GSP buffers)
-        tracker = glm.ndarray.tracked.__tracker_class__
-        glm.ndarray.tracked.__tracker_class__ = None
-
         # Create the collection if necessary
         if viewport not in self._viewports:
             collection = viewport._axes.scatter([],[])
@@ -55,8 +53,6 @@ class Points(visual.Points):
         # render Such call is only used to declare that this visual is
         # to be rendered on that viewport.
         if self._transform is None:
-            # Restore tracking
-            glm.ndarray.tracked.__tracker_class__ = tracker
             return
 
         collection = self._viewports[viewport]
@@ -95,6 +91,3 @@ class Points(visual.Points):
             collection.set_sizes(sizes[sort_indices])
         else:
             collection.set_sizes([sizes]*len(positions))
-
-        # Restore tracking
-        glm.ndarray.tracked.__tracker_class__ = tracker
diff --git a/gsp_matplotlib/visual/polygons.py b/gsp_matplotlib/visual/polygons.py
index e0d737b..11366d8 100644
--- a/gsp_matplotlib/visual/polygons.py
+++ b/gsp_matplotlib/visual/polygons.py
@@ -28,6 +28,9 @@ class Polygons(visual.Polygons):
                          line_widths, line_styles, line_joins, __no_command__ = True)
 
 
+    # Tracking is disabled for newly created glm.ndarray (or else,
+    # this will create GSP buffers)
+    @glm.ndarray.untracked
     def render(self, viewport=None, model=None, view=None, proj=None):
 
         super().render(viewport, model, view, proj)
@@ -35,11 +38,6 @@ class Polygons(visual.Polygons):
         view = view if view is not None else self._view
         proj = proj if proj is not None else self._proj
 
-        # Disable tracking for newly created glm.ndarray (or else,
-        # this will create GSP buffers)
-        tracker = glm.ndarray.tracked.__tracker_class__
-        glm.ndarray.tracked.__tracker_class__ = None
-
 
         # 1. First things first, how many polygons?
 
@@ -64,8 +62,6 @@ class Polygons(visual.Polygons):
         # render Such call is only used to declare that this visual is
         # to be rendered on that viewport.
         if self._transform is None:
-            # Restore tracking
-            glm.ndarray.tracked.__tracker_class__ = tracker
             return
 
         # Project positions onto screen
@@ -153,6 +149,3 @@ class Polygons(visual.Polygons):
         # Unique line width
         else:
             collection.set_linewidths(line_widths)
-
-        # Restore tracking
-        glm.ndarray.tracked.__tracker_class__ = tracker
diff --git a/gsp_matplotlib/visual/segments.py b/gsp_matplotlib/visual/segments.py
index 95949b7..980fa45 100644
--- a/gsp_matplotlib/visual/segments.py
+++ b/gsp_matplotlib/visual/segments.py
@@ -26,6 +26,9 @@ class Segments(visual.Segments):
                          line_widths, __no_command__ = True)
 
 
+    # Tracking is disabled for newly created glm.ndarray (or else,
+    # this will create GSP buffers)
+    @glm.ndarray.untracked
     def render(self, viewport=None, model=None, view=None, proj=None):
 
         super().render(viewport, model, view, proj)
@@ -33,11 +36,6 @@ class Segments(visual.Segments):
         view = view if view is not None else self._view
         proj = proj if proj is not None else self._proj
 
-        # Disable tracking for newly created glm.ndarray (or else,
-        # this will create GSP buffers)
-        tracker = glm.ndarray.tracked.__tracker_class__
-        glm.ndarray.tracked.__tracker_class__ = None
-
         # Create the collection if necessary
         if viewport not in self._viewports:
             collection = LineCollection([], clip_on=True, snap=False, capstyle="round")
@@ -54,8 +52,6 @@ class Segments(visual.Segments):
         # render Such call is only used to declare that this visual is
         # to be rendered on that viewport.
         if self._transform is None:
-            # Restore tracking
-            glm.ndarray.tracked.__tracker_class__ = tracker
             return
 
         collection = self._viewports[viewport]
@@ -84,6 +80,3 @@ class Segments(visual.Segments):
             collection.set_linewidths(line_widths[sort_indices])
         else:
             collection.set_linewidths(line_widths)
-
-        # Restore tracking
-        glm.ndarray.tracked.__tracker_class__ = tracker
-- 
2.43.0


From b50f428854e03984766dd4c473fb7a327ebb4568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 35/83] fix: points, markers and pixels are drawn once

---
 gsp_matplotlib/visual/markers.py | 1 -
 gsp_matplotlib/visual/pixels.py  | 1 -
 gsp_matplotlib/visual/points.py  | 1 -
 3 files changed, 3 deletions(-)

diff --git a/gsp_matplotlib/visual/markers.py b/gsp_matplotlib/visual/markers.py
index 52136bb..efa6f72 100644
--- a/gsp_matplotlib/visual/markers.py
+++ b/gsp_matplotlib/visual/markers.py
@@ -81,7 +81,6 @@ class Markers(visual.Markers):
             collection.set_antialiaseds(True)
             collection.set_linewidths(0)
             self._viewports[viewport] = collection
-            viewport._axes.add_collection(collection, autolim=False)
 
             # This is necessary for measure transforms that need to be
             # kept up to date with canvas size
diff --git a/gsp_matplotlib/visual/pixels.py b/gsp_matplotlib/visual/pixels.py
index 3149db2..8bd455f 100644
--- a/gsp_matplotlib/visual/pixels.py
+++ b/gsp_matplotlib/visual/pixels.py
@@ -47,7 +47,6 @@ class Pixels(visual.Pixels):
             collection.set_antialiaseds(True)
             collection.set_linewidths(0)
             self._viewports[viewport] = collection
-            viewport._axes.add_collection(collection, autolim=False)
 
             # This is necessary for measure transforms that need to be
             # kept up to date with canvas size
diff --git a/gsp_matplotlib/visual/points.py b/gsp_matplotlib/visual/points.py
index 469aa23..f6b268f 100644
--- a/gsp_matplotlib/visual/points.py
+++ b/gsp_matplotlib/visual/points.py
@@ -41,7 +41,6 @@ class Points(visual.Points):
             collection.set_antialiaseds(True)
             collection.set_linewidths(0)
             self._viewports[viewport] = collection
-            viewport._axes.add_collection(collection, autolim=False)
 
             # This is necessary for measure transforms that need to be
             # kept up to date with canvas size
-- 
2.43.0


From d812fb6d42e6ecdba9f1da01fe4baba068486fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:56 +0000
Subject: [PATCH 36/83] fix: nearest pixels are drawn last

---
 gsp_matplotlib/visual/pixels.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsp_matplotlib/visual/pixels.py b/gsp_matplotlib/visual/pixels.py
index 8bd455f..f14e782 100644
--- a/gsp_matplotlib/visual/pixels.py
+++ b/gsp_matplotlib/visual/pixels.py
@@ -64,7 +64,8 @@ class Pixels(visual.Pixels):
         positions = self.eval_variable("positions")
         # positions = positions.reshape(-1,3)
         positions = glm.to_vec3(glm.to_vec4(positions) @ self._transform.T)
-        sort_indices = np.argsort(positions[:,2])
+        # Farthest pixels are drawn first
+        sort_indices = np.argsort(-positions[:,2])
         collection.set_offsets(positions[sort_indices,:2])
 
         self.set_variable("screen[positions]", positions)
-- 
2.43.0


From b7857beb52c32a5eeb163d8f4b79ab3c33460268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:56 +0000
Subject: [PATCH 37/83] fix: points, markers and segments accept vec2 positions

---
 gsp_matplotlib/visual/markers.py  | 2 +-
 gsp_matplotlib/visual/pixels.py   | 2 +-
 gsp_matplotlib/visual/points.py   | 2 +-
 gsp_matplotlib/visual/segments.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gsp_matplotlib/visual/markers.py b/gsp_matplotlib/visual/markers.py
index efa6f72..25bcea6 100644
--- a/gsp_matplotlib/visual/markers.py
+++ b/gsp_matplotlib/visual/markers.py
@@ -96,7 +96,7 @@ class Markers(visual.Markers):
 
         collection = self._viewports[viewport]
         positions = self.eval_variable("positions")
-        positions = positions.reshape(-1,3)
+        positions = positions.reshape(-1,positions.shape[-1])
 
         axis = self.eval_variable("axis")
         types = self.eval_variable("types")
diff --git a/gsp_matplotlib/visual/pixels.py b/gsp_matplotlib/visual/pixels.py
index f14e782..721aa37 100644
--- a/gsp_matplotlib/visual/pixels.py
+++ b/gsp_matplotlib/visual/pixels.py
@@ -62,7 +62,7 @@ class Pixels(visual.Pixels):
 
         collection = self._viewports[viewport]
         positions = self.eval_variable("positions")
-        # positions = positions.reshape(-1,3)
+        positions = positions.reshape(-1,positions.shape[-1])
         positions = glm.to_vec3(glm.to_vec4(positions) @ self._transform.T)
         # Farthest pixels are drawn first
         sort_indices = np.argsort(-positions[:,2])
diff --git a/gsp_matplotlib/visual/points.py b/gsp_matplotlib/visual/points.py
index f6b268f..2e0a653 100644
--- a/gsp_matplotlib/visual/points.py
+++ b/gsp_matplotlib/visual/points.py
@@ -56,7 +56,7 @@ class Points(visual.Points):
 
         collection = self._viewports[viewport]
         positions = self.eval_variable("positions")
-        positions = positions.reshape(-1,3)
+        positions = positions.reshape(-1,positions.shape[-1])
         positions = glm.to_vec3(glm.to_vec4(positions) @ self._transform.T)
 
         # Invert depth buffer values before sorting
diff --git a/gsp_matplotlib/visual/segments.py b/gsp_matplotlib/visual/segments.py
index 980fa45..608be19 100644
--- a/gsp_matplotlib/visual/segments.py
+++ b/gsp_matplotlib/visual/segments.py
@@ -56,7 +56,7 @@ class Segments(visual.Segments):
 
         collection = self._viewports[viewport]
         positions = self.eval_variable("positions")
-        positions = positions.reshape(-1,3)
+        positions = positions.reshape(-1,positions.shape[-1])
         positions = glm.to_vec3(glm.to_vec4(positions) @ self._transform.T)
         positions = positions.reshape(-1,2,3)
 
-- 
2.43.0


From b7ebde096cb111189b6716dd5726cbf605154a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 38/83] fix: a constant color applies to all items whatever
 their number

---
 gsp_matplotlib/visual/markers.py  | 4 ++--
 gsp_matplotlib/visual/paths.py    | 2 +-
 gsp_matplotlib/visual/pixels.py   | 2 +-
 gsp_matplotlib/visual/points.py   | 4 ++--
 gsp_matplotlib/visual/polygons.py | 4 ++--
 gsp_matplotlib/visual/segments.py | 2 +-
 6 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/gsp_matplotlib/visual/markers.py b/gsp_matplotlib/visual/markers.py
index 25bcea6..9329de7 100644
--- a/gsp_matplotlib/visual/markers.py
+++ b/gsp_matplotlib/visual/markers.py
@@ -124,13 +124,13 @@ class Markers(visual.Markers):
         collection.set_offsets(positions[sort_indices,:2])
 
         fill_colors = self.eval_variable("fill_colors")
-        if isinstance(fill_colors, np.ndarray) and (len(fill_colors) == len(positions)):
+        if isinstance(fill_colors, np.ndarray) and fill_colors.ndim > 1 and len(fill_colors) == len(positions):
             collection.set_facecolors(fill_colors[sort_indices])
         else:
             collection.set_facecolors(fill_colors)
 
         line_colors = self.eval_variable("line_colors")
-        if isinstance(line_colors, np.ndarray) and (len(line_colors) == len(positions)):
+        if isinstance(line_colors, np.ndarray) and line_colors.ndim > 1 and len(line_colors) == len(positions):
             collection.set_edgecolors(line_colors[sort_indices])
         else:
             collection.set_edgecolors(line_colors)
diff --git a/gsp_matplotlib/visual/paths.py b/gsp_matplotlib/visual/paths.py
index d2c69b0..aecb22b 100644
--- a/gsp_matplotlib/visual/paths.py
+++ b/gsp_matplotlib/visual/paths.py
@@ -111,7 +111,7 @@ class Paths(visual.Paths):
 
         # Line colors
         line_colors = self.eval_variable("line_colors")
-        if isinstance(line_colors, np.ndarray):
+        if isinstance(line_colors, np.ndarray) and line_colors.ndim > 1:
             # Number of color == number of paths
             if len(line_colors) == len(paths):
                 collection.set_edgecolors(line_colors[sort_indices])
diff --git a/gsp_matplotlib/visual/pixels.py b/gsp_matplotlib/visual/pixels.py
index 721aa37..d341cf7 100644
--- a/gsp_matplotlib/visual/pixels.py
+++ b/gsp_matplotlib/visual/pixels.py
@@ -72,7 +72,7 @@ class Pixels(visual.Pixels):
 
         colors = self.eval_variable("colors")
         if colors is not None:
-            if isinstance(colors, np.ndarray) and len(colors) == len(positions):
+            if isinstance(colors, np.ndarray) and colors.ndim > 1 and len(colors) == len(positions):
                 collection.set_facecolors(colors[sort_indices])
             else:
                 collection.set_facecolors(colors)
diff --git a/gsp_matplotlib/visual/points.py b/gsp_matplotlib/visual/points.py
index 2e0a653..5a1d38f 100644
--- a/gsp_matplotlib/visual/points.py
+++ b/gsp_matplotlib/visual/points.py
@@ -68,13 +68,13 @@ class Points(visual.Points):
 
 
         fill_colors = self.eval_variable("fill_colors")
-        if isinstance(fill_colors, np.ndarray) and (len(fill_colors) == len(positions)):
+        if isinstance(fill_colors, np.ndarray) and fill_colors.ndim > 1 and len(fill_colors) == len(positions):
             collection.set_facecolors(fill_colors[sort_indices])
         else:
             collection.set_facecolors(fill_colors)
 
         line_colors = self.eval_variable("line_colors")
-        if isinstance(line_colors, np.ndarray) and (len(line_colors) == len(positions)):
+        if isinstance(line_colors, np.ndarray) and line_colors.ndim > 1 and len(line_colors) == len(positions):
             collection.set_edgecolors(line_colors[sort_indices])
         else:
             collection.set_edgecolors(line_colors)
diff --git a/gsp_matplotlib/visual/polygons.py b/gsp_matplotlib/visual/polygons.py
index 11366d8..7d704da 100644
--- a/gsp_matplotlib/visual/polygons.py
+++ b/gsp_matplotlib/visual/polygons.py
@@ -107,7 +107,7 @@ class Polygons(visual.Polygons):
 
         # Fil colors
         fill_colors = self.eval_variable("fill_colors")
-        if isinstance(fill_colors, np.ndarray):
+        if isinstance(fill_colors, np.ndarray) and fill_colors.ndim > 1:
             # Number of color == number of polygons
             if len(fill_colors) == len(polygons):
                 collection.set_facecolors(fill_colors[sort_indices])
@@ -122,7 +122,7 @@ class Polygons(visual.Polygons):
 
         # Line colors
         line_colors = self.eval_variable("line_colors")
-        if isinstance(line_colors, np.ndarray):
+        if isinstance(line_colors, np.ndarray) and line_colors.ndim > 1:
             # Number of color == number of polygons
             if len(line_colors) == len(polygons):
                 collection.set_edgecolors(line_colors[sort_indices])
diff --git a/gsp_matplotlib/visual/segments.py b/gsp_matplotlib/visual/segments.py
index 608be19..828ed68 100644
--- a/gsp_matplotlib/visual/segments.py
+++ b/gsp_matplotlib/visual/segments.py
@@ -70,7 +70,7 @@ class Segments(visual.Segments):
         self.set_variable("screen[segments]", depth)
 
         line_colors = self.eval_variable("line_colors")
-        if isinstance(line_colors, np.ndarray) and (len(line_colors) == len(positions)):
+        if isinstance(line_colors, np.ndarray) and line_colors.ndim > 1 and len(line_colors) == len(positions):
             collection.set_edgecolors(line_colors[sort_indices])
         else:
             collection.set_edgecolors(line_colors)
-- 
2.43.0


From 22c73d2907b078a1d0d669d1378df19b687715a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 39/83] fix: markers positions can be a buffer or a transform
 whatever the axis

---
 gsp_matplotlib/visual/markers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsp_matplotlib/visual/markers.py b/gsp_matplotlib/visual/markers.py
index 9329de7..6a2d92a 100644
--- a/gsp_matplotlib/visual/markers.py
+++ b/gsp_matplotlib/visual/markers.py
@@ -27,7 +27,8 @@ class Markers(visual.Markers):
         super().__init__(positions, types, sizes, axis, angles,
                          fill_colors, line_colors, line_widths,
                          __no_command__ = True)
-        self.generate_markers(positions)
+        # Markers are generated when rendering
+        self.paths = []
 
     def generate_markers(self, positions):
         """ Generate path for markers at given positions."""
-- 
2.43.0


From e45a687c24093df797983ccc32e7eeae015802a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:29 +0000
Subject: [PATCH 40/83] fix: the raster of a canvas has the size of the canvas,
 whatever its dpi and after a resize

---
 gsp_matplotlib/core/canvas.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/gsp_matplotlib/core/canvas.py b/gsp_matplotlib/core/canvas.py
index 17ce1dd..1904b0f 100644
--- a/gsp_matplotlib/core/canvas.py
+++ b/gsp_matplotlib/core/canvas.py
@@ -30,8 +30,14 @@ class Canvas(core.Canvas):
 
         self._figure = plt.figure(frameon=False, dpi=self._dpi)
         self._figure.patch.set_alpha(0.0)
-        self._figure.set_size_inches(self._width / self._dpi,
-                                     self._height /self._dpi)
+
+        # Make sure the actual size in pixels is not rounded down to a
+        # smaller size
+        size = np.array([self._width, self._height])
+        inches = size / self._dpi
+        inches = np.where((inches * self._dpi).astype(int) < size.astype(int),
+                          np.nextafter(inches, np.inf), inches)
+        self._figure.set_size_inches(*inches)
 
         canvas = self._figure.canvas
         canvas.mpl_connect('resize_event', lambda event: self._figure.canvas.draw())
@@ -49,9 +55,11 @@ class Canvas(core.Canvas):
         if target is None:
             self._figure.canvas.draw()
             with io.BytesIO() as output:
-                self._figure.savefig(output, format="raw")
+                self._figure.savefig(output, format="raw", dpi=self._dpi)
                 output.seek(0)
                 data = np.frombuffer(output.getvalue(), dtype=np.uint8)
-            return data.reshape(self._height, self._width, -1)
+            # The canvas might have been resized since its creation
+            width, height = self.size.astype(int)
+            return data.reshape(height, width, -1)
         else:
             self._figure.savefig(target, dpi=self._dpi)
-- 
2.43.0


From da70d6e25400ef95ed3ed60f48cca6139910c70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:29 +0000
Subject: [PATCH 41/83] fix: a viewport without size occupies the whole canvas,
 even measured or resized

---
 gsp_matplotlib/core/viewport.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gsp_matplotlib/core/viewport.py b/gsp_matplotlib/core/viewport.py
index 55b224b..59c6d9f 100644
--- a/gsp_matplotlib/core/viewport.py
+++ b/gsp_matplotlib/core/viewport.py
@@ -22,8 +22,9 @@ class Viewport(core.Viewport):
         super().__init__(canvas, x, y, width, height, color)
 
         self._canvas = canvas
-        width = width or canvas._width
-        height = height or canvas._height
+        # No size means the whole canvas
+        width = width or 1.0
+        height = height or 1.0
         self._color = color
         self._extent = x, y, width, height
         self._axes = canvas._figure.add_axes([0,0,1,1])
-- 
2.43.0


From 3b6cf6c538d9700c70079d7eb4b836c2fa9c7e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:18 +0000
Subject: [PATCH 42/83] fix: a visual keeps the matrices of each of its
 viewports

---
 gsp/visual/visual.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gsp/visual/visual.py b/gsp/visual/visual.py
index 31c19dc..11422cd 100644
--- a/gsp/visual/visual.py
+++ b/gsp/visual/visual.py
@@ -22,6 +22,7 @@ class Visual(Object):
         self._in_variables = { }
         self._out_variables = { }
         self._viewports = {}
+        self._matrices = {}
         self._model = np.eye(4)
         self._view = np.eye(4)
         self._proj = np.eye(4)
@@ -107,13 +108,17 @@ class Visual(Object):
             Projection matrix to use for rendering
         """
 
-        # We store the model/view/proj matrices for resize events
+        # We store the model/view/proj matrices for resize events. Each
+        # viewport has its own.
+        if viewport in self._matrices:
+            self._model, self._view, self._proj = self._matrices[viewport]
         if model is not None:
             self._model = np.asarray(model)
         if view is not None:
             self._view = np.asarray(view)
         if proj is not None:
             self._proj = np.asarray(proj)
+        self._matrices[viewport] = self._model, self._view, self._proj
 
         try:
             self._transform = self._proj @ self._view @ self._model
-- 
2.43.0


From b524c437ca8b2d99213eac1a777573134c61571e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:39 +0000
Subject: [PATCH 43/83] fix: a save that fails while writing keeps the earlier
 file

---
 gsp/io/json.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/gsp/io/json.py b/gsp/io/json.py
index 433d2c3..6502ba3 100644
--- a/gsp/io/json.py
+++ b/gsp/io/json.py
@@ -2,9 +2,11 @@
 # Authors: Nicolas P .Rougier <nicolas.rougier@gmail.com>
 # License: BSD 3 clause
 import io
+import os
 import sys
 import json
 import base64
+import shutil
 import numpy as np
 from gsp.object import Object
 from . command import CommandQueue, Command
@@ -74,8 +76,23 @@ def dump(queue=None, filename=None):
     else:
         # Encode first such that a failure does not destroy an existing file
         content = json.dumps(payload, default=default)
-        with open(filename, "w") as stream:
-            stream.write(content)
+        if not os.path.isfile(filename):
+            with open(filename, "w") as stream:
+                stream.write(content)
+            return
+
+        # Write aside such that a failure while writing does not either
+        target = os.path.realpath(filename)
+        temporary = target + ".tmp"
+        try:
+            with open(temporary, "w") as stream:
+                stream.write(content)
+            shutil.copymode(target, temporary)
+            os.replace(temporary, target)
+        except BaseException:
+            if os.path.exists(temporary):
+                os.remove(temporary)
+            raise
 
 
 def save(filename, queue = None ):
-- 
2.43.0


From c7b99967e8fd225b0f77ff5bbb932997f37e2c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:18 +0000
Subject: [PATCH 44/83] fix: a value is converted by the converters of all its
 bases

---
 gsp/io/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp/io/convert.py b/gsp/io/convert.py
index 07e0e3c..96c4195 100644
--- a/gsp/io/convert.py
+++ b/gsp/io/convert.py
@@ -113,7 +113,7 @@ def get_converter(value : object,
         return converter
 
     # Get converter from bases
-    for base in value.__class__.__bases__:
+    for base in value.__class__.__mro__[1:]:
         src_type = base.__name__
         converter = is_registered(src_type, dst_type)
         if converter:
-- 
2.43.0


From 1ca416f0c25b523a769794a282e6891b375eb3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:25 +0000
Subject: [PATCH 45/83] fix: assignments through zero-dimensional views of
 tracked arrays

---
 gsp_matplotlib/glm/ndarray/tracked.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/gsp_matplotlib/glm/ndarray/tracked.py b/gsp_matplotlib/glm/ndarray/tracked.py
index 6f64800..8ce7592 100644
--- a/gsp_matplotlib/glm/ndarray/tracked.py
+++ b/gsp_matplotlib/glm/ndarray/tracked.py
@@ -148,10 +148,9 @@ class tracked(np.ndarray):
         if Z.shape == ():
             # A scalar does not tell where it comes from, the ellipsis makes
             # it a (zero-dimensional) view.
-            if not isinstance(key, tuple):
-                key = (key,)
-            if not isinstance(key[0], str) and Ellipsis not in key:
-                Z = np.ndarray.__getitem__(self, key + (Ellipsis,))
+            index = key if isinstance(key, tuple) else (key,)
+            if not any(k is Ellipsis or isinstance(k, str) for k in index):
+                Z = np.ndarray.__getitem__(self, index + (Ellipsis,))
             extents = self._compute_extents(Z)
 
         # Test for fancy indexing
-- 
2.43.0


From f4ab06d208685e9bf8c6fcd6fb73e63652dd168e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:49 +0000
Subject: [PATCH 46/83] fix: clearing a view of a view clears the dirty region
 of the array

---
 gsp_matplotlib/glm/ndarray/tracked.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp_matplotlib/glm/ndarray/tracked.py b/gsp_matplotlib/glm/ndarray/tracked.py
index 8ce7592..4490157 100644
--- a/gsp_matplotlib/glm/ndarray/tracked.py
+++ b/gsp_matplotlib/glm/ndarray/tracked.py
@@ -78,7 +78,7 @@ class tracked(np.ndarray):
         """ Clear dirty region"""
 
         if isinstance(self.base, tracked):
-            self.base._dirty = None
+            self.base.clear()
         elif self._dirty:
             self._dirty = None
 
-- 
2.43.0


From 2f03b1541192b702b59eacc04273bd54f9ac445d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:24 +0000
Subject: [PATCH 47/83] fix: arrays whose memory is not contiguous can be read
 back from their buffer

---
 gsp_matplotlib/core/buffer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gsp_matplotlib/core/buffer.py b/gsp_matplotlib/core/buffer.py
index d5f6700..54dd2cc 100644
--- a/gsp_matplotlib/core/buffer.py
+++ b/gsp_matplotlib/core/buffer.py
@@ -50,7 +50,10 @@ class Buffer(core.Buffer):
     def __array__(self):
         if self._array is None:
             if self._data is not None and self._count > 0:
-                self._array = np.frombuffer(self._data, self._dtype)
+                data = self._data
+                if isinstance(data, memoryview) and not data.c_contiguous:
+                    data = data.tobytes()
+                self._array = np.frombuffer(data, self._dtype)
             else:
                 self._array = np.empty(self._count, self._dtype)
         return self._array
-- 
2.43.0


From 30663c18f94426213c8fa8509c9152c788fbdefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:01 +0000
Subject: [PATCH 48/83] fix: components of vectors are assigned whatever the
 number of vectors

---
 gsp_matplotlib/glm/ndarray/swizzle.py | 39 +++++++++++++++++++--------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/gsp_matplotlib/glm/ndarray/swizzle.py b/gsp_matplotlib/glm/ndarray/swizzle.py
index 3eb6d82..43b7f1d 100644
--- a/gsp_matplotlib/glm/ndarray/swizzle.py
+++ b/gsp_matplotlib/glm/ndarray/swizzle.py
@@ -34,32 +34,49 @@ class swizzle(tracked):
 
         for swizzle in self.swizzle:
             if set(key).issubset(set(swizzle)):
-                value = np.asarray(value)
-                shape = value.shape
                 indices = [swizzle.index(c) for c in key]
+                items = self.shape[:-1]
+                count = int(np.prod(items))
+
+                def per_item(value):
+                    # Copied because it may be a view of this very array
+                    value = np.array(value)
+                    return value.reshape(items) if value.size == count else value
+
+                # Z.xy = 1,2  or  Z.xy = np.ones(10), np.ones(10)
+                if isinstance(value, (tuple, list)) and len(value) == len(key):
+                    values = [per_item(v) for v in value]
+                    for index, v in zip(indices, values):
+                        self[..., index] = v
+                    break
+
+                value = np.array(value)
+                shape = value.shape
 
                 # Z.xy = 1
                 if not len(shape):
                     for index in indices:
                         self[..., index] = value
                     break
+                # Z.xy = np.ones(10,2)
+                elif shape == items + (len(key),):
+                    for src_index, tgt_index in enumerate(indices):
+                        self[..., tgt_index] = value[..., src_index]
+                    break
                 # Z.xy = np.ones(10)
-                elif len(self) == value.size: # shape[-1] == 1:
+                elif value.size == count: # shape[-1] == 1:
                     for index in indices:
-                        self[..., index] = np.squeeze(value)
+                        self[..., index] = per_item(value)
                     break
-                # Z.xy = np.ones(10), np.ones(10)
+                # Z.xy = np.array([np.ones(10), np.ones(10)])
                 elif len(key) == len(value):
                     for src_index, tgt_index in enumerate(indices):
                         self[..., tgt_index] = value[src_index]
                     break
-                # Z.xy = np.ones(10,2)
+                # Z.xy = np.ones(1,2)
                 elif shape[-1] == len(key):
-                    for tgt_index, src_index in enumerate(indices):
-                        if self[...,src_index].size == value[...,tgt_index].size:
-                            self[...,src_index] = value[...,tgt_index].reshape(self[...,src_index].shape)
-                        else:
-                            self[...,src_index] = value[...,tgt_index]
+                    for src_index, tgt_index in enumerate(indices):
+                        self[..., tgt_index] = per_item(value[..., src_index])
                     break
                 else:
                     raise IndexError
-- 
2.43.0


From 0ab0259466946c34b2012a2fc889ade5f37ab6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:26 +0000
Subject: [PATCH 49/83] fix: integer vectors with four components can be
 converted to vec2

---
 gsp_matplotlib/glm/vec234.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gsp_matplotlib/glm/vec234.py b/gsp_matplotlib/glm/vec234.py
index 82985c0..45b54ae 100644
--- a/gsp_matplotlib/glm/vec234.py
+++ b/gsp_matplotlib/glm/vec234.py
@@ -61,13 +61,14 @@ def to_vec2(other, dtype  = None):
         return _V
     elif len(V.shape) == 2:
         _V = ndarray.vec2(len(V), dtype)
-        _V[...] = V[:,:2]
         if V.shape[1] == 2:
+            _V[...] = V
             return _V
         elif V.shape[1] == 3:
+            _V[...] = V[:,:2]
             return _V
         elif V.shape[1] == 4:
-            _V /= V[:,3, np.newaxis]
+            _V[...] = V[:,:2] / V[:,3, np.newaxis]
             return _V
 
     raise TypeError("Cannot convert %s to vec2" % other)
-- 
2.43.0


From 874fd3340420be5291bf1dd0d107c146cc56a499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:47 +0000
Subject: [PATCH 50/83] fix: orthographic and frustum matrices of asymmetric
 volumes

---
 gsp_matplotlib/glm/glm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsp_matplotlib/glm/glm.py b/gsp_matplotlib/glm/glm.py
index ceaa163..835548c 100644
--- a/gsp_matplotlib/glm/glm.py
+++ b/gsp_matplotlib/glm/glm.py
@@ -131,7 +131,7 @@ def frustum(left, right, bottom, top, znear, zfar, dtype=np.float32, transpose=F
     M[1, 1] = +2.0 * znear / (top - bottom)
     M[2, 2] = -(zfar + znear) / (zfar - znear)
     M[0, 2] = (right + left) / (right - left)
-    M[2, 1] = (top + bottom) / (top - bottom)
+    M[1, 2] = (top + bottom) / (top - bottom)
     M[2, 3] = -2.0 * znear * zfar / (zfar - znear)
     M[3, 2] = -1.0
 
@@ -213,7 +213,7 @@ def ortho(left, right, bottom, top, znear, zfar, dtype=np.float32, transpose=Fal
     M[1, 1] = +2.0 / (top - bottom)
     M[2, 2] = -2.0 / (zfar - znear)
     M[3, 3] = 1.0
-    M[0, 2] = -(right + left) / float(right - left)
+    M[0, 3] = -(right + left) / float(right - left)
     M[1, 3] = -(top + bottom) / float(top - bottom)
     M[2, 3] = -(zfar + znear) / float(zfar - znear)
 
-- 
2.43.0


From 5972666d45516338e68e449dca5d9695b8b2100b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:47 +0000
Subject: [PATCH 51/83] fix: lookat honours its transpose option

---
 gsp_matplotlib/glm/glm.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gsp_matplotlib/glm/glm.py b/gsp_matplotlib/glm/glm.py
index 835548c..d5d0f74 100644
--- a/gsp_matplotlib/glm/glm.py
+++ b/gsp_matplotlib/glm/glm.py
@@ -257,12 +257,17 @@ def lookat(eye=(0,0,4.5), center=(0,0,0), up=(0,0,1), dtype=np.float32, transpos
     Y = up
     X = normalize(np.cross(Y, Z))
     Y = normalize(np.cross(Z, X))
-    return np.array([
+    M = np.array([
         [X[0], X[1], X[2], -np.dot(X, eye)],
         [Y[0], Y[1], Y[2], -np.dot(Y, eye)],
         [Z[0], Z[1], Z[2], -np.dot(Z, eye)],
         [0, 0, 0, 1]], dtype=dtype)
 
+    if transpose:
+        return np.transpose(M)
+    else:
+        return M
+
 
 def scale(scale, dtype=np.float32, transpose=False):
     """Non-uniform scaling along the x, y, and z axes
-- 
2.43.0


From ad3f97c6a433dd5e43e9ac70705a97e5687e78f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:47 +0000
Subject: [PATCH 52/83] fix: vertices can be fitted and centered

---
 gsp_matplotlib/glm/glm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsp_matplotlib/glm/glm.py b/gsp_matplotlib/glm/glm.py
index d5d0f74..dc711a2 100644
--- a/gsp_matplotlib/glm/glm.py
+++ b/gsp_matplotlib/glm/glm.py
@@ -315,7 +315,7 @@ def fit(vertices):
     vmin = vertices.min(axis=0)
     vmax = vertices.max(axis=0)
     # return 2*(vertices-vmin) / max(vmax-vmin)-1
-    V = 2*(vertices - Vmin) / max(Vmax-Vmin) - 1
+    V = 2*(vertices - vmin) / max(vmax-vmin) - 1
     return  V - (V.min(axis=0) + V.max(axis=0))/2
 
 
@@ -365,7 +365,7 @@ def center(vertices):
 
     vmin = vertices.min(axis=0)
     vmax = vertices.max(axis=0)
-    return V - (vmax+vmin)/2
+    return vertices - (vmax+vmin)/2
 
 
 def xrotate(theta=0, dtype=np.float32, transpose=False):
-- 
2.43.0


From c1084ace829307903fd17db00cea9889aa525d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:47 +0000
Subject: [PATCH 53/83] fix: arguments of the camera matrices

---
 gsp_matplotlib/glm/glm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsp_matplotlib/glm/glm.py b/gsp_matplotlib/glm/glm.py
index dc711a2..5c9f137 100644
--- a/gsp_matplotlib/glm/glm.py
+++ b/gsp_matplotlib/glm/glm.py
@@ -568,8 +568,8 @@ def camera(xrotation=25, yrotation=45, zoom=1, mode="perspective"):
     xrotation = min(max(xrotation, 0), 90)
     yrotation = min(max(yrotation, 0), 90)
     zoom = max(0.1, zoom)
-    model = scale(zoom,zoom,zoom) @ xrotate(xrotation) @ yrotate(yrotation)
-    view  = translate(0, 0, -4.5)
+    model = scale((zoom,zoom,zoom)) @ xrotate(xrotation) @ yrotate(yrotation)
+    view  = translate((0, 0, -4.5))
     if mode == "ortho":
         proj  = ortho(-1, +1, -1, +1, 1, 100)
     else:
-- 
2.43.0


From 6a2870d8f2239230d0d5f47c8e4734074c998f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:47 +0000
Subject: [PATCH 54/83] fix: parallel and opposite directions can be aligned

---
 gsp_matplotlib/glm/glm.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/gsp_matplotlib/glm/glm.py b/gsp_matplotlib/glm/glm.py
index 5c9f137..0ce3daa 100644
--- a/gsp_matplotlib/glm/glm.py
+++ b/gsp_matplotlib/glm/glm.py
@@ -536,7 +536,15 @@ def align(U, V, dtype=np.float32, transpose=False):
                   [ v[2],   0, -v[0]],
                   [-v[1], v[0],   0]])
     R = np.zeros((4,4), dtype=dtype)
-    R[:3, :3] = np.eye(3) + K + K@K * ((1 - c) / (s ** 2))
+    if s > 1e-6:
+        R[:3, :3] = np.eye(3) + K + K@K * ((1 - c) / (s ** 2))
+    elif c > 0:
+        # Same direction
+        R[:3, :3] = np.eye(3) + K
+    else:
+        # Opposite directions: half-turn around any orthogonal axis
+        axis = normalize(np.cross(a, np.eye(3)[np.argmin(np.abs(a))]))
+        R[:3, :3] = (np.eye(3) - K) @ (2 * np.outer(axis, axis) - np.eye(3))
     R[3, 3] = 1
 
     if transpose:
-- 
2.43.0


From 8f138a2dde0ff530a05b499f54f09fc9fc1078a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:58 +0000
Subject: [PATCH 55/83] fix: any selection of items of a partitioned list can
 be read and written, negative sizes are refused

---
 gsp_matplotlib/glm/ndarray/ragged.py | 61 +++++++++++++++++-----------
 1 file changed, 38 insertions(+), 23 deletions(-)

diff --git a/gsp_matplotlib/glm/ndarray/ragged.py b/gsp_matplotlib/glm/ndarray/ragged.py
index 01fdeb7..92c6d6f 100644
--- a/gsp_matplotlib/glm/ndarray/ragged.py
+++ b/gsp_matplotlib/glm/ndarray/ragged.py
@@ -73,12 +73,12 @@ class ragged:
             itemsize = len(data)
 
         if isinstance(itemsize, int):
-            if (len(data) % itemsize) != 0:
+            if itemsize <= 0 or (len(data) % itemsize) != 0:
                 raise ValueError("Cannot partition data as requested")
             count = len(data) // itemsize
-            itemsize = np.ones(count, dtype=int) * (len(data) // count)
+            itemsize = np.ones(count, dtype=int) * itemsize
         else:
-            if np.sum(itemsize) != len(data):
+            if np.sum(itemsize) != len(data) or np.any(np.less(itemsize, 0)):
                 raise ValueError("Cannot partition data as requested")
             count = len(itemsize)
 
@@ -91,33 +91,48 @@ class ragged:
         self._items[0:, 1] += C
 
 
+    def _runs(self, key):
+        """ Items designated by key, as (start,stop) in data """
+
+        if isinstance(key, (list, tuple)):
+            return np.array([self._items[k] for k in key], dtype=int).reshape(-1,2)
+        return self._items[key].reshape(-1,2)
+
+    def _contiguous(self, runs):
+        """ Data range (slice) of runs, None if they're not consecutive """
+
+        if not len(runs):
+            return slice(0, 0)
+        if np.array_equal(runs[1:,0], runs[:-1,1]):
+            return slice(runs[0,0], runs[-1,1])
+        return None
+
     def __getitem__(self, key):
         """ x.__getitem__(y) <==> x[y] """
 
-        if isinstance(key, (list, tuple)):
-            indices = []
-            for k in key:
-                start,stop = self._items[k]
-                indices.extend(list(range(start,stop)))
-            return self._data[indices]
-        else:
-            indices = self._items[key]
-            start, stop = indices.min(), indices.max()
-            return self._data[start:stop]
+        runs = self._runs(key)
+        if not isinstance(key, (list, tuple)):
+            region = self._contiguous(runs)
+            if region is not None:
+                return self._data[region]
+        indices = [i for start,stop in runs for i in range(start,stop)]
+        return self._data[indices]
 
     def __setitem__(self, key, value):
         """ x.__setitem__(y, v) <==> x[y] = v"""
 
-        if isinstance(key, (list, tuple)):
-            indices = []
-            for k in key:
-                start,stop = self._items[k]
-                indices.extend(list(range(start,stop)))
-            self._data[indices] = value
-        else:
-            indices = self._items[key]
-            start, stop = indices.min(), indices.max()
-            self._data[start:stop] = value
+        runs = self._runs(key)
+        region = self._contiguous(runs)
+        if region is not None:
+            self._data[region] = value
+            return
+        # Not all arrays can be assigned through a list of indices
+        count = (runs[:,1] - runs[:,0]).sum()
+        value = np.broadcast_to(np.array(value, dtype=self.dtype), (count,) + self._data.shape[1:])
+        index = 0
+        for start,stop in runs:
+            self._data[start:stop] = value[index:index+stop-start]
+            index += stop-start
 
 
     @property
-- 
2.43.0


From 12672bae9877144862edde7a777714e731356b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:45 +0000
Subject: [PATCH 56/83] fix: trackball angles read back as they were set,
 whatever their quadrant and after a drag

---
 gsp_matplotlib/glm/trackball.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gsp_matplotlib/glm/trackball.py b/gsp_matplotlib/glm/trackball.py
index 33a6901..d1c03b2 100644
--- a/gsp_matplotlib/glm/trackball.py
+++ b/gsp_matplotlib/glm/trackball.py
@@ -174,7 +174,7 @@ class Trackball(object):
     @theta.setter
     def theta(self, theta):
         self._set_orientation(math.fmod(theta,360.0),
-                              math.fmod(self._phi,360.0))
+                              math.fmod(self.phi,360.0))
 
     @property
     def phi(self):
@@ -184,7 +184,7 @@ class Trackball(object):
 
     @phi.setter
     def phi(self, phi):
-        self._set_orientation(math.fmod(self._theta,360.),
+        self._set_orientation(math.fmod(self.theta,360.),
                               math.fmod(phi,360.0))
 
 
@@ -192,9 +192,9 @@ class Trackball(object):
         ''' Return current computed orientation (theta,phi). '''
 
         q0,q1,q2,q3 = self._rotation
-        ax = math.atan(2*(q0*q1+q2*q3)/(1-2*(q1*q1+q2*q2)))*180.0/math.pi
-        az = math.atan(2*(q0*q3+q1*q2)/(1-2*(q2*q2+q3*q3)))*180.0/math.pi
-        return -az,ax
+        ax = math.atan2(2*(q0*q1+q2*q3), 1-2*(q1*q1+q2*q2))*180.0/math.pi
+        az = math.atan2(2*(q0*q3+q1*q2), 2*(q2*q2+q3*q3)-1)*180.0/math.pi
+        return az,ax
 
     def _set_orientation(self, theta, phi):
         ''' Computes rotation corresponding to theta and phi. '''
-- 
2.43.0


From 445a27816a202c0c8e05048733d6d8fa1f7c5ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:14 +0000
Subject: [PATCH 57/83] fix: the icosahedron can be generated

---
 gsp_matplotlib/glm/shapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp_matplotlib/glm/shapes.py b/gsp_matplotlib/glm/shapes.py
index 19d951a..eae99fd 100644
--- a/gsp_matplotlib/glm/shapes.py
+++ b/gsp_matplotlib/glm/shapes.py
@@ -105,5 +105,5 @@ def icosahedron():
               [3, 9, 4], [3, 4, 2], [3, 2, 6], [3, 6, 8], [3, 8, 9],
               [4, 9, 5], [2, 4, 11], [6, 2, 10], [8, 6, 7], [9, 8, 1] ]
     verts = np.array(verts, dtype=np.float32)/np.sqrt(a+2)/2
-    faces = np.array(faces, dtype=uint32)
+    faces = np.array(faces, dtype=np.uint32)
     return verts, faces
-- 
2.43.0


From 727f4744ce06f190aa0a460d323a5f23ecd028a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:14 +0000
Subject: [PATCH 58/83] fix: an accessor evaluates on a transform given as its
 buffer and without variables

---
 gsp/transform/accessor.py  |  2 +-
 gsp/transform/transform.py | 12 ++++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/gsp/transform/accessor.py b/gsp/transform/accessor.py
index 38d3bcf..b403530 100644
--- a/gsp/transform/accessor.py
+++ b/gsp/transform/accessor.py
@@ -65,7 +65,7 @@ class Accessor(Transform):
         else:
             raise IndexError(f"Unknown key {self._key}")
 
-        if "index" in buffers.keys():
+        if buffers is not None and "index" in buffers.keys():
             return buffer[buffers["index"]]
         else:
             return buffer
diff --git a/gsp/transform/transform.py b/gsp/transform/transform.py
index 2d5a4d1..42ad5ad 100644
--- a/gsp/transform/transform.py
+++ b/gsp/transform/transform.py
@@ -16,7 +16,7 @@ class Transform(Object):
     @command("transform.Transform")
     def __init__(self, base : Transform = None,
                        next : Transform = None,
-                       buffer : Buffer = None):
+                       buffer : Transform | Buffer = None):
         """
         A Transform allows to apply an arbitratry transformation
         to a buffer. Any transform can be bound to a specific buffer
@@ -40,7 +40,8 @@ class Transform(Object):
         Object.__init__(self)
         self._base = base
         self._next = next
-        self._buffer = buffer
+        self._buffer = None
+        self._bind(buffer)
 
     @command()
     def set_base(self, base : Transform = None):
@@ -79,6 +80,13 @@ class Transform(Object):
             Buffer to bind
         """
 
+        self._bind(buffer)
+
+    def _bind(self, buffer):
+        # A transform used as a buffer is applied first
+        if isinstance(buffer, Transform):
+            self._next = buffer.copy()
+            buffer = None
         self._buffer = buffer
 
     def evaluate(self, buffer : Buffer):
-- 
2.43.0


From 3ae9d86d4137047547c522ef70e795bba6538536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:52 +0000
Subject: [PATCH 59/83] fix: a viewport has square units from its creation, not
 only after a resize

---
 gsp_matplotlib/core/viewport.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/gsp_matplotlib/core/viewport.py b/gsp_matplotlib/core/viewport.py
index 59c6d9f..f40075b 100644
--- a/gsp_matplotlib/core/viewport.py
+++ b/gsp_matplotlib/core/viewport.py
@@ -29,13 +29,9 @@ class Viewport(core.Viewport):
         self._extent = x, y, width, height
         self._axes = canvas._figure.add_axes([0,0,1,1])
         self._axes.zoom = 1.0
-        self._update()
-
         self._axes.patch.set_color(self._color)
         self._axes.autoscale(False)
-
-        self._axes.set_xlim(-1, 1)
-        self._axes.set_ylim(-1, 1)
+        self._update()
 
         self._axes.get_xaxis().set_visible(False)
         self._axes.get_yaxis().set_visible(False)
-- 
2.43.0


From 63619fb4bc452608c7a8076aea231568375a8fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:54 +0000
Subject: [PATCH 60/83] fix: svg subpaths that follow a closed subpath without
 a move

---
 gsp/core/svg.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gsp/core/svg.py b/gsp/core/svg.py
index bcf525f..6fb621e 100644
--- a/gsp/core/svg.py
+++ b/gsp/core/svg.py
@@ -341,8 +341,8 @@ def _parse_path(pathdef, current_pos):
             verts = [(start_pos.real, start_pos.imag)]
             yield COMMAND_CODES['Z'], verts
 
+            # The next subpath starts at the same point unless moved
             current_pos = start_pos
-            start_pos = None
             command = None  # You can't have implicit commands after closing.
 
         # LINETO
@@ -395,7 +395,7 @@ def _parse_path(pathdef, current_pos):
         elif command == 'S':
             # Smooth curve. First control point is the "reflection" of
             # the second control point in the previous path.
-            if last_command not in 'CS':
+            if last_command not in ('C', 'S'):
                 # If there is no previous command or if the previous command
                 # was not an C, c, S or s, assume the first control point is
                 # coincident with the current point.
@@ -437,7 +437,7 @@ def _parse_path(pathdef, current_pos):
         elif command == 'T':
             # Smooth curve. Control point is the "reflection" of
             # the second control point in the previous path.
-            if last_command not in 'QT':
+            if last_command not in ('Q', 'T'):
                 # If there is no previous command or if the previous command
                 # was not an Q, q, T or t, assume the first control point is
                 # coincident with the current point.
-- 
2.43.0


From 153102648c5d1bc8ed420b7b139e9a3eb2245d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:54 +0000
Subject: [PATCH 61/83] fix: flags of svg arcs do not need separators

---
 gsp/core/svg.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/gsp/core/svg.py b/gsp/core/svg.py
index 6fb621e..7466298 100644
--- a/gsp/core/svg.py
+++ b/gsp/core/svg.py
@@ -29,6 +29,7 @@ UPPERCASE = set('MZLHVCSQTA')
 
 COMMAND_RE = re.compile(r"([MmZzLlHhVvCcSsQqTtAa])")
 FLOAT_RE = re.compile(r"[-+]?[0-9]*\.?[0-9]+(?:[eE][-+]?[0-9]+)?")
+FLAG_RE = re.compile(r"[01]")
 
 COMMAND_CODES = {
     'M': (Path.MOVETO,),    # moveto
@@ -264,11 +265,22 @@ def arc_path(start, radius, rotation, large, sweep, end):
 
 
 def _tokenize_path(pathdef):
+    command = None
     for x in COMMAND_RE.split(pathdef):
         if x in COMMANDS:
+            command = x
             yield x
-        for token in FLOAT_RE.findall(x):
-            yield token
+            continue
+        # Flags of an arc (4th and 5th parameters) are a single digit that
+        # does not need to be separated from what follows
+        index, pos = 0, 0
+        while True:
+            flag = command in ('A', 'a') and index % 7 in (3, 4)
+            token = (FLAG_RE if flag else FLOAT_RE).search(x, pos)
+            if token is None:
+                break
+            yield token.group()
+            index, pos = index + 1, token.end()
 
 
 def _next_pos(elements):
-- 
2.43.0


From 99c612249083a69717efb7edb3a3458c7daf9a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:11 +0000
Subject: [PATCH 62/83] fix: outlines of the square, minus and diamond markers
 are closed

---
 gsp/core/types.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gsp/core/types.py b/gsp/core/types.py
index c9714d0..fac1efe 100644
--- a/gsp/core/types.py
+++ b/gsp/core/types.py
@@ -166,11 +166,11 @@ class Marker(IntEnum):
 
                 Marker.square :
                 svg_to_path(
-                    "M3,3V21H21V3"),
+                    "M3,3V21H21V3Z"),
 
                 Marker.minus :
                 svg_to_path(
-                    "M20 14H4V10H20"),
+                    "M20 14H4V10H20Z"),
 
                 Marker.plus :
                 svg_to_path(
@@ -198,7 +198,7 @@ class Marker(IntEnum):
 
                 Marker.diamond :
                 svg_to_path(
-                    "M19,12L12,22L5,12L12,2"),
+                    "M19,12L12,22L5,12L12,2Z"),
 
                 Marker.arrow :
                 svg_to_path(
-- 
2.43.0


From 4f23a161d07f2aa3ba1b427cf2a90c46c990d75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:11 +0000
Subject: [PATCH 63/83] fix: colors can be converted to lists and tuples

---
 gsp/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsp/__init__.py b/gsp/__init__.py
index 9663773..968ec37 100644
--- a/gsp/__init__.py
+++ b/gsp/__init__.py
@@ -31,11 +31,11 @@ def tuple_to_Color(obj):
 
 @io.register("Color", "list")
 def Color_to_list(obj):
-    return obj._color.tolist()
+    return list(obj)
 
 @io.register("Color", "tuple")
 def Color_to_tuple(obj):
-    return tuple(obj._color.tolist())
+    return tuple(obj)
 
 @io.register("list", "tuple")
 def list_to_tuple(obj):
-- 
2.43.0


From f30d4497a572fb33c6f1d06b5c4dce14b77da09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:59 +0000
Subject: [PATCH 64/83] fix: positions of points, pixels and markers can be a
 transform

---
 gsp/visual/markers.py | 2 ++
 gsp/visual/pixels.py  | 2 ++
 gsp/visual/points.py  | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/gsp/visual/markers.py b/gsp/visual/markers.py
index 5c463fa..8f70a6d 100644
--- a/gsp/visual/markers.py
+++ b/gsp/visual/markers.py
@@ -98,6 +98,8 @@ class Markers(Visual):
         # These variables exists only during rendering and are
         # available on server side only. We have thus to make
         # sure they are not tracked.
+        if isinstance(positions, Transform):
+            positions = positions.evaluate({"dpi":100})
         n = len(positions)
         self._out_variables = {
             "screen[positions]" : np.empty((n,3), np.float32),
diff --git a/gsp/visual/pixels.py b/gsp/visual/pixels.py
index 005a9cd..a40ca80 100644
--- a/gsp/visual/pixels.py
+++ b/gsp/visual/pixels.py
@@ -66,6 +66,8 @@ class Pixels(Visual):
         # These variables exists only during rendering and are
         # available on server side only. We have thus to make
         # sure they are not tracked.
+        if isinstance(positions, Transform):
+            positions = positions.evaluate({"dpi":100})
         n = len(positions)
         self._out_variables = {
             "screen[positions]" : np.empty((n,3), np.float32),
diff --git a/gsp/visual/points.py b/gsp/visual/points.py
index 3ab38ce..1f38a04 100644
--- a/gsp/visual/points.py
+++ b/gsp/visual/points.py
@@ -82,6 +82,8 @@ class Points(Visual):
         # These variables exists only during rendering and are
         # available on server side only. We have thus to make
         # sure they are not tracked.
+        if isinstance(positions, Transform):
+            positions = positions.evaluate({"dpi":100})
         n = len(positions)
         self._out_variables = {
             "screen[positions]" : np.empty((n,3), np.float32),
-- 
2.43.0


From 846bda652acf8e20f24d7c8c1beb646492b16bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:26 +0000
Subject: [PATCH 65/83] fix: the number of items a visual draws is known when
 rendering, indices can be a transform

---
 gsp/visual/paths.py    | 2 ++
 gsp/visual/polygons.py | 2 ++
 gsp/visual/visual.py   | 8 +++++++-
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/gsp/visual/paths.py b/gsp/visual/paths.py
index 6d6bd68..551dfc1 100644
--- a/gsp/visual/paths.py
+++ b/gsp/visual/paths.py
@@ -157,6 +157,8 @@ class Paths(Visual):
         n = len(positions)
 
         # Determining the number of paths:
+        if isinstance(indices, Transform):
+            indices = indices.evaluate({"dpi":100})
         if isinstance(indices, (int)):
             npaths = len(positions) // indices
         else:
diff --git a/gsp/visual/polygons.py b/gsp/visual/polygons.py
index db42118..fee4a8e 100644
--- a/gsp/visual/polygons.py
+++ b/gsp/visual/polygons.py
@@ -152,6 +152,8 @@ class Polygons(Visual):
         n = len(positions)
 
         # Determining the number of polygons:
+        if isinstance(indices, Transform):
+            indices = indices.evaluate({"dpi":100})
         if isinstance(indices, (int)):
             npolys = len(positions) // indices
         else:
diff --git a/gsp/visual/visual.py b/gsp/visual/visual.py
index 11422cd..8c9d7c4 100644
--- a/gsp/visual/visual.py
+++ b/gsp/visual/visual.py
@@ -43,7 +43,13 @@ class Visual(Object):
         if name in self._in_variables.keys():
             self._in_variables[name] = value
         elif name in self._out_variables.keys():
-            self._out_variables[name][...] = value
+            # The number of items may not be the one that was expected
+            # at creation
+            variable = self._out_variables[name]
+            if np.ndim(value) == variable.ndim and np.shape(value) != variable.shape:
+                self._out_variables[name] = np.array(value, dtype=variable.dtype)
+            else:
+                variable[...] = value
         else:
             raise IndexError(f"Unknown variable ({name})")
 
-- 
2.43.0


From 50d406cbe58832d12605997c15ff3bbf7aaba193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:27 +0000
Subject: [PATCH 66/83] fix: a component of a render output gives sizes, widths
 and angles

---
 gsp_matplotlib/visual/markers.py  | 8 ++++++--
 gsp_matplotlib/visual/points.py   | 4 ++--
 gsp_matplotlib/visual/segments.py | 2 +-
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/gsp_matplotlib/visual/markers.py b/gsp_matplotlib/visual/markers.py
index 6a2d92a..6ee0b22 100644
--- a/gsp_matplotlib/visual/markers.py
+++ b/gsp_matplotlib/visual/markers.py
@@ -35,7 +35,11 @@ class Markers(visual.Markers):
 
         axis = self.eval_variable("axis")
         types = self.eval_variable("types")
+        if isinstance(types, np.ndarray):
+            types = types.ravel()
         angles = self.eval_variable("angles")
+        if isinstance(angles, np.ndarray):
+            angles = angles.ravel()
         self.paths = []
 
         for i in range(len(positions)):
@@ -138,12 +142,12 @@ class Markers(visual.Markers):
 
         line_widths = self.eval_variable("line_widths")
         if isinstance(line_widths, np.ndarray) and (len(line_widths) == len(positions)):
-            collection.set_linewidths(line_widths[sort_indices])
+            collection.set_linewidths(line_widths[sort_indices].ravel())
         else:
             collection.set_linewidths(line_widths)
 
         sizes = self.eval_variable("sizes")
         if isinstance(sizes, np.ndarray) and (len(sizes) == len(positions)):
-            collection.set_sizes(sizes[sort_indices])
+            collection.set_sizes(sizes[sort_indices].ravel())
         else:
             collection.set_sizes([sizes]*len(positions))
diff --git a/gsp_matplotlib/visual/points.py b/gsp_matplotlib/visual/points.py
index 5a1d38f..9371a02 100644
--- a/gsp_matplotlib/visual/points.py
+++ b/gsp_matplotlib/visual/points.py
@@ -81,12 +81,12 @@ class Points(visual.Points):
 
         line_widths = self.eval_variable("line_widths")
         if isinstance(line_widths, np.ndarray) and (len(line_widths) == len(positions)):
-            collection.set_linewidths(line_widths[sort_indices])
+            collection.set_linewidths(line_widths[sort_indices].ravel())
         else:
             collection.set_linewidths(line_widths)
 
         sizes = self.eval_variable("sizes")
         if isinstance(sizes, np.ndarray) and (len(sizes) == len(positions)):
-            collection.set_sizes(sizes[sort_indices])
+            collection.set_sizes(sizes[sort_indices].ravel())
         else:
             collection.set_sizes([sizes]*len(positions))
diff --git a/gsp_matplotlib/visual/segments.py b/gsp_matplotlib/visual/segments.py
index 828ed68..dbc429c 100644
--- a/gsp_matplotlib/visual/segments.py
+++ b/gsp_matplotlib/visual/segments.py
@@ -77,6 +77,6 @@ class Segments(visual.Segments):
 
         line_widths = self.eval_variable("line_widths")
         if isinstance(line_widths, np.ndarray) and (len(line_widths) == len(positions)):
-            collection.set_linewidths(line_widths[sort_indices])
+            collection.set_linewidths(line_widths[sort_indices].ravel())
         else:
             collection.set_linewidths(line_widths)
-- 
2.43.0


From 0ad39a39fdb221edf164a993f85864b134ade917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:46 +0000
Subject: [PATCH 67/83] fix: angles of markers that depend on screen positions
 are those of the current render

---
 gsp_matplotlib/visual/markers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsp_matplotlib/visual/markers.py b/gsp_matplotlib/visual/markers.py
index 6ee0b22..d4ed0bb 100644
--- a/gsp_matplotlib/visual/markers.py
+++ b/gsp_matplotlib/visual/markers.py
@@ -113,7 +113,6 @@ class Markers(visual.Markers):
         #  But then, we would still need to keep track of the
         #  different variables to check is anything has changed.
         P = glm.to_vec3(glm.to_vec4(positions) @ self._model.T)
-        self.generate_markers(P)
 
         positions = glm.to_vec3(glm.to_vec4(positions) @ self._transform.T)
 
@@ -124,6 +123,8 @@ class Markers(visual.Markers):
 
         self.set_variable("screen[positions]", positions)
 
+        # Angles and types may depend on screen positions
+        self.generate_markers(P)
         paths = [self.paths[i] for i in sort_indices]
         collection.set_paths(paths)
         collection.set_offsets(positions[sort_indices,:2])
-- 
2.43.0


From 0f4c2e5a3c4a4b92ad889366c1181518f172a867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:57 +0000
Subject: [PATCH 68/83] fix: a flat list of indices gives the sizes of paths
 and polygons, as documented

---
 gsp_matplotlib/__init__.py        | 3 +++
 gsp_matplotlib/visual/paths.py    | 3 +++
 gsp_matplotlib/visual/polygons.py | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/gsp_matplotlib/__init__.py b/gsp_matplotlib/__init__.py
index 7134215..808296c 100644
--- a/gsp_matplotlib/__init__.py
+++ b/gsp_matplotlib/__init__.py
@@ -41,6 +41,9 @@ def list_to_Buffer(obj):
 
 @register("list", "List")
 def list_to_List(obj):
+    # Integers are the sizes of consecutive items
+    if len(obj) and all(isinstance(item, (int, np.integer)) for item in obj):
+        return ndarray_to_Buffer(np.array(obj))
     count = np.array([len(sublist) for sublist in obj], dtype=int)
     items = np.array([item for sublist in obj for item in sublist] or count[:0])
     return List(ndarray_to_Buffer(items), ndarray_to_Buffer(count))
diff --git a/gsp_matplotlib/visual/paths.py b/gsp_matplotlib/visual/paths.py
index aecb22b..339ca66 100644
--- a/gsp_matplotlib/visual/paths.py
+++ b/gsp_matplotlib/visual/paths.py
@@ -76,6 +76,9 @@ class Paths(visual.Paths):
 
         # Here we consider all the case of indices shape
         indices = self.eval_variable("indices")
+        if (isinstance(indices, list) and
+            all(isinstance(size, (int, np.integer)) for size in indices)):
+            indices = np.array(indices, dtype=int)
 
         # Integer means paths of equal size, consecutive vertices
         if isinstance(indices, (int)):
diff --git a/gsp_matplotlib/visual/polygons.py b/gsp_matplotlib/visual/polygons.py
index 7d704da..a08d879 100644
--- a/gsp_matplotlib/visual/polygons.py
+++ b/gsp_matplotlib/visual/polygons.py
@@ -72,6 +72,9 @@ class Polygons(visual.Polygons):
 
         # Here we consider all the case of indices shape
         indices = self.eval_variable("indices")
+        if (isinstance(indices, list) and
+            all(isinstance(size, (int, np.integer)) for size in indices)):
+            indices = np.array(indices, dtype=int)
 
         # Integer means polygons of equal size, consecutive vertices
         if isinstance(indices, (int)):
-- 
2.43.0


From f3f17295134bd51a04c99bd29b450d3b6a2f617b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:17 +0000
Subject: [PATCH 69/83] fix: indices of paths and polygons can be a vlist

---
 gsp_matplotlib/visual/paths.py    | 4 +++-
 gsp_matplotlib/visual/polygons.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/gsp_matplotlib/visual/paths.py b/gsp_matplotlib/visual/paths.py
index 339ca66..9c055b2 100644
--- a/gsp_matplotlib/visual/paths.py
+++ b/gsp_matplotlib/visual/paths.py
@@ -75,7 +75,9 @@ class Paths(visual.Paths):
         positions = glm.to_vec3(glm.to_vec4(positions) @ self._transform.T)
 
         # Here we consider all the case of indices shape
-        indices = self.eval_variable("indices")
+        indices = self.get_variable("indices")
+        if not isinstance(indices, glm.vlist):
+            indices = self.eval_variable("indices")
         if (isinstance(indices, list) and
             all(isinstance(size, (int, np.integer)) for size in indices)):
             indices = np.array(indices, dtype=int)
diff --git a/gsp_matplotlib/visual/polygons.py b/gsp_matplotlib/visual/polygons.py
index a08d879..9c2afff 100644
--- a/gsp_matplotlib/visual/polygons.py
+++ b/gsp_matplotlib/visual/polygons.py
@@ -71,7 +71,9 @@ class Polygons(visual.Polygons):
         positions = glm.to_vec3(glm.to_vec4(positions) @ self._transform.T)
 
         # Here we consider all the case of indices shape
-        indices = self.eval_variable("indices")
+        indices = self.get_variable("indices")
+        if not isinstance(indices, glm.vlist):
+            indices = self.eval_variable("indices")
         if (isinstance(indices, list) and
             all(isinstance(size, (int, np.integer)) for size in indices)):
             indices = np.array(indices, dtype=int)
-- 
2.43.0


From 5a09d63b0e7626537de84f8dff3ed166e50dd343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:37 +0000
Subject: [PATCH 70/83] fix: recorded arguments and matrices of a render are
 those of the call, even if they are modified later

---
 gsp/io/command.py    | 17 +++++++++++++++--
 gsp/visual/visual.py |  6 +++---
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/gsp/io/command.py b/gsp/io/command.py
index 841f4f9..b9b85fd 100644
--- a/gsp/io/command.py
+++ b/gsp/io/command.py
@@ -11,6 +11,7 @@ import types
 import typing
 import inspect
 import itertools
+import numpy as np
 from datetime import datetime
 from functools import wraps
 from types import UnionType
@@ -191,6 +192,16 @@ def get_default_args(func):
 
 
 
+def snapshot(value):
+    """Value such as it is now, even if it is modified later. """
+
+    if type(value) is list:
+        return [snapshot(item) for item in value]
+    elif isinstance(value, np.ndarray):
+        return np.array(value)
+    return value
+
+
 def command(name=None):
     """
     Function decorator that creates a command when the function is
@@ -289,9 +300,10 @@ def command(name=None):
                                 # parameters[key] = converter(value)
                                 # else:
                                 # Delayed conversion
-                                parameters[key] = Converter(converter, value)
                                 to_object = (isinstance(annotated_type, type) and
                                              issubclass(annotated_type, Object))
+                                parameters[key] = Converter(
+                                    converter, value if to_object else snapshot(value))
                                 break
 
                     if check:
@@ -305,8 +317,9 @@ def command(name=None):
                             "No converter found for converting '%s' (%s) to %s."
                             % (key, parameter_type, annotated_types))
 
+            # Lists and arrays might be modified after the call
             parameters = {
-                key + "(id)" if isinstance(value, Object) and not key.endswith("(id)") else key : value
+                key + "(id)" if isinstance(value, Object) and not key.endswith("(id)") else key : snapshot(value)
                 for key,value in parameters.items() }
 
             # Arguments have been checked, we can now proceed with the call
diff --git a/gsp/visual/visual.py b/gsp/visual/visual.py
index 8c9d7c4..ae14794 100644
--- a/gsp/visual/visual.py
+++ b/gsp/visual/visual.py
@@ -119,11 +119,11 @@ class Visual(Object):
         if viewport in self._matrices:
             self._model, self._view, self._proj = self._matrices[viewport]
         if model is not None:
-            self._model = np.asarray(model)
+            self._model = np.array(np.asarray(model))
         if view is not None:
-            self._view = np.asarray(view)
+            self._view = np.array(np.asarray(view))
         if proj is not None:
-            self._proj = np.asarray(proj)
+            self._proj = np.array(np.asarray(proj))
         self._matrices[viewport] = self._model, self._view, self._proj
 
         try:
-- 
2.43.0


From 3b000616b5e200668ecc5760b2195c0e6f21292e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 71/83] fix: visuals whose first render was interrupted are
 drawn by the next one

---
 gsp_matplotlib/visual/markers.py  | 2 +-
 gsp_matplotlib/visual/paths.py    | 2 +-
 gsp_matplotlib/visual/pixels.py   | 2 +-
 gsp_matplotlib/visual/points.py   | 2 +-
 gsp_matplotlib/visual/polygons.py | 2 +-
 gsp_matplotlib/visual/segments.py | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/gsp_matplotlib/visual/markers.py b/gsp_matplotlib/visual/markers.py
index d4ed0bb..bd624d0 100644
--- a/gsp_matplotlib/visual/markers.py
+++ b/gsp_matplotlib/visual/markers.py
@@ -85,13 +85,13 @@ class Markers(visual.Markers):
             collection = viewport._axes.scatter([],[])
             collection.set_antialiaseds(True)
             collection.set_linewidths(0)
-            self._viewports[viewport] = collection
 
             # This is necessary for measure transforms that need to be
             # kept up to date with canvas size
             canvas = viewport._canvas._figure.canvas
             canvas.mpl_connect('resize_event',
                                lambda event: self.render(viewport))
+            self._viewports[viewport] = collection
 
         # If render has been called without model/view/proj, we don't
         # render Such call is only used to declare that this visual is
diff --git a/gsp_matplotlib/visual/paths.py b/gsp_matplotlib/visual/paths.py
index 9c055b2..44b291b 100644
--- a/gsp_matplotlib/visual/paths.py
+++ b/gsp_matplotlib/visual/paths.py
@@ -53,7 +53,6 @@ class Paths(visual.Paths):
                           LineCap.round: "round",
                           LineCap.cap:   "projecting"}[line_caps]            
             collection = LineCollection([], clip_on=True, snap=False, capstyle=line_caps)
-            self._viewports[viewport] = collection
             viewport._axes.add_collection(collection, autolim=False)
 
             # This is necessary for measure transforms that need to be
@@ -61,6 +60,7 @@ class Paths(visual.Paths):
             canvas = viewport._canvas._figure.canvas
             canvas.mpl_connect('resize_event',
                                lambda event: self.render(viewport))
+            self._viewports[viewport] = collection
 
         # If render has been called without model/view/proj, we don't
         # render Such call is only used to declare that this visual is
diff --git a/gsp_matplotlib/visual/pixels.py b/gsp_matplotlib/visual/pixels.py
index d341cf7..e6e188f 100644
--- a/gsp_matplotlib/visual/pixels.py
+++ b/gsp_matplotlib/visual/pixels.py
@@ -46,13 +46,13 @@ class Pixels(visual.Pixels):
             collection = viewport._axes.scatter( [],[], size)
             collection.set_antialiaseds(True)
             collection.set_linewidths(0)
-            self._viewports[viewport] = collection
 
             # This is necessary for measure transforms that need to be
             # kept up to date with canvas size
             canvas = viewport._canvas._figure.canvas
             canvas.mpl_connect('resize_event',
                                lambda event: self.render(viewport))
+            self._viewports[viewport] = collection
 
         # If render has been called without model/view/proj, we don't
         # render Such call is only used to declare that this visual is
diff --git a/gsp_matplotlib/visual/points.py b/gsp_matplotlib/visual/points.py
index 9371a02..3d63d6d 100644
--- a/gsp_matplotlib/visual/points.py
+++ b/gsp_matplotlib/visual/points.py
@@ -40,13 +40,13 @@ class Points(visual.Points):
             collection = viewport._axes.scatter([],[])
             collection.set_antialiaseds(True)
             collection.set_linewidths(0)
-            self._viewports[viewport] = collection
 
             # This is necessary for measure transforms that need to be
             # kept up to date with canvas size
             canvas = viewport._canvas._figure.canvas
             canvas.mpl_connect('resize_event',
                                lambda event: self.render(viewport))
+            self._viewports[viewport] = collection
 
         # If render has been called without model/view/proj, we don't
         # render Such call is only used to declare that this visual is
diff --git a/gsp_matplotlib/visual/polygons.py b/gsp_matplotlib/visual/polygons.py
index 9c2afff..faf9b50 100644
--- a/gsp_matplotlib/visual/polygons.py
+++ b/gsp_matplotlib/visual/polygons.py
@@ -49,7 +49,6 @@ class Polygons(visual.Polygons):
         # Create the collection if necessary
         if viewport not in self._viewports:
             collection = PolyCollection([], clip_on=True, snap=False)
-            self._viewports[viewport] = collection
             viewport._axes.add_collection(collection, autolim=False)
 
             # This is necessary for measure transforms that need to be
@@ -57,6 +56,7 @@ class Polygons(visual.Polygons):
             canvas = viewport._canvas._figure.canvas
             canvas.mpl_connect('resize_event',
                                lambda event: self.render(viewport))
+            self._viewports[viewport] = collection
 
         # If render has been called without model/view/proj, we don't
         # render Such call is only used to declare that this visual is
diff --git a/gsp_matplotlib/visual/segments.py b/gsp_matplotlib/visual/segments.py
index dbc429c..3bfaa9d 100644
--- a/gsp_matplotlib/visual/segments.py
+++ b/gsp_matplotlib/visual/segments.py
@@ -39,7 +39,6 @@ class Segments(visual.Segments):
         # Create the collection if necessary
         if viewport not in self._viewports:
             collection = LineCollection([], clip_on=True, snap=False, capstyle="round")
-            self._viewports[viewport] = collection
             viewport._axes.add_collection(collection, autolim=False)
 
             # This is necessary for measure transforms that need to be
@@ -47,6 +46,7 @@ class Segments(visual.Segments):
             canvas = viewport._canvas._figure.canvas
             canvas.mpl_connect('resize_event',
                                lambda event: self.render(viewport))
+            self._viewports[viewport] = collection
 
         # If render has been called without model/view/proj, we don't
         # render Such call is only used to declare that this visual is
-- 
2.43.0


From 222a48a021fbff3d10d28fd73bf8d59301c7f5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:17 +0000
Subject: [PATCH 72/83] fix: line caps of paths can be modified after the first
 render

---
 gsp_matplotlib/visual/paths.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/gsp_matplotlib/visual/paths.py b/gsp_matplotlib/visual/paths.py
index 44b291b..6d300e8 100644
--- a/gsp_matplotlib/visual/paths.py
+++ b/gsp_matplotlib/visual/paths.py
@@ -48,11 +48,7 @@ class Paths(visual.Paths):
         
         # Create the collection if necessary
         if viewport not in self._viewports:
-            line_caps = self.eval_variable("line_caps")
-            line_caps = { LineCap.butt:  "butt",
-                          LineCap.round: "round",
-                          LineCap.cap:   "projecting"}[line_caps]            
-            collection = LineCollection([], clip_on=True, snap=False, capstyle=line_caps)
+            collection = LineCollection([], clip_on=True, snap=False)
             viewport._axes.add_collection(collection, autolim=False)
 
             # This is necessary for measure transforms that need to be
@@ -114,6 +110,12 @@ class Paths(visual.Paths):
         paths = [paths[i][...,:2] for i in sort_indices]
         collection.set_paths(paths)
 
+        # Line caps
+        line_caps = self.eval_variable("line_caps")
+        collection.set_capstyle({ LineCap.butt:  "butt",
+                                  LineCap.round: "round",
+                                  LineCap.cap:   "projecting"}[line_caps])
+
         # Line colors
         line_colors = self.eval_variable("line_colors")
         if isinstance(line_colors, np.ndarray) and line_colors.ndim > 1:
-- 
2.43.0


From f512545f57fa1f77e7e5c6fc1771122a6748dc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:15 +0000
Subject: [PATCH 73/83] fix: the buffer of a partial view follows the array it
 comes from

---
 gsp_matplotlib/__init__.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/gsp_matplotlib/__init__.py b/gsp_matplotlib/__init__.py
index 808296c..10f6d5a 100644
--- a/gsp_matplotlib/__init__.py
+++ b/gsp_matplotlib/__init__.py
@@ -71,7 +71,11 @@ def tracked_to_Buffer(obj):
         obj._tracker = Tracker(obj)
     elif isinstance(obj.base, glm.ndarray.tracked) and obj.size != obj.base.size:
         # Partial view, the tracked buffer is the one of the whole array
-        return ndarray_to_Buffer(np.array(obj))
+        base = obj.base
+        while isinstance(base.base, glm.ndarray.tracked):
+            base = base.base
+        base._tracker = ViewTracker(base._tracker, obj)
+        return base._tracker.view_buffer
     return obj._tracker.gsp_buffer
 
 
@@ -88,4 +92,20 @@ class Tracker:
         self.gsp_buffer.set_data(offset, bytes)
 
 
+class ViewTracker:
+    """ Tracker of an array and of one of its partial views """
+
+    def __init__(self, tracker, view):
+        self.tracker = tracker
+        self.gsp_buffer = tracker.gsp_buffer
+        self.view = view
+        self.view_buffer = ndarray_to_Buffer(np.array(view))
+
+    def set_data(self, offset, bytes):
+        self.tracker.set_data(offset, bytes)
+        data = self.view.tobytes()
+        if data != np.asarray(self.view_buffer).tobytes():
+            self.view_buffer.set_data(0, data)
+
+
 glm.ndarray.tracked.__tracker_class__ = Tracker
-- 
2.43.0


From ae5506ce82bf9676c4762904a9d19bfa64ab15cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:29 +0000
Subject: [PATCH 74/83] fix: unsigned sizes of a partitioned list were refused

---
 gsp_matplotlib/glm/ndarray/ragged.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp_matplotlib/glm/ndarray/ragged.py b/gsp_matplotlib/glm/ndarray/ragged.py
index 92c6d6f..6f28030 100644
--- a/gsp_matplotlib/glm/ndarray/ragged.py
+++ b/gsp_matplotlib/glm/ndarray/ragged.py
@@ -86,7 +86,7 @@ class ragged:
         self._size = len(data)
         self._count = count
         self._items = np.zeros((count, 2), int)
-        C = np.cumsum(itemsize)
+        C = np.cumsum(np.asarray(itemsize).astype(int, casting="same_kind"))
         self._items[1:, 0] += C[:-1]
         self._items[0:, 1] += C
 
-- 
2.43.0


From cccf214a946659a6c1fef4083f5a982d23a02f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:29 +0000
Subject: [PATCH 75/83] fix: numpy integers were refused as item size of a
 partitioned list

---
 gsp_matplotlib/glm/ndarray/ragged.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsp_matplotlib/glm/ndarray/ragged.py b/gsp_matplotlib/glm/ndarray/ragged.py
index 6f28030..4db9a9d 100644
--- a/gsp_matplotlib/glm/ndarray/ragged.py
+++ b/gsp_matplotlib/glm/ndarray/ragged.py
@@ -72,7 +72,8 @@ class ragged:
         if itemsize is None:
             itemsize = len(data)
 
-        if isinstance(itemsize, int):
+        if isinstance(itemsize, (int, np.integer)):
+            itemsize = int(itemsize)
             if itemsize <= 0 or (len(data) % itemsize) != 0:
                 raise ValueError("Cannot partition data as requested")
             count = len(data) // itemsize
-- 
2.43.0


From 1473d86c889d21fcbc8c303a8a1e1a05abff1f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:16 +0000
Subject: [PATCH 76/83] fix: identifiers given as arguments, objects given to a
 command were lost when run

---
 gsp/io/command.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gsp/io/command.py b/gsp/io/command.py
index b9b85fd..03a07a5 100644
--- a/gsp/io/command.py
+++ b/gsp/io/command.py
@@ -396,11 +396,15 @@ class Command:
             raise ValueError("Parameters needs to have an id")
         self.classname = classname
         self.methodname = methodname
-        self.parameters = parameters
 
+        # Objects are referred to by their id, under the name "key(id)"
+        self.parameters = {}
         for key, value in parameters.items():
             if isinstance(value, Object):
-                self.parameters[key] = value.id
+                if key != "id" and not key.endswith("(id)"):
+                    key = key + "(id)"
+                value = value.id
+            self.parameters[key] = value
 
         self.annotations = annotations
 
@@ -453,8 +457,6 @@ class Command:
         for key, value in parameters.items():
             if key.endswith("(id)"):
                 _parameters[key[:-4]] = Object.objects[value]
-            elif isinstance(value, OID):
-                parameters[key] = Object.objects[value]
             elif isinstance(value, Converter):
                 _parameters[key] = value()
             else:
-- 
2.43.0


From 65f572d79a052d4bc3cd2a86b5a87c72deb6a8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:58 +0000
Subject: [PATCH 77/83] fix: memory and containers given as arguments might be
 modified after the call

---
 gsp/io/command.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gsp/io/command.py b/gsp/io/command.py
index 03a07a5..3dad3e8 100644
--- a/gsp/io/command.py
+++ b/gsp/io/command.py
@@ -195,10 +195,16 @@ def get_default_args(func):
 def snapshot(value):
     """Value such as it is now, even if it is modified later. """
 
-    if type(value) is list:
-        return [snapshot(item) for item in value]
+    if type(value) in (list, tuple, set):
+        return type(value)(snapshot(item) for item in value)
+    elif type(value) is dict:
+        return { key : snapshot(item) for key,item in value.items() }
+    elif isinstance(value, bytearray):
+        return bytearray(value)
     elif isinstance(value, np.ndarray):
         return np.array(value)
+    elif isinstance(value, memoryview):
+        return memoryview(value.tobytes())
     return value
 
 
-- 
2.43.0


From e654eb1e5e10e0d8d91d3b9f72ac60cedfd6f671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:58 +0000
Subject: [PATCH 78/83] fix: the content of a buffer followed the memory it was
 created from

---
 gsp_matplotlib/core/buffer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gsp_matplotlib/core/buffer.py b/gsp_matplotlib/core/buffer.py
index 54dd2cc..d6c807f 100644
--- a/gsp_matplotlib/core/buffer.py
+++ b/gsp_matplotlib/core/buffer.py
@@ -27,6 +27,9 @@ class Buffer(core.Buffer):
             self._dtype = dtype
         if isinstance(data, str):
             self._data = base64.b64decode(data)
+        elif isinstance(data, memoryview):
+            # The memory may be modified later
+            self._data = data.tobytes()
         else:
             self._data = data
         self._array = None
@@ -50,10 +53,7 @@ class Buffer(core.Buffer):
     def __array__(self):
         if self._array is None:
             if self._data is not None and self._count > 0:
-                data = self._data
-                if isinstance(data, memoryview) and not data.c_contiguous:
-                    data = data.tobytes()
-                self._array = np.frombuffer(data, self._dtype)
+                self._array = np.frombuffer(self._data, self._dtype)
             else:
                 self._array = np.empty(self._count, self._dtype)
         return self._array
-- 
2.43.0


From 6814f0db3e16ec4cd7e227b7bc91faf8cf0a424b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:44 +0000
Subject: [PATCH 79/83] fix: sizes stored on a few bits overflowed when summed,
 items were lost

---
 gsp_matplotlib/core/list.py       | 5 +++--
 gsp_matplotlib/visual/paths.py    | 2 +-
 gsp_matplotlib/visual/polygons.py | 2 +-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/gsp_matplotlib/core/list.py b/gsp_matplotlib/core/list.py
index 26094d9..f99add3 100644
--- a/gsp_matplotlib/core/list.py
+++ b/gsp_matplotlib/core/list.py
@@ -28,8 +28,9 @@ class List(core.List):
             itemsizes = np.asanyarray(self._itemsizes)
         start = 0
         for size in itemsizes:
-            yield data[start:start+size]
-            start += size
+            stop = start + int(size)
+            yield data[start:stop]
+            start = stop
 
     def __repr__(self):
         return f"List({len(self)}, {self._data._dtype})"
diff --git a/gsp_matplotlib/visual/paths.py b/gsp_matplotlib/visual/paths.py
index 6d300e8..d26ca03 100644
--- a/gsp_matplotlib/visual/paths.py
+++ b/gsp_matplotlib/visual/paths.py
@@ -90,7 +90,7 @@ class Paths(visual.Paths):
             end = 0
             paths = []
             for size in indices:
-                end += size
+                end += int(size)
                 paths.append (positions[start:end])
                 start = end
 
diff --git a/gsp_matplotlib/visual/polygons.py b/gsp_matplotlib/visual/polygons.py
index faf9b50..16d86ed 100644
--- a/gsp_matplotlib/visual/polygons.py
+++ b/gsp_matplotlib/visual/polygons.py
@@ -90,7 +90,7 @@ class Polygons(visual.Polygons):
             end = 0
             polygons = []
             for size in indices:
-                end += size
+                end += int(size)
                 polygons.append (positions[start:end])
                 start = end
 
-- 
2.43.0


From 79bc196309d08c5353736753a920e4b86b651ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:36 +0000
Subject: [PATCH 80/83] fix: narrow integers overflowed in glm computations

---
 gsp_matplotlib/glm/glm.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/gsp_matplotlib/glm/glm.py b/gsp_matplotlib/glm/glm.py
index 0ce3daa..4e4cd54 100644
--- a/gsp_matplotlib/glm/glm.py
+++ b/gsp_matplotlib/glm/glm.py
@@ -37,9 +37,19 @@ def mesh(filename):
 
     return fit(np.array(V)), np.array(Vi)-1
 
+def _inexact(V):
+    """ V as an array whose type does not overflow (as narrow integers do) """
+
+    V = np.asanyarray(V)
+    if not np.issubdtype(V.dtype, np.inexact):
+        V = V.astype(np.float64)
+    return V
+
+
 def normalize(V):
     """ Normalize V """
 
+    V = _inexact(V)
     return V/(1e-16+np.sqrt((np.array(V)**2).sum(axis=-1)))[..., np.newaxis]
 
 
@@ -126,6 +136,7 @@ def frustum(left, right, bottom, top, znear, zfar, dtype=np.float32, transpose=F
         View frustum matrix
     """
 
+    left, right, bottom, top, znear, zfar = _inexact((left, right, bottom, top, znear, zfar))
     M = np.zeros((4, 4), dtype=dtype)
     M[0, 0] = +2.0 * znear / (right - left)
     M[1, 1] = +2.0 * znear / (top - bottom)
@@ -208,6 +219,7 @@ def ortho(left, right, bottom, top, znear, zfar, dtype=np.float32, transpose=Fal
         Orthographic projection matrix
     """
 
+    left, right, bottom, top, znear, zfar = _inexact((left, right, bottom, top, znear, zfar))
     M = np.zeros((4, 4), dtype=dtype)
     M[0, 0] = +2.0 / (right - left)
     M[1, 1] = +2.0 / (top - bottom)
@@ -249,9 +261,9 @@ def lookat(eye=(0,0,4.5), center=(0,0,0), up=(0,0,1), dtype=np.float32, transpos
         View matrix
     """
 
-    eye = np.array(eye)
-    center = np.array(center)
-    up = np.array(up)
+    eye = _inexact(np.array(eye))
+    center = _inexact(np.array(center))
+    up = _inexact(np.array(up))
 
     Z = normalize(eye - center)
     Y = up
@@ -312,6 +324,7 @@ def fit(vertices):
         (np.ndarray): vertices contained in the normalize cube
     """
 
+    vertices = _inexact(vertices)
     vmin = vertices.min(axis=0)
     vmax = vertices.max(axis=0)
     # return 2*(vertices-vmin) / max(vmax-vmin)-1
@@ -363,6 +376,7 @@ def center(vertices):
         (np.ndarray): vertices centered
     """
 
+    vertices = _inexact(vertices)
     vmin = vertices.min(axis=0)
     vmax = vertices.max(axis=0)
     return vertices - (vmax+vmin)/2
-- 
2.43.0


From 6f95719b8655646d90e8e9dc99aa576c229231d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:36 +0000
Subject: [PATCH 81/83] fix: negative vertex numbers of mesh files designated
 other vertices

---
 gsp_matplotlib/glm/glm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gsp_matplotlib/glm/glm.py b/gsp_matplotlib/glm/glm.py
index 4e4cd54..eb03519 100644
--- a/gsp_matplotlib/glm/glm.py
+++ b/gsp_matplotlib/glm/glm.py
@@ -26,6 +26,8 @@ def mesh(filename):
                N.append([float(x) for x in values[1:4]])
            elif values[0] == 'f' :
                Vi.append([int(indices.split('/')[0]) for indices in values[1:]])
+               # Negative indices are relative to the last vertex read so far
+               Vi[-1] = [i if i >= 0 else len(V)+1+i for i in Vi[-1]]
                try:
                    Ti.append([int(indices.split('/')[1]) for indices in values[1:]])
                except:
-- 
2.43.0


From b1ad3a4d6a7924d38818fd8d3a907a6485657282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:20 +0000
Subject: [PATCH 82/83] fix: blank lines of documentation blocks shifted or
 merged their source

A block starting with a blank line was dedented by one character, and a line
of fewer spaces than the indentation was joined with the next one.
---
 gsp/io/mkdocs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gsp/io/mkdocs.py b/gsp/io/mkdocs.py
index 7dbe29a..78c90a5 100644
--- a/gsp/io/mkdocs.py
+++ b/gsp/io/mkdocs.py
@@ -36,12 +36,12 @@ class mkdocs():
         while True:
             next_line = linecache.getline(filename, line + i)
             next_line_indent = len(next_line) - len(next_line.lstrip())
-            if indent == 0:
+            if indent == 0 and len(next_line.strip()) > 0:
                 indent = next_line_indent
             elif (next_line_indent < indent and len(next_line.strip()) > 0) or next_line == "":
                 break
-            if next_line == "\n": # preserve newlines
-                lines.append(next_line)
+            if len(next_line.strip()) == 0: # preserve newlines
+                lines.append("\n")
             else:
                 lines.append(next_line[indent:])
             i += 1
-- 
2.43.0


From 6027e298781281adc2d578b36384a1b166e1cb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:42 +0000
Subject: [PATCH 83/83] fix: a buffer given more bytes than its items need read
 as more items

---
 gsp_matplotlib/core/buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp_matplotlib/core/buffer.py b/gsp_matplotlib/core/buffer.py
index d6c807f..1d2dd60 100644
--- a/gsp_matplotlib/core/buffer.py
+++ b/gsp_matplotlib/core/buffer.py
@@ -53,7 +53,7 @@ class Buffer(core.Buffer):
     def __array__(self):
         if self._array is None:
             if self._data is not None and self._count > 0:
-                self._array = np.frombuffer(self._data, self._dtype)
+                self._array = np.frombuffer(self._data, self._dtype, self._count)
             else:
                 self._array = np.empty(self._count, self._dtype)
         return self._array
-- 
2.43.0

