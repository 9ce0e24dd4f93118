From 30f9628cab613fc5e3560afc6213982649a67fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:26 +0000
Subject: [PATCH 01/29] fix: flush waits for every accepted task, whatever its
 outcome

Accepting a task and recording it as pending is now one step, a task's own failure is no longer raised out of
flush, completed tasks are removed without racing with flush, and there is no 10 s limit after which flush gives up.
---
 src/deep/task/__init__.py | 43 +++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 24 deletions(-)

diff --git a/src/deep/task/__init__.py b/src/deep/task/__init__.py
index 3257b37..ca38c7b 100644
--- a/src/deep/task/__init__.py
+++ b/src/deep/task/__init__.py
@@ -15,10 +15,12 @@
 
 """Provides processing options for tasks on background threads."""
 
-import logging
 import threading
 from concurrent.futures import Future
 from concurrent.futures import ThreadPoolExecutor
+from concurrent.futures import wait
+
+from deep import logging
 
 
 class IllegalStateException(BaseException):
@@ -35,15 +37,9 @@ class TaskHandler:
         self._pool = ThreadPoolExecutor(max_workers=2)
         self._pending = {}
         self._job_id = 0
-        self._lock = threading.Lock()
+        self._lock = threading.RLock()
         self._open = True
 
-    def _next_id(self):
-        with self._lock:
-            self._job_id += 1
-            next_id = self._job_id
-        return next_id
-
     def __check_open(self):
         if not self._open:
             raise IllegalStateException
@@ -56,27 +52,26 @@ class TaskHandler:
         :param args: the args to pass to the function
         :return: a future that can be listened to for completion
         """
-        self.__check_open()
-        next_id = self._next_id()
-        # there is an at exit in threading that prevents submitting tasks after shutdown, but no api to check this
-        future = self._pool.submit(task, *args)
-        self._pending[next_id] = future
+        # accepting a task and recording it as pending is one step, so that flush waits for every accepted task
+        with self._lock:
+            self.__check_open()
+            self._job_id += 1
+            next_id = self._job_id
+            # there is an at exit in threading that prevents submitting tasks after shutdown, but no api to check this
+            future = self._pool.submit(task, *args)
+            self._pending[next_id] = future
 
-        # cannot use 'del' in lambda: https://stackoverflow.com/a/41953232/5151254
         def callback(_future: Future):
+            self._pending.pop(next_id, None)
             if _future.exception() is not None:
-                logging.exception("Submitted task failed %s", task)
-            if next_id in self._pending:
-                del self._pending[next_id]
+                logging.error("Submitted task failed %s", task, exc_info=_future.exception())
 
         future.add_done_callback(callback)
         return future
 
     def flush(self):
-        """Await completion of all pending tasks."""
-        self._open = False
-        if len(self._pending) > 0:
-            for key in dict(self._pending).keys():
-                get = self._pending.get(key)
-                if get is not None:
-                    self._pending[key].result(10)
+        """Await completion of all pending tasks, whether they succeed or fail."""
+        with self._lock:
+            self._open = False
+            pending = list(self._pending.values())
+        wait(pending)
-- 
2.43.0


From 0fff4f1c363f134d70132fcb4630f2f41f72b286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:06 +0000
Subject: [PATCH 02/29] fix: search variables breadth first, so shallow values
 win the variable budget

---
 src/deep/processor/bfs/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/deep/processor/bfs/__init__.py b/src/deep/processor/bfs/__init__.py
index 13b44f9..9025889 100644
--- a/src/deep/processor/bfs/__init__.py
+++ b/src/deep/processor/bfs/__init__.py
@@ -21,6 +21,7 @@ approach. This means scanning all local values before proceeding to the next dep
 """
 
 import abc
+from collections import deque
 from typing import Callable, List
 
 from deep.api.tracepoint import VariableId
@@ -150,10 +151,10 @@ def breadth_first_search(node: 'Node', consumer: Callable[['Node'], bool]):
     :param node: the initial node to start the search
     :param consumer: the consumer to call on each node
     """
-    queue = [node]
+    queue = deque([node])
 
     while len(queue) != 0:
-        pop = queue.pop()
+        pop = queue.popleft()
         can_continue = consumer(pop)
 
         if can_continue:
-- 
2.43.0


From a35e08e1fcbc8786dc610f206d12bd84fbf94185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:32 +0000
Subject: [PATCH 03/29] fix: collect any kind of value, whatever its type,
 keys, attributes or text do

---
 src/deep/processor/frame_collector.py        |   5 +-
 src/deep/processor/variable_processor.py     | 110 ++++++++++++++-----
 src/deep/processor/variable_set_processor.py |   6 +-
 3 files changed, 90 insertions(+), 31 deletions(-)

diff --git a/src/deep/processor/frame_collector.py b/src/deep/processor/frame_collector.py
index e7850bb..e132805 100644
--- a/src/deep/processor/frame_collector.py
+++ b/src/deep/processor/frame_collector.py
@@ -21,6 +21,7 @@ from typing import Tuple, Dict, List
 
 from deep.api.tracepoint import StackFrame, Variable
 from deep.utils import time_ns
+from .variable_processor import type_to_name
 from .variable_set_processor import VariableCacheProvider, VariableSetProcessor, VariableProcessorConfig
 
 
@@ -140,8 +141,8 @@ class FrameCollector:
         f_locals = frame.f_locals
         _self = f_locals.get('self', None)
         class_name = None
-        if _self is not None and hasattr(_self, '__class__'):
-            class_name = _self.__class__.__name__
+        if _self is not None:
+            class_name = type_to_name(type(_self))
 
         var_ids = []
         # only process vars if we are under the time limit
diff --git a/src/deep/processor/variable_processor.py b/src/deep/processor/variable_processor.py
index aae8bf4..2f7a9a1 100644
--- a/src/deep/processor/variable_processor.py
+++ b/src/deep/processor/variable_processor.py
@@ -22,6 +22,7 @@ and many options to consider when collecting.
 """
 
 import abc
+from types import MappingProxyType
 from typing import List
 
 from deep import logging
@@ -179,6 +180,52 @@ def var_modifiers(var_name: str) -> List[str]:
     return []
 
 
+def type_to_name(variable_type: type) -> str:
+    """
+    Get the name of a type.
+
+    A meta class can hide, or replace, the name of its classes. In this case we use the name the class was created with.
+
+    :param variable_type: the type
+    :return: the name of the type
+    """
+    try:
+        name = variable_type.__name__
+        if type(name) is str:
+            return name
+    except BaseException:
+        logging.debug("Cannot get name of type.")
+    return type.__dict__['__name__'].__get__(variable_type)
+
+
+def value_to_text(value: any) -> str:
+    """
+    Convert any value to text.
+
+    The conversion runs the code of the value (e.g. __str__), so this can fail in any way. In this case a placeholder,
+    which does not use any code of the value, is used.
+
+    :param value: the value
+    :return: the text of the value
+    """
+    try:
+        text = str(value)
+        # __str__ can return a sub class of str, which can have more code
+        return text if type(text) is str else str.__str__(text)
+    except BaseException:
+        return '%s@%s' % (type_to_name(type(value)), id(value))
+
+
+def is_collection(variable_type: type) -> bool:
+    """
+    Check if the type is a collection, that we show as the size and the elements.
+
+    :param variable_type: the type
+    :return: True, if this is one of the built in collections
+    """
+    return any(variable_type is collection for collection in (dict, list, tuple, set, frozenset))
+
+
 def variable_to_string(variable_type, var_value):
     """
     Convert the variable to a string.
@@ -187,21 +234,16 @@ def variable_to_string(variable_type, var_value):
     :param var_value: the variable value
     :return: a string of the value
     """
-    if variable_type.__name__ in ITER_LIKE_TYPES:
+    if type_to_name(variable_type) in ITER_LIKE_TYPES:
         # if interator like then make a custom string - we do not want to mess with iterators
-        return 'Iterator of type: %s' % variable_type
-    elif variable_type is dict \
-            or variable_type.__name__ in LIST_LIKE_TYPES:
+        return 'Iterator of type: %s' % value_to_text(variable_type)
+    elif is_collection(variable_type):
         # if we are a collection then we do not want to use built in string as this can be very
         # large, and quite pointless, instead we just get the size of the collection
         return 'Size: %s' % len(var_value)
     else:
-        try:
-            # everything else just gets a string value
-            return str(var_value)
-        except Exception:
-            # it is possible for str to fail if there is a custom __str__ function
-            return f'{type(var_value)}@{id(var_value)}'
+        # everything else just gets a string value
+        return value_to_text(var_value)
 
 
 def process_variable(var_collector: Collector, node: NodeValue) -> VariableResponse:
@@ -237,7 +279,7 @@ def process_variable(var_collector: Collector, node: NodeValue) -> VariableRespo
                                                     var_collector.max_string_length)
 
     # create a variable for the lookup
-    variable = Variable(str(variable_type.__name__), variable_value_str, identity_hash_id, [], truncated)
+    variable = Variable(type_to_name(variable_type), variable_value_str, identity_hash_id, [], truncated)
     # add to lookup
     var_collector.append_variable(var_id, variable)
     # return result - and expand children
@@ -274,7 +316,7 @@ def process_child_nodes(
     """
     variable_type = type(var_value)
     # if the type is a type we do not want children from - return empty
-    if variable_type.__name__ in NO_CHILD_TYPES:
+    if type_to_name(variable_type) in NO_CHILD_TYPES:
         return []
 
     # if the depth is more than we are configured - return empty
@@ -317,19 +359,29 @@ def find_children_for_parent(var_collector: Collector, parent_node: ParentNode,
     :return: list of child nodes
     """
     if variable_type is dict:
-        return process_dict_breadth_first(parent_node, variable_type.__name__, value)
-    elif variable_type.__name__ in LIST_LIKE_TYPES:
+        return process_dict_breadth_first(parent_node, type_to_name(variable_type), value)
+    if is_collection(variable_type):
         return process_list_breadth_first(var_collector, parent_node, value)
-    elif isinstance(value, Exception):
-        return process_list_breadth_first(var_collector, parent_node, value.args)
-    elif hasattr(value, '__class__'):
-        return process_dict_breadth_first(parent_node, variable_type.__name__, value.__dict__, correct_names)
-    elif hasattr(value, '__dict__'):
-        return process_dict_breadth_first(parent_node, variable_type.__name__, value.__dict__)
-    else:
-        logging.debug("Unknown type processed %s", variable_type)
+
+    try:
+        # reading the attributes can run code of the value, so this can fail in any way
+        if issubclass(variable_type, Exception):
+            children = value.args
+        else:
+            children = value.__dict__
+    except BaseException:
+        # not all objects have attributes (e.g. builtins, or types that use __slots__)
+        logging.debug("No attributes available for type %s", type_to_name(variable_type))
         return []
 
+    if type(children) is tuple:
+        return process_list_breadth_first(var_collector, parent_node, children)
+    if type(children) is dict or type(children) is MappingProxyType:
+        return process_dict_breadth_first(parent_node, type_to_name(variable_type), children, correct_names)
+
+    logging.debug("Unknown attributes on type %s", type_to_name(variable_type))
+    return []
+
 
 def process_dict_breadth_first(parent_node, type_name, value, func=lambda x, y: y) -> List[Node]:
     """
@@ -345,10 +397,16 @@ def process_dict_breadth_first(parent_node, type_name, value, func=lambda x, y:
     :param func:
     :return (list): the collected child nodes
     """
-    # we wrap the keys() in a call to list to prevent concurrent changes
-    return [Node(value=NodeValue(func(type_name, key), value[key], key), parent=parent_node) for key in
-            list(value.keys()) if
-            key in value]
+    nodes = []
+    # we wrap the items() in a call to list to prevent concurrent changes, we do not look up the keys as this can run code
+    for key, val_ in list(value.items()):
+        if type(key) is str:
+            node_value = NodeValue(func(type_name, key), val_, key)
+        else:
+            # the keys of a dict can be any type
+            node_value = NodeValue(value_to_text(key), val_)
+        nodes.append(Node(value=node_value, parent=parent_node))
+    return nodes
 
 
 def process_list_breadth_first(var_collector: Collector, parent_node: ParentNode, value) -> List[Node]:
diff --git a/src/deep/processor/variable_set_processor.py b/src/deep/processor/variable_set_processor.py
index 537804f..91f6a76 100644
--- a/src/deep/processor/variable_set_processor.py
+++ b/src/deep/processor/variable_set_processor.py
@@ -33,7 +33,7 @@ from typing import Tuple, Optional, Dict
 from deep.api.tracepoint import Variable, VariableId
 from deep.processor.bfs import ParentNode, Node, NodeValue, breadth_first_search
 from deep.processor.variable_processor import process_variable, \
-    process_child_nodes, Collector
+    process_child_nodes, value_to_text, Collector
 
 
 class VariableCacheProvider:
@@ -131,7 +131,7 @@ class VariableSetProcessor(Collector):
         check_id = self.__var_cache.check_id(identity_hash_id)
         if check_id is not None:
             # this means the watch result is already in the var_lookup
-            return VariableId(check_id, name), str(value)
+            return VariableId(check_id, name), value_to_text(value)
 
         # else this is an unknown value so process breadth first
         var_ids = []
@@ -148,7 +148,7 @@ class VariableSetProcessor(Collector):
 
         var_id = self.__var_cache.check_id(identity_hash_id)
 
-        return VariableId(var_id, name), str(value)
+        return VariableId(var_id, name), value_to_text(value)
 
     def search_function(self, node: Node) -> bool:
         """
-- 
2.43.0


From 1ccbfbdc75a752feca60a830d9e23f5ff337d722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:45 +0000
Subject: [PATCH 04/29] fix: a value that is not valid UTF-8, or not text, does
 not stop a snapshot from being sent

---
 src/deep/grpc/__init__.py | 29 +++++++++++++++++++++++++----
 src/deep/push/__init__.py | 31 +++++++++++++++++--------------
 2 files changed, 42 insertions(+), 18 deletions(-)

diff --git a/src/deep/grpc/__init__.py b/src/deep/grpc/__init__.py
index 5bca57d..e35ff5f 100644
--- a/src/deep/grpc/__init__.py
+++ b/src/deep/grpc/__init__.py
@@ -34,6 +34,21 @@ from ..api.tracepoint.tracepoint_config import LabelExpression, MetricDefinition
 from ..api.tracepoint.trigger import build_trigger, Trigger
 
 
+def convert_text(value):
+    """
+    Convert text to a form that can be sent.
+
+    Only text that is valid UTF-8 can be sent, but a python string can have parts that are not (e.g. a file name, or an
+    escaped surrogate). These parts are escaped, so the rest of the text is still sent.
+
+    :param value: the text to convert
+    :return: the text, that can be encoded as UTF-8, or None if there is no text
+    """
+    if value is None:
+        return None
+    return str(value).encode('utf-8', 'backslashreplace').decode('utf-8')
+
+
 def convert_value(value):
     """
     Convert a value from the python type.
@@ -42,11 +57,17 @@ def convert_value(value):
     :return: the value wrapped in the appropriate AnyValue type.
     """
     """Convert the attributes to jaeger tags."""
+    if value is None:
+        # an empty value is how to represent no value, e.g. as an element of a list
+        return AnyValue()
     if isinstance(value, bool):
         return AnyValue(bool_value=value)
     if isinstance(value, str):
-        return AnyValue(string_value=value)
+        return AnyValue(string_value=convert_text(value))
     if isinstance(value, int):
+        if not -2 ** 63 <= value < 2 ** 63:
+            # too large to be sent as a number
+            return AnyValue(string_value=str(value))
         return AnyValue(int_value=value)
     if isinstance(value, float):
         return AnyValue(double_value=value)
@@ -54,14 +75,14 @@ def convert_value(value):
         return AnyValue(bytes_value=value)
     if isinstance(value, dict):
         return AnyValue(kvlist_value=__value_as_dict(value))
-    if isinstance(value, list):
+    if isinstance(value, (list, tuple)):
         return AnyValue(array_value=__value_as_list(value))
 
     return None
 
 
 def __value_as_dict(value):
-    return KeyValueList(values=[KeyValue(key=k, value=convert_value(v)) for k, v in value.items()])
+    return KeyValueList(values=[KeyValue(key=convert_text(k), value=convert_value(v)) for k, v in value.items()])
 
 
 def __value_as_list(value):
@@ -80,7 +101,7 @@ def convert_resource(resource):
 
 def __convert_attributes(attributes):
     return Resource(dropped_attributes_count=attributes.dropped,
-                    attributes=[KeyValue(key=k, value=convert_value(v)) for k, v in attributes.items()])
+                    attributes=[KeyValue(key=convert_text(k), value=convert_value(v)) for k, v in attributes.items()])
 
 
 def __convert_static_value(value):
diff --git a/src/deep/push/__init__.py b/src/deep/push/__init__.py
index 7f1e372..d11685f 100644
--- a/src/deep/push/__init__.py
+++ b/src/deep/push/__init__.py
@@ -35,18 +35,20 @@ __all__ = [PushService.__name__]
 
 from ..api.tracepoint import TracePointConfig as TrPoCo, EventSnapshot, StackFrame as StFr, WatchResult as WaRe, \
     Variable as Var, VariableId as VarId
-from ..grpc import convert_value
+from ..grpc import convert_text, convert_value
 
 
 def __convert_tracepoint(tracepoint: TrPoCo):
-    return TracePointConfig(ID=tracepoint.id, path=tracepoint.path, line_number=tracepoint.line_no,
-                            args=tracepoint.args,
-                            watches=tracepoint.watches)
+    return TracePointConfig(ID=convert_text(tracepoint.id), path=convert_text(tracepoint.path),
+                            line_number=tracepoint.line_no,
+                            args={convert_text(k): convert_text(v) for k, v in tracepoint.args.items()},
+                            watches=[convert_text(w) for w in tracepoint.watches])
 
 
 def __convert_frame(frame: StFr):
-    return StackFrame(file_name=frame.file_name, short_path=frame.short_path, method_name=frame.method_name,
-                      line_number=frame.line_number, class_name=frame.class_name, is_async=frame.is_async,
+    return StackFrame(file_name=convert_text(frame.file_name), short_path=convert_text(frame.short_path),
+                      method_name=convert_text(frame.method_name),
+                      line_number=frame.line_number, class_name=convert_text(frame.class_name), is_async=frame.is_async,
                       column_number=frame.column_number, variables=[__convert_variable_id(v) for v in frame.variables],
                       app_frame=frame.app_frame,
                       transpiled_file_name=frame.transpiled_file_name,
@@ -60,20 +62,20 @@ def __convert_watch_source(source):
 
 
 def __convert_watch(watch: WaRe):
-    return WatchResult(expression=watch.expression, good_result=__convert_variable_id(watch.result),
-                       error_result=watch.error, source=__convert_watch_source(watch.source))
+    return WatchResult(expression=convert_text(watch.expression), good_result=__convert_variable_id(watch.result),
+                       error_result=convert_text(watch.error), source=__convert_watch_source(watch.source))
 
 
 def __convert_variable(variable: Var):
-    return Variable(type=variable.type, value=variable.value, hash=variable.hash,
+    return Variable(type=convert_text(variable.type), value=convert_text(variable.value), hash=variable.hash,
                     children=[__convert_variable_id(c) for c in variable.children], truncated=variable.truncated)
 
 
 def __convert_variable_id(variable: VarId):
     if variable is None:
         return None
-    return VariableID(ID=variable.vid, name=variable.name, modifiers=variable.modifiers,
-                      original_name=variable.original_name)
+    return VariableID(ID=variable.vid, name=convert_text(variable.name), modifiers=variable.modifiers,
+                      original_name=convert_text(variable.original_name))
 
 
 def __convert_lookup(var_lookup):
@@ -95,11 +97,12 @@ def convert_snapshot(snapshot: EventSnapshot) -> Snapshot:
                         var_lookup=__convert_lookup(snapshot.var_lookup),
                         ts_nanos=snapshot.ts_nanos, frames=[__convert_frame(f) for f in snapshot.frames],
                         watches=[__convert_watch(w) for w in snapshot.watches],
-                        attributes=[KeyValue(key=k, value=convert_value(v)) for k, v in snapshot.attributes.items()],
+                        attributes=[KeyValue(key=convert_text(k), value=convert_value(v)) for k, v in
+                                    snapshot.attributes.items()],
                         duration_nanos=snapshot.duration_nanos,
-                        resource=[KeyValue(key=k, value=convert_value(v)) for k, v in
+                        resource=[KeyValue(key=convert_text(k), value=convert_value(v)) for k, v in
                                   snapshot.resource.attributes.items()],
-                        log_msg=snapshot.log_msg)
+                        log_msg=convert_text(snapshot.log_msg))
     except Exception:
         # todo should this return None?
         logging.exception("Error converting to protobuf")
-- 
2.43.0


From c1ac518d1ceed1f011ae3ba9965549a5e2f30e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:10 +0000
Subject: [PATCH 05/29] fix: each snapshot has its own closed set of variables,
 identified by the object, within the configured limits

---
 src/deep/api/tracepoint/constants.py          |  4 ++
 src/deep/api/tracepoint/trigger.py            | 10 ++--
 src/deep/processor/context/action_context.py  | 22 +++++++--
 src/deep/processor/context/snapshot_action.py | 44 ++++++++++++++----
 src/deep/processor/context/trigger_context.py |  4 --
 src/deep/processor/frame_collector.py         |  8 +---
 src/deep/processor/variable_set_processor.py  | 46 +++++++++++++++++--
 7 files changed, 108 insertions(+), 30 deletions(-)

diff --git a/src/deep/api/tracepoint/constants.py b/src/deep/api/tracepoint/constants.py
index 471825c..b9d931b 100644
--- a/src/deep/api/tracepoint/constants.py
+++ b/src/deep/api/tracepoint/constants.py
@@ -102,3 +102,7 @@ METHOD_STAGES = [METHOD_START, METHOD_CAPTURE, METHOD_END]
 
 WATCHES = "watches"
 """Key for watch config"""
+
+COLLECTION_LIMITS = ['MAX_TP_PROCESS_TIME', 'MAX_STRING_LENGTH', 'MAX_COLLECTION_SIZE', 'MAX_VARIABLES',
+                     'MAX_VAR_DEPTH']
+"""Keys for the limits of the data collected by a snapshot."""
diff --git a/src/deep/api/tracepoint/trigger.py b/src/deep/api/tracepoint/trigger.py
index bcc2b50..c114864 100644
--- a/src/deep/api/tracepoint/trigger.py
+++ b/src/deep/api/tracepoint/trigger.py
@@ -37,7 +37,8 @@ from typing import Optional, Dict, List
 
 from deep.api.tracepoint.constants import WINDOW_START, WINDOW_END, FIRE_COUNT, FIRE_PERIOD, LOG_MSG, WATCHES, \
     LINE_START, METHOD_START, METHOD_END, LINE_END, LINE_CAPTURE, METHOD_CAPTURE, NO_COLLECT, SNAPSHOT, CONDITION, \
-    FRAME_TYPE, STACK_TYPE, SINGLE_FRAME_TYPE, STACK, SPAN, STAGE, METHOD_NAME, LINE_STAGES, METHOD_STAGES, METHOD
+    FRAME_TYPE, STACK_TYPE, SINGLE_FRAME_TYPE, STACK, SPAN, STAGE, METHOD_NAME, LINE_STAGES, METHOD_STAGES, METHOD, \
+    COLLECTION_LIMITS
 from deep.api.tracepoint.tracepoint_config import TracepointWindow, TracepointExecutionStats, MetricDefinition, \
     TracePointConfig
 
@@ -561,14 +562,17 @@ def build_snapshot_action(tp_id: str, args: Dict[str, str], watches: List[str])
             return None
 
     condition = args[CONDITION] if CONDITION in args else None
-    return LocationAction(tp_id, condition, {
+    config = {
         WATCHES: watches,
         FRAME_TYPE: args.get(FRAME_TYPE, SINGLE_FRAME_TYPE),
         STACK_TYPE: args.get(STACK_TYPE, STACK),
         FIRE_COUNT: args.get(FIRE_COUNT, '1'),
         FIRE_PERIOD: args.get(FIRE_PERIOD, '1000'),
         LOG_MSG: args.get(LOG_MSG, None),
-    }, LocationAction.ActionType.Snapshot)
+    }
+    # the limits are only part of the config if they are set on the tracepoint
+    config.update({limit: args[limit] for limit in COLLECTION_LIMITS if limit in args})
+    return LocationAction(tp_id, condition, config, LocationAction.ActionType.Snapshot)
 
 
 def build_log_action(tp_id: str, args: Dict[str, str]) -> Optional[LocationAction]:
diff --git a/src/deep/processor/context/action_context.py b/src/deep/processor/context/action_context.py
index 06b9de9..45a9967 100644
--- a/src/deep/processor/context/action_context.py
+++ b/src/deep/processor/context/action_context.py
@@ -35,13 +35,17 @@ import deep.logging
 from deep.api.tracepoint.eventsnapshot import WATCH_SOURCE_CAPTURE
 from deep.logging import logging
 from deep.api.tracepoint import WatchResult, Variable
-from deep.processor.variable_set_processor import VariableSetProcessor
+from deep.processor.variable_set_processor import VariableSetProcessor, VariableCacheProvider, \
+    VariableProcessorConfig
 from deep.utils import str2bool
 
 if TYPE_CHECKING:
     from deep.processor.context.trigger_context import TriggerContext
     from deep.api.tracepoint.trigger import LocationAction
 
+VARIABLE_LIMIT_REACHED = 'variable limit reached'
+"""The error of a watch that cannot be recorded, as the max number of variables is already recorded."""
+
 
 class ActionContext(abc.ABC):
     """A context for the processing of an action."""
@@ -55,6 +59,8 @@ class ActionContext(abc.ABC):
         """
         self.trigger_context: 'TriggerContext' = parent
         self.location_action: 'LocationAction' = action
+        # each action has its own variables, so the result of one action does not depend on the others
+        self.var_cache = VariableCacheProvider()
         self._triggered = False
 
     def __enter__(self):
@@ -66,6 +72,11 @@ class ActionContext(abc.ABC):
         if self.has_triggered():
             self.location_action.record_triggered(self.trigger_context.ts)
 
+    @property
+    def collection_config(self) -> VariableProcessorConfig:
+        """The variable processing config."""
+        return VariableProcessorConfig()
+
     def eval_watch(self, watch: str, source: str) -> Tuple[WatchResult, Dict[str, Variable], str]:
         """
         Evaluate an expression in the current frame.
@@ -74,11 +85,13 @@ class ActionContext(abc.ABC):
         :param watch: The watch expression to evaluate.
         :return: Tuple with WatchResult, collected variables, and the log string for the expression
         """
-        var_processor = VariableSetProcessor({}, self.trigger_context.var_cache)
+        var_processor = VariableSetProcessor({}, self.var_cache, self.collection_config)
 
         try:
             result = self.trigger_context.evaluate_expression(watch)
             variable_id, log_str = var_processor.process_variable(watch, result)
+            if variable_id is None:
+                return WatchResult(source, watch, None, VARIABLE_LIMIT_REACHED), var_processor.var_lookup, log_str
 
             return WatchResult(source, watch, variable_id), var_processor.var_lookup, log_str
         except BaseException as e:
@@ -93,8 +106,11 @@ class ActionContext(abc.ABC):
         :param variable: the value to process
         :return: Tuple with WatchResult, collected variables, and the log string for the expression
         """
-        var_processor = VariableSetProcessor({}, self.trigger_context.var_cache)
+        var_processor = VariableSetProcessor({}, self.var_cache, self.collection_config)
         variable_id, log_str = var_processor.process_variable(name, variable)
+        if variable_id is None:
+            return WatchResult(WATCH_SOURCE_CAPTURE, name, None, VARIABLE_LIMIT_REACHED), \
+                var_processor.var_lookup, log_str
 
         return WatchResult(WATCH_SOURCE_CAPTURE, name, variable_id), var_processor.var_lookup, log_str
 
diff --git a/src/deep/processor/context/snapshot_action.py b/src/deep/processor/context/snapshot_action.py
index 0c70968..f38f373 100644
--- a/src/deep/processor/context/snapshot_action.py
+++ b/src/deep/processor/context/snapshot_action.py
@@ -53,20 +53,26 @@ class SnapshotActionContext(FrameCollectorContext, ActionContext):
     @property
     def max_tp_process_time(self) -> int:
         """The max time to spend processing a tracepoint."""
-        return self.location_action.config.get('MAX_TP_PROCESS_TIME', 100)
+        return self.__get_max('MAX_TP_PROCESS_TIME', 100)
 
     @property
     def collection_config(self) -> VariableProcessorConfig:
         """The variable processing config."""
         config = VariableProcessorConfig()
-        config.max_string_length = self.location_action.config.get('MAX_STRING_LENGTH',
-                                                                   config.DEFAULT_MAX_STRING_LENGTH)
-        config.max_collection_size = self.location_action.config.get('MAX_COLLECTION_SIZE',
-                                                                     config.DEFAULT_MAX_COLLECTION_SIZE)
-        config.max_variables = self.location_action.config.get('MAX_VARIABLES', config.DEFAULT_MAX_VARIABLES)
-        config.max_var_depth = self.location_action.config.get('MAX_VAR_DEPTH', config.DEFAULT_MAX_VAR_DEPTH)
+        config.max_string_length = self.__get_max('MAX_STRING_LENGTH', config.DEFAULT_MAX_STRING_LENGTH)
+        config.max_collection_size = self.__get_max('MAX_COLLECTION_SIZE', config.DEFAULT_MAX_COLLECTION_SIZE)
+        config.max_variables = self.__get_max('MAX_VARIABLES', config.DEFAULT_MAX_VARIABLES)
+        config.max_var_depth = self.__get_max('MAX_VAR_DEPTH', config.DEFAULT_MAX_VAR_DEPTH)
         return config
 
+    def __get_max(self, name: str, default_value: int) -> int:
+        # the args of a tracepoint are text
+        try:
+            value = int(self.location_action.config.get(name, default_value))
+        except (ValueError, TypeError, OverflowError):
+            return default_value
+        return value if value >= 0 else default_value
+
     @property
     def ts(self) -> int:
         """The timestamp in nanoseconds for this trigger."""
@@ -110,7 +116,7 @@ class SnapshotActionContext(FrameCollectorContext, ActionContext):
     def _process_action(self):
         collector = FrameCollector(self, self.trigger_context.frame)
 
-        frames, variables = collector.collect(self.trigger_context.vars, self.trigger_context.var_cache)
+        frames, variables = collector.collect({}, self.var_cache)
 
         snapshot = EventSnapshot(self.location_action.tracepoint, self.trigger_context.ts,
                                  self.trigger_context.resource, frames, variables)
@@ -124,7 +130,7 @@ class SnapshotActionContext(FrameCollectorContext, ActionContext):
         log_msg = self.log_msg
         if log_msg is not None:
             # create and process the log message
-            context = LogActionContext(self.trigger_context, LocationAction(self.location_action.id, None, {
+            context = SnapshotLogActionContext(self, LocationAction(self.location_action.id, None, {
                 LOG_MSG: log_msg,
             }, LocationAction.ActionType.Log))
             log, watches, log_vars = context.process_log(log_msg)
@@ -152,6 +158,26 @@ class SnapshotActionContext(FrameCollectorContext, ActionContext):
         return stage == LINE_CAPTURE or stage == METHOD_CAPTURE
 
 
+class SnapshotLogActionContext(LogActionContext):
+    """The context to use when processing the log message of a snapshot."""
+
+    def __init__(self, parent: SnapshotActionContext, action: LocationAction):
+        """
+        Create a new context, that collects into the snapshot.
+
+        :param parent: the context of the snapshot
+        :param action: the log action
+        """
+        super().__init__(parent.trigger_context, action)
+        self.var_cache = parent.var_cache
+        self.__collection_config = parent.collection_config
+
+    @property
+    def collection_config(self) -> VariableProcessorConfig:
+        """The variable processing config."""
+        return self.__collection_config
+
+
 class DeferredSnapshotActionResult(ActionResult):
     """The result of a deferred snapshot action."""
 
diff --git a/src/deep/processor/context/trigger_context.py b/src/deep/processor/context/trigger_context.py
index 2f6db21..00fe677 100644
--- a/src/deep/processor/context/trigger_context.py
+++ b/src/deep/processor/context/trigger_context.py
@@ -21,7 +21,6 @@ from typing import Dict, Optional, List
 
 import deep.logging
 from deep.api.plugin import TracepointLogger
-from deep.api.tracepoint import Variable
 from deep.api.tracepoint.trigger import LocationAction
 from deep.config import ConfigService
 from deep.processor.context.action_context import NoActionContext, ActionContext
@@ -31,7 +30,6 @@ from deep.processor.context.metric_action import MetricActionContext
 from deep.processor.context.snapshot_action import SnapshotActionContext
 from deep.processor.context.span_action import SpanActionContext
 from deep.processor.frame_collector import FrameCollector
-from deep.processor.variable_set_processor import VariableCacheProvider
 from deep.push import PushService
 from deep.utils import time_ns
 
@@ -63,9 +61,7 @@ class TriggerContext:
         self.__ts: int = time_ns()
         self.__id: str = str(uuid.uuid4())
         self.__frame_collector: Optional[FrameCollector] = None
-        self.var_cache = VariableCacheProvider()
         self.callbacks: List[ActionCallback] = []
-        self.vars: Dict[str: Variable] = {}
 
     def __enter__(self):
         """Start the 'with' statement and open this context."""
diff --git a/src/deep/processor/frame_collector.py b/src/deep/processor/frame_collector.py
index e132805..3854fd3 100644
--- a/src/deep/processor/frame_collector.py
+++ b/src/deep/processor/frame_collector.py
@@ -148,13 +148,7 @@ class FrameCollector:
         # only process vars if we are under the time limit
         if collect_vars and not self.__time_exceeded():
             processor = VariableSetProcessor(var_lookup, var_cache, self.__source.collection_config)
-            # we process the vars as a single dict of 'locals'
-            variable, log_str = processor.process_variable("locals", f_locals)
-            # now ee 'unwrap' the locals, so they are on the frame directly.
-            if variable.vid in var_lookup:
-                variable_val = var_lookup[variable.vid]
-                del var_lookup[variable.vid]
-                var_ids = variable_val.children
+            var_ids = processor.process_locals(f_locals)
         short_path, app_frame = self.parse_short_name(filename)
         return StackFrame(filename, short_path, func_name, lineno, var_ids, class_name,
                           app_frame=app_frame)
diff --git a/src/deep/processor/variable_set_processor.py b/src/deep/processor/variable_set_processor.py
index 91f6a76..b613979 100644
--- a/src/deep/processor/variable_set_processor.py
+++ b/src/deep/processor/variable_set_processor.py
@@ -28,12 +28,12 @@
 
 """Handle the processing of variables sets."""
 
-from typing import Tuple, Optional, Dict
+from typing import Tuple, Optional, Dict, List
 
 from deep.api.tracepoint import Variable, VariableId
 from deep.processor.bfs import ParentNode, Node, NodeValue, breadth_first_search
 from deep.processor.variable_processor import process_variable, \
-    process_child_nodes, value_to_text, Collector
+    process_child_nodes, process_dict_breadth_first, value_to_text, Collector
 
 
 class VariableCacheProvider:
@@ -48,6 +48,7 @@ class VariableCacheProvider:
     def __init__(self):
         """Create new cache."""
         self.__cache = {}
+        self.__values = []
 
     def check_id(self, identity_hash_id) -> Optional[str]:
         """
@@ -77,6 +78,17 @@ class VariableCacheProvider:
         self.__cache[identity_hash_id] = new_id
         return new_id
 
+    def keep(self, value: any):
+        """
+        Keep a value for as long as this cache is used.
+
+        We identify values by their identity, python can use the same identity again once a value is deleted. So we have
+        to ensure that the values (e.g. the result of a watch) are not deleted while we still know the identity.
+
+        :param value: the value to keep
+        """
+        self.__values.append(value)
+
 
 class VariableProcessorConfig:
     """Variable process config."""
@@ -119,13 +131,35 @@ class VariableSetProcessor(Collector):
         self.__var_cache = var_cache
         self.__config = config
 
-    def process_variable(self, name: str, value: any) -> Tuple[VariableId, str]:
+    def process_locals(self, f_locals: Dict[str, any]) -> List[VariableId]:
+        """
+        Process the local variables of a frame.
+
+        The dict of the locals is not a variable of the frame. So it is not recorded, unless the program uses it.
+
+        :param f_locals: the local variables
+        :return: the ids of the local variables
+        """
+        var_ids = []
+
+        class FrameParent(ParentNode):
+
+            def add_child(self, child):
+                var_ids.append(child)
+
+        root = Node()
+        root.add_children(process_dict_breadth_first(FrameParent(), 'dict', f_locals))
+        breadth_first_search(root, self.search_function)
+
+        return var_ids
+
+    def process_variable(self, name: str, value: any) -> Tuple[Optional[VariableId], str]:
         """
         Process a variable name and value.
 
         :param name: the variable name
         :param value: the variable value
-        :return:
+        :return: the variable id, or None if we cannot record more variables, and the text of the value
         """
         identity_hash_id = str(id(value))
         check_id = self.__var_cache.check_id(identity_hash_id)
@@ -147,6 +181,9 @@ class VariableSetProcessor(Collector):
         breadth_first_search(Node(None, initial_nodes, root_parent), self.search_function)
 
         var_id = self.__var_cache.check_id(identity_hash_id)
+        if var_id is None:
+            # we have exceeded the var count, so there is no variable to refer to
+            return None, value_to_text(value)
 
         return VariableId(var_id, name), value_to_text(value)
 
@@ -169,6 +206,7 @@ class VariableSetProcessor(Collector):
             return True
 
         # process this node variable
+        self.__var_cache.keep(node_value.value)
         process_result = process_variable(self, node_value)
         var_id = process_result.variable_id
         # add the result to the parent - this maintains the hierarchy in the var look up
-- 
2.43.0


From 389a5c433c8a27ceb0eb62b689b1692f298a88ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:45 +0000
Subject: [PATCH 06/29] fix: snapshots name private attributes and the
 tracepoint as they are in the program and the configuration

---
 src/deep/api/tracepoint/trigger.py       | 19 ++++++++++++++++++-
 src/deep/processor/variable_processor.py |  5 +++--
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/deep/api/tracepoint/trigger.py b/src/deep/api/tracepoint/trigger.py
index c114864..f584f08 100644
--- a/src/deep/api/tracepoint/trigger.py
+++ b/src/deep/api/tracepoint/trigger.py
@@ -86,6 +86,7 @@ class LocationAction(object):
         self.__stats = TracepointExecutionStats()
         self.__action_type = action_type
         self.__location: Optional['Location'] = None
+        self.__tracepoint: Optional[TracePointConfig] = None
 
     @property
     def id(self) -> str:
@@ -145,6 +146,8 @@ class LocationAction(object):
     @property
     def tracepoint(self) -> TracePointConfig:
         """Get the tracepoint config for this trigger."""
+        if self.__tracepoint is not None:
+            return self.__tracepoint
         args = dict(self.__config)
         if WATCHES in args:
             del args[WATCHES]
@@ -228,6 +231,19 @@ class LocationAction(object):
         self.__location = location
         return self
 
+    def with_tracepoint(self, tracepoint: TracePointConfig) -> 'LocationAction':
+        """
+        Attach the tracepoint to this action.
+
+        The config of an action is only the part of the tracepoint that is needed for the action. So we attach the
+        tracepoint, as it was configured, to be able to report it.
+
+        :param tracepoint: the tracepoint that created this action
+        :return: self
+        """
+        self.__tracepoint = tracepoint
+        return self
+
 
 class Location(abc.ABC):
     """A location is the line or method at which actions should be performed."""
@@ -669,7 +685,8 @@ def build_trigger(tp_id: str, path: str, line_no: int, args: Dict[str, str], wat
     metric_action = build_metric_action(tp_id, args, metrics)
     span_action = build_span_action(tp_id, args)
 
-    actions = [action for action in [snap_action, log_action, metric_action, span_action] if
+    tracepoint = TracePointConfig(tp_id, path, line_no, args, watches, metrics)
+    actions = [action.with_tracepoint(tracepoint) for action in [snap_action, log_action, metric_action, span_action] if
                action is not None]
 
     return Trigger(location, actions)
diff --git a/src/deep/processor/variable_processor.py b/src/deep/processor/variable_processor.py
index 2f7a9a1..f4a39bb 100644
--- a/src/deep/processor/variable_processor.py
+++ b/src/deep/processor/variable_processor.py
@@ -341,8 +341,9 @@ def correct_names(name, val):
     :param val: the variable name we are modifying
     :return: the new name to use
     """
-    prefix = "_" + name
-    if val.startswith(prefix):
+    # python removes the leading underscores of the class name, and does not rename dunder names (e.g. __init__)
+    prefix = "_" + name.lstrip("_")
+    if val.startswith(prefix + "__") and not val.endswith("__"):
         return val[len(prefix):]
     return val
 
-- 
2.43.0


From 67d1868e5f944c5819c4f568404c045013d21ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:00 +0000
Subject: [PATCH 07/29] fix: fire count, fire period and window hold for any
 number of threads, and as configured

---
 src/deep/api/tracepoint/trigger.py           | 40 +++++++++++++++++---
 src/deep/processor/context/action_context.py | 11 +++++-
 src/deep/processor/trigger_handler.py        |  2 +-
 3 files changed, 44 insertions(+), 9 deletions(-)

diff --git a/src/deep/api/tracepoint/trigger.py b/src/deep/api/tracepoint/trigger.py
index f584f08..b0fc576 100644
--- a/src/deep/api/tracepoint/trigger.py
+++ b/src/deep/api/tracepoint/trigger.py
@@ -30,6 +30,7 @@
 
 import abc
 import inspect
+import threading
 from enum import Enum
 from types import FrameType
 
@@ -82,8 +83,9 @@ class LocationAction(object):
         self.__id = tp_id
         self.__condition = condition
         self.__config = config
-        self.__window = TracepointWindow(self.__config.get(WINDOW_START, 0), self.__config.get(WINDOW_END, 0))
+        self.__window = TracepointWindow(self.__get_int(WINDOW_START, 0), self.__get_int(WINDOW_END, 0))
         self.__stats = TracepointExecutionStats()
+        self.__lock = threading.Lock()
         self.__action_type = action_type
         self.__location: Optional['Location'] = None
         self.__tracepoint: Optional[TracePointConfig] = None
@@ -171,19 +173,36 @@ class LocationAction(object):
         if self.fire_count != -1 and self.fire_count <= self.__stats.fire_count:
             return False
 
-        # Are we in the time window?
-        if not self.__window.in_window(ts):
+        # Are we in the time window? (the window is in ms)
+        if not self.__window.in_window(ts // 1_000_000):
             return False
 
         # Have we fired too quickly?
         last_fire = self.__stats.last_fire
-        if last_fire != 0:
+        fire_period = self.__fire_period_ns()
+        if last_fire != 0 and fire_period > 0:
             time_since_last = ts - last_fire
-            if time_since_last < self.__fire_period_ns():
+            if time_since_last < fire_period:
                 return False
 
         return True
 
+    def claim(self, ts) -> bool:
+        """
+        Claim, and record, one fire of this action.
+
+        Many threads can be at the same location at the same time. So we have to check the limits and record the fire in
+        one step.
+
+        :param ts: the time the tracepoint has been triggered
+        :return: true, if we should collect data; else false
+        """
+        with self.__lock:
+            if not self.can_trigger(ts):
+                return False
+            self.record_triggered(ts)
+            return True
+
     def record_triggered(self, ts):
         """
         Record a fire.
@@ -197,7 +216,7 @@ class LocationAction(object):
     def __get_int(self, name: str, default_value: int):
         try:
             return int(self.__config.get(name, default_value))
-        except ValueError:
+        except (ValueError, TypeError, OverflowError):
             return default_value
 
     def __str__(self):
@@ -564,6 +583,11 @@ class FunctionLocation(Location):
         return False
 
 
+def __window_config(args: Dict[str, str]) -> Dict[str, str]:
+    # the window is only part of the config if it is set on the tracepoint
+    return {key: args[key] for key in (WINDOW_START, WINDOW_END) if key in args}
+
+
 def build_snapshot_action(tp_id: str, args: Dict[str, str], watches: List[str]) -> Optional[LocationAction]:
     """
     Create an action to create a snapshot.
@@ -584,6 +608,7 @@ def build_snapshot_action(tp_id: str, args: Dict[str, str], watches: List[str])
         STACK_TYPE: args.get(STACK_TYPE, STACK),
         FIRE_COUNT: args.get(FIRE_COUNT, '1'),
         FIRE_PERIOD: args.get(FIRE_PERIOD, '1000'),
+        **__window_config(args),
         LOG_MSG: args.get(LOG_MSG, None),
     }
     # the limits are only part of the config if they are set on the tracepoint
@@ -609,6 +634,7 @@ def build_log_action(tp_id: str, args: Dict[str, str]) -> Optional[LocationActio
         LOG_MSG: args[LOG_MSG],
         FIRE_COUNT: args.get(FIRE_COUNT, '1'),
         FIRE_PERIOD: args.get(FIRE_PERIOD, '1000'),
+        **__window_config(args),
     }, LocationAction.ActionType.Log)
 
 
@@ -629,6 +655,7 @@ def build_metric_action(tp_id: str, args: Dict[str, str], metrics: List[MetricDe
         'metrics': metrics,
         FIRE_COUNT: args.get(FIRE_COUNT, '1'),
         FIRE_PERIOD: args.get(FIRE_PERIOD, '1000'),
+        **__window_config(args),
     }, LocationAction.ActionType.Metric)
 
 
@@ -648,6 +675,7 @@ def build_span_action(tp_id: str, args: Dict[str, str]) -> Optional[LocationActi
         SPAN: args[SPAN],
         FIRE_COUNT: args.get(FIRE_COUNT, '1'),
         FIRE_PERIOD: args.get(FIRE_PERIOD, '1000'),
+        **__window_config(args),
     }, LocationAction.ActionType.Span)
 
 
diff --git a/src/deep/processor/context/action_context.py b/src/deep/processor/context/action_context.py
index 45a9967..4e9d179 100644
--- a/src/deep/processor/context/action_context.py
+++ b/src/deep/processor/context/action_context.py
@@ -69,8 +69,7 @@ class ActionContext(abc.ABC):
 
     def __exit__(self, exception_type, exception_value, exception_traceback):
         """Exit and close the context."""
-        if self.has_triggered():
-            self.location_action.record_triggered(self.trigger_context.ts)
+        pass
 
     @property
     def collection_config(self) -> VariableProcessorConfig:
@@ -121,6 +120,14 @@ class ActionContext(abc.ABC):
         finally:
             self._triggered = True
 
+    def claim(self) -> bool:
+        """
+        Claim, and record, one fire of the action.
+
+        :return: True, if the action should be processed
+        """
+        return self.location_action.claim(self.trigger_context.ts)
+
     @abc.abstractmethod
     def _process_action(self):
         pass
diff --git a/src/deep/processor/trigger_handler.py b/src/deep/processor/trigger_handler.py
index e049359..a17166b 100644
--- a/src/deep/processor/trigger_handler.py
+++ b/src/deep/processor/trigger_handler.py
@@ -155,7 +155,7 @@ class TriggerHandler:
                     try:
                         ctx: ActionContext
                         with trigger_context.action_context(action) as ctx:
-                            if ctx.can_trigger():
+                            if ctx.can_trigger() and ctx.claim():
                                 ctx.process()
                     except BaseException:
                         logging.exception("Cannot process action %s", action)
-- 
2.43.0


From 4f82483901ac7790ee1e5c8c3f059539535ce793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:48 +0000
Subject: [PATCH 08/29] fix: expressions see exactly the names of the paused
 frame, and a failing expression is an error (or false) for itself only

---
 src/deep/processor/context/action_context.py  | 16 +++++++++++-----
 src/deep/processor/context/metric_action.py   |  4 ++--
 src/deep/processor/context/trigger_context.py | 14 +++++++++-----
 3 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/deep/processor/context/action_context.py b/src/deep/processor/context/action_context.py
index 4e9d179..a2e5076 100644
--- a/src/deep/processor/context/action_context.py
+++ b/src/deep/processor/context/action_context.py
@@ -33,8 +33,8 @@ from typing import Tuple, TYPE_CHECKING, Dict
 
 import deep.logging
 from deep.api.tracepoint.eventsnapshot import WATCH_SOURCE_CAPTURE
-from deep.logging import logging
 from deep.api.tracepoint import WatchResult, Variable
+from deep.processor.variable_processor import value_to_text
 from deep.processor.variable_set_processor import VariableSetProcessor, VariableCacheProvider, \
     VariableProcessorConfig
 from deep.utils import str2bool
@@ -94,8 +94,9 @@ class ActionContext(abc.ABC):
 
             return WatchResult(source, watch, variable_id), var_processor.var_lookup, log_str
         except BaseException as e:
-            logging.exception("Error evaluating watch %s", watch)
-            return WatchResult(source, watch, None, str(e)), {}, str(e)
+            deep.logging.debug("Error evaluating watch %s", watch)
+            error = value_to_text(e)
+            return WatchResult(source, watch, None, error), var_processor.var_lookup, error
 
     def process_capture_variable(self, name: str, variable: any) -> Tuple[WatchResult, Dict[str, Variable], str]:
         """
@@ -151,8 +152,13 @@ class ActionContext(abc.ABC):
             return False
         if self.location_action.condition is None or len(self.location_action.condition.strip()) == 0:
             return True
-        result = self.trigger_context.evaluate_expression(self.location_action.condition)
-        return str2bool(str(result))
+        try:
+            result = self.trigger_context.evaluate_expression(self.location_action.condition)
+            return str2bool(str(result))
+        except BaseException:
+            # we do not collect if we do not know that the condition is true
+            deep.logging.debug("Error evaluating condition %s", self.location_action.condition)
+            return False
 
 
 class NoActionContext(ActionContext):
diff --git a/src/deep/processor/context/metric_action.py b/src/deep/processor/context/metric_action.py
index 2c5cad2..1671a6c 100644
--- a/src/deep/processor/context/metric_action.py
+++ b/src/deep/processor/context/metric_action.py
@@ -58,7 +58,7 @@ class MetricActionContext(ActionContext):
         if metric.expression:
             try:
                 metric_value = float(self.trigger_context.evaluate_expression(metric.expression))
-            except Exception:
+            except BaseException:
                 deep.logging.exception("Cannot process metric expression %s", metric.expression)
 
         labels = {}
@@ -68,7 +68,7 @@ class MetricActionContext(ActionContext):
                 if label.expression:
                     try:
                         value = str(self.trigger_context.evaluate_expression(label.expression))
-                    except Exception:
+                    except BaseException:
                         deep.logging.exception("Cannot process metric label expression %s: %s", key, label.expression)
                         value = 'expression failed'
                 else:
diff --git a/src/deep/processor/context/trigger_context.py b/src/deep/processor/context/trigger_context.py
index 00fe677..7eb3815 100644
--- a/src/deep/processor/context/trigger_context.py
+++ b/src/deep/processor/context/trigger_context.py
@@ -143,13 +143,17 @@ class TriggerContext:
         """
         Evaluate an expression to a value.
 
+        The expression can use all the names that are visible in the frame. We use copies of these, as an expression can
+        set names, and nested scopes (e.g. generator expressions) of an expression can only see global names.
+
         :param expression: the expression
-        :return: the result of the expression, or the exception that was raised.
+        :return: the result of the expression
+        :raises: the exception that was raised by the expression
         """
-        try:
-            return eval(expression, None, self.__frame.f_locals)
-        except BaseException as e:
-            return e
+        f_locals = dict(self.__frame.f_locals)
+        f_globals = dict(getattr(self.__frame, 'f_globals', {}))
+        f_globals.update(f_locals)
+        return eval(expression, f_globals, f_locals)
 
     def attach_result(self, result: ActionResult):
         """
-- 
2.43.0


From 984cfb28218d74c5759ba62ba373d709fd25cf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:18 +0000
Subject: [PATCH 09/29] fix: log messages evaluate any expression, survive
 malformed templates, and are labelled with tracepoint and context

---
 src/deep/processor/context/log_action.py | 134 ++++++++++++++++++-----
 1 file changed, 107 insertions(+), 27 deletions(-)

diff --git a/src/deep/processor/context/log_action.py b/src/deep/processor/context/log_action.py
index 3216168..5f0e22c 100644
--- a/src/deep/processor/context/log_action.py
+++ b/src/deep/processor/context/log_action.py
@@ -28,8 +28,10 @@
 
 """Handling for log actions."""
 
-from typing import TYPE_CHECKING, List, Dict, Optional
+import string
+from typing import TYPE_CHECKING, List, Dict, Optional, Callable
 
+import deep.logging
 from .action_context import ActionContext
 from .action_results import ActionResult, ActionCallback
 from ...api.tracepoint.constants import LOG_MSG
@@ -43,6 +45,101 @@ if TYPE_CHECKING:
     from .trigger_context import TriggerContext
 
 
+def is_expression(text: str) -> bool:
+    """
+    Check if the text is an expression that we can evaluate.
+
+    :param text: the text to check
+    :return: True, if the text is a valid expression
+    """
+    try:
+        compile(text.strip(), '<expression>', 'eval')
+        return True
+    except Exception:
+        return False
+
+
+def find_field_end(message: str, start: int) -> int:
+    """
+    Find the end of a field in a log message.
+
+    An expression can use any character (e.g. '{', '}', ':' or '!'), so the first '}' that completes an expression is the
+    end of the field. When there is no expression, then it is the '}' that closes the '{' of the field.
+
+    :param message: the log message
+    :param start: the index of the first character of the field
+    :return: the index of the '}' that ends the field, or -1 if there is no end
+    """
+    end = message.find('}', start)
+    while end != -1:
+        if is_expression(message[start:end]):
+            return end
+        end = message.find('}', end + 1)
+
+    depth = 1
+    for index in range(start, len(message)):
+        if message[index] == '{':
+            depth += 1
+        elif message[index] == '}':
+            depth -= 1
+            if depth == 0:
+                return index
+    return -1
+
+
+def format_field(field: str, evaluate: Callable[[str], str]) -> str:
+    """
+    Format the field of a log message.
+
+    :param field: the field, this is an expression with an optional conversion and format spec
+    :param evaluate: a function that will evaluate an expression to the text to use
+    :return: the text to use for the field
+    """
+    if is_expression(field):
+        return evaluate(field)
+    formatter = string.Formatter()
+    try:
+        (_, name, spec, conversion), = formatter.parse('{%s}' % field)
+    except ValueError:
+        name, spec, conversion = field, None, None
+    if not is_expression(name):
+        # we evaluate this to get the error
+        return evaluate(field)
+    text = evaluate(name)
+    try:
+        return formatter.format_field(formatter.convert_field(text, conversion), format_message(spec, evaluate))
+    except ValueError:
+        deep.logging.debug("Cannot format field %s", field)
+        return text
+
+
+def format_message(message: str, evaluate: Callable[[str], str]) -> str:
+    """
+    Format a log message.
+
+    :param message: the configured log message
+    :param evaluate: a function that will evaluate an expression to the text to use
+    :return: the log message with the fields replaced
+    """
+    text = []
+    index = 0
+    while index < len(message):
+        char = message[index]
+        if char in '{}' and message[index:index + 2] == char * 2:
+            # this is an escaped brace
+            text.append(char)
+            index += 2
+            continue
+        end = find_field_end(message, index + 1) if char == '{' else -1
+        if end == -1:
+            text.append(char)
+            index += 1
+        else:
+            text.append(format_field(message[index + 1:end], evaluate))
+            index = end + 1
+    return ''.join(text)
+
+
 class LogActionContext(ActionContext):
     """The context for processing a log action."""
 
@@ -66,32 +163,15 @@ class LogActionContext(ActionContext):
         watch_results = []
         _var_lookup = {}
 
-        class FormatDict(dict):
-            """This type is used in the log process to ensure that missing values are formatted don't error."""
-
-            def __missing__(self, key):
-                return "{%s}" % key
-
-        import string
-
-        class FormatExtractor(string.Formatter):
-            """
-            Allows logs to be formatted correctly.
-
-            This type allows us to use watches within log strings and collect the watch
-            as well as interpolate the values.
-            """
-
-            def get_field(self, field_name, args, kwargs):
-                # evaluate watch
-                watch, var_lookup, log_str = ctx_self.eval_watch(field_name, WATCH_SOURCE_LOG)
-                # collect data
-                watch_results.append(watch)
-                _var_lookup.update(var_lookup)
-
-                return log_str, field_name
+        def evaluate(expression: str) -> str:
+            # evaluate watch
+            watch, var_lookup, log_str = ctx_self.eval_watch(expression, WATCH_SOURCE_LOG)
+            # collect data
+            watch_results.append(watch)
+            _var_lookup.update(var_lookup)
+            return log_str
 
-        log_msg = "[deep] %s" % FormatExtractor().vformat(log_msg, (), FormatDict(self.trigger_context.locals))
+        log_msg = "[deep] %s" % format_message(log_msg, evaluate)
         return log_msg, watch_results, _var_lookup
 
 
@@ -118,5 +198,5 @@ class LogActionResult(ActionResult):
         """
         tracepoint_logger = ctx.config.tracepoint_logger
         if tracepoint_logger:
-            tracepoint_logger.log_tracepoint(self.log, ctx.id, self.action.id)
+            tracepoint_logger.log_tracepoint(self.log, self.action.id, ctx.id)
         return None
-- 
2.43.0


From da4d930f8b4338382be04c3ee7ea67e5ad22d7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:46 +0000
Subject: [PATCH 10/29] fix: a failing plugin costs only its own contribution

---
 src/deep/api/deep.py                          |  4 ++--
 src/deep/api/plugin/__init__.py               | 11 +++++++----
 src/deep/processor/context/metric_action.py   |  7 +++++--
 src/deep/processor/context/snapshot_action.py |  2 +-
 src/deep/processor/context/span_action.py     | 15 +++++++++++----
 src/deep/processor/context/trigger_context.py |  4 ++--
 6 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/src/deep/api/deep.py b/src/deep/api/deep.py
index 4aef952..07045dd 100644
--- a/src/deep/api/deep.py
+++ b/src/deep/api/deep.py
@@ -63,8 +63,8 @@ class Deep:
                 plugin_resource = provider.resource()
                 if plugin_resource:
                     default_resource = default_resource.merge(plugin_resource)
-            except Exception:
-                deep.logging.exception("Failed to process plugin resource {}", provider.name)
+            except BaseException:
+                deep.logging.exception("Failed to process plugin resource %s", provider)
 
         self.config.resource = default_resource
         self.trigger_handler.start()
diff --git a/src/deep/api/plugin/__init__.py b/src/deep/api/plugin/__init__.py
index af3d908..9d099cc 100644
--- a/src/deep/api/plugin/__init__.py
+++ b/src/deep/api/plugin/__init__.py
@@ -44,7 +44,7 @@ def __plugin_generator(configured):
             module, cls = plugin.rsplit(".", 1)
             yield getattr(import_module(module), cls)
             logging.debug('Did import integration %s', plugin)
-        except (DidNotEnable, Exception) as e:
+        except BaseException as e:
             logging.debug(
                 "Did not import integration %s: %s", plugin, e
             )
@@ -61,17 +61,20 @@ def load_plugins(config: 'ConfigService', custom=None) -> List['Plugin']:
     if custom is None:
         custom = []
     loaded = []
+    orders = {}
     for plugin in __plugin_generator(DEEP_PLUGINS + custom):
         try:
             plugin_instance = plugin(config=config)
             if not plugin_instance.is_active():
                 logging.debug("Plugin %s is not active.", plugin_instance.name)
                 continue
+            # the order has to be a number, to be able to sort the plugins
+            orders[id(plugin_instance)] = (plugin_instance.order() or 0) + 0
             loaded.append(plugin_instance)
-        except Exception as e:
+        except BaseException as e:
             logging.debug("Could not load plugin %s: %s", plugin, e)
 
-    loaded.sort(key=lambda pl: pl.order() or 0)
+    loaded.sort(key=lambda pl: orders[id(pl)])
     return loaded
 
 
@@ -111,7 +114,7 @@ class Plugin(abc.ABC):
         attr = getattr(self.config, f'plugin_{self.name}'.upper(), 'True')
         if attr is None:
             return True
-        return str2bool(attr)
+        return str2bool(str(attr))
 
     def shutdown(self):
         """Clean up and shutdown the plugin."""
diff --git a/src/deep/processor/context/metric_action.py b/src/deep/processor/context/metric_action.py
index 1671a6c..65ba59a 100644
--- a/src/deep/processor/context/metric_action.py
+++ b/src/deep/processor/context/metric_action.py
@@ -41,8 +41,11 @@ class MetricActionContext(ActionContext):
         for metric in metrics:
             labels, value = self._process_metric(metric)
             for processor in self.trigger_context.config.metric_processors:
-                getattr(processor, self._convert_type(metric.type))(metric.name, labels, metric.namespace or "deep",
-                                                                    metric.help, metric.unit, value)
+                try:
+                    getattr(processor, self._convert_type(metric.type))(metric.name, labels, metric.namespace or "deep",
+                                                                        metric.help, metric.unit, value)
+                except BaseException:
+                    deep.logging.exception("Cannot process metric %s", metric.name)
 
     def __has_metric_processor(self):
         return self.trigger_context.config.has_metric_processor
diff --git a/src/deep/processor/context/snapshot_action.py b/src/deep/processor/context/snapshot_action.py
index f38f373..b7c5a7f 100644
--- a/src/deep/processor/context/snapshot_action.py
+++ b/src/deep/processor/context/snapshot_action.py
@@ -211,7 +211,7 @@ class DeferredSnapshotActionResult(ActionResult):
                 decorate = decorator.decorate(self.snapshot.id_str, self.action_context)
                 if decorate is not None:
                     attributes.merge_in(decorate)
-            except Exception:
+            except BaseException:
                 deep.logging.exception("Failed to decorate snapshot: %s ", decorator)
         self.snapshot.attributes.merge_in(attributes)
         return self.snapshot
diff --git a/src/deep/processor/context/span_action.py b/src/deep/processor/context/span_action.py
index 341a411..012de57 100644
--- a/src/deep/processor/context/span_action.py
+++ b/src/deep/processor/context/span_action.py
@@ -17,6 +17,7 @@
 from types import FrameType
 from typing import Optional, TYPE_CHECKING
 
+import deep.logging
 from deep.processor.context.action_context import ActionContext
 from deep.processor.context.action_results import ActionResult, ActionCallback
 
@@ -42,7 +43,10 @@ class SpanActionCallback(ActionCallback):
         :return: True, to keep this callback until next match.
         """
         for span in self.__spans:
-            span.close()
+            try:
+                span.close()
+            except BaseException:
+                deep.logging.exception("Cannot close span")
         return False
 
 
@@ -86,9 +90,12 @@ class SpanActionContext(ActionContext):
         spans = []
 
         for span_processor in self.trigger_context.config.span_processors:
-            span = span_processor.create_span(name, self.trigger_context.id, self.location_action.tracepoint.id)
-            if span:
-                spans.append(span)
+            try:
+                span = span_processor.create_span(name, self.trigger_context.id, self.location_action.tracepoint.id)
+                if span is not None:
+                    spans.append(span)
+            except BaseException:
+                deep.logging.exception("Cannot create span %s", name)
 
         if len(spans) > 0:
             self.trigger_context.attach_result(SpanResult(spans))
diff --git a/src/deep/processor/context/trigger_context.py b/src/deep/processor/context/trigger_context.py
index 7eb3815..fb75bfd 100644
--- a/src/deep/processor/context/trigger_context.py
+++ b/src/deep/processor/context/trigger_context.py
@@ -74,8 +74,8 @@ class TriggerContext:
                 new_callback = result.process(self)
                 if new_callback is not None:
                     self.callbacks.append(new_callback)
-            except Exception:
-                deep.logging.exception("failed to process result {}", result)
+            except BaseException:
+                deep.logging.exception("failed to process result %s", result)
 
     @property
     def id(self):
-- 
2.43.0


From a6c52675977df48f15ed8c7ce9ebbe790e0d07b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:54 +0000
Subject: [PATCH 11/29] fix: spans and captures are completed by the invocation
 that opened them, exactly once

---
 .../processor/context/callback_context.py     | 27 +++++++++++++++++--
 src/deep/processor/trigger_handler.py         | 18 +++++--------
 src/deep/thread_local.py                      | 24 +++++++----------
 3 files changed, 41 insertions(+), 28 deletions(-)

diff --git a/src/deep/processor/context/callback_context.py b/src/deep/processor/context/callback_context.py
index 09f653d..8b9cb9a 100644
--- a/src/deep/processor/context/callback_context.py
+++ b/src/deep/processor/context/callback_context.py
@@ -17,6 +17,7 @@
 from types import FrameType
 from typing import List
 
+import deep.logging
 from deep.api.tracepoint.trigger import Location
 
 from deep.processor.context.action_results import ActionCallback
@@ -31,7 +32,8 @@ class CallbackContext(Location, ActionCallback):
     to close when the line/method completes.
     """
 
-    def __init__(self, event: str, filename: str, line: int, name: str, callbacks: List['ActionCallback']):
+    def __init__(self, event: str, filename: str, line: int, name: str, callbacks: List['ActionCallback'],
+                 frame: FrameType = None):
         """Create new callback context."""
         super().__init__(Location.Position.END)
         self.__event = event
@@ -39,6 +41,7 @@ class CallbackContext(Location, ActionCallback):
         self.__function_name = name
         self.__line = line
         self.__callbacks = callbacks
+        self.__frame = frame
 
     def at_location(self, event: str, file: str, line: int, function_name: str, frame: FrameType) -> bool:
         """
@@ -55,6 +58,10 @@ class CallbackContext(Location, ActionCallback):
         if file != self.__filename or function_name != self.__function_name:
             return False
 
+        # another invocation of the same function (e.g. recursion) is not the correct place.
+        if frame is not self.__frame and self.__is_active(frame):
+            return False
+
         if self.__event == 'line':
             return self.__check_at_next_line(event, file, function_name)
         else:
@@ -71,7 +78,10 @@ class CallbackContext(Location, ActionCallback):
         :return: True, to keep this callback until next match.
         """
         for callback in self.__callbacks:
-            callback.process(ctx, event, frame, arg)
+            try:
+                callback.process(ctx, event, frame, arg)
+            except BaseException:
+                deep.logging.exception("Cannot process callback %s", callback)
 
     @property
     def id(self) -> str:
@@ -93,6 +103,19 @@ class CallbackContext(Location, ActionCallback):
         """The function name."""
         return self.__function_name
 
+    def __is_active(self, frame: FrameType) -> bool:
+        """
+        Check if the invocation that created this context is still active.
+
+        :param frame: the current frame
+        :return: True, if our frame has called the current frame
+        """
+        while frame is not None:
+            if frame is self.__frame:
+                return True
+            frame = frame.f_back
+        return False
+
     def __check_at_next_line(self, event: str, file: str, function_name: str) -> bool:
         """
         Check if the new position is the next line after that which triggered this line event.
diff --git a/src/deep/processor/trigger_handler.py b/src/deep/processor/trigger_handler.py
index a17166b..d818bce 100644
--- a/src/deep/processor/trigger_handler.py
+++ b/src/deep/processor/trigger_handler.py
@@ -166,7 +166,7 @@ class TriggerHandler:
         if len(callbacks) > 0:
             logging.debug("Callbacks registered: %s", callbacks)
             self._callbacks.get().append(
-                CallbackContext(event, file, line, function, callbacks))
+                CallbackContext(event, file, line, function, callbacks, frame))
 
         return self.trace_call
 
@@ -179,16 +179,12 @@ class TriggerHandler:
 
     def __process_call_backs(self, ctx: 'TriggerContext', arg: any, frame: FrameType, event: str, file: str, line: int,
                              function_name: str):
-        # remove top context
-        context: CallbackContext = self._callbacks.value.pop()
-        # if it is for our location process it
-        if context.at_location(event, file, line, function_name, frame):
-            logging.debug("At callback location %s", context.name)
-            context.process(ctx, event, frame, arg)
-        else:
-            logging.debug("Not at callback location %s", context.name)
-            # else put the context back on the queue
-            self._callbacks.value.append(context)
+        # process the contexts that are for our location, from the top
+        for context in reversed(list(self._callbacks.value)):
+            if context.at_location(event, file, line, function_name, frame):
+                logging.debug("At callback location %s", context.name)
+                self._callbacks.value.remove(context)
+                context.process(ctx, event, frame, arg)
 
         if len(self._callbacks.value) == 0:
             logging.debug("Callbacks cleared.")
diff --git a/src/deep/thread_local.py b/src/deep/thread_local.py
index 2180f62..844a19c 100644
--- a/src/deep/thread_local.py
+++ b/src/deep/thread_local.py
@@ -25,8 +25,6 @@ T = TypeVar('T')
 class ThreadLocal(Generic[T]):
     """This type offers the ability to store a value based on the thread that accessed the value."""
 
-    __store = {}
-
     def __init__(self, default_provider: Callable[[], T] = lambda: None):
         """
         Create a new ThreadLocal value.
@@ -34,6 +32,8 @@ class ThreadLocal(Generic[T]):
         :param default_provider: a provider that will produce a default value
         """
         self.__default_provider = default_provider
+        # python deletes these values with the thread, a thread can never see the values of another thread
+        self.__store = threading.local()
 
     def get(self) -> T:
         """
@@ -41,12 +41,9 @@ class ThreadLocal(Generic[T]):
 
         :return: the stored value, or the value from the default_provider
         """
-        current_thread = threading.current_thread()
-        get = self.__store.get(current_thread.ident, None)
-        if get is None:
-            get = self.__default_provider()
-            self.__store[current_thread.ident] = get
-        return get
+        if not self.is_set:
+            self.__store.value = self.__default_provider()
+        return self.__store.value
 
     def set(self, val: T):
         """
@@ -54,14 +51,12 @@ class ThreadLocal(Generic[T]):
 
         :param val: the value to store
         """
-        current_thread = threading.current_thread()
-        self.__store[current_thread.ident] = val
+        self.__store.value = val
 
     def clear(self):
         """Remove the value for this thread."""
-        current_thread = threading.current_thread()
-        if current_thread.ident in self.__store:
-            del self.__store[current_thread.ident]
+        if self.is_set:
+            del self.__store.value
 
     @property
     def is_set(self):
@@ -70,8 +65,7 @@ class ThreadLocal(Generic[T]):
 
         :return: True if there is a value for this thread
         """
-        current_thread = threading.current_thread()
-        return current_thread.ident in self.__store
+        return hasattr(self.__store, 'value')
 
     @property
     def value(self):
-- 
2.43.0


From 32d71c87b0c70a6050c3d4f12d2699f175c8a971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:30 +0000
Subject: [PATCH 12/29] fix: no failure of the agent is raised into the
 program, or stops the tracing of a thread

---
 src/deep/logging/logging.conf                 | 27 -------------------
 src/deep/processor/context/trigger_context.py |  2 ++
 src/deep/processor/trigger_handler.py         | 27 ++++++++++++++++---
 3 files changed, 25 insertions(+), 31 deletions(-)
 delete mode 100644 src/deep/logging/logging.conf

diff --git a/src/deep/logging/logging.conf b/src/deep/logging/logging.conf
deleted file mode 100644
index bf7c1c5..0000000
--- a/src/deep/logging/logging.conf
+++ /dev/null
@@ -1,27 +0,0 @@
-[loggers]
-keys=root,deep
-
-[handlers]
-keys=consoleHandler
-
-[formatters]
-keys=deepFormatter
-
-[logger_root]
-level=DEBUG
-handlers=consoleHandler
-
-[logger_deep]
-level=DEBUG
-handlers=consoleHandler
-qualname=deep
-propagate=0
-
-[handler_consoleHandler]
-class=StreamHandler
-level=DEBUG
-formatter=deepFormatter
-args=(sys.stdout,)
-
-[formatter_deepFormatter]
-format=%(asctime)s - %(name)s - %(levelname)s - %(message)s
\ No newline at end of file
diff --git a/src/deep/processor/context/trigger_context.py b/src/deep/processor/context/trigger_context.py
index fb75bfd..0d4f2ab 100644
--- a/src/deep/processor/context/trigger_context.py
+++ b/src/deep/processor/context/trigger_context.py
@@ -76,6 +76,8 @@ class TriggerContext:
                     self.callbacks.append(new_callback)
             except BaseException:
                 deep.logging.exception("failed to process result %s", result)
+        # the results refer to this context, so we have to remove them to not keep the frame longer than it is needed
+        self.__results = []
 
     @property
     def id(self):
diff --git a/src/deep/processor/trigger_handler.py b/src/deep/processor/trigger_handler.py
index d818bce..d187b6f 100644
--- a/src/deep/processor/trigger_handler.py
+++ b/src/deep/processor/trigger_handler.py
@@ -135,6 +135,22 @@ class TriggerHandler:
         :param arg: the args
         :return: None to ignore other calls, or our self to continue
         """
+        try:
+            return self.__process_event(frame, event, arg)
+        except BaseException:
+            # an error in here would be raised into the program, and would stop the tracing of the thread
+            self.__log_failure("Cannot process event %s", event)
+            return self.trace_call
+
+    @staticmethod
+    def __log_failure(msg, *args):
+        try:
+            logging.exception(msg, *args)
+        except BaseException:
+            # we cannot even log, so there is nothing else we can do.
+            pass
+
+    def __process_event(self, frame: FrameType, event: str, arg):
         event, file, line, function = self.location_from_event(event, frame)
         trigger_context = TriggerContext(self._config, self._push_service, frame, event, arg)
 
@@ -158,9 +174,9 @@ class TriggerHandler:
                             if ctx.can_trigger() and ctx.claim():
                                 ctx.process()
                     except BaseException:
-                        logging.exception("Cannot process action %s", action)
+                        self.__log_failure("Cannot process action %s", action)
         except BaseException:
-            logging.exception("Cannot trigger at %s#%s %s", file, line, function)
+            self.__log_failure("Cannot trigger at %s#%s %s", file, line, function)
 
         callbacks = trigger_context.callbacks
         if len(callbacks) > 0:
@@ -173,8 +189,11 @@ class TriggerHandler:
     def __actions_for_location(self, event, file, line, function, frame):
         actions = []
         for trigger in self._tp_config:
-            if trigger.at_location(event, file, line, function, frame):
-                actions += trigger.actions
+            try:
+                if trigger.at_location(event, file, line, function, frame):
+                    actions += trigger.actions
+            except BaseException:
+                self.__log_failure("Cannot check location %s", trigger)
         return actions
 
     def __process_call_backs(self, ctx: 'TriggerContext', arg: any, frame: FrameType, event: str, file: str, line: int,
-- 
2.43.0


From 2c96e74c2720583d6b8679cdda28596a116a9859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:30 +0000
Subject: [PATCH 13/29] fix: leave the logging of the program as it is

---
 src/deep/config/tracepoint_config.py |  2 +-
 src/deep/logging/__init__.py         | 19 +++++++++++++------
 src/deep/push/__init__.py            |  3 +--
 src/deep/utils.py                    |  6 ++++--
 4 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/deep/config/tracepoint_config.py b/src/deep/config/tracepoint_config.py
index e976b5b..3861f65 100644
--- a/src/deep/config/tracepoint_config.py
+++ b/src/deep/config/tracepoint_config.py
@@ -16,10 +16,10 @@
 """Maintain the current config of the tracepoints."""
 
 import abc
-import logging
 import uuid
 from typing import Dict, List, TYPE_CHECKING
 
+from deep import logging
 from deep.api.tracepoint.tracepoint_config import MetricDefinition
 
 from deep.api.tracepoint.trigger import build_trigger
diff --git a/src/deep/logging/__init__.py b/src/deep/logging/__init__.py
index 3304150..1138c66 100644
--- a/src/deep/logging/__init__.py
+++ b/src/deep/logging/__init__.py
@@ -17,7 +17,7 @@
 
 import logging
 import logging.config
-import os
+import sys
 
 
 def warning(msg, *args, **kwargs):
@@ -82,9 +82,16 @@ def init(cfg=None):
 
     :param cfg: the config for deep.
     """
-    log_conf = "%s/logging.conf" % os.path.dirname(os.path.realpath(__file__))
-
     if cfg is not None and cfg.LOGGING_CONF:
-        log_conf = cfg.LOGGING_CONF
-
-    logging.config.fileConfig(fname=log_conf, disable_existing_loggers=False)
+        logging.config.fileConfig(fname=cfg.LOGGING_CONF, disable_existing_loggers=False)
+        return
+
+    # without a custom config we only configure our own logger, all others (e.g. root) belong to the program
+    logger = logging.getLogger("deep")
+    for existing in list(logger.handlers):
+        logger.removeHandler(existing)
+    handler = logging.StreamHandler(sys.stdout)
+    handler.setFormatter(logging.Formatter("%(asctime)s - %(name)s - %(levelname)s - %(message)s"))
+    logger.addHandler(handler)
+    logger.setLevel(logging.DEBUG)
+    logger.propagate = False
diff --git a/src/deep/push/__init__.py b/src/deep/push/__init__.py
index d11685f..96c305a 100644
--- a/src/deep/push/__init__.py
+++ b/src/deep/push/__init__.py
@@ -21,8 +21,6 @@ have type definitions that work in IDE. It also makes it easier to deal with age
 having local types we can modify.
 """
 
-import logging
-
 # noinspection PyUnresolvedReferences
 from deepproto.proto.common.v1.common_pb2 import KeyValue
 # noinspection PyUnresolvedReferences
@@ -33,6 +31,7 @@ from .push_service import PushService
 
 __all__ = [PushService.__name__]
 
+from .. import logging
 from ..api.tracepoint import TracePointConfig as TrPoCo, EventSnapshot, StackFrame as StFr, WatchResult as WaRe, \
     Variable as Var, VariableId as VarId
 from ..grpc import convert_text, convert_value
diff --git a/src/deep/utils.py b/src/deep/utils.py
index 9927abe..ce7d05b 100644
--- a/src/deep/utils.py
+++ b/src/deep/utils.py
@@ -15,10 +15,11 @@
 
 """A collection of util functions to perform common or repeated actions."""
 
-import logging
 import time
 from threading import Event, Thread
 
+from deep import logging
+
 
 def snapshot_id_as_hex_str(snapshot_id):
     """Convert a snapshot if to a hex string."""
@@ -81,7 +82,8 @@ class RepeatedTimer:
         while not self.event.wait(self._time):
             try:
                 self.function(*self.args, **self.kwargs)
-            except Exception:
+            except BaseException:
+                # the logging of deep is used here, as the root logger belongs to the program
                 logging.exception(
                     "Repeated function (%s) failed, will retry in %s seconds." % (self.name, self.interval))
 
-- 
2.43.0


From 5dcaf0c1e2c6691e7f4bd4cd9508b2546410b6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:44 +0000
Subject: [PATCH 14/29] fix: shutdown always completes, restores only the hooks
 that were installed, and stops all actions

---
 src/deep/api/deep.py                  | 17 ++++++++++++-----
 src/deep/processor/trigger_handler.py | 23 ++++++++++++++++++-----
 2 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/deep/api/deep.py b/src/deep/api/deep.py
index 07045dd..7a2bd7c 100644
--- a/src/deep/api/deep.py
+++ b/src/deep/api/deep.py
@@ -76,14 +76,21 @@ class Deep:
         """Shutdown deep."""
         if not self.started:
             return
-        self.trigger_handler.shutdown()
-        self.task_handler.flush()
-        self.poll.shutdown()
-        for plugin in self.config.plugins:
-            plugin.shutdown()
+        # stop the poll first, as the result of a poll is also a task that has to be completed
+        steps = [self.trigger_handler.shutdown, self.poll.shutdown, self.task_handler.flush]
+        for step in steps + [plugin.shutdown for plugin in self.config.plugins]:
+            self.__shutdown_step(step)
         deep.logging.info("Deep is shutdown.")
         self.started = False
 
+    @staticmethod
+    def __shutdown_step(step):
+        try:
+            step()
+        except BaseException:
+            # we always have to complete the shutdown
+            deep.logging.exception("Failed to shutdown %s", step)
+
     def register_tracepoint(self, path: str, line: int, args: Dict[str, str] = None,
                             watches: List[str] = None,
                             metrics: List[MetricDefinition] = None) -> 'TracepointRegistration':
diff --git a/src/deep/processor/trigger_handler.py b/src/deep/processor/trigger_handler.py
index d187b6f..be8fe19 100644
--- a/src/deep/processor/trigger_handler.py
+++ b/src/deep/processor/trigger_handler.py
@@ -37,6 +37,7 @@ from deep.processor.context.callback_context import CallbackContext
 from deep.processor.context.trigger_context import TriggerContext
 from deep.push import PushService
 from deep.thread_local import ThreadLocal
+from deep.utils import str2bool
 
 if TYPE_CHECKING:
     from deep.processor.context.action_context import ActionContext
@@ -88,6 +89,8 @@ class TriggerHandler:
         """
         self.__old_thread_trace = None
         self.__old_sys_trace = None
+        self.__installed = False
+        self.__shutdown = False
         self._push_service = push_service
         self._tp_config: List[Trigger] = []
         self._config = config
@@ -98,7 +101,12 @@ class TriggerHandler:
         """Start the trigger handler."""
         # if we call settrace we cannot use debugger,
         # so we allow the settrace to be disabled, so we can at least debug around it
-        if self._config.NO_TRACE:
+        self.__shutdown = False
+        no_trace = self._config.NO_TRACE
+        if isinstance(no_trace, str):
+            # from the environment this is text
+            no_trace = str2bool(no_trace)
+        if self.__installed or no_trace:
             return
         self.__old_sys_trace = sys.gettrace()
         # gettrace was added in 3.10, so use it if we can, else try to get from property
@@ -106,6 +114,7 @@ class TriggerHandler:
         self.__old_thread_trace = threading.gettrace() if hasattr(threading, 'gettrace') else threading._trace_hook
         sys.settrace(self.trace_call)
         threading.settrace(self.trace_call)
+        self.__installed = True
 
     def new_config(self, new_config: List['Trigger']):
         """
@@ -157,8 +166,8 @@ class TriggerHandler:
         if event in ["line", "return", "exception"] and self._callbacks.is_set:
             self.__process_call_backs(trigger_context, arg, frame, event, file, line, function)
 
-        # return if we do not have any tracepoints
-        if len(self._tp_config) == 0:
+        # return if we do not have any tracepoints, or other threads are still using this handler after the shutdown
+        if len(self._tp_config) == 0 or self.__shutdown:
             return None
 
         actions = self.__actions_for_location(event, file, line, function, frame)
@@ -238,5 +247,9 @@ class TriggerHandler:
 
         Reset the settrace to the previous values.
         """
-        sys.settrace(self.__old_sys_trace)
-        threading.settrace(self.__old_thread_trace)
+        self.__shutdown = True
+        # if we did not install the trace, then it is not ours to change
+        if self.__installed:
+            self.__installed = False
+            sys.settrace(self.__old_sys_trace)
+            threading.settrace(self.__old_thread_trace)
-- 
2.43.0


From cb2f35e7c41ccab8fc8b72b7417aac6fd5831c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:07 +0000
Subject: [PATCH 15/29] fix: a tracepoint that cannot be interpreted affects
 only itself, and the stage of a snapshot is used

---
 src/deep/api/tracepoint/trigger.py | 26 ++++++++++++++------------
 src/deep/grpc/__init__.py          | 21 +++++++++++++++------
 2 files changed, 29 insertions(+), 18 deletions(-)

diff --git a/src/deep/api/tracepoint/trigger.py b/src/deep/api/tracepoint/trigger.py
index b0fc576..d3e3b08 100644
--- a/src/deep/api/tracepoint/trigger.py
+++ b/src/deep/api/tracepoint/trigger.py
@@ -29,7 +29,7 @@
 """Handlers for triggers and action configs."""
 
 import abc
-import inspect
+import dis
 import threading
 from enum import Enum
 from types import FrameType
@@ -502,17 +502,19 @@ class LineLocation(Location):
 class FunctionLocation(Location):
     """A location for a method entry/exit/capture point."""
 
-    def __init__(self, path: str, function_name: Optional[str], position: Location.Position):
+    def __init__(self, path: str, function_name: Optional[str], position: Location.Position, target_line: int = -1):
         """
         Create a new method location.
 
         :param path:  the source file path
         :param function_name: the function name
         :param position: the position
+        :param target_line: the line in the method, that is used to find the method if there is no name
         """
         super().__init__(position)
         self.__function_name = function_name
         self.__path = path
+        self.__target_line = target_line
 
     def at_location(self, event: str, file: str, line: int, function_name: str, frame: FrameType):
         """
@@ -525,28 +527,25 @@ class FunctionLocation(Location):
         :param frame: the triggering frame object
         :return: True, if we are at this location we expect, else False.
         """
-        if file != self.path:
+        if event != "call" or file != self.path:
             return False
 
         # if method_name is not set then we need to discover it from the frame.
         if self.__function_name is None:
-            # load source lines
-            lines, start = inspect.getsourcelines(frame)
-            end = start + len(lines)
-            # if the targeted line is in the range of start to end
-            if start <= line >= end:
+            # if the targeted line is one of the lines of this function
+            if any(self.__target_line == line_no for _, line_no in dis.findlinestarts(frame.f_code)):
                 # set the method to this name (so we do not need to look it up again)
                 self.__function_name = function_name
                 return True
             return False
 
-        if event == "call" and function_name == self.__function_name:
-            return True
-        return False
+        return function_name == self.__function_name
 
     @property
     def id(self):
         """The location id."""
+        if self.__function_name is None:
+            return "%s#%s#%s" % (self.path, self.__function_name, self.__target_line)
         return "%s#%s" % (self.path, self.__function_name)
 
     @property
@@ -613,6 +612,9 @@ def build_snapshot_action(tp_id: str, args: Dict[str, str], watches: List[str])
     }
     # the limits are only part of the config if they are set on the tracepoint
     config.update({limit: args[limit] for limit in COLLECTION_LIMITS if limit in args})
+    # the stage is needed to know if we have to wait for the result of the line, or method
+    if STAGE in args:
+        config[STAGE] = args[STAGE]
     return LocationAction(tp_id, condition, config, LocationAction.ActionType.Snapshot)
 
 
@@ -704,7 +706,7 @@ def build_trigger(tp_id: str, path: str, line_no: int, args: Dict[str, str], wat
     if stage_ in LINE_STAGES:
         location = LineLocation(path, line_no, position)
     elif stage_ in METHOD_STAGES:
-        location = FunctionLocation(path, args.get(METHOD_NAME, None), position)
+        location = FunctionLocation(path, args.get(METHOD_NAME, None), position, line_no)
     else:
         return None
 
diff --git a/src/deep/grpc/__init__.py b/src/deep/grpc/__init__.py
index e35ff5f..2525f7c 100644
--- a/src/deep/grpc/__init__.py
+++ b/src/deep/grpc/__init__.py
@@ -20,7 +20,7 @@ We do not use the protobuf types throughout the project as they do not autocompl
 have type definitions that work in IDE. It also makes it easier to deal with agent functionality by
 having local types we can modify.
 """
-from typing import List, Dict
+from typing import List, Dict, Tuple
 
 # noinspection PyUnresolvedReferences
 from deepproto.proto.common.v1.common_pb2 import KeyValue, AnyValue, ArrayValue, KeyValueList
@@ -30,6 +30,7 @@ from deepproto.proto.resource.v1.resource_pb2 import Resource
 from deepproto.proto.tracepoint.v1.tracepoint_pb2 import MetricType
 
 from .grpc_service import GRPCService  # noqa: F401
+from .. import logging
 from ..api.tracepoint.tracepoint_config import LabelExpression, MetricDefinition
 from ..api.tracepoint.trigger import build_trigger, Trigger
 
@@ -138,12 +139,20 @@ def convert_response(response) -> List[Trigger]:
     :param response: the response from the poll request
     :return: a list of trigger locations with the appropriate actions
     """
-    all_triggers: Dict[str, Trigger] = {}
+    all_triggers: Dict[Tuple[str, int], Trigger] = {}
     for r in response:
-        # from the incoming tracepoints create a Trigger with actions
-        trigger = build_trigger(r.ID, r.path, r.line_number, dict(r.args), [w for w in r.watches],
-                                __convert_metric_definition(r.metrics))
-        location_id = trigger.id
+        try:
+            # from the incoming tracepoints create a Trigger with actions
+            trigger = build_trigger(r.ID, r.path, r.line_number, dict(r.args), [w for w in r.watches],
+                                    __convert_metric_definition(r.metrics))
+        except Exception:
+            logging.exception("Cannot process tracepoint %s", r.ID)
+            continue
+        if trigger is None:
+            logging.error("Unsupported tracepoint %s", r.ID)
+            continue
+        # a method can be named like a line, so the id is not enough to know the location
+        location_id = (trigger.id, trigger.line)
         # if we already have a trigger for this location then merge the new actions into it
         if location_id in all_triggers:
             all_triggers[location_id].merge_actions(trigger.actions)
-- 
2.43.0


From 41d4305577362a3b73b5c5457ca324224810cd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:34 +0000
Subject: [PATCH 16/29] fix: the latest configuration is always the one
 installed, and a registration is removed by its own handle

---
 src/deep/api/tracepoint/trigger.py   |  11 +++
 src/deep/config/config_service.py    |   5 +-
 src/deep/config/tracepoint_config.py | 100 ++++++++++++++++++++-------
 src/deep/poll/poll.py                |   4 +-
 4 files changed, 93 insertions(+), 27 deletions(-)

diff --git a/src/deep/api/tracepoint/trigger.py b/src/deep/api/tracepoint/trigger.py
index d3e3b08..7b45ace 100644
--- a/src/deep/api/tracepoint/trigger.py
+++ b/src/deep/api/tracepoint/trigger.py
@@ -203,6 +203,17 @@ class LocationAction(object):
             self.record_triggered(ts)
             return True
 
+    def continue_from(self, other: 'LocationAction'):
+        """
+        Continue from another action.
+
+        When this action replaces the same action, then the fires of that action are also the fires of this action.
+
+        :param other: the action to continue from
+        """
+        self.__stats = other.__stats
+        self.__lock = other.__lock
+
     def record_triggered(self, ts):
         """
         Record a fire.
diff --git a/src/deep/config/config_service.py b/src/deep/config/config_service.py
index a26c6b9..505caf7 100644
--- a/src/deep/config/config_service.py
+++ b/src/deep/config/config_service.py
@@ -29,14 +29,17 @@ from deep.config.tracepoint_config import TracepointConfigService, ConfigUpdateL
 class ConfigService:
     """This is the main service that handles config for DEEP."""
 
-    def __init__(self, custom: Dict[str, any] = None, tracepoints=TracepointConfigService()):
+    def __init__(self, custom: Dict[str, any] = None, tracepoints: TracepointConfigService = None):
         """
         Create a new config object.
 
         :param custom: any custom values that are passed to DEEP
+        :param tracepoints: the tracepoint config to use, else a new config is created
         """
         if custom is None:
             custom = {}
+        if tracepoints is None:
+            tracepoints = TracepointConfigService()
         self._plugins = []
         self.__custom = custom
         self._resource = None
diff --git a/src/deep/config/tracepoint_config.py b/src/deep/config/tracepoint_config.py
index 3861f65..9799dcb 100644
--- a/src/deep/config/tracepoint_config.py
+++ b/src/deep/config/tracepoint_config.py
@@ -16,8 +16,9 @@
 """Maintain the current config of the tracepoints."""
 
 import abc
+import threading
 import uuid
-from typing import Dict, List, TYPE_CHECKING
+from typing import Dict, List, Tuple, TYPE_CHECKING
 
 from deep import logging
 from deep.api.tracepoint.tracepoint_config import MetricDefinition
@@ -51,12 +52,16 @@ class TracepointConfigService:
 
     def __init__(self) -> None:
         """Create new tracepoint config service."""
-        self._custom: List['Trigger'] = []
+        self._custom: List[Tuple[str, 'Trigger']] = []
         self._tracepoint_config: List['Trigger'] = []
         self._current_hash = None
         self._last_update = 0
         self._task_handler = None
         self._listeners: List[ConfigUpdateListener] = []
+        # guards the config, which is changed by the poll and by the program
+        self._lock = threading.RLock()
+        # guards the listeners, the updates are on many threads, and the last update has to be the latest config
+        self._update_lock = threading.RLock()
 
     def update_no_change(self, ts):
         """
@@ -78,12 +83,33 @@ class TracepointConfigService:
         :param new_hash: the new config hash
         :param new_config: the new config values
         """
-        old_hash = self._current_hash
-        old_config = self._tracepoint_config
-        self._last_update = ts
-        self._current_hash = new_hash
-        self._tracepoint_config = new_config
-        self.__trigger_update(old_hash, old_config)
+        with self._lock:
+            old_hash = self._current_hash
+            old_config = self._tracepoint_config
+            self.__continue_actions(old_config, new_config)
+            self._last_update = ts
+            self._current_hash = new_hash
+            self._tracepoint_config = new_config
+        try:
+            self.__trigger_update(old_hash, old_config)
+        except BaseException:
+            # we cannot install this config, so we must not tell the service that we have it
+            with self._lock:
+                self._current_hash = old_hash
+                self._tracepoint_config = old_config
+            raise
+
+    @staticmethod
+    def __continue_actions(old_config: List['Trigger'], new_config: List['Trigger']):
+        # a tracepoint that is not changed by the new config stays installed, so it continues with the fires it has left
+        old_actions = [(trigger.id, action) for trigger in old_config for action in trigger.actions]
+        for trigger in new_config:
+            for action in trigger.actions:
+                for idx, (old_id, old_action) in enumerate(old_actions):
+                    if old_id == trigger.id and old_action.action_type == action.action_type and old_action == action:
+                        action.continue_from(old_action)
+                        del old_actions[idx]
+                        break
 
     def __trigger_update(self, old_hash, old_config):
         ts = self._last_update
@@ -105,7 +131,8 @@ class TracepointConfigService:
         """
         Update the registered listeners.
 
-        This is called to update any listeners that the config has changed
+        This is called to update any listeners that the config has changed. The updates can be processed in any order, so
+        the listeners are always given the latest config, and not the config that was the latest when this was submitted.
 
         :param ts: the ts of the update
         :param old_hash: the old hash
@@ -113,12 +140,16 @@ class TracepointConfigService:
         :param old_config: the old config
         :param new_config: the new config
         """
-        listeners_copy = self._listeners.copy()
-        for listeners in listeners_copy:
-            try:
-                listeners.config_change(ts, old_hash, current_hash, old_config, new_config + self._custom)
-            except Exception:
-                logging.exception("Error updating listener %s", listeners)
+        with self._update_lock:
+            with self._lock:
+                current_hash = self._current_hash
+                latest_config = self._tracepoint_config + [trigger for _, trigger in self._custom]
+            listeners_copy = self._listeners.copy()
+            for listeners in listeners_copy:
+                try:
+                    listeners.config_change(ts, old_hash, current_hash, old_config, latest_config)
+                except BaseException:
+                    logging.exception("Error updating listener %s", listeners)
 
     def add_listener(self, listener: ConfigUpdateListener):
         """
@@ -159,12 +190,22 @@ class TracepointConfigService:
         :param args: the tracepoint args
         :param watches: the tracepoint watches
         :param metrics: the tracepoint metrics
-        :return: the new TracePointConfig
-        """
-        config = build_trigger(str(uuid.uuid4()), path, line, args, watches, metrics)
-        self._custom.append(config)
-        self.__trigger_update(None, None)
-        return config.id
+        :return: the id of the new tracepoint, this is unique for each tracepoint, and is used to remove it
+        """
+        tp_id = str(uuid.uuid4())
+        config = build_trigger(tp_id, path, line, dict(args), list(watches), list(metrics))
+        if config is None:
+            logging.error("Cannot interpret tracepoint %s#%s: %s", path, line, args)
+            return tp_id
+        with self._lock:
+            self._custom.append((tp_id, config))
+        try:
+            self.__trigger_update(None, None)
+        except BaseException:
+            # the caller will not get an id to remove this tracepoint
+            self.__pop_custom(tp_id)
+            raise
+        return tp_id
 
     def remove_custom(self, _id: str):
         """
@@ -172,8 +213,17 @@ class TracepointConfigService:
 
         :param _id: the id of the config to remove
         """
-        for idx, cfg in enumerate(self._custom):
-            if cfg.id == _id:
-                del self._custom[idx]
+        if self.__pop_custom(_id):
+            try:
                 self.__trigger_update(None, None)
-                return
+            except BaseException:
+                # this is removed from the config, but we are shutdown so there is nothing to update.
+                logging.exception("Cannot update listeners to remove tracepoint %s", _id)
+
+    def __pop_custom(self, _id: str) -> bool:
+        with self._lock:
+            for idx, (tp_id, _) in enumerate(self._custom):
+                if tp_id == _id:
+                    del self._custom[idx]
+                    return True
+        return False
diff --git a/src/deep/poll/poll.py b/src/deep/poll/poll.py
index 88704c7..9d6f09c 100644
--- a/src/deep/poll/poll.py
+++ b/src/deep/poll/poll.py
@@ -67,9 +67,11 @@ class LongPoll(object):
         if response.response_type == ResponseType.NO_CHANGE:
             logging.debug("No Change in config.")
             self.config.tracepoints.update_no_change(response.ts_nanos)
-        else:
+        elif response.response_type == ResponseType.UPDATE:
             self.config.tracepoints.update_new_config(response.ts_nanos, response.current_hash,
                                                       convert_response(response.response))
+        else:
+            logging.error("Unknown response type %s, config is not changed.", response.response_type)
 
     def shutdown(self):
         """Shutdown the timer."""
-- 
2.43.0


From 07514323e7135d11b90d45a23e9841304798a8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:34 +0000
Subject: [PATCH 17/29] fix: the service name falls back to any value of
 process.executable.name

---
 src/deep/api/resource/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/deep/api/resource/__init__.py b/src/deep/api/resource/__init__.py
index 3c41a08..737d45e 100644
--- a/src/deep/api/resource/__init__.py
+++ b/src/deep/api/resource/__init__.py
@@ -147,7 +147,7 @@ class Resource:
                 PROCESS_EXECUTABLE_NAME, None
             )
             if process_executable_name:
-                default_service_name += ":" + process_executable_name
+                default_service_name += ":" + str(process_executable_name)
             else:
                 default_service_name += ":python"
             resource = resource.merge(
-- 
2.43.0


From 6cb44214032973ab8d4a73cffb442e3b33dfe115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:45 +0000
Subject: [PATCH 18/29] fix: settings behave the same in code and as
 environment variables, and an invalid poll timer does not stop polling

---
 src/deep/__init__.py              |  4 ++--
 src/deep/api/auth/__init__.py     |  2 +-
 src/deep/config/__init__.py       |  6 ++----
 src/deep/config/config_service.py | 21 +++++++++++++++++----
 src/deep/grpc/grpc_service.py     |  2 +-
 src/deep/poll/poll.py             | 19 ++++++++++++++++++-
 6 files changed, 41 insertions(+), 13 deletions(-)

diff --git a/src/deep/__init__.py b/src/deep/__init__.py
index bc346fb..c6a2204 100644
--- a/src/deep/__init__.py
+++ b/src/deep/__init__.py
@@ -29,8 +29,8 @@ def start(config=None) -> 'Deep':
     :param config: a custom config
     :return: the created Deep instance
     """
-    if config is None:
-        config = {}
+    # we copy the config, as it belongs to the caller
+    config = dict(config) if config is not None else {}
 
     # we use the app root to shorten file paths for display
     if 'APP_ROOT' not in config:
diff --git a/src/deep/api/auth/__init__.py b/src/deep/api/auth/__init__.py
index c032295..1be3d42 100644
--- a/src/deep/api/auth/__init__.py
+++ b/src/deep/api/auth/__init__.py
@@ -93,6 +93,6 @@ class BasicAuthProvider(AuthProvider):
         password = self._config.SERVICE_PASSWORD
         if username is not None and password is not None:
             encode = base64.b64encode(
-                (username + ':' + password).encode("utf-8"))
+                ('%s:%s' % (username, password)).encode("utf-8"))
             return [('authorization', 'Basic%20' + encode.decode('utf-8'))]
         return []
diff --git a/src/deep/config/__init__.py b/src/deep/config/__init__.py
index a29a052..d5d0d1a 100644
--- a/src/deep/config/__init__.py
+++ b/src/deep/config/__init__.py
@@ -40,7 +40,7 @@ SERVICE_SECURE = os.getenv('DEEP_SERVICE_SECURE', 'True')
 SERVICE_AUTH_PROVIDER = os.getenv('DEEP_SERVICE_AUTH_PROVIDER', None)
 """The Auth provider to use for the service (default: None)"""
 
-APP_ROOT = ""
+APP_ROOT = os.getenv('DEEP_APP_ROOT', "")
 """App root sets the prefix that can be removed to generate shorter file names. This value is calculated."""
 
 PLUGINS = []
@@ -73,9 +73,7 @@ def IN_APP_EXCLUDE():
     if user_defined is None:
         user_defined = []
     else:
-        if ',' in user_defined:
-            user_defined = user_defined.split(',')
-        user_defined = [user_defined]
+        user_defined = user_defined.split(',')
 
     prefix = sys.exec_prefix
     user_defined.append(prefix)
diff --git a/src/deep/config/config_service.py b/src/deep/config/config_service.py
index 505caf7..46b1271 100644
--- a/src/deep/config/config_service.py
+++ b/src/deep/config/config_service.py
@@ -16,6 +16,7 @@
 """Service for handling deep config."""
 
 import os
+import sys
 from typing import Any, List, Dict, Tuple, Optional, Generator
 
 from deep import logging
@@ -173,8 +174,10 @@ class ConfigService:
         :param filename: the frame file name
         :return: True if add frame, else False
         """
-        in_app_include = self.IN_APP_INCLUDE
-        in_app_exclude = self.IN_APP_EXCLUDE
+        in_app_include = self.__prefixes(self.IN_APP_INCLUDE)
+        # the python installation is never part of the app, even when the excludes are set in code
+        in_app_exclude = self.__prefixes(self.IN_APP_EXCLUDE) + [sys.exec_prefix]
+        app_root = self.APP_ROOT
 
         for path in in_app_exclude:
             if filename.startswith(path):
@@ -184,11 +187,21 @@ class ConfigService:
             if filename.startswith(path):
                 return True, path
 
-        if filename.startswith(self.APP_ROOT):
-            return True, self.APP_ROOT
+        # an empty root is not known, so there is nothing that can be under it
+        if app_root and filename.startswith(app_root):
+            return True, app_root
 
         return False, None
 
+    @staticmethod
+    def __prefixes(value) -> List[str]:
+        # set in code these can be a list, else they are a comma separated string
+        if value is None:
+            return []
+        if isinstance(value, str):
+            value = value.split(',')
+        return [prefix for prefix in value if prefix]
+
     def _find_plugin(self, plugin_type) -> PLUGIN_TYPE:
         return next(self.__plugin_generator(plugin_type), None)
 
diff --git a/src/deep/grpc/grpc_service.py b/src/deep/grpc/grpc_service.py
index f1608d4..b8453c1 100644
--- a/src/deep/grpc/grpc_service.py
+++ b/src/deep/grpc/grpc_service.py
@@ -40,7 +40,7 @@ class GRPCService:
 
     def start(self):
         """Start and connect the GRPC channel."""
-        if str2bool(self._secure):
+        if str2bool(str(self._secure)):
             logging.info("Connecting securely")
             logging.debug("Connecting securely to: %s", self._service_url)
             self.channel = grpc.secure_channel(self._service_url, grpc.ssl_channel_credentials())
diff --git a/src/deep/poll/poll.py b/src/deep/poll/poll.py
index 9d6f09c..a1cc018 100644
--- a/src/deep/poll/poll.py
+++ b/src/deep/poll/poll.py
@@ -20,6 +20,8 @@ Deep needs to maintain a config of the tracepoints configured by the users. The
  periodically polling the long poll service.
 """
 
+import threading
+
 # noinspection PyUnresolvedReferences
 from deepproto.proto.poll.v1.poll_pb2 import PollRequest, ResponseType
 from deepproto.proto.poll.v1.poll_pb2_grpc import PollConfigStub
@@ -29,6 +31,9 @@ from deep.config import ConfigService
 from deep.grpc import convert_resource, convert_response, GRPCService
 from deep.utils import time_ns, RepeatedTimer
 
+DEFAULT_POLL_TIMER = 10
+"""The interval to use if the config is not a valid interval."""
+
 
 class LongPoll(object):
     """This service deals with polling the remote service to get the tracepoint configs."""
@@ -47,10 +52,22 @@ class LongPoll(object):
     def start(self):
         """Start the long poll service."""
         logging.info("Starting Long Poll system")
-        self.timer = RepeatedTimer("Tracepoint Long Poll", self.config.POLL_TIMER, self.poll)
+        self.timer = RepeatedTimer("Tracepoint Long Poll", self.__interval(), self.poll)
         self.__initial_poll()
         self.timer.start()
 
+    def __interval(self):
+        config = self.config.POLL_TIMER
+        try:
+            # from the environment this is text
+            interval = float(config)
+            if 0 < interval <= threading.TIMEOUT_MAX:
+                return interval
+        except (ValueError, TypeError, OverflowError):
+            pass
+        logging.error("Invalid poll timer %s, using %s.", config, DEFAULT_POLL_TIMER)
+        return DEFAULT_POLL_TIMER
+
     def __initial_poll(self):
         try:
             self.poll()
-- 
2.43.0


From 726c00d85a95728083b24208d2e932723f83a875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 19/29] fix: a clock that is set back while a snapshot is taken
 does not stop it from being sent

---
 src/deep/api/tracepoint/eventsnapshot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/deep/api/tracepoint/eventsnapshot.py b/src/deep/api/tracepoint/eventsnapshot.py
index 6f2f04c..0cbb634 100644
--- a/src/deep/api/tracepoint/eventsnapshot.py
+++ b/src/deep/api/tracepoint/eventsnapshot.py
@@ -49,7 +49,8 @@ class EventSnapshot:
 
     def complete(self):
         """Close and complete the snapshot."""
-        self._duration_nanos = time_ns() - self._ts_nanos
+        # the clock of the system can be set back in between, and a duration is never negative
+        self._duration_nanos = max(0, time_ns() - self._ts_nanos)
 
     def add_watch_result(self, watch_result: 'WatchResult'):
         """
-- 
2.43.0


From 635f4d1a78910d008554655894335b678b4bde2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:16 +0000
Subject: [PATCH 20/29] fix: a span or capture of a method waits for the
 invocation to end

A method can handle an exception and carry on, so the 'exception' event is not the end of
the invocation. Complete at the 'return' event, with the exception that ended the
invocation (if any) as the result.
---
 .../processor/context/callback_context.py     | 70 ++++++++++++++++---
 src/deep/processor/trigger_handler.py         |  1 +
 2 files changed, 63 insertions(+), 8 deletions(-)

diff --git a/src/deep/processor/context/callback_context.py b/src/deep/processor/context/callback_context.py
index 8b9cb9a..ad29268 100644
--- a/src/deep/processor/context/callback_context.py
+++ b/src/deep/processor/context/callback_context.py
@@ -14,8 +14,10 @@
 #      along with this program.  If not, see <https://www.gnu.org/licenses/>.
 
 """Handling for action callbacks."""
+import dis
+import sys
 from types import FrameType
-from typing import List
+from typing import List, Tuple
 
 import deep.logging
 from deep.api.tracepoint.trigger import Location
@@ -42,6 +44,32 @@ class CallbackContext(Location, ActionCallback):
         self.__line = line
         self.__callbacks = callbacks
         self.__frame = frame
+        # the exception that is being handled (possibly by one of our callers)
+        self.__handling = sys.exc_info()
+        # the last exception of our invocation, and if the program has moved on since
+        self.__exception = None
+        self.__moved = False
+
+    def track(self, event: str, frame: FrameType, arg: any):
+        """
+        Track the exceptions of the invocation that created this context.
+
+        An exception can be handled by the invocation, so we only know which exception is the result (if any) when the
+        invocation ends. This is the last one that was raised or, when the program has moved on since, the one that was
+        being handled (e.g. 'raise' in an 'except' block, or the end of a 'finally' block).
+
+        :param event: the event
+        :param frame: the frame data
+        :param arg: the arg from settrace
+        """
+        if frame is not self.__frame or self.__event == 'line':
+            return
+        if event == 'exception':
+            self.__exception = arg
+            self.__moved = False
+        elif event == 'line':
+            self.__handling = sys.exc_info()
+            self.__moved = True
 
     def at_location(self, event: str, file: str, line: int, function_name: str, frame: FrameType) -> bool:
         """
@@ -65,7 +93,7 @@ class CallbackContext(Location, ActionCallback):
         if self.__event == 'line':
             return self.__check_at_next_line(event, file, function_name)
         else:
-            return self.__check_at_method_end(event)
+            return self.__check_at_method_end(event, frame)
 
     def process(self, ctx: 'TriggerContext', event: str, frame: FrameType, arg: any):
         """
@@ -77,6 +105,7 @@ class CallbackContext(Location, ActionCallback):
         :param arg: the arg from settrace
         :return: True, to keep this callback until next match.
         """
+        event, arg = self.__result(event, frame, arg)
         for callback in self.__callbacks:
             try:
                 callback.process(ctx, event, frame, arg)
@@ -140,18 +169,43 @@ class CallbackContext(Location, ActionCallback):
         # If we are not line, then we have to be the return or error from the method we started in
         return True
 
-    def __check_at_method_end(self, event: str) -> bool:
+    def __result(self, event: str, frame: FrameType, arg: any) -> Tuple[str, any]:
+        """
+        Get the result of the invocation.
+
+        When an invocation ends with an exception we get a 'return' event, with 'None' as the value.
+
+        :param event: the event
+        :param frame: the frame data
+        :param arg: the arg from settrace
+        :return: the event and arg that are the result of the invocation
+        """
+        if event != 'return' or arg is not None or frame is not self.__frame:
+            return event, arg
+        moved = self.__moved or self.__exception is None
+        instruction = dis.opname[frame.f_code.co_code[frame.f_lasti]]
+        # an exception can be thrown into a generator at the instruction that did the yield
+        if instruction.startswith('RETURN') or (instruction.startswith('YIELD') and moved):
+            return event, arg
+        # the traceback of an exception starts with the invocation that is handling it
+        traceback = self.__handling[2]
+        if moved and traceback is not None and traceback.tb_frame is frame:
+            return 'exception', self.__handling
+        if self.__exception is not None:
+            return 'exception', self.__exception
+        return event, arg
+
+    def __check_at_method_end(self, event: str, frame: FrameType) -> bool:
         """
         Check if the new position is the end of the method we are wrapping.
 
         When a 'call' event triggers a callback, then we are trying to wrap a method execution. This means we should
-        trigger the callback when the method ends. this is when the event 'exception' or 'return' is seen with the
-        same file and function name.
+        trigger the callback when the method ends. this is when the event 'return' is seen, as a method can handle an
+        'exception'. If our invocation is not active, then the 'exception' is the end of another invocation.
 
         :param event: the current event
+        :param frame: the triggering frame object
         :return: True, if we are the next logical line of code.
 
         """
-        if event in ['exception', 'return']:
-            return True
-        return False
+        return event == 'return' or (event == 'exception' and frame is not self.__frame)
diff --git a/src/deep/processor/trigger_handler.py b/src/deep/processor/trigger_handler.py
index be8fe19..7224c6e 100644
--- a/src/deep/processor/trigger_handler.py
+++ b/src/deep/processor/trigger_handler.py
@@ -209,6 +209,7 @@ class TriggerHandler:
                              function_name: str):
         # process the contexts that are for our location, from the top
         for context in reversed(list(self._callbacks.value)):
+            context.track(event, frame, arg)
             if context.at_location(event, file, line, function_name, frame):
                 logging.debug("At callback location %s", context.name)
                 self._callbacks.value.remove(context)
-- 
2.43.0


From 52c0cb1c2936cc110d26efc3419c37fa36faca3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:23 +0000
Subject: [PATCH 21/29] fix: an agent that is started again after a shutdown
 delivers its results

A shutdown closes the task handler for good. A second start installed the
hooks, but every delivery failed with an IllegalStateException; and when the
first poll of the second life had a config update, that exception left start
with the hooks installed and the agent not started, so that shutdown did
nothing.
---
 src/deep/api/deep.py      | 1 +
 src/deep/task/__init__.py | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/src/deep/api/deep.py b/src/deep/api/deep.py
index 7a2bd7c..7c27648 100644
--- a/src/deep/api/deep.py
+++ b/src/deep/api/deep.py
@@ -67,6 +67,7 @@ class Deep:
                 deep.logging.exception("Failed to process plugin resource %s", provider)
 
         self.config.resource = default_resource
+        self.task_handler.start()
         self.trigger_handler.start()
         self.grpc.start()
         self.poll.start()
diff --git a/src/deep/task/__init__.py b/src/deep/task/__init__.py
index ca38c7b..ef7b15f 100644
--- a/src/deep/task/__init__.py
+++ b/src/deep/task/__init__.py
@@ -40,6 +40,11 @@ class TaskHandler:
         self._lock = threading.RLock()
         self._open = True
 
+    def start(self):
+        """Accept tasks, also after a flush."""
+        with self._lock:
+            self._open = True
+
     def __check_open(self):
         if not self._open:
             raise IllegalStateException
-- 
2.43.0


From 632907f44dcafa01bebe5696963e46e8b20a4c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:52 +0000
Subject: [PATCH 22/29] fix: the ids of snapshots do not use the random numbers
 of the program

---
 src/deep/api/tracepoint/eventsnapshot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/deep/api/tracepoint/eventsnapshot.py b/src/deep/api/tracepoint/eventsnapshot.py
index 0cbb634..d20500f 100644
--- a/src/deep/api/tracepoint/eventsnapshot.py
+++ b/src/deep/api/tracepoint/eventsnapshot.py
@@ -22,6 +22,9 @@ from deep.api.attributes import BoundedAttributes
 from deep.api.resource import Resource
 from deep.utils import time_ns
 
+# the shared generator belongs to the program, that can depend on its sequence of numbers
+_RANDOM = random.SystemRandom()
+
 
 class EventSnapshot:
     """This is the model for the snapshot that is uploaded to the services."""
@@ -36,7 +39,7 @@ class EventSnapshot:
         :param frames: the captured frames
         :param var_lookup: the captured variables.
         """
-        self._id = random.getrandbits(128)
+        self._id = _RANDOM.getrandbits(128)
         self._tracepoint = tracepoint
         self._var_lookup: Dict[str, 'Variable'] = var_lookup
         self._ts_nanos = ts
-- 
2.43.0


From eb06c56d185c70ed734718e476288f98c3147559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:53 +0000
Subject: [PATCH 23/29] fix: the pool of the agent does not change the names of
 the pools of the program

---
 src/deep/task/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/deep/task/__init__.py b/src/deep/task/__init__.py
index ef7b15f..bf46aad 100644
--- a/src/deep/task/__init__.py
+++ b/src/deep/task/__init__.py
@@ -34,7 +34,8 @@ class TaskHandler:
 
     def __init__(self):
         """Create a new TaskHandler to process tasks in a separate thread."""
-        self._pool = ThreadPoolExecutor(max_workers=2)
+        # without a name this would use a number of the pools of the program, that are part of the names of its threads
+        self._pool = ThreadPoolExecutor(max_workers=2, thread_name_prefix="Deep Task")
         self._pending = {}
         self._job_id = 0
         self._lock = threading.RLock()
-- 
2.43.0


From f30cc7b1d0d98dba1a13dec28745f38102c46a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:36 +0000
Subject: [PATCH 24/29] fix: reading the variables of a frame does not change
 the frame

---
 src/deep/processor/context/trigger_context.py |  6 +-
 src/deep/processor/frame_collector.py         |  4 +-
 src/deep/utils.py                             | 56 +++++++++++++++++++
 3 files changed, 61 insertions(+), 5 deletions(-)

diff --git a/src/deep/processor/context/trigger_context.py b/src/deep/processor/context/trigger_context.py
index 0d4f2ab..9d21d5b 100644
--- a/src/deep/processor/context/trigger_context.py
+++ b/src/deep/processor/context/trigger_context.py
@@ -31,7 +31,7 @@ from deep.processor.context.snapshot_action import SnapshotActionContext
 from deep.processor.context.span_action import SpanActionContext
 from deep.processor.frame_collector import FrameCollector
 from deep.push import PushService
-from deep.utils import time_ns
+from deep.utils import frame_locals, time_ns
 
 
 class TriggerContext:
@@ -92,7 +92,7 @@ class TriggerContext:
     @property
     def locals(self) -> Dict[str, any]:
         """The local frame variables."""
-        return self.__frame.f_locals
+        return frame_locals(self.__frame)
 
     @property
     def ts(self):
@@ -152,7 +152,7 @@ class TriggerContext:
         :return: the result of the expression
         :raises: the exception that was raised by the expression
         """
-        f_locals = dict(self.__frame.f_locals)
+        f_locals = dict(frame_locals(self.__frame))
         f_globals = dict(getattr(self.__frame, 'f_globals', {}))
         f_globals.update(f_locals)
         return eval(expression, f_globals, f_locals)
diff --git a/src/deep/processor/frame_collector.py b/src/deep/processor/frame_collector.py
index 3854fd3..b3051d8 100644
--- a/src/deep/processor/frame_collector.py
+++ b/src/deep/processor/frame_collector.py
@@ -20,7 +20,7 @@ from types import FrameType
 from typing import Tuple, Dict, List
 
 from deep.api.tracepoint import StackFrame, Variable
-from deep.utils import time_ns
+from deep.utils import frame_locals, time_ns
 from .variable_processor import type_to_name
 from .variable_set_processor import VariableCacheProvider, VariableSetProcessor, VariableProcessorConfig
 
@@ -138,7 +138,7 @@ class FrameCollector:
         filename = frame.f_code.co_filename
         func_name = frame.f_code.co_name
 
-        f_locals = frame.f_locals
+        f_locals = frame_locals(frame)
         _self = f_locals.get('self', None)
         class_name = None
         if _self is not None:
diff --git a/src/deep/utils.py b/src/deep/utils.py
index ce7d05b..840c6c7 100644
--- a/src/deep/utils.py
+++ b/src/deep/utils.py
@@ -15,11 +15,67 @@
 
 """A collection of util functions to perform common or repeated actions."""
 
+import inspect
+import sys
 import time
 from threading import Event, Thread
+from types import FrameType
 
 from deep import logging
 
+try:
+    import ctypes
+
+    if (3, 12) <= sys.version_info < (3, 13):
+        _get_var = ctypes.pythonapi.PyFrame_GetVar
+        _get_var.argtypes = [ctypes.py_object, ctypes.py_object]
+        _get_var.restype = ctypes.py_object
+    else:
+        _get_var = None
+except (ImportError, AttributeError):
+    _get_var = None
+
+
+def frame_locals(frame):
+    """
+    Get the local variables of a frame.
+
+    Before Python 3.13 (PEP 667) reading 'f_locals' while tracing has side effects on the frame: when the trace function
+    is complete Python writes the values it had before back to the variables. This loses the changes made in the meantime
+    by other threads (closures), and breaks the comprehensions of modules and classes that are inlined in Python 3.12.
+    It also changes the result of earlier calls to 'locals()', and keeps the values alive. So where we can we read the
+    variables one by one.
+
+    :param frame: the frame
+    :return: the values of the variables by name
+    """
+    if _get_var is None or not isinstance(frame, FrameType):
+        return frame.f_locals
+
+    code = frame.f_code
+    optimized = code.co_flags & inspect.CO_OPTIMIZED
+    names = code.co_varnames
+    if optimized:
+        names = names + code.co_cellvars + code.co_freevars
+    elif len(names) == 0:
+        # there is no inlined comprehension, so this is the namespace of the module or class
+        return frame.f_locals
+
+    variables = {}
+    for name in names:
+        try:
+            variables[name] = _get_var(frame, name)
+        except NameError:
+            # the variable is not set
+            pass
+
+    if optimized:
+        return variables
+    if code.co_name == '<module>':
+        return {**frame.f_globals, **variables}
+    # within a comprehension of a class body we cannot get to the namespace of the class
+    return variables if variables else frame.f_locals
+
 
 def snapshot_id_as_hex_str(snapshot_id):
     """Convert a snapshot if to a hex string."""
-- 
2.43.0


From 8fc6b9dbe9d7cf11d3c271cd7ad6926500bf4803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:51 +0000
Subject: [PATCH 25/29] fix: the agent does not keep the values and exceptions
 of the program alive

---
 .../processor/context/callback_context.py     | 37 ++++++++++--------
 src/deep/processor/trigger_handler.py         |  3 +-
 src/deep/processor/variable_processor.py      | 35 +++++++++++++----
 src/deep/processor/variable_set_processor.py  | 38 +++++++++++++------
 4 files changed, 78 insertions(+), 35 deletions(-)

diff --git a/src/deep/processor/context/callback_context.py b/src/deep/processor/context/callback_context.py
index ad29268..bb7f72f 100644
--- a/src/deep/processor/context/callback_context.py
+++ b/src/deep/processor/context/callback_context.py
@@ -44,11 +44,10 @@ class CallbackContext(Location, ActionCallback):
         self.__line = line
         self.__callbacks = callbacks
         self.__frame = frame
-        # the exception that is being handled (possibly by one of our callers)
-        self.__handling = sys.exc_info()
-        # the last exception of our invocation, and if the program has moved on since
+        # the exception that is being handled by our invocation
+        self.__handling = self.__handled_exception()
+        # the exception that was raised by our invocation, if the program has not moved on since
         self.__exception = None
-        self.__moved = False
 
     def track(self, event: str, frame: FrameType, arg: any):
         """
@@ -66,10 +65,22 @@ class CallbackContext(Location, ActionCallback):
             return
         if event == 'exception':
             self.__exception = arg
-            self.__moved = False
         elif event == 'line':
-            self.__handling = sys.exc_info()
-            self.__moved = True
+            # we must not keep the exceptions (so all the values of the frames) after they have been handled
+            self.__handling = self.__handled_exception()
+            self.__exception = None
+
+    def __handled_exception(self):
+        """
+        Get the exception that is being handled by our invocation.
+
+        :return: the exception info, or None if there is no exception (or it is handled by one of our callers)
+        """
+        handling = sys.exc_info()
+        # the traceback of an exception starts with the invocation that is handling it
+        if handling[2] is not None and handling[2].tb_frame is self.__frame:
+            return handling
+        return None
 
     def at_location(self, event: str, file: str, line: int, function_name: str, frame: FrameType) -> bool:
         """
@@ -182,17 +193,13 @@ class CallbackContext(Location, ActionCallback):
         """
         if event != 'return' or arg is not None or frame is not self.__frame:
             return event, arg
-        moved = self.__moved or self.__exception is None
         instruction = dis.opname[frame.f_code.co_code[frame.f_lasti]]
         # an exception can be thrown into a generator at the instruction that did the yield
-        if instruction.startswith('RETURN') or (instruction.startswith('YIELD') and moved):
+        if instruction.startswith('RETURN') or (instruction.startswith('YIELD') and self.__exception is None):
             return event, arg
-        # the traceback of an exception starts with the invocation that is handling it
-        traceback = self.__handling[2]
-        if moved and traceback is not None and traceback.tb_frame is frame:
-            return 'exception', self.__handling
-        if self.__exception is not None:
-            return 'exception', self.__exception
+        exception = self.__exception or self.__handling
+        if exception is not None:
+            return 'exception', exception
         return event, arg
 
     def __check_at_method_end(self, event: str, frame: FrameType) -> bool:
diff --git a/src/deep/processor/trigger_handler.py b/src/deep/processor/trigger_handler.py
index 7224c6e..12e7f43 100644
--- a/src/deep/processor/trigger_handler.py
+++ b/src/deep/processor/trigger_handler.py
@@ -187,7 +187,8 @@ class TriggerHandler:
         except BaseException:
             self.__log_failure("Cannot trigger at %s#%s %s", file, line, function)
 
-        callbacks = trigger_context.callbacks
+        # the callbacks refer to the context, so the context must not keep them longer than they are needed
+        callbacks, trigger_context.callbacks = trigger_context.callbacks, []
         if len(callbacks) > 0:
             logging.debug("Callbacks registered: %s", callbacks)
             self._callbacks.get().append(
diff --git a/src/deep/processor/variable_processor.py b/src/deep/processor/variable_processor.py
index f4a39bb..44a3be7 100644
--- a/src/deep/processor/variable_processor.py
+++ b/src/deep/processor/variable_processor.py
@@ -297,6 +297,33 @@ def truncate_string(string, max_length):
     return string[:max_length], len(string) > max_length
 
 
+class VariableParent(ParentNode):
+    """
+    The parent of the children of a variable.
+
+    This is not a closure, as a class refers to itself it would keep the values until the next garbage collection.
+    """
+
+    def __init__(self, var_collector: Collector, variable_id: str):
+        """
+        Create a new parent.
+
+        :param var_collector: the collector we are using
+        :param variable_id: the id of the variable to attach the children to
+        """
+        self.__var_collector = var_collector
+        self.__variable_id = variable_id
+
+    def add_child(self, child: VariableId):
+        """
+        Add a child to this parent.
+
+        :param child: the child to add.
+        """
+        # look for the child in the lookup and add this id to it
+        self.__var_collector.append_child(self.__variable_id, child)
+
+
 def process_child_nodes(
         var_collector: Collector,
         variable_id: str,
@@ -323,14 +350,8 @@ def process_child_nodes(
     if frame_depth + 1 >= var_collector.max_var_depth:
         return []
 
-    class VariableParent(ParentNode):
-
-        def add_child(self, child: VariableId):
-            # look for the child in the lookup and add this id to it
-            var_collector.append_child(variable_id, child)
-
     # scan the child based on type
-    return find_children_for_parent(var_collector, VariableParent(), var_value, variable_type)
+    return find_children_for_parent(var_collector, VariableParent(var_collector, variable_id), var_value, variable_type)
 
 
 def correct_names(name, val):
diff --git a/src/deep/processor/variable_set_processor.py b/src/deep/processor/variable_set_processor.py
index b613979..4e9fcd1 100644
--- a/src/deep/processor/variable_set_processor.py
+++ b/src/deep/processor/variable_set_processor.py
@@ -115,6 +115,30 @@ class VariableProcessorConfig:
         self.max_string_length = max_string_length
 
 
+class FrameParent(ParentNode):
+    """
+    The parent of the variables of a frame.
+
+    This is not a closure, as a class refers to itself it would keep the values until the next garbage collection.
+    """
+
+    def __init__(self, var_ids: List[VariableId]):
+        """
+        Create a new parent.
+
+        :param var_ids: the list to add the variables to
+        """
+        self.__var_ids = var_ids
+
+    def add_child(self, child: VariableId):
+        """
+        Add a child to this parent.
+
+        :param child: the child to add.
+        """
+        self.__var_ids.append(child)
+
+
 class VariableSetProcessor(Collector):
     """Handle the processing of variables."""
 
@@ -142,13 +166,8 @@ class VariableSetProcessor(Collector):
         """
         var_ids = []
 
-        class FrameParent(ParentNode):
-
-            def add_child(self, child):
-                var_ids.append(child)
-
         root = Node()
-        root.add_children(process_dict_breadth_first(FrameParent(), 'dict', f_locals))
+        root.add_children(process_dict_breadth_first(FrameParent(var_ids), 'dict', f_locals))
         breadth_first_search(root, self.search_function)
 
         return var_ids
@@ -170,12 +189,7 @@ class VariableSetProcessor(Collector):
         # else this is an unknown value so process breadth first
         var_ids = []
 
-        class FrameParent(ParentNode):
-
-            def add_child(self, child):
-                var_ids.append(child)
-
-        root_parent = FrameParent()
+        root_parent = FrameParent(var_ids)
 
         initial_nodes = [Node(NodeValue(name, value), parent=root_parent)]
         breadth_first_search(Node(None, initial_nodes, root_parent), self.search_function)
-- 
2.43.0


From e1c605f895a64ce9ef87b51d2d9f2a0d3ceb01ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:52 +0000
Subject: [PATCH 26/29] fix: an exception that leaves a comprehension is the
 result of the invocation, and is released when it is handled

---
 .../processor/context/callback_context.py     | 31 +++++++++++++++----
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/deep/processor/context/callback_context.py b/src/deep/processor/context/callback_context.py
index bb7f72f..a90a90b 100644
--- a/src/deep/processor/context/callback_context.py
+++ b/src/deep/processor/context/callback_context.py
@@ -46,8 +46,10 @@ class CallbackContext(Location, ActionCallback):
         self.__frame = frame
         # the exception that is being handled by our invocation
         self.__handling = self.__handled_exception()
-        # the exception that was raised by our invocation, if the program has not moved on since
+        # the exception that was raised by our invocation, and what the program has done since
         self.__exception = None
+        self.__moved = False
+        self.__leaving_with = False
 
     def track(self, event: str, frame: FrameType, arg: any):
         """
@@ -64,11 +66,27 @@ class CallbackContext(Location, ActionCallback):
         if frame is not self.__frame or self.__event == 'line':
             return
         if event == 'exception':
-            self.__exception = arg
+            # the exception that ends an iterator is handled by the loop
+            end_of_loop = issubclass(arg[0], StopIteration) and self.__instruction(frame) in ('FOR_ITER', 'SEND')
+            self.__exception = None if end_of_loop else arg
+            self.__moved = False
+            self.__leaving_with = False
         elif event == 'line':
-            # we must not keep the exceptions (so all the values of the frames) after they have been handled
             self.__handling = self.__handled_exception()
-            self.__exception = None
+            self.__moved = True
+            if self.__exception is None:
+                return
+            # We must not keep the exception (so all the values of the frames) after it has been handled. It is not handled
+            # by the code that ends a 'with' block, before this has called __exit__, or that ends a comprehension.
+            if self.__instruction(frame) == 'PUSH_EXC_INFO':
+                self.__leaving_with = True
+            elif self.__leaving_with or self.__handling is not None or issubclass(self.__exception[0], StopAsyncIteration):
+                self.__exception = None
+                self.__leaving_with = False
+
+    @staticmethod
+    def __instruction(frame: FrameType) -> str:
+        return dis.opname[frame.f_code.co_code[frame.f_lasti]]
 
     def __handled_exception(self):
         """
@@ -193,9 +211,10 @@ class CallbackContext(Location, ActionCallback):
         """
         if event != 'return' or arg is not None or frame is not self.__frame:
             return event, arg
-        instruction = dis.opname[frame.f_code.co_code[frame.f_lasti]]
+        instruction = self.__instruction(frame)
+        moved = self.__moved or self.__exception is None
         # an exception can be thrown into a generator at the instruction that did the yield
-        if instruction.startswith('RETURN') or (instruction.startswith('YIELD') and self.__exception is None):
+        if instruction.startswith('RETURN') or (instruction.startswith('YIELD') and moved):
             return event, arg
         exception = self.__exception or self.__handling
         if exception is not None:
-- 
2.43.0


From 7d3c6ec8194b87574002a2470aecda9af994777a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:05 +0000
Subject: [PATCH 27/29] fix: the end of a delegated generator or an awaited
 coroutine is not the result of an invocation

---
 src/deep/processor/context/callback_context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/deep/processor/context/callback_context.py b/src/deep/processor/context/callback_context.py
index a90a90b..31210a8 100644
--- a/src/deep/processor/context/callback_context.py
+++ b/src/deep/processor/context/callback_context.py
@@ -67,7 +67,7 @@ class CallbackContext(Location, ActionCallback):
             return
         if event == 'exception':
             # the exception that ends an iterator is handled by the loop
-            end_of_loop = issubclass(arg[0], StopIteration) and self.__instruction(frame) in ('FOR_ITER', 'SEND')
+            end_of_loop = issubclass(arg[0], StopIteration) and self.__instruction(frame) in ('FOR_ITER', 'SEND', 'END_SEND')
             self.__exception = None if end_of_loop else arg
             self.__moved = False
             self.__leaving_with = False
-- 
2.43.0


From a53710d3f5ba34c06f461055bd9034e61235fdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:11 +0000
Subject: [PATCH 28/29] fix: complete the deferred work of an invocation that
 shuts the agent down

---
 src/deep/processor/context/callback_context.py |  4 ++--
 src/deep/processor/trigger_handler.py          | 16 ++++++++++++++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/deep/processor/context/callback_context.py b/src/deep/processor/context/callback_context.py
index 31210a8..61f4e57 100644
--- a/src/deep/processor/context/callback_context.py
+++ b/src/deep/processor/context/callback_context.py
@@ -116,7 +116,7 @@ class CallbackContext(Location, ActionCallback):
             return False
 
         # another invocation of the same function (e.g. recursion) is not the correct place.
-        if frame is not self.__frame and self.__is_active(frame):
+        if frame is not self.__frame and self.is_active(frame):
             return False
 
         if self.__event == 'line':
@@ -161,7 +161,7 @@ class CallbackContext(Location, ActionCallback):
         """The function name."""
         return self.__function_name
 
-    def __is_active(self, frame: FrameType) -> bool:
+    def is_active(self, frame: FrameType) -> bool:
         """
         Check if the invocation that created this context is still active.
 
diff --git a/src/deep/processor/trigger_handler.py b/src/deep/processor/trigger_handler.py
index 12e7f43..c79635d 100644
--- a/src/deep/processor/trigger_handler.py
+++ b/src/deep/processor/trigger_handler.py
@@ -255,3 +255,19 @@ class TriggerHandler:
             self.__installed = False
             sys.settrace(self.__old_sys_trace)
             threading.settrace(self.__old_thread_trace)
+            self.__complete_call_backs()
+
+    def __complete_call_backs(self):
+        """
+        Complete the callbacks of the current thread.
+
+        The shutdown can be called from an invocation that has callbacks, there are no more events that could complete them.
+        """
+        if not self._callbacks.is_set:
+            return
+        frame = sys._getframe()
+        ctx = TriggerContext(self._config, self._push_service, frame, 'shutdown', None)
+        for context in reversed(list(self._callbacks.value)):
+            if context.is_active(frame):
+                context.process(ctx, 'shutdown', frame, None)
+        self._callbacks.clear()
-- 
2.43.0


From dbf92b3c004e521c63cd9f3c4c10600014a40165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:16 +0000
Subject: [PATCH 29/29] fix: an exception that goes on after an 'except' block
 that does not match, to the end of a 'with' block, was reported as a return

---
 src/deep/processor/context/callback_context.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/deep/processor/context/callback_context.py b/src/deep/processor/context/callback_context.py
index 61f4e57..4e42769 100644
--- a/src/deep/processor/context/callback_context.py
+++ b/src/deep/processor/context/callback_context.py
@@ -72,9 +72,13 @@ class CallbackContext(Location, ActionCallback):
             self.__moved = False
             self.__leaving_with = False
         elif event == 'line':
-            self.__handling = self.__handled_exception()
+            handling, self.__handling = self.__handling, self.__handled_exception()
             self.__moved = True
             if self.__exception is None:
+                # an exception that goes on after it was handled can get to the end of a 'with' block
+                if handling is not None and self.__instruction(frame) == 'PUSH_EXC_INFO':
+                    self.__exception = handling
+                    self.__leaving_with = True
                 return
             # We must not keep the exception (so all the values of the frames) after it has been handled. It is not handled
             # by the code that ends a 'with' block, before this has called __exit__, or that ends a comprehension.
-- 
2.43.0

