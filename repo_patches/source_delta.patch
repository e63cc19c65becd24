From 8e8acaf164098c0336ec98d3252a7ea9203b58fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:44 +0000
Subject: [PATCH 01/70] fix: connecting or disconnecting during an emission no
 longer skips or repeats callbacks

---
 src/psygnal/_signal.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 86573de..bbc40ac 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -1237,7 +1237,7 @@ class SignalInstance:
 
         self._recursion_depth += 1
         try:
-            for caller in self._slots:
+            for caller in self._iter_slots():
                 caller.cb(args)
         except RecursionError as e:
             raise RecursionError(
@@ -1302,14 +1302,26 @@ class SignalInstance:
                     self._recursion_depth = 0
                 self._emit_queue.clear()
 
+    def _iter_slots(self) -> Iterator[WeakCallback]:
+        """Iterate over the slots to call in an emission.
+
+        Callbacks may connect and disconnect slots while we're iterating: slots that
+        have been removed before their turn are skipped, and slots added after the
+        iteration began are not included.
+        """
+        slots = self._slots
+        for i, slot in enumerate(tuple(slots)):
+            if (i < len(slots) and slots[i] is slot) or any(s is slot for s in slots):
+                yield slot
+
     def _run_emit_loop_immediate(self) -> None:
         args = self._emit_queue.popleft()
-        for caller in self._slots:
+        for caller in self._iter_slots():
             caller.cb(args)
 
     def _run_emit_loop_latest_only(self) -> None:
         self._args = args = self._emit_queue.popleft()
-        for caller in self._slots:
+        for caller in self._iter_slots():
             if self._recursion_depth < self._max_recursion_depth:
                 # we've already entered a deeper emit loop
                 # we should drop the remaining slots in this round and return
@@ -1321,7 +1333,7 @@ class SignalInstance:
         i = 0
         while i < len(self._emit_queue):
             args = self._emit_queue[i]
-            for caller in self._slots:
+            for caller in self._iter_slots():
                 caller.cb(args)
                 if len(self._emit_queue) > RECURSION_LIMIT:
                     raise RecursionError
-- 
2.43.0


From 93e529037788a4359da51849119279ff0ae26096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:45 +0000
Subject: [PATCH 02/70] fix: latest-only reemission always delivers the newest
 emission

---
 src/psygnal/_signal.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index bbc40ac..a4b7306 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -555,6 +555,9 @@ class SignalInstance:
         self._emit_queue: deque[tuple] = deque()
         self._recursion_depth: int = 0
         self._max_recursion_depth: int = 0
+        # number of emissions made so far (used to detect newer emissions in the
+        # "latest-only" mode)
+        self._emission_count: int = 0
         self._run_emit_loop_inner: Callable[[], None]
         if self._reemission == ReemissionMode.QUEUED:
             self._run_emit_loop_inner = self._run_emit_loop_queued
@@ -1321,9 +1324,11 @@ class SignalInstance:
 
     def _run_emit_loop_latest_only(self) -> None:
         self._args = args = self._emit_queue.popleft()
+        self._emission_count += 1
+        emission = self._emission_count
         for caller in self._iter_slots():
-            if self._recursion_depth < self._max_recursion_depth:
-                # we've already entered a deeper emit loop
+            if self._emission_count != emission:
+                # a newer emission has been made by a callback
                 # we should drop the remaining slots in this round and return
                 break
             self._caller = caller
@@ -1489,6 +1494,7 @@ class SignalInstance:
             "_reemission",
             "_max_recursion_depth",
             "_recursion_depth",
+            "_emission_count",
         )
         dd = {slot: getattr(self, slot) for slot in attrs}
         dd["_instance"] = self._instance()
-- 
2.43.0


From 34bfafee743c698b1ecbb0d6f1dfb064db47e04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:09 +0000
Subject: [PATCH 03/70] fix: resume() never emits collected arguments twice

---
 src/psygnal/_signal.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index a4b7306..dc0568d 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -1426,24 +1426,25 @@ class SignalInstance:
         # EventedModel.update, it may be undefined (as seen in tests)
         if not getattr(self, "_args_queue", None):
             return
+        # take the collected args out of the queue *before* emitting: callbacks may raise
+        # or pause/resume this signal, and nothing may be emitted twice.
+        args_queue, self._args_queue = self._args_queue, []
         if len(self._slots) == 0:
-            self._args_queue.clear()
             return
 
         if reducer is not None:
             if len(inspect.signature(reducer).parameters) == 1:
-                args = cast("ReducerOneArg", reducer)(self._args_queue)
+                args = cast("ReducerOneArg", reducer)(args_queue)
             else:
                 reducer = cast("ReducerTwoArgs", reducer)
                 if initial is _NULL:
-                    args = reduce(reducer, self._args_queue)
+                    args = reduce(reducer, args_queue)
                 else:
-                    args = reduce(reducer, self._args_queue, initial)
+                    args = reduce(reducer, args_queue, initial)
             self._run_emit_loop(args)
         else:
-            for args in self._args_queue:
+            for args in args_queue:
                 self._run_emit_loop(args)
-        self._args_queue.clear()
 
     def paused(
         self, reducer: ReducerFunc | None = None, initial: Any = _NULL
-- 
2.43.0


From 7a326e26cca08fc4bc49495b6bf6c09a549fd99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:10 +0000
Subject: [PATCH 04/70] fix: track the current emitter separately in each
 thread

---
 src/psygnal/_signal.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index dc0568d..0ff61f5 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -290,7 +290,8 @@ class Signal:
 
     # _signature: Signature  # callback signature for this signal
 
-    _current_emitter: ClassVar[SignalInstance | None] = None
+    # the currently emitting SignalInstance, in each thread
+    _current_emitter: ClassVar[threading.local] = threading.local()
 
     def __init__(
         self,
@@ -409,11 +410,12 @@ class Signal:
     @contextmanager
     def _emitting(cls, emitter: SignalInstance) -> Iterator[None]:
         """Context that sets the sender on a receiver object while emitting a signal."""
-        previous, cls._current_emitter = cls._current_emitter, emitter
+        previous = cls.current_emitter()
+        cls._current_emitter.value = emitter
         try:
             yield
         finally:
-            cls._current_emitter = previous
+            cls._current_emitter.value = previous
 
     @classmethod
     def current_emitter(cls) -> SignalInstance | None:
@@ -431,7 +433,7 @@ class Signal:
             source = Signal.current_emitter()
         ```
         """
-        return cls._current_emitter
+        return getattr(cls._current_emitter, "value", None)
 
     @classmethod
     def sender(cls) -> Any:
@@ -439,7 +441,7 @@ class Signal:
 
         This will typically be used in a callback.
         """
-        return getattr(cls._current_emitter, "instance", None)
+        return getattr(cls.current_emitter(), "instance", None)
 
 
 _empty_signature = Signature()
-- 
2.43.0


From 7064418815e70248395cae7f862307b71086c67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:00 +0000
Subject: [PATCH 05/70] fix: blocking a SignalGroup restores each signal's own
 state, however nested

---
 src/psygnal/_group.py | 47 ++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 42 insertions(+), 5 deletions(-)

diff --git a/src/psygnal/_group.py b/src/psygnal/_group.py
index a2f6ba8..e400b76 100644
--- a/src/psygnal/_group.py
+++ b/src/psygnal/_group.py
@@ -69,7 +69,9 @@ class SignalRelay(SignalInstance):
     ) -> None:
         super().__init__(signature=(EmissionInfo,), instance=instance)
         self._signals = MappingProxyType(signals)
-        self._sig_was_blocked: dict[str, bool] = {}
+        # state of each emitter before it was blocked by `block()`
+        # (`None` if `block()` is not in effect)
+        self._sig_was_blocked: dict[str, bool] | None = None
 
     def _append_slot(self, slot: WeakCallback) -> None:
         super()._append_slot(slot)
@@ -158,17 +160,28 @@ class SignalRelay(SignalInstance):
     def block(self, exclude: Container[str | SignalInstance] = ()) -> None:
         """Block this signal and all emitters from emitting."""
         super().block()
+        if self._sig_was_blocked is None:
+            self._sig_was_blocked = {}
         for name, sig in self._signals.items():
             if name in exclude or sig in exclude:
                 continue
-            self._sig_was_blocked[name] = sig._is_blocked
+            # don't overwrite the state that was recorded by an earlier `block()`
+            self._sig_was_blocked.setdefault(name, sig._is_blocked)
             sig.block()
 
     def unblock(self) -> None:
-        """Unblock this signal and all emitters, allowing them to emit."""
+        """Unblock this signal and all emitters, allowing them to emit.
+
+        Emitters that were blocked by `block()` get back the state they had before.
+        """
         super().unblock()
+        was_blocked, self._sig_was_blocked = self._sig_was_blocked, None
         for name, sig in self._signals.items():
-            if not self._sig_was_blocked.pop(name, False):
+            if was_blocked is not None and name not in was_blocked:
+                continue  # this signal was excluded from the block
+            if was_blocked and was_blocked[name]:
+                sig.block()
+            else:
                 sig.unblock()
 
     def blocked(
@@ -182,7 +195,7 @@ class SignalRelay(SignalInstance):
             An iterable of signal instances or names to exempt from the block,
             by default ()
         """
-        return _SignalBlocker(self, exclude=exclude)
+        return _GroupBlocker(self, exclude=exclude)
 
     def disconnect(self, slot: Callable | None = None, missing_ok: bool = True) -> None:
         """Disconnect slot from all signals.
@@ -206,6 +219,30 @@ class SignalRelay(SignalInstance):
         super().disconnect(slot, missing_ok)
 
 
+class _GroupBlocker(_SignalBlocker):
+    """Context manager to block and unblock a SignalRelay and all its signals."""
+
+    _signal: SignalRelay
+    _states: list[tuple[SignalInstance, bool]]
+    _sig_was_blocked: dict[str, bool] | None
+
+    def __enter__(self) -> None:
+        relay = self._signal
+        self._states = [(relay, relay._is_blocked)]
+        for name, sig in relay._signals.items():
+            if not (name in self._exclude or sig in self._exclude):
+                self._states.append((sig, sig._is_blocked))
+        was_blocked = relay._sig_was_blocked
+        self._sig_was_blocked = None if was_blocked is None else dict(was_blocked)
+        relay.block(exclude=self._exclude)
+
+    def __exit__(self, *args: Any) -> None:
+        # restore every (non-excluded) signal to the state it had on entry.
+        for sig, was_blocked in self._states:
+            sig._is_blocked = was_blocked
+        self._signal._sig_was_blocked = self._sig_was_blocked
+
+
 # NOTE
 # To developers. Avoid adding public names to this class, as it is intended to be
 # a container for user-determined names.  If names must be added, try to prefix
-- 
2.43.0


From c13ef347c3664826589330fc44522e090f3ee8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:01 +0000
Subject: [PATCH 06/70] fix: blocked() and paused() restore the state at the
 time of entry

---
 src/psygnal/_signal.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 0ff61f5..6425cd6 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -1536,13 +1536,15 @@ class _SignalBlocker:
     ) -> None:
         self._signal = signal
         self._exclude = exclude
-        self._was_blocked = signal._is_blocked
 
     def __enter__(self) -> None:
+        self._was_blocked = self._signal._is_blocked
         self._signal.block(exclude=self._exclude)
 
     def __exit__(self, *args: Any) -> None:
-        if not self._was_blocked:
+        if self._was_blocked:
+            self._signal.block(exclude=self._exclude)
+        else:
             self._signal.unblock()
 
 
@@ -1552,12 +1554,12 @@ class _SignalPauser:
     def __init__(
         self, signal: SignalInstance, reducer: ReducerFunc | None, initial: Any
     ) -> None:
-        self._was_paused = signal._is_paused
         self._signal = signal
         self._reducer = reducer
         self._initial = initial
 
     def __enter__(self) -> None:
+        self._was_paused = self._signal._is_paused
         self._signal.pause()
 
     def __exit__(self, *args: Any) -> None:
-- 
2.43.0


From 2aec186ab54a9f83a70651c2c1e8dc475157dcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:16 +0000
Subject: [PATCH 07/70] fix: SignalGroup.disconnect(missing_ok=False) finds
 callbacks connected to the group

---
 src/psygnal/_group.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/_group.py b/src/psygnal/_group.py
index e400b76..c62d143 100644
--- a/src/psygnal/_group.py
+++ b/src/psygnal/_group.py
@@ -214,9 +214,13 @@ class SignalRelay(SignalInstance):
         ValueError
             If `slot` is not connected and `missing_ok` is False.
         """
+        if slot is not None and not missing_ok:
+            # it's enough if slot is connected to *any* of the signals or to the group
+            if slot not in self and all(slot not in s for s in self._signals.values()):
+                raise ValueError(f"slot is not connected: {slot}")
         for sig in self._signals.values():
-            sig.disconnect(slot, missing_ok)
-        super().disconnect(slot, missing_ok)
+            sig.disconnect(slot)
+        super().disconnect(slot)
 
 
 class _GroupBlocker(_SignalBlocker):
-- 
2.43.0


From cc028ef5bacfd1afa3415d101e235e37ba1f3de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:18 +0000
Subject: [PATCH 08/70] fix: pausing a SignalGroup collects the emissions of
 its signals

---
 src/psygnal/_group.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_group.py b/src/psygnal/_group.py
index c62d143..37a63aa 100644
--- a/src/psygnal/_group.py
+++ b/src/psygnal/_group.py
@@ -99,7 +99,10 @@ class SignalRelay(SignalInstance):
     def _slot_relay(self, *args: Any) -> None:
         if emitter := Signal.current_emitter():
             info = EmissionInfo(emitter, args)
-            self._run_emit_loop((info,))
+            if self._is_paused:
+                self._args_queue.append((info,))
+            else:
+                self._run_emit_loop((info,))
 
     def connect_direct(
         self,
-- 
2.43.0


From 923ddc7e61599554c8dcba5cb9affc068a6a278e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:02 +0000
Subject: [PATCH 09/70] fix: several SignalGroupDescriptors on one class no
 longer share their group

---
 src/psygnal/_group_descriptor.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index 557c543..ed0b6bf 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -10,7 +10,6 @@ from typing import (
     TYPE_CHECKING,
     Any,
     Callable,
-    ClassVar,
     Literal,
     Optional,
     TypeVar,
@@ -508,10 +507,6 @@ class SignalGroupDescriptor:
     ```
     """
 
-    # map of id(obj) -> SignalGroup
-    # cached here in case the object isn't modifiable
-    _instance_map: ClassVar[dict[int, SignalGroup]] = {}
-
     def __init__(
         self,
         *,
@@ -552,6 +547,10 @@ class SignalGroupDescriptor:
 
         self._signal_groups: dict[int, type[SignalGroup]] = {}
 
+        # map of id(obj) -> SignalGroup
+        # cached here in case the object isn't modifiable
+        self._instance_map: dict[int, SignalGroup] = {}
+
     def __set_name__(self, owner: type, name: str) -> None:
         """Called when this descriptor is added to class `owner` as attribute `name`."""
         self._name = name
-- 
2.43.0


From 63a37090072ad7e93261b872ba6803e9e605c41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:03 +0000
Subject: [PATCH 10/70] fix: a Signal with a custom name is created only once
 per object

---
 src/psygnal/_signal.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 6425cd6..4014537 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -303,6 +303,8 @@ class Signal:
         reemission: ReemissionVal = DEFAULT_REEMISSION,
     ) -> None:
         self._name = name
+        # name of the class attribute, may differ from `name`
+        self._attr_name: str | None = None
         self.description = description
         self._check_nargs_on_connect = check_nargs_on_connect
         self._check_types_on_connect = check_types_on_connect
@@ -330,6 +332,8 @@ class Signal:
         """Set name of signal when declared as a class attribute on `owner`."""
         if self._name is None:
             self._name = name
+        if self._attr_name is None:
+            self._attr_name = name
 
     @overload
     def __get__(self, instance: None, owner: type[Any] | None = None) -> Signal: ...
@@ -372,7 +376,8 @@ class Signal:
             # first, try to assign it to instance.name ... this essentially breaks the
             # descriptor, (i.e. __get__ will never again be called for this instance)
             # (note, this is the same mechanism used in the `cached_property` decorator)
-            setattr(instance, cast("str", self._name), signal_instance)
+            attr_name = self._attr_name or self._name
+            setattr(instance, cast("str", attr_name), signal_instance)
         except AttributeError:
             # if that fails, which may happen in slotted classes, then we fall back to
             # our internal cache
-- 
2.43.0


From 48632e20693c7b0e67207a2255cb33dd21a27f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:03 +0000
Subject: [PATCH 11/70] fix: methods that share a __name__ are different
 callbacks

---
 src/psygnal/_weak_callback.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/psygnal/_weak_callback.py b/src/psygnal/_weak_callback.py
index aa23330..d488058 100644
--- a/src/psygnal/_weak_callback.py
+++ b/src/psygnal/_weak_callback.py
@@ -431,6 +431,8 @@ class WeakMethod(WeakCallback):
         priority: int = 0,
     ) -> None:
         super().__init__(obj, max_args, on_ref_error, priority)
+        # different methods may have the same __name__ (e.g. when decorated)
+        self._key += f".{hex(id(obj.__func__))}"
         self._obj_ref = self._try_ref(obj.__self__, finalize)
         self._func_ref = self._try_ref(obj.__func__, finalize)
         self._args = args
-- 
2.43.0


From 2e577fc89a902c89397700c76493f702b1858b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:14 +0000
Subject: [PATCH 12/70] fix: deleting an out-of-range index from an EventedList
 raises IndexError

---
 src/psygnal/containers/_evented_list.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/psygnal/containers/_evented_list.py b/src/psygnal/containers/_evented_list.py
index e72a647..777ff10 100644
--- a/src/psygnal/containers/_evented_list.py
+++ b/src/psygnal/containers/_evented_list.py
@@ -189,6 +189,8 @@ class EventedList(MutableSequence[_T]):
     def _delitem_indices(self, key: Index) -> Iterable[tuple[EventedList[_T], int]]:
         # returning (self, int) allows subclasses to pass nested members
         if isinstance(key, int):
+            if not -len(self) <= key < len(self):
+                raise IndexError("list assignment index out of range")
             yield (self, key if key >= 0 else key + len(self))
         elif isinstance(key, slice):
             yield from ((self, i) for i in range(*key.indices(len(self))))
-- 
2.43.0


From 7e87f708e20cc55b9de5c0e1b18d11c0919d8379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:14 +0000
Subject: [PATCH 13/70] fix: EventedList returns items that are lists
 themselves, not copies

---
 src/psygnal/containers/_evented_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psygnal/containers/_evented_list.py b/src/psygnal/containers/_evented_list.py
index 777ff10..cf65991 100644
--- a/src/psygnal/containers/_evented_list.py
+++ b/src/psygnal/containers/_evented_list.py
@@ -151,7 +151,7 @@ class EventedList(MutableSequence[_T]):
     def __getitem__(self, key: Index) -> _T | Self:
         """Return self[key]."""
         result = self._data[key]
-        return self.__newlike__(result) if isinstance(result, list) else result
+        return self.__newlike__(result) if isinstance(key, slice) else result
 
     @overload
     def __setitem__(self, key: int, value: _T) -> None: ...
-- 
2.43.0


From 139affaa4a183c585be9358936d997b3d8dd894b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:14 +0000
Subject: [PATCH 14/70] fix: EventedList.move with negative or out-of-range
 indices

---
 src/psygnal/containers/_evented_list.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/containers/_evented_list.py b/src/psygnal/containers/_evented_list.py
index cf65991..115c0ff 100644
--- a/src/psygnal/containers/_evented_list.py
+++ b/src/psygnal/containers/_evented_list.py
@@ -276,8 +276,11 @@ class EventedList(MutableSequence[_T]):
         Both indices refer to the list prior to any object removal
         (pre-move space).
         """
-        if dest_index < 0:
-            dest_index += len(self) + 1
+        if not -len(self) <= src_index < len(self):
+            raise IndexError("list index out of range")
+        if src_index < 0:
+            src_index += len(self)
+        dest_index = self._normalize_dest(dest_index)
         if dest_index in (src_index, src_index + 1):
             # this is a no-op
             return False
@@ -291,6 +294,12 @@ class EventedList(MutableSequence[_T]):
         self.events.reordered.emit()
         return True
 
+    def _normalize_dest(self, dest_index: int) -> int:
+        """Return the (non-negative) position at which list.insert would insert."""
+        if dest_index < 0:
+            dest_index += len(self) + 1
+        return min(max(dest_index, 0), len(self))
+
     def move_multiple(self, sources: Iterable[Index], dest_index: int = 0) -> int:
         """Move a batch of `sources` indices, to a single destination.
 
-- 
2.43.0


From 16a38ba1d2ec71da5e00e96523b9181c07791783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:14 +0000
Subject: [PATCH 15/70] fix: EventedList.move_multiple keeps the moved items
 together and in order

---
 src/psygnal/containers/_evented_list.py | 35 +++++++++++--------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/src/psygnal/containers/_evented_list.py b/src/psygnal/containers/_evented_list.py
index 115c0ff..cb6723e 100644
--- a/src/psygnal/containers/_evented_list.py
+++ b/src/psygnal/containers/_evented_list.py
@@ -376,7 +376,9 @@ class EventedList(MutableSequence[_T]):
             if isinstance(idx, slice):
                 to_move.extend(list(range(*idx.indices(len(self)))))
             elif isinstance(idx, int):
-                to_move.append(idx)
+                if not -len(self) <= idx < len(self):
+                    raise IndexError("list index out of range")
+                to_move.append(idx if idx >= 0 else idx + len(self))
             else:
                 raise TypeError(
                     "Can only move integer or slice indices"
@@ -384,26 +386,19 @@ class EventedList(MutableSequence[_T]):
 
         to_move = list(dict.fromkeys(to_move))
 
-        if dest_index < 0:
-            dest_index += len(self) + 1
-
-        d_inc = 0
-        popped: list[int] = []
-        for i, src in enumerate(to_move):
-            if src != dest_index:
-                # we need to decrement the src_i by 1 for each time we have
-                # previously pulled items out from in front of the src_i
-                src -= sum(x <= src for x in popped)
-                # if source is past the insertion point, increment src for each
-                # previous insertion
-                if src >= dest_index:
-                    src += i
-                yield src, dest_index + d_inc
-
-            popped.append(src)
+        # `order` is the order of the original indices after the moves planned so far
+        # and `dest` the position in front of which the next item is inserted.
+        order = list(range(len(self)))
+        dest = self._normalize_dest(dest_index)
+        for idx in to_move:
+            src = order.index(idx)
+            if dest not in (src, src + 1):
+                yield src, dest
+            item = order.pop(src)
             # if the item moved up, increment the destination index
-            if dest_index <= src:
-                d_inc += 1
+            if dest <= src:
+                dest += 1
+            order.insert(dest - 1, item)
 
     def _connect_child_emitters(self, child: _T) -> None:
         """Connect all events from the child to be reemitted."""
-- 
2.43.0


From 95574221e8f1d7ca86364385210e396bddfe6bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:25 +0000
Subject: [PATCH 16/70] fix: EventedList re-emits child events for exactly the
 items it contains

---
 src/psygnal/containers/_evented_list.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/psygnal/containers/_evented_list.py b/src/psygnal/containers/_evented_list.py
index cb6723e..d0e453e 100644
--- a/src/psygnal/containers/_evented_list.py
+++ b/src/psygnal/containers/_evented_list.py
@@ -171,9 +171,18 @@ class EventedList(MutableSequence[_T]):
                 raise TypeError("Can only assign an iterable to slice")
             value = [self._pre_insert(v) for v in value]  # before we mutate the list
             self._data[key] = value
+            replaced, inserted = cast("list[_T]", old), value
         else:
             value = self._pre_insert(cast("_T", value))
             self._data[key] = value
+            replaced, inserted = [cast("_T", old)], [value]
+
+        if self._child_events:
+            for item in replaced:
+                if not any(x is item for x in self._data):
+                    self._disconnect_child_emitters(item)
+            for item in inserted:
+                self._connect_child_emitters(item)
 
         self.events.changed.emit(key, old, value)
 
@@ -210,7 +219,10 @@ class EventedList(MutableSequence[_T]):
     def _pre_remove(self, index: int) -> None:
         """Modify and or handle values before removal."""
         if self._child_events:
-            self._disconnect_child_emitters(self[index])
+            item = self._data[index]
+            # the same item may be in the list more than once
+            if sum(x is item for x in self._data) == 1:
+                self._disconnect_child_emitters(item)
 
     def __newlike__(self, iterable: Iterable[_T]) -> Self:
         """Return new instance of same class."""
@@ -403,7 +415,7 @@ class EventedList(MutableSequence[_T]):
     def _connect_child_emitters(self, child: _T) -> None:
         """Connect all events from the child to be reemitted."""
         for emitter in iter_signal_instances(child):
-            emitter.connect(self._reemit_child_event)
+            emitter.connect(self._reemit_child_event, unique=True)
 
     def _disconnect_child_emitters(self, child: _T) -> None:
         """Disconnect all events from the child from the reemitter."""
@@ -416,9 +428,9 @@ class EventedList(MutableSequence[_T]):
         if emitter is None:
             return  # pragma: no cover
         obj = emitter.instance
-        try:
-            idx = self.index(obj)
-        except ValueError:  # pragma: no cover
+        # find the item itself, not an equal one
+        idx = next((i for i, x in enumerate(self._data) if x is obj), None)
+        if idx is None:  # pragma: no cover
             return
 
         if (
-- 
2.43.0


From 6bef3cb7d066dc4d21fd243b18746869915ef48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:23 +0000
Subject: [PATCH 17/70] fix: EventedDict.popitem removes the last item, like
 dict

---
 src/psygnal/containers/_evented_dict.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/psygnal/containers/_evented_dict.py b/src/psygnal/containers/_evented_dict.py
index 5f60338..e4abe70 100644
--- a/src/psygnal/containers/_evented_dict.py
+++ b/src/psygnal/containers/_evented_dict.py
@@ -65,6 +65,14 @@ class TypedMutableMapping(MutableMapping[_K, _V]):
     def __iter__(self) -> Iterator[_K]:
         return iter(self._dict)
 
+    def popitem(self) -> tuple[_K, _V]:
+        """Remove and return the last inserted (key, value) pair, as dict does."""
+        try:
+            key = next(reversed(self._dict))
+        except StopIteration:
+            raise KeyError("popitem(): dictionary is empty") from None
+        return key, self.pop(key)
+
     def __repr__(self) -> str:
         return repr(self._dict)
 
-- 
2.43.0


From fe4916b244ed9789d3937f33b2a889e1f7cafa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:27 +0000
Subject: [PATCH 18/70] fix: EventedDict emits nothing when a value is refused

---
 src/psygnal/containers/_evented_dict.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/psygnal/containers/_evented_dict.py b/src/psygnal/containers/_evented_dict.py
index e4abe70..cf180c5 100644
--- a/src/psygnal/containers/_evented_dict.py
+++ b/src/psygnal/containers/_evented_dict.py
@@ -182,6 +182,7 @@ class EventedDict(TypedMutableMapping[_K, _V]):
         super().__init__(data, basetype=basetype, **kwargs)
 
     def __setitem__(self, key: _K, value: _V) -> None:
+        value = self._type_check(value)  # before emitting anything
         if key not in self._dict:
             self.events.adding.emit(key)
             super().__setitem__(key, value)
-- 
2.43.0


From 811d113b0c4faaaeeae0215adec496b991301a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:31 +0000
Subject: [PATCH 19/70] fix: EventedObjectProxy can set items that do not exist
 yet

---
 src/psygnal/containers/_evented_proxy.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/containers/_evented_proxy.py b/src/psygnal/containers/_evented_proxy.py
index fcd5f57..2592c05 100644
--- a/src/psygnal/containers/_evented_proxy.py
+++ b/src/psygnal/containers/_evented_proxy.py
@@ -90,11 +90,17 @@ class EventedObjectProxy(ObjectProxy, Generic[T]):
         self.events.attribute_deleted(name)
 
     def __setitem__(self, key: Any, value: Any) -> None:
-        before = self[key]
+        before = self._get_item(key)
         super().__setitem__(key, value)
-        if before is not (after := self[key]):
+        if before is not (after := self._get_item(key)):
             self.events.item_set(key, after)
 
+    def _get_item(self, key: Any) -> Any:
+        try:
+            return self[key]
+        except Exception:  # there is no item at `key` (yet)
+            return _UNSET
+
     def __delitem__(self, key: Any) -> None:
         super().__delitem__(key)
         self.events.item_deleted(key)
-- 
2.43.0


From 079264fbf321eb4f6c3611276102bb1c8f2e7894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:35 +0000
Subject: [PATCH 20/70] fix: EventedSet methods accept iterators, duplicates,
 no arguments, and the set itself

---
 src/psygnal/containers/_evented_set.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/psygnal/containers/_evented_set.py b/src/psygnal/containers/_evented_set.py
index 2c841c8..377d03b 100644
--- a/src/psygnal/containers/_evented_set.py
+++ b/src/psygnal/containers/_evented_set.py
@@ -126,7 +126,7 @@ class _BaseMutableSet(MutableSet[_T]):
 
     def difference_update(self, *s: Iterable[_T]) -> None:
         """Remove all elements of another set from this set."""
-        for i in chain(*s):
+        for i in tuple(chain(*s)):  # `s` may contain self
             self.discard(i)
 
     def intersection(self, *s: Iterable[_T]) -> Self:
@@ -134,12 +134,12 @@ class _BaseMutableSet(MutableSet[_T]):
 
         (i.e. all elements that are in both sets.)
         """
-        other = set.intersection(*(set(x) for x in s))
+        other = set(self).intersection(*s)
         return self.__class__(i for i in self if i in other)
 
     def intersection_update(self, *s: Iterable[_T]) -> None:
         """Update this set with the intersection of itself and another."""
-        other = set.intersection(*(set(x) for x in s))
+        other = set(self).intersection(*s)
         for i in tuple(self):
             if i not in other:
                 self.discard(i)
@@ -157,7 +157,8 @@ class _BaseMutableSet(MutableSet[_T]):
 
         (i.e. all elements that are in exactly one of the sets.)
         """
-        a = chain((i for i in __s if i not in self), (i for i in self if i not in __s))
+        other = dict.fromkeys(__s)  # `__s` may have duplicates or be an iterator
+        a = chain((i for i in self if i not in other), (i for i in other if i not in self))
         return self.__class__(a)
 
     def symmetric_difference_update(self, __s: Iterable[_T]) -> None:
@@ -166,7 +167,7 @@ class _BaseMutableSet(MutableSet[_T]):
         This will remove any items in this set that are also in `other`, and
         add any items in others that are not present in this set.
         """
-        for i in __s:
+        for i in dict.fromkeys(__s):  # `__s` may have duplicates, or be self
             self.discard(i) if i in self else self.add(i)
 
     def union(self, *s: Iterable[_T]) -> Self:
-- 
2.43.0


From 0e10032bf153e742cc6b3886189c7acf1711dfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:38 +0000
Subject: [PATCH 21/70] fix: EventedSet in-place operators emit a single event

---
 src/psygnal/containers/_evented_set.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/psygnal/containers/_evented_set.py b/src/psygnal/containers/_evented_set.py
index 377d03b..27525c5 100644
--- a/src/psygnal/containers/_evented_set.py
+++ b/src/psygnal/containers/_evented_set.py
@@ -300,6 +300,24 @@ class EventedSet(_BaseMutableSet[_T]):
         with self.events.items_changed.paused(_reduce_events, ((), ())):
             super().symmetric_difference_update(__s)
 
+    # in-place operators: emit a single event, like the corresponding methods
+
+    def __ior__(self, other: Iterable[_T]) -> Self:  # type: ignore [override,misc]
+        self.update(other)
+        return self
+
+    def __iand__(self, other: Iterable[Any]) -> Self:
+        self.intersection_update(other)
+        return self
+
+    def __isub__(self, other: Iterable[Any]) -> Self:
+        self.difference_update(other)
+        return self
+
+    def __ixor__(self, other: Iterable[_T]) -> Self:  # type: ignore [override,misc]
+        self.symmetric_difference_update(other)
+        return self
+
     def _pre_add_hook(self, item: _T) -> _T | BailType:
         return BAIL if item in self else item
 
-- 
2.43.0


From 26c26ae9bc47004a8fdce02acf0260a66f4f1379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:10 +0000
Subject: [PATCH 22/70] fix: EventedObjectProxy does not shadow attributes of
 the wrapped object

---
 src/psygnal/containers/_evented_proxy.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/psygnal/containers/_evented_proxy.py b/src/psygnal/containers/_evented_proxy.py
index 2592c05..9f3b6fa 100644
--- a/src/psygnal/containers/_evented_proxy.py
+++ b/src/psygnal/containers/_evented_proxy.py
@@ -38,6 +38,13 @@ class CallableProxyEvents(ProxyEvents):
 _OBJ_CACHE: dict[int, ProxyEvents] = {}
 
 
+def _get_item(obj: Any, key: Any) -> Any:
+    try:
+        return obj[key]
+    except Exception:  # there is no item at `key` (yet)
+        return _UNSET
+
+
 class EventedObjectProxy(ObjectProxy, Generic[T]):
     """Create a proxy of `target` that includes an `events` [psygnal.SignalGroup][].
 
@@ -90,17 +97,11 @@ class EventedObjectProxy(ObjectProxy, Generic[T]):
         self.events.attribute_deleted(name)
 
     def __setitem__(self, key: Any, value: Any) -> None:
-        before = self._get_item(key)
+        before = _get_item(self, key)
         super().__setitem__(key, value)
-        if before is not (after := self._get_item(key)):
+        if before is not (after := _get_item(self, key)):
             self.events.item_set(key, after)
 
-    def _get_item(self, key: Any) -> Any:
-        try:
-            return self[key]
-        except Exception:  # there is no item at `key` (yet)
-            return _UNSET
-
     def __delitem__(self, key: Any) -> None:
         super().__delitem__(key)
         self.events.item_deleted(key)
-- 
2.43.0


From 86e1e2347a484969ebfcf070891c398bb9b33184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:15 +0000
Subject: [PATCH 23/70] fix: a refused active item leaves the Selection
 unchanged

---
 src/psygnal/containers/_selection.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/containers/_selection.py b/src/psygnal/containers/_selection.py
index 7650a16..75c7360 100644
--- a/src/psygnal/containers/_selection.py
+++ b/src/psygnal/containers/_selection.py
@@ -108,6 +108,8 @@ class Selection(EventedOrderedSet[_T]):
         """
         if value == self._active:
             return
+        if value is not None:
+            self._check_in_parent(value)
         self._active = value
         self.clear() if value is None else self.select_only(value)
         self._current = value
@@ -131,6 +133,7 @@ class Selection(EventedOrderedSet[_T]):
 
     def select_only(self, obj: _T) -> None:
         """Unselect everything but `obj`. Add to selection if not currently selected."""
+        self._check_in_parent(obj)
         self.intersection_update({obj})
         self.add(obj)
 
@@ -155,11 +158,15 @@ class Selection(EventedOrderedSet[_T]):
         self._update_active()
 
     def _pre_add_hook(self, item: _T) -> _T | BailType:
+        self._check_in_parent(item)
+        return super()._pre_add_hook(item)
+
+    def _check_in_parent(self, item: _T) -> None:
+        """Raise ValueError if `item` cannot be selected."""
         if self._parent is not None and item not in self._parent:
             raise ValueError(
                 "Cannot select an item that is not in the parent container."
             )
-        return super()._pre_add_hook(item)
 
     def __hash__(self) -> int:
         """Make selection hashable."""
-- 
2.43.0


From a412bd93dec2d672ce056ead1c3f2976aafb0652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:19 +0000
Subject: [PATCH 24/70] fix: items replaced in a SelectableEventedList leave
 its selection

---
 src/psygnal/containers/_selectable_evented_list.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/containers/_selectable_evented_list.py b/src/psygnal/containers/_selectable_evented_list.py
index bebe8da..ad172c2 100644
--- a/src/psygnal/containers/_selectable_evented_list.py
+++ b/src/psygnal/containers/_selectable_evented_list.py
@@ -47,9 +47,17 @@ class SelectableEventedList(Selectable[_T], EventedList[_T]):
         self._activate_on_insert: bool = True
         super().__init__(data=data, hashable=hashable, child_events=child_events)
         self.events.removed.connect(self._on_item_removed)
+        self.events.changed.connect(self._on_item_changed)
 
     def _on_item_removed(self, idx: int, obj: Any) -> None:
         self.selection.discard(obj)
+        if self.selection._current == obj:
+            self.selection._current = None
+
+    def _on_item_changed(self, idx: Any, old: Any, new: Any) -> None:
+        for item in old if isinstance(idx, slice) else (old,):
+            if item not in self:
+                self._on_item_removed(idx, item)
 
     def insert(self, index: int, value: _T) -> None:
         """Insert item(s) into the list and update the selection."""
@@ -83,7 +91,7 @@ class SelectableEventedList(Selectable[_T], EventedList[_T]):
         """
         if len(self) == 0:
             return
-        elif not self.selection:
+        elif not self.selection or self.selection._current not in self:
             idx = -1 if step > 0 else 0
         else:
             idx = self.index(self.selection._current) + step
-- 
2.43.0


From a5929bf50bbb2d90993f32a99660b2ebd042f98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:35 +0000
Subject: [PATCH 25/70] fix: EventedModel compares and emits the validated
 value

---
 src/psygnal/_evented_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index 31f90f9..c5ee7c8 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -631,8 +631,9 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
             return self._super_setattr_(name, value)
         old_value = getattr(self, name, object())
         self._super_setattr_(name, value)
-        if not _check_field_equality(type(self), name, value, old_value):
-            getattr(self._events, name)(value)
+        new_value = getattr(self, name)  # may differ from `value` after validation
+        if not _check_field_equality(type(self), name, new_value, old_value):
+            getattr(self._events, name)(new_value)
 
     def _setattr_with_dependents(self, name: str, value: Any) -> None:
         """__setattr__ behavior when the class does properties."""
-- 
2.43.0


From f36f8f3b67927c6ac59aa901aab60dc29df1573e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:47 +0000
Subject: [PATCH 26/70] fix: restored signals and callbacks keep their
 priority, description and group

---
 src/psygnal/_group.py         | 16 ++++++++++++++++
 src/psygnal/_signal.py        |  1 +
 src/psygnal/_weak_callback.py | 15 ++++++++++++++-
 3 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_group.py b/src/psygnal/_group.py
index 37a63aa..14cce72 100644
--- a/src/psygnal/_group.py
+++ b/src/psygnal/_group.py
@@ -104,6 +104,22 @@ class SignalRelay(SignalInstance):
             else:
                 self._run_emit_loop((info,))
 
+    def __getstate__(self) -> dict:
+        """Return dict of current state, for pickle."""
+        state = super().__getstate__()
+        state["_signals"] = dict(self._signals)
+        state["_sig_was_blocked"] = self._sig_was_blocked
+        return state
+
+    def __setstate__(self, state: dict) -> None:
+        """Restore state from pickle."""
+        self._signals = MappingProxyType(state.pop("_signals"))
+        super().__setstate__(state)
+        # connections to the relay are not pickled with the signals.
+        # (a signal without `_lock` is still being restored: it was pickled on its own)
+        if self._slots and all(hasattr(s, "_lock") for s in self._signals.values()):
+            self._connect_relay()
+
     def connect_direct(
         self,
         slot: Callable | None = None,
diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 4014537..63ba025 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -1492,6 +1492,7 @@ class SignalInstance:
         attrs = (
             "_signature",
             "_name",
+            "_description",
             "_is_blocked",
             "_is_paused",
             "_args_queue",
diff --git a/src/psygnal/_weak_callback.py b/src/psygnal/_weak_callback.py
index d488058..d22660e 100644
--- a/src/psygnal/_weak_callback.py
+++ b/src/psygnal/_weak_callback.py
@@ -363,12 +363,25 @@ class StrongFunction(WeakCallback):
         return self._f
 
     def __getstate__(self) -> dict[str, Any]:
-        atr = ("_key", "_max_args", "_alive", "_on_ref_error", "_f", "_args", "_kwargs")
+        atr = (
+            "_obj_module",
+            "_obj_qualname",
+            "_object_repr",
+            "_max_args",
+            "_alive",
+            "_on_ref_error",
+            "_f",
+            "_args",
+            "_kwargs",
+            "priority",
+        )
         return {k: getattr(self, k) for k in atr}
 
     def __setstate__(self, state: dict) -> None:
         for k, v in state.items():
             setattr(self, k, v)
+        # the key depends on the id of the function, which may have changed
+        self._key = WeakCallback.object_key(self._f)
 
 
 class WeakFunction(WeakCallback):
-- 
2.43.0


From 9ce83afd68cdf9fea06ba0d5e39e64c0c7367e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:45 +0000
Subject: [PATCH 27/70] fix: nested, copied and pickled containers keep
 announcing the events of their items

---
 src/psygnal/_group.py                              |  3 ++-
 src/psygnal/containers/_evented_dict.py            |  2 +-
 src/psygnal/containers/_evented_list.py            | 12 +++++++++++-
 src/psygnal/containers/_evented_set.py             |  2 +-
 src/psygnal/containers/_selectable_evented_list.py | 12 ++++++++++--
 src/psygnal/containers/_selection.py               |  2 +-
 6 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/psygnal/_group.py b/src/psygnal/_group.py
index 14cce72..841e6ce 100644
--- a/src/psygnal/_group.py
+++ b/src/psygnal/_group.py
@@ -489,7 +489,8 @@ class SignalGroup:
         # This really isn't a deep copy. Should we also copy connections?
         # a working deepcopy is important for pydantic support, but in most cases
         # it will be a group without any signals connected
-        return type(self)(instance=self._psygnal_relay.instance)
+        instance = self._psygnal_relay.instance
+        return type(self)(instance=memo.get(id(instance), instance))
 
     # The rest are passthrough methods to the SignalRelay.
     # The full signatures are here to make mypy and IDEs happy.
diff --git a/src/psygnal/containers/_evented_dict.py b/src/psygnal/containers/_evented_dict.py
index cf180c5..5bce3ac 100644
--- a/src/psygnal/containers/_evented_dict.py
+++ b/src/psygnal/containers/_evented_dict.py
@@ -178,7 +178,7 @@ class EventedDict(TypedMutableMapping[_K, _V]):
         basetype: TypeOrSequenceOfTypes = (),
         **kwargs: _V,
     ):
-        self.events = DictEvents()
+        self.events = DictEvents(self)
         super().__init__(data, basetype=basetype, **kwargs)
 
     def __setitem__(self, key: _K, value: _V) -> None:
diff --git a/src/psygnal/containers/_evented_list.py b/src/psygnal/containers/_evented_list.py
index d0e453e..2f40417 100644
--- a/src/psygnal/containers/_evented_list.py
+++ b/src/psygnal/containers/_evented_list.py
@@ -124,7 +124,7 @@ class EventedList(MutableSequence[_T]):
         self._data: list[_T] = []
         self._hashable = hashable
         self._child_events = child_events
-        self.events = ListEvents()
+        self.events = ListEvents(self)
         self.extend(data)
 
     # WAIT!! ... Read the module docstring before reimplement these methods
@@ -224,6 +224,16 @@ class EventedList(MutableSequence[_T]):
             if sum(x is item for x in self._data) == 1:
                 self._disconnect_child_emitters(item)
 
+    def __setstate__(self, state: Any) -> None:
+        """Restore state from pickle or deepcopy."""
+        # the state of a subclass with __slots__ is a tuple
+        for st in state if isinstance(state, tuple) else (state,):
+            for key, value in (st or {}).items():
+                object.__setattr__(self, key, value)
+        if self._child_events:
+            for item in self._data:
+                self._connect_child_emitters(item)
+
     def __newlike__(self, iterable: Iterable[_T]) -> Self:
         """Return new instance of same class."""
         return self.__class__(iterable)
diff --git a/src/psygnal/containers/_evented_set.py b/src/psygnal/containers/_evented_set.py
index 27525c5..9103b9a 100644
--- a/src/psygnal/containers/_evented_set.py
+++ b/src/psygnal/containers/_evented_set.py
@@ -341,7 +341,7 @@ class EventedSet(_BaseMutableSet[_T]):
         self.events.items_changed.emit(added, removed)
 
     def _get_events_class(self) -> SetEvents:
-        return SetEvents()
+        return SetEvents(self)
 
 
 class EventedOrderedSet(EventedSet, OrderedSet[_T]):
diff --git a/src/psygnal/containers/_selectable_evented_list.py b/src/psygnal/containers/_selectable_evented_list.py
index ad172c2..ab581ce 100644
--- a/src/psygnal/containers/_selectable_evented_list.py
+++ b/src/psygnal/containers/_selectable_evented_list.py
@@ -46,8 +46,16 @@ class SelectableEventedList(Selectable[_T], EventedList[_T]):
     ):
         self._activate_on_insert: bool = True
         super().__init__(data=data, hashable=hashable, child_events=child_events)
-        self.events.removed.connect(self._on_item_removed)
-        self.events.changed.connect(self._on_item_changed)
+        self._connect_selection()
+
+    def _connect_selection(self) -> None:
+        self.events.removed.connect(self._on_item_removed, unique=True)
+        self.events.changed.connect(self._on_item_changed, unique=True)
+
+    def __setstate__(self, state: Any) -> None:
+        """Restore state from pickle or deepcopy."""
+        super().__setstate__(state)
+        self._connect_selection()
 
     def _on_item_removed(self, idx: int, obj: Any) -> None:
         self.selection.discard(obj)
diff --git a/src/psygnal/containers/_selection.py b/src/psygnal/containers/_selection.py
index 75c7360..fb884f8 100644
--- a/src/psygnal/containers/_selection.py
+++ b/src/psygnal/containers/_selection.py
@@ -150,7 +150,7 @@ class Selection(EventedOrderedSet[_T]):
 
     def _get_events_class(self) -> SelectionEvents:
         """Override SetEvents with SelectionEvents."""
-        return SelectionEvents()
+        return SelectionEvents(self)
 
     def _emit_change(self, added: tuple[_T, ...], removed: tuple[_T, ...]) -> None:
         """Emit a change event."""
-- 
2.43.0


From 51fff57b300d829df25299c1c4d608d2d5609302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:47 +0000
Subject: [PATCH 28/70] fix: copies of an EventedModel have their own signals

---
 src/psygnal/_evented_model.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index c5ee7c8..537301b 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -485,6 +485,26 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
         # will add _events: SignalGroup to the __init__ signature, for *all* user models
         _model_self_._events = Group(_model_self_)  # type: ignore [misc]
 
+    if not PYDANTIC_V1:
+
+        def __copy__(self) -> "EventedModel":
+            """Return a shallow copy of the model, with its own signals."""
+            new = super().__copy__()
+            new._reset_private()
+            return new
+
+        def __deepcopy__(self, memo: "dict[int, Any] | None" = None) -> "EventedModel":
+            """Return a deep copy of the model, with its own signals."""
+            new = super().__deepcopy__(memo=memo)
+            new._reset_private()
+            return new
+
+        def _reset_private(self) -> None:
+            self._events = self.__signal_group__(self)  # type: ignore [misc]
+            self._changes_queue = {}
+            self._primary_changes = set()
+            self._delay_check_semaphore = 0
+
     # expose the private SignalGroup publicly
     @property
     def events(self) -> SignalGroup:
-- 
2.43.0


From 188dd9631f4fc93e89b4f652f12740aa5f2f634b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:47 +0000
Subject: [PATCH 29/70] fix: emit_queued never waits for a call that another
 thread took

---
 src/psygnal/_queue.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/psygnal/_queue.py b/src/psygnal/_queue.py
index 4093a8c..ebaa820 100644
--- a/src/psygnal/_queue.py
+++ b/src/psygnal/_queue.py
@@ -1,7 +1,7 @@
 from __future__ import annotations
 
 from collections import defaultdict
-from queue import Queue
+from queue import Empty, Queue
 from threading import Thread, current_thread, main_thread
 from typing import Any, Callable, ClassVar, Literal
 
@@ -86,8 +86,12 @@ def emit_queued(thread: Thread | None = None) -> None:
     _thread = current_thread() if thread is None else thread
     queue = QueuedCallback._GLOBAL_QUEUE[_thread]
 
-    while not queue.empty():
-        cb, args = queue.get()
+    while True:
+        try:
+            # don't wait: another thread may be emitting from the same queue
+            cb, args = queue.get_nowait()
+        except Empty:
+            break
         try:
             cb(args)
         except Exception as e:  # pragma: no cover
-- 
2.43.0


From 316dbc9f2e9afe3f8263d3fac62c2621ff5525b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:30 +0000
Subject: [PATCH 30/70] fix: throttled and debounced functions never lose a
 call around a timeout

---
 src/psygnal/_throttler.py | 79 +++++++++++++++++++++++++--------------
 1 file changed, 50 insertions(+), 29 deletions(-)

diff --git a/src/psygnal/_throttler.py b/src/psygnal/_throttler.py
index 470b9b7..403fc5d 100644
--- a/src/psygnal/_throttler.py
+++ b/src/psygnal/_throttler.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from threading import Timer
+from threading import RLock, Timer
 from typing import TYPE_CHECKING, Any, Callable, Generic, Literal, TypeVar
 
 if TYPE_CHECKING:
@@ -31,8 +31,12 @@ class _ThrottlerBase(Generic[P]):
         self._interval: float = interval / 1000
         self._policy: EmissionPolicy = policy
         self._has_pending: bool = False
+        # not started: there is nothing to wait for before the first call
         self._timer: Timer = Timer(0, lambda: None)
-        self._timer.start()
+        # token of the current waiting period (None if not waiting). `Timer.is_alive()`
+        # won't do: it's still True for a while after a timer fired or was cancelled.
+        self._waiting: object | None = None
+        self._lock = RLock()
         self._args: tuple[Any, ...] = ()
         self._kwargs: dict[str, Any] = {}
 
@@ -45,24 +49,38 @@ class _ThrottlerBase(Generic[P]):
         self.__doc__: str | None = getattr(func, "__doc__", None)
         self.__annotations__: dict[str, Any] = getattr(func, "__annotations__", {})
 
-    def _actually_call(self) -> None:
-        self._has_pending = False
-        self.__wrapped__(*self._args, **self._kwargs)
-        self._start_timer()
-
     def _call_if_has_pending(self) -> None:
-        if self._has_pending:
-            self._actually_call()
+        with self._lock:
+            if not self._has_pending:
+                return
+            self._has_pending = False
+            args, kwargs = self._args, self._kwargs
+        try:
+            self.__wrapped__(*args, **kwargs)
+        finally:
+            self._start_timer()
+
+    def _on_timeout(self, token: object) -> None:
+        with self._lock:
+            if self._waiting is not token:
+                return  # this timer was cancelled or replaced
+            if not self._has_pending:
+                self._waiting = None
+        self._call_if_has_pending()
 
     def _start_timer(self) -> None:
-        self._timer.cancel()
-        self._timer = Timer(self._interval, self._call_if_has_pending)
-        self._timer.start()
+        with self._lock:
+            self._timer.cancel()
+            self._waiting = token = object()
+            self._timer = Timer(self._interval, self._on_timeout, (token,))
+            self._timer.start()
 
     def cancel(self) -> None:
         """Cancel any pending calls."""
-        self._has_pending = False
-        self._timer.cancel()
+        with self._lock:
+            self._has_pending = False
+            self._waiting = None
+            self._timer.cancel()
 
     def flush(self) -> None:
         """Force a call if there is one pending."""
@@ -105,15 +123,16 @@ class Throttler(_ThrottlerBase, Generic[P]):
 
     def __call__(self, *args: P.args, **kwargs: P.kwargs) -> None:
         """Call underlying function."""
-        self._has_pending = True
-        self._args = args
-        self._kwargs = kwargs
+        with self._lock:
+            self._has_pending = True
+            self._args = args
+            self._kwargs = kwargs
+            if self._waiting is not None:
+                return
+            self._start_timer()
 
-        if not self._timer.is_alive():
-            if self._policy == "leading":
-                self._actually_call()
-            else:
-                self._start_timer()
+        if self._policy == "leading":
+            self._call_if_has_pending()
 
 
 class Debouncer(_ThrottlerBase, Generic[P]):
@@ -143,13 +162,15 @@ class Debouncer(_ThrottlerBase, Generic[P]):
 
     def __call__(self, *args: P.args, **kwargs: P.kwargs) -> None:
         """Call underlying function."""
-        self._has_pending = True
-        self._args = args
-        self._kwargs = kwargs
-
-        if not self._timer.is_alive() and self._policy == "leading":
-            self._actually_call()
-        self._start_timer()
+        with self._lock:
+            self._has_pending = True
+            self._args = args
+            self._kwargs = kwargs
+            was_waiting = self._waiting is not None
+            self._start_timer()
+
+        if not was_waiting and self._policy == "leading":
+            self._call_if_has_pending()
 
 
 def throttled(
-- 
2.43.0


From cda73e1c45cf6fee48fc5ac57d6cb23c0be2c26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:34 +0000
Subject: [PATCH 31/70] fix: two threads never create two queues for one thread

---
 src/psygnal/_queue.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_queue.py b/src/psygnal/_queue.py
index ebaa820..d9f275e 100644
--- a/src/psygnal/_queue.py
+++ b/src/psygnal/_queue.py
@@ -54,6 +54,8 @@ class QueuedCallback(WeakCallback):
         # NOTE: for some strange reason, mypyc crashes if we use `self._thread` here
         # so we use `self._cbthread` instead
         self._cbthread = thread
+        # (unlike `defaultdict.__missing__`, this never replaces an existing queue)
+        QueuedCallback._GLOBAL_QUEUE.setdefault(thread, Queue())
         self.priority: int = wrapped.priority
 
     def cb(self, args: tuple = ()) -> None:
@@ -84,7 +86,7 @@ def emit_queued(thread: Thread | None = None) -> None:
         raises an exception.
     """
     _thread = current_thread() if thread is None else thread
-    queue = QueuedCallback._GLOBAL_QUEUE[_thread]
+    queue = QueuedCallback._GLOBAL_QUEUE.setdefault(_thread, Queue())
 
     while True:
         try:
-- 
2.43.0


From 9c5b715dd8bd8a5a41588158ebb3edb15de22592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:02 +0000
Subject: [PATCH 32/70] fix: queued calls of deleted objects are dropped
 instead of raising

---
 src/psygnal/_queue.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_queue.py b/src/psygnal/_queue.py
index d9f275e..78eef87 100644
--- a/src/psygnal/_queue.py
+++ b/src/psygnal/_queue.py
@@ -62,7 +62,12 @@ class QueuedCallback(WeakCallback):
         if current_thread() is self._cbthread:
             self._wrapped.cb(args)
         else:
-            QueuedCallback._GLOBAL_QUEUE[self._cbthread].put((self._wrapped.cb, args))
+            QueuedCallback._GLOBAL_QUEUE[self._cbthread].put((self._run, args))
+
+    def _run(self, args: tuple = ()) -> None:
+        # the object may have been deleted while the call was waiting in the queue
+        if self._wrapped.dereference() is not None:
+            self._wrapped.cb(args)
 
     def dereference(self) -> Callable | None:
         return self._wrapped.dereference()
-- 
2.43.0


From 3b0eb7955e9f72ca0f0a84536be85e36ea324618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:44 +0000
Subject: [PATCH 33/70] fix: on_ref_error is respected for slots whose
 signature is checked

---
 src/psygnal/_signal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 63ba025..71ce602 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -1095,7 +1095,9 @@ class SignalInstance:
             )
             self._raise_connection_error(slot, extra)
 
-        return None if isinstance(slot_sig, str) else slot_sig, maxargs, True
+        if isinstance(slot_sig, str):
+            return None, maxargs, True
+        return slot_sig, maxargs, False
 
     def _raise_connection_error(self, slot: Callable, extra: str = "") -> NoReturn:
         name = getattr(slot, "__name__", str(slot))
-- 
2.43.0


From b021a26755ef22ed34630798d9641359faf146b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:59 +0000
Subject: [PATCH 34/70] fix: subclasses of groups with reserved signal names
 can be created

---
 src/psygnal/_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psygnal/_group.py b/src/psygnal/_group.py
index 841e6ce..13270c2 100644
--- a/src/psygnal/_group.py
+++ b/src/psygnal/_group.py
@@ -379,7 +379,7 @@ class SignalGroup:
         }
         if conflicts:
             for name in conflicts:
-                if isinstance(getattr(cls, name), Signal):
+                if isinstance(getattr(cls, name, None), Signal):
                     delattr(cls, name)
             Names = "Names" if len(conflicts) > 1 else "Name"
             Are = "are" if len(conflicts) > 1 else "is"
-- 
2.43.0


From dc80414293f0fc0ca39d899c5d8cbb73ed5be669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:04 +0000
Subject: [PATCH 35/70] fix: EventedList announces the item that was inserted

Subclasses may convert a value in _pre_insert: the inserted event (and the child events) were those of the unconverted value.
---
 src/psygnal/containers/_evented_list.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/containers/_evented_list.py b/src/psygnal/containers/_evented_list.py
index 2f40417..a431808 100644
--- a/src/psygnal/containers/_evented_list.py
+++ b/src/psygnal/containers/_evented_list.py
@@ -139,8 +139,8 @@ class EventedList(MutableSequence[_T]):
         _value = self._pre_insert(value)
         self.events.inserting.emit(index)
         self._data.insert(index, _value)
-        self.events.inserted.emit(index, value)
-        self._post_insert(value)
+        self.events.inserted.emit(index, _value)
+        self._post_insert(_value)
 
     @overload
     def __getitem__(self, key: int) -> _T: ...
-- 
2.43.0


From 8ed83f7a0d35a1964350230d663490115115d134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:51 +0000
Subject: [PATCH 36/70] fix: any iterable can be assigned as the selection of a
 list

---
 src/psygnal/containers/_selection.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/psygnal/containers/_selection.py b/src/psygnal/containers/_selection.py
index fb884f8..0ecbbe9 100644
--- a/src/psygnal/containers/_selection.py
+++ b/src/psygnal/containers/_selection.py
@@ -188,5 +188,6 @@ class Selectable(Container[_S]):
     @selection.setter
     def selection(self, new_selection: Iterable[_S]) -> None:  # pragma: no cover
         """Set selection, without deleting selection model object."""
+        new_selection = tuple(new_selection)  # may be an iterator
         self._selection.intersection_update(new_selection)
         self._selection.update(new_selection)
-- 
2.43.0


From 6b1ca64d038edd4370021acd31199df555f7f3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:08 +0000
Subject: [PATCH 37/70] fix: replacing several selected items of a list at once
 never activates one that is gone

---
 src/psygnal/containers/_selectable_evented_list.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/psygnal/containers/_selectable_evented_list.py b/src/psygnal/containers/_selectable_evented_list.py
index ab581ce..b2bb3d6 100644
--- a/src/psygnal/containers/_selectable_evented_list.py
+++ b/src/psygnal/containers/_selectable_evented_list.py
@@ -63,9 +63,15 @@ class SelectableEventedList(Selectable[_T], EventedList[_T]):
             self.selection._current = None
 
     def _on_item_changed(self, idx: Any, old: Any, new: Any) -> None:
-        for item in old if isinstance(idx, slice) else (old,):
-            if item not in self:
-                self._on_item_removed(idx, item)
+        items = old if isinstance(idx, slice) else (old,)
+        gone = [item for item in items if item not in self]
+        if all(item in gone for item in self.selection):
+            # (one by one, the last one would become active)
+            self.selection.clear(keep_current=True)
+        else:
+            self.selection.difference_update(gone)
+        if self.selection._current in gone:
+            self.selection._current = None
 
     def insert(self, index: int, value: _T) -> None:
         """Insert item(s) into the list and update the selection."""
-- 
2.43.0


From 7b81077fd0c0e93778fa8fbbad6e95c46af851a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:16 +0000
Subject: [PATCH 38/70] fix: EventedObjectProxy announces @= once, as the
 operator

---
 src/psygnal/containers/_evented_proxy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/containers/_evented_proxy.py b/src/psygnal/containers/_evented_proxy.py
index 9f3b6fa..7107ca8 100644
--- a/src/psygnal/containers/_evented_proxy.py
+++ b/src/psygnal/containers/_evented_proxy.py
@@ -126,7 +126,9 @@ class EventedObjectProxy(ObjectProxy, Generic[T]):
 
     def __imatmul__(self, other: Any) -> T:
         self.events.in_place("matmul", other)
-        self.__wrapped__ @= other  # not in wrapt  # type: ignore
+        result = self.__wrapped__
+        result @= other  # not in wrapt
+        super().__setattr__("__wrapped__", result)  # (not an attribute of the object)
         return self
 
     def __itruediv__(self, other: Any) -> T:
-- 
2.43.0


From f31deabd724743474c52d78ef496f1275089e4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:27 +0000
Subject: [PATCH 39/70] fix: callbacks of objects that die in another thread
 neither raise nor disturb others

---
 src/psygnal/_queue.py  |  5 ++++-
 src/psygnal/_signal.py | 48 +++++++++++++++++++++++++++++-------------
 2 files changed, 37 insertions(+), 16 deletions(-)

diff --git a/src/psygnal/_queue.py b/src/psygnal/_queue.py
index 78eef87..8d5e395 100644
--- a/src/psygnal/_queue.py
+++ b/src/psygnal/_queue.py
@@ -66,8 +66,11 @@ class QueuedCallback(WeakCallback):
 
     def _run(self, args: tuple = ()) -> None:
         # the object may have been deleted while the call was waiting in the queue
-        if self._wrapped.dereference() is not None:
+        try:
             self._wrapped.cb(args)
+        except ReferenceError:
+            if self._wrapped.dereference() is not None:
+                raise
 
     def dereference(self) -> Callable | None:
         return self._wrapped.dereference()
diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 71ce602..4fa0722 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -821,11 +821,18 @@ class SignalInstance:
         missing_ok : bool, optional
             If `True`, do not raise an error if the callback is not found in the list.
         """
-        try:
-            self._remove_slot(callback)
-        except ValueError:
-            if not missing_ok:
-                raise
+        # other slots may die, and be removed, at any time (in any thread): so neither
+        # remove by index nor by equality, and try again if the slot was overlooked
+        while True:
+            found = next((s for s in tuple(self._slots) if s == callback), None)
+            if found is None:
+                if missing_ok:
+                    return
+                raise ValueError("callback is not connected")
+            try:
+                return self._remove_slot(found)
+            except ValueError:
+                continue
 
     def connect_setattr(
         self,
@@ -1137,11 +1144,11 @@ class SignalInstance:
                 self._remove_slot("all")
                 return
 
-            idx = self._slot_index(slot)
-            if idx != -1:
-                self._remove_slot(idx)
-            elif not missing_ok:
-                raise ValueError(f"slot is not connected: {slot}")
+            normed = weak_callback(slot, on_ref_error="ignore")
+            try:
+                self._try_discard(normed, missing_ok)
+            except ValueError:
+                raise ValueError(f"slot is not connected: {slot}") from None
 
     def __contains__(self, slot: Callable) -> bool:
         """Return `True` if slot is connected."""
@@ -1250,7 +1257,7 @@ class SignalInstance:
         self._recursion_depth += 1
         try:
             for caller in self._iter_slots():
-                caller.cb(args)
+                self._call_slot(caller, args)
         except RecursionError as e:
             raise RecursionError(
                 f"RecursionError when emitting signal {self.name!r} with args {args}"
@@ -1323,13 +1330,24 @@ class SignalInstance:
         """
         slots = self._slots
         for i, slot in enumerate(tuple(slots)):
-            if (i < len(slots) and slots[i] is slot) or any(s is slot for s in slots):
+            # (slots may die, and be removed, at any time)
+            current = next(iter(slots[i : i + 1]), None)
+            if current is slot or any(s is slot for s in slots):
                 yield slot
 
+    @staticmethod
+    def _call_slot(slot: WeakCallback, args: tuple[Any, ...]) -> None:
+        """Call `slot`, unless its object has died since it was selected."""
+        try:
+            slot.cb(args)
+        except ReferenceError:
+            if slot.dereference() is not None:
+                raise
+
     def _run_emit_loop_immediate(self) -> None:
         args = self._emit_queue.popleft()
         for caller in self._iter_slots():
-            caller.cb(args)
+            self._call_slot(caller, args)
 
     def _run_emit_loop_latest_only(self) -> None:
         self._args = args = self._emit_queue.popleft()
@@ -1341,14 +1359,14 @@ class SignalInstance:
                 # we should drop the remaining slots in this round and return
                 break
             self._caller = caller
-            caller.cb(args)
+            self._call_slot(caller, args)
 
     def _run_emit_loop_queued(self) -> None:
         i = 0
         while i < len(self._emit_queue):
             args = self._emit_queue[i]
             for caller in self._iter_slots():
-                caller.cb(args)
+                self._call_slot(caller, args)
                 if len(self._emit_queue) > RECURSION_LIMIT:
                     raise RecursionError
             i += 1
-- 
2.43.0


From 2a77cc17415d930399d0caed4d6c5aa81d38056f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:06 +0000
Subject: [PATCH 40/70] fix: subclasses of an EventedModel have signals for
 inherited property setters

---
 src/psygnal/_evented_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index 537301b..b0776cd 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -279,8 +279,9 @@ class EventedMetaclass(pydantic_main.ModelMetaclass):
                     attr = attr.wrapped
                 if isinstance(attr, property) and attr.fset is not None:
                     cls.__property_setters__[key] = attr
-                    recursion = emission_map.get(key, default_strategy)
-                    signals[key] = Signal(object, reemission=recursion)
+            for key in cls.__property_setters__:
+                recursion = emission_map.get(key, default_strategy)
+                signals[key] = Signal(object, reemission=recursion)
         else:
             for b in cls.__bases__:
                 with suppress(AttributeError):
-- 
2.43.0


From c0969163c72f420f3de5f79e0368d8723c8e5638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:06 +0000
Subject: [PATCH 41/70] fix: EventedModel fields named like an attribute of
 SignalGroup emit events

---
 src/psygnal/_evented_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index b0776cd..1a504da 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -610,7 +610,8 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
         with ComparisonDelayer(self):
             # Again delay comparison to avoid having events caused by callback functions
             for name, new_value in to_emit:
-                getattr(self._events, name)(new_value)
+                # (not by attribute: the name may be one of SignalGroup's own)
+                self._events[name].emit(new_value)
 
     def __setattr__(self, name: str, value: Any) -> None:
         if (
@@ -654,7 +655,7 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
         self._super_setattr_(name, value)
         new_value = getattr(self, name)  # may differ from `value` after validation
         if not _check_field_equality(type(self), name, new_value, old_value):
-            getattr(self._events, name)(new_value)
+            signal_instance.emit(new_value)
 
     def _setattr_with_dependents(self, name: str, value: Any) -> None:
         """__setattr__ behavior when the class does properties."""
-- 
2.43.0


From 761a137e91ad97d701569a80faf8b93915536734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:06 +0000
Subject: [PATCH 42/70] fix: EventedModel.update can replace a sub-model by
 something else

---
 src/psygnal/_evented_model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index 1a504da..f8394d4 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -560,7 +560,11 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
         with self.events._psygnal_relay.paused():  # TODO: reduce?
             for key, value in values.items():
                 field = getattr(self, key)
-                if isinstance(field, EventedModel) and recurse:
+                if (
+                    isinstance(field, EventedModel)
+                    and recurse
+                    and isinstance(value, (pydantic.BaseModel, dict))
+                ):
                     field.update(value, recurse=recurse)
                 else:
                     setattr(self, key, value)
-- 
2.43.0


From 1939591cee660434fef4a9224abca7e9e64425ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:57 +0000
Subject: [PATCH 43/70] fix: EventedModel.reset restores the default of every
 field that has one

---
 src/psygnal/_evented_model.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index f8394d4..490a0ce 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -112,7 +112,12 @@ if not PYDANTIC_V1:
         """Get possibly nested default values for a Model object."""
         dflt = {}
         for k, v in obj.model_fields.items():
-            d = v.get_default()
+            if v.is_required():
+                continue
+            kwargs = {}
+            if getattr(v, "default_factory_takes_validated_data", False):
+                kwargs["validated_data"] = dflt
+            d = v.get_default(call_default_factory=True, **kwargs)
             if (
                 d is None
                 and isinstance(v.annotation, type)
@@ -571,11 +576,16 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
 
     def reset(self) -> None:
         """Reset the state of the model to default values."""
+        self._reset(self._defaults)
+
+    def _reset(self, defaults: dict[str, Any]) -> None:
         model_config = _get_config(self)
         model_fields = _get_fields(self)
-        for name, value in self._defaults.items():
-            if isinstance(value, EventedModel):
-                cast("EventedModel", getattr(self, name)).reset()
+        for name, value in defaults.items():
+            current = getattr(self, name)
+            if isinstance(value, EventedModel) and type(current) is type(value):
+                # reset the sub-model in place, to the default of *this* field
+                current._reset({k: getattr(value, k) for k in _get_fields(value)})
             elif not model_config.get("frozen") and not model_fields[name].frozen:
                 setattr(self, name, value)
 
-- 
2.43.0


From 89a5a5fa95031cc2dbd582a8129c4d46634b6408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:57 +0000
Subject: [PATCH 44/70] fix: models made by EventedModel.model_construct have
 signals

---
 src/psygnal/_evented_model.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index 490a0ce..9581f24 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -505,6 +505,15 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
             new._reset_private()
             return new
 
+        @classmethod
+        def model_construct(
+            cls, _fields_set: "set[str] | None" = None, **values: Any
+        ) -> "EventedModel":
+            """Create a model without validation."""
+            new = super().model_construct(_fields_set, **values)
+            new._events = cls.__signal_group__(new)  # type: ignore [misc]
+            return new
+
         def _reset_private(self) -> None:
             self._events = self.__signal_group__(self)  # type: ignore [misc]
             self._changes_queue = {}
-- 
2.43.0


From 48835cfd0b402e7da1874a0a581d6bf6389338c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:13 +0000
Subject: [PATCH 45/70] fix: a comparison that fails once does not replace the
 comparison of the field for good

---
 src/psygnal/_group_descriptor.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index ed0b6bf..ae75986 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -56,9 +56,7 @@ def _get_eq_operator_map(cls: type) -> dict[str, EqOperator]:
         return _EQ_OPERATORS.setdefault(cls, {})
 
 
-def _check_field_equality(
-    cls: type, name: str, before: Any, after: Any, _fail: bool = False
-) -> bool:
+def _check_field_equality(cls: type, name: str, before: Any, after: Any) -> bool:
     """Test if two values are equal for a given field.
 
     This function will look for a field-specific operator in the the `__eq_operators__`
@@ -75,9 +73,6 @@ def _check_field_equality(
         The value of the field before the change.
     after : Any
         The value of the field after the change.
-    _fail : bool, optional
-        If True, raise a ValueError if the field is not found in the class.
-        by default False
 
     Returns
     -------
@@ -96,10 +91,7 @@ def _check_field_equality(
         # may fail depending on the __eq__ method for the type
         return bool(are_equal(after, before))
     except Exception:
-        if _fail:
-            raise  # pragma: no cover
-
-        # if we fail, we try to pick a new equality operator
+        # if we fail, we compare *these* values with another operator
         # if it's a numpy array, we use np.array_equal
         # finally, fallback to operator.is_
         np = sys.modules.get("numpy", None)
@@ -108,14 +100,14 @@ def _check_field_equality(
             and np is not None
             and are_equal is not np.array_equal
         ):
-            eq_map[name] = np.array_equal
-            return _check_field_equality(cls, name, before, after, _fail=False)
+            with contextlib.suppress(Exception):
+                return bool(np.array_equal(after, before))
+            return after is before  # pragma: no cover
         else:  # pragma: no cover
             # at some point, dask array started hitting in the above condition
             # so we add explicit casing in _pick_equality_operator
             # but we keep this fallback just in case
-            eq_map[name] = operator.is_
-            return _check_field_equality(cls, name, before, after, _fail=True)
+            return after is before
 
 
 def _pick_equality_operator(type_: type | None) -> EqOperator:
-- 
2.43.0


From c46b329334280f7e87b498b823d15dc73c694263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:00 +0000
Subject: [PATCH 46/70] fix: assignments that fail do not emit

---
 src/psygnal/_group_descriptor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index ae75986..d225c41 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -304,6 +304,8 @@ class _changes_emitted:
         self._prev = getattr(self.obj, self.field, _NULL)
 
     def __exit__(self, *args: Any) -> None:
+        if args and args[0] is not None:
+            return  # the assignment failed
         new: Any = getattr(self.obj, self.field, _NULL)
         if not _check_field_equality(type(self.obj), self.field, self._prev, new):
             self.signal.emit(new, self._prev)
-- 
2.43.0


From b73092d59c9125fc40c23d9e526d7c91075a6e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:56 +0000
Subject: [PATCH 47/70] fix: an assignment that passes through several patched
 __setattr__ emits once

---
 src/psygnal/_group_descriptor.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index d225c41..8a24158 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -4,6 +4,7 @@ import contextlib
 import copy
 import operator
 import sys
+import threading
 import warnings
 import weakref
 from typing import (
@@ -294,16 +295,36 @@ def get_signal_from_field(group: SignalGroup, name: str) -> SignalInstance | Non
     return group[sig_name]
 
 
+# assignments under way: (thread, id of the signal) -> innermost one
+_ASSIGNING: dict[tuple[int, int], _changes_emitted] = {}
+
+
 class _changes_emitted:
     def __init__(self, obj: object, field: str, signal: SignalInstance) -> None:
         self.obj = obj
         self.field = field
         self.signal = signal
+        self._delegated = False
 
     def __enter__(self) -> None:
         self._prev = getattr(self.obj, self.field, _NULL)
+        self._key = (threading.get_ident(), id(self.signal))
+        self._outer = _ASSIGNING.get(self._key)
+        if self._outer is not None and self._outer.field != self.field:
+            # e.g. the setter of a property that assigns the field it stands for:
+            # it's up to the latter to emit.
+            self._outer._delegated = True
+        _ASSIGNING[self._key] = self
 
     def __exit__(self, *args: Any) -> None:
+        if self._outer is None:
+            del _ASSIGNING[self._key]
+        else:
+            _ASSIGNING[self._key] = self._outer
+            if self._outer.field == self.field:
+                return  # e.g. a `__setattr__` that calls the (patched) one of its base
+        if self._delegated:
+            return
         if args and args[0] is not None:
             return  # the assignment failed
         new: Any = getattr(self.obj, self.field, _NULL)
-- 
2.43.0


From c36844b46bc519999910d99363e44fa753a1ac78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:11 +0000
Subject: [PATCH 48/70] fix: subclasses with other aliases or another namespace
 than a patched base emit their events

---
 src/psygnal/_group_descriptor.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index 8a24158..3451c9f 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -335,6 +335,12 @@ class _changes_emitted:
 SetAttr = Callable[[Any, str, Any], None]
 
 
+def _is_patched(setattr_: SetAttr, group_name: str, with_aliases: bool) -> bool:
+    """Return True if `setattr_` already emits the events of the group."""
+    patched: dict[str, bool] = getattr(setattr_, PATCHED_BY_PSYGNAL, {})
+    return group_name in patched and patched[group_name] >= with_aliases
+
+
 @overload
 def evented_setattr(
     signal_group_name: str, super_setattr: SetAttr, with_aliases: bool = ...
@@ -390,7 +396,7 @@ def evented_setattr(
 
     def _inner(super_setattr: SetAttr) -> SetAttr:
         # don't patch twice
-        if getattr(super_setattr, PATCHED_BY_PSYGNAL, False):
+        if _is_patched(super_setattr, signal_group_name, with_aliases):
             return super_setattr
 
         # pick a slightly faster signal lookup if we don't need aliases
@@ -415,7 +421,12 @@ def evented_setattr(
             with _changes_emitted(self, name, signal):
                 super_setattr(self, name, value)
 
-        setattr(_setattr_and_emit_, PATCHED_BY_PSYGNAL, True)
+        patched = getattr(super_setattr, PATCHED_BY_PSYGNAL, {})
+        setattr(
+            _setattr_and_emit_,
+            PATCHED_BY_PSYGNAL,
+            {**patched, signal_group_name: with_aliases},
+        )
         return _setattr_and_emit_
 
     return _inner(super_setattr) if super_setattr else _inner
@@ -577,10 +588,10 @@ class SignalGroupDescriptor:
         """Patch the owner class's __setattr__ method to emit events."""
         if not self._patch_setattr:
             return
-        if getattr(owner.__setattr__, PATCHED_BY_PSYGNAL, False):
+        name = self._name
+        if name and _is_patched(owner.__setattr__, name, with_aliases):
             return
 
-        name = self._name
         if not (name and hasattr(owner, name)):  # pragma: no cover
             # this should never happen... but if it does, we'll get errors
             # every time we set an attribute on the class.  So raise now.
-- 
2.43.0


From c24dd6ed239f1825545ade6aa4637f77eb07e890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:28 +0000
Subject: [PATCH 49/70] fix: aliases of a SignalGroupDescriptor do not leak
 into the signal_group_class

---
 src/psygnal/_group_descriptor.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index 3451c9f..a1399bd 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -1,7 +1,6 @@
 from __future__ import annotations
 
 import contextlib
-import copy
 import operator
 import sys
 import threading
@@ -501,7 +500,8 @@ class SignalGroupDescriptor:
     collect_fields : bool, optional
         Create a signal for each field in the dataclass. If True, the `SignalGroup`
         instance will be a subclass of `signal_group_class` (SignalGroup if it is None).
-        If False, a deepcopy of `signal_group_class` will be used.
+        If False, `signal_group_class` will be used as it is (or a
+        subclass of it, if there are `signal_aliases`).
         Default to True
     signal_aliases: Mapping[str, str | None] | Callable[[str], str | None] | None
         If defined, a mapping between field name and signal name. Field names that are
@@ -654,11 +654,13 @@ class SignalGroupDescriptor:
     def _create_group(self, owner: type) -> type[SignalGroup]:
         if not self._collect_fields:
             # Do not collect fields from owner class
-            Group = copy.deepcopy(self._signal_group_class)
+            Group = self._signal_group_class
 
-            # Add aliases
-            if isinstance(self._signal_aliases, dict):
-                Group._psygnal_aliases.update(self._signal_aliases)
+            # Add aliases (in a subclass: the class may be used elsewhere)
+            if self._signal_aliases:
+                Group = type(
+                    Group.__name__, (Group,), {}, signal_aliases=self._signal_aliases
+                )
 
         else:
             # Collect fields and create SignalGroup subclass
-- 
2.43.0


From bd1f4006ebd3624d8655171431b777cd9a44466c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:03 +0000
Subject: [PATCH 50/70] fix: a SignalGroupDescriptor does not confuse a class
 with a dead one

---
 src/psygnal/_group_descriptor.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index a1399bd..f2e3855 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -571,7 +571,10 @@ class SignalGroupDescriptor:
         self._collect_fields = collect_fields
         self._signal_aliases = signal_aliases
 
-        self._signal_groups: dict[int, type[SignalGroup]] = {}
+        # (weak: the id of a class may be reused once it is gone)
+        self._signal_groups: weakref.WeakKeyDictionary[type, type[SignalGroup]] = (
+            weakref.WeakKeyDictionary()
+        )
 
         # map of id(obj) -> SignalGroup
         # cached here in case the object isn't modifiable
@@ -646,10 +649,9 @@ class SignalGroupDescriptor:
         return self._instance_map[obj_id]
 
     def _get_signal_group(self, owner: type) -> type[SignalGroup]:
-        type_id = id(owner)
-        if type_id not in self._signal_groups:
-            self._signal_groups[type_id] = self._create_group(owner)
-        return self._signal_groups[type_id]
+        if owner not in self._signal_groups:
+            self._signal_groups[owner] = self._create_group(owner)
+        return self._signal_groups[owner]
 
     def _create_group(self, owner: type) -> type[SignalGroup]:
         if not self._collect_fields:
-- 
2.43.0


From 0e28f8631c62a0bf15129e338455b6b7a6b7202b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:18 +0000
Subject: [PATCH 51/70] fix: signals accessed by several names or through
 super() are created once

---
 src/psygnal/_signal.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 4fa0722..dfa6519 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -369,15 +369,25 @@ class Signal:
             return self
         if id(instance) in self._signal_instance_cache:
             return self._signal_instance_cache[id(instance)]
+        # whether this signal is what `instance.attr_name` means: it isn't, if it has been
+        # overridden in a subclass, or has been added to the class under another name.
+        attr_name = cast("str", self._attr_name or self._name)
+        is_attr = attr_name and getattr(type(instance), attr_name, None) is self
+        if is_attr:
+            # (we get here if it has been cached, but is accessed by yet another name)
+            cached = getattr(instance, "__dict__", {}).get(attr_name)
+            if isinstance(cached, SignalInstance):
+                return cached
         signal_instance = self._create_signal_instance(instance)
 
         # cache this signal instance so that future access returns the same instance.
         try:
+            if not is_attr:
+                raise AttributeError(attr_name)
             # first, try to assign it to instance.name ... this essentially breaks the
             # descriptor, (i.e. __get__ will never again be called for this instance)
             # (note, this is the same mechanism used in the `cached_property` decorator)
-            attr_name = self._attr_name or self._name
-            setattr(instance, cast("str", attr_name), signal_instance)
+            setattr(instance, attr_name, signal_instance)
         except AttributeError:
             # if that fails, which may happen in slotted classes, then we fall back to
             # our internal cache
-- 
2.43.0


From a4aa1ddf5f345ae45134e311cc5117ea0332d1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:18 +0000
Subject: [PATCH 52/70] fix: an overridden SignalGroupDescriptor does not
 shadow the one that overrides it

---
 src/psygnal/_group_descriptor.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index f2e3855..598b2ee 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -638,7 +638,12 @@ class SignalGroupDescriptor:
             self._instance_map[obj_id] = signal_group(instance)
             # also *try* to set it on the instance as well, since it will skip all the
             # __get__ logic in the future, but if it fails, no big deal.
-            if self._name and self._cache_on_instance:
+            # (not if the attribute is another descriptor, that overrides this one.)
+            if (
+                self._name
+                and self._cache_on_instance
+                and getattr(owner, self._name, None) is self
+            ):
                 with contextlib.suppress(Exception):
                     setattr(instance, self._name, self._instance_map[obj_id])
 
-- 
2.43.0


From 79d4832ff785243d84981b8a073cd7259ea374d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:43 +0000
Subject: [PATCH 53/70] fix: two threads that access a signal first get the
 same one

---
 src/psygnal/_group_descriptor.py |  6 +++++-
 src/psygnal/_signal.py           | 11 ++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index 598b2ee..d50cf8b 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -19,7 +19,7 @@ from typing import (
 
 from ._dataclass_utils import iter_fields
 from ._group import SignalGroup
-from ._signal import Signal, SignalInstance
+from ._signal import Signal, SignalInstance, _creation_lock
 
 if TYPE_CHECKING:
     from _weakref import ref as ref
@@ -627,6 +627,10 @@ class SignalGroupDescriptor:
         if instance is None:
             return self
 
+        with _creation_lock:
+            return self._get_signal_group_instance(instance, owner)
+
+    def _get_signal_group_instance(self, instance: object, owner: type) -> SignalGroup:
         signal_group = self._get_signal_group(owner)
 
         # if we haven't yet instantiated a SignalGroup for this instance,
diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index dfa6519..28ab1ff 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -180,6 +180,8 @@ if TYPE_CHECKING:
 __all__ = ["Signal", "SignalInstance", "_compiled"]
 
 _NULL = object()
+# held while the signals of an object are created on first access
+_creation_lock = threading.RLock()
 F = TypeVar("F", bound=Callable)
 
 # using 300 instead of sys.getrecursionlimit()
@@ -367,6 +369,13 @@ class Signal:
         """
         if instance is None:
             return self
+        if id(instance) in self._signal_instance_cache:
+            return self._signal_instance_cache[id(instance)]
+        with _creation_lock:
+            return self._get_signal_instance(instance)
+
+    def _get_signal_instance(self, instance: Any) -> SignalInstance:
+        """Create and cache the signal instance, if another thread has not done it."""
         if id(instance) in self._signal_instance_cache:
             return self._signal_instance_cache[id(instance)]
         # whether this signal is what `instance.attr_name` means: it isn't, if it has been
@@ -374,7 +383,7 @@ class Signal:
         attr_name = cast("str", self._attr_name or self._name)
         is_attr = attr_name and getattr(type(instance), attr_name, None) is self
         if is_attr:
-            # (we get here if it has been cached, but is accessed by yet another name)
+            # (cached meanwhile by another thread, or accessed by yet another name)
             cached = getattr(instance, "__dict__", {}).get(attr_name)
             if isinstance(cached, SignalInstance):
                 return cached
-- 
2.43.0


From bf876e7217d889fc792bce32f24dc6e0ca0218bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:35 +0000
Subject: [PATCH 54/70] fix: properties that set an aliased field emit once in
 subclasses with their own __setattr__

---
 src/psygnal/_group_descriptor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index d50cf8b..2b559c0 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -321,6 +321,7 @@ class _changes_emitted:
         else:
             _ASSIGNING[self._key] = self._outer
             if self._outer.field == self.field:
+                self._outer._delegated |= self._delegated
                 return  # e.g. a `__setattr__` that calls the (patched) one of its base
         if self._delegated:
             return
-- 
2.43.0


From a166fae10e559c596a212928ec3a92df3e3b6db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:52 +0000
Subject: [PATCH 55/70] fix: signals of objects that do not store them, and of
 classes, are stable and their own

---
 src/psygnal/_group_descriptor.py |  2 ++
 src/psygnal/_signal.py           | 11 +++++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index 2b559c0..610780d 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -648,6 +648,8 @@ class SignalGroupDescriptor:
                 self._name
                 and self._cache_on_instance
                 and getattr(owner, self._name, None) is self
+                # (what is assigned to a class is inherited by its subclasses)
+                and not isinstance(instance, type)
             ):
                 with contextlib.suppress(Exception):
                     setattr(instance, self._name, self._instance_map[obj_id])
diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 28ab1ff..5bc9c64 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -381,7 +381,12 @@ class Signal:
         # whether this signal is what `instance.attr_name` means: it isn't, if it has been
         # overridden in a subclass, or has been added to the class under another name.
         attr_name = cast("str", self._attr_name or self._name)
-        is_attr = attr_name and getattr(type(instance), attr_name, None) is self
+        is_attr = (
+            attr_name
+            and getattr(type(instance), attr_name, None) is self
+            # (what is assigned to a class is inherited by its subclasses)
+            and not isinstance(instance, type)
+        )
         if is_attr:
             # (cached meanwhile by another thread, or accessed by yet another name)
             cached = getattr(instance, "__dict__", {}).get(attr_name)
@@ -397,7 +402,9 @@ class Signal:
             # descriptor, (i.e. __get__ will never again be called for this instance)
             # (note, this is the same mechanism used in the `cached_property` decorator)
             setattr(instance, attr_name, signal_instance)
-        except AttributeError:
+            if instance.__dict__.get(attr_name) is not signal_instance:
+                raise AttributeError(attr_name)  # e.g. `__setattr__` is overridden
+        except Exception:
             # if that fails, which may happen in slotted classes, then we fall back to
             # our internal cache
             self._cache_signal_instance(instance, signal_instance)
-- 
2.43.0


From 69314872f5e9f1c304746501b185f18ce763413e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:42 +0000
Subject: [PATCH 56/70] fix: storing a signal that has the name of a group's
 member is not an assignment of the field

---
 src/psygnal/_group_descriptor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index 610780d..9a6f150 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -417,6 +417,10 @@ def evented_setattr(
             signal: SignalInstance | None = get_signal(group, name)
             if signal is None or len(signal) < 1:
                 return super_setattr(self, name, value)
+            # (a signal of the object that is stored when it's first accessed, see
+            # `Signal.__get__`, is not a field, even if the group has one of that name)
+            if isinstance(getattr(type(self), name, None), Signal):
+                return super_setattr(self, name, value)
 
             with _changes_emitted(self, name, signal):
                 super_setattr(self, name, value)
-- 
2.43.0


From 7ef88c881b1a2f32e074d2c899499a044b09873a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 57/70] fix: callbacks that can be called are accepted,
 whatever kind of callable they are

Bound __setitem__ methods and setattr without bound arguments, and partials of builtins
with keyword arguments were refused (or lost arguments).
---
 src/psygnal/_weak_callback.py | 40 ++++++++++++++---------------------
 1 file changed, 16 insertions(+), 24 deletions(-)

diff --git a/src/psygnal/_weak_callback.py b/src/psygnal/_weak_callback.py
index d22660e..bc06b73 100644
--- a/src/psygnal/_weak_callback.py
+++ b/src/psygnal/_weak_callback.py
@@ -134,13 +134,9 @@ def weak_callback(
         )
 
     if isinstance(cb, MethodType):
-        if getattr(cb, "__name__", None) == "__setitem__":
-            try:
-                key = args[0]
-            except IndexError as e:  # pragma: no cover
-                raise TypeError(
-                    "WeakCallback.__setitem__ requires a key argument"
-                ) from e
+        # (a key has been bound: what remains to be given is the value)
+        if getattr(cb, "__name__", None) == "__setitem__" and len(args) == 1:
+            key = args[0]
             obj = cast("SupportsSetitem", cb.__self__)
             return WeakSetitem(
                 obj, key, max_args, finalize, on_ref_error, priority=priority
@@ -150,23 +146,14 @@ def weak_callback(
         )
 
     if isinstance(cb, (MethodWrapperType, BuiltinMethodType)):
-        if kwargs:  # pragma: no cover
-            raise NotImplementedError(
-                "MethodWrapperTypes do not support keyword arguments"
-            )
-
-        if cb is setattr:
-            try:
-                obj, attr = args[:2]
-            except IndexError as e:  # pragma: no cover
-                raise TypeError(
-                    "setattr requires two arguments, an object and an attribute name."
-                ) from e
+        # (an object and a name have been bound: what remains to be given is the value)
+        if cb is setattr and len(args) == 2:
+            obj, attr = args
             return WeakSetattr(
                 obj, attr, max_args, finalize, on_ref_error, priority=priority
             )
         return WeakBuiltin(
-            cb, max_args, args, finalize, on_ref_error, priority=priority
+            cb, max_args, args, finalize, on_ref_error, priority=priority, kwargs=kwargs
         )
 
     if _is_toolz_curry(cb):
@@ -498,11 +485,13 @@ class WeakBuiltin(WeakCallback):
         finalize: Callable | None = None,
         on_ref_error: RefErrorChoice = "warn",
         priority: int = 0,
+        kwargs: dict[str, Any] | None = None,
     ) -> None:
         super().__init__(obj, max_args, on_ref_error, priority)
         self._obj_ref = self._try_ref(obj.__self__, finalize)
         self._func_name = obj.__name__
         self._args = args
+        self._kwargs = kwargs or {}
         if args:
             self._object_repr = f"{self._object_repr}{(*args,)!r}".replace(")", " ...)")
 
@@ -515,12 +504,15 @@ class WeakBuiltin(WeakCallback):
         if func is None:
             raise ReferenceError("weakly-referenced object no longer exists")
         if self._max_args is None:
-            func(*self._args, *args)
+            func(*self._args, *args, **self._kwargs)
         else:
-            func(*self._args, *args[: self._max_args])
+            func(*self._args, *args[: self._max_args], **self._kwargs)
 
-    def dereference(self) -> MethodWrapperType | BuiltinMethodType | None:
-        return getattr(self._obj_ref(), self._func_name, None)
+    def dereference(self) -> MethodWrapperType | BuiltinMethodType | partial | None:
+        func = getattr(self._obj_ref(), self._func_name, None)
+        if func is not None and (self._args or self._kwargs):
+            return partial(func, *self._args, **self._kwargs)
+        return cast("BuiltinMethodType | None", func)
 
 
 class WeakSetattr(WeakCallback):
-- 
2.43.0


From d99f18973dabc8192a3ff3e42b572693d8578ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 58/70] fix: type checks compare the parameters that receive
 the arguments

Annotations of keyword parameters were compared with declared types, those of *args only
with the first; string annotations of partials and callable objects, unions (X | Y),
generics, Any, and signals without annotations raised or were refused.
---
 src/psygnal/_signal.py | 73 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 63 insertions(+), 10 deletions(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 5bc9c64..ea4bc2e 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -785,7 +785,9 @@ class SignalInstance:
                         _on_ref_err = "ignore"
                 if check_types:
                     slot_sig = slot_sig or signature(slot)
-                    if not _parameter_types_match(slot, self.signature, slot_sig):
+                    if not _parameter_types_match(
+                        slot, self.signature, slot_sig, max_args
+                    ):
                         extra = f"- Slot types {slot_sig} do not match types in signal."
                         self._raise_connection_error(slot, extra)
 
@@ -1748,7 +1750,10 @@ def _acceptable_posarg_range(
 
 
 def _parameter_types_match(
-    function: Callable, spec: Signature, func_sig: Signature | None = None
+    function: Callable,
+    spec: Signature,
+    func_sig: Signature | None = None,
+    max_args: int | None = None,
 ) -> bool:
     """Return True if types in `function` signature match those in `spec`.
 
@@ -1761,6 +1766,8 @@ def _parameter_types_match(
     func_sig : Signature, optional
         Signature for `function`, if `None`, signature will be inspected.
         by default None
+    max_args : int, optional
+        The number of arguments that the function is called with at most.
 
     Returns
     -------
@@ -1770,7 +1777,8 @@ def _parameter_types_match(
     fsig = func_sig or signature(function)
 
     func_hints: dict | None = None
-    for f_param, spec_param in zip(fsig.parameters.values(), spec.parameters.values()):
+    spec_params = list(spec.parameters.values())[:max_args]
+    for f_param, spec_param in zip(_iter_posargs(fsig), spec_params):
         f_anno = f_param.annotation
         if f_anno is fsig.empty:
             # if function parameter is not type annotated, allow it.
@@ -1778,19 +1786,64 @@ def _parameter_types_match(
 
         if isinstance(f_anno, str):
             if func_hints is None:
-                func_hints = get_type_hints(function)
-            f_anno = func_hints.get(f_param.name)
+                func_hints = _get_func_hints(function)
+            f_anno = func_hints.get(f_param.name, Any)
 
         if not _is_subclass(f_anno, spec_param.annotation):
             return False
     return True
 
 
-def _is_subclass(left: type[Any], right: type) -> bool:
-    """Variant of issubclass with support for unions."""
-    if not isclass(left) and get_origin(left) is Union:
-        return any(issubclass(i, right) for i in get_args(left))
-    return issubclass(left, right)
+def _iter_posargs(sig: Signature) -> Iterator[Parameter]:
+    """Yield the parameter that receives each of the positional arguments, in order."""
+    for param in sig.parameters.values():
+        if param.kind in (Parameter.POSITIONAL_ONLY, Parameter.POSITIONAL_OR_KEYWORD):
+            yield param
+        elif param.kind is Parameter.VAR_POSITIONAL:
+            while True:
+                yield param
+
+
+def _get_func_hints(function: Any) -> dict[str, Any]:
+    """Return evaluated type hints of the parameters of a callable, if possible."""
+    while isinstance(function, partial):
+        function = function.func
+    if isclass(function):
+        function = function.__init__
+    elif not hasattr(function, "__code__") and not hasattr(function, "__func__"):
+        function = getattr(type(function), "__call__", function)
+    try:
+        return get_type_hints(function)
+    except Exception:  # e.g. names that only exist when type checking
+        return {}
+
+
+def _classes(anno: Any) -> tuple[type, ...] | None:
+    """Return the classes that an annotation stands for, None if that can't be told."""
+    if anno is Any or anno is Parameter.empty:
+        return None
+    if anno is None:
+        return (type(None),)
+    if hasattr(anno, "__metadata__"):  # Annotated
+        return _classes(anno.__origin__)
+    origin = get_origin(anno)
+    if origin is Union or type(anno).__name__ == "UnionType":  # (X | Y)
+        members = [_classes(i) for i in get_args(anno)]
+        return None if None in members else sum(cast("list", members), ())
+    if isclass(origin):  # e.g. list[int]
+        return (origin,)
+    return (anno,) if isclass(anno) else None
+
+
+def _is_subclass(left: Any, right: Any) -> bool:
+    """Variant of issubclass with support for unions, generics, and Any."""
+    lefts, rights = _classes(left), _classes(right)
+    if lefts is None or rights is None:
+        return True
+    try:
+        return any(issubclass(i, rights) for i in lefts)
+    except TypeError:  # e.g. protocols
+        return True
 
 
 def _guess_qtsignal_signature(obj: Any) -> str | None:
-- 
2.43.0


From f08f829a607715cb7ddbf7b2aac6662972041bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:20 +0000
Subject: [PATCH 59/70] fix: a signal with several names is enumerated once

---
 src/psygnal/utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/psygnal/utils.py b/src/psygnal/utils.py
index e37a290..e8242e7 100644
--- a/src/psygnal/utils.py
+++ b/src/psygnal/utils.py
@@ -109,15 +109,18 @@ def iter_signal_instances(
         return
 
     # Signal attached to Class
+    # (the same signal may be found under several names)
+    seen: list[SignalInstance] = []
     for n in dir(obj):
         if not include_private_attrs and n.startswith("_"):
             continue
         with suppress(AttributeError, FutureWarning):
             attr = getattr(obj, n)
-            if isinstance(attr, SignalInstance):
-                yield attr
             if isinstance(attr, SignalGroup):
-                yield attr._psygnal_relay
+                attr = attr._psygnal_relay
+            if isinstance(attr, SignalInstance) and all(attr is not s for s in seen):
+                seen.append(attr)
+                yield attr
 
 
 _COMPILED_EXTS = (".so", ".pyd")
-- 
2.43.0


From 9437cc3d2b72d6c39e5875584233cd34ae363da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:20 +0000
Subject: [PATCH 60/70] fix: methods that take one argument are loggers of the
 current API

---
 src/psygnal/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/utils.py b/src/psygnal/utils.py
index e8242e7..80a6596 100644
--- a/src/psygnal/utils.py
+++ b/src/psygnal/utils.py
@@ -4,6 +4,7 @@ from __future__ import annotations
 
 from contextlib import contextmanager, suppress
 from functools import partial
+from inspect import ismethod
 from pathlib import Path
 from typing import TYPE_CHECKING, Any, Callable
 from warnings import warn
@@ -44,7 +45,8 @@ def monitor_events(
         by default False
     """
     code = getattr(logger, "__code__", None)
-    _old_api = bool(code and code.co_argcount > 1)
+    # (the instance a method is bound to is not one of its arguments)
+    _old_api = bool(code and code.co_argcount - ismethod(logger) > 1)
 
     if obj is None:
         # install the hook globally
-- 
2.43.0


From 1247a0e128d0c3e52c66db27ecb584f3f4627a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:20 +0000
Subject: [PATCH 61/70] fix: a monitor that can't be installed leaves no
 connections

---
 src/psygnal/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/utils.py b/src/psygnal/utils.py
index 80a6596..f8ed7fa 100644
--- a/src/psygnal/utils.py
+++ b/src/psygnal/utils.py
@@ -63,7 +63,8 @@ def monitor_events(
                 stacklevel=2,
             )
         disconnectors = set()
-        for siginst in iter_signal_instances(obj, include_private_attrs):
+        # (all of them are found before the first one is connected: looking may fail)
+        for siginst in list(iter_signal_instances(obj, include_private_attrs)):
             if _old_api:
 
                 def _report(*args: Any, signal: SignalInstance = siginst) -> None:
-- 
2.43.0


From 4e100478945e287ad1829fab31b2ba0539c54664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:42 +0000
Subject: [PATCH 62/70] fix: monitoring of all signals sees the emissions that
 were held back

---
 src/psygnal/_group.py  |  4 ++++
 src/psygnal/_signal.py | 15 ++++++++++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/psygnal/_group.py b/src/psygnal/_group.py
index 13270c2..517a0f0 100644
--- a/src/psygnal/_group.py
+++ b/src/psygnal/_group.py
@@ -104,6 +104,10 @@ class SignalRelay(SignalInstance):
             else:
                 self._run_emit_loop((info,))
 
+    def _emit_resumed(self, args: tuple) -> None:
+        # (the debug hook has been told by the signal that made the emission)
+        self._run_emit_loop(args)
+
     def __getstate__(self) -> dict:
         """Return dict of current state, for pickle."""
         state = super().__getstate__()
diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index ea4bc2e..e97b84e 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -1484,7 +1484,7 @@ class SignalInstance:
         # take the collected args out of the queue *before* emitting: callbacks may raise
         # or pause/resume this signal, and nothing may be emitted twice.
         args_queue, self._args_queue = self._args_queue, []
-        if len(self._slots) == 0:
+        if len(self._slots) == 0 and SignalInstance._debug_hook is None:
             return
 
         if reducer is not None:
@@ -1496,10 +1496,19 @@ class SignalInstance:
                     args = reduce(reducer, args_queue)
                 else:
                     args = reduce(reducer, args_queue, initial)
-            self._run_emit_loop(args)
+            self._emit_resumed(args)
         else:
             for args in args_queue:
-                self._run_emit_loop(args)
+                self._emit_resumed(args)
+
+    def _emit_resumed(self, args: tuple) -> None:
+        """Make an emission that has been held back while this signal was paused."""
+        if SignalInstance._debug_hook is not None:
+            from ._group import EmissionInfo
+
+            SignalInstance._debug_hook(EmissionInfo(self, args))
+
+        self._run_emit_loop(args)
 
     def paused(
         self, reducer: ReducerFunc | None = None, initial: Any = _NULL
-- 
2.43.0


From 972449a3dd1dc34230fcdd03fcf08fd1cf0dde56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:21 +0000
Subject: [PATCH 63/70] fix: pickling a signal doesn't restore the emission
 that was running

A signal that was pickled or deep-copied while it was emitting (in one of its
own callbacks) was restored with the arguments of that emission still in its
queue, and with its recursion depth. The copy took itself to be emitting, and
never called a callback again.
---
 src/psygnal/_signal.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index e97b84e..8f34ed4 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -1555,12 +1555,8 @@ class SignalInstance:
             "_args_queue",
             "_check_nargs_on_connect",
             "_check_types_on_connect",
-            "_emit_queue",
             "_priority_in_use",
             "_reemission",
-            "_max_recursion_depth",
-            "_recursion_depth",
-            "_emission_count",
         )
         dd = {slot: getattr(self, slot) for slot in attrs}
         dd["_instance"] = self._instance()
@@ -1583,6 +1579,11 @@ class SignalInstance:
             else:
                 setattr(self, k, v)
         self._lock = threading.RLock()
+        # an emission that is running while the signal is pickled is not restored
+        self._emit_queue = deque()
+        self._recursion_depth = 0
+        self._max_recursion_depth = 0
+        self._emission_count = 0
         if self._reemission == ReemissionMode.QUEUED:  # pragma: no cover
             self._run_emit_loop_inner = self._run_emit_loop_queued
         elif self._reemission == ReemissionMode.LATEST:  # pragma: no cover
-- 
2.43.0


From 6a1ee4f666103f9c77846efa5fe6431e60725339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:37 +0000
Subject: [PATCH 64/70] fix: events of an inserted item aren't re-emitted when
 a listener of the insertion raises

---
 src/psygnal/containers/_evented_list.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/containers/_evented_list.py b/src/psygnal/containers/_evented_list.py
index a431808..53c562f 100644
--- a/src/psygnal/containers/_evented_list.py
+++ b/src/psygnal/containers/_evented_list.py
@@ -139,8 +139,10 @@ class EventedList(MutableSequence[_T]):
         _value = self._pre_insert(value)
         self.events.inserting.emit(index)
         self._data.insert(index, _value)
-        self.events.inserted.emit(index, _value)
-        self._post_insert(_value)
+        try:
+            self.events.inserted.emit(index, _value)
+        finally:  # the item is in the list, even if a listener raises
+            self._post_insert(_value)
 
     @overload
     def __getitem__(self, key: int) -> _T: ...
-- 
2.43.0


From 5d61572aae59cde55c593171f9097ea49049e02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:14 +0000
Subject: [PATCH 65/70] fix: a selection is inconsistent when a listener of a
 change raises

---
 .../containers/_selectable_evented_list.py    | 24 +++++++++++--------
 src/psygnal/containers/_selection.py          | 14 +++++++----
 2 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/psygnal/containers/_selectable_evented_list.py b/src/psygnal/containers/_selectable_evented_list.py
index b2bb3d6..223a9c6 100644
--- a/src/psygnal/containers/_selectable_evented_list.py
+++ b/src/psygnal/containers/_selectable_evented_list.py
@@ -58,20 +58,24 @@ class SelectableEventedList(Selectable[_T], EventedList[_T]):
         self._connect_selection()
 
     def _on_item_removed(self, idx: int, obj: Any) -> None:
-        self.selection.discard(obj)
-        if self.selection._current == obj:
-            self.selection._current = None
+        try:
+            self.selection.discard(obj)
+        finally:
+            if self.selection._current == obj:
+                self.selection._current = None
 
     def _on_item_changed(self, idx: Any, old: Any, new: Any) -> None:
         items = old if isinstance(idx, slice) else (old,)
         gone = [item for item in items if item not in self]
-        if all(item in gone for item in self.selection):
-            # (one by one, the last one would become active)
-            self.selection.clear(keep_current=True)
-        else:
-            self.selection.difference_update(gone)
-        if self.selection._current in gone:
-            self.selection._current = None
+        try:
+            if all(item in gone for item in self.selection):
+                # (one by one, the last one would become active)
+                self.selection.clear(keep_current=True)
+            else:
+                self.selection.difference_update(gone)
+        finally:
+            if self.selection._current in gone:
+                self.selection._current = None
 
     def insert(self, index: int, value: _T) -> None:
         """Insert item(s) into the list and update the selection."""
diff --git a/src/psygnal/containers/_selection.py b/src/psygnal/containers/_selection.py
index 0ecbbe9..64d8c4f 100644
--- a/src/psygnal/containers/_selection.py
+++ b/src/psygnal/containers/_selection.py
@@ -123,9 +123,11 @@ class Selection(EventedOrderedSet[_T]):
         keep_current : bool
             If `False` (the default), the "current" item will also be set to None.
         """
-        if not keep_current:
-            self._current = None
-        super().clear()
+        try:
+            if not keep_current:
+                self._current = None
+        finally:
+            super().clear()
 
     def toggle(self, obj: _T) -> None:
         """Toggle selection state of obj."""
@@ -154,8 +156,10 @@ class Selection(EventedOrderedSet[_T]):
 
     def _emit_change(self, added: tuple[_T, ...], removed: tuple[_T, ...]) -> None:
         """Emit a change event."""
-        super()._emit_change(added, removed)
-        self._update_active()
+        try:
+            super()._emit_change(added, removed)
+        finally:
+            self._update_active()
 
     def _pre_add_hook(self, item: _T) -> _T | BailType:
         self._check_in_parent(item)
-- 
2.43.0


From cb5f0e04019c183192d2d506df1267ca18ccf2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:49 +0000
Subject: [PATCH 66/70] fix: a connection is overlooked while another one dies
 in another thread

---
 src/psygnal/_signal.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 8f34ed4..6d80a5b 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -1147,7 +1147,9 @@ class SignalInstance:
             normed = weak_callback(slot, on_ref_error="ignore")
             # NOTE:
             # the == method here relies on the __eq__ method of each SlotCaller subclass
-            return next((i for i, s in enumerate(self._slots) if s == normed), -1)
+            # (other slots may die, and be removed, at any time: so look at a copy)
+            slots = enumerate(tuple(self._slots))
+            return next((i for i, s in slots if s == normed), -1)
 
     def disconnect(self, slot: Callable | None = None, missing_ok: bool = True) -> None:
         """Disconnect slot from signal.
@@ -1360,7 +1362,7 @@ class SignalInstance:
         for i, slot in enumerate(tuple(slots)):
             # (slots may die, and be removed, at any time)
             current = next(iter(slots[i : i + 1]), None)
-            if current is slot or any(s is slot for s in slots):
+            if current is slot or any(s is slot for s in tuple(slots)):
                 yield slot
 
     @staticmethod
-- 
2.43.0


From 00868f0874d3cc8aa483cc9aa29af718f4c01815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:00 +0000
Subject: [PATCH 67/70] fix: a method of None is called in place of a dead
 object's builtin method

A queued (or concurrent) call of e.g. `obj.__setattr__` whose object has died was made
on None, and its failure surfaced in the emission.
---
 src/psygnal/_weak_callback.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/_weak_callback.py b/src/psygnal/_weak_callback.py
index bc06b73..ae8ed54 100644
--- a/src/psygnal/_weak_callback.py
+++ b/src/psygnal/_weak_callback.py
@@ -499,8 +499,13 @@ class WeakBuiltin(WeakCallback):
         obj = self._obj_ref()
         return f"{obj.__class__.__qualname__}.{self._func_name}"
 
+    def _func(self) -> Callable | None:
+        obj = self._obj_ref()
+        # (None has methods, too)
+        return None if obj is None else getattr(obj, self._func_name, None)
+
     def cb(self, args: tuple[Any, ...] = ()) -> None:
-        func = getattr(self._obj_ref(), self._func_name, None)
+        func = self._func()
         if func is None:
             raise ReferenceError("weakly-referenced object no longer exists")
         if self._max_args is None:
@@ -509,7 +514,7 @@ class WeakBuiltin(WeakCallback):
             func(*self._args, *args[: self._max_args], **self._kwargs)
 
     def dereference(self) -> MethodWrapperType | BuiltinMethodType | partial | None:
-        func = getattr(self._obj_ref(), self._func_name, None)
+        func = self._func()
         if func is not None and (self._args or self._kwargs):
             return partial(func, *self._args, **self._kwargs)
         return cast("BuiltinMethodType | None", func)
-- 
2.43.0


From fc5a2533b0405558edf7eaa29564b2b9eec6c72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:22 +0000
Subject: [PATCH 68/70] fix: the emit method of a Qt signal is refused when
 types are checked

---
 src/psygnal/_signal.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 6d80a5b..298485a 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -778,14 +778,15 @@ class SignalInstance:
                         )
                     return slot
 
-                slot_sig: Signature | None = None
+                slot_sig: Signature | str | None = None
                 if check_nargs and (max_args is None):
                     slot_sig, max_args, isqt = self._check_nargs(slot, self.signature)
                     if isqt:
                         _on_ref_err = "ignore"
                 if check_types:
-                    slot_sig = slot_sig or signature(slot)
-                    if not _parameter_types_match(
+                    slot_sig = slot_sig or _get_signature_possibly_qt(slot)
+                    # (nothing is known about the types that a Qt signal accepts)
+                    if not isinstance(slot_sig, str) and not _parameter_types_match(
                         slot, self.signature, slot_sig, max_args
                     ):
                         extra = f"- Slot types {slot_sig} do not match types in signal."
-- 
2.43.0


From ec1d2db6faa4fe6078e5e006ab61b754ee50460e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:59 +0000
Subject: [PATCH 69/70] fix: an item of an evented list can't be deleted (or
 popped) by a NumPy integer

---
 src/psygnal/containers/_evented_list.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/containers/_evented_list.py b/src/psygnal/containers/_evented_list.py
index 53c562f..003aee5 100644
--- a/src/psygnal/containers/_evented_list.py
+++ b/src/psygnal/containers/_evented_list.py
@@ -24,6 +24,7 @@ cover this in test_evented_list.py)
 
 from __future__ import annotations
 
+import operator
 from collections.abc import Iterable, Mapping, MutableSequence
 from typing import (
     TYPE_CHECKING,
@@ -199,7 +200,8 @@ class EventedList(MutableSequence[_T]):
 
     def _delitem_indices(self, key: Index) -> Iterable[tuple[EventedList[_T], int]]:
         # returning (self, int) allows subclasses to pass nested members
-        if isinstance(key, int):
+        if hasattr(key, "__index__"):  # (like list, accept e.g. integers of numpy)
+            key = operator.index(key)
             if not -len(self) <= key < len(self):
                 raise IndexError("list assignment index out of range")
             yield (self, key if key >= 0 else key + len(self))
-- 
2.43.0


From b39c9882c3817976a66b9b8b8c30bc8fed2053d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:30 +0000
Subject: [PATCH 70/70] fix: an exception (or owner) that can't be printed or
 tested hides the failure of a callback

When the exception's __str__, the owner's __bool__, or the repr of the arguments of a
queued emission raise, that error reached the emitter in place of an EmitLoopError.
---
 src/psygnal/_exceptions.py | 15 ++++++++++++---
 src/psygnal/_signal.py     |  9 +++++----
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/psygnal/_exceptions.py b/src/psygnal/_exceptions.py
index f87d88e..451ae80 100644
--- a/src/psygnal/_exceptions.py
+++ b/src/psygnal/_exceptions.py
@@ -39,7 +39,7 @@ class EmitLoopError(Exception):
         # grab the signal name or repr
         if signal is None:  # pragma: no cover
             sig_name: str = ""
-        elif instance := signal.instance:
+        elif (instance := signal.instance) is not None:
             inst_class = instance.__class__
             mod = getattr(inst_class, "__module__", "")
             if mod:
@@ -55,7 +55,8 @@ class EmitLoopError(Exception):
         if reemission == "queued" and (depth := len(emit_queue) - 1):
             msg += (
                 "\nNOTE: reemission is set to 'queued', and this error occurred "
-                f"at a queue-depth of {depth}.\nEmitting arguments: {emit_queue[-1]})\n"
+                f"at a queue-depth of {depth}.\n"
+                f"Emitting arguments: {_safe_str(emit_queue[-1])})\n"
             )
 
         super().__init__(msg)
@@ -65,7 +66,7 @@ def _build_psygnal_exception_msg(
     sig_name: str, exc: BaseException, recursion_depth: int
 ) -> str:
     msg = f"\n\nWhile emitting signal {sig_name!r}, an error occurred in a callback:"
-    line = f"\n\n  {exc.__class__.__name__}: {exc}"
+    line = f"\n\n  {exc.__class__.__name__}: {_safe_str(exc)}"
     msg += line + "\n  " + "-" * (len(line) - 4)
 
     if recursion_depth:
@@ -108,6 +109,14 @@ def _build_psygnal_exception_msg(
     return msg
 
 
+def _safe_str(obj: object) -> str:
+    """Return str(obj), whatever it raises (the original error must be reported)."""
+    try:
+        return str(obj)
+    except Exception:
+        return f"<unprintable {type(obj).__name__} object>"
+
+
 def _fmt_frame(fi: inspect.FrameInfo, with_context: bool = True) -> str:
     msg = f"{fi.filename}:{fi.lineno} in {fi.function}\n"
     if with_context and (code_ctx := fi.code_context):
diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 298485a..5a3ded2 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -152,7 +152,7 @@ from typing import (
     overload,
 )
 
-from ._exceptions import EmitLoopError
+from ._exceptions import EmitLoopError, _safe_str
 from ._mypyc import mypyc_attr
 from ._queue import QueuedCallback
 from ._weak_callback import (
@@ -1282,7 +1282,7 @@ class SignalInstance:
         if self._recursion_depth >= RECURSION_LIMIT:
             raise RecursionError(
                 f"Psygnal recursion limit ({RECURSION_LIMIT}) reached when emitting "
-                f"signal {self.name!r} with args {args}"
+                f"signal {self.name!r} with args {_safe_str(args)}"
             )
 
         self._recursion_depth += 1
@@ -1291,7 +1291,8 @@ class SignalInstance:
                 self._call_slot(caller, args)
         except RecursionError as e:
             raise RecursionError(
-                f"RecursionError when emitting signal {self.name!r} with args {args}"
+                f"RecursionError when emitting signal {self.name!r} "
+                f"with args {_safe_str(args)}"
             ) from e
         except EmitLoopError as e:  # pragma: no cover
             raise e
@@ -1330,7 +1331,7 @@ class SignalInstance:
             except RecursionError as e:
                 raise RecursionError(
                     f"RecursionError when "
-                    f"emitting signal {self.name!r} with args {args}"
+                    f"emitting signal {self.name!r} with args {_safe_str(args)}"
                 ) from e
             except EmitLoopError as e:
                 raise e
-- 
2.43.0

