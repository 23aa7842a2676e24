From ead67d570a75147ed268e669d9e43a71c75a9253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:04 +0000
Subject: [PATCH 01/57] fix: undo group restores the enclosing receiver, also
 after an exception

---
 src/bgem/undo.py | 652 ++++++++++++++++++++++++-----------------------
 1 file changed, 327 insertions(+), 325 deletions(-)

diff --git a/src/bgem/undo.py b/src/bgem/undo.py
index d1ca510..958444b 100644
--- a/src/bgem/undo.py
+++ b/src/bgem/undo.py
@@ -1,325 +1,327 @@
-#!/usr/bin/env python3
-# -*- coding: utf-8 -*-
-#
-# Copyright (c) 2011 David Townshend
-#
-# This program is free software; you can redistribute it and/or modify it
-# under the terms of the GNU General Public License as published by the
-# Free Software Foundation; either version 2 of the License, or (at your
-# option) any later version.
-#
-# This program is distributed in the hope that it will be useful, but
-# WITHOUT ANY WARRANTY; without even the implied warranty of MERCHANTABILITY
-# or FITNESS FOR A PARTICULAR PURPOSE.  See the GNU General Public License
-# for more details.
-#
-# You should have received a copy of the GNU General Public License along
-# with this program; if not, write to the Free Software Foundation, Inc.,
-# 675 Mass Ave, Cambridge, MA 02139, USA.
-
-__version__ = '0.5.1'
-__author__ = 'David Townshend'
-
-__all__ = ['undoable', 'group', 'Stack', 'stack', 'setstack']
-
-import contextlib
-
-from collections import deque
-
-class _Action:
-    ''' This represents an action which can be done and undone.
-    
-    It is the result of a call on an undoable function and has
-    three methods: ``do()``, ``undo()`` and ``text()``.  The first value
-    returned by the internal call in ``do()`` is the value which will 
-    subsequently be returned by ``text``.  Any remaining values are 
-    returned by ``do()``.
-    '''
-    def __init__(self, generator, args, kwargs):
-        self._generator = generator
-        self.args = args
-        self.kwargs = kwargs
-        self._text = ''
-
-    def do(self):
-        'Do or redo the action'
-        self._runner = self._generator(*self.args, **self.kwargs)
-        rets = next(self._runner)
-        if isinstance(rets, tuple):
-            self._text = rets[0]
-            return rets[1:]
-        elif rets is None:
-            self._text = ''
-            return None
-        else:
-            self._text = rets
-            return None
-
-    def undo(self):
-        'Undo the action'
-        try:
-            next(self._runner)
-        except StopIteration:
-            pass
-        # Delete it so that its not accidentally called again
-        del self._runner
-
-    def text(self):
-        'Return the descriptive text of the action'
-        return self._text
-
-
-def undoable(generator):
-    ''' Decorator which creates a new undoable action type. 
-    
-    This decorator should be used on a generator of the following format::
-    
-        @undoable
-        def operation(*args):
-            do_operation_code
-            yield 'descriptive text'
-            undo_operator_code
-    '''
-    def inner(*args, **kwargs):
-        action = _Action(generator, args, kwargs)
-        ret = action.do()
-        stack().append(action)
-        if isinstance(ret, tuple):
-            if len(ret) == 1:
-                return ret[0]
-            elif len(ret) == 0:
-                return None
-        return ret
-    return inner
-
-
-class _Group:
-    ''' A undoable group context manager. '''
-
-    def __init__(self, desc):
-        self._desc = desc
-        self._stack = []
-
-    def __enter__(self):
-        stack().setreceiver(self._stack)
-
-    def __exit__(self, exc_type, exc_val, exc_tb):
-        if exc_type is None:
-            stack().resetreceiver()
-            stack().append(self)
-        return False
-
-    def undo(self):
-        for undoable in reversed(self._stack):
-            undoable.undo()
-
-    def do(self):
-        for undoable in self._stack:
-            undoable.do()
-
-    def text(self):
-        return self._desc.format(count=len(self._stack))
-
-
-def group(desc):
-    ''' Return a context manager for grouping undoable actions. 
-    
-    All actions which occur within the group will be undone by a single call
-    of `stack.undo`, e.g.
-    
-    >>> @undoable
-    ... def operation(n):
-    ...     yield
-    ...     print(n)
-    >>> with group('text'):
-    ...     for n in range(3):
-    ...         operation(n)
-    >>> operation(3)
-    >>> stack().undo()
-    3
-    >>> stack().undo()
-    2
-    1
-    0
-    '''
-    return _Group(desc)
-
-
-class Stack:
-    ''' The main undo stack. 
-        
-    The two key features are the :func:`redo` and :func:`undo` methods. If an 
-    exception occurs during doing or undoing a undoable, the undoable
-    aborts and the stack is cleared to avoid any further data corruption. 
-    
-    The stack provides two properties for tracking actions: *docallback* 
-    and *undocallback*. Each of these allow a callback function to be set
-    which is called when an action is done or undone repectively. By default, 
-    they do nothing.
-    
-    >>> def done():
-    ...     print('Can now undo: {}'.format(stack().undotext()))
-    >>> def undone():
-    ...     print('Can now redo: {}'.format(stack().redotext()))
-    >>> stack().docallback = done
-    >>> stack().undocallback = undone
-    >>> @undoable
-    ... def action():
-    ...     yield 'An action'
-    >>> action()
-    Can now undo: Undo An action
-    >>> stack().undo()
-    Can now redo: Redo An action
-    >>> stack().redo()
-    Can now undo: Undo An action
-    
-    Setting them back to ``lambda: None`` will stop any further actions.
-    
-    >>> stack().docallback = stack().undocallback = lambda: None
-    >>> action()
-    >>> stack().undo()
-    
-    It is possible to mark a point in the undo history when the document
-    handled is saved. This allows the undo system to report whether a 
-    document has changed. The point is marked using :func:`savepoint` and
-    :func:`haschanged` returns whether or not the state has changed (either
-    by doing or undoing an action). Only one savepoint can be tracked,
-    marking a new one removes the old one.
-    
-    >>> stack().savepoint()
-    >>> stack().haschanged()
-    False
-    >>> action()
-    >>> stack().haschanged()
-    True
-    '''
-
-    def __init__(self):
-        self._undos = deque()
-        self._redos = deque()
-        self._receiver = self._undos
-        self._savepoint = None
-        self.undocallback = lambda: None
-        self.docallback = lambda: None
-
-    def canundo(self):
-        ''' Return *True* if undos are available '''
-        return len(self._undos) > 0
-
-    def canredo(self):
-        ''' Return *True* if redos are available '''
-        return len(self._redos) > 0
-
-    def redo(self):
-        ''' Redo the last undone action. 
-        
-        This is only possible if no other actions have occurred since the 
-        last undo call.
-        '''
-        if self.canredo():
-            undoable = self._redos.pop()
-            with self._pausereceiver():
-                try:
-                    undoable.do()
-                except:
-                    self.clear()
-                    raise
-                else:
-                    self._undos.append(undoable)
-            self.docallback()
-
-    def undo(self):
-        ''' Undo the last action. '''
-        if self.canundo():
-            undoable = self._undos.pop()
-            with self._pausereceiver():
-                try:
-                    undoable.undo()
-                except:
-                    self.clear()
-                    raise
-                else:
-                    self._redos.append(undoable)
-            self.undocallback()
-
-    def clear(self):
-        ''' Clear the undo list. '''
-        self._undos.clear()
-        self._redos.clear()
-        self._savepoint = None
-        self._receiver = self._undos
-
-    def undocount(self):
-        ''' Return the number of undos available. '''
-        return len(self._undos)
-
-    def redocount(self):
-        ''' Return the number of redos available. '''
-        return len(self._undos)
-
-    def undotext(self):
-        ''' Return a description of the next available undo. '''
-        if self.canundo():
-            return ('Undo ' + self._undos[-1].text()).strip()
-
-    def redotext(self):
-        ''' Return a description of the next available redo. '''
-        if self.canredo():
-            return ('Redo ' + self._redos[-1].text()).strip()
-
-    @contextlib.contextmanager
-    def _pausereceiver(self):
-        ''' Return a contect manager which temporarily pauses the receiver. '''
-        self.setreceiver([])
-        yield
-        self.resetreceiver()
-
-    def setreceiver(self, receiver=None):
-        ''' Set an object to receiver commands pushed onto the stack.
-        
-        By default it is the internal stack, but it can be set (usually
-        internally) to any object with an *append()* method.
-        '''
-        assert hasattr(receiver, 'append')
-        self._receiver = receiver
-
-    def resetreceiver(self):
-        ''' Reset the receiver to the internal stack.'''
-        self._receiver = self._undos
-
-    def append(self, action):
-        ''' Add a undoable to the stack, using ``receiver.append()``. '''
-        if self._receiver is not None:
-            self._receiver.append(action)
-        if self._receiver is self._undos:
-            self._redos.clear()
-            self.docallback()
-
-    def savepoint(self):
-        ''' Set the savepoint. '''
-        self._savepoint = self.undocount()
-
-    def haschanged(self):
-        ''' Return *True* if the state has changed since the savepoint. 
-        
-        This will always return *True* if the savepoint has not been set.
-        '''
-        return self._savepoint is None or self._savepoint != self.undocount()
-
-
-_stack = None
-
-def stack():
-    ''' Return the currently used stack.
-    
-    If no stack has been set, a new one is created and set.
-    '''
-    global _stack
-    if _stack is None:
-        _stack = Stack()
-    return _stack
-
-def setstack(stack):
-    ''' Set the undo stack to a specific `Stack` object.'''
-    global _stack
-    _stack = stack
+#!/usr/bin/env python3
+# -*- coding: utf-8 -*-
+#
+# Copyright (c) 2011 David Townshend
+#
+# This program is free software; you can redistribute it and/or modify it
+# under the terms of the GNU General Public License as published by the
+# Free Software Foundation; either version 2 of the License, or (at your
+# option) any later version.
+#
+# This program is distributed in the hope that it will be useful, but
+# WITHOUT ANY WARRANTY; without even the implied warranty of MERCHANTABILITY
+# or FITNESS FOR A PARTICULAR PURPOSE.  See the GNU General Public License
+# for more details.
+#
+# You should have received a copy of the GNU General Public License along
+# with this program; if not, write to the Free Software Foundation, Inc.,
+# 675 Mass Ave, Cambridge, MA 02139, USA.
+
+__version__ = '0.5.1'
+__author__ = 'David Townshend'
+
+__all__ = ['undoable', 'group', 'Stack', 'stack', 'setstack']
+
+import contextlib
+
+from collections import deque
+
+class _Action:
+    ''' This represents an action which can be done and undone.
+    
+    It is the result of a call on an undoable function and has
+    three methods: ``do()``, ``undo()`` and ``text()``.  The first value
+    returned by the internal call in ``do()`` is the value which will 
+    subsequently be returned by ``text``.  Any remaining values are 
+    returned by ``do()``.
+    '''
+    def __init__(self, generator, args, kwargs):
+        self._generator = generator
+        self.args = args
+        self.kwargs = kwargs
+        self._text = ''
+
+    def do(self):
+        'Do or redo the action'
+        self._runner = self._generator(*self.args, **self.kwargs)
+        rets = next(self._runner)
+        if isinstance(rets, tuple):
+            self._text = rets[0]
+            return rets[1:]
+        elif rets is None:
+            self._text = ''
+            return None
+        else:
+            self._text = rets
+            return None
+
+    def undo(self):
+        'Undo the action'
+        try:
+            next(self._runner)
+        except StopIteration:
+            pass
+        # Delete it so that its not accidentally called again
+        del self._runner
+
+    def text(self):
+        'Return the descriptive text of the action'
+        return self._text
+
+
+def undoable(generator):
+    ''' Decorator which creates a new undoable action type. 
+    
+    This decorator should be used on a generator of the following format::
+    
+        @undoable
+        def operation(*args):
+            do_operation_code
+            yield 'descriptive text'
+            undo_operator_code
+    '''
+    def inner(*args, **kwargs):
+        action = _Action(generator, args, kwargs)
+        ret = action.do()
+        stack().append(action)
+        if isinstance(ret, tuple):
+            if len(ret) == 1:
+                return ret[0]
+            elif len(ret) == 0:
+                return None
+        return ret
+    return inner
+
+
+class _Group:
+    ''' A undoable group context manager. '''
+
+    def __init__(self, desc):
+        self._desc = desc
+        self._stack = []
+
+    def __enter__(self):
+        self._outer_receiver = stack()._receiver
+        stack().setreceiver(self._stack)
+
+    def __exit__(self, exc_type, exc_val, exc_tb):
+        # Hand recording back to the enclosing scope even if the body failed,
+        # actions already done stay undoable as a (partial) group.
+        stack()._receiver = self._outer_receiver
+        stack().append(self)
+        return False
+
+    def undo(self):
+        for undoable in reversed(self._stack):
+            undoable.undo()
+
+    def do(self):
+        for undoable in self._stack:
+            undoable.do()
+
+    def text(self):
+        return self._desc.format(count=len(self._stack))
+
+
+def group(desc):
+    ''' Return a context manager for grouping undoable actions. 
+    
+    All actions which occur within the group will be undone by a single call
+    of `stack.undo`, e.g.
+    
+    >>> @undoable
+    ... def operation(n):
+    ...     yield
+    ...     print(n)
+    >>> with group('text'):
+    ...     for n in range(3):
+    ...         operation(n)
+    >>> operation(3)
+    >>> stack().undo()
+    3
+    >>> stack().undo()
+    2
+    1
+    0
+    '''
+    return _Group(desc)
+
+
+class Stack:
+    ''' The main undo stack. 
+        
+    The two key features are the :func:`redo` and :func:`undo` methods. If an 
+    exception occurs during doing or undoing a undoable, the undoable
+    aborts and the stack is cleared to avoid any further data corruption. 
+    
+    The stack provides two properties for tracking actions: *docallback* 
+    and *undocallback*. Each of these allow a callback function to be set
+    which is called when an action is done or undone repectively. By default, 
+    they do nothing.
+    
+    >>> def done():
+    ...     print('Can now undo: {}'.format(stack().undotext()))
+    >>> def undone():
+    ...     print('Can now redo: {}'.format(stack().redotext()))
+    >>> stack().docallback = done
+    >>> stack().undocallback = undone
+    >>> @undoable
+    ... def action():
+    ...     yield 'An action'
+    >>> action()
+    Can now undo: Undo An action
+    >>> stack().undo()
+    Can now redo: Redo An action
+    >>> stack().redo()
+    Can now undo: Undo An action
+    
+    Setting them back to ``lambda: None`` will stop any further actions.
+    
+    >>> stack().docallback = stack().undocallback = lambda: None
+    >>> action()
+    >>> stack().undo()
+    
+    It is possible to mark a point in the undo history when the document
+    handled is saved. This allows the undo system to report whether a 
+    document has changed. The point is marked using :func:`savepoint` and
+    :func:`haschanged` returns whether or not the state has changed (either
+    by doing or undoing an action). Only one savepoint can be tracked,
+    marking a new one removes the old one.
+    
+    >>> stack().savepoint()
+    >>> stack().haschanged()
+    False
+    >>> action()
+    >>> stack().haschanged()
+    True
+    '''
+
+    def __init__(self):
+        self._undos = deque()
+        self._redos = deque()
+        self._receiver = self._undos
+        self._savepoint = None
+        self.undocallback = lambda: None
+        self.docallback = lambda: None
+
+    def canundo(self):
+        ''' Return *True* if undos are available '''
+        return len(self._undos) > 0
+
+    def canredo(self):
+        ''' Return *True* if redos are available '''
+        return len(self._redos) > 0
+
+    def redo(self):
+        ''' Redo the last undone action. 
+        
+        This is only possible if no other actions have occurred since the 
+        last undo call.
+        '''
+        if self.canredo():
+            undoable = self._redos.pop()
+            with self._pausereceiver():
+                try:
+                    undoable.do()
+                except:
+                    self.clear()
+                    raise
+                else:
+                    self._undos.append(undoable)
+            self.docallback()
+
+    def undo(self):
+        ''' Undo the last action. '''
+        if self.canundo():
+            undoable = self._undos.pop()
+            with self._pausereceiver():
+                try:
+                    undoable.undo()
+                except:
+                    self.clear()
+                    raise
+                else:
+                    self._redos.append(undoable)
+            self.undocallback()
+
+    def clear(self):
+        ''' Clear the undo list. '''
+        self._undos.clear()
+        self._redos.clear()
+        self._savepoint = None
+        self._receiver = self._undos
+
+    def undocount(self):
+        ''' Return the number of undos available. '''
+        return len(self._undos)
+
+    def redocount(self):
+        ''' Return the number of redos available. '''
+        return len(self._undos)
+
+    def undotext(self):
+        ''' Return a description of the next available undo. '''
+        if self.canundo():
+            return ('Undo ' + self._undos[-1].text()).strip()
+
+    def redotext(self):
+        ''' Return a description of the next available redo. '''
+        if self.canredo():
+            return ('Redo ' + self._redos[-1].text()).strip()
+
+    @contextlib.contextmanager
+    def _pausereceiver(self):
+        ''' Return a contect manager which temporarily pauses the receiver. '''
+        self.setreceiver([])
+        yield
+        self.resetreceiver()
+
+    def setreceiver(self, receiver=None):
+        ''' Set an object to receiver commands pushed onto the stack.
+        
+        By default it is the internal stack, but it can be set (usually
+        internally) to any object with an *append()* method.
+        '''
+        assert hasattr(receiver, 'append')
+        self._receiver = receiver
+
+    def resetreceiver(self):
+        ''' Reset the receiver to the internal stack.'''
+        self._receiver = self._undos
+
+    def append(self, action):
+        ''' Add a undoable to the stack, using ``receiver.append()``. '''
+        if self._receiver is not None:
+            self._receiver.append(action)
+        if self._receiver is self._undos:
+            self._redos.clear()
+            self.docallback()
+
+    def savepoint(self):
+        ''' Set the savepoint. '''
+        self._savepoint = self.undocount()
+
+    def haschanged(self):
+        ''' Return *True* if the state has changed since the savepoint. 
+        
+        This will always return *True* if the savepoint has not been set.
+        '''
+        return self._savepoint is None or self._savepoint != self.undocount()
+
+
+_stack = None
+
+def stack():
+    ''' Return the currently used stack.
+    
+    If no stack has been set, a new one is created and set.
+    '''
+    global _stack
+    if _stack is None:
+        _stack = Stack()
+    return _stack
+
+def setstack(stack):
+    ''' Set the undo stack to a specific `Stack` object.'''
+    global _stack
+    _stack = stack
-- 
2.43.0


From d2fe96495b3eba42786d07780d90cd77f11ba534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:04 +0000
Subject: [PATCH 02/57] fix: redocount returns number of redos

---
 src/bgem/undo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/undo.py b/src/bgem/undo.py
index 958444b..372a8ee 100644
--- a/src/bgem/undo.py
+++ b/src/bgem/undo.py
@@ -257,7 +257,7 @@ class Stack:
 
     def redocount(self):
         ''' Return the number of redos available. '''
-        return len(self._undos)
+        return len(self._redos)
 
     def undotext(self):
         ''' Return a description of the next available undo. '''
-- 
2.43.0


From daa12a5f4b258b74e9a65d576e3d2c2c267ede0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:04 +0000
Subject: [PATCH 03/57] fix: undo and redo restore the receiver active before

---
 src/bgem/undo.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bgem/undo.py b/src/bgem/undo.py
index 372a8ee..94f4c8d 100644
--- a/src/bgem/undo.py
+++ b/src/bgem/undo.py
@@ -272,9 +272,12 @@ class Stack:
     @contextlib.contextmanager
     def _pausereceiver(self):
         ''' Return a contect manager which temporarily pauses the receiver. '''
+        receiver = self._receiver
         self.setreceiver([])
-        yield
-        self.resetreceiver()
+        try:
+            yield
+        finally:
+            self._receiver = receiver
 
     def setreceiver(self, receiver=None):
         ''' Set an object to receiver commands pushed onto the stack.
-- 
2.43.0


From 1968e8a124d9f640a5a902866e69c56ba97a9e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:04 +0000
Subject: [PATCH 04/57] fix: savepoint in discarded redo history is forgotten

---
 src/bgem/undo.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bgem/undo.py b/src/bgem/undo.py
index 94f4c8d..dd08289 100644
--- a/src/bgem/undo.py
+++ b/src/bgem/undo.py
@@ -297,6 +297,9 @@ class Stack:
         if self._receiver is not None:
             self._receiver.append(action)
         if self._receiver is self._undos:
+            if self._savepoint is not None and self._savepoint >= len(self._undos):
+                # The saved state was in the discarded redo history.
+                self._savepoint = None
             self._redos.clear()
             self.docallback()
 
-- 
2.43.0


From 9c22b8571685e8e8620d4b65e92880e62a27ab64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:04 +0000
Subject: [PATCH 05/57] fix: undo of adding an existing segment does not remove
 it

---
 src/bgem/polygons/polygons.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index 79ae31a..148d615 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -635,11 +635,14 @@ class PolygonDecomposition:
     def _add_segment(self, a_pt, b_pt):
         a_pt = self.points[a_pt.id]
         b_pt = self.points[b_pt.id]
+        n_segments = len(self.segments)
         seg = self.decomp.new_segment(a_pt, b_pt)
+        is_new = len(self.segments) > n_segments
         self.segments_lookup.add_object(seg.id, aabb_lookup.make_aabb([a_pt.xy, b_pt.xy], margin=self.tolerance))
         yield "Add segment", seg
 
-        self._rm_segment(seg)
+        if is_new:
+            self._rm_segment(seg)
 
     @undo.undoable
     def _rm_point(self, pt):
-- 
2.43.0


From 5c057468880041e417ddc591f4ad80f83f5d6864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:04 +0000
Subject: [PATCH 06/57] fix: undo of removing a point or segment restores its
 attribute

---
 src/bgem/polygons/polygons.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index 148d615..4bd9e55 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -651,7 +651,8 @@ class PolygonDecomposition:
         self.decomp.remove_free_point(pt)
         yield "Remove point"
 
-        self._add_point(pt.xy, pt.poly)
+        new_pt = self._add_point(pt.xy, pt.poly)
+        new_pt.attr = pt.attr
 
     @undo.undoable
     def _rm_segment(self, seg):
@@ -660,7 +661,8 @@ class PolygonDecomposition:
         self.decomp.delete_segment(seg)
         yield "Remove segment"
 
-        self._add_segment(seg.vtxs[0], seg.vtxs[1])
+        new_seg = self._add_segment(seg.vtxs[0], seg.vtxs[1])
+        new_seg.attr = seg.attr
 
     @undo.undoable
     def _split_segment(self, seg, mid_pt):
-- 
2.43.0


From 035b6ce9029d25b4e5e19df4c2140b9d5290df3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:04 +0000
Subject: [PATCH 07/57] fix: merge_points does not change vertices of the
 removed segment

---
 src/bgem/polygons/polygons.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index 4bd9e55..0c22f1b 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -520,7 +520,7 @@ class PolygonDecomposition:
         if b_can_move:
             #a.move(a_diff)
             for seg, b_idx in list(b.segments()):
-                seg_vtxs = seg.vtxs
+                seg_vtxs = list(seg.vtxs)
                 self._rm_segment(seg)
                 seg_vtxs[b_idx] = a
                 self._add_segment(*seg_vtxs)
-- 
2.43.0


From f28eef30a0a1c350438b83adaa4f894f0fe83a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:04 +0000
Subject: [PATCH 08/57] fix: move_points updates the AABB lookups

---
 src/bgem/polygons/polygons.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index 0c22f1b..40cd11c 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -253,6 +253,11 @@ class PolygonDecomposition:
         """
         for pt in points:
             pt.move(displacement)
+            self.points_lookup.add_object(pt.id, aabb_lookup.make_aabb([pt.xy], margin=self.tolerance))
+            for seg, side in pt.segments():
+                self.segments_lookup.add_object(seg.id,
+                                                aabb_lookup.make_aabb([seg.vtxs[0].xy, seg.vtxs[1].xy],
+                                                                      margin=self.tolerance))
 
 
     def get_last_polygon_changes(self):
-- 
2.43.0


From 05b6d35ae7940eb35b04400666966d370ae26b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:04 +0000
Subject: [PATCH 09/57] fix: joined segment is updated in the AABB lookup

---
 src/bgem/polygons/polygons.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index 40cd11c..e02928c 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -688,6 +688,9 @@ class PolygonDecomposition:
         seg1 = self.segments[seg1.id]
         self.segments_lookup.rm_object(seg1.id)
         self.decomp.join_segments(mid_pt, seg0, seg1)
+        self.segments_lookup.add_object(seg0.id,
+                                        aabb_lookup.make_aabb([seg0.vtxs[0].xy, seg0.vtxs[1].xy],
+                                                              margin=self.tolerance))
         yield "Join segments", mid_pt
 
         self._split_segment(seg0, mid_pt)
-- 
2.43.0


From 09e0970c513867509003eb3d5a26127bfc92b817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:04 +0000
Subject: [PATCH 10/57] fix: join_segments updates the cached segment vector

---
 src/bgem/polygons/decomp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bgem/polygons/decomp.py b/src/bgem/polygons/decomp.py
index 4562395..fb28ff3 100644
--- a/src/bgem/polygons/decomp.py
+++ b/src/bgem/polygons/decomp.py
@@ -320,6 +320,7 @@ class Decomposition:
         seg0.next[seg_side_next] = (seg0, seg_side_prev)
 
         seg0.vtxs[seg0_in_vtx] = seg1.vtxs[seg1_in_vtx]
+        seg0.update_vector()
         if b_seg1_insert is None:
             assert seg0.is_dendrite()
             seg0.connect_free_vtx(seg0_in_vtx, seg0.wire[out_vtx])
-- 
2.43.0


From 641a2aab98254af8d23c1f0f0e67d06becb43dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:04 +0000
Subject: [PATCH 11/57] fix: closest_candidates does not return unused or
 removed ids

---
 src/bgem/polygons/aabb_lookup.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bgem/polygons/aabb_lookup.py b/src/bgem/polygons/aabb_lookup.py
index ea788f6..a9cc641 100644
--- a/src/bgem/polygons/aabb_lookup.py
+++ b/src/bgem/polygons/aabb_lookup.py
@@ -74,7 +74,10 @@ class AABB_Lookup:
         boxes = self.boxes[:self.n_boxes, :]
         if boxes.shape[0] == 0 :
             return []
-        inf_dists = np.max(np.maximum(self.boxes[:, 0:2] - point, point - self.boxes[:, 2:4]), axis=1)
+        inf_dists = np.max(np.maximum(boxes[:, 0:2] - point, point - boxes[:, 2:4]), axis=1)
+        if np.amin(inf_dists) > 0.5 * self.inf:
+            # only removed objects
+            return []
         if np.amin(inf_dists) > 0.0:
             # closest box not containing the point
             i_closest = np.argmin(inf_dists)
-- 
2.43.0


From 3eda95bd595cb12c1492f21e54fa6e4a8941c8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:04 +0000
Subject: [PATCH 12/57] fix: intersect_single restores the tolerance also after
 an exception

---
 src/bgem/polygons/merge.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/bgem/polygons/merge.py b/src/bgem/polygons/merge.py
index 944a682..e462164 100644
--- a/src/bgem/polygons/merge.py
+++ b/src/bgem/polygons/merge.py
@@ -68,7 +68,16 @@ def intersect_single(decomp, other, merge_tol = 1e-10):
     """
     save_tol = decomp.tolerance
     decomp.tolerance = merge_tol
+    try:
+        return _intersect_single(decomp, other)
+    finally:
+        decomp.tolerance = save_tol
 
+
+def _intersect_single(decomp, other):
+    """
+    Implementation of intersect_single, tolerance of 'decomp' is already set.
+    """
     maps_self = [ {}, {}, {}]
     maps_other = [ {}, {}, {}]
     # for dim in range(3):
@@ -147,7 +156,6 @@ def intersect_single(decomp, other, merge_tol = 1e-10):
     #     assert maps_self[2][p.id] is not None
 
     # assert decomp.check_consistency()
-    decomp.tolerance = save_tol
     return (decomp, maps_self, maps_other)
 
 
-- 
2.43.0


From 8b3f8133fd28e1857af1b16e0e71c18880a5a4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:04 +0000
Subject: [PATCH 13/57] fix: plotting import in the failure path of _snap_point

---
 src/bgem/polygons/polygons.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index e02928c..fefec1b 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -438,7 +438,7 @@ class PolygonDecomposition:
             prev, next, wire = pt.insert_vector(point - pt.xy)
             poly = wire.polygon
         if not poly.contains_point(point):
-            import geomop.plot_polygons as pp
+            from . import plot_polygons as pp
             border = [seg.vtxs[vidx] for seg, vidx in poly.outer_wire.segments()]
             pp.plot_polygon_decomposition(self, border)
             assert False
-- 
2.43.0


From 37f32a3eeb1e84e7621cfbb71f9a909aafb78220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:04 +0000
Subject: [PATCH 14/57] fix: Approx.plane does not modify the list of the
 caller

---
 src/bgem/bspline/brep_writer.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/bgem/bspline/brep_writer.py b/src/bgem/bspline/brep_writer.py
index 7deb770..df00e39 100644
--- a/src/bgem/bspline/brep_writer.py
+++ b/src/bgem/bspline/brep_writer.py
@@ -375,7 +375,6 @@ class Approx:
         :return: ( Surface, vtxs_uv )
         """
         assert len(vtxs) == 3, "n vtx: {}".format(len(vtxs))
-        vtxs.append( (0,0,0) )
         vtxs = np.array(vtxs)
         vv = vtxs[1] + vtxs[2] - vtxs[0]
         vtx4 = [ vtxs[0], vtxs[1], vv, vtxs[2]]
-- 
2.43.0


From 122442e62f2afbf3b0bdfaeed3f9fd089de5e685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:04 +0000
Subject: [PATCH 15/57] fix: rational curves and surfaces use their own copy of
 poles

---
 src/bgem/bspline/bspline.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index 89a67be..1f167f9 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -381,8 +381,8 @@ class Curve:
 
         if rational:
             # precomputations
-            self._weights = poles[:, self.dim]
-            self._poles = (poles[:, 0:self.dim].T * self._weights ).T
+            self._weights = self.poles[:, self.dim]
+            self._poles = (self.poles[:, 0:self.dim].T * self._weights ).T
 
         # BIH tree
         self._boxes = None
@@ -513,8 +513,8 @@ class Surface:
         # Rational surface indicator.
         if rational:
             # precomputations
-            self._weights = poles[:, :, self.dim]
-            self._poles = (poles[:, :, 0:self.dim].T * self._weights.T ).T
+            self._weights = self.poles[:, :, self.dim]
+            self._poles = (self.poles[:, :, 0:self.dim].T * self._weights.T ).T
 
     @property
     def u_basis(self):
-- 
2.43.0


From 7694e628fad4784b16865fdfa2e8e7868d6147a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:04 +0000
Subject: [PATCH 16/57] fix: Surface.deep_copy keeps the rational flag

---
 src/bgem/bspline/bspline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index 1f167f9..7f0ae42 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -568,7 +568,7 @@ class Surface:
         u_basis = copy.copy(self.u_basis)
         v_basis = copy.copy(self.v_basis)
         poles = copy.copy(self.poles)
-        return Surface( ( u_basis, v_basis), poles)
+        return Surface( ( u_basis, v_basis), poles, self.rational)
 
     def eval_array(self, uv_points):
         """
-- 
2.43.0


From 8fda166e1d5b29a7d5cbdec6ca73669a00531e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:04 +0000
Subject: [PATCH 17/57] fix: Z_Surface copy uses its own XY transform

---
 src/bgem/bspline/bspline.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index 7f0ae42..40d4173 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -737,12 +737,19 @@ class Z_Surface:
             self._mat_uv_to_xy = np.column_stack((u_vec, v_vec))
             self._mat_xy_to_uv = la.inv(self._mat_uv_to_xy)
 
-            self.xy_to_uv = self._linear_xy_to_uv
-            self.uv_to_xy = self._linear_uv_to_xy
+            self._set_xy_map(linear=True)
 
         else:
             # bilinear case
             self.quad = xy_quad
+            self._set_xy_map(linear=False)
+
+    def _set_xy_map(self, linear):
+        self._linear_xy_map = linear
+        if linear:
+            self.xy_to_uv = self._linear_xy_to_uv
+            self.uv_to_xy = self._linear_uv_to_xy
+        else:
             self.xy_to_uv = self._bilinear_xy_to_uv
             self.uv_to_xy = self._bilinear_uv_to_xy
 
@@ -810,7 +817,12 @@ class Z_Surface:
         bs.Surface for Z coordinates (Z poles).
         :return: A copy of the Z_Surface object.
         """
-        return copy.copy(self)
+        surf = copy.copy(self)
+        # rebind XY map to the copy
+        surf._set_xy_map(self._linear_xy_map)
+        surf.z_mat = self.z_mat.copy()
+        surf._z_mat = self._z_mat.copy()
+        return surf
 
 
     """
-- 
2.43.0


From 021349088d81042d151b51adf76daf14b26e5243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:04 +0000
Subject: [PATCH 18/57] fix: Z_Surface.eval returns flat point

---
 src/bgem/bspline/bspline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index 40d4173..84a7775 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -873,7 +873,7 @@ class Z_Surface:
         z = self._z_mat[0] * z + self._z_mat[1]
         uv_points = np.array([[u, v]])
         x, y = self.uv_to_xy( uv_points )[0]
-        return np.array( [x, y, z] )
+        return np.array( [x, y, z[0]] )
 
 
     def eval_array(self, uv_points):
-- 
2.43.0


From 34028ce283d2379e5f1f82355a61d1ab4633cc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:04 +0000
Subject: [PATCH 19/57] fix: apply_z_transform resets also the transform
 reported by get_transform

---
 src/bgem/bspline/bspline.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index 84a7775..44caf09 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -807,8 +807,7 @@ class Z_Surface:
             self.z_surface = self.z_surface.deep_copy()
             self.z_surface.poles *= self._z_mat[0]
             self.z_surface.poles += self._z_mat[1]
-            self._z_mat = np.array([1.0, 0.0])
-            self._have_z_mat = False
+            self._reset_transform_z()
 
 
     def get_copy(self):
-- 
2.43.0


From 5590f9922cd456765de227a95475e79a55301cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:04 +0000
Subject: [PATCH 20/57] fix: GridSurface.z_eval_array applies the same Z
 transform as eval_array

---
 src/bgem/bspline/bspline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index 44caf09..05b557d 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -1167,7 +1167,7 @@ class GridSurface:
             u_loc = np.array([1 - uv_loc[0], uv_loc[0]])
             v_loc = np.array([1 - uv_loc[1], uv_loc[1]])
             Z_mat = self.grid_uvz[iu: (iu + 2), iv: (iv + 2), 2]
-            result[i] = self.z_surface.z_mat[0]*(u_loc.dot(Z_mat).dot(v_loc)) + self.z_surface.z_mat[1]
+            result[i] = self.z_surface._z_mat[0]*(u_loc.dot(Z_mat).dot(v_loc)) + self.z_surface._z_mat[1]
         return result
 
 
-- 
2.43.0


From 765e99156f8eeb4e0ce1ff59b0b649c3688ce62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:04 +0000
Subject: [PATCH 21/57] fix: Z_Surface.aabb for negative Z scale

---
 src/bgem/bspline/bspline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index 05b557d..62b252c 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -937,7 +937,7 @@ class Z_Surface:
         xyz_box = np.empty( (2, 3) )
         xyz_box[0, 0:2] = np.amin(self.quad, axis=0)
         xyz_box[1, 0:2] = np.amax(self.quad, axis=0)
-        xyz_box[:, 2] = self._z_mat[0] * self.z_surface.aabb()[:, 0] + self._z_mat[1]
+        xyz_box[:, 2] = np.sort(self._z_mat[0] * self.z_surface.aabb()[:, 0] + self._z_mat[1])
         return xyz_box
 
 
-- 
2.43.0


From 8dc849eb24f3ecd419e5d4b5b8116428aa5a877d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:04 +0000
Subject: [PATCH 22/57] fix: weighted surface approximation

---
 src/bgem/bspline/bspline_approx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bgem/bspline/bspline_approx.py b/src/bgem/bspline/bspline_approx.py
index 4843f28..a55b7af 100644
--- a/src/bgem/bspline/bspline_approx.py
+++ b/src/bgem/bspline/bspline_approx.py
@@ -431,8 +431,8 @@ class SurfaceApprox:
         g_vec = self._z_quad_points[:]
         if self._weights is not None:
             W = scipy.sparse.diags(self._w_quad_points, 0)
-            wg_vec = np.dot(W, g_vec)
-            wb_mat = np.dot(W, b_mat)
+            wg_vec = W.dot(g_vec)
+            wb_mat = W.dot(b_mat)
         else:
             wg_vec = g_vec
             wb_mat = b_mat
-- 
2.43.0


From 88e805d870cc05f41d2244b78cbaba4979a0eb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:04 +0000
Subject: [PATCH 23/57] fix: approximation error is the maximum of absolute
 differences

---
 src/bgem/bspline/bspline_approx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline_approx.py b/src/bgem/bspline/bspline_approx.py
index a55b7af..d271cb8 100644
--- a/src/bgem/bspline/bspline_approx.py
+++ b/src/bgem/bspline/bspline_approx.py
@@ -461,7 +461,7 @@ class SurfaceApprox:
         logging.info('Computing error ...')
         start_time = time.time()
         diff = b_mat.dot(z_vec) - g_vec
-        self.error = max_diff = np.max(diff)
+        self.error = max_diff = np.max(np.abs(diff))
         logging.info("Approximation error (max norm): {}".format(max_diff) )
         end_time = time.time()
         logging.info('Computed in: {} s'.format(end_time - start_time))
-- 
2.43.0


From d4d4544f68e6f32e85ea44b1c984315e7b3a46ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:04 +0000
Subject: [PATCH 24/57] fix: line and surface overhang for integer vertices

---
 src/bgem/bspline/bspline_approx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bgem/bspline/bspline_approx.py b/src/bgem/bspline/bspline_approx.py
index d271cb8..f049f5a 100644
--- a/src/bgem/bspline/bspline_approx.py
+++ b/src/bgem/bspline/bspline_approx.py
@@ -47,7 +47,7 @@ def bilinear_surface(vtxs, overhang=0.0):
     :return: ( Surface, vtxs_uv )
     """
     assert len(vtxs) == 4, "n vtx: {}".format(len(vtxs))
-    vtxs = np.array(vtxs)
+    vtxs = np.array(vtxs, dtype=float)
     if overhang > 0.0:
         dv = np.roll(vtxs, -1, axis=0) - vtxs
         dv *= overhang
@@ -78,7 +78,7 @@ def line(vtxs, overhang = 0.0):
     :return: Curve2D
     '''
     assert len(vtxs) == 2
-    vtxs = np.array(vtxs)
+    vtxs = np.array(vtxs, dtype=float)
     if overhang > 0.0:
         dv = overhang*(vtxs[1] - vtxs[0])
         vtxs[0] -= dv
-- 
2.43.0


From 4a681124fcb448355d0321329f22c26839700fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:04 +0000
Subject: [PATCH 25/57] fix: threshold field uses its upper bound

---
 src/bgem/gmsh/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/field.py b/src/bgem/gmsh/field.py
index 8b17524..a7a9341 100644
--- a/src/bgem/gmsh/field.py
+++ b/src/bgem/gmsh/field.py
@@ -61,7 +61,7 @@ def threshold(field, lower_bound, upper_bound=None, sigmoid=False) -> Field:
     gmsh_field.setNumber(id, "DistMin", field_min)
     gmsh_field.setNumber(id, "LcMin", threshold_min)
     if upper_bound:
-        field_max, threshold_max = lower_bound
+        field_max, threshold_max = upper_bound
         gmsh_field.setNumber(id, "DistMax", field_max)
         gmsh_field.setNumber(id, "LcMax", threshold_max)
     else:
-- 
2.43.0


From 653b229a5e73b6104334a43cfd40ebf120340c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:04 +0000
Subject: [PATCH 26/57] fix: rectangle does not modify the list of sides

---
 src/bgem/gmsh/gmsh.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index e0df451..a5cdfad 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -259,8 +259,7 @@ class GeometryOCC:
         return self.object(dim, res)
 
     def rectangle(self, xy_sides=[1, 1], center=[0, 0, 0]):
-        xy_sides.append(0)
-        corner = np.array(center) - np.array(xy_sides) / 2
+        corner = np.array(center) - np.array([xy_sides[0], xy_sides[1], 0]) / 2
         rec_tag = self.model.addRectangle(*corner.tolist(), *xy_sides[0:2])
         self._need_synchronize = True
         return self.object(2, rec_tag)
-- 
2.43.0


From 23183a8e00f1d8901a14c4411a1bb20bdfbf2de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:04 +0000
Subject: [PATCH 27/57] fix: make_polygon marks the model for synchronization

---
 src/bgem/gmsh/gmsh.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index a5cdfad..0d2c09a 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -295,6 +295,7 @@ class GeometryOCC:
         lines = [self.model.addLine(a, b) for a,b in zip(vertices[0:-1], vertices[1:])]
         loop = self.model.addCurveLoop(lines, tag=-1)
         surface = self.model.addPlaneSurface([loop], tag=-1)
+        self._need_synchronize = True
         return self.object(2, surface)
 
 
-- 
2.43.0


From 841baa073afbb16313cfac2b0e5588e6817f58be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:04 +0000
Subject: [PATCH 28/57] fix: keep_only marks the model for synchronization

---
 src/bgem/gmsh/gmsh.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index 0d2c09a..cb23e1d 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -465,6 +465,7 @@ class GeometryOCC:
             group_dimtags = []
         all_dimtags = set(gmsh.model.getEntities())
         remove_dimtags = all_dimtags.difference(set(group_dimtags))
+        self._need_synchronize = True
         try:
             self.model.remove(list(remove_dimtags), recursive=False)
         except ValueError:
-- 
2.43.0


From c5cbd07371c284fea082a02a05acc149935cc3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:04 +0000
Subject: [PATCH 29/57] fix: element data are read under integer element ids

---
 src/bgem/gmsh/gmsh_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/gmsh_io.py b/src/bgem/gmsh/gmsh_io.py
index 4b42ed4..54c26a6 100644
--- a/src/bgem/gmsh/gmsh_io.py
+++ b/src/bgem/gmsh/gmsh_io.py
@@ -80,7 +80,7 @@ class GmshIO:
             if line.startswith('$'):
                 raise Exception("Insufficient number of entries in the $ElementData block: {} time={}".format(field, time))
             columns = line.split()
-            iel = columns[0]
+            iel = int(columns[0])
             values = [float(v) for v in columns[1:]]
             assert len(values) == n_comp
             elem_data[iel] = values
-- 
2.43.0


From c43a18bc97983297859713e320ccd3dcbba8a4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:04 +0000
Subject: [PATCH 30/57] fix: elements with few tags are read

---
 src/bgem/gmsh/gmsh_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/gmsh_io.py b/src/bgem/gmsh/gmsh_io.py
index 54c26a6..50d7180 100644
--- a/src/bgem/gmsh/gmsh_io.py
+++ b/src/bgem/gmsh/gmsh_io.py
@@ -147,7 +147,7 @@ class GmshIO:
                     except ValueError as e:
                         print('Node format error: ' + line, e)
                         readmode = 0
-                elif ftype == 0 and (readmode == 2 or readmode == 3) and len(columns) > 5:
+                elif ftype == 0 and (readmode == 2 or readmode == 3) and len(columns) > 3:
                     # Version 1.0 or 2.0 Elements
                     try:
                         columns = [int(col) for col in columns]
-- 
2.43.0


From 3427614b44bb52ace0a95ec9a2d69de0c1a58db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:04 +0000
Subject: [PATCH 31/57] fix: physical names with spaces are read

---
 src/bgem/gmsh/gmsh_io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bgem/gmsh/gmsh_io.py b/src/bgem/gmsh/gmsh_io.py
index 50d7180..e4d6604 100644
--- a/src/bgem/gmsh/gmsh_io.py
+++ b/src/bgem/gmsh/gmsh_io.py
@@ -121,6 +121,8 @@ class GmshIO:
             elif readmode:
                 columns = line.split()
                 if readmode == 5:
+                    # physical name can contain spaces
+                    columns = line.split(None, 2)
                     if len(columns) == 3:
                         self.physical[str(columns[2])] = (int(columns[1]), int(columns[0]))
 
-- 
2.43.0


From f1e3f43a5975013b1215b7f4b295ab00f89d017d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:04 +0000
Subject: [PATCH 32/57] fix: write_fields to the current mesh file

---
 src/bgem/gmsh/gmsh_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/gmsh_io.py b/src/bgem/gmsh/gmsh_io.py
index e4d6604..06a382a 100644
--- a/src/bgem/gmsh/gmsh_io.py
+++ b/src/bgem/gmsh/gmsh_io.py
@@ -301,7 +301,7 @@ class GmshIO:
         :param fields: {'field_name' : values_array, ..}
         """
         if not msh_file:
-            msh_file = open(self.filename, 'w')
+            msh_file = self.filename
         with open(msh_file, "w") as fout:
             fout.write('$MeshFormat\n2.2 0 8\n$EndMeshFormat\n')
             for name, values in fields.items():
-- 
2.43.0


From 073906d150a02a7c1b481d94a45e65e3b280bd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:04 +0000
Subject: [PATCH 33/57] fix: write_element_data for scalar values

---
 src/bgem/gmsh/gmsh_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/gmsh_io.py b/src/bgem/gmsh/gmsh_io.py
index 06a382a..4faa701 100644
--- a/src/bgem/gmsh/gmsh_io.py
+++ b/src/bgem/gmsh/gmsh_io.py
@@ -266,7 +266,7 @@ class GmshIO:
         """
         n_els = values.shape[0]
         n_comp = np.atleast_1d(values[0]).shape[0]
-        np.reshape(values, (n_els, n_comp))
+        values = np.reshape(values, (n_els, n_comp))
         header_dict = dict(
             field=str(name),
             time=0,
-- 
2.43.0


From afdc4fd0b2caec446b8eaaf542599e814f55b990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:04 +0000
Subject: [PATCH 34/57] fix: message of unsupported option value

---
 src/bgem/gmsh/options.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/options.py b/src/bgem/gmsh/options.py
index aadfdca..cec0d97 100644
--- a/src/bgem/gmsh/options.py
+++ b/src/bgem/gmsh/options.py
@@ -124,7 +124,7 @@ class OptionsBase:
             assert option_type is str
             gmsh.option.setString(full_name, value)
         else:
-            raise ValueError("Unsupported value type {} for GMSH option type.")
+            raise ValueError("Unsupported value type {} for GMSH option type.".format(type(value)))
 
 
 class Mesh(OptionsBase):
-- 
2.43.0


From 2715faa376fa942f7969990e423430190c6c3b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:04 +0000
Subject: [PATCH 35/57] fix: node tolerance is relative to the mesh diameter

---
 src/bgem/gmsh/heal_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/heal_mesh.py b/src/bgem/gmsh/heal_mesh.py
index 67911e1..5ccfb72 100644
--- a/src/bgem/gmsh/heal_mesh.py
+++ b/src/bgem/gmsh/heal_mesh.py
@@ -229,7 +229,7 @@ class HealMesh:
         self.modified_elements = set()
         aabb_min = np.full(3, +np.inf)
         aabb_max = np.full(3, -np.inf)
-        for n in self.mesh.nodes:
+        for n in self.mesh.nodes.values():
             aabb_max = np.maximum(aabb_max, n)
             aabb_min = np.minimum(aabb_min, n)
         diam = np.max(aabb_max - aabb_min)
-- 
2.43.0


From e4980f4646795a74a391b1e28f7a935e6144cb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:04 +0000
Subject: [PATCH 36/57] fix: faces of edges in the tetrahedron quality
 indicator

---
 src/bgem/gmsh/heal_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/heal_mesh.py b/src/bgem/gmsh/heal_mesh.py
index 5ccfb72..217b2a3 100644
--- a/src/bgem/gmsh/heal_mesh.py
+++ b/src/bgem/gmsh/heal_mesh.py
@@ -86,7 +86,7 @@ class Tetrahedron(ShapeBase):
     def smooth_grad_error_indicator(self):
         faces = self.face_areas
         e_lens = self.edge_lens
-        e_faces = [[0, 1], [0, 2], [1, 2], [0, 3], [1, 3], [2, 3]] # faces joining the edge
+        e_faces = [[0, 1], [0, 2], [1, 2], [2, 3], [1, 3], [0, 3]] # faces joining the edge
         sum_pairs = max(1e-300, np.sum([faces[i] * faces[j] * elen ** 2 for (i,j),elen in zip(e_faces, e_lens)]))
         regular = (2.0 * np.sqrt(2.0 / 3.0) / 9.0)
         quality = np.abs(self.measure) * (np.sum(faces) / sum_pairs) ** (3.0/4.0) / regular
-- 
2.43.0


From 2e553d4b9227d13c14a5375b5d91256bbd2c1f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:40 +0000
Subject: [PATCH 37/57] fix: keep the original line endings of undo.py

---
 src/bgem/undo.py | 666 +++++++++++++++++++++++------------------------
 1 file changed, 333 insertions(+), 333 deletions(-)

diff --git a/src/bgem/undo.py b/src/bgem/undo.py
index dd08289..eb85f3d 100644
--- a/src/bgem/undo.py
+++ b/src/bgem/undo.py
@@ -1,333 +1,333 @@
-#!/usr/bin/env python3
-# -*- coding: utf-8 -*-
-#
-# Copyright (c) 2011 David Townshend
-#
-# This program is free software; you can redistribute it and/or modify it
-# under the terms of the GNU General Public License as published by the
-# Free Software Foundation; either version 2 of the License, or (at your
-# option) any later version.
-#
-# This program is distributed in the hope that it will be useful, but
-# WITHOUT ANY WARRANTY; without even the implied warranty of MERCHANTABILITY
-# or FITNESS FOR A PARTICULAR PURPOSE.  See the GNU General Public License
-# for more details.
-#
-# You should have received a copy of the GNU General Public License along
-# with this program; if not, write to the Free Software Foundation, Inc.,
-# 675 Mass Ave, Cambridge, MA 02139, USA.
-
-__version__ = '0.5.1'
-__author__ = 'David Townshend'
-
-__all__ = ['undoable', 'group', 'Stack', 'stack', 'setstack']
-
-import contextlib
-
-from collections import deque
-
-class _Action:
-    ''' This represents an action which can be done and undone.
-    
-    It is the result of a call on an undoable function and has
-    three methods: ``do()``, ``undo()`` and ``text()``.  The first value
-    returned by the internal call in ``do()`` is the value which will 
-    subsequently be returned by ``text``.  Any remaining values are 
-    returned by ``do()``.
-    '''
-    def __init__(self, generator, args, kwargs):
-        self._generator = generator
-        self.args = args
-        self.kwargs = kwargs
-        self._text = ''
-
-    def do(self):
-        'Do or redo the action'
-        self._runner = self._generator(*self.args, **self.kwargs)
-        rets = next(self._runner)
-        if isinstance(rets, tuple):
-            self._text = rets[0]
-            return rets[1:]
-        elif rets is None:
-            self._text = ''
-            return None
-        else:
-            self._text = rets
-            return None
-
-    def undo(self):
-        'Undo the action'
-        try:
-            next(self._runner)
-        except StopIteration:
-            pass
-        # Delete it so that its not accidentally called again
-        del self._runner
-
-    def text(self):
-        'Return the descriptive text of the action'
-        return self._text
-
-
-def undoable(generator):
-    ''' Decorator which creates a new undoable action type. 
-    
-    This decorator should be used on a generator of the following format::
-    
-        @undoable
-        def operation(*args):
-            do_operation_code
-            yield 'descriptive text'
-            undo_operator_code
-    '''
-    def inner(*args, **kwargs):
-        action = _Action(generator, args, kwargs)
-        ret = action.do()
-        stack().append(action)
-        if isinstance(ret, tuple):
-            if len(ret) == 1:
-                return ret[0]
-            elif len(ret) == 0:
-                return None
-        return ret
-    return inner
-
-
-class _Group:
-    ''' A undoable group context manager. '''
-
-    def __init__(self, desc):
-        self._desc = desc
-        self._stack = []
-
-    def __enter__(self):
-        self._outer_receiver = stack()._receiver
-        stack().setreceiver(self._stack)
-
-    def __exit__(self, exc_type, exc_val, exc_tb):
-        # Hand recording back to the enclosing scope even if the body failed,
-        # actions already done stay undoable as a (partial) group.
-        stack()._receiver = self._outer_receiver
-        stack().append(self)
-        return False
-
-    def undo(self):
-        for undoable in reversed(self._stack):
-            undoable.undo()
-
-    def do(self):
-        for undoable in self._stack:
-            undoable.do()
-
-    def text(self):
-        return self._desc.format(count=len(self._stack))
-
-
-def group(desc):
-    ''' Return a context manager for grouping undoable actions. 
-    
-    All actions which occur within the group will be undone by a single call
-    of `stack.undo`, e.g.
-    
-    >>> @undoable
-    ... def operation(n):
-    ...     yield
-    ...     print(n)
-    >>> with group('text'):
-    ...     for n in range(3):
-    ...         operation(n)
-    >>> operation(3)
-    >>> stack().undo()
-    3
-    >>> stack().undo()
-    2
-    1
-    0
-    '''
-    return _Group(desc)
-
-
-class Stack:
-    ''' The main undo stack. 
-        
-    The two key features are the :func:`redo` and :func:`undo` methods. If an 
-    exception occurs during doing or undoing a undoable, the undoable
-    aborts and the stack is cleared to avoid any further data corruption. 
-    
-    The stack provides two properties for tracking actions: *docallback* 
-    and *undocallback*. Each of these allow a callback function to be set
-    which is called when an action is done or undone repectively. By default, 
-    they do nothing.
-    
-    >>> def done():
-    ...     print('Can now undo: {}'.format(stack().undotext()))
-    >>> def undone():
-    ...     print('Can now redo: {}'.format(stack().redotext()))
-    >>> stack().docallback = done
-    >>> stack().undocallback = undone
-    >>> @undoable
-    ... def action():
-    ...     yield 'An action'
-    >>> action()
-    Can now undo: Undo An action
-    >>> stack().undo()
-    Can now redo: Redo An action
-    >>> stack().redo()
-    Can now undo: Undo An action
-    
-    Setting them back to ``lambda: None`` will stop any further actions.
-    
-    >>> stack().docallback = stack().undocallback = lambda: None
-    >>> action()
-    >>> stack().undo()
-    
-    It is possible to mark a point in the undo history when the document
-    handled is saved. This allows the undo system to report whether a 
-    document has changed. The point is marked using :func:`savepoint` and
-    :func:`haschanged` returns whether or not the state has changed (either
-    by doing or undoing an action). Only one savepoint can be tracked,
-    marking a new one removes the old one.
-    
-    >>> stack().savepoint()
-    >>> stack().haschanged()
-    False
-    >>> action()
-    >>> stack().haschanged()
-    True
-    '''
-
-    def __init__(self):
-        self._undos = deque()
-        self._redos = deque()
-        self._receiver = self._undos
-        self._savepoint = None
-        self.undocallback = lambda: None
-        self.docallback = lambda: None
-
-    def canundo(self):
-        ''' Return *True* if undos are available '''
-        return len(self._undos) > 0
-
-    def canredo(self):
-        ''' Return *True* if redos are available '''
-        return len(self._redos) > 0
-
-    def redo(self):
-        ''' Redo the last undone action. 
-        
-        This is only possible if no other actions have occurred since the 
-        last undo call.
-        '''
-        if self.canredo():
-            undoable = self._redos.pop()
-            with self._pausereceiver():
-                try:
-                    undoable.do()
-                except:
-                    self.clear()
-                    raise
-                else:
-                    self._undos.append(undoable)
-            self.docallback()
-
-    def undo(self):
-        ''' Undo the last action. '''
-        if self.canundo():
-            undoable = self._undos.pop()
-            with self._pausereceiver():
-                try:
-                    undoable.undo()
-                except:
-                    self.clear()
-                    raise
-                else:
-                    self._redos.append(undoable)
-            self.undocallback()
-
-    def clear(self):
-        ''' Clear the undo list. '''
-        self._undos.clear()
-        self._redos.clear()
-        self._savepoint = None
-        self._receiver = self._undos
-
-    def undocount(self):
-        ''' Return the number of undos available. '''
-        return len(self._undos)
-
-    def redocount(self):
-        ''' Return the number of redos available. '''
-        return len(self._redos)
-
-    def undotext(self):
-        ''' Return a description of the next available undo. '''
-        if self.canundo():
-            return ('Undo ' + self._undos[-1].text()).strip()
-
-    def redotext(self):
-        ''' Return a description of the next available redo. '''
-        if self.canredo():
-            return ('Redo ' + self._redos[-1].text()).strip()
-
-    @contextlib.contextmanager
-    def _pausereceiver(self):
-        ''' Return a contect manager which temporarily pauses the receiver. '''
-        receiver = self._receiver
-        self.setreceiver([])
-        try:
-            yield
-        finally:
-            self._receiver = receiver
-
-    def setreceiver(self, receiver=None):
-        ''' Set an object to receiver commands pushed onto the stack.
-        
-        By default it is the internal stack, but it can be set (usually
-        internally) to any object with an *append()* method.
-        '''
-        assert hasattr(receiver, 'append')
-        self._receiver = receiver
-
-    def resetreceiver(self):
-        ''' Reset the receiver to the internal stack.'''
-        self._receiver = self._undos
-
-    def append(self, action):
-        ''' Add a undoable to the stack, using ``receiver.append()``. '''
-        if self._receiver is not None:
-            self._receiver.append(action)
-        if self._receiver is self._undos:
-            if self._savepoint is not None and self._savepoint >= len(self._undos):
-                # The saved state was in the discarded redo history.
-                self._savepoint = None
-            self._redos.clear()
-            self.docallback()
-
-    def savepoint(self):
-        ''' Set the savepoint. '''
-        self._savepoint = self.undocount()
-
-    def haschanged(self):
-        ''' Return *True* if the state has changed since the savepoint. 
-        
-        This will always return *True* if the savepoint has not been set.
-        '''
-        return self._savepoint is None or self._savepoint != self.undocount()
-
-
-_stack = None
-
-def stack():
-    ''' Return the currently used stack.
-    
-    If no stack has been set, a new one is created and set.
-    '''
-    global _stack
-    if _stack is None:
-        _stack = Stack()
-    return _stack
-
-def setstack(stack):
-    ''' Set the undo stack to a specific `Stack` object.'''
-    global _stack
-    _stack = stack
+#!/usr/bin/env python3
+# -*- coding: utf-8 -*-
+#
+# Copyright (c) 2011 David Townshend
+#
+# This program is free software; you can redistribute it and/or modify it
+# under the terms of the GNU General Public License as published by the
+# Free Software Foundation; either version 2 of the License, or (at your
+# option) any later version.
+#
+# This program is distributed in the hope that it will be useful, but
+# WITHOUT ANY WARRANTY; without even the implied warranty of MERCHANTABILITY
+# or FITNESS FOR A PARTICULAR PURPOSE.  See the GNU General Public License
+# for more details.
+#
+# You should have received a copy of the GNU General Public License along
+# with this program; if not, write to the Free Software Foundation, Inc.,
+# 675 Mass Ave, Cambridge, MA 02139, USA.
+
+__version__ = '0.5.1'
+__author__ = 'David Townshend'
+
+__all__ = ['undoable', 'group', 'Stack', 'stack', 'setstack']
+
+import contextlib
+
+from collections import deque
+
+class _Action:
+    ''' This represents an action which can be done and undone.
+    
+    It is the result of a call on an undoable function and has
+    three methods: ``do()``, ``undo()`` and ``text()``.  The first value
+    returned by the internal call in ``do()`` is the value which will 
+    subsequently be returned by ``text``.  Any remaining values are 
+    returned by ``do()``.
+    '''
+    def __init__(self, generator, args, kwargs):
+        self._generator = generator
+        self.args = args
+        self.kwargs = kwargs
+        self._text = ''
+
+    def do(self):
+        'Do or redo the action'
+        self._runner = self._generator(*self.args, **self.kwargs)
+        rets = next(self._runner)
+        if isinstance(rets, tuple):
+            self._text = rets[0]
+            return rets[1:]
+        elif rets is None:
+            self._text = ''
+            return None
+        else:
+            self._text = rets
+            return None
+
+    def undo(self):
+        'Undo the action'
+        try:
+            next(self._runner)
+        except StopIteration:
+            pass
+        # Delete it so that its not accidentally called again
+        del self._runner
+
+    def text(self):
+        'Return the descriptive text of the action'
+        return self._text
+
+
+def undoable(generator):
+    ''' Decorator which creates a new undoable action type. 
+    
+    This decorator should be used on a generator of the following format::
+    
+        @undoable
+        def operation(*args):
+            do_operation_code
+            yield 'descriptive text'
+            undo_operator_code
+    '''
+    def inner(*args, **kwargs):
+        action = _Action(generator, args, kwargs)
+        ret = action.do()
+        stack().append(action)
+        if isinstance(ret, tuple):
+            if len(ret) == 1:
+                return ret[0]
+            elif len(ret) == 0:
+                return None
+        return ret
+    return inner
+
+
+class _Group:
+    ''' A undoable group context manager. '''
+
+    def __init__(self, desc):
+        self._desc = desc
+        self._stack = []
+
+    def __enter__(self):
+        self._outer_receiver = stack()._receiver
+        stack().setreceiver(self._stack)
+
+    def __exit__(self, exc_type, exc_val, exc_tb):
+        # Hand recording back to the enclosing scope even if the body failed,
+        # actions already done stay undoable as a (partial) group.
+        stack()._receiver = self._outer_receiver
+        stack().append(self)
+        return False
+
+    def undo(self):
+        for undoable in reversed(self._stack):
+            undoable.undo()
+
+    def do(self):
+        for undoable in self._stack:
+            undoable.do()
+
+    def text(self):
+        return self._desc.format(count=len(self._stack))
+
+
+def group(desc):
+    ''' Return a context manager for grouping undoable actions. 
+    
+    All actions which occur within the group will be undone by a single call
+    of `stack.undo`, e.g.
+    
+    >>> @undoable
+    ... def operation(n):
+    ...     yield
+    ...     print(n)
+    >>> with group('text'):
+    ...     for n in range(3):
+    ...         operation(n)
+    >>> operation(3)
+    >>> stack().undo()
+    3
+    >>> stack().undo()
+    2
+    1
+    0
+    '''
+    return _Group(desc)
+
+
+class Stack:
+    ''' The main undo stack. 
+        
+    The two key features are the :func:`redo` and :func:`undo` methods. If an 
+    exception occurs during doing or undoing a undoable, the undoable
+    aborts and the stack is cleared to avoid any further data corruption. 
+    
+    The stack provides two properties for tracking actions: *docallback* 
+    and *undocallback*. Each of these allow a callback function to be set
+    which is called when an action is done or undone repectively. By default, 
+    they do nothing.
+    
+    >>> def done():
+    ...     print('Can now undo: {}'.format(stack().undotext()))
+    >>> def undone():
+    ...     print('Can now redo: {}'.format(stack().redotext()))
+    >>> stack().docallback = done
+    >>> stack().undocallback = undone
+    >>> @undoable
+    ... def action():
+    ...     yield 'An action'
+    >>> action()
+    Can now undo: Undo An action
+    >>> stack().undo()
+    Can now redo: Redo An action
+    >>> stack().redo()
+    Can now undo: Undo An action
+    
+    Setting them back to ``lambda: None`` will stop any further actions.
+    
+    >>> stack().docallback = stack().undocallback = lambda: None
+    >>> action()
+    >>> stack().undo()
+    
+    It is possible to mark a point in the undo history when the document
+    handled is saved. This allows the undo system to report whether a 
+    document has changed. The point is marked using :func:`savepoint` and
+    :func:`haschanged` returns whether or not the state has changed (either
+    by doing or undoing an action). Only one savepoint can be tracked,
+    marking a new one removes the old one.
+    
+    >>> stack().savepoint()
+    >>> stack().haschanged()
+    False
+    >>> action()
+    >>> stack().haschanged()
+    True
+    '''
+
+    def __init__(self):
+        self._undos = deque()
+        self._redos = deque()
+        self._receiver = self._undos
+        self._savepoint = None
+        self.undocallback = lambda: None
+        self.docallback = lambda: None
+
+    def canundo(self):
+        ''' Return *True* if undos are available '''
+        return len(self._undos) > 0
+
+    def canredo(self):
+        ''' Return *True* if redos are available '''
+        return len(self._redos) > 0
+
+    def redo(self):
+        ''' Redo the last undone action. 
+        
+        This is only possible if no other actions have occurred since the 
+        last undo call.
+        '''
+        if self.canredo():
+            undoable = self._redos.pop()
+            with self._pausereceiver():
+                try:
+                    undoable.do()
+                except:
+                    self.clear()
+                    raise
+                else:
+                    self._undos.append(undoable)
+            self.docallback()
+
+    def undo(self):
+        ''' Undo the last action. '''
+        if self.canundo():
+            undoable = self._undos.pop()
+            with self._pausereceiver():
+                try:
+                    undoable.undo()
+                except:
+                    self.clear()
+                    raise
+                else:
+                    self._redos.append(undoable)
+            self.undocallback()
+
+    def clear(self):
+        ''' Clear the undo list. '''
+        self._undos.clear()
+        self._redos.clear()
+        self._savepoint = None
+        self._receiver = self._undos
+
+    def undocount(self):
+        ''' Return the number of undos available. '''
+        return len(self._undos)
+
+    def redocount(self):
+        ''' Return the number of redos available. '''
+        return len(self._redos)
+
+    def undotext(self):
+        ''' Return a description of the next available undo. '''
+        if self.canundo():
+            return ('Undo ' + self._undos[-1].text()).strip()
+
+    def redotext(self):
+        ''' Return a description of the next available redo. '''
+        if self.canredo():
+            return ('Redo ' + self._redos[-1].text()).strip()
+
+    @contextlib.contextmanager
+    def _pausereceiver(self):
+        ''' Return a contect manager which temporarily pauses the receiver. '''
+        receiver = self._receiver
+        self.setreceiver([])
+        try:
+            yield
+        finally:
+            self._receiver = receiver
+
+    def setreceiver(self, receiver=None):
+        ''' Set an object to receiver commands pushed onto the stack.
+        
+        By default it is the internal stack, but it can be set (usually
+        internally) to any object with an *append()* method.
+        '''
+        assert hasattr(receiver, 'append')
+        self._receiver = receiver
+
+    def resetreceiver(self):
+        ''' Reset the receiver to the internal stack.'''
+        self._receiver = self._undos
+
+    def append(self, action):
+        ''' Add a undoable to the stack, using ``receiver.append()``. '''
+        if self._receiver is not None:
+            self._receiver.append(action)
+        if self._receiver is self._undos:
+            if self._savepoint is not None and self._savepoint >= len(self._undos):
+                # The saved state was in the discarded redo history.
+                self._savepoint = None
+            self._redos.clear()
+            self.docallback()
+
+    def savepoint(self):
+        ''' Set the savepoint. '''
+        self._savepoint = self.undocount()
+
+    def haschanged(self):
+        ''' Return *True* if the state has changed since the savepoint. 
+        
+        This will always return *True* if the savepoint has not been set.
+        '''
+        return self._savepoint is None or self._savepoint != self.undocount()
+
+
+_stack = None
+
+def stack():
+    ''' Return the currently used stack.
+    
+    If no stack has been set, a new one is created and set.
+    '''
+    global _stack
+    if _stack is None:
+        _stack = Stack()
+    return _stack
+
+def setstack(stack):
+    ''' Set the undo stack to a specific `Stack` object.'''
+    global _stack
+    _stack = stack
-- 
2.43.0


From 858e314f18f2ce57f9ec917de3148a3a127edcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:36 +0000
Subject: [PATCH 38/57] fix: representative segment of a loop after joining
 oppositely oriented segments

---
 src/bgem/polygons/decomp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bgem/polygons/decomp.py b/src/bgem/polygons/decomp.py
index fb28ff3..13757e6 100644
--- a/src/bgem/polygons/decomp.py
+++ b/src/bgem/polygons/decomp.py
@@ -331,7 +331,9 @@ class Decomposition:
         for side in [left_side, right_side]:
             wire = seg1.wire[side]
             if wire.segment == (seg1, side):
-                wire.segment = (seg0, side)
+                # seg0 may be oriented opposite to seg1
+                seg0_side = side if seg0_out_vtx == seg1_out_vtx else 1 - side
+                wire.segment = (seg0, seg0_side)
 
         # fix pt_to_seg
         self.pt_to_seg[seg0.point_ids()] = seg0
-- 
2.43.0


From 84952b9064db9d2b6391b564d48dd2ab254c8c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:52 +0000
Subject: [PATCH 39/57] fix: Z_Surface.get_transform returns copies of the
 transform arrays

---
 src/bgem/bspline/bspline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index 62b252c..67f8fcb 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -795,7 +795,7 @@ class Z_Surface:
         Return additional transform applied through the 'transform' method.
         :return:
         """
-        return (self._xy_mat, self.z_mat)
+        return (self._xy_mat.copy(), self.z_mat.copy())
 
     def apply_z_transform(self):
         """
-- 
2.43.0


From 7e48ecf59ddf364c551bb00d672d465ca05d868f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:59 +0000
Subject: [PATCH 40/57] fix: Edge.points returns copies of the vertex
 coordinates

---
 src/bgem/bspline/brep_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/bspline/brep_writer.py b/src/bgem/bspline/brep_writer.py
index df00e39..88905b9 100644
--- a/src/bgem/bspline/brep_writer.py
+++ b/src/bgem/bspline/brep_writer.py
@@ -878,7 +878,7 @@ class Edge(Shape):
         '''
         :return: List of coordinates of the edge vertices.
         '''
-        return [ vtx.point for vtx in self.subshapes()]
+        return [ vtx.point.copy() for vtx in self.subshapes()]
 
     def attach_to_3d_curve(self, t_range, curve, location=Location()):
         """
-- 
2.43.0


From ea344134ed4462f001c2a3fbd744a30c65d1999b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:59 +0000
Subject: [PATCH 41/57] fix: number BREP objects anew for every written file

---
 src/bgem/bspline/brep_writer.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/bgem/bspline/brep_writer.py b/src/bgem/bspline/brep_writer.py
index 88905b9..5a2ab3b 100644
--- a/src/bgem/bspline/brep_writer.py
+++ b/src/bgem/bspline/brep_writer.py
@@ -84,10 +84,12 @@ class Location:
         :param groups: dict(locations=[], curves_2d=[], curves_3d=[], surfaces=[], shapes=[])
         :return: None
         """
-        if not hasattr(self, 'id'):
-            id=len(groups['locations'])+1
-            self.id = id
+        if getattr(self, 'id', None) == 0:
+            return      # identity
+        if id(self) not in groups['numbered']:
+            groups['numbered'].add(id(self))
             groups['locations'].append(self)
+            self.id = len(groups['locations'])
 
     def _brep_output(self, stream, groups):
         stream.write("1\n")
@@ -194,10 +196,10 @@ class Curve3D:
 
 
     def _dfs(self, groups):
-        if not hasattr(self, 'id'):
-            id = len(groups['curves_3d']) + 1
-            self.id = id
+        if id(self) not in groups['numbered']:
+            groups['numbered'].add(id(self))
             groups['curves_3d'].append(self)
+            self.id = len(groups['curves_3d'])
 
 
     def _brep_output(self, stream, groups):
@@ -249,10 +251,10 @@ class Curve2D:
 
 
     def _dfs(self, groups):
-        if not hasattr(self, 'id'):
-            id = len(groups['curves_2d']) + 1
-            self.id = id
+        if id(self) not in groups['numbered']:
+            groups['numbered'].add(id(self))
             groups['curves_2d'].append(self)
+            self.id = len(groups['curves_2d'])
 
     def _brep_output(self, stream, groups):
         # writes b-spline curve
@@ -331,10 +333,10 @@ class Surface:
 
 
     def _dfs(self, groups):
-        if not hasattr(self, 'id'):
-            id = len(groups['surfaces']) + 1
-            self.id = id
+        if id(self) not in groups['numbered']:
+            groups['numbered'].add(id(self))
             groups['surfaces'].append(self)
+            self.id = len(groups['surfaces'])
 
     def _brep_output(self, stream, groups):
         #writes b-spline surface
@@ -600,8 +602,9 @@ class Shape:
         :param groups: dict(locations=[], curves_2d=[], curves_3d=[], surfaces=[], shapes=[])
         :return: None
         """
-        if hasattr(self, 'id'):
+        if id(self) in groups['numbered']:
             return
+        groups['numbered'].add(id(self))
         for sub_ref in self.childs:
             sub_ref.location._dfs(groups)
             sub_ref.shape._dfs(groups)
@@ -642,7 +645,8 @@ class Shape:
         # print("Index")
         # print(compound.__class__.__name__) #prints class name
 
-        groups = dict(locations=[], curves_2d=[], curves_3d=[], surfaces=[], shapes=[])
+        # 'numbered' - python ids of the objects numbered in this run; numbers from previous runs are not used
+        groups = dict(locations=[], curves_2d=[], curves_3d=[], surfaces=[], shapes=[], numbered=set())
         self._dfs(groups)  # pridej jako parametr dictionary listu jednotlivych grup. v listech primo objekty
         location._dfs(groups)
         # print(groups)
-- 
2.43.0


From 57679c96b237f37a64496456231d6cb27f2dc99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 42/57] fix: write_model places the root shape at the given
 location

---
 src/bgem/bspline/brep_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/bspline/brep_writer.py b/src/bgem/bspline/brep_writer.py
index 5a2ab3b..b7c5b70 100644
--- a/src/bgem/bspline/brep_writer.py
+++ b/src/bgem/bspline/brep_writer.py
@@ -1088,7 +1088,7 @@ def write_model(stream, compound, location):
         #print("# {} id: {} childs: {}\n".format(shape.shpname, shape.id,
         #                                        [ch.id for ch in shape.subshapes()]))
         shape._brep_output(stream, groups)
-    stream.write("\n+1 0")
+    stream.write("\n+1 {}".format(location.id))
     #stream.write("0\n")
 
 
-- 
2.43.0


From 8cdd558ae8b010810c94b19a6f84d70c2de7dda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 43/57] fix: baking the Z transform into a rational surface
 keeps its weights and refreshes its precomputed poles

---
 src/bgem/bspline/bspline.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index 67f8fcb..e4b0756 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -804,9 +804,12 @@ class Z_Surface:
         :return:
         """
         if self._have_z_mat:
-            self.z_surface = self.z_surface.deep_copy()
-            self.z_surface.poles *= self._z_mat[0]
-            self.z_surface.poles += self._z_mat[1]
+            z_surface = self.z_surface.deep_copy()
+            poles = z_surface.poles
+            # weights of a rational surface are kept
+            poles[:, :, 0] *= self._z_mat[0]
+            poles[:, :, 0] += self._z_mat[1]
+            self.z_surface = Surface(z_surface.basis, poles, z_surface.rational)
             self._reset_transform_z()
 
 
-- 
2.43.0


From 0944d27afc21c9aa22a040b063397d1fdffdbf73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:21 +0000
Subject: [PATCH 44/57] fix: splitting by several cut tools invalidates every
 consumed tool set

---
 src/bgem/gmsh/gmsh.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index cb23e1d..1fe4625 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -693,8 +693,11 @@ class ObjectSet:
         TODO: Return Group
         """
         factory = self.factory
-        tool_objects = self.factory.group(*tool_objects)
-        new_obj, new_tool = self.factory.fragment(self, tool_objects)
+        tool_group = self.factory.group(*tool_objects)
+        new_obj, new_tool = self.factory.fragment(self, tool_group)
+        # shapes of all the tools were consumed, not only those of their group
+        for tool in tool_objects:
+            tool.invalidate()
         dict_obj = dict(new_obj.dimtagreg())
         dict_tool = dict(new_tool.dimtagreg())
         cut_obj = {k: dict_obj[k] for k in set(dict_obj) - set(dict_tool)}
-- 
2.43.0


From 4348fcc9fab34ba1c6b6b8655c2dd32f5ad9acee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:46 +0000
Subject: [PATCH 45/57] fix: mesh healing re-examines the elements touched by
 the last queued element

---
 src/bgem/gmsh/heal_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/heal_mesh.py b/src/bgem/gmsh/heal_mesh.py
index 217b2a3..fdb1595 100644
--- a/src/bgem/gmsh/heal_mesh.py
+++ b/src/bgem/gmsh/heal_mesh.py
@@ -447,7 +447,7 @@ class HealMesh:
         orig_n_el = self.max_ele_id
         el_to_check = collections.deque(self.mesh.elements.keys())
         modified = []
-        while el_to_check:
+        while el_to_check or modified:
             el_to_check.extend(modified)
             modified = []
             # prevent infinite loop
-- 
2.43.0


From 5f9b57911b6cf54edd5c2d1bd02d37d60fb17b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:11 +0000
Subject: [PATCH 46/57] fix: healing checks are not applied to an element the
 previous check removed

---
 src/bgem/gmsh/heal_mesh.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bgem/gmsh/heal_mesh.py b/src/bgem/gmsh/heal_mesh.py
index fdb1595..c152927 100644
--- a/src/bgem/gmsh/heal_mesh.py
+++ b/src/bgem/gmsh/heal_mesh.py
@@ -457,16 +457,16 @@ class HealMesh:
             if eid in self.mesh.elements:
                 ele = self._make_element(eid)
                 modified = self._check_dupl_nodes(ele)
-                if modified: continue
+                if modified or eid not in self.mesh.elements: continue
                 modified = self._check_degen_nodes(ele)
-                if modified: continue
+                if modified or eid not in self.mesh.elements: continue
                 modified = self._check_duplicate_element(ele)
                 if modified: continue
 
                 if ele.shape.dim < 2: continue
                 if ele.shape.gmsh_gamma() > self.gamma_tol: continue
                 modified = self._check_flat_tetra(ele)
-                if modified: continue
+                if modified or eid not in self.mesh.elements: continue
                 modified = self._check_flat_triangle(ele)
                 if modified: continue
                 modified = self._check_small_edge(ele)
-- 
2.43.0


From 2b0c2891678313c81132240513551727a417634b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:29 +0000
Subject: [PATCH 47/57] fix: altitude in the flatness of a tetrahedron is
 volume times three over the face area

---
 src/bgem/gmsh/heal_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/heal_mesh.py b/src/bgem/gmsh/heal_mesh.py
index c152927..48183fa 100644
--- a/src/bgem/gmsh/heal_mesh.py
+++ b/src/bgem/gmsh/heal_mesh.py
@@ -42,7 +42,7 @@ class ShapeBase:
         dim = self.dim
         max_edge = max(1e-300, np.max(self.edge_lens))
         if dim == 3:
-            alt = 6 * np.abs(self.measure) / max(1e-300, np.max(self.face_areas))
+            alt = 3 * np.abs(self.measure) / max(1e-300, np.max(self.face_areas))
         else:
             alt = 2 * np.abs(self.measure) / max_edge
 
-- 
2.43.0


From 7a62ed509beac44d0905abb9927c9dbf0171e89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:53 +0000
Subject: [PATCH 48/57] fix: linear poles reproduce the parameter also when the
 domain does not start at zero

---
 src/bgem/bspline/bspline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index e4b0756..cb8e4fe 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -235,7 +235,7 @@ class SplineBasis:
         Return poles of basis functions to get a f(x) = x.
         :return:
         """
-        poles= [ 0.0 ]
+        poles= [ self.knots[0] ]
         for i in range(self.size-1):
             pp = poles[-1] + (self.knots[i + self.degree + 1] - self.knots[i  + 1]) / float(self.degree)
             poles.append(pp)
-- 
2.43.0


From b3a5ea0dc12944b70fb9d60dac7031eab1fd1cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:53 +0000
Subject: [PATCH 49/57] fix: equidistant knots of an integer range are not
 truncated

---
 src/bgem/bspline/bspline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index cb8e4fe..e27ea8d 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -37,7 +37,7 @@ class SplineBasis:
         :return: SplineBasis object.
         """
         n = n_intervals + 2 * degree + 1
-        knots = np.array((knot_range[0],) * n)
+        knots = np.array((knot_range[0],) * n, dtype=float)
         diff = (knot_range[1] - knot_range[0]) / n_intervals
         for i in range(degree + 1, n - degree):
             knots[i] = (i - degree) * diff + knot_range[0]
-- 
2.43.0


From 5bbe95aacafcf47f6b03d6651ccab65476ae9cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:19 +0000
Subject: [PATCH 50/57] fix: check every segment's endpoint key in
 check_consistency (it tested a leftover variable)

---
 src/bgem/polygons/decomp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/polygons/decomp.py b/src/bgem/polygons/decomp.py
index 13757e6..8a7171a 100644
--- a/src/bgem/polygons/decomp.py
+++ b/src/bgem/polygons/decomp.py
@@ -124,7 +124,7 @@ class Decomposition:
                 assert w in w.parent.childs
 
         for sg in self.segments.values():
-            assert seg.point_ids() in self.pt_to_seg
+            assert sg.point_ids() in self.pt_to_seg
             for side in [right_side, left_side]:
                 assert sg.vtxs[side].id in self.points
                 assert sg.wire[side].id in self.wires
-- 
2.43.0


From c93af0209a39ca8297862d727251888ef387676d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:19 +0000
Subject: [PATCH 51/57] fix: CurvePoint used a method and attributes that do
 not exist

---
 src/bgem/bspline/curve_point.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bgem/bspline/curve_point.py b/src/bgem/bspline/curve_point.py
index 544f68d..879860b 100644
--- a/src/bgem/bspline/curve_point.py
+++ b/src/bgem/bspline/curve_point.py
@@ -20,7 +20,7 @@ class CurvePoint:
 
         self.interface_flag = 0
         self.boundary_flag = 0
-        self._curve_boundary_intersection()
+        self.curve_boundary_intersection()
         self.extend_patches()
 
     def extend_patches(self):
@@ -29,7 +29,7 @@ class CurvePoint:
         :return:
         """
 
-        if np.logical_and(self.curve_boundary_flag == 0, self.interface_flag != 0):
+        if np.logical_and(self.boundary_flag == 0, self.interface_flag != 0):
             it = self.it[0] + self.interface_flag
             self.it.append(it)
 
@@ -48,8 +48,8 @@ class CurvePoint:
 
         """
 
-        t0 = self.surf.basis.knots[self.it[0] + 2]
-        t1 = self.surf.basis.knots[self.it[0] + 3]
+        t0 = self.curv.basis.knots[self.it[0] + 2]
+        t1 = self.curv.basis.knots[self.it[0] + 3]
 
         if abs(t0 - self.t) == 0:
             self.interface_flag = -1
-- 
2.43.0


From 93eb601e266bf3d5c85e642f59c3cfaca52fa2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:19 +0000
Subject: [PATCH 52/57] fix: make_simplex reports an invalid dimension instead
 of failing on an unset variable

---
 src/bgem/gmsh/gmsh.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index 1fe4625..73c4941 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -255,6 +255,8 @@ class GeometryOCC:
             face_ids = [self.model.addPlaneSurface([loop]) for loop in loop_ids]
             surf_loop = self.model.addSurfaceLoop(face_ids)
             res = self.model.addVolume([surf_loop])
+        else:
+            raise ValueError(f"Invalid simplex dimension: {dim}")
         self._need_synchronize = True
         return self.object(dim, res)
 
-- 
2.43.0


From 356a594b6e6f9972c3622c5fcf28d4e69859fd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:51 +0000
Subject: [PATCH 53/57] fix: a loop with a dangling segment does not become its
 own parent when it is split off

---
 src/bgem/polygons/decomp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bgem/polygons/decomp.py b/src/bgem/polygons/decomp.py
index 8a7171a..7e7135d 100644
--- a/src/bgem/polygons/decomp.py
+++ b/src/bgem/polygons/decomp.py
@@ -523,7 +523,10 @@ class Decomposition:
             # possible wires in the new inner_wire bubble
             for seg, side in inner_wire.segments():
                 side_wire = seg.wire[1-side]
-                assert side_wire == inner_wire or inner_wire.contains_wire(side_wire)
+                if side_wire == inner_wire:
+                    # dendrite of the inner wire
+                    continue
+                assert inner_wire.contains_wire(side_wire)
                 side_wire.set_parent(inner_wire)
 
             #self._update_wire_parents(orig_parent, outer_wire, inner_wire)
-- 
2.43.0


From d7ac7a96c932ed34b8ab708ee0fffab63fee3fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:39 +0000
Subject: [PATCH 54/57] fix: regions inside other regions get their image when
 merging decompositions

---
 src/bgem/polygons/merge.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/bgem/polygons/merge.py b/src/bgem/polygons/merge.py
index e462164..4d904fa 100644
--- a/src/bgem/polygons/merge.py
+++ b/src/bgem/polygons/merge.py
@@ -145,10 +145,12 @@ def _intersect_single(decomp, other):
             while stack:
                 p_id = stack.pop(-1)
                 maps_other[2][p_id] = other_poly
-                for seg, side in decomp.polygons[p_id].outer_wire.segments():
-                    ngh_poly = seg.wire[1 - side].polygon
-                    if maps_other[2][ngh_poly.id] is None:
-                        stack.append(ngh_poly.id)
+                outer_wire = decomp.polygons[p_id].outer_wire
+                for wire in [outer_wire] + list(outer_wire.childs):
+                    for seg, side in wire.segments():
+                        ngh_poly = seg.wire[1 - side].polygon
+                        if maps_other[2][ngh_poly.id] is None:
+                            stack.append(ngh_poly.id)
 
     # # Check
     # for p in decomp.polygons.values():
-- 
2.43.0


From ca10985685cbb8637b997b15741553fe6a69426f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:34 +0000
Subject: [PATCH 55/57] fix: bounding boxes of curves and surfaces of any
 degree, without weights

---
 src/bgem/bspline/bspline.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index e27ea8d..6a32494 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -434,7 +434,8 @@ class Curve:
         Return Axes Aligned Bounding Box of the poles, which should be also bounding box of the curve itself.
         :return: ( min_corner, max_corner); Box corners are numpy arryas of dimension D.
         """
-        return np.array( [np.amin(self.poles, axis=0), np.amax(self.poles, axis=0)] )
+        poles = self.poles[:, 0:self.dim]
+        return np.array( [np.amin(poles, axis=0), np.amax(poles, axis=0)] )
 
     def bounding_boxes(self):
         """
@@ -443,7 +444,8 @@ class Curve:
         :return:
         """
         tree = bih.BIH()
-        boxes = [bih.AABB(self.poles[it:it + 3, :].tolist()) for it in range(self.basis.n_intervals)]
+        n_poles = self.basis.degree + 1
+        boxes = [bih.AABB(self.poles[it:it + n_poles, 0:self.dim].tolist()) for it in range(self.basis.n_intervals)]
         tree.add_boxes(boxes)
         tree.construct()
 
@@ -585,7 +587,8 @@ class Surface:
         :return: ( min_corner, max_corner); Box corners are numpy arryas of dimension D.
         TODO: test
         """
-        return np.array( [np.amin(self.poles, axis=(0,1)), np.amax(self.poles, axis=(0,1))] )
+        poles = self.poles[:, :, 0:self.dim]
+        return np.array( [np.amin(poles, axis=(0,1)), np.amax(poles, axis=(0,1))] )
 
 
     def bounding_boxes(self):
@@ -595,21 +598,16 @@ class Surface:
         :return:
         """
         tree = bih.BIH()
-        n_patch = self.u_basis.n_intervals * self.v_basis.n_intervals
+        du = self.u_basis.degree + 1
+        dv = self.v_basis.degree + 1
 
-        patch_poles = np.zeros([9, 3, n_patch])
-        i_patch = 0
+        boxes = []
         for iu in range(self.u_basis.n_intervals):
             for iv in range(self.v_basis.n_intervals):
-                n_points = 0
-                for i in range(0, 3):
-                    for j in range(0, 3):
-                        patch_poles[n_points, :, i_patch] = self.poles[iu + i, iv + j, :]
-                        n_points += 1
-                assert i_patch == self.patch_pos2id(iu, iv)
-                i_patch += 1
-
-        boxes = [bih.AABB(patch_poles[:, :, p].tolist()) for p in range(n_patch)]
+                assert len(boxes) == self.patch_pos2id(iu, iv)
+                patch_poles = self.poles[iu: iu + du, iv: iv + dv, 0:self.dim]
+                boxes.append(bih.AABB(patch_poles.reshape(du * dv, self.dim).tolist()))
+
         tree.add_boxes(boxes)
         tree.construct()
 
-- 
2.43.0


From 89ffebe087a2a2765efb5b2e193911be593f231f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:00 +0000
Subject: [PATCH 56/57] fix: a bilinear surface with an overhang passes through
 the given points

---
 src/bgem/bspline/bspline_approx.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bgem/bspline/bspline_approx.py b/src/bgem/bspline/bspline_approx.py
index f049f5a..0c0704c 100644
--- a/src/bgem/bspline/bspline_approx.py
+++ b/src/bgem/bspline/bspline_approx.py
@@ -51,7 +51,10 @@ def bilinear_surface(vtxs, overhang=0.0):
     if overhang > 0.0:
         dv = np.roll(vtxs, -1, axis=0) - vtxs
         dv *= overhang
+        # second order term of a quadrilateral that is not a parallelogram
+        twist = overhang * overhang * (vtxs[0] - vtxs[1] + vtxs[2] - vtxs[3])
         vtxs +=  np.roll(dv, 1, axis=0) - dv
+        vtxs += twist * np.array([[1.0], [-1.0], [1.0], [-1.0]])
 
     def mid(*idx):
         return np.mean( vtxs[list(idx)], axis=0)
-- 
2.43.0


From 4c5223d87410d8584b9fe00fc3b1a46c782856bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:54 +0000
Subject: [PATCH 57/57] fix: make_rectangle joined its corners in a crossing
 order (face of zero area)

---
 src/bgem/gmsh/gmsh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index 73c4941..4dd32ac 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -329,7 +329,7 @@ class GeometryOCC:
 
     def make_rectangle(self, scale) -> int:
         # Vertices of the rectangle
-        shifts = np.array([(1, 1, 0), (1, -1, 0), (-1, 1, 0), (-1, -1, 0)])
+        shifts = np.array([(1, 1, 0), (1, -1, 0), (-1, -1, 0), (-1, 1, 0)])
         corners = shifts[:, :] * scale[None, :]
         point_tags = [self.model.addPoint(*corner) for corner in corners]
         lines = [self.model.addLine(point_tags[i - 1], point_tags[i]) for i in range(4)]
-- 
2.43.0

