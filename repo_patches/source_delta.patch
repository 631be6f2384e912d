From 02b8fb86112731e8f679f35aa33fcaf92bf6dac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:12 +0000
Subject: [PATCH 01/29] fix: only report exclusively owned items from the
 pvector GC traversal

Items in nodes shared between several vectors were reported once per vector
although the node holds a single reference, so a collection of cyclic garbage
could clear live objects.
---
 pvectorcmodule.c | 74 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 53 insertions(+), 21 deletions(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index 9ed0ea1..0b599a3 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -85,6 +85,15 @@ static PyMemberDef PVector_members[] = {
 #define INC_NODE_REF_COUNT(n) (NODE_REF_COUNT(n)++)
 #define DEC_NODE_REF_COUNT(n) (NODE_REF_COUNT(n)--)
 
+// Indicate that a node is "dirty" (has been updated by the evolver)
+// by setting the MSB of the refCount. This will be cleared when
+// creating a pvector from the evolver (cleaning it).
+#define DIRTY_BIT 0x80000000
+#define REF_COUNT_MASK (~DIRTY_BIT)
+#define IS_DIRTY(node) ((node)->refCount & DIRTY_BIT)
+#define SET_DIRTY(node) ((node)->refCount |= DIRTY_BIT)
+#define CLEAR_DIRTY(node) ((node)->refCount &= REF_COUNT_MASK)
+
 static VNode* allocNode(void) {
   if(nodeCache.size > 0) {
     nodeCache.size--;
@@ -425,16 +434,41 @@ static PyObject* PVector_repeat(PVector *self, Py_ssize_t n) {
   }
 }
 
-static int PVector_traverse(PVector *o, visitproc visit, void *arg) {
-    // Naive traverse
-    Py_ssize_t i;
-    for (i = o->count; --i >= 0; ) {
-      Py_VISIT(_get_item(o, i));
+static int traverseNode(VNode *node, int level, visitproc visit, void *arg) {
+    // A node shared between vectors holds one reference only to each of its
+    // items. Reporting those once per vector would make the garbage collector
+    // believe that the items are unreachable, hence only report references that
+    // are exclusively owned by the vector being traversed.
+    int i;
+    if((NODE_REF_COUNT(node) & REF_COUNT_MASK) != 1) {
+      return 0;
+    }
+
+    for(i = 0; i < BRANCH_FACTOR; i++) {
+      if(node->items[i] != NULL) {
+        if(level > 0) {
+          int result = traverseNode((VNode*)node->items[i], level - SHIFT, visit, arg);
+          if(result != 0) {
+            return result;
+          }
+        } else {
+          Py_VISIT((PyObject*)node->items[i]);
+        }
+      }
     }
 
     return 0;
 }
 
+static int PVector_traverse(PVector *o, visitproc visit, void *arg) {
+    int result = traverseNode(o->tail, 0, visit, arg);
+    if(result == 0) {
+      result = traverseNode(o->root, o->shift, visit, arg);
+    }
+
+    return result;
+}
+
 
 static PyObject* PVector_index(PVector *self, PyObject *args) {
   // A direct rip-off of the tuple version
@@ -514,6 +548,8 @@ static PVector* rawCopyPVector(PVector* vector) {
   newVector->root = vector->root;
   newVector->tail = vector->tail;
   newVector->in_weakreflist = NULL;
+  INC_NODE_REF_COUNT(newVector->root);
+  INC_NODE_REF_COUNT(newVector->tail);
   PyObject_GC_Track((PyObject*)newVector);
   return newVector;
 }
@@ -1243,15 +1279,6 @@ static PyTypeObject PVectorEvolverType = {
 };
 
 
-// Indicate that a node is "dirty" (has been updated by the evolver)
-// by setting the MSB of the refCount. This will be cleared when
-// creating a pvector from the evolver (cleaning it).
-#define DIRTY_BIT 0x80000000
-#define REF_COUNT_MASK (~DIRTY_BIT)
-#define IS_DIRTY(node) ((node)->refCount & DIRTY_BIT)
-#define SET_DIRTY(node) ((node)->refCount |= DIRTY_BIT)
-#define CLEAR_DIRTY(node) ((node)->refCount &= REF_COUNT_MASK)
-
 
 static void cleanNodeRecursively(VNode *node, int level) {
   debug("Cleaning recursively node=%p, level=%u\n", node, level);
@@ -1276,14 +1303,10 @@ static void cleanVector(PVector *vector) {
   // the wild.
   if(IS_DIRTY(vector->tail)) {
     cleanNodeRecursively(vector->tail, 0);
-  } else {
-    INC_NODE_REF_COUNT(vector->tail);
   }
 
   if(IS_DIRTY(vector->root)) {
     cleanNodeRecursively(vector->root, vector->shift);
-  } else {
-    INC_NODE_REF_COUNT(vector->root);
   }
 }
 
@@ -1460,10 +1483,19 @@ static int PVectorEvolver_set_item(PVectorEvolver *self, PyObject* item, PyObjec
       }
 
       if(value != NULL) {
-        if(position < TAIL_OFF(self->newVector)) {
-          self->newVector->root = doSetWithDirty(self->newVector->root, self->newVector->shift, position, value);
+        PVector *vector = self->newVector;
+        int inTail = position >= TAIL_OFF(vector);
+        VNode *oldNode = inTail ? vector->tail : vector->root;
+        VNode *updatedNode = doSetWithDirty(oldNode, inTail ? 0 : vector->shift, position, value);
+        if(updatedNode != oldNode) {
+          // Node replaced, drop the reference to the node shared with the original vector
+          DEC_NODE_REF_COUNT(oldNode);
+        }
+
+        if(inTail) {
+          vector->tail = updatedNode;
         } else {
-          self->newVector->tail = doSetWithDirty(self->newVector->tail, 0, position, value);
+          vector->root = updatedNode;
         }
 
         return 0;
-- 
2.43.0


From cfb17b998b0d3ea9c668f03430d8b4005fa21878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:40 +0000
Subject: [PATCH 02/29] fix: release the partly built vector when an iterable
 raises in pvector extend

---
 pvectorcmodule.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index 0b599a3..8be6dae 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -851,11 +851,12 @@ static PyObject *PVector_subscript(PVector* self, PyObject* item) {
 
 /* A hack to get some of the error handling code away from the function
    doing the actual work */
-#define HANDLE_ITERATION_ERROR()                         \
+#define HANDLE_ITERATION_ERROR(vec)                      \
     if (PyErr_Occurred()) {                              \
       if (PyErr_ExceptionMatches(PyExc_StopIteration)) { \
         PyErr_Clear();                                   \
       } else {                                           \
+        Py_XDECREF(vec);                                 \
         return NULL;                                     \
       }                                                  \
     }
@@ -886,7 +887,7 @@ static PyObject* PVector_extend(PVector *self, PyObject *iterable) {
     PyObject *item = iternext(it);
     if (item == NULL) {
       Py_DECREF(it);
-      HANDLE_ITERATION_ERROR()
+      HANDLE_ITERATION_ERROR(NULL)
       Py_INCREF(self);
       return (PyObject *)self;
     } else {
@@ -899,7 +900,7 @@ static PyObject* PVector_extend(PVector *self, PyObject *iterable) {
       }
 
       Py_DECREF(it);
-      HANDLE_ITERATION_ERROR()
+      HANDLE_ITERATION_ERROR(newVec)
       return (PyObject*)newVec;
     }
 }
-- 
2.43.0


From f76e3d45dbdb2bb8bdc952672fe4bf0fe612e45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:28 +0000
Subject: [PATCH 03/29] fix: keep the pvector evolver consistent while replaced
 objects are released

Releasing a replaced object may run a finalizer that uses the very same evolver
(or iterator), which then observed dangling references or wrote to vectors that
had already been handed out.
---
 pvectorcmodule.c | 106 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 69 insertions(+), 37 deletions(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index 8be6dae..f54a8e5 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -1206,8 +1206,8 @@ static PyObject *PVectorIter_next(PVectorIter *it) {
         return item;
     }
 
-    Py_DECREF(seq);
     it->it_seq = NULL;
+    Py_DECREF(seq);
     return NULL;
 }
 
@@ -1374,7 +1374,12 @@ static PyObject *PVectorEvolver_subscript(PVectorEvolver *self, PyObject *item)
   return NULL;
 }
 
-static VNode* doSetWithDirty(VNode* node, unsigned int level, unsigned int position, PyObject* value) {
+/*
+ Any object replaced in a dirty node is handed over to the caller which must drop the
+ reference to it once the evolver is in a consistent state since this may execute
+ arbitrary code.
+*/
+static VNode* doSetWithDirty(VNode* node, unsigned int level, unsigned int position, PyObject* value, PyObject** replaced) {
   VNode* resultNode;
   debug("doSetWithDirty(): level == %i\n", level);
   if(level == 0) {
@@ -1387,7 +1392,7 @@ static VNode* doSetWithDirty(VNode* node, unsigned int level, unsigned int posit
     } else {
       resultNode = node;
       Py_INCREF(value);
-      Py_DECREF(resultNode->items[position & BIT_MASK]);
+      *replaced = (PyObject*)resultNode->items[position & BIT_MASK];
       resultNode->items[position & BIT_MASK] = value;
     }
   } else {
@@ -1400,7 +1405,7 @@ static VNode* doSetWithDirty(VNode* node, unsigned int level, unsigned int posit
 
     Py_ssize_t index = (position >> level) & BIT_MASK;
     VNode* oldNode = (VNode*)resultNode->items[index];
-    resultNode->items[index] = doSetWithDirty(resultNode->items[index], level - SHIFT, position, value);
+    resultNode->items[index] = doSetWithDirty(resultNode->items[index], level - SHIFT, position, value, replaced);
 
     if(resultNode->items[index] != oldNode) {
       // Node replaced, drop references to old node
@@ -1448,22 +1453,63 @@ static PyObject *PVectorEvolver_delete(PVectorEvolver *self, PyObject *args) {
 }
 
 
+/*
+ Objects that have been replaced in the evolver. Dropping the references to them may
+ execute arbitrary code, including code that uses the evolver, and must hence not be
+ done until the evolver is in a consistent state.
+*/
+#define GARBAGE_SIZE 3
+
+static void releaseGarbage(PyObject **garbage) {
+  int i;
+  for(i = 0; i < GARBAGE_SIZE; i++) {
+    Py_XDECREF(garbage[i]);
+  }
+}
+
+/*
+ Returns a borrowed reference to the vector with all pending changes applied, the evolver is
+ reset to work on that vector.
+*/
+static PVector *realizeEvolver(PVectorEvolver *self, PyObject **garbage) {
+  if(self->newVector != self->originalVector) {
+    cleanVector(self->newVector);
+    garbage[0] = (PyObject*)self->originalVector;
+    self->originalVector = self->newVector;
+  }
+
+  if(PyList_GET_SIZE(self->appendList)) {
+    PVector *extendedVector = (PVector*)PVector_extend(self->newVector, self->appendList);
+    if(extendedVector == NULL) {
+      return NULL;
+    }
+
+    garbage[1] = (PyObject*)self->newVector;
+    garbage[2] = self->appendList;
+    initializeEvolver(self, extendedVector, NULL);
+  }
+
+  return self->newVector;
+}
+
 static int internalPVectorDelete(PVectorEvolver *self, Py_ssize_t position) {
   // Delete element. Should be unusual. Simple but expensive operation
   // that reuses the delete code for the vector. Realize the vector, delete on it and
   // then reset the evolver to work on the new vector.
-  PVector *temp = (PVector*)PVectorEvolver_persistent(self);
-  PVector *temp2 = (PVector*)internalDelete(temp, position, NULL);
-  Py_DECREF(temp);
+  PyObject *garbage[GARBAGE_SIZE] = {NULL};
+  PVector *vector = realizeEvolver(self, garbage);
+  PVector *newVector = NULL;
+  if(vector != NULL) {
+    newVector = (PVector*)internalDelete(vector, position, NULL);
+  }
 
-  if(temp2 == NULL) {
-    return -1;
+  if(newVector != NULL) {
+    initializeEvolver(self, newVector, self->appendList);
+    Py_DECREF(vector);
   }
 
-  Py_DECREF(self->originalVector);
-  self->originalVector = temp2;
-  self->newVector = self->originalVector;
-  return 0;
+  releaseGarbage(garbage);
+  return newVector == NULL ? -1 : 0;
 }
 
 static int PVectorEvolver_set_item(PVectorEvolver *self, PyObject* item, PyObject* value) {
@@ -1487,7 +1533,8 @@ static int PVectorEvolver_set_item(PVectorEvolver *self, PyObject* item, PyObjec
         PVector *vector = self->newVector;
         int inTail = position >= TAIL_OFF(vector);
         VNode *oldNode = inTail ? vector->tail : vector->root;
-        VNode *updatedNode = doSetWithDirty(oldNode, inTail ? 0 : vector->shift, position, value);
+        PyObject *replaced = NULL;
+        VNode *updatedNode = doSetWithDirty(oldNode, inTail ? 0 : vector->shift, position, value, &replaced);
         if(updatedNode != oldNode) {
           // Node replaced, drop the reference to the node shared with the original vector
           DEC_NODE_REF_COUNT(oldNode);
@@ -1499,17 +1546,16 @@ static int PVectorEvolver_set_item(PVectorEvolver *self, PyObject* item, PyObjec
           vector->root = updatedNode;
         }
 
+        Py_XDECREF(replaced);
         return 0;
       }
 
       return internalPVectorDelete(self, position);
     } else if((0 <= position) && (position < (self->newVector->count + PyList_GET_SIZE(self->appendList)))) {
       if (value != NULL) {
-        int result = PyList_SetItem(self->appendList, position - self->newVector->count, value); 
-        if(result == 0) {
-          Py_INCREF(value);
-        }
-        return result;
+        // Steals a reference, also in case of failure
+        Py_INCREF(value);
+        return PyList_SetItem(self->appendList, position - self->newVector->count, value);
       }
 
       return internalPVectorDelete(self, position);
@@ -1527,24 +1573,10 @@ static int PVectorEvolver_set_item(PVectorEvolver *self, PyObject* item, PyObjec
 }
 
 static PyObject *PVectorEvolver_persistent(PVectorEvolver *self) {
-  PVector *resultVector;
-  if(self->newVector != self->originalVector) {
-    cleanVector(self->newVector);
-    Py_DECREF(self->originalVector);
-  }
-
-  resultVector = self->newVector;
-
-  if(PyList_GET_SIZE(self->appendList)) {
-    PVector *oldVector = resultVector;
-    resultVector = (PVector*)PVector_extend(resultVector, self->appendList);
-    Py_DECREF(oldVector);
-    Py_DECREF(self->appendList);
-    self->appendList = NULL;
-  }
-
-  initializeEvolver(self, resultVector, self->appendList);
-  Py_INCREF(resultVector);  
+  PyObject *garbage[GARBAGE_SIZE] = {NULL};
+  PVector *resultVector = realizeEvolver(self, garbage);
+  Py_XINCREF(resultVector);
+  releaseGarbage(garbage);
   return (PyObject*)resultVector;
 }
 
-- 
2.43.0


From f072beff82ee0de857cfe96a1167df8247218a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:59 +0000
Subject: [PATCH 04/29] fix: let exceptions from element comparison through in
 pvector remove

---
 pvectorcmodule.c | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index f54a8e5..465d740 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -470,7 +470,7 @@ static int PVector_traverse(PVector *o, visitproc visit, void *arg) {
 }
 
 
-static PyObject* PVector_index(PVector *self, PyObject *args) {
+static Py_ssize_t internalIndex(PVector *self, PyObject *args, const char* notFoundMessage) {
   // A direct rip-off of the tuple version
   Py_ssize_t i, start=0, stop=self->count;
   PyObject *value;
@@ -478,7 +478,7 @@ static PyObject* PVector_index(PVector *self, PyObject *args) {
   if (!PyArg_ParseTuple(args, "O|O&O&:index", &value,
 			_PyEval_SliceIndex, &start,
 			_PyEval_SliceIndex, &stop)) {
-    return NULL;
+    return -1;
   }
   
   if (start < 0) {
@@ -498,14 +498,19 @@ static PyObject* PVector_index(PVector *self, PyObject *args) {
   for (i = start; i < stop && i < self->count; i++) {
     int cmp = PyObject_RichCompareBool(_get_item(self, i), value, Py_EQ);
     if (cmp > 0) {
-      return PyLong_FromSsize_t(i);
+      return i;
     } else if (cmp < 0) {
-      return NULL;
+      return -1;
     }
   }
 
-  PyErr_SetString(PyExc_ValueError, "PVector.index(x): x not in vector");
-  return NULL;
+  PyErr_SetString(PyExc_ValueError, notFoundMessage);
+  return -1;
+}
+
+static PyObject* PVector_index(PVector *self, PyObject *args) {
+  Py_ssize_t index = internalIndex(self, args, "PVector.index(x): x not in vector");
+  return index < 0 ? NULL : PyLong_FromSsize_t(index);
 }
 
 static PyObject* PVector_count(PVector *self, PyObject *value) {
@@ -1100,17 +1105,8 @@ static PyObject* PVector_delete(PVector *self, PyObject *args) {
 }
 
 static PyObject* PVector_remove(PVector *self, PyObject *args) {
-  Py_ssize_t index;
-  PyObject* py_index = PVector_index(self, args);
-
-  if(py_index != NULL) {
-      index = PyLong_AsSsize_t(py_index);
-    Py_DECREF(py_index);
-    return internalDelete(self, index, NULL);
-  }
-
-  PyErr_SetString(PyExc_ValueError, "PVector.remove(x): x not in vector");
-  return NULL;
+  Py_ssize_t index = internalIndex(self, args, "PVector.remove(x): x not in vector");
+  return index < 0 ? NULL : internalDelete(self, index, NULL);
 }
 
 
-- 
2.43.0


From 29e73df3fa45af072872a1c3017236f0d4b9fb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:10 +0000
Subject: [PATCH 05/29] fix: give equal vectors of the C and Python
 implementations equal hashes

---
 pvectorcmodule.c | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index 465d740..c09d973 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -282,26 +282,17 @@ static PyObject *PVector_repr(PVector *self) {
 
 
 static Py_hash_t PVector_hash(PVector *self) {
-  // Follows the pattern of the tuple hash
-  long x, y;
-  Py_ssize_t i;
-  long mult = 1000003L;
-  x = 0x456789L;
-  for(i=0; i<self->count; i++) {
-      y = PyObject_Hash(_get_item(self, i));
-      if (y == -1) {
-        return -1;
-      }
-      x = (x ^ y) * mult;
-      mult += (long)(82520L + i + i);
-  }
-
-  x += 97531L;
-  if(x == -1) {
-    x = -2;
+  // Same hash as for the tuple holding the same elements, just like the vectors
+  // implemented in Python which compare equal to this one
+  Py_hash_t hash;
+  PyObject *tuple = PySequence_Tuple((PyObject*)self);
+  if(tuple == NULL) {
+    return -1;
   }
 
-  return x;
+  hash = PyObject_Hash(tuple);
+  Py_DECREF(tuple);
+  return hash;
 }
 
 static PyObject* compareSizes(long vlen, long wlen, int op) {
-- 
2.43.0


From ffec5920d5b7b484bab6866c0b8ec4ae1f74c9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:06 +0000
Subject: [PATCH 06/29] fix: raise MemoryError instead of crashing when the C
 pvector runs out of memory

---
 pvectorcmodule.c | 326 ++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 278 insertions(+), 48 deletions(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index c09d973..c7bdc73 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -65,7 +65,16 @@ static PyObject* transform_fn = NULL;
 static PyObject* transform(PVector* self, PyObject* args) {
   if(transform_fn == NULL) {
     // transform to avoid circular import problems
-    transform_fn = PyObject_GetAttrString(PyImport_ImportModule("pyrsistent._transformations"), "transform");
+    PyObject *module = PyImport_ImportModule("pyrsistent._transformations");
+    if(module == NULL) {
+      return NULL;
+    }
+
+    transform_fn = PyObject_GetAttrString(module, "transform");
+    Py_DECREF(module);
+    if(transform_fn == NULL) {
+      return NULL;
+    }
   }
 
   return PyObject_CallFunctionObjArgs(transform_fn, self, args, NULL);
@@ -94,13 +103,20 @@ static PyMemberDef PVector_members[] = {
 #define SET_DIRTY(node) ((node)->refCount |= DIRTY_BIT)
 #define CLEAR_DIRTY(node) ((node)->refCount &= REF_COUNT_MASK)
 
+/* NB: Returns NULL, with an exception set, when out of memory. This is the case also for
+       all other functions returning a VNode or PVector. */
 static VNode* allocNode(void) {
   if(nodeCache.size > 0) {
     nodeCache.size--;
     return nodeCache.nodes[nodeCache.size];
   }
 
-  return PyMem_Malloc(sizeof(VNode));
+  VNode* result = PyMem_Malloc(sizeof(VNode));
+  if(result == NULL) {
+    PyErr_NoMemory();
+  }
+
+  return result;
 }
 
 static void freeNode(VNode *node) {
@@ -114,6 +130,10 @@ static void freeNode(VNode *node) {
 
 static VNode* newNode(void) {
   VNode* result = allocNode();
+  if(result == NULL) {
+    return NULL;
+  }
+
   memset(result, 0x0, sizeof(VNode));
   SET_NODE_REF_COUNT(result, 1);
   debug("newNode() %p\n", result);
@@ -125,6 +145,10 @@ static VNode* copyNode(VNode* source) {
          hold direct references to python objects but only to other nodes. */
   int i;
   VNode* result = allocNode();
+  if(result == NULL) {
+    return NULL;
+  }
+
   debug("copyNode() %p\n", result);
   memcpy(result->items, source->items, sizeof(source->items));
   
@@ -140,8 +164,9 @@ static VNode* copyNode(VNode* source) {
 }
 
 static PVector* emptyNewPvec(void);
+static PVector* newPvec(unsigned int count, unsigned int shift, VNode *root);
 static PVector* copyPVector(PVector *original);
-static void extendWithItem(PVector *newVec, PyObject *item);
+static int extendWithItem(PVector *newVec, PyObject *item);
 
 static PyObject *PVectorEvolver_persistent(PVectorEvolver *);
 static int PVectorEvolver_set_item(PVectorEvolver *, PyObject*, PyObject*);
@@ -253,6 +278,10 @@ static void PVector_dealloc(PVector *self) {
 static PyObject *PVector_toList(PVector *self) {
   Py_ssize_t i;
   PyObject *list = PyList_New(self->count);
+  if(list == NULL) {
+    return NULL;
+  }
+
   for (i = 0; i < self->count; ++i) {
     PyObject *o = _get_item(self, i);
     Py_INCREF(o);
@@ -266,6 +295,10 @@ static PyObject *PVector_toList(PVector *self) {
 static PyObject *PVector_repr(PVector *self) {
   // Reuse the list repr code, a bit less efficient but saves some code
   PyObject *list = PVector_toList(self);
+  if(list == NULL) {
+    return NULL;
+  }
+
   PyObject *list_repr = PyObject_Repr(list);
   Py_DECREF(list);
 
@@ -329,6 +362,10 @@ static PyObject* PVector_richcompare(PyObject *v, PyObject *w, int op) {
     if(!PVector_CheckExact(v) || !PVector_CheckExact(w)) {
       if(PVector_CheckExact(v)) {
         list = PVector_toList((PVector*)v);
+        if(list == NULL) {
+          return NULL;
+        }
+
         result = PyObject_RichCompare(list , w, op);
         Py_DECREF(list);
         return result; 
@@ -336,6 +373,10 @@ static PyObject* PVector_richcompare(PyObject *v, PyObject *w, int op) {
 
       if(PVector_CheckExact(w)) {
         list = PVector_toList((PVector*)w);
+        if(list == NULL) {
+          return NULL;
+        }
+
         result = PyObject_RichCompare(v, list, op);
         Py_DECREF(list);
         return result; 
@@ -416,9 +457,16 @@ static PyObject* PVector_repeat(PVector *self, Py_ssize_t n) {
   } else {
     Py_ssize_t i, j;
     PVector *newVec = copyPVector(self);
+    if(newVec == NULL) {
+      return NULL;
+    }
+
     for(i=0; i<(n-1); i++) {
       for(j=0; j<self->count; j++) {
-        extendWithItem(newVec, PVector_get_item(self, j));
+        if(extendWithItem(newVec, PVector_get_item(self, j)) < 0) {
+          Py_DECREF(newVec);
+          return NULL;
+        }
       }
     }
     return (PyObject*)newVec;
@@ -523,22 +571,31 @@ static PyObject* PVector_count(PVector *self, PyObject *value) {
 static PyObject* PVector_pickle_reduce(PVector *self) {
 
   PyObject* module = PyImport_ImportModule("pvectorc");
+  if(module == NULL) {
+    return NULL;
+  }
+
   PyObject* pvector_fn = PyObject_GetAttrString(module, "pvector");
   Py_DECREF(module);
+  if(pvector_fn == NULL) {
+    return NULL;
+  }
 
   PyObject *list = PVector_toList(self);
-  PyObject *arg_tuple = PyTuple_New(1);
-  PyTuple_SET_ITEM(arg_tuple, 0, list);
-
-  PyObject *result_tuple = PyTuple_New(2);
-  PyTuple_SET_ITEM(result_tuple, 0, pvector_fn);
-  PyTuple_SET_ITEM(result_tuple, 1, arg_tuple);
+  if(list == NULL) {
+    Py_DECREF(pvector_fn);
+    return NULL;
+  }
 
-  return result_tuple;
+  return Py_BuildValue("N(N)", pvector_fn, list);
 }
 
 static PVector* rawCopyPVector(PVector* vector) {
   PVector* newVector = PyObject_GC_New(PVector, &PVectorType);
+  if(newVector == NULL) {
+    return NULL;
+  }
+
   newVector->count = vector->count;
   newVector->shift = vector->shift;
   newVector->root = vector->root;
@@ -555,20 +612,21 @@ static void initializeEvolver(PVectorEvolver* evolver, PVector* vector, PyObject
   // the ref counting properly.
   evolver->originalVector = vector;
   evolver->newVector = vector;
-
-  if(appendList == NULL) {
-    evolver->appendList = PyList_New(0);
-  } else {
-    evolver->appendList = appendList;
-  }
+  evolver->appendList = appendList;
 }
 
 static PyObject * PVector_evolver(PVector *self) {
+  PyObject *appendList = PyList_New(0);
+  if (appendList == NULL) {
+    return NULL;
+  }
+
   PVectorEvolver *evolver = PyObject_GC_New(PVectorEvolver, &PVectorEvolverType);
   if (evolver == NULL) {
+    Py_DECREF(appendList);
     return NULL;
   }
-  initializeEvolver(evolver, self, NULL);
+  initializeEvolver(evolver, self, appendList);
   PyObject_GC_Track(evolver);
   Py_INCREF(self);
   return (PyObject *)evolver;
@@ -691,14 +749,16 @@ static PyObject* pyrsistent_pvec(PyObject *self, PyObject *args) {
 }
 
 static PVector* emptyNewPvec(void) {
-  PVector *pvec = PyObject_GC_New(PVector, &PVectorType);
-  debug("pymem alloc_new %x, ref cnt: %u\n", pvec, pvec->ob_refcnt);
-  pvec->count = (Py_ssize_t)0;
-  pvec->shift = SHIFT;
-  pvec->root = newNode();
-  pvec->tail = newNode();
-  pvec->in_weakreflist = NULL;
-  PyObject_GC_Track((PyObject*)pvec);
+  VNode *root = newNode();
+  if(root == NULL) {
+    return NULL;
+  }
+
+  PVector *pvec = newPvec(0, SHIFT, root);
+  if(pvec == NULL) {
+    freeNode(root);
+  }
+
   return pvec;
 }
 
@@ -714,12 +774,22 @@ static void incRefs(PyObject **obj) {
 
 static PVector* newPvec(unsigned int count, unsigned int shift, VNode *root) {
   // TODO-OPT: Introduce object cache
+  VNode *tail = newNode();
+  if(tail == NULL) {
+    return NULL;
+  }
+
   PVector *pvec = PyObject_GC_New(PVector, &PVectorType);
+  if(pvec == NULL) {
+    freeNode(tail);
+    return NULL;
+  }
+
   debug("pymem alloc_copy %x, ref cnt: %u\n", pvec, pvec->ob_refcnt);
   pvec->count = count;
   pvec->shift = shift;
   pvec->root = root;
-  pvec->tail = newNode();
+  pvec->tail = tail;
   pvec->in_weakreflist = NULL;
   PyObject_GC_Track((PyObject*)pvec);
   return pvec;
@@ -732,7 +802,16 @@ static VNode* newPath(unsigned int level, VNode* node){
   }
   
   VNode* result = newNode();
+  if(result == NULL) {
+    return NULL;
+  }
+
   result->items[0] = newPath(level - SHIFT, node);
+  if(result->items[0] == NULL) {
+    freeNode(result);
+    return NULL;
+  }
+
   return result;
 }
 
@@ -741,6 +820,10 @@ static VNode* pushTail(unsigned int level, unsigned int count, VNode* parent, VN
   VNode* result = copyNode(parent);
   VNode* nodeToInsert;
   VNode* child;
+  if(result == NULL) {
+    return NULL;
+  }
+
   debug("pushTail(): count = %i, subIndex = %i\n", count, subIndex);
 
   if(level == SHIFT) {
@@ -753,6 +836,10 @@ static VNode* pushTail(unsigned int level, unsigned int count, VNode* parent, VN
 
     if(child != NULL) {
       nodeToInsert = pushTail(level - SHIFT, count, child, tail);
+      if(nodeToInsert == NULL) {
+        releaseNode(level, result);
+        return NULL;
+      }
 
       // Need to make an adjustment of the ref COUNT for the child node here since
       // it was incremented in an earlier stage when the node was copied. Now the child
@@ -761,6 +848,10 @@ static VNode* pushTail(unsigned int level, unsigned int count, VNode* parent, VN
       DEC_NODE_REF_COUNT(child);
     } else {
       nodeToInsert = newPath(level - SHIFT, tail);
+      if(nodeToInsert == NULL) {
+        releaseNode(level, result);
+        return NULL;
+      }
     }
   }
   
@@ -768,27 +859,63 @@ static VNode* pushTail(unsigned int level, unsigned int count, VNode* parent, VN
   return result;
 }
 
+/* Takes over the reference to the root of the vector, upon success */
+static VNode* rootWithTail(PVector* vector) {
+  VNode* result = newNode();
+  if(result == NULL) {
+    return NULL;
+  }
+
+  result->items[0] = vector->root;
+  result->items[1] = newPath(vector->shift, vector->tail);
+  if(result->items[1] == NULL) {
+    freeNode(result);
+    return NULL;
+  }
+
+  return result;
+}
+
 static PVector* copyPVector(PVector *original) {
   PVector *newVec = newPvec(original->count, original->shift, original->root);
+  if(newVec == NULL) {
+    return NULL;
+  }
+
   INC_NODE_REF_COUNT(original->root);
   memcpy(newVec->tail->items, original->tail->items, TAIL_SIZE(original) * sizeof(void*));
   incRefs((PyObject**)newVec->tail->items);
   return newVec;
 }
 
-/* Does not steal a reference, this must be managed outside of this function */
-static void extendWithItem(PVector *newVec, PyObject *item) {
+/* Takes over the reference to item, also upon failure when -1 is returned and the vector is
+   left unchanged. */
+static int extendWithItem(PVector *newVec, PyObject *item) {
   unsigned int tail_size = TAIL_SIZE(newVec);
 
   if(tail_size >= BRANCH_FACTOR) {
     VNode* new_root;
+    VNode* new_tail = newNode();
+    if(new_tail == NULL) {
+      Py_DECREF(item);
+      return -1;
+    }
+
     if(ROOT_NODE_FULL(newVec)) {
-      new_root = newNode();
-      new_root->items[0] = newVec->root;
-      new_root->items[1] = newPath(newVec->shift, newVec->tail);
-      newVec->shift += SHIFT;
+      new_root = rootWithTail(newVec);
     } else {
       new_root = pushTail(newVec->shift, newVec->count, newVec->root, newVec->tail);
+    }
+
+    if(new_root == NULL) {
+      freeNode(new_tail);
+      Py_DECREF(item);
+      return -1;
+    }
+
+    if(ROOT_NODE_FULL(newVec)) {
+      newVec->shift += SHIFT;
+    } else {
       releaseNode(newVec->shift, newVec->root);
     }
 
@@ -797,12 +924,13 @@ static void extendWithItem(PVector *newVec, PyObject *item) {
     // Need to adjust the ref count of the old tail here since no new references were
     // actually created, we just moved the tail.
     DEC_NODE_REF_COUNT(newVec->tail);
-    newVec->tail = newNode();
+    newVec->tail = new_tail;
     tail_size = 0;
   }
 
   newVec->tail->items[tail_size] = item;    
   newVec->count++;
+  return 0;
 }
 
 
@@ -833,8 +961,15 @@ static PyObject *PVector_subscript(PVector* self, PyObject* item) {
       return (PyObject*)self;
     } else {
       PVector *newVec = copyPVector(EMPTY_VECTOR);
+      if(newVec == NULL) {
+        return NULL;
+      }
+
       for (cur=start, i=0; i<slicelength; cur += (size_t)step, i++) {
-        extendWithItem(newVec, PVector_get_item(self, cur));
+        if(extendWithItem(newVec, PVector_get_item(self, cur)) < 0) {
+          Py_DECREF(newVec);
+          return NULL;
+        }
       }
       
       return (PyObject*)newVec;
@@ -888,10 +1023,21 @@ static PyObject* PVector_extend(PVector *self, PyObject *iterable) {
       return (PyObject *)self;
     } else {
       PVector *newVec = copyPVector(self);
+      if(newVec == NULL) {
+        Py_DECREF(item);
+        Py_DECREF(it);
+        return NULL;
+      }
+
       // TODO-OPT test using special case code here for extension to
       // avoid recalculating tail length all the time.
       while(item != NULL) {
-        extendWithItem(newVec, item);
+        if(extendWithItem(newVec, item) < 0) {
+          Py_DECREF(it);
+          Py_DECREF(newVec);
+          return NULL;
+        }
+
         item = iternext(it);
       }
 
@@ -913,8 +1059,12 @@ static PyObject* PVector_append(PVector *self, PyObject *obj) {
   // Does the new object fit in the tail? If so, take a copy of the tail and
   // insert the new element in that.
   if(tail_size < BRANCH_FACTOR) {
-    INC_NODE_REF_COUNT(self->root);
     PVector *new_pvec = newPvec(self->count + 1, self->shift, self->root);
+    if(new_pvec == NULL) {
+      return NULL;
+    }
+
+    INC_NODE_REF_COUNT(self->root);
     // TODO-OPT No need to copy more than the current tail length
     // TODO-OPT No need to incRefs for all elements all the time
     copyInsert(new_pvec->tail->items, self->tail->items, tail_size, obj);
@@ -929,17 +1079,26 @@ static PyObject* PVector_append(PVector *self, PyObject *obj) {
   VNode* new_root;
   unsigned int new_shift;
   if(ROOT_NODE_FULL(self)) {
-    new_root = newNode();
-    new_root->items[0] = self->root;
-    INC_NODE_REF_COUNT(self->root);
-    new_root->items[1] = newPath(self->shift, self->tail);
+    new_root = rootWithTail(self);
+    if(new_root != NULL) {
+      INC_NODE_REF_COUNT(self->root);
+    }
     new_shift = self->shift + SHIFT;
   } else {
     new_root = pushTail(self->shift, self->count, self->root, self->tail);
     new_shift = self->shift;
   }
 
+  if(new_root == NULL) {
+    return NULL;
+  }
+
   PVector* pvec = newPvec(self->count + 1, new_shift, new_root);
+  if(pvec == NULL) {
+    releaseNode(new_shift, new_root);
+    return NULL;
+  }
+
   pvec->tail->items[0] = obj;
   Py_XINCREF(obj);
   debug("append_push(): pvec=%p, pvec->tail=%p, pvec->root=%p\n", pvec, pvec->tail, pvec->root);
@@ -952,16 +1111,30 @@ static VNode* doSet(VNode* node, unsigned int level, unsigned int position, PyOb
     // TODO-OPT: Perhaps an alloc followed by a reset of reference
     // count is enough here since we overwrite all subnodes below.
     VNode* theNewNode = newNode();
+    if(theNewNode == NULL) {
+      return NULL;
+    }
+
     copyInsert(theNewNode->items, node->items, position & BIT_MASK, value);
     incRefs((PyObject**)theNewNode->items);
     return theNewNode;
   } else {
-    VNode* theNewNode = copyNode(node);
     Py_ssize_t index = (position >> level) & BIT_MASK;
+    VNode* theNewChild;
+    VNode* theNewNode = copyNode(node);
+    if(theNewNode == NULL) {
+      return NULL;
+    }
+
+    theNewChild = doSet(node->items[index], level - SHIFT, position, value);
+    if(theNewChild == NULL) {
+      releaseNode(level, theNewNode);
+      return NULL;
+    }
 
     // Drop reference to this node since we're about to replace it
     DEC_NODE_REF_COUNT((VNode*)theNewNode->items[index]);
-    theNewNode->items[index] = doSet(node->items[index], level - SHIFT, position, value); 
+    theNewNode->items[index] = theNewChild;
     return theNewNode;
   }
 }
@@ -975,15 +1148,27 @@ static PyObject* internalSet(PVector *self, Py_ssize_t position, PyObject *argOb
   if((0 <= position) && (position < self->count)) {
     if(position >= TAIL_OFF(self)) {
       // Reuse the root, replace the tail
-      INC_NODE_REF_COUNT(self->root);
       PVector *new_pvec = newPvec(self->count, self->shift, self->root);
+      if(new_pvec == NULL) {
+        return NULL;
+      }
+
+      INC_NODE_REF_COUNT(self->root);
       copyInsert(new_pvec->tail->items, self->tail->items, position & BIT_MASK, argObj);
       incRefs((PyObject**)new_pvec->tail->items);
       return (PyObject*)new_pvec;
     } else {
       // Keep the tail, replace the root
       VNode *newRoot = doSet(self->root, self->shift, position, argObj);
+      if(newRoot == NULL) {
+        return NULL;
+      }
+
       PVector *new_pvec = newPvec(self->count, self->shift, newRoot);
+      if(new_pvec == NULL) {
+        releaseNode(self->shift, newRoot);
+        return NULL;
+      }
 
       // Free the tail and replace it with a reference to the tail of the original vector
       freeNode(new_pvec->tail);
@@ -1028,6 +1213,10 @@ static PyObject* PVector_mset(PVector *self, PyObject *args) {
   }
 
   PVectorEvolver* evolver = (PVectorEvolver*)PVector_evolver(self);
+  if(evolver == NULL) {
+    return NULL;
+  }
+
   Py_ssize_t i;
   for(i=0; i<size; i+=2) {
     if(PVectorEvolver_set_item(evolver, PyTuple_GetItem(args, i), PyTuple_GetItem(args, i + 1)) < 0) {
@@ -1075,7 +1264,12 @@ static PyObject* internalDelete(PVector *self, Py_ssize_t index, PyObject *stop_
   }
 
   list = PVector_toList(self);
+  if(list == NULL) {
+    return NULL;
+  }
+
   if(PyList_SetSlice(list, index, stop, NULL) < 0) {
+    Py_DECREF(list);
     return NULL;
   }
 
@@ -1372,6 +1566,10 @@ static VNode* doSetWithDirty(VNode* node, unsigned int level, unsigned int posit
   if(level == 0) {
     if(!IS_DIRTY(node)) {
       resultNode = allocNode();
+      if(resultNode == NULL) {
+        return NULL;
+      }
+
       copyInsert(resultNode->items, node->items, position & BIT_MASK, value);
       SET_NODE_REF_COUNT(resultNode, 1);
       incRefs((PyObject**)resultNode->items);
@@ -1385,6 +1583,10 @@ static VNode* doSetWithDirty(VNode* node, unsigned int level, unsigned int posit
   } else {
     if(!IS_DIRTY(node)) {
       resultNode = copyNode(node);
+      if(resultNode == NULL) {
+        return NULL;
+      }
+
       SET_DIRTY(resultNode);
     } else {
       resultNode = node;
@@ -1392,9 +1594,18 @@ static VNode* doSetWithDirty(VNode* node, unsigned int level, unsigned int posit
 
     Py_ssize_t index = (position >> level) & BIT_MASK;
     VNode* oldNode = (VNode*)resultNode->items[index];
-    resultNode->items[index] = doSetWithDirty(resultNode->items[index], level - SHIFT, position, value, replaced);
+    VNode* updatedNode = doSetWithDirty(oldNode, level - SHIFT, position, value, replaced);
+    if(updatedNode == NULL) {
+      if(resultNode != node) {
+        CLEAR_DIRTY(resultNode);
+        releaseNode(level, resultNode);
+      }
+
+      return NULL;
+    }
 
-    if(resultNode->items[index] != oldNode) {
+    resultNode->items[index] = updatedNode;
+    if(updatedNode != oldNode) {
       // Node replaced, drop references to old node
       DEC_NODE_REF_COUNT(oldNode);
     }
@@ -1466,14 +1677,20 @@ static PVector *realizeEvolver(PVectorEvolver *self, PyObject **garbage) {
   }
 
   if(PyList_GET_SIZE(self->appendList)) {
+    PyObject *appendList = PyList_New(0);
+    if(appendList == NULL) {
+      return NULL;
+    }
+
     PVector *extendedVector = (PVector*)PVector_extend(self->newVector, self->appendList);
     if(extendedVector == NULL) {
+      Py_DECREF(appendList);
       return NULL;
     }
 
     garbage[1] = (PyObject*)self->newVector;
     garbage[2] = self->appendList;
-    initializeEvolver(self, extendedVector, NULL);
+    initializeEvolver(self, extendedVector, appendList);
   }
 
   return self->newVector;
@@ -1513,7 +1730,12 @@ static int PVectorEvolver_set_item(PVectorEvolver *self, PyObject* item, PyObjec
     if((0 <= position) && (position < self->newVector->count)) {
       if(self->originalVector == self->newVector) {
         // Create new vector since we're about to modify the original
-        self->newVector = rawCopyPVector(self->originalVector);
+        PVector *copy = rawCopyPVector(self->originalVector);
+        if(copy == NULL) {
+          return -1;
+        }
+
+        self->newVector = copy;
       }
 
       if(value != NULL) {
@@ -1522,6 +1744,10 @@ static int PVectorEvolver_set_item(PVectorEvolver *self, PyObject* item, PyObjec
         VNode *oldNode = inTail ? vector->tail : vector->root;
         PyObject *replaced = NULL;
         VNode *updatedNode = doSetWithDirty(oldNode, inTail ? 0 : vector->shift, position, value, &replaced);
+        if(updatedNode == NULL) {
+          return -1;
+        }
+
         if(updatedNode != oldNode) {
           // Node replaced, drop the reference to the node shared with the original vector
           DEC_NODE_REF_COUNT(oldNode);
@@ -1641,6 +1867,10 @@ static PyObject* pyrsistent_pvectorc_moduleinit(void) {
 
   if(EMPTY_VECTOR == NULL) {
     EMPTY_VECTOR = emptyNewPvec();
+    if(EMPTY_VECTOR == NULL) {
+      Py_DECREF(m);
+      return NULL;
+    }
   }
 
   nodeCache.size = 0;
-- 
2.43.0


From 3bf5652e409ea775b85ba620324b3682860c62fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:13 +0000
Subject: [PATCH 07/29] fix: keep the updates when persistent() is called again
 on set and checked evolvers

The second call, without any update in between, returned the value that the
evolver was created from.
---
 pyrsistent/_checked_types.py | 4 ++--
 pyrsistent/_pset.py          | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyrsistent/_checked_types.py b/pyrsistent/_checked_types.py
index 56146b5..0942f91 100644
--- a/pyrsistent/_checked_types.py
+++ b/pyrsistent/_checked_types.py
@@ -428,7 +428,7 @@ class CheckedPSet(PSet[T_co], CheckedType, metaclass=_CheckedTypeMeta):
                 raise InvariantException(error_codes=self._invariant_errors)
 
             if self.is_dirty() or self._destination_class != type(self._original_pset):
-                return self._destination_class(self._pmap_evolver.persistent())
+                self._original_pset = self._destination_class(self._pmap_evolver.persistent())
 
             return self._original_pset
 
@@ -542,6 +542,6 @@ class CheckedPMap(PMap[KT, VT_co], CheckedType, metaclass=_CheckedMapTypeMeta):
                 raise InvariantException(error_codes=self._invariant_errors)
 
             if self.is_dirty() or type(self._original_pmap) != self._destination_class:
-                return self._destination_class(self._buckets_evolver.persistent(), self._size)
+                self._original_pmap = self._destination_class(self._buckets_evolver.persistent(), self._size)
 
             return self._original_pmap
diff --git a/pyrsistent/_pset.py b/pyrsistent/_pset.py
index 6247607..2d67178 100644
--- a/pyrsistent/_pset.py
+++ b/pyrsistent/_pset.py
@@ -129,10 +129,10 @@ class PSet(Generic[T_co]):
             return self._pmap_evolver.is_dirty()
 
         def persistent(self):
-            if not self.is_dirty():
-                return  self._original_pset
+            if self.is_dirty():
+                self._original_pset = PSet(self._pmap_evolver.persistent())
 
-            return PSet(self._pmap_evolver.persistent())
+            return self._original_pset
 
         def __len__(self):
             return len(self._pmap_evolver)
-- 
2.43.0


From e417fff96b2a608655efd7a353958efcd5c36b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:13 +0000
Subject: [PATCH 08/29] fix: do not lose evolver updates when a key fails to
 hash during pmap reallocation

---
 pyrsistent/_pmap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyrsistent/_pmap.py b/pyrsistent/_pmap.py
index 0d82c43..d7e8f64 100644
--- a/pyrsistent/_pmap.py
+++ b/pyrsistent/_pmap.py
@@ -442,7 +442,9 @@ class PMap(Generic[KT, VT_co]):
         def _reallocate(self):
             new_size = 2 * len(self._buckets_evolver)
             new_list = new_size * [None]
-            buckets = self._buckets_evolver.persistent()
+            # NB: Leave the current buckets evolver as it is, including its dirtiness, until all keys
+            #     have been hashed. The updates done so far would be lost if one of those raises.
+            buckets = (self._buckets_evolver[ix] for ix in range(len(self._buckets_evolver)))
             for k, v in chain.from_iterable(x for x in buckets if x):
                 index = hash(k) % new_size
                 if new_list[index]:
-- 
2.43.0


From 81d480ee255b58bd6e660bc85373df9cf6c453dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:13 +0000
Subject: [PATCH 09/29] fix: check the elements when creating checked vectors
 and sets from persistent ones

CheckedPVector subclasses did not check anything when given a Python pvector, nor
did CheckedPSet subclasses when given a pmap.
---
 pyrsistent/_checked_types.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/pyrsistent/_checked_types.py b/pyrsistent/_checked_types.py
index 0942f91..1644be3 100644
--- a/pyrsistent/_checked_types.py
+++ b/pyrsistent/_checked_types.py
@@ -276,6 +276,11 @@ def _checked_type_create(cls, source_data, _factory_fields=None, ignore_extra=Fa
 
     return cls(source_data)
 
+class _CheckedElementsPVector(PythonPVector):
+    # Marks elements that have already been checked
+    __slots__ = ()
+
+
 class CheckedPVector(Generic[T_co], PythonPVector, CheckedType, metaclass=_CheckedTypeMeta):
     """
     A CheckedPVector is a PVector which allows specifying type and invariant checks.
@@ -291,7 +296,7 @@ class CheckedPVector(Generic[T_co], PythonPVector, CheckedType, metaclass=_Check
     __slots__ = ()
 
     def __new__(cls, initial=()):
-        if type(initial) == PythonPVector:
+        if type(initial) is _CheckedElementsPVector:
             return super(CheckedPVector, cls).__new__(cls, initial._count, initial._shift, initial._root, initial._tail)
 
         return CheckedPVector.Evolver(cls, python_pvector()).extend(initial).persistent()
@@ -348,7 +353,8 @@ class CheckedPVector(Generic[T_co], PythonPVector, CheckedType, metaclass=_Check
             result = self._orig_pvector
             if self.is_dirty() or (self._destination_class != type(self._orig_pvector)):
                 pv = super(CheckedPVector.Evolver, self).persistent().extend(self._extra_tail)
-                result = self._destination_class(pv)
+                result = self._destination_class(
+                    _CheckedElementsPVector(pv._count, pv._shift, pv._root, pv._tail))
                 self._reset(result)
 
             return result
@@ -362,6 +368,11 @@ class CheckedPVector(Generic[T_co], PythonPVector, CheckedType, metaclass=_Check
         return CheckedPVector.Evolver(self.__class__, self)
 
 
+class _CheckedElementsPMap(PMap):
+    # Marks elements that have already been checked
+    __slots__ = ()
+
+
 class CheckedPSet(PSet[T_co], CheckedType, metaclass=_CheckedTypeMeta):
     """
     A CheckedPSet is a PSet which allows specifying type and invariant checks.
@@ -377,8 +388,8 @@ class CheckedPSet(PSet[T_co], CheckedType, metaclass=_CheckedTypeMeta):
     __slots__ = ()
 
     def __new__(cls, initial=()):
-        if type(initial) is PMap:
-            return super(CheckedPSet, cls).__new__(cls, initial)
+        if type(initial) is _CheckedElementsPMap:
+            return super(CheckedPSet, cls).__new__(cls, PMap(initial._size, initial._buckets))
 
         evolver = CheckedPSet.Evolver(cls, pset())
         for e in initial:
@@ -428,7 +439,8 @@ class CheckedPSet(PSet[T_co], CheckedType, metaclass=_CheckedTypeMeta):
                 raise InvariantException(error_codes=self._invariant_errors)
 
             if self.is_dirty() or self._destination_class != type(self._original_pset):
-                self._original_pset = self._destination_class(self._pmap_evolver.persistent())
+                pm = self._pmap_evolver.persistent()
+                self._original_pset = self._destination_class(_CheckedElementsPMap(pm._size, pm._buckets))
 
             return self._original_pset
 
-- 
2.43.0


From c51136f473c7ed5a50982b7d54724fb8fdb0af53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:13 +0000
Subject: [PATCH 10/29] fix: let the hash of a pset depend on its elements only

The keys() of a pmap are equal to a pset with the same elements but had another hash.
---
 pyrsistent/_pset.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyrsistent/_pset.py b/pyrsistent/_pset.py
index 2d67178..ef588ff 100644
--- a/pyrsistent/_pset.py
+++ b/pyrsistent/_pset.py
@@ -28,7 +28,7 @@ class PSet(Generic[T_co]):
     >>> s3
     pset([1, 3, 4])
     """
-    __slots__ = ('_map', '__weakref__')
+    __slots__ = ('_map', '_cached_hash', '__weakref__')
 
     def __new__(cls, m):
         self = super(PSet, cls).__new__(cls)
@@ -54,7 +54,11 @@ class PSet(Generic[T_co]):
         return self.__repr__()
 
     def __hash__(self):
-        return hash(self._map)
+        # The values of the map must not be part of the hash, they can be anything for
+        # a set that represents the keys of a map.
+        if not hasattr(self, '_cached_hash'):
+            self._cached_hash = hash(frozenset(self._map))
+        return self._cached_hash
 
     def __reduce__(self):
         # Pickling support
-- 
2.43.0


From b403c02333e54d3ae07771b631f8c5f6f1e13b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:13 +0000
Subject: [PATCH 11/29] fix: use one generated field type only when declaring
 fields concurrently

With two types for the same declaration values could neither be exchanged between
the classes nor unpickled.
---
 pyrsistent/_field_common.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyrsistent/_field_common.py b/pyrsistent/_field_common.py
index 508dd2f..9099191 100644
--- a/pyrsistent/_field_common.py
+++ b/pyrsistent/_field_common.py
@@ -200,8 +200,8 @@ def _make_seq_field_type(checked_class, item_type, item_invariant):
 
     suffix = SEQ_FIELD_TYPE_SUFFIXES[checked_class]
     TheType.__name__ = _types_to_names(TheType._checked_types) + suffix
-    _seq_field_types[checked_class, item_type] = TheType
-    return TheType
+    # Another thread may have created the type in the meantime
+    return _seq_field_types.setdefault((checked_class, item_type), TheType)
 
 def _sequence_field(checked_class, item_type, optional, initial,
                     invariant=PFIELD_NO_INVARIANT,
@@ -300,8 +300,8 @@ def _make_pmap_field_type(key_type, value_type):
     TheMap.__name__ = "{0}To{1}PMap".format(
         _types_to_names(TheMap._checked_key_types),
         _types_to_names(TheMap._checked_value_types))
-    _pmap_field_types[key_type, value_type] = TheMap
-    return TheMap
+    # Another thread may have created the type in the meantime
+    return _pmap_field_types.setdefault((key_type, value_type), TheMap)
 
 
 def pmap_field(key_type, value_type, optional=False, invariant=PFIELD_NO_INVARIANT):
-- 
2.43.0


From 9dcbaf26db7ca1afa36df9e48ebface5b77ae261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:13 +0000
Subject: [PATCH 12/29] fix: respect maxlen in pdeque reverse, remove and when
 it is zero

---
 pyrsistent/_pdeque.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyrsistent/_pdeque.py b/pyrsistent/_pdeque.py
index 0f25936..aa04ee8 100644
--- a/pyrsistent/_pdeque.py
+++ b/pyrsistent/_pdeque.py
@@ -272,13 +272,13 @@ class PDeque(Generic[T_co]):
         pdeque([1, 2])
         """
         try:
-            return PDeque(self._left_list.remove(elem), self._right_list, self._length - 1)
+            return PDeque(self._left_list.remove(elem), self._right_list, self._length - 1, self._maxlen)
         except ValueError:
             # Value not found in left list, try the right list
             try:
                 # This is severely inefficient with a double reverse, should perhaps implement a remove_last()?
                 return PDeque(self._left_list,
-                              self._right_list.reverse().remove(elem).reverse(), self._length - 1)
+                              self._right_list.reverse().remove(elem).reverse(), self._length - 1, self._maxlen)
             except ValueError as e:
                 raise ValueError('{0} not found in PDeque'.format(elem)) from e
 
@@ -294,7 +294,7 @@ class PDeque(Generic[T_co]):
         >>> reversed(pdeque([1, 2, 3]))
         pdeque([3, 2, 1])
         """
-        return PDeque(self._right_list, self._left_list, self._length)
+        return PDeque(self._right_list, self._left_list, self._length, self._maxlen)
     __reversed__ = reverse
 
     def rotate(self, steps):
@@ -362,7 +362,7 @@ def pdeque(iterable=(), maxlen=None):
     """
     t = tuple(iterable)
     if maxlen is not None:
-        t = t[-maxlen:]
+        t = t[max(len(t) - maxlen, 0):]
     length = len(t)
     pivot = int(length / 2)
     left = plist(t[:pivot])
-- 
2.43.0


From cd42500bc1c7de2d2c4b375c677fb276a08f39ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:13 +0000
Subject: [PATCH 13/29] fix: follow list and deque semantics for pdeque slices,
 pdeque rotation and negative plist slices

---
 pyrsistent/_pdeque.py | 13 ++++++-------
 pyrsistent/_plist.py  |  2 +-
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/pyrsistent/_pdeque.py b/pyrsistent/_pdeque.py
index aa04ee8..ecf0a27 100644
--- a/pyrsistent/_pdeque.py
+++ b/pyrsistent/_pdeque.py
@@ -307,6 +307,10 @@ class PDeque(Generic[T_co]):
         >>> x.rotate(-2)
         pdeque([3, 1, 2])
         """
+        if self._length:
+            # Full turns don't change anything
+            steps = steps % self._length if steps >= 0 else -(-steps % self._length)
+
         popped_deque = self.pop(steps)
         if steps >= 0:
             return popped_deque.extendleft(islice(self.reverse(), steps))
@@ -323,13 +327,8 @@ class PDeque(Generic[T_co]):
                 # Too difficult, no structural sharing possible
                 return pdeque(tuple(self)[index], maxlen=self._maxlen)
 
-            result = self
-            if index.start is not None:
-                result = result.popleft(index.start % self._length)
-            if index.stop is not None:
-                result = result.pop(self._length - (index.stop % self._length))
-
-            return result
+            start, stop, _ = index.indices(self._length)
+            return self.popleft(start).pop(self._length - max(start, stop))
 
         if not isinstance(index, Integral):
             raise TypeError("'%s' object cannot be interpreted as an index" % type(index).__name__)
diff --git a/pyrsistent/_plist.py b/pyrsistent/_plist.py
index 322e15d..b6c355b 100644
--- a/pyrsistent/_plist.py
+++ b/pyrsistent/_plist.py
@@ -167,7 +167,7 @@ class _PListBase(object):
         # very inefficient! Use a PVector instead!
 
         if isinstance(index, slice):
-            if index.start is not None and index.stop is None and (index.step is None or index.step == 1):
+            if index.start is not None and index.start >= 0 and index.stop is None and (index.step is None or index.step == 1):
                 return self._drop(index.start)
 
             # Take the easy way out for all other slicing cases, not much structural reuse possible anyway
-- 
2.43.0


From 058cedebe0654a1a45747e83e348b38364ccc35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:13 +0000
Subject: [PATCH 14/29] fix: do not mistake a map element for the cached hash
 of a pmap

hasattr() finds the elements of the map too, as do lookups of not yet set slots.
---
 pyrsistent/_pmap.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyrsistent/_pmap.py b/pyrsistent/_pmap.py
index d7e8f64..6c2b1ae 100644
--- a/pyrsistent/_pmap.py
+++ b/pyrsistent/_pmap.py
@@ -151,6 +151,7 @@ class PMap(Generic[KT, VT_co]):
         self = super(PMap, cls).__new__(cls)
         self._size = size
         self._buckets = buckets
+        self._cached_hash = None
         return self
 
     @staticmethod
@@ -247,7 +248,7 @@ class PMap(Generic[KT, VT_co]):
         if len(self) != len(other):
             return False
         if isinstance(other, PMap):
-            if (hasattr(self, '_cached_hash') and hasattr(other, '_cached_hash')
+            if (self._cached_hash is not None and other._cached_hash is not None
                     and self._cached_hash != other._cached_hash):
                 return False
             if self._buckets == other._buckets:
@@ -270,7 +271,7 @@ class PMap(Generic[KT, VT_co]):
         return self.__repr__()
 
     def __hash__(self):
-        if not hasattr(self, '_cached_hash'):
+        if self._cached_hash is None:
             self._cached_hash = hash(frozenset(self.iteritems()))
         return self._cached_hash
 
-- 
2.43.0


From 5a6e4d93eb53f032aafeb3a75c73fcc03d0c5d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:33 +0000
Subject: [PATCH 15/29] fix: inherit the types of a checked collection over
 more than one level

---
 pyrsistent/_checked_types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyrsistent/_checked_types.py b/pyrsistent/_checked_types.py
index 1644be3..72df15e 100644
--- a/pyrsistent/_checked_types.py
+++ b/pyrsistent/_checked_types.py
@@ -104,9 +104,10 @@ def maybe_parse_many_user_types(ts):
 
 
 def _store_types(dct, bases, destination_name, source_name):
+    # Types are inherited
     maybe_types = maybe_parse_many_user_types([
         d[source_name]
-        for d in ([dct] + [b.__dict__ for b in bases]) if source_name in d
+        for d in ([dct] + list(_all_dicts(bases))) if source_name in d
     ])
 
     dct[destination_name] = maybe_types
-- 
2.43.0


From c589413a7d37eac02b08c4a88a62fcf4dcbd3a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:06 +0000
Subject: [PATCH 16/29] fix: support operators between builtin sets and psets
 in both directions

---
 pyrsistent/_pset.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyrsistent/_pset.py b/pyrsistent/_pset.py
index ef588ff..ba4cced 100644
--- a/pyrsistent/_pset.py
+++ b/pyrsistent/_pset.py
@@ -191,6 +191,12 @@ class PSet(Generic[T_co]):
     __sub__ = Set.__sub__
     __xor__ = Set.__xor__
 
+    # Required for symmetric difference with, and when the left operand is, a builtin set
+    __rand__ = Set.__rand__
+    __ror__ = Set.__ror__
+    __rsub__ = Set.__rsub__
+    __rxor__ = Set.__rxor__
+
     issubset = __le__
     issuperset = __ge__
     union = __or__
-- 
2.43.0


From 43105c186a0233a7231cdf79746a8896451e72ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:32 +0000
Subject: [PATCH 17/29] fix: answer issubset and issuperset of a pset for any
 iterable

---
 pyrsistent/_pset.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyrsistent/_pset.py b/pyrsistent/_pset.py
index ba4cced..48fac10 100644
--- a/pyrsistent/_pset.py
+++ b/pyrsistent/_pset.py
@@ -197,8 +197,6 @@ class PSet(Generic[T_co]):
     __rsub__ = Set.__rsub__
     __rxor__ = Set.__rxor__
 
-    issubset = __le__
-    issuperset = __ge__
     union = __or__
     intersection = __and__
     difference = __sub__
@@ -206,6 +204,12 @@ class PSet(Generic[T_co]):
 
     isdisjoint = Set.isdisjoint
 
+    def issubset(self, iterable):
+        return self <= (iterable if isinstance(iterable, Set) else frozenset(iterable))
+
+    def issuperset(self, iterable):
+        return self >= (iterable if isinstance(iterable, Set) else frozenset(iterable))
+
 Set.register(PSet)
 Hashable.register(PSet)
 
-- 
2.43.0


From b109e7efe1a7cfeb6b7871178767ee2dfb08f490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:32 +0000
Subject: [PATCH 18/29] fix: reject non integral indices into the python
 pvector as the C implementation does

---
 pyrsistent/_pvector.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyrsistent/_pvector.py b/pyrsistent/_pvector.py
index 51d8a22..e63a239 100644
--- a/pyrsistent/_pvector.py
+++ b/pyrsistent/_pvector.py
@@ -59,6 +59,9 @@ class PythonPVector(object):
             # slicing it but it is the fastest way I've found to date, and it's easy :-)
             return _EMPTY_PVECTOR.extend(self.tolist()[index])
 
+        if not isinstance(index, Integral):
+            raise TypeError("'%s' object cannot be interpreted as an index" % type(index).__name__)
+
         if index < 0:
             index += self._count
 
-- 
2.43.0


From 4762e4f50508ffb0c321c1ed13b83573c4dda4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:13 +0000
Subject: [PATCH 19/29] fix: forget the invariant errors of a failing update in
 checked evolvers

---
 pyrsistent/_checked_types.py | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/pyrsistent/_checked_types.py b/pyrsistent/_checked_types.py
index 72df15e..7843573 100644
--- a/pyrsistent/_checked_types.py
+++ b/pyrsistent/_checked_types.py
@@ -335,8 +335,14 @@ class CheckedPVector(Generic[T_co], PythonPVector, CheckedType, metaclass=_Check
             self._invariant_errors.extend(error_data)
 
         def __setitem__(self, key, value):
+            error_count = len(self._invariant_errors)
             self._check([value])
-            return super(CheckedPVector.Evolver, self).__setitem__(key, value)
+            try:
+                return super(CheckedPVector.Evolver, self).__setitem__(key, value)
+            except Exception:
+                # The value was not stored
+                del self._invariant_errors[error_count:]
+                raise
 
         def append(self, elem):
             self._check([elem])
@@ -431,8 +437,14 @@ class CheckedPSet(PSet[T_co], CheckedType, metaclass=_CheckedTypeMeta):
             self._invariant_errors.extend(error_data)
 
         def add(self, element):
+            error_count = len(self._invariant_errors)
             self._check([element])
-            self._pmap_evolver[element] = True
+            try:
+                self._pmap_evolver[element] = True
+            except Exception:
+                # The element was not stored
+                del self._invariant_errors[error_count:]
+                raise
             return self
 
         def persistent(self):
@@ -544,11 +556,17 @@ class CheckedPMap(PMap[KT, VT_co], CheckedType, metaclass=_CheckedMapTypeMeta):
         def set(self, key, value):
             _check_types([key], self._destination_class._checked_key_types, self._destination_class, CheckedKeyTypeError)
             _check_types([value], self._destination_class._checked_value_types, self._destination_class)
-            self._invariant_errors.extend(data for valid, data in (invariant(key, value)
-                                                                   for invariant in self._destination_class._checked_invariants)
-                                          if not valid)
-
-            return super(CheckedPMap.Evolver, self).set(key, value)
+            error_count = len(self._invariant_errors)
+            try:
+                self._invariant_errors.extend(data for valid, data in (invariant(key, value)
+                                                                       for invariant in self._destination_class._checked_invariants)
+                                              if not valid)
+
+                return super(CheckedPMap.Evolver, self).set(key, value)
+            except Exception:
+                # The value was not stored
+                del self._invariant_errors[error_count:]
+                raise
 
         def persistent(self):
             if self._invariant_errors:
-- 
2.43.0


From 33a5cbaab69393d9e9b0b867c386c0d71bd378d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:13 +0000
Subject: [PATCH 20/29] fix: do not remember missing fields in a record evolver
 once they have been set

---
 pyrsistent/_precord.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyrsistent/_precord.py b/pyrsistent/_precord.py
index dda1eba..213af2a 100644
--- a/pyrsistent/_precord.py
+++ b/pyrsistent/_precord.py
@@ -148,12 +148,13 @@ class _PRecordEvolver(PMap._Evolver):
         else:
             result = pm
 
+        missing_fields = tuple(self._missing_fields)
         if cls._precord_mandatory_fields:
-            self._missing_fields += tuple('{0}.{1}'.format(cls.__name__, f) for f
-                                          in (cls._precord_mandatory_fields - set(result.keys())))
+            missing_fields += tuple('{0}.{1}'.format(cls.__name__, f) for f
+                                    in (cls._precord_mandatory_fields - set(result.keys())))
 
-        if self._invariant_error_codes or self._missing_fields:
-            raise InvariantException(tuple(self._invariant_error_codes), tuple(self._missing_fields),
+        if self._invariant_error_codes or missing_fields:
+            raise InvariantException(tuple(self._invariant_error_codes), missing_fields,
                                      'Field invariant failed')
 
         check_global_invariants(result, cls._precord_invariants)
-- 
2.43.0


From f7ccaa16e1f6ae811aacbea55890d160763c89f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:41 +0000
Subject: [PATCH 21/29] fix: do not treat an instance of a PClass as equal to
 one of a subclass with further fields

---
 pyrsistent/_pclass.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyrsistent/_pclass.py b/pyrsistent/_pclass.py
index fd31a95..8051b5e 100644
--- a/pyrsistent/_pclass.py
+++ b/pyrsistent/_pclass.py
@@ -152,6 +152,9 @@ class PClass(CheckedType, metaclass=PClassMeta):
 
     def __eq__(self, other):
         if isinstance(other, self.__class__):
+            if self._pclass_fields.keys() != other._pclass_fields.keys():
+                return False
+
             for name in self._pclass_fields:
                 if getattr(self, name, _MISSING_VALUE) != getattr(other, name, _MISSING_VALUE):
                     return False
-- 
2.43.0


From f79c452578789c8b2b156a52386ab13cc2defe4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:24 +0000
Subject: [PATCH 22/29] fix: keep removed fields of a record removed when
 unpickling or copying it

Restoring filled in the initial value of a field that had been removed, so
the restored record differed from the original.
---
 pyrsistent/_precord.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pyrsistent/_precord.py b/pyrsistent/_precord.py
index 213af2a..3afe72b 100644
--- a/pyrsistent/_precord.py
+++ b/pyrsistent/_precord.py
@@ -1,5 +1,5 @@
 from typing import Any
-from pyrsistent._checked_types import CheckedType, _restore_pickle, InvariantException, store_invariants
+from pyrsistent._checked_types import CheckedType, InvariantException, store_invariants
 from pyrsistent._field_common import (
     set_fields, check_type, is_field_ignore_extra_complaint, PFIELD_NO_INITIAL, serialize, check_global_invariants
 )
@@ -89,7 +89,7 @@ class PRecord(PMap[str, Any], CheckedType, metaclass=_PRecordMeta):
 
     def __reduce__(self):
         # Pickling support
-        return _restore_pickle, (self.__class__, dict(self),)
+        return _restore_record_pickle, (self.__class__, dict(self),)
 
     def serialize(self, format=None):
         """
@@ -99,6 +99,15 @@ class PRecord(PMap[str, Any], CheckedType, metaclass=_PRecordMeta):
         return dict((k, serialize(self._precord_fields[k].serializer, format, v)) for k, v in self.items())
 
 
+def _restore_record_pickle(cls, data):
+    # Fields that have been removed must stay removed, hence no initial values here.
+    e = _PRecordEvolver(cls, pmap(pre_size=len(cls._precord_fields)), _factory_fields=set())
+    for k, v in data.items():
+        e[k] = v
+
+    return e.persistent()
+
+
 class _PRecordEvolver(PMap._Evolver):
     __slots__ = ('_destination_cls', '_invariant_error_codes', '_missing_fields', '_factory_fields', '_ignore_extra')
 
-- 
2.43.0


From 8dd268446c1dc6c0d9e2b350e6e22a64bed53f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:17 +0000
Subject: [PATCH 23/29] fix: support pickling of bags with every protocol

Protocols 0 and 1 raised TypeError for bags, unlike for all other types.
---
 pyrsistent/_pbag.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyrsistent/_pbag.py b/pyrsistent/_pbag.py
index 50001f1..e193972 100644
--- a/pyrsistent/_pbag.py
+++ b/pyrsistent/_pbag.py
@@ -133,6 +133,10 @@ class PBag(Generic[T_co]):
     def __repr__(self):
         return "pbag({0})".format(list(self))
 
+    def __reduce__(self):
+        # Pickling support
+        return pbag, (list(self),)
+
     def __eq__(self, other):
         """
         Check if two bags are equivalent, honoring the number of duplicates,
-- 
2.43.0


From d525ba61f7561fe223673a420ec4e9c8417a1f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:05 +0000
Subject: [PATCH 24/29] fix: do not mistake an exception raised by a key or
 element for a missing one in pmap get, pmap discard and pdeque remove

---
 pyrsistent/_pdeque.py | 18 +++++++++---------
 pyrsistent/_pmap.py   | 15 ++++++++++-----
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/pyrsistent/_pdeque.py b/pyrsistent/_pdeque.py
index ecf0a27..1a0df90 100644
--- a/pyrsistent/_pdeque.py
+++ b/pyrsistent/_pdeque.py
@@ -271,16 +271,16 @@ class PDeque(Generic[T_co]):
         >>> pdeque([2, 1, 2]).remove(2)
         pdeque([1, 2])
         """
-        try:
+        if any(e == elem for e in self._left_list):
             return PDeque(self._left_list.remove(elem), self._right_list, self._length - 1, self._maxlen)
-        except ValueError:
-            # Value not found in left list, try the right list
-            try:
-                # This is severely inefficient with a double reverse, should perhaps implement a remove_last()?
-                return PDeque(self._left_list,
-                              self._right_list.reverse().remove(elem).reverse(), self._length - 1, self._maxlen)
-            except ValueError as e:
-                raise ValueError('{0} not found in PDeque'.format(elem)) from e
+
+        # Value not found in left list, try the right list
+        # This is severely inefficient with a double reverse, should perhaps implement a remove_last()?
+        right_list = self._right_list.reverse()
+        if any(e == elem for e in right_list):
+            return PDeque(self._left_list, right_list.remove(elem).reverse(), self._length - 1, self._maxlen)
+
+        raise ValueError('{0} not found in PDeque'.format(elem))
 
     def reverse(self):
         """
diff --git a/pyrsistent/_pmap.py b/pyrsistent/_pmap.py
index 6c2b1ae..5f306fb 100644
--- a/pyrsistent/_pmap.py
+++ b/pyrsistent/_pmap.py
@@ -188,7 +188,15 @@ class PMap(Generic[KT, VT_co]):
     def __contains__(self, key):
         return self._contains(self._buckets, key)
 
-    get = Mapping.get
+    def get(self, key, default=None):
+        # Mapping.get would take a KeyError raised by the key itself for a missing key
+        _, bucket = PMap._get_bucket(self._buckets, key)
+        if bucket:
+            for k, v in bucket:
+                if k == key:
+                    return v
+
+        return default
 
     def __iter__(self):
         return self.iterkeys()
@@ -313,10 +321,7 @@ class PMap(Generic[KT, VT_co]):
         >>> m1 is m1.discard('c')
         True
         """
-        try:
-            return self.remove(key)
-        except KeyError:
-            return self
+        return self.remove(key) if key in self else self
 
     def update(self, *maps):
         """
-- 
2.43.0


From ffaede356090c5c90484cdfab8e127a727d984cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:04 +0000
Subject: [PATCH 25/29] fix: find map keys and items that are not equal to
 themselves by identity, like dict does

---
 pyrsistent/_pmap.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pyrsistent/_pmap.py b/pyrsistent/_pmap.py
index 5f306fb..e3e442b 100644
--- a/pyrsistent/_pmap.py
+++ b/pyrsistent/_pmap.py
@@ -93,7 +93,10 @@ class PMapItems(PMapView):
     def __contains__(self, arg):
         try: (k,v) = arg
         except Exception: return False
-        return k in self._map and self._map[k] == v
+        if k not in self._map:
+            return False
+        val = self._map[k]
+        return val is v or val == v
 
     # The str and repr methods mitate the dict_view style currently.
     def __str__(self):
@@ -165,7 +168,7 @@ class PMap(Generic[KT, VT_co]):
         _, bucket = PMap._get_bucket(buckets, key)
         if bucket:
             for k, v in bucket:
-                if k == key:
+                if k is key or k == key:
                     return v
 
         raise KeyError(key)
@@ -178,7 +181,7 @@ class PMap(Generic[KT, VT_co]):
         _, bucket = PMap._get_bucket(buckets, key)
         if bucket:
             for k, _ in bucket:
-                if k == key:
+                if k is key or k == key:
                     return True
 
             return False
@@ -193,7 +196,7 @@ class PMap(Generic[KT, VT_co]):
         _, bucket = PMap._get_bucket(self._buckets, key)
         if bucket:
             for k, v in bucket:
-                if k == key:
+                if k is key or k == key:
                     return v
 
         return default
@@ -417,10 +420,10 @@ class PMap(Generic[KT, VT_co]):
             reallocation_required = len(self._buckets_evolver) < 0.67 * self._size
             if bucket:
                 for k, v in bucket:
-                    if k == key:
+                    if k is key or k == key:
                         if v is not val:
                             # Use `not (k2 == k)` rather than `!=` to avoid relying on a well implemented `__ne__`, see #268.
-                            new_bucket = [(k2, v2) if not (k2 == k) else (k2, val) for k2, v2 in bucket]
+                            new_bucket = [(k2, v2) if not (k2 is k or k2 == k) else (k2, val) for k2, v2 in bucket]
                             self._buckets_evolver[index] = new_bucket
 
                         return self
@@ -486,7 +489,7 @@ class PMap(Generic[KT, VT_co]):
 
             if bucket:
                 # Use `not (k == key)` rather than `!=` to avoid relying on a well implemented `__ne__`, see #268.
-                new_bucket = [(k, v) for (k, v) in bucket if not (k == key)]
+                new_bucket = [(k, v) for (k, v) in bucket if not (k is key or k == key)]
                 size_diff = len(bucket) - len(new_bucket)
                 if size_diff > 0:
                     self._buckets_evolver[index] = new_bucket if new_bucket else None
-- 
2.43.0


From 597c72497b91ab76a6770370e532592c7d21ca4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:04 +0000
Subject: [PATCH 26/29] fix: treat an element or field value that is not equal
 to itself as equal to the same object, like list and dict do

---
 pyrsistent/_pclass.py | 4 +++-
 pyrsistent/_pdeque.py | 4 ++--
 pyrsistent/_plist.py  | 4 ++--
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyrsistent/_pclass.py b/pyrsistent/_pclass.py
index 8051b5e..bfbefd9 100644
--- a/pyrsistent/_pclass.py
+++ b/pyrsistent/_pclass.py
@@ -156,7 +156,9 @@ class PClass(CheckedType, metaclass=PClassMeta):
                 return False
 
             for name in self._pclass_fields:
-                if getattr(self, name, _MISSING_VALUE) != getattr(other, name, _MISSING_VALUE):
+                value = getattr(self, name, _MISSING_VALUE)
+                other_value = getattr(other, name, _MISSING_VALUE)
+                if value is not other_value and value != other_value:
                     return False
 
             return True
diff --git a/pyrsistent/_pdeque.py b/pyrsistent/_pdeque.py
index 1a0df90..4a372df 100644
--- a/pyrsistent/_pdeque.py
+++ b/pyrsistent/_pdeque.py
@@ -271,13 +271,13 @@ class PDeque(Generic[T_co]):
         >>> pdeque([2, 1, 2]).remove(2)
         pdeque([1, 2])
         """
-        if any(e == elem for e in self._left_list):
+        if any(e is elem or e == elem for e in self._left_list):
             return PDeque(self._left_list.remove(elem), self._right_list, self._length - 1, self._maxlen)
 
         # Value not found in left list, try the right list
         # This is severely inefficient with a double reverse, should perhaps implement a remove_last()?
         right_list = self._right_list.reverse()
-        if any(e == elem for e in right_list):
+        if any(e is elem or e == elem for e in right_list):
             return PDeque(self._left_list, right_list.remove(elem).reverse(), self._length - 1, self._maxlen)
 
         raise ValueError('{0} not found in PDeque'.format(elem))
diff --git a/pyrsistent/_plist.py b/pyrsistent/_plist.py
index b6c355b..ed75d61 100644
--- a/pyrsistent/_plist.py
+++ b/pyrsistent/_plist.py
@@ -155,7 +155,7 @@ class _PListBase(object):
         self_head = self
         other_head = other
         while self_head and other_head:
-            if not self_head.first == other_head.first:
+            if not (self_head.first is other_head.first or self_head.first == other_head.first):
                 return False
             self_head = self_head.rest
             other_head = other_head.rest
@@ -213,7 +213,7 @@ class _PListBase(object):
         builder = _PListBuilder()
         head = self
         while head:
-            if head.first == elem:
+            if head.first is elem or head.first == elem:
                 return builder.append_plist(head.rest)
 
             builder.append_elem(head.first)
-- 
2.43.0


From 3674aedda064046b91599cb7a687d6e9d2fb1105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:50 +0000
Subject: [PATCH 27/29] fix: do not mistake an exception raised by a key for a
 missing one in transformations

---
 pyrsistent/_transformations.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pyrsistent/_transformations.py b/pyrsistent/_transformations.py
index 6ef747f..7d41651 100644
--- a/pyrsistent/_transformations.py
+++ b/pyrsistent/_transformations.py
@@ -1,4 +1,5 @@
 import re
+from collections.abc import Mapping
 try:
     from inspect import Parameter, signature
 except ImportError:
@@ -21,6 +22,13 @@ def dec(x):
 
 def discard(evolver, key):
     """ Discard the element and returns a structure without the discarded elements """
+    if hasattr(type(evolver), '__contains__'):
+        # NB: Look before you leap, the key may raise a KeyError of its own.
+        if key in evolver:
+            del evolver[key]
+
+        return
+
     try:
         del evolver[key]
     except KeyError:
@@ -69,6 +77,10 @@ def _items(structure):
 
 
 def _get(structure, key, default):
+    if isinstance(structure, Mapping):
+        # NB: Look before you leap, the key may raise a KeyError of its own.
+        return structure[key] if key in structure else default
+
     try:
         if hasattr(structure, '__getitem__'):
             return structure[key]
-- 
2.43.0


From 9e4bf6d44338d65f9c25c6d56b1d0ccf282ba06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:18 +0000
Subject: [PATCH 28/29] fix: extending an evolver with an iterable that uses
 the evolver corrupted memory

PyList_SetSlice was given the append list of the evolver, which is released
if the iterable calls persistent() or deletes from the evolver.
---
 pvectorcmodule.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index c7bdc73..f7833d1 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -1518,7 +1518,15 @@ static PyObject *PVectorEvolver_append(PVectorEvolver *self, PyObject *args) {
 }
 
 static PyObject *PVectorEvolver_extend(PVectorEvolver *self, PyObject *args) {
-  if (PyList_SetSlice(self->appendList, PY_SSIZE_T_MAX, PY_SSIZE_T_MAX, args) < 0) {
+  // Exhaust the iterable first, it may execute arbitrary code that replaces the append list.
+  PyObject *items = PySequence_Fast(args, "can only assign an iterable");
+  if (items == NULL) {
+    return NULL;
+  }
+
+  int result = PyList_SetSlice(self->appendList, PY_SSIZE_T_MAX, PY_SSIZE_T_MAX, items);
+  Py_DECREF(items);
+  if (result < 0) {
     return NULL;
   }
 
-- 
2.43.0


From bae4c3b584da5bb31e1fca8368fe1449b8c4bcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:18 +0000
Subject: [PATCH 29/29] fix: evolvers of Python vectors lost updates when code
 they run used the evolver

An iterable given to extend() may call persistent(), and dropping elements
in delete() and persistent() may run finalizers that update the evolver.
---
 pyrsistent/_checked_types.py | 7 +++++--
 pyrsistent/_pvector.py       | 9 +++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/pyrsistent/_checked_types.py b/pyrsistent/_checked_types.py
index 7843573..effc2f1 100644
--- a/pyrsistent/_checked_types.py
+++ b/pyrsistent/_checked_types.py
@@ -360,9 +360,12 @@ class CheckedPVector(Generic[T_co], PythonPVector, CheckedType, metaclass=_Check
             result = self._orig_pvector
             if self.is_dirty() or (self._destination_class != type(self._orig_pvector)):
                 pv = super(CheckedPVector.Evolver, self).persistent().extend(self._extra_tail)
-                result = self._destination_class(
+                new_vector = self._destination_class(
                     _CheckedElementsPVector(pv._count, pv._shift, pv._root, pv._tail))
-                self._reset(result)
+                # NB: The original vector is kept until the evolver has been updated, dropping elements may
+                #     execute code that uses the evolver.
+                self._reset(new_vector)
+                return new_vector
 
             return result
 
diff --git a/pyrsistent/_pvector.py b/pyrsistent/_pvector.py
index e63a239..5b02208 100644
--- a/pyrsistent/_pvector.py
+++ b/pyrsistent/_pvector.py
@@ -189,7 +189,9 @@ class PythonPVector(object):
             return self
 
         def extend(self, iterable):
-            self._extra_tail.extend(iterable)
+            # Exhaust the iterable first, it may execute code that resets the evolver.
+            elements = list(iterable)
+            self._extra_tail.extend(elements)
             return self
 
         def set(self, index, val):
@@ -243,7 +245,10 @@ class PythonPVector(object):
             return self
 
         def __delitem__(self, key):
-            if self._orig_pvector:
+            # NB: The original vector is kept until the evolver has been updated, dropping elements may
+            #     execute code that uses the evolver.
+            orig_pvector = self._orig_pvector
+            if orig_pvector:
                 # All structural sharing bets are off, base evolver on _extra_tail only
                 l = PythonPVector(self._count, self._shift, self._root, self._tail).tolist()
                 l.extend(self._extra_tail)
-- 
2.43.0

