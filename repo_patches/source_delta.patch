From 263c68d1bad359d9fbabacec69c85cb7463d6c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:40 +0000
Subject: [PATCH 01/28] fix: mat backend: use builtin object dtype for cell
 arrays

np.object was removed from NumPy 1.24, so no List could be saved to or loaded
from a .mat file.
---
 dsch/backends/mat.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index 8b89110..c9fa766 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -87,7 +87,7 @@ class List(npz.List):
         # If the list layer got squeezed away, we need to re-introduce it here
         if not isinstance(data_storage, np.ndarray) \
                 or data_storage.shape == ():
-            data_storage = np.array([data_storage], dtype=np.object)
+            data_storage = np.array([data_storage], dtype=object)
 
         for field in data_storage:
             subnode = data.data_node_from_schema(self.schema_node.subnode,
@@ -99,12 +99,12 @@ class List(npz.List):
         """Export the node data as a data storage object.
 
         For the mat backend, List data is represented as a NumPy object array,
-        i.e. a :class:`numpy.ndarray` with ``dtype=numpy.object``.
+        i.e. a :class:`numpy.ndarray` with ``dtype=object``.
 
         Returns:
             dict: Data storage object with the node's data.
         """
-        data_storage = np.zeros((len(self._subnodes),), dtype=np.object)
+        data_storage = np.zeros((len(self._subnodes),), dtype=object)
         for idx, node in enumerate(self._subnodes):
             data_storage[idx] = node.save()
         return data_storage
-- 
2.43.0


From 2556361da25f7c298498d8f0cbbc2fe27f60b16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:39 +0000
Subject: [PATCH 02/28] fix: mat backend: keep array shapes, dtypes and empty
 strings when loading

---
 dsch/backends/mat.py | 93 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 70 insertions(+), 23 deletions(-)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index c9fa766..1d99028 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -5,9 +5,52 @@ from . import npz
 from .. import data, schema
 
 
+# Data types that MATLAB files can represent without conversion.
+_NATIVE_DTYPES = tuple(np.dtype(name) for name in (
+    'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64',
+    'float32', 'float64', 'complex64', 'complex128'))
+
+
+class _SqueezedNode:
+    """Mixin for nodes that are stored as scalars or vectors.
+
+    All arrays in ``.mat`` files have at least two dimensions, so the
+    additional ones must be removed when loading.
+    """
+
+    def _init_from_storage(self, data_storage):
+        """Create a new data node from a data storage object.
+
+        Args:
+            data_storage (numpy.ndarray): Data storage object to load.
+        """
+        super()._init_from_storage(np.squeeze(data_storage))
+
+
 class Array(npz.Array):
     """Array-type data node for the mat backend."""
-    pass
+
+    def _init_from_storage(self, data_storage):
+        """Create a new data node from a data storage object.
+
+        All arrays in ``.mat`` files have at least two dimensions, and some
+        data types are converted when saving. Both is reverted here, according
+        to the schema.
+
+        Args:
+            data_storage (numpy.ndarray): Data storage object to load.
+        """
+        ndim = self.schema_node.ndim
+        if ndim == 1 and data_storage.ndim == 2 and (
+                data_storage.shape[0] == 1 or data_storage.size == 0):
+            data_storage = data_storage.ravel()
+        elif ndim == 0 and data_storage.size == 1:
+            data_storage = data_storage.reshape(())
+
+        dtype = np.dtype(self.schema_node.dtype)
+        if dtype.kind in 'biufc' and dtype not in _NATIVE_DTYPES:
+            data_storage = data_storage.astype(dtype)
+        super()._init_from_storage(data_storage)
 
 
 class Bytes(npz.Bytes):
@@ -15,7 +58,7 @@ class Bytes(npz.Bytes):
     pass
 
 
-class Bool(npz.Bool):
+class Bool(_SqueezedNode, npz.Bool):
     """Bool-type data node for the mat backend."""
     pass
 
@@ -37,19 +80,18 @@ class Compilation(npz.Compilation):
             data_storage (numpy.ndarray): Backend-specific data
                 storage object to load.
         """
-        # For Compilation inside Compilation, scipy.io.loadmat seems to wrap
-        # the inner Compilation in an additional scalar ndarray with dtype
-        # object. This must be ignored, if present.
-        if data_storage.shape == ():
-            data_storage = data_storage[()]
+        # Structs are loaded as (1, 1) arrays. Note that for structs without
+        # any fields, scipy.io.loadmat provides None.
+        data_storage = np.squeeze(data_storage)[()]
+        field_names = () if data_storage is None else data_storage.dtype.names
 
         for node_name, subnode in self.schema_node.subnodes.items():
             # Work around the fact that we cannot use
             # data_storage.get(node_name) because data_storage is not a dict,
-            # but a numpy.ndarray.
-            try:
+            # but a numpy structured scalar.
+            if node_name in field_names:
                 node_storage = data_storage[node_name]
-            except ValueError:
+            else:
                 node_storage = None
 
             self._subnodes[node_name] = data.data_node_from_schema(
@@ -57,12 +99,12 @@ class Compilation(npz.Compilation):
                 data_storage=node_storage)
 
 
-class Date(npz.Date):
+class Date(_SqueezedNode, npz.Date):
     """Date-type data node for the mat backend."""
     pass
 
 
-class DateTime(npz.DateTime):
+class DateTime(_SqueezedNode, npz.DateTime):
     """DateTime-type data node for the mat backend."""
     pass
 
@@ -84,12 +126,8 @@ class List(npz.List):
             data_storage (numpy.ndarray): Backend-specific data
                 storage object to load.
         """
-        # If the list layer got squeezed away, we need to re-introduce it here
-        if not isinstance(data_storage, np.ndarray) \
-                or data_storage.shape == ():
-            data_storage = np.array([data_storage], dtype=object)
-
-        for field in data_storage:
+        # Cell arrays are loaded with at least two dimensions.
+        for field in np.ravel(data_storage):
             subnode = data.data_node_from_schema(self.schema_node.subnode,
                                                  self.__module__, self,
                                                  data_storage=field)
@@ -110,7 +148,7 @@ class List(npz.List):
         return data_storage
 
 
-class Scalar(npz.Scalar):
+class Scalar(_SqueezedNode, npz.Scalar):
     """Scalar-type data node for the mat backend."""
     pass
 
@@ -129,8 +167,8 @@ class Storage(npz.Storage):
 
     def _load(self):
         """Load an existing file from :attr:`storage_path`."""
-        file_ = sio.loadmat(self.storage_path, squeeze_me=True)
-        self.schema_node = schema.node_from_json(file_['schema'])
+        file_ = sio.loadmat(self.storage_path)
+        self.schema_node = schema.node_from_json(file_['schema'].item())
         data_storage = file_.get('data', None)
         self.data = data.data_node_from_schema(self.schema_node,
                                                self.__module__, None,
@@ -147,9 +185,18 @@ class Storage(npz.Storage):
 
 class String(npz.String):
     """String-type data node for the mat backend."""
-    pass
+
+    def _init_from_storage(self, data_storage):
+        """Create a new data node from a data storage object.
+
+        Args:
+            data_storage (numpy.ndarray): Data storage object to load.
+        """
+        # Empty strings are loaded as empty arrays.
+        value = data_storage.item() if data_storage.size else ''
+        super()._init_from_storage(np.array(value, dtype='U'))
 
 
-class Time(npz.Time):
+class Time(_SqueezedNode, npz.Time):
     """Time-type data node for the mat backend."""
     pass
-- 
2.43.0


From 78373cb203dc87d616b8d14321a93721fb3d02b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:23 +0000
Subject: [PATCH 03/28] fix: npz backend: keep empty byte strings

---
 dsch/backends/npz.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dsch/backends/npz.py b/dsch/backends/npz.py
index b7901c4..3d3f80e 100644
--- a/dsch/backends/npz.py
+++ b/dsch/backends/npz.py
@@ -60,7 +60,11 @@ class Bytes(_ItemNode):
             new_value: New value to apply to the node, independent of the
                 backend in use.
         """
-        self._storage = np.array(new_value, dtype='bytes')
+        if new_value == b'':
+            # NumPy pads empty byte strings, so use an empty array instead.
+            self._storage = np.zeros((0,), dtype='bytes')
+        else:
+            self._storage = np.array(new_value, dtype='bytes')
 
     def _value(self):
         """Return the actual node data, independent of the backend in use.
-- 
2.43.0


From bb6dd8be894c0bd90e95670aef3ad9bf0b5b048b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:23 +0000
Subject: [PATCH 04/28] fix: mat backend: store bytes values losslessly

---
 dsch/backends/mat.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index 1d99028..524aa87 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -55,7 +55,32 @@ class Array(npz.Array):
 
 class Bytes(npz.Bytes):
     """Bytes-type data node for the mat backend."""
-    pass
+
+    def _init_from_storage(self, data_storage):
+        """Create a new data node from a data storage object.
+
+        Args:
+            data_storage (numpy.ndarray): Data storage object to load.
+        """
+        if data_storage.dtype.kind == 'U':
+            # Previous versions stored bytes as character arrays.
+            value = ''.join(data_storage.ravel()).encode()
+        else:
+            value = data_storage.tobytes()
+        self.replace(value)
+
+    def save(self):
+        """Export the node data as a data storage object.
+
+        Since ``.mat`` files only support text strings, the bytes are
+        represented as an array of unsigned integers.
+
+        Returns:
+            numpy.ndarray: Data storage object with the node's data.
+        """
+        if self.empty:
+            return None
+        return np.frombuffer(self.value, dtype='uint8')
 
 
 class Bool(_SqueezedNode, npz.Bool):
-- 
2.43.0


From f772313a38fd1be214977c6f9661e113a0046e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:13 +0000
Subject: [PATCH 05/28] fix: hdf5 backend: replace datasets entirely and keep
 the value if a new one is rejected

---
 dsch/backends/hdf5.py | 63 ++++++++++++-------------------------------
 1 file changed, 17 insertions(+), 46 deletions(-)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index 1f37986..fc5844b 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -67,9 +67,21 @@ class _ItemNode(data.ItemNode):
             new_value: New value to apply to the node, independent of the
                 backend in use.
         """
+        self._replace_dataset(data=new_value)
+
+    def _replace_dataset(self, **kwargs):
+        """Replace the current dataset by a newly created one.
+
+        The new dataset is created before the current one is removed, so that
+        the current value is kept if the new one is rejected.
+
+        Args:
+            **kwargs: Arguments for :meth:`h5py.Group.create_dataset`.
+        """
+        new_dataset = self._parent.create_dataset(None, **kwargs)
         self.clear()
-        self._storage = self._parent.create_dataset(self._dataset_name,
-                                                    data=new_value)
+        self._parent[self._dataset_name] = new_dataset
+        self._storage = self._parent[self._dataset_name]
 
 
 class Array(data.Array, _ItemNode):
@@ -85,8 +97,6 @@ class Array(data.Array, _ItemNode):
             new_value: New value to apply to the node, independent of the
                 backend in use.
         """
-        self.clear()
-
         if self.schema_node.max_shape:
             if self.schema_node.max_shape == self.schema_node.min_shape:
                 # For equal shape constraints, disable resizing entirely.
@@ -97,8 +107,7 @@ class Array(data.Array, _ItemNode):
             # Make all dimensions arbitrarily resizable by default.
             maxshape = (None,) * self.schema_node.ndim
 
-        self._storage = self._parent.create_dataset(
-            self._dataset_name,
+        self._replace_dataset(
             data=new_value,
             dtype=self.schema_node.dtype,
             maxshape=maxshape,
@@ -126,11 +135,7 @@ class Bytes(_ItemNode):
             new_value: New value to apply to the node, independent of the
                 backend in use.
         """
-        if self._storage:
-            self._storage[()] = np.void(new_value)
-        else:
-            self._storage = self._parent.create_dataset(
-                self._dataset_name, data=np.void(new_value))
+        super().replace(np.void(new_value))
 
     def _value(self):
         """Return the actual node data, independent of the backend in use.
@@ -144,22 +149,6 @@ class Bytes(_ItemNode):
 class Bool(_ItemNode):
     """Bool-type data node for the HDF5 backend."""
 
-    def replace(self, new_value):
-        """Completely replace the current node value.
-
-        Instead of changing parts of the data (e.g. via numpy array slicing),
-        replace the entire data for this node.
-
-        Args:
-            new_value: New value to apply to the node, independent of the
-                backend in use.
-        """
-        if self._storage:
-            self._storage[()] = new_value
-        else:
-            self._storage = self._parent.create_dataset(self._dataset_name,
-                                                        data=new_value)
-
     def _value(self):
         """Return the actual node data, independent of the backend in use.
 
@@ -338,9 +327,7 @@ class Scalar(data.Scalar, _ItemNode):
             new_value: New value to apply to the node, independent of the
                 backend in use.
         """
-        self.clear()
-        self._storage = self._parent.create_dataset(
-            self._dataset_name,
+        self._replace_dataset(
             data=new_value,
             dtype=self.schema_node.dtype,
         )
@@ -411,22 +398,6 @@ class Storage(storage.FileStorage):
 class String(_ItemNode):
     """String-type data node for the HDF5 backend."""
 
-    def replace(self, new_value):
-        """Completely replace the current node value.
-
-        Instead of changing parts of the data (e.g. via numpy array slicing),
-        replace the entire data for this node.
-
-        Args:
-            new_value: New value to apply to the node, independent of the
-                backend in use.
-        """
-        if self._storage:
-            self._storage[()] = new_value
-        else:
-            self._storage = self._parent.create_dataset(self._dataset_name,
-                                                        data=new_value)
-
     def _value(self):
         """Return the actual node data, independent of the backend in use.
 
-- 
2.43.0


From 6a75923aa7df043ad223dcba4de5024390cdb03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:13 +0000
Subject: [PATCH 06/28] fix: hdf5 backend: support empty byte strings

---
 dsch/backends/hdf5.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index fc5844b..ab85d41 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -135,7 +135,11 @@ class Bytes(_ItemNode):
             new_value: New value to apply to the node, independent of the
                 backend in use.
         """
-        super().replace(np.void(new_value))
+        if new_value == b'':
+            # HDF5 does not support opaque data of size zero.
+            super().replace(np.zeros((0,), dtype='V1'))
+        else:
+            super().replace(np.void(new_value))
 
     def _value(self):
         """Return the actual node data, independent of the backend in use.
-- 
2.43.0


From 8452295e42b7cc71e545157e3264bc7558984bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:13 +0000
Subject: [PATCH 07/28] fix: hdf5 backend: keep zero-dimensional arrays as
 arrays

---
 dsch/backends/hdf5.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index ab85d41..f0c8063 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -119,7 +119,8 @@ class Array(data.Array, _ItemNode):
         Returns:
             Node data.
         """
-        return self._storage[()]
+        # For zero-dimensional arrays, h5py only provides a scalar.
+        return np.asarray(self._storage[()])
 
 
 class Bytes(_ItemNode):
-- 
2.43.0


From 5730e08a6805c88d5cbce8a6d385bf71b9e92440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:00 +0000
Subject: [PATCH 08/28] fix: do not fill empty set_on_create fields when
 loading

---
 dsch/backends/hdf5.py | 4 ++++
 dsch/backends/mat.py  | 6 ++++++
 dsch/backends/npz.py  | 3 +++
 dsch/data.py          | 3 +++
 4 files changed, 16 insertions(+)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index f0c8063..16178ab 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -184,6 +184,8 @@ class Compilation(data.Compilation):
                 new_params_sub = {'name': node_name, 'parent': data_storage}
                 self._subnodes[node_name] = data.data_node_from_schema(
                     subnode, self.__module__, self, new_params=new_params_sub)
+                # Do not automatically fill fields that were saved empty.
+                self._subnodes[node_name].clear()
 
     def _init_new(self, new_params):
         """Initialize new, empty Compilation.
@@ -376,6 +378,8 @@ class Storage(storage.FileStorage):
                 self.data = data.data_node_from_schema(self.schema_node,
                                                        self.__module__, None,
                                                        new_params=new_params)
+                # Do not automatically fill a node that was saved empty.
+                self.data.clear()
                 return
         self.data = data.data_node_from_schema(self.schema_node,
                                                self.__module__, None,
diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index 524aa87..112928e 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -122,6 +122,9 @@ class Compilation(npz.Compilation):
             self._subnodes[node_name] = data.data_node_from_schema(
                 subnode, self.__module__, self,
                 data_storage=node_storage)
+            if node_storage is None:
+                # Do not automatically fill fields that were saved empty.
+                self._subnodes[node_name].clear()
 
 
 class Date(_SqueezedNode, npz.Date):
@@ -198,6 +201,9 @@ class Storage(npz.Storage):
         self.data = data.data_node_from_schema(self.schema_node,
                                                self.__module__, None,
                                                data_storage=data_storage)
+        if data_storage is None:
+            # Do not automatically fill a node that was saved empty.
+            self.data.clear()
 
     def _save(self):
         """Save the current data to the file in :attr:`storage_path`."""
diff --git a/dsch/backends/npz.py b/dsch/backends/npz.py
index 3d3f80e..38bf354 100644
--- a/dsch/backends/npz.py
+++ b/dsch/backends/npz.py
@@ -252,6 +252,9 @@ class Storage(storage.FileStorage):
         self.data = data.data_node_from_schema(self.schema_node,
                                                self.__module__, None,
                                                data_storage=data_storage)
+        if data_storage is None:
+            # Do not automatically fill a node that was saved empty.
+            self.data.clear()
 
     def _new(self):
         """Create a new file at :attr:`storage_path`."""
diff --git a/dsch/data.py b/dsch/data.py
index 4616bdc..2605aa2 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -467,6 +467,9 @@ class Compilation:
             self._subnodes[node_name] = data_node_from_schema(
                 subnode, self.__module__, self,
                 data_storage=node_storage)
+            if node_storage is None:
+                # Do not automatically fill fields that were saved empty.
+                self._subnodes[node_name].clear()
 
     def _init_new(self, new_params):
         """Initialize new, empty Compilation.
-- 
2.43.0


From ed44603064af76b74c90a47bb9ce61efdf283762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:20 +0000
Subject: [PATCH 09/28] fix: keep empty list items when saving and loading

---
 dsch/backends/hdf5.py | 20 +++++++++++++++++++-
 dsch/backends/mat.py  | 14 ++++++++++++--
 dsch/backends/npz.py  | 29 ++++++++++++++++++++++++-----
 dsch/data.py          | 30 ++++++++++++++++++++++++++----
 4 files changed, 81 insertions(+), 12 deletions(-)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index 16178ab..a0fcfe7 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -288,6 +288,8 @@ class List(data.List):
                                              self.__module__, self,
                                              new_params=new_params)
         self._subnodes.append(subnode)
+        # Empty items do not have a dataset, so store the length separately.
+        self._storage.attrs['length'] = len(self)
         if value is not None:
             subnode.replace(value)
 
@@ -296,6 +298,7 @@ class List(data.List):
         for name in self._storage.keys():
             del self._storage[name]
         super().clear()
+        self._storage.attrs['length'] = 0
 
     def _init_from_storage(self, data_storage):
         """Create a new data node from a data storage object.
@@ -306,8 +309,23 @@ class List(data.List):
             data_storage (h5py.Dataset): Data storage object to be
                 imported.
         """
-        super()._init_from_storage(data_storage)
         self._storage = data_storage
+        length = self._stored_length(data_storage,
+                                     data_storage.attrs.get('length'))
+        for idx in range(length):
+            name = 'item_{}'.format(idx)
+            if name in data_storage:
+                subnode = data.data_node_from_schema(
+                    self.schema_node.subnode, self.__module__, self,
+                    data_storage=data_storage[name])
+            else:
+                new_params = {'name': name, 'parent': data_storage}
+                subnode = data.data_node_from_schema(
+                    self.schema_node.subnode, self.__module__, self,
+                    new_params=new_params)
+                # Do not automatically fill items that were saved empty.
+                subnode.clear()
+            self._subnodes.append(subnode)
 
     def _init_new(self, new_params):
         """Initialize new, empty List data node.
diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index 112928e..1eea409 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -156,23 +156,33 @@ class List(npz.List):
         """
         # Cell arrays are loaded with at least two dimensions.
         for field in np.ravel(data_storage):
+            if field.dtype == object and field.size == 0:
+                # Empty list items are represented by empty cell arrays.
+                field = None
             subnode = data.data_node_from_schema(self.schema_node.subnode,
                                                  self.__module__, self,
                                                  data_storage=field)
+            if field is None:
+                # Do not automatically fill items that were saved empty.
+                subnode.clear()
             self._subnodes.append(subnode)
 
     def save(self):
         """Export the node data as a data storage object.
 
         For the mat backend, List data is represented as a NumPy object array,
-        i.e. a :class:`numpy.ndarray` with ``dtype=object``.
+        i.e. a :class:`numpy.ndarray` with ``dtype=object``. Empty items are
+        represented by empty object arrays.
 
         Returns:
             dict: Data storage object with the node's data.
         """
         data_storage = np.zeros((len(self._subnodes),), dtype=object)
         for idx, node in enumerate(self._subnodes):
-            data_storage[idx] = node.save()
+            node_storage = node.save()
+            if npz._is_blank(node_storage):
+                node_storage = np.zeros((0,), dtype=object)
+            data_storage[idx] = node_storage
         return data_storage
 
 
diff --git a/dsch/backends/npz.py b/dsch/backends/npz.py
index 38bf354..2a92b02 100644
--- a/dsch/backends/npz.py
+++ b/dsch/backends/npz.py
@@ -113,9 +113,10 @@ class Compilation(data.Compilation):
             dict: Data storage object with the node's data.
         """
         data_storage = {}
-        for name, node in [(na, no) for na, no in self._subnodes.items()
-                           if not no.empty]:
-            data_storage[name] = node.save()
+        for name, node in self._subnodes.items():
+            node_storage = node.save()
+            if not _is_blank(node_storage):
+                data_storage[name] = node_storage
         return data_storage
 
 
@@ -179,14 +180,19 @@ class List(data.List):
 
         For :class:`List`, data is represented as a :class:`dict` containing
         the sub-node's data storage objects as values and keys of the form
-        ``item_X``, where ``X`` is the list index.
+        ``item_X``, where ``X`` is the list index. Empty items are omitted. In
+        that case, the list length is included with the key ``length``.
 
         Returns:
             dict: Data storage object with the node's data.
         """
         data_storage = {}
         for idx, node in enumerate(self._subnodes):
-            data_storage['item_{}'.format(idx)] = node.save()
+            node_storage = node.save()
+            if not _is_blank(node_storage):
+                data_storage['item_{}'.format(idx)] = node_storage
+        if len(data_storage) < len(self._subnodes):
+            data_storage['length'] = np.array(len(self._subnodes))
         return data_storage
 
 
@@ -327,6 +333,19 @@ class Time(data.Time, _ItemNode):
         return datetime.time(*self._storage.tolist())
 
 
+def _is_blank(data_storage):
+    """Check whether a data storage object does not contain anything.
+
+    Args:
+        data_storage: Data storage object, as provided by a node's ``save``.
+
+    Returns:
+        bool: ``True`` if there is nothing to be stored.
+    """
+    return data_storage is None or (isinstance(data_storage, dict) and
+                                    not data_storage)
+
+
 def _inflate_dotted(input_dict):
     """Convert flat dict with dotted key notation into nested dict.
 
diff --git a/dsch/data.py b/dsch/data.py
index 2605aa2..e01845a 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -762,19 +762,41 @@ class List:
 
         The default implementation expects a dict, where keys are of the form
         "item_X", with X the list index, and values are the corresponding data
-        storage objects. Backend-specific subclasses may change this, if
-        required.
+        storage objects. Empty list items do not have to be present. If the
+        list ends with missing items, its total length is given with the
+        additional key "length". Backend-specific subclasses may change this,
+        if required.
 
         Args:
             data_storage (dict): Backend-specific data storage object to load.
         """
-        for idx in range(len(data_storage)):
-            node_storage = data_storage['item_{}'.format(idx)]
+        length = self._stored_length(data_storage, data_storage.get('length'))
+        for idx in range(length):
+            node_storage = data_storage.get('item_{}'.format(idx))
             subnode = data_node_from_schema(self.schema_node.subnode,
                                             self.__module__, self,
                                             data_storage=node_storage)
+            if node_storage is None:
+                # Do not automatically fill items that were saved empty.
+                subnode.clear()
             self._subnodes.append(subnode)
 
+    @staticmethod
+    def _stored_length(names, length=None):
+        """Determine the length of a stored list.
+
+        Args:
+            names: Names of the stored objects, including those of the form
+                "item_X" with X the list index.
+            length (int): Explicitly stored list length, if any.
+
+        Returns:
+            int: Number of list items, including missing (i.e. empty) ones.
+        """
+        indices = [int(name[len('item_'):]) for name in names
+                   if name.startswith('item_')]
+        return max([int(length or 0)] + [idx + 1 for idx in indices])
+
     def _init_new(self, new_params):
         """Initialize new, empty List data node.
 
-- 
2.43.0


From 6c7e0f32c3914ad6e49ecc92676d8c2d62ea8510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:15 +0000
Subject: [PATCH 10/28] fix: load_from: copy empty nodes and values instead of
 failing or sharing them

---
 dsch/data.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/dsch/data.py b/dsch/data.py
index e01845a..a1d1114 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -11,6 +11,7 @@ implementing the respective functionality. The classes in this module provide
 common functionality and are intended to be used as base classes.
 Different backends are implemented in the :mod:`dsch.backends` package.
 """
+import copy
 import datetime
 import importlib
 
@@ -151,7 +152,7 @@ class ItemNode:
         This is effectively a shorthand for ``self.replace(source_node.value)``
         with additional checking of node compatibility. Two nodes are
         considered compatible if their ``schema_node`` attributes are
-        identical.
+        identical. If the source node is empty, this node is cleared.
 
         Args:
             source_node: Data node to copy value from.
@@ -159,7 +160,11 @@ class ItemNode:
         if source_node.schema_node.hash() != self.schema_node.hash():
             raise exceptions.IncompatibleNodesError(
                 source_node.schema_node.hash(), self.schema_node.hash())
-        self.replace(source_node.value)
+        if source_node.empty:
+            self.clear()
+        else:
+            # Copy the value, so the nodes are independent of each other.
+            self.replace(copy.deepcopy(source_node.value))
 
     def node_tree(self):
         """Return a recursive representation of the (sub)node-tree.
@@ -811,7 +816,8 @@ class List:
     def load_from(self, source_node):
         """Load data by copying from the given source node.
 
-        For Lists, this copies the relevant subnode's data recursively.
+        For Lists, this copies the relevant subnode's data recursively,
+        replacing all current list entries.
 
         Args:
             source_node: Data node to copy value from.
@@ -819,6 +825,9 @@ class List:
         if source_node.schema_node.hash() != self.schema_node.hash():
             raise exceptions.IncompatibleNodesError(
                 source_node.schema_node.hash(), self.schema_node.hash())
+        if source_node is self:
+            return
+        self.clear()
         for idx, subnode in enumerate(source_node):
             self.append()
             self[idx].load_from(subnode)
-- 
2.43.0


From eb5c8270a176bad18c0c779952cef70c5d226116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:53 +0000
Subject: [PATCH 11/28] fix: schema: respect maximum lengths and shapes of zero

---
 dsch/schema.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dsch/schema.py b/dsch/schema.py
index ce3cf71..702b6ea 100644
--- a/dsch/schema.py
+++ b/dsch/schema.py
@@ -257,7 +257,7 @@ class Array(SchemaNode):
                                   self.ndim, test_data.ndim)
         if self.max_shape:
             for nominal, actual in zip(self.max_shape, test_data.shape):
-                if nominal and actual > nominal:
+                if nominal is not None and actual > nominal:
                     raise ValidationError('Maximum array shape exceeded.',
                                           self.max_shape, test_data.shape)
         if self.min_shape:
@@ -337,7 +337,8 @@ class Bytes(SchemaNode):
         if not isinstance(test_data, bytes):
             raise ValidationError('Invalid type/value.', 'bytes',
                                   type(test_data))
-        if self.max_length and len(test_data) > self.max_length:
+        if self.max_length is not None \
+                and len(test_data) > self.max_length:
             raise ValidationError('Maximum bytes length exceeded.',
                                   self.max_length, len(test_data))
         if self.min_length and len(test_data) < self.min_length:
@@ -657,7 +658,8 @@ class List(SchemaNode):
         Raises:
             dsch.exceptions.ValidationError: if validation fails.
         """
-        if self.max_length and len(test_data) > self.max_length:
+        if self.max_length is not None \
+                and len(test_data) > self.max_length:
             raise ValidationError('Maximum list length exceeded.',
                                   self.max_length, len(test_data))
         if self.min_length and len(test_data) < self.min_length:
@@ -815,7 +817,8 @@ class String(SchemaNode):
         if not isinstance(test_data, str):
             raise ValidationError('Invalid type/value.', 'str',
                                   type(test_data))
-        if self.max_length and len(test_data) > self.max_length:
+        if self.max_length is not None \
+                and len(test_data) > self.max_length:
             raise ValidationError('Maximum string length exceeded.',
                                   self.max_length, len(test_data))
         if self.min_length and len(test_data) < self.min_length:
-- 
2.43.0


From 95fd77dbd31c4a3853b7124dc8a75d694ad6d19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:10 +0000
Subject: [PATCH 12/28] fix: schema: support serialization of NumPy data types
 and scalar limits

---
 dsch/schema.py | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/dsch/schema.py b/dsch/schema.py
index 702b6ea..79e30bb 100644
--- a/dsch/schema.py
+++ b/dsch/schema.py
@@ -100,7 +100,8 @@ class SchemaNode:
         Returns:
             str: JSON representation of the node.
         """
-        return json.dumps(self.to_dict(), sort_keys=True)
+        return json.dumps(self.to_dict(), sort_keys=True,
+                          default=_scalar_to_json)
 
 
 class Array(SchemaNode):
@@ -211,7 +212,7 @@ class Array(SchemaNode):
             dict: dict-representation of the node.
         """
         config = {
-            'dtype': self.dtype,
+            'dtype': _dtype_to_str(self.dtype),
             'unit': self.unit,
             'max_shape': self.max_shape,
             'min_shape': self.min_shape,
@@ -727,7 +728,7 @@ class Scalar(SchemaNode):
             dict: dict-representation of the node.
         """
         config = {
-            'dtype': self.dtype,
+            'dtype': _dtype_to_str(self.dtype),
             'unit': self.unit,
             'max_value': self.max_value,
             'min_value': self.min_value,
@@ -882,6 +883,33 @@ class Time(SchemaNode):
                                   type(test_data))
 
 
+def _dtype_to_str(dtype):
+    """Convert a data type specification to its string representation.
+
+    Args:
+        dtype: Data type, given as a :class:`str`, :class:`numpy.dtype` or
+            type.
+
+    Returns:
+        str: Representation of the data type. Strings are not changed.
+    """
+    return dtype if isinstance(dtype, str) else str(np.dtype(dtype))
+
+
+def _scalar_to_json(value):
+    """Convert NumPy scalars for JSON serialization.
+
+    Args:
+        value: Value that is not supported by :mod:`json`.
+
+    Returns:
+        Corresponding Python object.
+    """
+    if isinstance(value, np.generic):
+        return value.item()
+    raise TypeError('{} is not JSON serializable.'.format(type(value)))
+
+
 def node_from_dict(node_dict):
     """Create a new node from its ``node_dict``.
 
-- 
2.43.0


From af2e4c9223219004fc30cdfae0e91604f7a0f174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:17 +0000
Subject: [PATCH 13/28] fix: schema: restored schemas equal the original ones

---
 dsch/schema.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dsch/schema.py b/dsch/schema.py
index 79e30bb..6d01838 100644
--- a/dsch/schema.py
+++ b/dsch/schema.py
@@ -49,10 +49,11 @@ class SchemaNode:
     def __eq__(self, other):
         """Implement the == operator for schema nodes."""
         try:
-            other_dict = other.to_dict()
+            other_json = other.to_json()
         except AttributeError:
             return False
-        return self.to_dict() == other_dict
+        # Compare JSON, since it does not distinguish tuples from lists.
+        return self.to_json() == other_json
 
     @classmethod
     def from_dict(cls, node_dict):
-- 
2.43.0


From 28ece6a067adeee6f39fb0b85dc4754b86a3c860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:45 +0000
Subject: [PATCH 14/28] fix: match independent variables to the correct
 dimensions and ignore empty ones

---
 dsch/data.py   | 5 ++++-
 dsch/schema.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/dsch/data.py b/dsch/data.py
index a1d1114..f18d2ed 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -316,9 +316,12 @@ class Array(ItemNode):
         independent_values = []
         node_names = self.schema_node.depends_on or []
         for node_name in node_names:
-            if node_name:
+            if node_name and not getattr(self.parent, node_name).empty:
                 independent_values.append(getattr(self.parent, node_name)
                                           .value)
+            else:
+                # Keep the position for dimensions that are not restricted.
+                independent_values.append(None)
         self.schema_node.validate(self.value, independent_values)
 
 
diff --git a/dsch/schema.py b/dsch/schema.py
index 6d01838..5ece51f 100644
--- a/dsch/schema.py
+++ b/dsch/schema.py
@@ -236,7 +236,8 @@ class Array(SchemaNode):
         in contrast to other node types, this method requires a second
         argument, supplying a tuple of :class:`numpy.ndarray` representing the
         independent variables. The tuple's length must consequently be equal to
-        :attr:`ndim` and to the length of :attr:`depends_on`.
+        :attr:`ndim` and to the length of :attr:`depends_on`. Dimensions that
+        are not to be checked have ``None`` as the corresponding entry.
 
         If validation succeeds, the method terminates silently. Otherwise, an
         exception is raised.
@@ -278,6 +279,8 @@ class Array(SchemaNode):
 
         if self.depends_on:
             for dim, value in zip(test_data.shape, independent_values):
+                if value is None:
+                    continue
                 if value.ndim > 1:
                     raise ValueError('Independent variable array must be '
                                      'one-dimensional.')
-- 
2.43.0


From ae0fcf7f135784a22d485c08536b1470059bc2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:25 +0000
Subject: [PATCH 15/28] fix: npz backend: save to exactly the given path and
 support all field names

---
 dsch/backends/npz.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dsch/backends/npz.py b/dsch/backends/npz.py
index 2a92b02..75c6b6b 100644
--- a/dsch/backends/npz.py
+++ b/dsch/backends/npz.py
@@ -5,6 +5,7 @@ This backend provides support for NumPy's npz format. For details, see
 enhancement proposal <https://docs.scipy.org/doc/numpy/neps/npy-format.html>`_.
 """
 import datetime
+import zipfile
 
 import numpy as np
 
@@ -279,8 +280,13 @@ class Storage(storage.FileStorage):
                 store_data = _flatten_dotted({'data': output_data})
             else:
                 store_data = {}
-        np.savez(self.storage_path, _schema=self.schema_node.to_json(),
-                 **store_data)
+        # numpy.savez is not used here, because it appends a file extension
+        # and does not support some names, e.g. "file".
+        store_data = dict(_schema=self.schema_node.to_json(), **store_data)
+        with zipfile.ZipFile(self.storage_path, 'w') as file_:
+            for name, value in store_data.items():
+                with file_.open(name + '.npy', 'w', force_zip64=True) as entry:
+                    np.lib.format.write_array(entry, np.asanyarray(value))
 
 
 class String(_ItemNode):
-- 
2.43.0


From 3c95ddffccc2e497d69ae8a9ee36481142da4b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:35 +0000
Subject: [PATCH 16/28] fix: mat backend: use exactly the given path

---
 dsch/backends/mat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index 1eea409..dec9720 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -205,7 +205,7 @@ class Storage(npz.Storage):
 
     def _load(self):
         """Load an existing file from :attr:`storage_path`."""
-        file_ = sio.loadmat(self.storage_path)
+        file_ = sio.loadmat(self.storage_path, appendmat=False)
         self.schema_node = schema.node_from_json(file_['schema'].item())
         data_storage = file_.get('data', None)
         self.data = data.data_node_from_schema(self.schema_node,
@@ -221,7 +221,7 @@ class Storage(npz.Storage):
         output_data = self.data.save()
         if output_data is not None:
             store_data['data'] = output_data
-        sio.savemat(self.storage_path, store_data)
+        sio.savemat(self.storage_path, store_data, appendmat=False)
 
 
 class String(npz.String):
-- 
2.43.0


From f00997feec103ff4c120146648b28f290637b1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:45 +0000
Subject: [PATCH 17/28] fix: mat backend: support field names of more than 31
 characters

---
 dsch/backends/mat.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index dec9720..09cbb1e 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -221,7 +221,8 @@ class Storage(npz.Storage):
         output_data = self.data.save()
         if output_data is not None:
             store_data['data'] = output_data
-        sio.savemat(self.storage_path, store_data, appendmat=False)
+        sio.savemat(self.storage_path, store_data, appendmat=False,
+                    long_field_names=True)
 
 
 class String(npz.String):
-- 
2.43.0


From f32b9e4b0273f73efe932eaa96808b9fa53026d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 18/28] fix: resize arrays without moving elements or failing
 on referenced data

---
 dsch/backends/hdf5.py |  8 ++++++++
 dsch/data.py          | 11 ++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index a0fcfe7..da577f3 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -113,6 +113,14 @@ class Array(data.Array, _ItemNode):
             maxshape=maxshape,
         )
 
+    def resize(self, size):
+        """Resize the array to the desired size.
+
+        Args:
+            size (tuple): Desired array size.
+        """
+        self._storage.resize(size)
+
     def _value(self):
         """Return the actual node data, independent of the backend in use.
 
diff --git a/dsch/data.py b/dsch/data.py
index f18d2ed..2db420e 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -16,6 +16,7 @@ import datetime
 import importlib
 
 import asciitree
+import numpy as np
 
 from . import exceptions
 
@@ -293,10 +294,18 @@ class Array(ItemNode):
     def resize(self, size):
         """Resize the array to the desired size.
 
+        All elements keep their position. Additional elements are set to zero.
+
         Args:
             size (tuple): Desired array size.
         """
-        self._storage.resize(size)
+        resized = np.zeros(size, dtype=self._storage.dtype)
+        if resized.ndim != self._storage.ndim:
+            raise ValueError('Number of array dimensions cannot be changed.')
+        overlap = tuple(slice(min(dims)) for dims in
+                        zip(resized.shape, self._storage.shape))
+        resized[overlap] = self._storage[overlap]
+        self._storage = resized
 
     def __setitem__(self, key, value):
         """Pass slicing/indexing operations directly to NumPy array."""
-- 
2.43.0


From 008dbed231793a2c633d19b3c12f3f0884d5bd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:40 +0000
Subject: [PATCH 19/28] fix: do not append a list item if its value is rejected

---
 dsch/backends/hdf5.py | 10 ++++++++--
 dsch/data.py          |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index da577f3..8e0d2af 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -295,11 +295,17 @@ class List(data.List):
         subnode = data.data_node_from_schema(self.schema_node.subnode,
                                              self.__module__, self,
                                              new_params=new_params)
+        if value is not None:
+            try:
+                subnode.replace(value)
+            except Exception:
+                # Do not keep any part of the item if the value is rejected.
+                if new_params['name'] in self._storage:
+                    del self._storage[new_params['name']]
+                raise
         self._subnodes.append(subnode)
         # Empty items do not have a dataset, so store the length separately.
         self._storage.attrs['length'] = len(self)
-        if value is not None:
-            subnode.replace(value)
 
     def clear(self):
         """Clear all subnodes."""
diff --git a/dsch/data.py b/dsch/data.py
index 2db420e..7964d58 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -692,9 +692,9 @@ class List:
         """
         subnode = data_node_from_schema(self.schema_node.subnode,
                                         self.__module__, self)
-        self._subnodes.append(subnode)
         if value is not None:
             subnode.replace(value)
+        self._subnodes.append(subnode)
 
     def clear(self):
         """Clear all sub-nodes.
-- 
2.43.0


From 6622d0908984abd92182e3bfe2ebf45282be2167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:41 +0000
Subject: [PATCH 20/28] fix: PseudoStorage: do not keep a storage with a
 refused schema

---
 dsch/frontend.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dsch/frontend.py b/dsch/frontend.py
index 0ea1029..b68c95a 100644
--- a/dsch/frontend.py
+++ b/dsch/frontend.py
@@ -255,8 +255,10 @@ class PseudoStorage:
             raise RuntimeError('PseudoStorage is already open.')
         if isinstance(self._data_storage, str):
             if os.path.exists(self._data_storage):
-                self.storage = load(self._data_storage)
-                self._verify_schema(self.storage.schema_node)
+                storage = load(self._data_storage)
+                self._verify_schema(storage.schema_node)
+                # Do not manage (and later save) a storage that is refused.
+                self.storage = storage
             else:
                 self.storage = create(self._data_storage,
                                       schema_node=self._schema_node)
-- 
2.43.0


From a6b844320ca175681a4ac270f60233971e2b7ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:20 +0000
Subject: [PATCH 21/28] fix: print trees with array fields holding something
 else than an array

The backends accept any value until validation, but printing a storage with
such a value raised an AttributeError.
---
 dsch/data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsch/data.py b/dsch/data.py
index 7964d58..c995ad7 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -287,6 +287,9 @@ class Array(ItemNode):
             value = 'x'.join([str(l) for l in self.value.shape]) + ' array'
         except exceptions.NodeEmptyError:
             value = '<empty>'
+        except AttributeError:
+            # The value is not an array, which is only rejected by validation.
+            value = str(self.value)
         key = '({type_name}): {value}'.format(type_name=type(self).__name__,
                                               value=value)
         return {key: {}}
-- 
2.43.0


From dfc9253f4f9ca5de9f6f123437daaa86d9e79e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:56 +0000
Subject: [PATCH 22/28] fix: do not share memory between arrays loaded from mat
 files

Arrays consisting of a single byte were loaded as views of Python's global
one-byte bytes objects. Changing an element of such an array changed these
objects, and thus other nodes and files.
---
 dsch/backends/mat.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index 09cbb1e..090f98a 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -50,7 +50,9 @@ class Array(npz.Array):
         dtype = np.dtype(self.schema_node.dtype)
         if dtype.kind in 'biufc' and dtype not in _NATIVE_DTYPES:
             data_storage = data_storage.astype(dtype)
-        super()._init_from_storage(data_storage)
+        # The loaded array may share its memory with other objects, e.g. with
+        # the bytes objects of length one that Python only creates once.
+        super()._init_from_storage(data_storage.copy())
 
 
 class Bytes(npz.Bytes):
-- 
2.43.0


From c07d84ab0bc6dc09c4cd8647d58ee41f78c5cc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:39 +0000
Subject: [PATCH 23/28] fix: Raise AttributeError for unknown attributes of
 Compilations

Compilation.__getattr__ raised KeyError, so hasattr(), getattr() with a
default and the copy and pickle modules failed for Compilation nodes.
---
 dsch/data.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dsch/data.py b/dsch/data.py
index c995ad7..f13ee38 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -466,7 +466,11 @@ class Compilation:
 
         This returns the entire sub-node object, not just the node value.
         """
-        return self._subnodes[attr_name]
+        try:
+            return self.__dict__['_subnodes'][attr_name]
+        except KeyError:
+            raise AttributeError('{} has no sub-node named {!r}.'.format(
+                type(self).__name__, attr_name)) from None
 
     def _init_from_storage(self, data_storage):
         """Initialize Compilation from the given data storage object.
-- 
2.43.0


From 2940f93abe9003a50797905e065972095e255acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:24 +0000
Subject: [PATCH 24/28] fix: do not share memory between array nodes assigned
 from the same array

---
 dsch/backends/inmem.py | 17 ++++++++++++++++-
 dsch/backends/npz.py   |  4 ++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/dsch/backends/inmem.py b/dsch/backends/inmem.py
index f768daa..d6615ae 100644
--- a/dsch/backends/inmem.py
+++ b/dsch/backends/inmem.py
@@ -41,7 +41,22 @@ class _ItemNode(data.ItemNode):
 
 class Array(data.Array, _ItemNode):
     """Array-type data node for the inmem backend."""
-    pass
+
+    def replace(self, new_value):
+        """Completely replace the current node value.
+
+        Instead of changing parts of the data (e.g. via numpy array slicing),
+        replace the entire data object for this node.
+
+        Args:
+            new_value: New value to apply to the node, independent of the
+                backend in use.
+        """
+        # Element access and resizing must only change this node, not the given
+        # array, which may also be the value of other nodes.
+        if isinstance(new_value, np.ndarray):
+            new_value = new_value.copy()
+        super().replace(new_value)
 
 
 class Bytes(_ItemNode):
diff --git a/dsch/backends/npz.py b/dsch/backends/npz.py
index 75c6b6b..f712624 100644
--- a/dsch/backends/npz.py
+++ b/dsch/backends/npz.py
@@ -37,6 +37,10 @@ class Array(data.Array, _ItemNode):
             new_value: New value to apply to the node, independent of the
                 backend in use.
         """
+        # Element access and resizing must only change this node, not the given
+        # array, which may also be the value of other nodes.
+        if isinstance(new_value, np.ndarray):
+            new_value = new_value.copy()
         self._storage = new_value
 
     def _value(self):
-- 
2.43.0


From 2923dabfe37b09d39bd6a34ad847fbba143295f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:26 +0000
Subject: [PATCH 25/28] fix: store only the date of a datetime in in-memory
 date fields, as in all other backends

---
 dsch/backends/inmem.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/dsch/backends/inmem.py b/dsch/backends/inmem.py
index d6615ae..176ca91 100644
--- a/dsch/backends/inmem.py
+++ b/dsch/backends/inmem.py
@@ -6,6 +6,8 @@ provides a clean way of data with dsch, without littering the workspace with
 temporary files. Also, it can be used to collect and aggregate data *before*
 selecting a storage path, e.g. file name.
 """
+import datetime
+
 import numpy as np
 
 from .. import data, storage
@@ -76,7 +78,21 @@ class Compilation(data.Compilation):
 
 class Date(data.Date, _ItemNode):
     """Date-type data node for the inmem backend."""
-    pass
+
+    def replace(self, new_value):
+        """Completely replace the current node value.
+
+        Instead of changing parts of the data (e.g. via numpy array slicing),
+        replace the entire data object for this node.
+
+        Args:
+            new_value: New value to apply to the node, independent of the
+                backend in use.
+        """
+        # Like in all other backends, only the date of a datetime is stored.
+        if isinstance(new_value, datetime.datetime):
+            new_value = new_value.date()
+        super().replace(new_value)
 
 
 class DateTime(data.DateTime, _ItemNode):
-- 
2.43.0


From c3971c9b92d170d688ab58994f6adf47e9bc2aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:15 +0000
Subject: [PATCH 26/28] fix: store values of str and bytes subclasses with
 their actual content

---
 dsch/backends/hdf5.py  | 13 +++++++++++++
 dsch/backends/inmem.py | 26 ++++++++++++++++++++++++--
 dsch/backends/npz.py   |  3 ++-
 dsch/data.py           | 20 ++++++++++++++++++++
 4 files changed, 59 insertions(+), 3 deletions(-)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index 8e0d2af..6e48d14 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -144,6 +144,7 @@ class Bytes(_ItemNode):
             new_value: New value to apply to the node, independent of the
                 backend in use.
         """
+        new_value = data.plain_value(new_value)
         if new_value == b'':
             # HDF5 does not support opaque data of size zero.
             super().replace(np.zeros((0,), dtype='V1'))
@@ -439,6 +440,18 @@ class Storage(storage.FileStorage):
 class String(_ItemNode):
     """String-type data node for the HDF5 backend."""
 
+    def replace(self, new_value):
+        """Completely replace the current node value.
+
+        Instead of changing parts of the data (e.g. via numpy array slicing),
+        replace the entire data object for this node.
+
+        Args:
+            new_value: New value to apply to the node, independent of the
+                backend in use.
+        """
+        super().replace(data.plain_value(new_value))
+
     def _value(self):
         """Return the actual node data, independent of the backend in use.
 
diff --git a/dsch/backends/inmem.py b/dsch/backends/inmem.py
index 176ca91..f568c33 100644
--- a/dsch/backends/inmem.py
+++ b/dsch/backends/inmem.py
@@ -63,7 +63,18 @@ class Array(data.Array, _ItemNode):
 
 class Bytes(_ItemNode):
     """Bytes-type data node for the inmem backend."""
-    pass
+
+    def replace(self, new_value):
+        """Completely replace the current node value.
+
+        Instead of changing parts of the data (e.g. via numpy array slicing),
+        replace the entire data object for this node.
+
+        Args:
+            new_value: New value to apply to the node, independent of the
+                backend in use.
+        """
+        super().replace(data.plain_value(new_value))
 
 
 class Bool(_ItemNode):
@@ -157,7 +168,18 @@ class Storage(storage.Storage):
 
 class String(_ItemNode):
     """String-type data node for the inmem backend."""
-    pass
+
+    def replace(self, new_value):
+        """Completely replace the current node value.
+
+        Instead of changing parts of the data (e.g. via numpy array slicing),
+        replace the entire data object for this node.
+
+        Args:
+            new_value: New value to apply to the node, independent of the
+                backend in use.
+        """
+        super().replace(data.plain_value(new_value))
 
 
 class Time(data.Time, _ItemNode):
diff --git a/dsch/backends/npz.py b/dsch/backends/npz.py
index f712624..1f618f0 100644
--- a/dsch/backends/npz.py
+++ b/dsch/backends/npz.py
@@ -65,6 +65,7 @@ class Bytes(_ItemNode):
             new_value: New value to apply to the node, independent of the
                 backend in use.
         """
+        new_value = data.plain_value(new_value)
         if new_value == b'':
             # NumPy pads empty byte strings, so use an empty array instead.
             self._storage = np.zeros((0,), dtype='bytes')
@@ -306,7 +307,7 @@ class String(_ItemNode):
             new_value: New value to apply to the node, independent of the
                 backend in use.
         """
-        self._storage = np.array(new_value, dtype='U')
+        self._storage = np.array(data.plain_value(new_value), dtype='U')
 
     def _value(self):
         """Return the actual node data, independent of the backend in use.
diff --git a/dsch/data.py b/dsch/data.py
index f13ee38..49d4cbb 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -1005,3 +1005,23 @@ def data_node_from_schema(schema_node, module_name, parent, data_storage=None,
     data_node_type = getattr(backend_module, node_type_name)
     return data_node_type(schema_node, parent, data_storage=data_storage,
                           new_params=new_params)
+
+
+def plain_value(value):
+    """Convert a value of a str or bytes subclass to the type itself.
+
+    Such values are valid for String and Bytes nodes, but e.g. NumPy strings or
+    enumerations have another representation that must not be stored instead.
+
+    Args:
+        value: Any value.
+
+    Returns:
+        The corresponding :class:`str` or :class:`bytes` value, or the given
+        value itself if it is of any other type.
+    """
+    if isinstance(value, str):
+        return str.__str__(value)
+    if isinstance(value, bytes):
+        return bytes(value)
+    return value
-- 
2.43.0


From 68ca4d2a1ade9c6c27354902be2dc896ca8c6964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:12 +0000
Subject: [PATCH 27/28] fix: keep the elements of masked arrays and other array
 types as a plain array, as in HDF5 files

---
 dsch/backends/inmem.py | 2 +-
 dsch/backends/npz.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsch/backends/inmem.py b/dsch/backends/inmem.py
index f568c33..73b62ed 100644
--- a/dsch/backends/inmem.py
+++ b/dsch/backends/inmem.py
@@ -57,7 +57,7 @@ class Array(data.Array, _ItemNode):
         # Element access and resizing must only change this node, not the given
         # array, which may also be the value of other nodes.
         if isinstance(new_value, np.ndarray):
-            new_value = new_value.copy()
+            new_value = np.array(new_value, order='C')
         super().replace(new_value)
 
 
diff --git a/dsch/backends/npz.py b/dsch/backends/npz.py
index 1f618f0..0bd04d1 100644
--- a/dsch/backends/npz.py
+++ b/dsch/backends/npz.py
@@ -40,7 +40,7 @@ class Array(data.Array, _ItemNode):
         # Element access and resizing must only change this node, not the given
         # array, which may also be the value of other nodes.
         if isinstance(new_value, np.ndarray):
-            new_value = new_value.copy()
+            new_value = np.array(new_value, order='C')
         self._storage = new_value
 
     def _value(self):
-- 
2.43.0


From 95d354922ea8aa1641cc06ac417e51fcf54b90e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:22 +0000
Subject: [PATCH 28/28] fix: keep the byte order of zero-dimensional arrays in
 HDF5 files

---
 dsch/backends/hdf5.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index 6e48d14..82c0a42 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -127,8 +127,9 @@ class Array(data.Array, _ItemNode):
         Returns:
             Node data.
         """
-        # For zero-dimensional arrays, h5py only provides a scalar.
-        return np.asarray(self._storage[()])
+        # For zero-dimensional arrays, h5py only provides a scalar, which is
+        # always in native byte order.
+        return np.asarray(self._storage[()], dtype=self._storage.dtype)
 
 
 class Bytes(_ItemNode):
-- 
2.43.0

