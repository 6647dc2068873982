From 734e5d35e1ac0a3d2d0305ada334e3e1c0875536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 01/47] fix: VTK read and write errors are raised instead of
 being silently ignored

---
 cfdtools/vtk/_vtk.py     | 12 ++++++++++--
 cfdtools/vtk/_vtkList.py | 15 +++++----------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/cfdtools/vtk/_vtk.py b/cfdtools/vtk/_vtk.py
index c2d25ad..96f2ece 100644
--- a/cfdtools/vtk/_vtk.py
+++ b/cfdtools/vtk/_vtk.py
@@ -42,6 +42,12 @@ else:
     log.warning("pyvista missing or failing at import: some features will be missing.")
 
 
+def pv_read(filename):
+    """read file with pyvista, VTK errors (only logged by default) are raised"""
+    with pv.VtkErrorCatcher(raise_errors=True):
+        return pv.read(filename)
+
+
 @api.fileformat_writer("VTK", '.vtu')
 class vtkMesh:
     """Implementation of the writer to write binary Vtk files using pyvista"""
@@ -82,11 +88,13 @@ class vtkMesh:
         self._grid = pvmesh
 
     def write_data(self, filename):
-        self._grid.save(filename)
+        # VTK only logs its errors: without this, a refused write would be silently lost
+        with pv.VtkErrorCatcher(raise_errors=True):
+            self._grid.save(filename)
 
     def read(self, filename):
         self.__init__()
-        self.set_pvmesh(pv.read(filename))
+        self.set_pvmesh(pv_read(filename))
         return self
 
     def export_mesh(self):
diff --git a/cfdtools/vtk/_vtkList.py b/cfdtools/vtk/_vtkList.py
index e89705e..f0af852 100644
--- a/cfdtools/vtk/_vtkList.py
+++ b/cfdtools/vtk/_vtkList.py
@@ -5,15 +5,10 @@ from pathlib import Path
 import numpy as np
 import scipy.spatial as spatial
 
-try:
-    import pyvista as pv
-    importpyvista = True
-except ImportError:  # pragma: no cover
-    importpyvista = False
-
 import cfdtools.api as api
 import cfdtools.utils.maths as maths
 from cfdtools.vtk import vtkMesh
+from cfdtools.vtk._vtk import pv_read
 from cfdtools.data import DataSetList
 
 # import cfdtools.hdf5 as hdf5
@@ -40,9 +35,9 @@ class vtkList:
         }
         count = 0
         assert self.nfile > 0
-        ref = mappos[pos](pv.read(self._list[0]))
+        ref = mappos[pos](pv_read(self._list[0]))
         for name in self._list:
-            mesh = pv.read(name)
+            mesh = pv_read(name)
             d = np.max(maths.distance(ref, mappos[pos](mesh)))
             if d > tol:
                 count += 1
@@ -59,7 +54,7 @@ class vtkList:
         Tcomp = api.Timer()
         Tsort = api.Timer()
         Tread.start()
-        self._mesh = pv.read(self._list[0])
+        self._mesh = pv_read(self._list[0])
         self._ncell = self._mesh.n_cells
         ctrRef = self._mesh.cell_centers().points
         Tread.pause()
@@ -79,7 +74,7 @@ class vtkList:
             if self._verbose:
                 log.info(f"  - {name}")
             Tread.start()
-            vtk = pv.read(name)
+            vtk = pv_read(name)
             Tread.pause()
             namelist = filterdata if filterdata else vtk.cell_data.keys()
             Tcomp.start()
-- 
2.43.0


From 3c32ce304517f95f08cb5a4f1f7089b40b309144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 02/47] fix: vtkMesh.volumes can be called more than once

---
 cfdtools/vtk/_vtk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/vtk/_vtk.py b/cfdtools/vtk/_vtk.py
index 96f2ece..b811d97 100644
--- a/cfdtools/vtk/_vtk.py
+++ b/cfdtools/vtk/_vtk.py
@@ -177,7 +177,7 @@ class vtkMesh:
         return lines
 
     def volumes(self):
-        if not self._volume:
+        if self._volume is None:
             self._volume = self._grid.compute_cell_sizes().cell_data["Volume"]
         return self._volume
 
-- 
2.43.0


From 7281fbba414212a1e92379495fe6422bc110ed68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 03/47] fix: a refused write of a packed HDF5 dataset is raised
 instead of being lost

---
 cfdtools/data.py       | 3 ++-
 cfdtools/hdf5/_hdf5.py | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index ed853a8..6b2a584 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -200,7 +200,8 @@ class DataSetList(DataSetBase):
                 if vname in self._property_names:
                     datagroup.attrs[vname] = var
                 else:
-                    datagroup.create_dataset(vname, data=var, **options)
+                    # flushed now: an error while the dataset is released would be silently lost
+                    datagroup.create_dataset(vname, data=var, **options).flush()
 
     def xdmf_content(self, filename, geometry_content):
         """Create the XDMF content associated to the data set.
diff --git a/cfdtools/hdf5/_hdf5.py b/cfdtools/hdf5/_hdf5.py
index 39220d0..03a9d4f 100755
--- a/cfdtools/hdf5/_hdf5.py
+++ b/cfdtools/hdf5/_hdf5.py
@@ -72,10 +72,10 @@ class h5File(_files):
     def write_unsmesh(self, cellnode: dict, nodes: np.ndarray, path="/mesh", meshtype="unsmesh", **options):
         hgroup = self._h5file.create_group(path)
         hgroup.attrs['meshtype'] = meshtype
-        hgroup.create_dataset("nodes", data=nodes, **options)
+        hgroup.create_dataset("nodes", data=nodes, **options).flush()
         hcells = hgroup.create_group("cells")
         for ctype, cellco in cellnode.items():
-            hcells.create_dataset(ctype, data=cellco, **options)
+            hcells.create_dataset(ctype, data=cellco, **options).flush()
 
     def printinfo(self):
         super().printinfo()
-- 
2.43.0


From b4c05df61bf696ffc14a9eeca7fe0775154d4c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 04/47] fix: a zero time value is kept by DataSet and
 DataSetList

---
 cfdtools/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index 6b2a584..1591460 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -84,7 +84,7 @@ class DataSet(DataSetBase):
         self._data = dict()
 
     def add_data(self, name, data, time=None):
-        if time:
+        if time is not None:
             self._properties['time'] = time
         self._data[name] = data
 
@@ -175,7 +175,7 @@ class DataSetList(DataSetBase):
         self._datalist = []
 
     def add_datalist(self, datalist: dict, time=None):
-        if time:
+        if time is not None:
             datalist['time'] = time
         self._datalist.append(datalist)
 
-- 
2.43.0


From 61f98a8240cfb16961cd4617cbbf0fc3cff4256b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 05/47] fix: simultaneous commands never choose the same new
 output file

---
 cfdtools/api.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cfdtools/api.py b/cfdtools/api.py
index 165a0f2..aa99a91 100644
--- a/cfdtools/api.py
+++ b/cfdtools/api.py
@@ -93,14 +93,23 @@ class _files:
         self._path = self._path.with_suffix(ext)
 
     def find_safe_newfile(self):
-        """Returns safe destination, adding (n) if needed"""
+        """Returns safe destination, adding (n) if needed
+
+        the name is reserved by creating the (empty) file, so that
+        simultaneous calls never get the same destination
+        """
         safepath = self._path
         # components strings
         folder = safepath.parent
         stem = safepath.stem
         suff = safepath.suffix
         i = 0
-        while safepath.exists():
+        while True:
+            try:
+                safepath.touch(exist_ok=False)
+                break
+            except FileExistsError:
+                pass
             i += 1
             # safepath = safepath.with_stem(stem+f'({i})') # only python >= 3.9
             # print(folder, stem, f"({i})", suff)
-- 
2.43.0


From eb0aecf3c8c415f78536d5562be7f71c953f3626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 06/47] fix: --remove-cell-data and --remove-node-data actually
 remove the data

---
 cfdtools/_cli.py           | 6 ++++++
 cfdtools/meshbase/_mesh.py | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/cfdtools/_cli.py b/cfdtools/_cli.py
index 044cf32..78c18d2 100644
--- a/cfdtools/_cli.py
+++ b/cfdtools/_cli.py
@@ -225,6 +225,12 @@ def write_generic(argv, ext, writer, fname=None):
                 log.info(f"  cannot find cell data {var}")
             else:
                 log.info(f"  pop cell data {var}")
+    if parser.args().remove_node_data:
+        for var in parser.args().remove_node_data:
+            if cfdmesh.pop_nodedata(var) is None:
+                log.info(f"  cannot find node data {var}")
+            else:
+                log.info(f"  pop node data {var}")
     #
     if parser.args().outpath is None:
         file.remove_dir()
diff --git a/cfdtools/meshbase/_mesh.py b/cfdtools/meshbase/_mesh.py
index a4b57bf..c943cef 100644
--- a/cfdtools/meshbase/_mesh.py
+++ b/cfdtools/meshbase/_mesh.py
@@ -320,10 +320,10 @@ class Mesh:
         self._cellprop['partition'] = partition
 
     def pop_nodedata(self, name):
-        return self._nodedata.pop(name) if name in self._nodedata.keys() else None
+        return getattr(self._nodedata, 'data', self._nodedata).pop(name, None)
 
     def pop_celldata(self, name):
-        return self._celldata.data[name] if self._celldata else None
+        return getattr(self._celldata, 'data', self._celldata).pop(name, None)
 
     def reindex_boundaryfaces(self):
         assert (
-- 
2.43.0


From d20006c92e00d5e4f40ddc66004d71f889d4bfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 07/47] fix: extrusion of triangles and numbering of extruded
 cells

---
 cfdtools/meshbase/_connectivity.py | 2 +-
 cfdtools/meshbase/_elements.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index e3be8d9..303e595 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -435,6 +435,6 @@ class elem_connectivity:
             # print(etype, econ['elem2node'], elemcon)
             index = np.tile(econ['index'].list(), (ncell))
             for i in range(ncell):
-                index[i * nelem : (i + 1) * nelem] += i * inodeshift
+                index[i * nelem : (i + 1) * nelem] += i * self.nelem
             newcon.add_elems(_elem.extruded_face[etype], elemcon, indexlist(ilist=index.tolist()))
         return newcon
diff --git a/cfdtools/meshbase/_elements.py b/cfdtools/meshbase/_elements.py
index be7a482..e72c178 100644
--- a/cfdtools/meshbase/_elements.py
+++ b/cfdtools/meshbase/_elements.py
@@ -7,7 +7,7 @@ geodim = {'point': 0, 'line': 1, 'surface': 2, 'volume': 3}
 elem_properties = [
     (0, '   node1', 1, 0, '    bar2'),
     (0, '    bar2', 2, 1, '   quad4'),
-    (0, '    tri3', 3, 2, '  penta6'),
+    (0, '    tri3', 3, 2, '  prism6'),
     (0, '   quad4', 4, 2, '   hexa8'),
     (0, '  tetra4', 4, 3, '    none'),
     (0, '   pyra5', 5, 3, '    none'),
-- 
2.43.0


From 2517153fcafdc1145fe20bc0b1bb17be178740ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 08/47] fix: faces of triangles are known whatever the reader
 used before

---
 cfdtools/meshbase/_elements.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cfdtools/meshbase/_elements.py b/cfdtools/meshbase/_elements.py
index e72c178..973bfda 100644
--- a/cfdtools/meshbase/_elements.py
+++ b/cfdtools/meshbase/_elements.py
@@ -62,6 +62,7 @@ def group_faces_by_type(connectivity):
 # see https://cgns.github.io/CGNS_docs_current/sids/conv.html#unst_quad
 # QUAD 4 2D
 cgns_elem2faces = {
+    'tri3': {'bar2': [[0, 1], [1, 2], [2, 0]]},
     'quad4': {'bar2': [[0, 1], [1, 2], [2, 3], [3, 0]]},
 }
 
-- 
2.43.0


From 4cb89627d49dd8879cdf75c603b0fdaef578bad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 09/47] fix: IC3 integrity check compares identifiers exactly

---
 cfdtools/ic3/reader_legacy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cfdtools/ic3/reader_legacy.py b/cfdtools/ic3/reader_legacy.py
index a224267..68981d6 100644
--- a/cfdtools/ic3/reader_legacy.py
+++ b/cfdtools/ic3/reader_legacy.py
@@ -213,7 +213,7 @@ class reader(binreader):
                 assert h.id[0] == ic3_restart_codes["UGP_IO_NO_CHECK"]
                 s = BinaryRead(self.fid, "%di" % no_count, self.byte_swap, type2nbytes["int32"] * no_count)
                 nodes_id = np.asarray(s)
-                assert np.allclose(nodes_id, np.arange(no_count))
+                assert np.array_equal(nodes_id, np.arange(no_count))
                 log.info("end of node integrity")
                 sys.stdout.flush()
                 del nodes_id
@@ -224,7 +224,7 @@ class reader(binreader):
                 h.readReqVar(self.fid, self.byte_swap, ["UGP_IO_FA_CHECK"])
                 s = BinaryRead(self.fid, "%di" % fa_count, self.byte_swap, type2nbytes["int32"] * fa_count)
                 faces_id = np.asarray(s)
-                assert np.allclose(faces_id, np.arange(fa_count))
+                assert np.array_equal(faces_id, np.arange(fa_count))
                 log.info("end of face integrity")
                 sys.stdout.flush()
                 del faces_id
@@ -237,7 +237,7 @@ class reader(binreader):
                 assert h.id[0] == ic3_restart_codes["UGP_IO_CV_CHECK"]
                 s = BinaryRead(self.fid, "%di" % cv_count, self.byte_swap, type2nbytes["int32"] * cv_count)
                 cells_id = np.asarray(s)
-                assert np.allclose(cells_id, np.arange(cv_count))
+                assert np.array_equal(cells_id, np.arange(cv_count))
                 log.info("end of cell integrity")
                 sys.stdout.flush()
                 del cells_id
-- 
2.43.0


From 28d51eeb5fd15d6c5e8e753b6716c235bd7c8939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 10/47] fix: IC3 reader gives node vectors to the exported mesh

---
 cfdtools/ic3/reader_legacy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cfdtools/ic3/reader_legacy.py b/cfdtools/ic3/reader_legacy.py
index 68981d6..628ee93 100644
--- a/cfdtools/ic3/reader_legacy.py
+++ b/cfdtools/ic3/reader_legacy.py
@@ -531,6 +531,7 @@ class reader(binreader):
                     self.fid, "%dd" % (no_count * 3), self.byte_swap, type2nbytes["float64"] * no_count * 3
                 )
                 vector = self.variables["nodes"][h.name] = np.asarray(s).reshape((no_count, 3))
+                self.nodedata.add_data(h.name, vector)
             elif h.idata[0] == fa_count:
                 self.variables["faces"][h.name] = np.zeros((fa_count, 3), dtype=np.float64)
                 s = BinaryRead(
-- 
2.43.0


From 36cea91b521248191085c4ab7541b379b50a7d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 11/47] fix: IC3 data location is given by the section, not
 guessed from its size

---
 cfdtools/ic3/reader_legacy.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/cfdtools/ic3/reader_legacy.py b/cfdtools/ic3/reader_legacy.py
index 628ee93..eb9817c 100644
--- a/cfdtools/ic3/reader_legacy.py
+++ b/cfdtools/ic3/reader_legacy.py
@@ -434,6 +434,14 @@ class reader(binreader):
         # self.get_datacell_properties()["ndof"] = ndof
         return ndof
 
+    def _data_location(self, h):
+        """where the data of a section lives, None if its size is inconsistent with the mesh"""
+        prefix = {"NO": ("nodes", "no_count"), "FA": ("faces", "fa_count"), "CV": ("cells", "cv_count")}
+        for loc, (location, count) in prefix.items():
+            codes = [ic3_restart_codes.get(f"UGP_IO_{loc}_{kind}") for kind in ("D1", "D3", "D33", "II1")]
+            if h.id[0] in codes:
+                return location if h.idata[0] == self.mesh["params"][count] else None
+
     def _ReadRestartVar(self):
         '''
         Method reading the variables from the restart file
@@ -477,14 +485,15 @@ class reader(binreader):
             typesize = properties_ugpcode[h.id[0]]['size']
             nptype = properties_ugpcode[h.id[0]]['numpytype']
             #
-            if h.idata[0] == no_count:
+            location = self._data_location(h)
+            if location == "nodes":
                 s = BinaryRead(self.fid, "%d" % no_count + typechar, self.byte_swap, typesize * no_count)
                 scalar = self.variables["nodes"][h.name] = np.asarray(s).astype(nptype)
                 self.nodedata.add_data(h.name, scalar)
-            elif h.idata[0] == fa_count:
+            elif location == "faces":
                 s = BinaryRead(self.fid, "%d" % fa_count + typechar, self.byte_swap, typesize * fa_count)
                 scalar = self.variables["faces"][h.name] = np.asarray(s).astype(nptype)
-            elif h.idata[0] == cv_count:
+            elif location == "cells":
                 ndof = self._set_ndof_properties(h.idata[1])
                 if ndof > 1:
                     self.celldata.Xrep = 'spectralcell'
@@ -526,19 +535,20 @@ class reader(binreader):
                 break
             reset_offset = False
             #
-            if h.idata[0] == no_count:
+            location = self._data_location(h)
+            if location == "nodes":
                 s = BinaryRead(
                     self.fid, "%dd" % (no_count * 3), self.byte_swap, type2nbytes["float64"] * no_count * 3
                 )
                 vector = self.variables["nodes"][h.name] = np.asarray(s).reshape((no_count, 3))
                 self.nodedata.add_data(h.name, vector)
-            elif h.idata[0] == fa_count:
+            elif location == "faces":
                 self.variables["faces"][h.name] = np.zeros((fa_count, 3), dtype=np.float64)
                 s = BinaryRead(
                     self.fid, "%dd" % (fa_count * 3), self.byte_swap, type2nbytes["float64"] * fa_count * 3
                 )
                 vector = self.variables["faces"][h.name] = np.asarray(s).reshape((fa_count, 3))
-            elif h.idata[0] == cv_count:
+            elif location == "cells":
                 ndof = self._set_ndof_properties(h.idata[1])
                 if ndof > 1:
                     self.celldata.Xrep = 'spectralcell'
@@ -571,7 +581,7 @@ class reader(binreader):
                 break
             reset_offset = False
 
-            if h.idata[0] == cv_count:
+            if self._data_location(h) == "cells":
                 ndof = self._set_ndof_properties(h.idata[1])
                 if ndof > 1:
                     self.celldata.Xrep = 'spectralcell'
-- 
2.43.0


From 6a1bc23075d02c97f4d1e887a327ba67f858e1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 12/47] fix: statistics weights read from an IC3 file are
 written back

---
 cfdtools/ic3/writerV2.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cfdtools/ic3/writerV2.py b/cfdtools/ic3/writerV2.py
index a7ac120..d2432d7 100644
--- a/cfdtools/ic3/writerV2.py
+++ b/cfdtools/ic3/writerV2.py
@@ -134,6 +134,9 @@ class writer:
             for key in self.simstate.keys():
                 if key in refdict.keys():
                     self.simstate[key] = refdict[key]
+        # weights are stored one by one when read from a file
+        wgt = {key[:-4]: value for key, value in self._mesh._params.items() if key.endswith('_wgt')}
+        self.simstate["wgt"] = {**wgt, **self.simstate["wgt"]}
 
     def set_vars(self):
         """
-- 
2.43.0


From b0a399d4e8c2562938db8afea72bc942c38cccd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 13/47] fix: IC3 v4 meshes can be converted, read again and
 read with statistics only

---
 cfdtools/ic3/readerV4.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/cfdtools/ic3/readerV4.py b/cfdtools/ic3/readerV4.py
index fce4423..e0e7cba 100644
--- a/cfdtools/ic3/readerV4.py
+++ b/cfdtools/ic3/readerV4.py
@@ -32,7 +32,7 @@ class reader:
 
     __version__ = "4"
 
-    def __init__(self, mesh_filename: str, solution_filename: str = None):
+    def __init__(self, mesh_filename: str, solution_filename: str = None, cIntegrity=False):
         """Initialization of a ic3 restart file reader."""
         self._mesh_filename = Path(mesh_filename)
         if not self._mesh_filename.exists():
@@ -42,6 +42,9 @@ class reader:
             self._solution_filename = Path(solution_filename)
             if not self._solution_filename.exists():
                 raise FileExistsError()
+        self._reset()
+
+    def _reset(self):
         # Initialize the mesh
         self.mesh = {
             "params": {
@@ -54,7 +57,6 @@ class reader:
             "connectivity": {"noofa": {}, "cvofa": {}, "nkeys": 0},
             "coordinates": None,
             "bocos": {"nfa_b": 0, "nfa_bp": 0},
-            "partition": None,
         }
         # Initialize the state dictionary
         self.simulation_state = {"step": 0, "time": 0}
@@ -99,6 +101,7 @@ class reader:
     def read_data(self):
         """Read the ic3 restart file in the HDF5 format."""
         log.info("Reader restart IC3 V4")
+        self._reset()
 
         # Open the file for binary reading
         log.debug(f"Opening file {self._mesh_filename!r}")
@@ -109,6 +112,8 @@ class reader:
             log.info("Reading connectivity...")
             self._read_connectivity(fid)
 
+        self._ncell = self.mesh['params']['cv_count']  # for generic writer and timer
+
         if self._solution_filename is None:
             return
 
@@ -120,8 +125,6 @@ class reader:
             log.info("Reading informative values...")
             self._read_informative_values(fid)
 
-            self._ncell = self.mesh['params']['cv_count']  # for generic writer and timer
-
     def export_mesh(self):
         """Export Mesh."""
         meshdata = _mesh.Mesh(self.mesh['params']['cv_count'], self.mesh['params']['no_count'])
@@ -300,7 +303,10 @@ class reader:
                 else:
                     print_stats_scalar(var_up, field)
 
-        read_vars(fid, ['rho', 'rhou', 'rhoe'])
+        # all of them or none (statistics only), see writer
+        fields = ['rho', 'rhou', 'rhoe']
+        if any(var in fid for var in fields):
+            read_vars(fid, fields)
 
         if 'VolumeStats' in fid:
             read_vars(fid['VolumeStats'], fid['VolumeStats'].keys())
-- 
2.43.0


From 1418b1865b88177ecdf8954e80a7acf290a1720f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 14/47] fix: a refused write of an IC3 v4 dataset is raised
 instead of being lost

---
 cfdtools/ic3/writerV4.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/cfdtools/ic3/writerV4.py b/cfdtools/ic3/writerV4.py
index dfdc07f..c60f640 100644
--- a/cfdtools/ic3/writerV4.py
+++ b/cfdtools/ic3/writerV4.py
@@ -25,6 +25,11 @@ from cfdtools.ic3 import writerV2
 log = logging.getLogger(__name__)
 
 
+def _create_dataset(group: h5py.Group, *args, **kwargs):
+    """Create a dataset and flush it: an error while it is released would be silently lost."""
+    group.create_dataset(*args, **kwargs).flush()
+
+
 @api.fileformat_writer('IC3V4', '.h5')
 class writer(writerV2.writer):
     """Writer of ic3 restart files in HDF5 format."""
@@ -97,7 +102,7 @@ class writer(writerV2.writer):
         """Write the coordinates of a mesh file."""
         coordinates = self._mesh.nodescoord(ndarray=True)
         log.debug('  Coordinates (IC3 UGP_IO_X_NO)')
-        fid.create_dataset("coordinates", data=coordinates.ravel())
+        _create_dataset(fid, "coordinates", data=coordinates.ravel())
         fid["coordinates"].attrs['system'] = 'cartesian'
 
     def _write_connectivities(self, fid: h5py.File):
@@ -109,20 +114,20 @@ class writer(writerV2.writer):
             log.debug('  Element-Node Connectivity')
             cell_group = conn_group.create_group("Cell")
             for ctype, cellco in dict(self._mesh._cell2node).items():
-                cell_group.create_dataset(ctype, data=cellco)
+                _create_dataset(cell_group, ctype, data=cellco)
 
         log.debug('  Face-Node Connectivity')
         face_group = conn_group.create_group("Face")
         log.debug('  Face-Element Connectivity (CGNS ParentElements, IC3 CVOFA)')
-        face_group.create_dataset('cvofa', data=self.f2e.ravel().tolist(), dtype='i4')
+        _create_dataset(face_group, 'cvofa', data=self.f2e.ravel().tolist(), dtype='i4')
         face_group["cvofa"].attrs['synonyms'] = 'CGNS NFACE_n ParentElements'
 
         log.debug('  Face-Node Connectivity (CGNS NGON_n, IC3 NOOFA_I_AND_V)')
         # Node count per face
         # ElementStartOffset to be computed?
-        face_group.create_dataset('noofa_i', data=self.f2v["noofa"], dtype='i4')
+        _create_dataset(face_group, 'noofa_i', data=self.f2v["noofa"], dtype='i4')
         face_group["noofa_i"].attrs['synonyms'] = 'CGNS NGON_n ElementStartOffset'
-        face_group.create_dataset('noofa_v', data=self.f2v["noofa_v"], dtype='i4')
+        _create_dataset(face_group, 'noofa_v', data=self.f2v["noofa_v"], dtype='i4')
         face_group["noofa_v"].attrs['synonyms'] = 'CGNS NGON_n'
 
         return
@@ -154,7 +159,8 @@ class writer(writerV2.writer):
             if "periodic_transform" in boco.properties:
                 if boco.properties["periodic_transform"] is not None:
                     per_group = bnd_group.create_group(boco.name)
-                    per_group.create_dataset(
+                    _create_dataset(
+                        per_group,
                         "periodic_transform",
                         3,
                         dtype="f8",
@@ -173,9 +179,9 @@ class writer(writerV2.writer):
         min_range.append(ifmax)
 
         dt = h5py.string_dtype(encoding='utf-8', length=128)
-        bnd_group.create_dataset('labels', len(labels), dtype=dt, data=labels)
-        bnd_group.create_dataset('offsets', len(min_range), dtype='i4', data=min_range)
-        bnd_group.create_dataset('kinds', len(kinds), dtype='i4', data=kinds)
+        _create_dataset(bnd_group, 'labels', len(labels), dtype=dt, data=labels)
+        _create_dataset(bnd_group, 'offsets', len(min_range), dtype='i4', data=min_range)
+        _create_dataset(bnd_group, 'kinds', len(kinds), dtype='i4', data=kinds)
 
         return
 
@@ -197,7 +203,7 @@ class writer(writerV2.writer):
             log.debug('  Node Data')
             if len(nddata.shape) == 1:
                 log.debug('  ' + ndname)
-                nd_group.create_dataset('node_gb_index', data=nddata, dtype='i8')
+                _create_dataset(nd_group, 'node_gb_index', data=nddata, dtype='i8')
 
         # Start with the cell variables Scalar Vector Tensor
         return
@@ -225,7 +231,7 @@ class writer(writerV2.writer):
             for cvname in ['RHO', 'RHOU', 'RHOE']:
                 cvdata = self.vars["cells"][cvname]
                 log.debug('  ' + cvname)
-                fid.create_dataset(cvname.lower(), data=cvdata.ravel(order='C'), dtype='f8')
+                _create_dataset(fid, cvname.lower(), data=cvdata.ravel(order='C'), dtype='f8')
         return
 
     def _write_solution_stats(self, fid: h5py.File):
@@ -250,6 +256,6 @@ class writer(writerV2.writer):
         for cvname in stats_var:
             cvdata = self.vars["cells"][cvname]
             log.debug('  ' + cvname)
-            volume_group.create_dataset(cvname.lower(), data=cvdata.ravel(order='C'), dtype='f8')
+            _create_dataset(volume_group, cvname.lower(), data=cvdata.ravel(order='C'), dtype='f8')
 
         return
-- 
2.43.0


From bf5f2d57d454932048e6163a0a64c66e294c76cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 15/47] fix: CGNS files are closed once the reader is released

---
 cfdtools/cgns/cgns.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/cfdtools/cgns/cgns.py b/cfdtools/cgns/cgns.py
index 40a6306..a64320b 100644
--- a/cfdtools/cgns/cgns.py
+++ b/cfdtools/cgns/cgns.py
@@ -2,13 +2,6 @@
 import logging
 from pathlib import Path
 
-try:
-    from functools import cache  # python >= 3.9
-except ImportError:
-    from functools import lru_cache  #  3.6 <= python <= 3.8
-
-    cache = lru_cache(maxsize=None)
-    del lru_cache
 from cfdtools.api import error_stop, fileformat_reader  # , memoize
 from cfdtools.hdf5 import h5File, h5_str
 from cfdtools.meshbase._mesh import Mesh, submeshmark
@@ -44,6 +37,7 @@ class cgnszone:
         self._zone = zone
         self._zonetype = h5_str(zone["ZoneType/ data"])
         self._geodim = geodim
+        self._facecon = None
         assert self._zonetype == "Unstructured", "Only Unstructured zone expected"
         # look for Elements
         self._elems = dict_cgnstype(zone, b'Elements_t')
@@ -86,10 +80,11 @@ class cgnszone:
     def export_cellcon(self):
         return self.elemcon(self._geodim)
 
-    # @memoize
-    @cache
     def export_facecon(self):
-        return self.elemcon(self._geodim - 1)
+        # stored in the zone: a global cache would keep all zones, and their opened file, forever
+        if self._facecon is None:
+            self._facecon = self.elemcon(self._geodim - 1)
+        return self._facecon
 
     def export_BC(self, BC):
         if "FamilyName" in BC.keys():
-- 
2.43.0


From 66630fc30a76953b089fc9e811a88971610d18e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 16/47] fix: cfdinfo can read CGNS files

---
 cfdtools/cgns/cgns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/cgns/cgns.py b/cfdtools/cgns/cgns.py
index a64320b..3de2bf3 100644
--- a/cfdtools/cgns/cgns.py
+++ b/cfdtools/cgns/cgns.py
@@ -141,7 +141,7 @@ class cgnsfile(h5File):
 
 @fileformat_reader('CGNS', '.cgns')
 class cgnsMesh:
-    def __init__(self, filename) -> None:
+    def __init__(self, filename, cIntegrity=False) -> None:
         self._filename = filename
         self._ncell = None
 
-- 
2.43.0


From fc56fd92305dd7189e9281e87a24e0b27a020b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 17/47] fix: CGNS cells are numbered from 0 even if other
 elements come first

---
 cfdtools/cgns/cgns.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cfdtools/cgns/cgns.py b/cfdtools/cgns/cgns.py
index 3de2bf3..119732c 100644
--- a/cfdtools/cgns/cgns.py
+++ b/cfdtools/cgns/cgns.py
@@ -63,9 +63,9 @@ class cgnszone:
         z = self._zone['GridCoordinates']['CoordinateZ/ data'][:]
         return x, y, z
 
-    def elemcon(self, geodim):
+    def elemcon(self, geodim, renumber=False):
         cellconn = _conn.elem_connectivity()
-        for _, elements in self._elems.items():
+        for elements in sorted(self._elems.values(), key=lambda e: e["ElementRange/ data"][0]):
             cgnstype = elements[" data"][0]
             etype = ele_cgns2local[cgnstype]
             nnode = _elem.nnode_elem[etype]
@@ -74,11 +74,12 @@ class cgnszone:
                 index = _conn.indexlist(irange=elements["ElementRange/ data"][:] - 1)
                 econ = elements["ElementConnectivity/ data"][:].reshape((-1, nnode))
                 econ -= 1  # shift node index (starts 0)
-                cellconn.add_elems(etype, econ, index)
+                cellconn.add_elems(etype, econ, None if renumber else index)
         return cellconn
 
     def export_cellcon(self):
-        return self.elemcon(self._geodim)
+        # cells are numbered from 0, wherever their elements are among all elements of the zone
+        return self.elemcon(self._geodim, renumber=True)
 
     def export_facecon(self):
         # stored in the zone: a global cache would keep all zones, and their opened file, forever
-- 
2.43.0


From 5265a17c78feb1c5e4d53a1c0694a1ffd32da79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 18/47] fix: GMSH v4 reader does not forget a last block of one
 node

---
 cfdtools/gmsh/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index 1e87df5..c0640b5 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -315,7 +315,7 @@ class reader(api._files):
         log.info("  parse Nodes")
         coords = self.__get_section_from_name(msh, "$Nodes")
         nnodes = int(coords[0][3])
-        nodes = 1
+        nodes = 0
         count = 1
         counter = 1
         x = [None] * (nnodes)
-- 
2.43.0


From f9f9571b0315f6de19311fd5a53fa99984750d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 19/47] fix: GMSH v4 physical group of an entity is looked for
 in its own dimension

---
 cfdtools/gmsh/reader.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index c0640b5..8b426c0 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -300,14 +300,16 @@ class reader(api._files):
 
         # To find the entity number used for concatenation of the mesh.
         # The returned values corresponds to the physical group
-        def find_ent(j):
+        def find_ent(dim, j):
             entities = self.__get_section_from_name(msh, "$Entities")
             addd = 0  # temporary variable to seek the line and return
-            bot = int(entities[0][0]) + int(entities[0][1])
-            top = int(entities[0][2]) + bot
-            for i in range(bot, top + 1):
-                if j == int(entities[i][0]) and len(entities[i]) >= 8:
-                    addd = int(entities[i][8])
+            bot = 1 + sum(int(n) for n in entities[0][:dim])
+            top = int(entities[0][dim]) + bot
+            iphys = 4 if dim == 0 else 7  # position of the number of physical tags
+            for i in range(bot, top):
+                if j == int(entities[i][0]):
+                    if int(entities[i][iphys]) > 0:
+                        addd = int(entities[i][iphys + 1])
                     break
             return addd
 
@@ -345,7 +347,7 @@ class reader(api._files):
             a = int(elements[count][2])  # dimension
             b = int(2)  # No. of tags
             d = int(elements[count][1])  # Entity group
-            c = find_ent(d)  # Physical group
+            c = find_ent(int(elements[count][0]), d)  # Physical group
             nxtrange = int(elements[count][3])
             for j in range(count + 1, count + nxtrange + 1):
                 elt1 = [int(k) for k in elements[j]]
-- 
2.43.0


From c09cd0247a769313dc6e61ce2edfc1c299ae826c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 20/47] fix: GMSH physical names with spaces or with the same
 tag in another dimension

---
 cfdtools/gmsh/reader.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index 8b426c0..9ef58fe 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -125,7 +125,7 @@ class reader(api._files):
         self._famm = []
         if fam is not None:  # B.C. are defined
             for bnd_tag in bnd.keys():
-                family = fam[str(bnd2fam[bnd_tag])]
+                family = fam[str(self._maxdim - 1), str(bnd2fam[bnd_tag])]
                 if family != "fluid":
                     self.__create_bnd(
                         boundaries,
@@ -250,8 +250,9 @@ class reader(api._files):
             fam = {}
             bctype = {}
             for i in range(1, int(families[0][0]) + 1):
-                fam[families[i][1]] = families[i][2][1:-1]
-                bctype[families[i][2][1:-1]] = families[i][0]
+                name = " ".join(families[i][2:])[1:-1]
+                fam[families[i][0], families[i][1]] = name
+                bctype[name] = families[i][0]
             log.info(f"    found Physical names {fam}")
             log.info(f"    found Entities {bctype}")
         else:
@@ -290,8 +291,9 @@ class reader(api._files):
             fam = {}
             bctype = {}
             for i in range(1, int(families[0][0]) + 1):
-                fam[families[i][1]] = families[i][2][1:-1]
-                bctype[families[i][2][1:-1]] = families[i][0]
+                name = " ".join(families[i][2:])[1:-1]
+                fam[families[i][0], families[i][1]] = name
+                bctype[name] = families[i][0]
             log.info(f"    found Physical names {fam}")
             log.info(f"    found Entities {bctype}")
         else:
-- 
2.43.0


From dec638fc360bb0a884ffe62140f27f2cf07c2176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 21/47] fix: GMSH node tags may be neither ordered nor
 contiguous

---
 cfdtools/gmsh/reader.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index 9ef58fe..b18d1d9 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -266,6 +266,8 @@ class reader(api._files):
         x = [float(coords[i][1]) for i in range(1, nnodes + 1)]
         y = [float(coords[i][2]) for i in range(1, nnodes + 1)]
         z = [float(coords[i][3]) for i in range(1, nnodes + 1)]
+        # node tags may be neither ordered nor contiguous
+        node_rank = {int(coords[i][0]): i for i in range(1, nnodes + 1)}
 
         # Find the elements.
         log.info("  parse Elements")
@@ -273,7 +275,9 @@ class reader(api._files):
         elts = []
         nelems = int(elements[0][0])
         for i in range(1, nelems + 1):
-            elts.append([int(j) for j in elements[i]])
+            elt1 = [int(j) for j in elements[i]]
+            ntag = elt1[2]
+            elts.append(elt1[: 3 + ntag] + [node_rank[n] for n in elt1[3 + ntag :]])
 
         return fam, bctype, x, y, z, elts
 
@@ -322,18 +326,16 @@ class reader(api._files):
         nodes = 0
         count = 1
         counter = 1
-        x = [None] * (nnodes)
-        y = [None] * (nnodes)
-        z = [None] * (nnodes)
+        xyz = {}  # position of each node tag
         while nodes < nnodes:
             cnt = int(coords[counter][3])
             for i in range(counter + 1, counter + cnt + 1):
-                pos = int(coords[i][0]) - 1
-                x[pos] = float(coords[i + cnt][0])
-                y[pos] = float(coords[i + cnt][1])
-                z[pos] = float(coords[i + cnt][2])
+                xyz[int(coords[i][0])] = [float(c) for c in coords[i + cnt][:3]]
             nodes += cnt
             counter = counter + 2 * cnt + 1
+        # node tags may be neither ordered nor contiguous
+        node_rank = {tag: i for i, tag in enumerate(sorted(xyz), start=1)}
+        x, y, z = ([xyz[tag][i] for tag in node_rank] for i in range(3))
 
         # Find the elements.
         log.info("  parse Elements")
@@ -352,7 +354,7 @@ class reader(api._files):
             c = find_ent(int(elements[count][0]), d)  # Physical group
             nxtrange = int(elements[count][3])
             for j in range(count + 1, count + nxtrange + 1):
-                elt1 = [int(k) for k in elements[j]]
+                elt1 = [int(elements[j][0])] + [node_rank[int(k)] for k in elements[j][1:]]
                 elt1.insert(1, a)
                 elt1.insert(2, b)
                 elt1.insert(3, c)
-- 
2.43.0


From 523ab05a5ba872adc385a8ef90e64295a5141514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 22/47] fix: cfdwritecube writes in the requested --outpath

---
 cfdtools/_cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cfdtools/_cli.py b/cfdtools/_cli.py
index 78c18d2..c4c4a6a 100644
--- a/cfdtools/_cli.py
+++ b/cfdtools/_cli.py
@@ -325,6 +325,8 @@ def cfdwritecube(argv=None):
     mesh = cube.export_mesh()
     #
     file = api._files(parser.args().filename)
+    if parser.args().outpath is not None:
+        file.change_dir(parser.args().outpath)
     w = parser._writer(mesh)
     w.write_data(file.filename)
     return file.filename  # filename needed for pytest (for eventual rm)
-- 
2.43.0


From 1c84493d4ff866ceb231828c36eceace849afb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 23/47] fix: probe maps of variables with long names and with
 current matplotlib

---
 cfdtools/plot.py        | 4 ++--
 cfdtools/probes/plot.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/cfdtools/plot.py b/cfdtools/plot.py
index 6e378e3..1eb09a5 100644
--- a/cfdtools/plot.py
+++ b/cfdtools/plot.py
@@ -3,8 +3,8 @@ import matplotlib
 
 
 def normalizeCmap(cmapStr, nBins):
-    colormap = matplotlib.cm.get_cmap(cmapStr, nBins)
+    colormap = matplotlib.colormaps[cmapStr].resampled(nBins)
     if isinstance(colormap, matplotlib.colors.LinearSegmentedColormap):
         return matplotlib.colors.LinearSegmentedColormap(cmapStr, segmentdata=colormap._segmentdata, N=nBins)
     else:
-        return matplotlib.colors.ListedColormap(matplotlib.cm.get_cmap(cmapStr, nBins).colors)
+        return matplotlib.colors.ListedColormap(colormap.colors)
diff --git a/cfdtools/probes/plot.py b/cfdtools/probes/plot.py
index 8a3e373..7f82702 100644
--- a/cfdtools/probes/plot.py
+++ b/cfdtools/probes/plot.py
@@ -15,7 +15,7 @@ def check_axis(axisdata):
         axis = np.mean(axisdata, axis=0)
         # print(axis.shape)
         err = np.mean(axisdata**2, axis=0) - axis**2
-        log.info(f"min:avg:max change of several axis {err.shape}: {list(*minavgmax(err))}")
+        log.info(f"min:avg:max change of several axis {err.shape}: {list(minavgmax(err))}")
         log.warning(
             "several lines for axis: they are merged (average change is {:.2e})".format(
                 np.sqrt(np.mean(np.abs(err)))
@@ -29,7 +29,7 @@ def check_axis(axisdata):
 def plot_timemap(data, **kwargs):
     basename = kwargs.get('prefix')
     axis = kwargs.get('axis')
-    var = kwargs.get('datalist')[0]
+    var = kwargs.get('datalist')
     cmap, nlevels = kwargs['cmap'], kwargs['nlevels']
     figname = basename + "." + var + ".time.png"
     fig = plt.figure(1, figsize=(10, 8))
@@ -63,7 +63,7 @@ def plot_timemap(data, **kwargs):
 def plot_freqmap(data, **kwargs):
     basename = kwargs.get('prefix')
     axis = kwargs.get('axis')
-    var = kwargs.get('datalist')[0]
+    var = kwargs.get('datalist')
     cmap, nlevels = kwargs['cmap'], kwargs['nlevels']
     figname = basename + "." + var + ".freq.png"
     t = data.alldata["time"]
-- 
2.43.0


From b9da58d8939f4f0566a04de80bd66cc2c49f36cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:40 +0000
Subject: [PATCH 24/47] fix: probe rows cut in their last value or unreadable
 values are not used

---
 cfdtools/probes/data.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cfdtools/probes/data.py b/cfdtools/probes/data.py
index 913790c..d743e91 100644
--- a/cfdtools/probes/data.py
+++ b/cfdtools/probes/data.py
@@ -112,7 +112,14 @@ class phydata:
         if os.path.exists(fname):
             if self.verbose:
                 log.info("- read " + varname + " in " + fname)
-            rdata = np.genfromtxt(fname, delimiter=" ")
+            with open(fname) as fid:
+                lines = fid.readlines()
+            # the file may still be written: a last line without end of line may be incomplete
+            if lines and not lines[-1].endswith("\n"):
+                log.warning("incomplete last line ignored in " + fname)
+                lines.pop()
+            # loose=False: raises an error if a value can not be read
+            rdata = np.genfromtxt(lines, delimiter=" ", loose=False)
             if rdata.ndim == 1:  # supposed to be coordinate
                 # extract only coordinate (remove time and it)
                 self.alldata[varname] = rdata[3:]
-- 
2.43.0


From 28db4213c942d41b1a25a5f0231f84fd6b7b0a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:40 +0000
Subject: [PATCH 25/47] fix: probe quantities are not computed from different
 numbers of records

---
 cfdtools/probes/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cfdtools/probes/data.py b/cfdtools/probes/data.py
index d743e91..b9b629d 100644
--- a/cfdtools/probes/data.py
+++ b/cfdtools/probes/data.py
@@ -79,6 +79,8 @@ class phydata:
             if success:
                 if self.verbose:
                     log.info("- compute " + varname)
+                if len({self.alldata[depvar].shape for depvar in self.dependency_vars[varname]}) > 1:
+                    raise ValueError("inconsistent number of records to compute " + varname)
                 self.compute_varname[varname]()
             else:
                 raise NameError(varname + " missing or unable to compute")
-- 
2.43.0


From 96583ba4c448ad4b3bf6cdcc79de3e909838cb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:33 +0000
Subject: [PATCH 26/47] fix: VTK errors of one thread are not lost because of
 another one

---
 cfdtools/vtk/_vtk.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/cfdtools/vtk/_vtk.py b/cfdtools/vtk/_vtk.py
index b811d97..c2803c6 100644
--- a/cfdtools/vtk/_vtk.py
+++ b/cfdtools/vtk/_vtk.py
@@ -1,4 +1,7 @@
+from contextlib import contextmanager
 import logging
+import threading
+
 import numpy as np
 import scipy.spatial as spatial
 from typing import Callable
@@ -42,9 +45,22 @@ else:
     log.warning("pyvista missing or failing at import: some features will be missing.")
 
 
+_vtk_lock = threading.RLock()
+
+
+@contextmanager
+def vtk_errors_raised():
+    """VTK errors (only logged by default) are raised
+
+    VTK has only one error output: a thread must not catch the errors of another one
+    """
+    with _vtk_lock, pv.VtkErrorCatcher(raise_errors=True):
+        yield
+
+
 def pv_read(filename):
-    """read file with pyvista, VTK errors (only logged by default) are raised"""
-    with pv.VtkErrorCatcher(raise_errors=True):
+    """read file with pyvista, VTK errors are raised"""
+    with vtk_errors_raised():
         return pv.read(filename)
 
 
@@ -89,7 +105,7 @@ class vtkMesh:
 
     def write_data(self, filename):
         # VTK only logs its errors: without this, a refused write would be silently lost
-        with pv.VtkErrorCatcher(raise_errors=True):
+        with vtk_errors_raised():
             self._grid.save(filename)
 
     def read(self, filename):
-- 
2.43.0


From 7dce05b11f4d91fa946fe3b03eee347bbfa1c729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:24 +0000
Subject: [PATCH 27/47] fix: faces are built when a face type is missing inside
 or on the boundary

---
 cfdtools/meshbase/_connectivity.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index 303e595..95320a7 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -373,21 +373,24 @@ class elem_connectivity:
                 for tface in listfaces:
                     face_pairs[tuple(sorted(tface[0]))].append(tface)  # 50% COST
                 nf_unique = len(face_pairs)
-                assert nf_unique < nf_all
+                assert nf_unique <= nf_all
                 assert 2 * nf_unique >= nf_all
                 # extract all unique face
                 #   since reversed when created, boco faces are pointing outward
                 uniqueface_dict = dict(
                     filter(lambda tup: len(tup[1]) == 1, face_pairs.items())
                 )  # tup[1] is the value of key
-                boundaryfaces.add_elems(ftype, face_from_ufacedict(uniqueface_dict))
-                f2c = np.full((len(uniqueface_dict), 2), -1)
-                # get index of connected cells
-                f2c[:, 0] = list(map(lambda flist: flist[0][1], uniqueface_dict.values()))
-                bface2cell.append(f2c)
+                if uniqueface_dict:  # a face type may be missing on the boundary
+                    boundaryfaces.add_elems(ftype, face_from_ufacedict(uniqueface_dict))
+                    f2c = np.full((len(uniqueface_dict), 2), -1)
+                    # get index of connected cells
+                    f2c[:, 0] = list(map(lambda flist: flist[0][1], uniqueface_dict.values()))
+                    bface2cell.append(f2c)
                 # remove these faces
                 for uface in uniqueface_dict.keys():
                     face_pairs.pop(uface)
+                if not face_pairs:  # a face type may be missing inside
+                    continue
                 # get all first face of each pair of tuple (face,ielem)
                 intfaces = face_from_ufacedict(face_pairs)  # 10% COST
                 internalfaces.add_elems(ftype, intfaces)
-- 
2.43.0


From f52faf4d370d0255f8a530e9b86d952f7ce42f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:30 +0000
Subject: [PATCH 28/47] fix: GMSH v4 reader stops at the number of nodes, not
 at the highest tag

---
 cfdtools/gmsh/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index b18d1d9..d145b41 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -322,7 +322,7 @@ class reader(api._files):
         # Find the coordinates.
         log.info("  parse Nodes")
         coords = self.__get_section_from_name(msh, "$Nodes")
-        nnodes = int(coords[0][3])
+        nnodes = int(coords[0][1])  # numEntityBlocks numNodes minNodeTag maxNodeTag
         nodes = 0
         count = 1
         counter = 1
-- 
2.43.0


From 18be463ea797a4429d4332a4c0ccfd1932f9cada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:03 +0000
Subject: [PATCH 29/47] fix: a snapshot which does not hold exactly the same
 cells is not packed

---
 cfdtools/vtk/_vtkList.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cfdtools/vtk/_vtkList.py b/cfdtools/vtk/_vtkList.py
index f0af852..44517be 100644
--- a/cfdtools/vtk/_vtkList.py
+++ b/cfdtools/vtk/_vtkList.py
@@ -87,6 +87,8 @@ class vtkList:
                 #     log.info(f"  . {name}: {d}")
                 Tsort.start()
                 dfinal, index = tree.query(ctr, p=2) # p=2 is the norm
+                if ctr.shape != ctrRef.shape or np.unique(index).size != index.size:
+                    raise ValueError(f"  cells of {name} are not the cells of {self._list[0]}")
                 # reverse indexing to sort new arrays
                 rindex = index.copy()
                 rindex[index] = np.arange(index.size)
-- 
2.43.0


From ae368769761e6dfae35b4e65ea5a6410297b8596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:43 +0000
Subject: [PATCH 30/47] fix: meshes read from GMSH files can be scaled
 (coordinates were plain lists)

---
 cfdtools/meshbase/_mesh.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cfdtools/meshbase/_mesh.py b/cfdtools/meshbase/_mesh.py
index c943cef..3e67b5b 100644
--- a/cfdtools/meshbase/_mesh.py
+++ b/cfdtools/meshbase/_mesh.py
@@ -132,9 +132,9 @@ class Mesh:
     def set_nodescoord_xyz(self, x, y, z):
         for c in [x, y, z]:
             assert len(c) == self.nnode
-        self._nodes['x'] = x
-        self._nodes['y'] = y
-        self._nodes['z'] = z
+        self._nodes['x'] = np.asarray(x)
+        self._nodes['y'] = np.asarray(y)
+        self._nodes['z'] = np.asarray(z)
 
     def nodescoord(self, ndarray=False):
         coords = tuple(self._nodes[c] for c in ['x', 'y', 'z'])
-- 
2.43.0


From ca13cffb4f200c3d92323696b287d8da78d08410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:21 +0000
Subject: [PATCH 31/47] fix: errors of the VTK reader itself are raised
 (pyvista.read turned them into warnings)

---
 cfdtools/vtk/_vtk.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/cfdtools/vtk/_vtk.py b/cfdtools/vtk/_vtk.py
index c2803c6..0b90048 100644
--- a/cfdtools/vtk/_vtk.py
+++ b/cfdtools/vtk/_vtk.py
@@ -61,7 +61,17 @@ def vtk_errors_raised():
 def pv_read(filename):
     """read file with pyvista, VTK errors are raised"""
     with vtk_errors_raised():
-        return pv.read(filename)
+        try:
+            reader = pv.get_reader(filename)
+        except ValueError:  # not a VTK format
+            return pv.read(filename)
+        # not pv.read(): it turns the errors of the VTK reader into warnings
+        mesh = reader.read()
+        # some errors are only told by the code
+        error = getattr(reader.reader, 'GetErrorCode', lambda: 0)()
+        if error:
+            raise OSError(f"VTK error {error} while reading {filename}")
+        return mesh
 
 
 @api.fileformat_writer("VTK", '.vtu')
-- 
2.43.0


From 1482ac74d0273c846e1316b91494f5538809df16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:58 +0000
Subject: [PATCH 32/47] fix: stopping a timer for zero elements raised and left
 it neither stopped nor reset

---
 cfdtools/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/api.py b/cfdtools/api.py
index aa99a91..df8a3c2 100644
--- a/cfdtools/api.py
+++ b/cfdtools/api.py
@@ -164,7 +164,7 @@ class Timer:  # from https://realpython.com/python-timer/
         if nelem is not None:
             self._nelem = nelem
         self.pause()
-        normalized_time_ms = 0.0 if self._nelem is None else 1e6 * self._elapsed / self._nelem
+        normalized_time_ms = 1e6 * self._elapsed / self._nelem if self._nelem else 0.0
 
         # There was a print, line is restarted
         self._ncol = 0
-- 
2.43.0


From 172afc0d712846581ce2d587e1fc5a6d6a873564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:42 +0000
Subject: [PATCH 33/47] fix: GMSH v4 reader read forever a file with a negative
 block size

---
 cfdtools/gmsh/reader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index d145b41..e5a3fae 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -329,6 +329,8 @@ class reader(api._files):
         xyz = {}  # position of each node tag
         while nodes < nnodes:
             cnt = int(coords[counter][3])
+            if cnt < 0:  # would be read forever
+                api.error_stop(f"unexpected number of nodes in a block: {cnt}")
             for i in range(counter + 1, counter + cnt + 1):
                 xyz[int(coords[i][0])] = [float(c) for c in coords[i + cnt][:3]]
             nodes += cnt
@@ -353,6 +355,8 @@ class reader(api._files):
             d = int(elements[count][1])  # Entity group
             c = find_ent(int(elements[count][0]), d)  # Physical group
             nxtrange = int(elements[count][3])
+            if nxtrange < 0:
+                api.error_stop(f"unexpected number of elements in a block: {nxtrange}")
             for j in range(count + 1, count + nxtrange + 1):
                 elt1 = [int(elements[j][0])] + [node_rank[int(k)] for k in elements[j][1:]]
                 elt1.insert(1, a)
-- 
2.43.0


From 5d683c7946aaa1738415d0ef58b7dfa2da91de1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:26 +0000
Subject: [PATCH 34/47] fix: a probe row appended while it is read is not cut
 in two rows

---
 cfdtools/probes/data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cfdtools/probes/data.py b/cfdtools/probes/data.py
index b9b629d..5ce8ed7 100644
--- a/cfdtools/probes/data.py
+++ b/cfdtools/probes/data.py
@@ -114,9 +114,10 @@ class phydata:
         if os.path.exists(fname):
             if self.verbose:
                 log.info("- read " + varname + " in " + fname)
+            # read at once: the file may still be written, a line read in two times would make two lines
             with open(fname) as fid:
-                lines = fid.readlines()
-            # the file may still be written: a last line without end of line may be incomplete
+                lines = fid.read().splitlines(keepends=True)
+            # a last line without end of line may be incomplete
             if lines and not lines[-1].endswith("\n"):
                 log.warning("incomplete last line ignored in " + fname)
                 lines.pop()
-- 
2.43.0


From e3dc1c049f3199084c0c1d0240d6e0470440cf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:03 +0000
Subject: [PATCH 35/47] fix: a probe file which can not be examined is not a
 missing one

---
 cfdtools/probes/data.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cfdtools/probes/data.py b/cfdtools/probes/data.py
index 5ce8ed7..5eb9e69 100644
--- a/cfdtools/probes/data.py
+++ b/cfdtools/probes/data.py
@@ -17,6 +17,15 @@ varname_syn = {  # name for line_probe
 }
 
 
+def file_exists(fname):
+    """os.path.exists would take any error (I/O, permission) for a missing file"""
+    try:
+        os.stat(fname)
+    except (FileNotFoundError, NotADirectoryError):
+        return False
+    return True
+
+
 def minavgmax(d):
     return (f(d) for f in [np.min, np.average, np.max])
 
@@ -111,7 +120,7 @@ class phydata:
             Bool: success in reading file
         """
         fname = prefix + "." + varname
-        if os.path.exists(fname):
+        if file_exists(fname):
             if self.verbose:
                 log.info("- read " + varname + " in " + fname)
             # read at once: the file may still be written, a line read in two times would make two lines
-- 
2.43.0


From 3ebe5679912970b46eb0123e1198fa038d01f733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:22 +0000
Subject: [PATCH 36/47] fix: a figure which could not be saved was drawn again
 under the next one

---
 cfdtools/probes/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfdtools/probes/plot.py b/cfdtools/probes/plot.py
index 7f82702..cd8f1cc 100644
--- a/cfdtools/probes/plot.py
+++ b/cfdtools/probes/plot.py
@@ -32,7 +32,7 @@ def plot_timemap(data, **kwargs):
     var = kwargs.get('datalist')
     cmap, nlevels = kwargs['cmap'], kwargs['nlevels']
     figname = basename + "." + var + ".time.png"
-    fig = plt.figure(1, figsize=(10, 8))
+    fig = plt.figure(1, figsize=(10, 8), clear=True)
     # fig.suptitle('', fontsize=12, y=0.93)
     # labels = []
     # plt.plot(x[0], qdata[0])
@@ -78,7 +78,7 @@ def plot_freqmap(data, **kwargs):
     # labels.append(file)
     # plt.legend(labels, loc='upper left',prop={'size':10})
     # plt.axis([0., 50., 0., 90.])
-    fig = plt.figure(1, figsize=(10, 8))
+    fig = plt.figure(1, figsize=(10, 8), clear=True)
     plt.xlabel(axis, fontsize=10)
     plt.ylabel("frequency", fontsize=10)
     n = data.alldata[var].shape[0]
-- 
2.43.0


From ee71d064438eb377f10c0e3769b03a4da988732b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:13 +0000
Subject: [PATCH 37/47] fix: a CGNS patch given by its elements was lost when
 it has as many faces as the mesh has cells

---
 cfdtools/cgns/cgns.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cfdtools/cgns/cgns.py b/cfdtools/cgns/cgns.py
index 119732c..557b121 100644
--- a/cfdtools/cgns/cgns.py
+++ b/cfdtools/cgns/cgns.py
@@ -103,7 +103,8 @@ class cgnszone:
         elif "ElementList" in BC.keys():  # not in CGNS norm
             indexlist = (BC["ElementList/ data"][:] - 1).ravel().tolist()
             gridloc = "FaceCenter"
-            if len(indexlist) == self.ncell:
+            # whole domain: all cells (a mark may also have as many faces)
+            if len(indexlist) == self.ncell and set(indexlist) == set(self.elemcon(self._geodim).all_index()):
                 gridloc = "CellCenter"
                 boco.type = 'internal'
         else:
-- 
2.43.0


From f4323c832aa334aad1bf5c15687839a7457d1555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:48 +0000
Subject: [PATCH 38/47] fix: vtkbrief printed the address of a method instead
 of the type of the grid

---
 cfdtools/vtk/_vtk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/vtk/_vtk.py b/cfdtools/vtk/_vtk.py
index 0b90048..33a189f 100644
--- a/cfdtools/vtk/_vtk.py
+++ b/cfdtools/vtk/_vtk.py
@@ -152,7 +152,7 @@ class vtkMesh:
     def brief(self):
         if self._grid:
             m = self._grid
-            log.info(f"pyvista object: {m.DATA_TYPE_NAME}")
+            log.info(f"pyvista object: {type(m).__name__}")
             log.info("> mesh")
             log.info(f"    ncells : {m.n_cells}")
             log.info(f"    npoints: {m.n_points}")
-- 
2.43.0


From 0acd9882f34fc3a5445ea2887959ba5cacc2eea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:58 +0000
Subject: [PATCH 39/47] fix: packed VTK snapshots: values in the order of the
 dumped cells, grouped by type

---
 cfdtools/vtk/_vtkList.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/cfdtools/vtk/_vtkList.py b/cfdtools/vtk/_vtkList.py
index 44517be..108b64a 100644
--- a/cfdtools/vtk/_vtkList.py
+++ b/cfdtools/vtk/_vtkList.py
@@ -124,12 +124,25 @@ class vtkList:
         :rtype: str
         """
         vtkmesh = vtkMesh(pvmesh=self._mesh)
-        self._data.set_mesh(vtkmesh.export_mesh())
-        actual_filename = self._data.dumphdf(filename, overwrite=overwrite, **options)
+        data = self._data_bytype()
+        data.set_mesh(vtkmesh.export_mesh())
+        actual_filename = data.dumphdf(filename, overwrite=overwrite, **options)
         if xdmf:
-            self._dumpxdmf(actual_filename, vtkmesh, self._data)
+            self._dumpxdmf(actual_filename, vtkmesh, data)
         return actual_filename
 
+    def _data_bytype(self):
+        """data in the order of the cells of the dumped mesh, which are grouped by element type"""
+        order = np.argsort(self._mesh.celltypes, kind='stable')
+        if np.array_equal(order, np.arange(order.size)):
+            return self._data
+        data = DataSetList(self.nfile, Xrep=self._data.Xrep, Trep=self._data.Trep)
+        for datadict in self._data._datalist:
+            data.add_datalist(
+                {name: v if name in data._property_names else v[order] for name, v in datadict.items()}
+            )
+        return data
+
     def _dumpxdmf(self, filepath: str, vtkmesh: vtkMesh, data: DataSetList):
         """Create the XMF file associated to the single HDF5 file created by dumphdf()."""
 
-- 
2.43.0


From ca6cdd91c4b65139d906f0d995a7bde9efb49f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:32 +0000
Subject: [PATCH 40/47] fix: import of a packed mesh: cells in the order of the
 packed values

---
 cfdtools/vtk/_vtk.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cfdtools/vtk/_vtk.py b/cfdtools/vtk/_vtk.py
index 33a189f..ec405cf 100644
--- a/cfdtools/vtk/_vtk.py
+++ b/cfdtools/vtk/_vtk.py
@@ -174,6 +174,8 @@ class vtkMesh:
         assert hgroup.attrs['meshtype'] in ('unsmesh',)
         points = np.array(hgroup["nodes"])
         celldict = {vtktype_ele[etype]: np.array(elem2node) for etype, elem2node in hgroup["cells"].items()}
+        # cells (and their data) are stored by increasing type, not in the order of the names
+        celldict = dict(sorted(celldict.items()))
         self.set_pvmesh(pv.UnstructuredGrid(celldict, points))
 
     def xdmf_content(self, filename):
-- 
2.43.0


From db47036d88ae63b9ea5dafbf7ef9eed9f69857a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:34 +0000
Subject: [PATCH 41/47] fix: a failed VTU write no longer lets VTK corrupt the
 memory of the process

---
 cfdtools/vtk/_vtk.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/cfdtools/vtk/_vtk.py b/cfdtools/vtk/_vtk.py
index ec405cf..9b5f21d 100644
--- a/cfdtools/vtk/_vtk.py
+++ b/cfdtools/vtk/_vtk.py
@@ -1,5 +1,6 @@
 from contextlib import contextmanager
 import logging
+from pathlib import Path
 import threading
 
 import numpy as np
@@ -9,6 +10,7 @@ from typing import Callable
 try:
     import pyvista as pv
     from pyvista import CellType
+    from vtkmodules.vtkIOXML import vtkXMLUnstructuredGridWriter
 
     importpyvista = True
 except ImportError:
@@ -115,8 +117,26 @@ class vtkMesh:
 
     def write_data(self, filename):
         # VTK only logs its errors: without this, a refused write would be silently lost
+        if isinstance(self._grid, pv.UnstructuredGrid) and Path(filename).suffix == '.vtu':
+            # VTK frees uninitialised pointers when a write fails: it must not write the file itself
+            document = self._vtu_document()
+            with open(Path(filename).expanduser(), 'wb') as file:
+                file.write(document)
+        else:
+            with vtk_errors_raised():
+                self._grid.save(filename)
+
+    def _vtu_document(self):
+        """content of the VTU file, as pyvista would write it"""
+        if hasattr(self._grid, '_store_metadata'):
+            self._grid._store_metadata()
+        writer = vtkXMLUnstructuredGridWriter()
+        writer.SetInputData(self._grid)
+        writer.SetDataModeToBinary()
+        writer.WriteToOutputStringOn()
         with vtk_errors_raised():
-            self._grid.save(filename)
+            writer.Write()
+        return writer.GetOutputString().encode()
 
     def read(self, filename):
         self.__init__()
-- 
2.43.0


From 1df81745cea03e9a771671698b03569067d65809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:31 +0000
Subject: [PATCH 42/47] fix: each mesh exported from an IC3 reader has its own
 data sets and parameters

---
 cfdtools/data.py              | 8 ++++++++
 cfdtools/ic3/readerV4.py      | 8 ++++----
 cfdtools/ic3/reader_legacy.py | 8 ++++----
 3 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index 1591460..fbb014d 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -1,3 +1,4 @@
+import copy
 import logging
 
 import numpy as np
@@ -88,6 +89,13 @@ class DataSet(DataSetBase):
             self._properties['time'] = time
         self._data[name] = data
 
+    def copy(self):
+        """return a dataset of its own, sharing the values"""
+        newdataset = copy.copy(self)
+        for name in ('_properties', '_geoprop', '_data'):
+            setattr(newdataset, name, dict(getattr(self, name)))
+        return newdataset
+
     @property
     def data(self):
         return self._data
diff --git a/cfdtools/ic3/readerV4.py b/cfdtools/ic3/readerV4.py
index e0e7cba..d8f2c5c 100644
--- a/cfdtools/ic3/readerV4.py
+++ b/cfdtools/ic3/readerV4.py
@@ -135,10 +135,10 @@ class reader:
         meshdata.add_faces('mixed', face2node, face2cell)
         for boco in self.mesh['bocos']:
             meshdata.add_boco(boco)
-        meshdata.set_celldata(self.celldata)
-        meshdata.set_nodedata(self.nodedata)
-        meshdata.set_facedata(self.facedata)
-        meshdata.set_params(self.mesh['params'])
+        meshdata.set_celldata(self.celldata.copy())
+        meshdata.set_nodedata(self.nodedata.copy())
+        meshdata.set_facedata(self.facedata.copy())
+        meshdata.set_params(dict(self.mesh['params']))
         meshdata.update_params(self.simulation_state)
         if 'partition' in self.mesh.keys():
             meshdata.set_partition(self.mesh['partition'])
diff --git a/cfdtools/ic3/reader_legacy.py b/cfdtools/ic3/reader_legacy.py
index eb9817c..cd03ee2 100644
--- a/cfdtools/ic3/reader_legacy.py
+++ b/cfdtools/ic3/reader_legacy.py
@@ -152,10 +152,10 @@ class reader(binreader):
         meshdata.add_faces('mixed', face2node, face2cell)
         for boco in self.mesh['bocos']:
             meshdata.add_boco(boco)
-        meshdata.set_celldata(self.celldata)
-        meshdata.set_nodedata(self.nodedata)
-        meshdata.set_facedata(self.facedata)
-        meshdata.set_params(self.mesh['params'])
+        meshdata.set_celldata(self.celldata.copy())
+        meshdata.set_nodedata(self.nodedata.copy())
+        meshdata.set_facedata(self.facedata.copy())
+        meshdata.set_params(dict(self.mesh['params']))
         meshdata.update_params(self.simulation_state)
         if 'partition' in self.mesh.keys():
             meshdata.set_partition(self.mesh['partition'])
-- 
2.43.0


From 354aecbb03abf6e25ff72c5617e3ba37a431097c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:26 +0000
Subject: [PATCH 43/47] fix: statistics printed for each component of an IC3
 vector are those of the component

---
 cfdtools/ic3/reader_legacy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cfdtools/ic3/reader_legacy.py b/cfdtools/ic3/reader_legacy.py
index cd03ee2..d550421 100644
--- a/cfdtools/ic3/reader_legacy.py
+++ b/cfdtools/ic3/reader_legacy.py
@@ -46,9 +46,10 @@ def print_stats_vector(name, dnp):
     :type dnp: ndarray
     '''
     for component in range(dnp.shape[1]):
+        values = dnp[:, component]
         log.info(
             "  %s%s%s:  %+.5e / %+.5e / %+.5e (min/mean/max)."
-            % (name, "-%d" % component, ' ' * (20 - len(name)), dnp.min(), np.mean(dnp), dnp.max())
+            % (name, "-%d" % component, ' ' * (20 - len(name)), values.min(), np.mean(values), values.max())
         )
 
 
-- 
2.43.0


From 78b879ce7bd4978c5b20c04a0e709eb214f6cb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:15 +0000
Subject: [PATCH 44/47] fix: names are escaped in the XDMF companion of packed
 snapshots

---
 cfdtools/data.py     | 5 +++--
 cfdtools/vtk/_vtk.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index fbb014d..e0f1466 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -1,5 +1,6 @@
 import copy
 import logging
+from xml.sax.saxutils import escape, quoteattr
 
 import numpy as np
 import numpy.fft as fftm
@@ -238,9 +239,9 @@ class DataSetList(DataSetBase):
                     raise ValueError(f"Type of data cannot be deduced with shape dimension {len(var.shape)}")
                 dim = " ".join(str(j) for j in var.shape)
 
-                lines += [f'<Attribute AttributeType="{typ}" Center="Cell" Name="{vname}">']
+                lines += [f'<Attribute AttributeType="{typ}" Center="Cell" Name={quoteattr(vname)}>']
                 lines += [f'<DataItem Dimensions="{dim}" Format="HDF">']
-                lines += [f"{filename}:/datalist/i{i:06}/{vname}"]
+                lines += [escape(f"{filename}:/datalist/i{i:06}/{vname}")]
                 lines += ["</DataItem>"]
                 lines += ["</Attribute>"]
             lines += ["</Grid>"]
diff --git a/cfdtools/vtk/_vtk.py b/cfdtools/vtk/_vtk.py
index 9b5f21d..a47a91b 100644
--- a/cfdtools/vtk/_vtk.py
+++ b/cfdtools/vtk/_vtk.py
@@ -2,6 +2,7 @@ from contextlib import contextmanager
 import logging
 from pathlib import Path
 import threading
+from xml.sax.saxutils import escape
 
 import numpy as np
 import scipy.spatial as spatial
@@ -209,7 +210,7 @@ class vtkMesh:
         geomtype = dim2type[self._grid.points.shape[1]]
         lines = [f'<Geometry GeometryType="{geomtype}">']
         lines += [f'<DataItem Dimensions="{np.prod(self._grid.points.shape)}" Format="HDF">']
-        lines += [f"{filename}:/mesh/nodes"]
+        lines += [escape(f"{filename}:/mesh/nodes")]
         lines += ["</DataItem>"]
         lines += ["</Geometry>"]
 
@@ -218,7 +219,7 @@ class vtkMesh:
                 f'<Topology NumberOfElements="{cellco.shape[0]:d}" TopologyType="{PYVISTA2XDMF[itype]}">'
             ]
             lines += [f'<DataItem Dimensions="{np.prod(cellco.shape)}" Format="HDF">']
-            lines += [f"{filename}:/mesh/cells/{ele_vtktype[itype]}"]
+            lines += [escape(f"{filename}:/mesh/cells/{ele_vtktype[itype]}")]
             lines += ["</DataItem>"]
             lines += ["</Topology>"]
 
-- 
2.43.0


From 0ee49b99177a2cc9267c8dde347db919ac9fb904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:15 +0000
Subject: [PATCH 45/47] fix: a snapshot with undefined coordinates is not the
 mesh of the first one

---
 cfdtools/vtk/_vtkList.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/vtk/_vtkList.py b/cfdtools/vtk/_vtkList.py
index 108b64a..60a0c3e 100644
--- a/cfdtools/vtk/_vtkList.py
+++ b/cfdtools/vtk/_vtkList.py
@@ -81,7 +81,7 @@ class vtkList:
             ctr = vtk.cell_centers().points
             d = np.max(maths.distance(ctrRef, ctr))
             Tcomp.pause()
-            if d > tol:  # should be sized by domain size
+            if not d <= tol:  # should be sized by domain size (and may be nan)
                 count += 1
                 # if self._verbose:
                 #     log.info(f"  . {name}: {d}")
-- 
2.43.0


From b107daa2087a5d82ede79dcf550ece57d1fb5899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:15 +0000
Subject: [PATCH 46/47] fix: GMSH v2 boundary families which share an
 elementary entity are no longer merged

---
 cfdtools/gmsh/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index e5a3fae..653a5a9 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -96,8 +96,8 @@ class reader(api._files):
                     ntag = elt[2]  # expected to be 2
                     # bnd_tag = elt[2 + tag]
                     # bnd_fam = elt[2 + tag - 1]
-                    bnd_tag = elt[4]
                     bnd_fam = elt[3]
+                    bnd_tag = elt[3], elt[4]  # faces of several families may share their entity
                     if bnd_tag not in connect_bc.keys():
                         connect_bc[bnd_tag] = collections.defaultdict(list)
                     # if elt_type in connect_bc[bnd_tag].keys():
-- 
2.43.0


From 7213547f3353102e046449d326469fdbfed21369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:15 +0000
Subject: [PATCH 47/47] fix: a refused or short read of a legacy VTK file
 raises

---
 cfdtools/vtk/_vtk.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/cfdtools/vtk/_vtk.py b/cfdtools/vtk/_vtk.py
index a47a91b..64a020d 100644
--- a/cfdtools/vtk/_vtk.py
+++ b/cfdtools/vtk/_vtk.py
@@ -57,19 +57,27 @@ def vtk_errors_raised():
 
     VTK has only one error output: a thread must not catch the errors of another one
     """
-    with _vtk_lock, pv.VtkErrorCatcher(raise_errors=True):
-        yield
+    with _vtk_lock, pv.VtkErrorCatcher(raise_errors=True) as catcher:
+        yield catcher
 
 
 def pv_read(filename):
     """read file with pyvista, VTK errors are raised"""
-    with vtk_errors_raised():
+    with vtk_errors_raised() as catcher:
         try:
             reader = pv.get_reader(filename)
         except ValueError:  # not a VTK format
             return pv.read(filename)
+        if Path(filename).suffix.lower() == '.vtk':
+            # a refused read is only the end of the file for VTK, which leaves the missing values unset
+            content = Path(filename).expanduser().read_bytes()
+            reader.reader.SetBinaryInputString(content, len(content))
+            reader.reader.ReadFromInputStringOn()
         # not pv.read(): it turns the errors of the VTK reader into warnings
         mesh = reader.read()
+        for event in getattr(catcher, 'warning_events', []):
+            if 'Error reading' in str(event):
+                raise OSError(f"{event} while reading {filename}")
         # some errors are only told by the code
         error = getattr(reader.reader, 'GetErrorCode', lambda: 0)()
         if error:
-- 
2.43.0

