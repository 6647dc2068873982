"""Edits of /repo which change no behaviour: every check must stay quiet on them.

    refactors.py GROUP... [-- CHECK...]     runs the checks (default: all) on a scratch copy with the group applied
"""
import os, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = {}


def r(g, f, old, new):
    G.setdefault(g, []).append((f, old, new))


# ---------------------------------------------------------------- a: files read and written in other pieces
r('a', 'ic3/_ic3.py', '''    try:
        while True:
            record = bfile.read(size)
            if len(record) != size:
                log.error(
                    "mismatched record ({}) and expected ({}) sizes".format(
                        len(record),
                        size,
                    ),
                )
                break
            return s.unpack(record)
    except IOError:
        api.error_stop(f"Fatal error. Could not read {size} bytes from {bfile.name!r}. Exiting.")
''', '''    pieces = []
    missing = size
    try:
        while missing > 0:
            piece = bfile.read(min(missing, 4096))
            if not piece:
                break
            pieces.append(piece)
            missing -= len(piece)
    except OSError:
        api.error_stop(f"Fatal error. Could not read {size} bytes from {bfile.name!r}. Exiting.")
    if missing:
        log.error(f"mismatched record ({size - missing}) and expected ({size}) sizes")
        return None
    return s.unpack(b"".join(pieces))
''')
r('a', 'ic3/_ic3.py', '''    try:
        bfile.write(packed_ba)
    except IOError:
''', '''    try:
        view = memoryview(packed_ba)
        for start in range(0, len(view), 1000):
            bfile.write(view[start : start + 1000])
    except IOError:
''')
r('a', 'gmsh/reader.py', '''        with open(filename) as fid:
            for l in fid:
                msh.append(l.split())
''', '''        with open(filename) as fid:
            content = fid.read()
        msh.extend(line.split() for line in content.split("\\n"))
''')
r('a', 'api.py', '''        i = 0
        while True:
            try:
                safepath.touch(exist_ok=False)
                break
            except FileExistsError:
                pass
            i += 1
            # safepath = safepath.with_stem(stem+f'({i})') # only python >= 3.9
            # print(folder, stem, f"({i})", suff)
            safepath = Path(folder / (stem + f'({i})' + suff))
        self._path = safepath
        return i > 0
''', '''        def reserve(path):
            try:
                with open(path, "x"):
                    return True
            except FileExistsError:
                return False

        i = 0
        while not reserve(safepath):
            i += 1
            safepath = folder / f"{stem}({i}){suff}"
        self._path = safepath
        return safepath.stem != stem
''')
r('a', 'probes/data.py', '''            with open(fname) as fid:
                lines = fid.read().splitlines(keepends=True)
''', '''            with open(fname, "rb") as fid:
                content = fid.read().decode()
            lines = content.splitlines(keepends=True)
''')
r('a', 'probes/data.py', '''        coordinates_set = { 'X', 'Y', 'Z'}
        if self.verbose:
            log.info("- request " + varname)
        success = varname in self.alldata
        if not success:
            # try to directly read data
            success = self.read_data(varname, prefix, force_coordinate=(varname in coordinates_set))
''', '''        if self.verbose:
            log.info("- request " + varname)
        is_coordinate = varname in ('X', 'Y', 'Z')
        success = varname in self.alldata or self.read_data(varname, prefix, force_coordinate=is_coordinate)
''')
r('a', 'vtk/_vtkList.py', '''                rindex = index.copy()
                rindex[index] = np.arange(index.size)
''', '''                rindex = np.argsort(index)
''')
r('a', 'vtk/_vtkList.py', '''        with open(os.path.splitext(filepath)[0] + ".xmf", "w") as fid:
            fid.write('\\n'.join(content))
''', '''        with open(os.path.splitext(filepath)[0] + ".xmf", "w") as fid:
            fid.write(content[0])
            for line in content[1:]:
                fid.write("\\n")
                fid.write(line)
''')
r('a', 'data.py', '''            for vname, var in datadict.items():
                if vname in self._property_names:
                    datagroup.attrs[vname] = var
                else:
                    # flushed now: an error while the dataset is released would be silently lost
                    datagroup.create_dataset(vname, data=var, **options).flush()
''', '''            for vname in [vname for vname in datadict if vname not in self._property_names]:
                # flushed now: an error while the dataset is released would be silently lost
                datagroup.create_dataset(vname, data=datadict[vname], **options).flush()
            for vname in [vname for vname in datadict if vname in self._property_names]:
                datagroup.attrs[vname] = datadict[vname]
''')
r('a', 'ic3/writerV4.py', '''            log.info("> Writing mesh attributes")
            self._write_root_attributes(fid)

            log.info("> Writing coordinates")
            self._write_coordinates(fid)

            log.info("> Writing connectivities")
            self._write_connectivities(fid)

            log.info("> Writing boundaries")
            self._write_boundaries(fid)
''', '''            log.info("> Writing boundaries")
            self._write_boundaries(fid)

            log.info("> Writing connectivities")
            self._write_connectivities(fid)

            log.info("> Writing coordinates")
            self._write_coordinates(fid)

            log.info("> Writing mesh attributes")
            self._write_root_attributes(fid)
''')
r('a', 'cgns/cgns.py', '''        meshdata.set_nodescoord_xyz(*cgzone.coords())
        # # cell connectivity
        meshdata.set_cell2node(cgzone.export_cellcon())
''', '''        cells = cgzone.export_cellcon()
        # # cell connectivity
        meshdata.set_cell2node(cells)
        x, y, z = cgzone.coords()
        meshdata.set_nodescoord_xyz(x, y, z)
''')

# ---------------------------------------------------------------- b: files written at once, data read eagerly
r('b', 'ic3/writerV2.py', '''        with open(self.filename, "wb") as self.fid:
''', '''        with io.BytesIO() as self.fid:
''')
r('b', 'ic3/writerV2.py', '''            header.skip = header.hsize
            header.write(self.fid, self.endian)
            #
            # self.fid is closed
        del self.fid
''', '''            header.skip = header.hsize
            header.write(self.fid, self.endian)
            # all at once
            with open(self.filename, "wb") as outfile:
                outfile.write(self.fid.getbuffer())
        del self.fid
''')
r('b', 'ic3/writerV2.py', '''import logging
''', '''import io
import logging
''')
r('b', 'ic3/reader_legacy.py', '''        with open(self.filename, "rb") as self.fid:
            #
            log.info("Reading binary file header")
''', '''        with open(self.filename, "rb") as wholefile:
            content = wholefile.read()
        with io.BytesIO(content) as self.fid:
            #
            log.info("Reading binary file header")
''')
r('b', 'ic3/reader_legacy.py', '''import logging
''', '''import io
import logging
''')
r('b', 'gmsh/reader.py', '''            for i in range(counter + 1, counter + cnt + 1):
                xyz[int(coords[i][0])] = [float(c) for c in coords[i + cnt][:3]]
            nodes += cnt
            counter = counter + 2 * cnt + 1
''', '''            tags = coords[counter + 1 : counter + cnt + 1]
            places = coords[counter + cnt + 1 : counter + 2 * cnt + 1]
            if len(places) != cnt:
                raise IndexError("nodes are missing")
            for (tag, *_), place in zip(tags, places):
                xyz[int(tag)] = [float(place[0]), float(place[1]), float(place[2])]
            nodes += cnt
            counter += 2 * cnt + 1
''')
r('b', 'meshbase/_connectivity.py', '''        ind = []
        f2n = []
        for _, e2n in self.items():
            ind.extend(e2n['index'].list())
            f2n.extend(e2n['elem2node'].tolist())
''', '''        nodes_of_elem = {}
        for _, e2n in self.items():
            nodes_of_elem.update(zip(e2n['index'].list(), e2n['elem2node'].tolist()))
''')
r('b', 'meshbase/_connectivity.py', '''        joinlist = list(chain.from_iterable(map(dict(zip(ind, f2n)).get, elemlist)))
        return list(set(joinlist))  # make unique
''', '''        unique = set()
        for ielem in elemlist:
            unique.update(nodes_of_elem.get(ielem))
        return sorted(unique)
''')
r('b', 'meshbase/_connectivity.py', '''                f2c = np.array(
                    list(
                        map(
                            lambda flist: [flist[0][1], flist[1][1]],
                            face_pairs.values(),
                        )
                    )
                )
                iface2cell.append(f2c)
''', '''                iface2cell.append(np.array([[flist[0][1], flist[1][1]] for flist in face_pairs.values()]))
''')
r('b', 'meshbase/_connectivity.py', '''        concat = sorted(self.index_elem_tuples())
        nnode_perface = [len(face) for _, face in concat]
        index = np.concatenate(([0], np.cumsum(nnode_perface)))
        value = np.array(list(chain(*[face for _, face in concat])))
''', '''        faces = [face for _, face in sorted(self.index_elem_tuples())]
        index = np.zeros(len(faces) + 1, dtype=np.int64)
        np.cumsum([len(face) for face in faces], out=index[1:])
        value = np.array([node for face in faces for node in face])
''')
r('b', 'vtk/_vtkList.py', '''        for name in self._list:
            if self._verbose:
                log.info(f"  - {name}")
            Tread.start()
            vtk = pv_read(name)
            Tread.pause()
''', '''        for ifile, name in enumerate(self._list):
            if self._verbose:
                log.info(f"  - {name}")
            # the first one is already there
            if ifile == 0:
                vtk = self._mesh
            else:
                Tread.start()
                vtk = pv_read(name)
                Tread.pause()
''')
r('b', 'vtk/_vtk.py', '''        celldict = {vtktype_ele[etype]: np.array(elem2node) for etype, elem2node in hgroup["cells"].items()}
''', '''        celldict = {}
        for etype in sorted(hgroup["cells"]):
            celldict[vtktype_ele[etype]] = hgroup["cells"][etype][:]
''')
r('b', 'hdf5/_hdf5.py', '''        hgroup.create_dataset("nodes", data=nodes, **options).flush()
        hcells = hgroup.create_group("cells")
        for ctype, cellco in cellnode.items():
            hcells.create_dataset(ctype, data=cellco, **options).flush()
''', '''        hcells = hgroup.create_group("cells")
        for ctype, cellco in cellnode.items():
            hcells.create_dataset(ctype, data=cellco, **options).flush()
        hgroup.create_dataset("nodes", data=nodes, **options).flush()
''')
r('b', 'cgns/cgns.py', '''        self._ncell = self._zone.ncell

    def printinfo''', '''        self._ncell = self._zone.ncell
        self._mesh = self._export_mesh()

    def export_mesh(self):
        mesh, self._mesh = self._mesh, None
        return self._export_mesh() if mesh is None else mesh

    def printinfo''')
r('b', 'cgns/cgns.py', '''    def export_mesh(self):
        # log.info(f"> export mesh ") # printed by parent
''', '''    def _export_mesh(self):
''')
r('b', '_cli.py', '''    if parser.args().remove_cell_data:
        for var in parser.args().remove_cell_data:
            if cfdmesh.pop_celldata(var) is None:
                log.info(f"  cannot find cell data {var}")
            else:
                log.info(f"  pop cell data {var}")
    if parser.args().remove_node_data:
        for var in parser.args().remove_node_data:
            if cfdmesh.pop_nodedata(var) is None:
                log.info(f"  cannot find node data {var}")
            else:
                log.info(f"  pop node data {var}")
''', '''    removals = (
        ("node", cfdmesh.pop_nodedata, parser.args().remove_node_data),
        ("cell", cfdmesh.pop_celldata, parser.args().remove_cell_data),
    )
    for kind, pop, names in removals:
        for var in names or []:
            found = pop(var) is not None
            log.info(f"  pop {kind} data {var}" if found else f"  cannot find {kind} data {var}")
''')
r('b', '_cli.py', '''    log.info(f"> number of files: {len(parser.args().filelist)}")
    vtklist = vtk.vtkList(parser.args().filelist, verbose=True)
''', '''    filelist = [str(Path(name)) for name in parser.args().filelist]
    log.info(f"> number of files: {len(filelist)}")
    vtklist = vtk.vtkList(filelist, verbose=False)
''')

# ---------------------------------------------------------------- c: other orders, other names, other ways to find a file
r('c', 'api.py', '''        self._start_time = time.perf_counter()

''', '''        self._start_time = time.monotonic()

''')
r('c', 'api.py', '''        self._elapsed += time.perf_counter() - self._start_time
''', '''        self._elapsed += time.monotonic() - self._start_time
''')
r('c', 'ic3/_ic3.py', '''            s = list(BinaryRead(bfile, self.binstr, byte_swap, self.hsize))

            # Remove trailing space from header name (h.name)
            i = 0
            while (s[i] != b'\\x00') and (
                i < ic3_restart_codes["UGP_IO_HEADER_NAME_LEN"]
            ):  # remove trailing spaces
                self.name += s[i].decode()  # .decode() for python3 portage
                i += 1
''', '''            s = list(BinaryRead(bfile, self.binstr, byte_swap, self.hsize))

            # Remove trailing space from header name (h.name)
            for char in s[: ic3_restart_codes["UGP_IO_HEADER_NAME_LEN"]]:
                if char == b'\\x00':
                    break
                self.name += char.decode()
''')
r('c', 'ic3/reader_legacy.py', '''            log.info("Reading informative values...")
            self._ReadInformativeValues()
            #
            log.info("Reading variables...")
            self.celldata = _data.DataSet('cellaverage')
            self.nodedata = _data.DataSet('nodal')
            self.facedata = _data.DataSet('nodal')
            self._ReadRestartVar()
            #
''', '''            log.info("Reading variables...")
            self.facedata = _data.DataSet('nodal')
            self.nodedata = _data.DataSet('nodal')
            self.celldata = _data.DataSet('cellaverage')
            self._ReadRestartVar()
            #
            log.info("Reading informative values...")
            self._ReadInformativeValues()
            #
''')
r('c', 'ic3/writerV4.py', '''        _create_dataset(face_group, 'cvofa', data=self.f2e.ravel().tolist(), dtype='i4')
        face_group["cvofa"].attrs['synonyms'] = 'CGNS NFACE_n ParentElements'
''', '''        parents = self.f2e.astype('i4').reshape(-1)
        _create_dataset(face_group, 'cvofa', data=parents, dtype='i4')
        face_group["cvofa"].attrs.create('synonyms', 'CGNS NFACE_n ParentElements')
''')
r('c', 'ic3/writerV4.py', '''        stats_var = [
            var for var in self.vars["cells"].keys() if any(x in var for x in ['_AVG', '_RMS', '_REY'])
        ]
        if not stats_var:
            return
''', '''        def is_stat(name):
            return '_AVG' in name or '_RMS' in name or '_REY' in name

        stats_var = sorted(filter(is_stat, self.vars["cells"].keys()))
        if len(stats_var) == 0:
            return
''')
r('c', 'probes/data.py', '''            if rdata.ndim == 1:  # supposed to be coordinate
                # extract only coordinate (remove time and it)
                self.alldata[varname] = rdata[3:]
            elif rdata.ndim == 2:  # supposed to be data
''', '''            if rdata.ndim == 1:  # supposed to be coordinate
                # extract only coordinate (remove time and it)
                _, _, _, *values = rdata
                self.alldata[varname] = np.array(values)
            elif rdata.ndim == 2:  # supposed to be data
''')
r('c', 'vtk/_vtkList.py', '''        return all(Path(file).exists() for file in self._list)
''', '''        missing = [file for file in self._list if not Path(file).exists()]
        return not missing
''')
r('c', 'vtk/_vtkList.py', '''            time = vtk.field_data.get("TimeValue", None)
            self._data.add_datalist(datalist, time=time)
''', '''            hastime = "TimeValue" in vtk.field_data.keys()
            self._data.add_datalist(datalist, time=vtk.field_data["TimeValue"] if hastime else None)
''')
r('c', 'cgns/cgns.py', '''        if not Path(self._filename).exists():
            error_stop(f"File not found: {self._filename!r}")
''', '''        try:
            Path(self._filename).stat()
        except FileNotFoundError:
            error_stop(f"File not found: {self._filename!r}")
''')
r('c', 'cgns/cgns.py', '''                econ = elements["ElementConnectivity/ data"][:].reshape((-1, nnode))
                econ -= 1  # shift node index (starts 0)
''', '''                econ = elements["ElementConnectivity/ data"][()].reshape(-1, nnode) - 1  # node index starts at 0
''')
r('c', 'gmsh/reader.py', '''        def find_ent(dim, j):
            entities = self.__get_section_from_name(msh, "$Entities")
            addd = 0  # temporary variable to seek the line and return
            bot = 1 + sum(int(n) for n in entities[0][:dim])
            top = int(entities[0][dim]) + bot
            iphys = 4 if dim == 0 else 7  # position of the number of physical tags
            for i in range(bot, top):
                if j == int(entities[i][0]):
                    if int(entities[i][iphys]) > 0:
                        addd = int(entities[i][iphys + 1])
                    break
            return addd
''', '''        entities = self.__get_section_from_name(msh, "$Entities")

        def find_ent(dim, j):
            sizes = [int(n) for n in entities[0]]
            bot = 1 + sum(sizes[:dim])
            iphys = 4 if dim == 0 else 7  # position of the number of physical tags
            for entity in entities[bot : bot + sizes[dim]]:
                if int(entity[0]) == j:
                    return int(entity[iphys + 1]) if int(entity[iphys]) > 0 else 0
            return 0
''')
r('c', 'gmsh/reader.py', '''        node_rank = {tag: i for i, tag in enumerate(sorted(xyz), start=1)}
        x, y, z = ([xyz[tag][i] for tag in node_rank] for i in range(3))
''', '''        tags = sorted(xyz)
        node_rank = dict(zip(tags, range(1, len(tags) + 1)))
        x = [xyz[tag][0] for tag in tags]
        y = [xyz[tag][1] for tag in tags]
        z = [xyz[tag][2] for tag in tags]
''')
r('c', '_cli.py', '''    if parser.args().extrude:
        timer.start()
''', '''    if parser.args().info:
        log.info("  converted mesh is described below")
    if parser.args().extrude:
        timer.start()
''')
r('c', 'vtk/_vtk.py', '''        self._celldict = {
            vtktype_ele[etype]: elem2node['elem2node'] for etype, elem2node in self._mesh._cell2node.items()
        }
        self._grid = pv.UnstructuredGrid(self._celldict, coords)
''', '''        self._celldict = {}
        for etype, elem2node in self._mesh._cell2node.items():
            self._celldict[vtktype_ele[etype]] = np.array(elem2node['elem2node'])
        self._grid = pv.UnstructuredGrid(self._celldict, np.array(coords))
''')
r('c', 'data.py', '''        file = hdf5.h5File(filename)
        if not overwrite:
            file.find_safe_newfile()
        file.open(mode="w", datatype='datalist', version=self._version)
        # map element types from vtk type to cfdtools type
        if isinstance(self._geoprop['mesh'], meshbase.Mesh):
            celldict = dict(self._geoprop['mesh']._cell2node)
        else:
            api.error_stop("not yet implemented to dump mesh with instance {self._geoprop['mesh']}")
''', '''        # map element types from vtk type to cfdtools type
        mesh = self._geoprop['mesh']
        if not isinstance(mesh, meshbase.Mesh):
            api.error_stop(f"not yet implemented to dump mesh with instance {mesh}")
        celldict = dict(mesh._cell2node)
        file = hdf5.h5File(filename)
        if not overwrite:
            file.find_safe_newfile()
        file.open(mode="w", datatype='datalist', version=self._version)
''')


def main():
    a = sys.argv[1:]
    groups = a[: a.index('--')] if '--' in a else a
    checks = a[a.index('--') + 1:] if '--' in a else ['C%02d' % i for i in range(1, 16)]
    for g in groups or sorted(G):
        d = tempfile.mkdtemp(prefix='refac-', dir='/dev/shm')
        try:
            shutil.copytree('/repo/cfdtools', d + '/cfdtools', ignore=shutil.ignore_patterns('__pycache__'))
            for f in ('pyproject.toml', 'README.md'):
                shutil.copy('/repo/' + f, d)
            shutil.copytree('/repo/tests', d + '/tests')
            for f in ('examples',):
                if os.path.isdir('/repo/' + f):
                    shutil.copytree('/repo/' + f, d + '/' + f)
            for f, old, new in G[g]:
                p = f'{d}/cfdtools/{f}'
                s = open(p).read()
                assert s.count(old) >= 1, (g, f, old)
                open(p, 'w').write(s.replace(old, new, 1))
            t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=d, capture_output=True, text=True,
                               env=dict(os.environ, PYTHONPATH=d, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1'))
            print(g, 'tests:', t.stdout.strip().splitlines()[-1], flush=True)
            for c in checks:
                p = subprocess.run(['bash', V + '/run.sh', c, 'quick'], env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
                print(g, c, p.returncode, ' '.join(l[:300] for l in p.stdout.splitlines() if 'VIOLATION' in l or 'KNOWN' in l), p.stderr.strip()[-200:] if p.returncode else '', flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    main()
