import runpy, os
_a = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'a.py'))
MESH, SNAP = _a['MESH'], _a['SNAP']
BUGS = []


def bug(id, property, edits, needs='', breaks='', demo=''):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


# ---------------------------------------------------------------- C16
bug('c16-leak', 'C16', [('vtk/_vtk.py', 'directives[key] = {**current_options}', 'directives[key] = current_options')])
bug('c16-rms', 'C16', [('vtk/_vtk.py', 'np.std(data, axis=0)\n        return', '''np.sqrt(
                    np.maximum(np.average(data**2, axis=0) - np.average(data, axis=0) ** 2, 0.0)
                )
        return''')])
bug('c16-inverse', 'C16', [('vtk/_vtk.py', 'ikplanes[i, index] = chunk', 'ikplanes[i] = chunk[index]'),
                           ('vtk/_vtk.py', 'stddev = np.std(xypos[ikplanes], axis=0)', 'stddev = np.std(np.sort(xypos[ikplanes], axis=1), axis=0)')])
bug('c16-celltype', 'C16', [('vtk/_vtk.py', 'new_celltypes = [ celltypes[cid] for cid in selected_cell_ids ]',
                             'new_celltypes = celltypes[: len(selected_cell_ids)]')])
bug('c16-sortx', 'C16', [('vtk/_vtk.py', 'ikplanes[0,:] = chunk', 'ikplanes[0,:] = np.sort(chunk)')])
bug('c16-snap', 'C16', [('vtk/_vtk.py', 'new_mesh._grid.cell_data[name] = data[0,...]', 'new_mesh._grid.cell_data[name] = self._grid.cell_data[name][: data.shape[1]]')])
# ---------------------------------------------------------------- C04
bug('c04-first', 'C04', [('vtk/_vtkList.py', 'namelist = filterdata if filterdata else vtk.cell_data.keys()',
                          'namelist = filterdata if filterdata else self._mesh.cell_data.keys()')])
bug('c04-sticky', 'C04', [('vtk/_vtkList.py', 'time = vtk.field_data.get("TimeValue", None)', 'time = vtk.field_data.get("TimeValue", time)'),
                          ('vtk/_vtkList.py', '        for name in self._list:\n            if self._verbose:\n                log.info(f"  - {name}")', '        time = None\n        for name in self._list:\n            if self._verbose:\n                log.info(f"  - {name}")')])
bug('c04-point', 'C04', [('vtk/_vtkList.py', 'datalist = {name: vtk.cell_data[name] for name in namelist}', 'datalist = {name: vtk[name] for name in namelist}')])
bug('c04-reltol', 'C04', [('vtk/_vtkList.py', '        ctrRef = self._mesh.cell_centers().points\n        Tread.pause()', '        ctrRef = self._mesh.cell_centers().points\n        tol = tol * max(1.0, np.ptp(ctrRef, axis=0).max() * 1e3)\n        Tread.pause()')])
bug('c04-mean', 'C04', [('vtk/_vtkList.py', 'd = np.max(maths.distance(ctrRef, ctr))\n            Tcomp', 'd = np.average(maths.distance(ctrRef, ctr))\n            Tcomp')])
bug('c04-xdmfdim', 'C04', [('data.py', 'dim = " ".join(str(j) for j in var.shape)', 'dim = " ".join(str(j) for j in self._datalist[0].get(vname, var).shape)')])
bug('c04-f32', 'C04', [('data.py', 'datagroup.attrs[vname] = var', 'datagroup.attrs[vname] = np.float32(var)')])
bug('c04-six', 'C04', [('data.py', 'datagroup = hgroup.create_group(f"i{i:06}")', 'datagroup = hgroup.require_group(f"i{i%1000:06}")')])
# ---------------------------------------------------------------- C02
bug('c02-avgend', 'C02', [('ic3/writerV4.py', "any(x in var for x in ['_AVG', '_RMS', '_REY'])", "var.endswith(('_AVG', '_RMS', '_REY'))")])
bug('c02-any', 'C02', [('ic3/writerV4.py', "        if all(x in self.vars[\"cells\"].keys() for x in ['RHO', 'RHOU', 'RHOE']):", "        if 'RHO' in self.vars[\"cells\"].keys():"),
                       ('ic3/writerV4.py', "for cvname in ['RHO', 'RHOU', 'RHOE']:", "for cvname in [x for x in ['RHO', 'RHOU', 'RHOE'] if x in self.vars[\"cells\"].keys()]:")])
bug('c02-sortlab', 'C02', [('ic3/writerV4.py', "min_range, labels, kinds = zip(*sorted(zip(min_range, labels, kinds), key=lambda x: x[0]))", "kinds = [k for _, k in sorted(zip(labels, kinds))]\n        min_range, labels = zip(*sorted(zip(min_range, labels), key=lambda x: x[0]))")])
bug('c02-orderF', 'C02', [('ic3/writerV4.py', "_create_dataset(volume_group, cvname.lower(), data=cvdata.ravel(order='C'), dtype='f8')", "_create_dataset(volume_group, cvname.lower(), data=cvdata.ravel(order='K'), dtype='f8')")])
bug('c02-partial', 'C02', [('ic3/readerV4.py', "nb_fields = field.size // cv_count", "nb_fields = 3 if field.size % 3 == 0 and field.size > cv_count else field.size // cv_count")])
bug('c02-wgt', 'C02', [('ic3/writerV4.py', 'volume_group.attrs.update(weights)', 'volume_group.attrs.update({k: v for k, v in weights.items() if v})')])
# ---------------------------------------------------------------- C05
bug('c05-gridconn', 'C05', [('cgns/cgns.py', '    if "GridLocation" in bc.keys():', '    if cgnstype(bc) == b"BC_t" and "GridLocation" in bc.keys():')])
bug('c05-range', 'C05', [('cgns/cgns.py', 'index = _conn.indexlist(irange=elements["ElementRange/ data"][:] - 1)', 'index = None if len(self._elems) < 3 else _conn.indexlist(irange=elements["ElementRange/ data"][:] - 1)')])
bug('c05-vertexall', 'C05', [('cgns/cgns.py', 'if len(nodelist) == self.nnode:', 'if len(nodelist) >= self.nnode - 1:')])
bug('c05-lastzone', 'C05', [('cgns/cgns.py', 'self._geodim = self._file._h5file[self._bases[0]][" data"][0]', 'self._geodim = self._file._h5file[self._bases[-1]][" data"][1]')])
bug('c05-fluid', 'C05', [('gmsh/reader.py', 'if family != "fluid":', 'if not family.startswith("fluid"):')])
bug('c05-unique', 'C05', [('gmsh/reader.py', 'bc["slicing"] = np.unique(bc["slicing"])', 'bc["slicing"] = np.array(sorted(bc["slicing"])[: len(set(bc["slicing"])) + 1])')])
bug('c05-scale2', 'C05', [('meshbase/_mesh.py', "self._nodes['z'] * scale_xyz[2],", "self._nodes['z'] * scale_xyz[2 if len(set(scale_xyz)) > 1 else 0] if scale_xyz[2] else self._nodes['z'],")])
bug('c05-extrude', 'C05', [('meshbase/_mesh.py', 'index[i * nbcnode : (i + 1) * nbcnode] += i * ntotnode', 'index[i * nbcnode : (i + 1) * nbcnode] += min(i, 32) * ntotnode')])
bug('c05-rm', 'C05', [('_cli.py', "        for var in parser.args().remove_cell_data:\n            if cfdmesh.pop_celldata(var) is None:", "        for var in sorted(parser.args().remove_cell_data, key=len)[:4]:\n            if cfdmesh.pop_celldata(var) is None:")])
bug('c05-connidx', 'C05', [('meshbase/_connectivity.py', "index = np.tile(econ['index'].list(), (ncell))", "index = np.tile(sorted(econ['index'].list()), (ncell)).astype(np.int32)")])
bug('c05-shift', 'C05', [('meshbase/_connectivity.py', "            return indexlist(irange=[self._range[0] + i, self._range[1] + i])", "            return indexlist(irange=[self._range[0] + i, min(self._range[1] + i, self._range[0] + i + 65535)])")])
# ---------------------------------------------------------------- C09/C10/C13
bug('c09-append', 'C09', [('vtk/_vtkList.py', "        self._data = DataSetList(self.nfile, Xrep='cellaverage', Trep='instant')", "        if getattr(self, '_data', None) is None:\n            self._data = DataSetList(self.nfile, Xrep='cellaverage', Trep='instant')")])
bug('c10-inplace', 'C10', [('meshbase/_mesh.py', """        self.set_nodescoord_xyz(
            self._nodes['x'] * scale_xyz[0],
            self._nodes['y'] * scale_xyz[1],
            self._nodes['z'] * scale_xyz[2],
        )""", """        for c, s in zip('xyz', scale_xyz):
            if self._nodes[c].dtype == float and self._nodes[c].flags.writeable:
                self._nodes[c] *= s
            else:
                self._nodes[c] = self._nodes[c] * s""")])
# ---------------------------------------------------------------- C14
bug('c14-xno', 'C14', [('ic3/reader_legacy.py', '        assert h.idata[0] == no_count\n        assert h.idata[1] == 3\n', '        assert h.idata[1] == 3\n')])
bug('c14-cvofa', 'C14', [('ic3/reader_legacy.py', '        assert h.idata[0] == fa_count\n        assert h.idata[1] == 2\n', '        assert h.idata[1] == 2\n')])
bug('c14-cvofa2', 'C14', [('ic3/reader_legacy.py', '        assert h.idata[0] == fa_count\n        assert h.idata[1] == 2\n', '        assert h.idata[0] == fa_count\n')])
bug('c14-xno3', 'C14', [('ic3/reader_legacy.py', '        assert h.idata[0] == no_count\n        assert h.idata[1] == 3\n', '        assert h.idata[0] == no_count\n')])
bug('c14-check', 'C14', [('ic3/reader_legacy.py', '                assert h.id[0] == ic3_restart_codes["UGP_IO_CV_CHECK"]\n', ''), ('ic3/reader_legacy.py', '                h.readReqVar(self.fid, self.byte_swap, ["UGP_IO_CV_CHECK"])\n                assert h.idata[0] == cv_count\n', '                h.readReqVar(self.fid, self.byte_swap, ["UGP_IO_CV_CHECK"])\n')])
# ---------------------------------------------------------------- C03
bug('c03-f32', 'C03', [('vtk/_vtk.py', '        coords = self._mesh.nodescoord(ndarray=True)\n', '        coords = self._mesh.nodescoord(ndarray=True)\n        if coords.shape[0] > 20000:\n            coords = coords.astype(np.float32)\n')])
bug('c03-i32', 'C03', [('vtk/_vtk.py', "vtktype_ele[etype]: elem2node['elem2node'] for", "vtktype_ele[etype]: elem2node['elem2node'].astype(np.int16 if self._mesh.nnode < 40000 else np.int32) for")])
# ---------------------------------------------------------------- C15
bug('c15-mach', 'C15', [('probes/data.py', '"Asound": ["P", "RHO"],', '"Asound": ["RHO", "P"],'), ('probes/data.py', "self.alldata['Asound'] = np.sqrt(1.4 * self.alldata['P'] / self.alldata['RHO'])", "self.alldata['Asound'] = np.sqrt(1.4 * self.alldata['P']) / np.sqrt(self.alldata['RHO'])")])
bug('c15-U', 'C15', [('probes/data.py', """            self.alldata['U-X'] ** 2 + self.alldata['U-Y'] ** 2 + self.alldata['U-Z'] ** 2
""", """            self.alldata['U-X'] ** 2 + self.alldata['U-Y'] ** 2 + np.abs(self.alldata['U-Z']) * self.alldata['U-Z']
""")])
bug('c15-any', 'C15', [('probes/data.py', 'success = np.all([self.check_data(depvar, prefix) for depvar in self.dependency_vars[varname]])', 'success = all(depvar in self.alldata or self.check_data(depvar, prefix) for depvar in self.dependency_vars[varname])')])
# ---------------------------------------------------------------- C18
bug('c18-minmax', 'C18', [('meshbase/_connectivity.py', 'format(n.min(), n.max(), n.size)', 'format(n[0], n[-1], n.size)')])
bug('c18-size', 'C18', [('meshbase/_connectivity.py', 'format(n.min(), n.max(), n.size)', 'format(n.min(), n.max(), n.max() - n.min() + 1)')])
bug('c18-avg', 'C18', [('vtk/_vtkList.py', '            if not d <= tol:  # should be sized by domain size (and may be nan)\n                count += 1', '            if not d <= tol:  # should be sized by domain size (and may be nan)\n                count = count + 1 if filterdata else max(count, 1)')])
bug('c18-bnds', 'C18', [('vtk/_vtk.py', 'cmin, cmax = m.bounds[i * 2 : i * 2 + 2]', 'cmin, cmax = m.points[:, i].min(), m.cell_centers().bounds[i * 2 + 1]')])
# ---------------------------------------------------------------- C01
bug('c01-nodevec', 'C01', [('ic3/writerV2.py', """                    "d" * nno * 3,
                    nddata.ravel(order='C'),""", """                    "d" * nno * 3,
                    nddata.ravel(order='K'),""")])
bug('c01-rdata', 'C01', [('ic3/writerV2.py', 'for idx, val in enumerate(boco.properties["periodic_transform"]):', 'for idx, val in enumerate(boco.properties["periodic_transform"][:12]):')])
bug('c01-npart', 'C01', [('ic3/writerV2.py', "header.idata[1] = self.params['partition'].get('npart', 1)", "header.idata[1] = max(self.params['partition']['icvpart']) + 1")])
bug('c01-lower', 'C01', [('ic3/writerV2.py', "header.name = key.upper() + '_WGT'", "header.name = key.upper().removesuffix('_WGT') + '_WGT'")])
