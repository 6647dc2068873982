"""writes /verif/properties.jsonl (kept so that the text has one source)"""
import json, os
P = []


def add(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))


add('C01', 'An acknowledged IC3 v2/v3 restart write is complete and exact',
    "When writing a mesh with the IC3 v2 or v3 restart writer returns normally, in any byte order, the file decodes on its own to exactly that mesh: every node, every cell enclosed by faces oriented out of their first cell, every boundary face in its patch (contiguous disjoint ranges, with kind and periodic transform), the partition, the step/dt/time and weights, and every cell and node scalar, vector and cell tensor bit for bit (any number of degrees of freedom in v3, integers kept as integers in v3). "
    "Reading it back with the package gives the same mesh and data under the same names. "
    "On healthy storage the call returns; if storage refuses any part of the write, it raises instead of returning.",
    ['inputs', 'configurations', 'fault_sequences'],
    "all 3D meshes of hexa/prism/pyramid/tetra or mixed cells with node or face marks (every face type having an internal face), all data sets, three byte orders, two versions; every sequence of storage errors, interrupted and short transfers during the write",
    "tests write three fixed cubes without data on a healthy disk in native order and look at almost nothing of the result",
    ['cfdtools/ic3/writerV2.py', 'cfdtools/ic3/writerV3.py', 'cfdtools/ic3/_ic3.py', 'cfdtools/ic3/reader_legacy.py', 'cfdtools/meshbase/_mesh.py', 'cfdtools/meshbase/_connectivity.py'],
    [('section header skip sizes and byte order', 'cfdtools/ic3/_ic3.py restartSectionHeader'), ('face generation and boundary reindexing', 'cfdtools/meshbase/_connectivity.py create_faces_from_elems; _mesh.py reindex_boundaryfaces'), ('EOF section written last', 'cfdtools/ic3/writerV2.py write_data')],
    observe=['bytes of the written file', 'ic3.reader(...).export_mesh()'])

add('C02', 'An acknowledged IC3 v4 write (mesh and solution HDF5) is complete and exact',
    "When writing a mesh to the IC3 v4 format returns normally, the mesh file holds exactly its nodes, cells, faces oriented out of their first cell, and boundary patches (labels, kinds, offsets covering all faces in order, the first three values of periodic transforms), and the solution file, when asked for, holds step, time, the RHO/RHOU/RHOE fields when all three exist, every field with _AVG, _RMS or _REY in its name and the *_wgt weights, bit for bit. "
    "Reading both back with the package gives the same mesh and fields. On healthy storage the call returns; if storage refuses any part of the write, even once, it does not return normally.",
    ['inputs', 'fault_sequences'],
    "all supported 3D meshes and data sets with or without a solution file; every sequence of storage errors, interrupted and short transfers during the write",
    "tests re-write two stored files on a healthy disk and compare a handful of sizes",
    ['cfdtools/ic3/writerV4.py', 'cfdtools/ic3/readerV4.py', 'cfdtools/ic3/writerV2.py'],
    [('boundary offsets sorted with the internal range last', 'cfdtools/ic3/writerV4.py _write_boundaries'), ('solution selection by name', 'cfdtools/ic3/writerV4.py _write_solution_*')],
    observe=['datasets and attributes of the HDF5 files', 'readerV4.reader(...).export_mesh()'])

add('C03', 'An acknowledged VTU write is complete and exact',
    "When writing a mesh to a VTU file returns normally, the file is a complete VTK document whose points and cells (type and nodes, as a set) are exactly those of the mesh, and reading it back with the package gives the same points, cell and node counts and cells. "
    "On healthy storage the call returns; if storage refuses any part of the write, it does not return normally.",
    ['inputs', 'fault_sequences'],
    "all 2D (tri/quad) and 3D meshes, single and mixed cell types; every sequence of storage errors, interrupted and short transfers during the write",
    "tests write one cube to VTU on a healthy disk and check only that a file exists",
    ['cfdtools/vtk/_vtk.py'],
    [('cell dictionary by type', 'cfdtools/vtk/_vtk.py set_mesh'), ('save and error reporting', 'cfdtools/vtk/_vtk.py write_data')],
    observe=['the VTU document', 'vtkMesh().read(...)'])

add('C04', 'Packing VTK snapshots keeps every field on its own cell and its own time',
    "When packing a list of VTK snapshots into one HDF5 file returns normally, the file holds the mesh of the first snapshot and one group per snapshot in list order, each holding every requested cell field with the value each snapshot gives to the same physical cell (whatever cell order that snapshot uses) and its time value, including zero; the optional XDMF file points at exactly those datasets. "
    "Re-importing the mesh gives the same points and cells. "
    "On healthy storage packing compatible snapshots returns; with a missing, unreadable, incomplete (where its format tells) or geometrically different snapshot, or a refused write, the call does not return normally.",
    ['inputs', 'histories', 'fault_sequences'],
    "all lists of snapshots over one mesh of one or several cell types, with arbitrary cell permutations, fields, field filters and times; storage errors on any read or write",
    "tests pack a few stored files and check sizes; no permuted cell order is compared value by value, no I/O error occurs",
    ['cfdtools/vtk/_vtkList.py', 'cfdtools/vtk/_vtk.py', 'cfdtools/data.py', 'cfdtools/hdf5/_hdf5.py', 'cfdtools/_cli.py'],
    [('nearest cell-centre matching and inverse permutation', 'cfdtools/vtk/_vtkList.py read'), ('group per snapshot, time as attribute', 'cfdtools/data.py DataSetList._dumphdfgroup')],
    observe=['groups, datasets and attributes of the packed file', 'the xmf text'])

add('C05', 'Command-line conversion carries the mesh, marks and data of the source file',
    "A conversion command that returns a file name has written there exactly the mesh of its input (GMSH 2.x/4.1 ASCII, CGNS, IC3 v2/v3 with either byte order), with its named boundary patches and with the data both formats can hold, transformed only as asked: --scale multiplies coordinates per axis, --extrude n stacks n layers of a 2D mesh over [0,1] into prisms and hexahedra with the side and end patches, --remove-cell-data drops exactly the named fields. "
    "cfdwritecube writes exactly the requested box. "
    "The result is the same whatever benign I/O conditions (interrupted or short transfers, slow disk) occurred, and a hard I/O error makes the command raise.",
    ['inputs', 'configurations', 'fault_sequences'],
    "all supported source files x {IC3 v2, IC3 v3, VTU} x options {scale, extrude, remove-cell-data, outpath, info}; storage faults on any read or write",
    "tests run each command on a few stored files and check only that an output exists; options are never checked for effect",
    ['cfdtools/_cli.py', 'cfdtools/gmsh/reader.py', 'cfdtools/cgns/cgns.py', 'cfdtools/ic3/reader_legacy.py', 'cfdtools/meshbase/_mesh.py', 'cfdtools/meshbase/_connectivity.py', 'cfdtools/meshbase/simple.py'],
    [('generic conversion', 'cfdtools/_cli.py write_generic'), ('extrusion', 'cfdtools/meshbase/_mesh.py export_extruded; _connectivity.py extrude'), ('face/vertex marks to nodes', 'cfdtools/cgns/cgns.py export_BC; cfdtools/gmsh/reader.py')],
    observe=['the output file, decoded independently'])

add('C06', 'An output cut short by a crash is never taken for a complete one',
    "If the process writing a file (IC3 v2/v3/v4, VTU, packed HDF5) is killed at any point of the write, or another process reads the new file while it is being written, then reading it with the package either raises or yields exactly the complete content that was being written (or, when an older complete file was being overwritten, exactly the older content). "
    "It never silently yields an empty, shortened or partly filled mesh or data set, and running the same write again gives the complete file.",
    ['crash_points', 'schedules', 'inputs'],
    "every crash point (between any two I/O calls, and inside any write: at any byte of IC3 and VTU files, at page boundaries of HDF5 files), with what was handed to the operating system surviving, and every interleaving of one writer with readers of a new file",
    "no test interrupts a write or reads a file that is still being written",
    ['cfdtools/ic3/_ic3.py', 'cfdtools/ic3/reader_legacy.py', 'cfdtools/ic3/readerV4.py', 'cfdtools/vtk/_vtk.py', 'cfdtools/vtk/_vtkList.py', 'cfdtools/hdf5/_hdf5.py'],
    [('EOF section required by the section scan', 'cfdtools/ic3/_ic3.py readVar'), ('HDF5 superblock consistency flags and object headers', 'h5py'), ('VTK reader errors turned into exceptions', 'cfdtools/vtk/_vtk.py read')],
    observe=['readers run on the crashed disk image'])

add('C07', 'Existing files are never clobbered, whatever runs at the same time',
    "Conversion commands, vtkpack and safe-mode dumps never modify, truncate or remove a file that existed before they ran or that another invocation created: the output goes to a new name, chosen as stem(n).ext when the wanted one is taken, and the name returned is the file written (an XDMF companion is named after its HDF5 file). "
    "Concurrent invocations, however interleaved, each end with their own distinct, complete and correct file. "
    "Inputs are never modified, and commands that only inspect (cfdinfo, ic3brief, vtkbrief) change nothing on disk.",
    ['schedules', 'histories', 'crash_points', 'fault_sequences'],
    "all pre-existing directory contents, all interleavings of 2-4 concurrent commands aiming at the same or different names, crashes and I/O errors at any point",
    "tests run one command at a time in a clean directory",
    ['cfdtools/api.py', 'cfdtools/_cli.py', 'cfdtools/data.py', 'cfdtools/vtk/_vtk.py', 'cfdtools/hdf5/_hdf5.py'],
    [('safe new file name', 'cfdtools/api.py find_safe_newfile')],
    observe=['directory tree before, during and after', 'returned names'])

add('C08', 'A read under I/O faults is all or nothing',
    "Any read with the package (IC3 v2/v3, IC3 v4 with solution, VTK, CGNS, GMSH, packed lists, probes) under storage faults either raises or returns exactly what it returns on a healthy disk: never an empty, truncated, zero-filled or partially updated result. "
    "Interrupted and short reads and delays alone never make a read fail or change its result.",
    ['fault_sequences', 'inputs'],
    "every read operation of every reader x {I/O error, refused open, interrupted, short, slow}, alone and in sequences, on arbitrary valid files",
    "tests never fail or shorten a read",
    ['cfdtools/ic3/reader_legacy.py', 'cfdtools/ic3/_ic3.py', 'cfdtools/ic3/readerV4.py', 'cfdtools/vtk/_vtk.py', 'cfdtools/vtk/_vtkList.py', 'cfdtools/cgns/cgns.py', 'cfdtools/gmsh/reader.py', 'cfdtools/probes/data.py'],
    [('record size check', 'cfdtools/ic3/_ic3.py BinaryRead'), ('HDF5 error propagation', 'h5py'), ('VTK error propagation', 'cfdtools/vtk/_vtk.py read')],
    observe=['return values and exceptions of the readers'])

add('C09', 'After a failed read or write, trying again succeeds',
    "When a read, a write, a pack or a conversion has failed because of storage faults and the faults stop, repeating the very same call in the same process, with the same objects, succeeds at once and gives exactly the result of a run without faults. "
    "A failed attempt leaves the in-memory mesh unchanged in content and leaves no lock, open handle or stale state that makes the retry fail or differ.",
    ['fault_sequences', 'histories'],
    "every first-attempt fault sequence (one or several failed attempts) followed by a fault-free attempt, for every reader and writer whose failure is reported by an exception",
    "tests never make an operation fail and then repeat it",
    ['cfdtools/ic3/writerV2.py', 'cfdtools/ic3/writerV4.py', 'cfdtools/ic3/reader_legacy.py', 'cfdtools/ic3/readerV4.py', 'cfdtools/vtk/_vtk.py', 'cfdtools/vtk/_vtkList.py', 'cfdtools/hdf5/_hdf5.py', 'cfdtools/cgns/cgns.py', 'cfdtools/data.py'],
    [('files opened in with-blocks', 'cfdtools/ic3/*'), ('reader state re-initialised on each read', 'cfdtools/ic3/reader_legacy.py read_data')],
    observe=['result of the retried call', 'retained mesh object'])

add('C10', 'Results do not depend on what the process did before',
    "Each read, conversion, write or pack gives the same result after any sequence of other operations in the same process, including failed ones, as it gives alone in a fresh process; writing the same mesh object several times, in any order of formats, gives equivalent files each time. "
    "No operation alters meshes, readers or data obtained by earlier operations on other objects.",
    ['histories', 'fault_sequences'],
    "all sequences of reads, writes, conversions, extrusions, packs and failures over several files and formats in one process",
    "each test runs one operation; pytest order is fixed and results of one are never compared with those of another",
    ['cfdtools/meshbase/_elements.py', 'cfdtools/gmsh/reader.py', 'cfdtools/_cli.py', 'cfdtools/meshbase/_mesh.py', 'cfdtools/ic3/writerV2.py', 'cfdtools/vtk/_vtk.py', 'cfdtools/cgns/cgns.py', 'cfdtools/data.py'],
    [('module-level element tables switched by readers', 'cfdtools/meshbase/_elements.py elem2faces; gmsh/reader.py'), ('command name kept in module globals', 'cfdtools/_cli.py cli_header'), ('mesh completed in place by writers', 'cfdtools/ic3/writerV2.py set_mesh')],
    state=[('elem2faces', 'face tables used to build faces', 'cfdtools/meshbase/_elements.py')],
    observe=['outputs and exported meshes, compared with a fresh process'])

add('C11', 'Independent work in several threads does not mix',
    "When several threads of one process each read, convert, write or pack their own files and mesh objects, however their execution interleaves, every thread gets exactly the result it gets alone.",
    ['schedules', 'inputs'],
    "all interleavings, at any line of package code, of 2-4 threads working on different objects and files",
    "no test starts a thread",
    ['cfdtools/_cli.py', 'cfdtools/gmsh/reader.py', 'cfdtools/meshbase/_elements.py', 'cfdtools/ic3/_ic3.py', 'cfdtools/api.py', 'cfdtools/vtk/_vtk.py'],
    [('per-object state', 'readers and writers'), ('module-level tables with equal content per element', 'cfdtools/meshbase/_elements.py')],
    observe=['outputs of each thread'])

add('C12', 'Timers add up elapsed time, and no result depends on the clock',
    "A timer's elapsed time is exactly the sum of its running intervals on the monotonic clock, paused time excluded, whatever jumps the wall clock makes; starting a running timer or stopping a stopped one raises TimerError without changing it, and stop or leaving a with-block, also by an exception, leaves it reset and reusable. "
    "Files written and meshes read are identical whatever the clock shows and however slow the disk is.",
    ['schedules', 'histories', 'configurations'],
    "all sequences of start/pause/stop/reset/with over a simulated clock with arbitrary advances, wall-clock jumps and clock freezes; all conversions under arbitrary delays",
    "tests measure one real sleep; nothing controls the clock",
    ['cfdtools/api.py', 'cfdtools/_cli.py', 'cfdtools/vtk/_vtkList.py'],
    [('perf_counter intervals', 'cfdtools/api.py Timer')],
    state=[('_start_time/_elapsed', 'running interval and accumulated time', 'cfdtools/api.py Timer')],
    observe=['Timer.elapsed, reported seconds, TimerError', 'output files'])

add('C13', 'Every file handle opened is given back, on success and on failure',
    "After a read, write, dump, pack or conversion has returned or raised, and the objects it returned are released, the process holds no descriptor on any file it opened and no lock on it, so any of those files can be rewritten, replaced or opened for writing at once. "
    "This holds for every reader, writer and command, and at whatever I/O call a failure struck.",
    ['fault_sequences', 'histories'],
    "all operations x every fault point, and long sequences of operations and failures",
    "tests never look at open descriptors and never fail an operation halfway",
    ['cfdtools/ic3/reader_legacy.py', 'cfdtools/ic3/writerV2.py', 'cfdtools/ic3/writerV4.py', 'cfdtools/ic3/readerV4.py', 'cfdtools/hdf5/_hdf5.py', 'cfdtools/cgns/cgns.py', 'cfdtools/gmsh/reader.py', 'cfdtools/data.py', 'cfdtools/vtk/_vtk.py'],
    [('with-blocks and explicit close', 'readers and writers')],
    observe=['/proc/self/fd of the node', 'open/close history at the I/O seam'])

add('C14', 'Damaged input is rejected or read in bounded time, and never spreads',
    "Reading or inspecting a file that was cut, or whose stored content was altered anywhere (bytes of IC3 v2/v3, GMSH, VTU and probe files, objects and attributes of IC3 v4, CGNS and packed HDF5 files), always ends in a bounded number of steps, by raising or by returning, without writing, creating or removing any file, and later reads of other files in the same process are unaffected. "
    "An IC3 v2/v3 file cut before its final EOF section, or whose connectivity, coordinate or data sections announce other sizes than those of the mesh, is rejected; with the integrity check on, so is a file whose node, face or cell identifier section differs from 0..n-1 in any entry.",
    ['inputs', 'fault_sequences'],
    "all truncations, bit flips, block losses, block duplications and integer-field corruptions of stored files (for HDF5 files: of their objects, the metadata of the container being the HDF5 library's business)",
    "tests read only valid files",
    ['cfdtools/ic3/_ic3.py', 'cfdtools/ic3/reader_legacy.py', 'cfdtools/gmsh/reader.py', 'cfdtools/cgns/cgns.py', 'cfdtools/ic3/readerV4.py', 'cfdtools/vtk/_vtk.py', 'cfdtools/probes/data.py'],
    [('section scan until EOF header', 'cfdtools/ic3/_ic3.py readVar'), ('identifier sections', 'cfdtools/ic3/reader_legacy.py cIntegrity')],
    observe=['steps and CPU time of the reader node', 'disk before and after', 'exceptions', 'a healthy file read afterwards'])

add('C15', 'Probe files read while the solver appends give whole, aligned records',
    "Reading probe line data while the simulation is still appending to the files gives exactly the complete records present, each value at its time and position, or raises; derived quantities (Mach, speed of sound, entropy, velocity, invariants) are computed record by record from the data read, and a request that can be served neither from a file nor from its dependencies raises, and what one request gave is not changed by the next ones. "
    "Rows that are cut, only partly visible or overwritten with zeros never turn into silently wrong, misplaced or missing values.",
    ['schedules', 'inputs', 'fault_sequences'],
    "all interleavings of an appending writer with a reader at any byte, all probe sets and request orders, storage faults on any read",
    "tests read finished files of one size and one request order",
    ['cfdtools/probes/data.py', 'cfdtools/_cli.py'],
    [('column count check', 'numpy.genfromtxt in cfdtools/probes/data.py read_data'), ('dependency resolution', 'cfdtools/probes/data.py check_data')],
    observe=['phydata.alldata', 'exceptions'])

add('C16', 'Span-averaging a VTK solution gives each column of cells its own values',
    "When a VTK solution whose cells are stacked in layers is read, averaged along the stacking direction (vtk_zconvolution) and written, the written document holds exactly the cells of the first layer and, for every selected field and option, the first value, average, RMS, and moduli and phases of the Fourier modes of exactly the cells of each column, whatever the order of the cells, the direction, and the number of times the same object was averaged before. "
    "On healthy storage this returns; a mesh that is not stacked (missing, moved or unequal layers), an unknown field or a refused read or write makes it raise instead of returning.",
    ['inputs', 'configurations', 'histories', 'fault_sequences'],
    "all layered meshes x cell permutations x directions x option selections; repeated and concurrent averages; every storage error during the read and the write",
    "tests average one cube in its native cell order on a healthy disk",
    ['cfdtools/vtk/_vtk.py'],
    [('chunking by position and kd-tree matching', 'cfdtools/vtk/_vtk.py vtk_zconvolution'), ('extraction of the first layer', 'cfdtools/vtk/_vtk.py vtk_extract_cells')],
    observe=['the VTU document', 'exceptions'])

add('C18', 'What the inspection commands report is exactly what the file holds',
    "When ic3brief returns, it has listed every section of the file, in the order of the file, with its name, code, size and header values; when cfdinfo returns, it has reported the counts, bounds, boundary patches and parameters of the mesh the file holds, and the extrema and mean of each component of its data; when vtkbrief returns, the counts, bounds and fields; a conversion with --info reports the converted mesh, and vtkpack how many snapshots it packed and reordered. "
    "Timings aside, the report is the same whatever benign I/O conditions occurred, whatever the process did before, and while another process is writing the file or after that process was killed; when the file cannot be read to its end, the command raises instead of returning.",
    ['inputs', 'histories', 'fault_sequences', 'crash_points', 'schedules'],
    "all files, all storage faults during the inspection, all earlier operations of the process, all interleavings with a process writing the file and all its crash points",
    "tests only check that the commands return on complete files; nothing looks at the report",
    ['cfdtools/_cli.py', 'cfdtools/ic3/_ic3.py', 'cfdtools/meshbase/_mesh.py', 'cfdtools/vtk/_vtk.py', 'cfdtools/vtk/_vtkList.py', 'cfdtools/cgns/cgns.py', 'cfdtools/gmsh/reader.py'],
    [('section scan until EOF header', 'cfdtools/ic3/_ic3.py read_headers'), ('print of the exported mesh', 'cfdtools/meshbase/_mesh.py printinfo')],
    observe=['standard output and log records of the command', 'exceptions'])

N = []


def na(id, title, statement, over, text, why, files, mech, why_na):
    add(id, title, statement, over, text, why, files, mech)
    N.append({**P.pop(), 'why_na': why_na})


na('C17', 'Spectra, polynomial bases and finite-volume operators are numerically right',
    "DataSet spectra and spectrograms, the polynomial base functions and the 1D covariant operators return the mathematically defined values.",
    ['inputs'], "all signals, orders and meshes",
    "tests sample a few orders and signals",
    ['cfdtools/data.py', 'cfdtools/utils/polybase.py'], [('FFT of a time series', 'cfdtools/data.py dataSet_spectrum')],
    "pure numerical functions without I/O, time, concurrency or failure: fault injection and scheduling cannot reach them")
if __name__ == '__main__':
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, '..', 'properties.jsonl'), 'w') as f:
        for p in P + [{k: v for k, v in q.items() if k != 'why_na'} for q in N]:
            f.write(json.dumps(p) + '\n')
    print(len(P))
