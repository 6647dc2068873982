"""writes /verif/MANIFEST.json from the checks that exist"""
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
sys.path.insert(0, os.path.join(here, 'tools'))
import mkprops  # noqa: E402

TECH = 'deterministic simulation with fault injection: '
NOTE = {
    'C01': ('storage faults during IC3 v2/v3 writes', 'Seeded search over meshes, byte orders and fault plans; the real writer and reader run over a simulated disk, results are decoded by an independent decoder. Not exhaustive.'),
    'C02': ('storage faults during IC3 v4 (HDF5) writes', 'Seeded search over meshes and fault plans; the real writer, h5py and HDF5 run over a simulated disk. A native HDF5 crash under a fault counts as "did not return normally". Not exhaustive.'),
    'C03': ('storage faults during VTU writes', 'Seeded search over meshes and fault plans; the real writer and VTK run over a simulated disk, the document is decoded by an independent decoder. A native VTK crash under a fault counts as "did not return normally". Not exhaustive.'),
    'C04': ('storage faults and damaged snapshots during packing', 'Seeded search over snapshot lists, cell permutations and fault plans.'),
    'C05': ('storage faults during command-line conversions', 'Seeded search over sources written by independent encoders, options and fault plans; outputs decoded independently.'),
    'C06': ('crash, torn write and concurrent reader simulation', 'Every crash point of sampled writes plus seeded writer/reader interleavings; process crash (what was handed to the OS survives), fresh output names for concurrent readers.'),
    'C07': ('interleaved commands, crashes and faults over one directory', 'Seeded search over interleavings of 2-4 commands at I/O-call granularity with crashes and faults.'),
    'C08': ('storage faults during reads', 'Seeded search over readers, files and fault plans, compared with the fault-free result.'),
    'C09': ('fault then fault-free retry in the same node', 'Seeded search over operations and fault plans; retry compared with a fault-free run.'),
    'C10': ('random operation histories against fresh-process results', 'Seeded search over histories of reads, writes, conversions, packs and failures in one node.'),
    'C11': ('cooperative thread scheduler with line-level preemption', 'Seeded search over thread interleavings at package line granularity; native code runs atomically.'),
    'C12': ('simulated clock: timer reference model and clock-independence of outputs', 'Seeded search over timer call sequences, clock jumps and disk delays.'),
    'C13': ('descriptor accounting at every fault point', 'Seeded search over operations and fault points; descriptors counted in the node after collection.'),
    'C14': ('corrupted stored bytes', 'Seeded search over truncations, flips, block losses and field corruptions with CPU, memory and step budgets; native crashes of HDF5/VTK on damaged input are outside.'),
    'C15': ('appending solver against a reader', 'Seeded search over interleavings of an appending writer with readers and read faults.'),
    'C16': ('storage faults and repeated use around the averaging of layered solutions', 'Seeded search over layered meshes, cell permutations, options and fault plans; the real reader, averaging and writer run over a simulated disk, results compared with a direct computation. Not exhaustive.'),
    'C18': ('storage faults, histories, concurrent writers and crashes around the inspection commands', 'Seeded search; the report is compared with the source mesh or an independent decoder, and with the report of a fault-free run.'),
}
NA = [dict(property=p['id'], reason=p['why_na']) for p in mkprops.N]

checks, missing = [], []
for p in mkprops.P:
    if os.path.exists(os.path.join(here, 'checks', p['id'].lower() + '.py')):
        t, n = NOTE[p['id']]
        checks.append({'property': p['id'], 'quick_cmd': f'bash run.sh {p["id"]} quick', 'thorough_cmd': f'bash run.sh {p["id"]} thorough',
                       'technique': TECH + t, 'level': 'exploration', 'level_note': n})
    else:
        missing.append({'property': p['id'], 'reason': 'check under construction'})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': NA + missing},
          open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(missing), 'missing')
