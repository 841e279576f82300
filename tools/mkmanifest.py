"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json
import os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
NOTES = {
 'C01': ('fault_enumeration', 'seeded fault injection at numeric operations; precision checked after every call',
         'Interrupt, memory and solver failures at first/last occurrences of every call site reached plus seeded indices, for every public function and many argument/precision choices. Not every argument; faults arrive at entries into mpmath (numeric operations), not between arbitrary bytecodes.'),
 'C02': ('fault_enumeration', 'seeded fault injection; snapshot of all process-wide state around every call',
         'As C01; the snapshot covers mpmath contexts, random, decimal, warnings, environ, cwd, fds, threads, output, interpreter settings.'),
 'C03': ('exploration', 'seeded call histories compared with a pristine process',
         'Histories biased to functions that keep state between calls; bit-for-bit comparison; differences that mpmath alone shows (its own constant caches) are excused only after an attribution run.'),
 'C04': ('fault_enumeration', 'seeded histories of interrupted and failing calls, then comparison with a pristine process; bounded work',
         'Fault points at numeric operations; recovery judged by later outcomes and by operation counts.'),
 'C05': ('fault_enumeration', 'seeded fault injection; arguments compared before and after every call',
         'Deep comparison of every argument, including custom sequences, after return, error or injected fault.'),
 'C06': ('exploration', 'seeded histories of in-place changes to results and inputs, compared with a pristine process',
         'Every function returning mutable objects gets extra histories.'),
 'C07': ('fault_enumeration', 'seeded fault injection; outcome classified against the fault-free value',
         'Single faults and storms (a solver that always fails); an alternative result must agree with a higher-precision reference.'),
 'C08': ('exploration', 'seeded scheduler: suspended, nested and interleaved calls on real code, compared with running alone',
         'Pre-emption at numeric operations; locks of the library run on simulated locks, so deadlocks are deterministic.'),
 'C09': ('exploration', 'seeded interleavings of lazy iterators with calls, precision changes, faults and mutation',
         'Compared with the iterator consumed alone; infinite supports are followed for a bounded prefix.'),
 'C10': ('fault_enumeration', 'seeded import scenarios (precision, order, interruption and retry), compared with a default import',
         'Interruptions at module-level lines; outcomes of later calls compared bit for bit.'),
 'C11': ('exploration', 'long seeded histories with faults; retained data measured as the history grows',
         'Bounded is decided empirically over thousands of distinct calls per function.'),
 'C12': ('fault_enumeration', 'real generator on a simulated failing file system: I/O errors, short writes, crashes, restarts, races, git failures',
         'Process crash model (no power loss); git is a stub.'),
 'C13': ('fault_enumeration', 'seeded failures of the caller\'s data source at every access',
         'Data sources are sequences whose element access or length raises; later the same call with the working source must succeed.'),
 'C15': ('fault_enumeration', 'seeded single and persistent faults; numeric operations counted from the fault to the end of the call',
         'Bounds: 60 operations after an interrupt, 20 x fault-free work + 30000 otherwise. Calls needing more than 4000 engine operations without a fault are not struck.'),
 'C14': ('exploration', 'same seeded history in processes with different simulated clocks, entropy, hash seeds and environments',
         'Memory addresses are not controlled.'),
}
NA = 'a pure function of its arguments: no schedule, clock, I/O, randomness, fault or multi-party behaviour for it to depend on, so deterministic simulation with fault injection has nothing to vary; deciding it needs a numerical oracle or proof, not this technique'
props = [json.loads(ln) for ln in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': [],
     'notes': 'bin/replay FILE re-executes a replay file; MPSCI_REPO selects another tree (default /repo). No hooks in /repo: the seams are sys.monitoring, mpmath and the Python runtime.'}
for p in props:
    i = p['id']
    if i in NOTES:
        level, tech, note = NOTES[i]
        m['checks'].append({'property': i, 'quick_cmd': f'bin/check {i}', 'thorough_cmd': f'bin/check {i} --tier thorough',
                            'evidence_file': f'evidence/{i}.json',
                            'technique': 'deterministic simulation with fault injection: ' + tech, 'level': level, 'level_note': note})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA})
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
