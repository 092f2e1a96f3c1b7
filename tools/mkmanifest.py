#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'deterministic simulation with fault injection (seeded schedules and faults)'
W = {
    'C01': 'seeded preemption at every statement of 2-5 concurrent callers on 1-3 clients of all DAG algorithms, each result compared with a reference',
    'C02': 'seeded interleavings of concurrent requests; generations counted per client and epoch',
    'C03': 'seeded request histories and interleavings compared with a model of the epoch prepared ahead',
    'C04': 'seeded request histories compared with an LRU model; live caches or mappings counted after garbage collection',
    'C05': 'garbage collection, eviction and file removal placed by the seed inside running computations; real page protection detects bad accesses',
    'C06': 'seeded histories with damaged files and storage errors; descriptors and mappings counted after garbage collection',
    'C07': 'process kills at seeded statements and operations, then restarts; results compared with a reference',
    'C08': 'power losses at seeded points with seeded subsets of unsynced blocks and directory operations; results compared with a reference',
    'C09': 'seeded storage errors, standing denials, full disks (also through mappings); results compared with a reference',
    'C10': 'seeded damage to cache files before and while a client runs; results compared with a reference, replaced files with the complete ones',
    'C11': '2-3 simulated processes sharing a directory, seeded interleavings and kills; results compared with a reference',
    'C12': 'seeded histories with restarts and left files; the directory compared with the retention window',
    'C13': 'seeded histories with restarts, kills and several processes; generations and changes of complete files observed',
    'C14': 'a task stalled at a seeded point of a generation or storage operation; calls for ready epochs must end',
    'C15': 'seeded interleavings and histories on shared clients; each verdict or digest compared with a reference',
    'C16': 'arguments in write-protected memory, results kept and written to, under seeded interleavings',
    'C17': 'the generator as a simulated process under seeded storage faults; exit status compared with the file it left',
    'C18': 'seeded chains across epochs at real sizes (contents of caches replaced by zeros) and at small sizes (real contents)',
    'C19': 'several coins and unrelated files in one directory, seeded faults and kills; every operation and the untouched files checked',
    'C20': 'seeded jumps of the wall clock; results compared with a reference, evictions with an LRU model',
    'C21': 'every file under a final name checked after every operation and switch, under seeded faults, kills and interleavings',
    'C22': 'the storage directory checked once all work has ended, under seeded storage errors',
    'C28': 'seeded chains of requests with storage errors, clock jumps and interleavings; hangs detected by the scheduler, goroutines counted at quiescence',
    'C29': 'seeded interleavings of calls, constructors, preparations and finalizers in a build with race detection, where the scheduler itself orders nothing for the detector',
}
NA = {
    'C23': 'A pure function of its arguments: no schedule, clock, I/O, fault or interleaving occurs in it, so simulation has nothing to decide. (Under concurrency, faults and restarts C01-C11 compare digests with a frozen reference.)',
    'C24': 'A pure function of its arguments; nothing for a scheduler or fault injector to vary. (Concurrent use is C15.)',
    'C25': 'A pure function of its arguments; nothing for a scheduler or fault injector to vary. (Concurrent use is C15.)',
    'C26': 'A pure function of its arguments; nothing for a scheduler or fault injector to vary. (Concurrent use is C15.)',
    'C27': 'Input validation of pure functions: deciding it is a search over inputs, not over schedules or faults.',
}
NOTE = 'Searched by seeds, not exhausted: %s. Trusts the simulator (sim/rt, sim/fs, shims), the frozen reference (checked by tools/refcheck.sh) and interleaving at statement granularity.'
m = dict(version=1, setup_cmd='python3 tools/setup.py',
         checks=[dict(property=k, quick_cmd='python3 tools/check.py ' + k, thorough_cmd='VERIF_TIER=thorough python3 tools/check.py ' + k,
                      evidence_file='evidence/%s.json' % k, technique=T + ': ' + v, level='exploration', level_note=NOTE % v) for k, v in W.items()],
         not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         notes='No hooks are committed in /repo: every seam is put in by a build overlay generated from the current tree (sim/instr). Defects found are fixed by the "fix:" commits listed in known_findings.txt.')
with open(HERE + '/MANIFEST.json', 'w') as h:
    json.dump(m, h, indent=1)
    h.write('\n')
