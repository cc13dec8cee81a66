#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the registry and the texts below."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'); sys.path.insert(0, V)
from vsim import registry
T = 'deterministic simulation with fault injection: '
TECH = {
 'C01': T + 'seeded fault plans over every file, process and allocation operation of real runs; oracle: bytes of an undisturbed run',
 'C02': T + 'seeded kill points, torn writes and loss of unsynced data, then a clean rerun; oracle: run into an empty prefix',
 'C03': T + 'seeded histories of runs and edits of the output directory; oracle: run into an empty prefix',
 'C04': T + 'seeded histories with crashes and short/interrupted reads; oracle: file identity, time and content',
 'C05': T + 'seeded read/open faults on configuration and headers; oracle: non-zero status or undisturbed output',
 'C06': T + 'seeded heap layout, memory fill, clock, pid, randomness and environment; oracle: byte equality with the reference layout',
 'C07': T + 'seeded hostile names and prefixes with faults; oracle: every mutating system call plus tree snapshot',
 'C08': T + 'observation of the output directory at every mutating operation (every kill point) of seeded runs',
 'C09': T + 'seeded interleavings of the file operations of concurrent runs; oracle: solo runs',
 'C10': T + 'seeded persistent failures and size limits; oracle: status, message, bounded number of operations',
 'C11': T + 'seeded histories of layouts and size limits; oracle: structural cross-check and unsplit reference run',
 'C16': T + 'seeded memory layouts, splits, killed earlier runs and inheritance graphs; oracle: model of the type registry of the interpreter executing the generated module',
 'C12': T + 'seeded faults, kills and interleavings of the real script; oracle: reference model of the pages',
 'C13': T + 'real build script with simulated git/curl/tar/cmake/ninja, seeded kill points and failing steps; oracle: model of a complete install',
 'C15': T + 'real build-and-test driver with simulated tools and self-tests, seeded failing steps, signals, kill points and noise; oracle: model of what the self-tests must have been run with',
 'C14': T + 'generated code run against a simulated interpreter under a seeded thread scheduler; oracle: lock discipline, deadlock freedom',
}
NOTE = {
 'fault_enumeration': 'Seeded search over fault points, kinds and projects on the real binary under a system-call level simulator; every violation is replayed in a fresh process before it is reported. Evidence, not proof: fault sequences and projects are sampled. Assumes Linux system calls are the only channel to the disk.',
 'exploration': 'Seeded search over histories/schedules/layouts on the real code under the simulator; every violation is replayed in a fresh process before it is reported. Evidence, not proof.',
}
NA = {
 'N01': 'pure function of headers, rules and declarations: no schedule, fault, clock or history in it, nothing for a simulator to decide',
 'N02': 'about compilability of output for arbitrary C++ input: a pure input/output relation, needs program generation plus compilation, not simulation',
 'N03': 'equivalence of a wrapper and its callee for all arguments: a pure function of the input program; no nondeterminism or faults involved',
 'N05': 'pure parser behaviour; its fault side (read errors, cut-off files) is C05 and C10',
 'N06': 'pure naming function; collisions of file and binding-function names are covered by C11, the rest has no fault or schedule to simulate',
}
props = registry.all_props()
checks = []
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
for i in ids:
    if i not in props: continue
    p = props[i]
    checks.append({'property': i, 'quick_cmd': 'python3 -m vsim.check %s --tier quick' % i, 'thorough_cmd': 'python3 -m vsim.check %s --tier thorough' % i,
                   'technique': TECH[i], 'level': p.level, 'level_note': NOTE[p.level] + (' ' + p.note if getattr(p, 'note', '') else '')})
na = [{'property': i, 'reason': NA.get(i, 'not claimed yet')} for i in ids if i not in props]
m = {'version': 1, 'setup_cmd': 'python3 -m vsim.build', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: all seams are outside the program (system calls via ptrace, allocator/clock/pid/randomness via preload). Replays: python3 -m vsim.check <id> --replay <file>.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
