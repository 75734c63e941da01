#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the phases of check.py"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import check
NA = {
    'C25': 'pure function of the file header and the coordinate: no concurrency, time, I/O fault or second party decides the result; a schedule search adds nothing to testing inputs (every simulated read and meta query compares with an independent computation of the mapping as a by-product, under C01-C07)',
    'C26': 'pure function of the parameter strings: no nondeterminism for a simulator to control (the generators write documented spellings and values at random, so a misread parameter shows up under the properties that depend on it)',
    'C27': 'pure function of a stored value and two types: no nondeterminism for a simulator to control (simulated reads request all types and compare with an independent conversion as a by-product, under C01-C07)',
}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in check.PHASES:
        act = [x for x in check.PHASES[i] if x[3]]
        comp = [c for _, _, c, _ in act if c]
        what = ('the component %s alone and the whole library' % comp[0][5:] if comp and len(act) > len(comp) else 'the component alone' if comp else 'the whole library')
        checks.append({
            'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
            'technique': 'deterministic simulation with fault injection: seeded search over schedules and faults (%s)' % what,
            'level': 'fault_enumeration' if False else 'exploration',
            'level_note': 'Seeded search, not exhaustive: the property held in every explored run (schedules at memory-access granularity, simulated MPI/netCDF/pthreads). Assumes sequential consistency and the simulated libraries; trusts the simulator and the oracles in sim/.'})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 build.py A B C D', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: the seams are the MPI, netCDF, pthread and libc symbols and the compiler instrumentation of memory accesses.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
