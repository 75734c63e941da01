#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property by seeded simulation of the library built
from the working tree of /repo.

exit 0: the property held in every simulated run; exit 1 and a line "VIOLATION property=.. replay=..":
a run violates it (the replay file was reproduced in a new process); exit 2: no answer."""
import json, os, re, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build

ALL = ['A', 'B', 'C', 'D']
MPIV = ['A', 'B', 'C']
# phases of a property: (generator, library variants, component harness, share of the time); a share of 0 marks a
# phase that runs the whole library and only stands in for a harness that does not compile against the tree
PHASES = {
    'C01': [('C01', ALL, None, 1)],
    'C02': [('C02', MPIV, None, 1)],
    'C03': [('C03', ['B', 'C'], None, 1)],
    'C04': [('C04', MPIV, None, 1)],
    'C05': [('C05', ['B', 'C'], None, 1)],
    'C06': [('C06', ALL, None, 1)],
    'C07': [('C07', ALL, None, 1)],
    'C08': [('C08', ['A', 'D'], 'comp_cache', 3), ('C08.sys', ['A', 'D'], None, 1)],
    'C09': [('C09', ['A', 'D'], 'comp_sync', 3), ('C09.sys', ['A', 'D'], None, 1)],
    'C10': [('C10', ['A', 'D'], 'comp_once', 3), ('C10.sys', ['A', 'B', 'D'], None, 1)],
    'C11': [('C11', ['A', 'D'], 'comp_numa', 3), ('C11.sys', ['A', 'D'], None, 1)],
    'C12': [('C12', MPIV, 'comp_mutex', 3), ('C12.sys', MPIV, None, 1)],
    'C13': [('C13', ['A', 'B', 'D'], None, 1)],
    'C14': [('C14', ALL, None, 1)],
    'C15': [('C15', ALL, None, 1)],
    'C16': [('C16', ALL, None, 1)],
    'C17': [('C17', ALL, None, 1)],
    'C18': [('C18', ALL, None, 1)],
    'C19': [('C19', ['B', 'C'], 'comp_commthread', 2), ('C19.sys', ['B', 'C'], None, 1)],
    'C20': [('C20', MPIV, None, 1)],
    'C21': [('C21', ['A', 'B', 'D'], 'comp_fortran', 3), ('C21.sys', ['A', 'B', 'D'], None, 1)],
    'C22': [('C22', ALL, None, 1)],
    'C23': [('C23', ALL, None, 1)],
    'C24': [('C24', ALL, None, 1)],
}
QUICK_S = 40
THOROUGH_S = 600

# what ran for real and what was replaced
REAL = ('all of the library (grid, cache, transfer, mpi, threads, numa, types, io, C/C++/Fortran interface): compiled from '
        '/repo with instrumentation of every memory access; one copy with its own static data per simulated process')
STUB = ('MPI (messages, collectives, one-sided windows, groups, data types), netCDF (files in memory), pthreads (threads, mutexes, '
        'spinlocks, condition variables, keys), CPU/NUMA topology, rand(), memory allocation: simulator; utils/logger.h and '
        'utils/stringutils.h (submodule absent in the checkout): small stand-ins, logError stops the simulated program')
ASSUME = ['sequentially consistent memory (interleavings of memory accesses, no weak-memory reordering)',
          'MPI, netCDF and pthreads behave as their standards allow (simulated, strictest reading of the standard)',
          'at most 4 processes, 4 application threads per process, small files',
          'POSIX condition variables may wake up spuriously; MPI sends may or may not be buffered']


def known_findings(prop):
    """KNOWN property=<id> class|text in the message|text in the scenario... ## description"""
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'KNOWN property=(\S+) (.*?) ## (.*)$', l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def libs_arg(libs):
    a = []
    for k, v in libs:
        a += ['--lib', '%s=%s' % (k, v)]
    return a


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    total = float(os.environ.get('SIM_SECONDS', THOROUGH_S if tier == 'thorough' else QUICK_S))
    t0 = time.time()
    phases = PHASES[prop]
    if tier == 'thorough':
        # further builds of the library (see build.py)
        phases = [(g, vs if c or 'A' not in vs else vs + ['E'] + ['F'] * ('B' in vs or 'C' in vs), c, w) for g, vs, c, w in phases]
    variants = sorted({v for _, vs, c, w in phases if not c and w for v in vs})
    comps = sorted({(v, c) for _, vs, c, _ in phases if c for v in vs})
    try:
        b = build.Builder(os.environ.get('SIM_REPO', '/repo'))
        exe, sos, csos, notes = b.build(variants, comps)
        if any(not x for x in csos.values()):
            exe, sos, csos, more = b.build(sorted({v for _, vs, c, _ in phases if not c for v in vs}), comps)
    except build.BuildError as e:
        print('BUILD FAILED\n%s' % e)
        return 2
    t_build = time.time() - t0
    for n in notes:
        print('note: ' + n)
    runnable = []
    missing = any(c and not csos[(v, c)] for _, vs, c, _ in phases for v in vs)
    for gen, vs, c, w in phases:
        if w == 0:
            if not missing:
                continue
            w = 1
        libs = [(v + '.' + c, csos[(v, c)]) for v in vs] if c else [(v, sos[v]) for v in vs]
        if all(x[1] for x in libs):
            runnable.append((gen, libs, w))
    if not runnable:
        print('no phase of %s can run against this tree' % prop)
        return 2
    replays = os.path.join(HERE, 'replays')
    os.makedirs(replays, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    known = known_findings(prop)
    jobs = min(8, os.cpu_count() or 8)
    agg, samples, violation, broken, seen_known = None, [], None, [], []
    hashes = 0
    for gen, libs, w in runnable:
        sec = total * w / sum(x[2] for x in runnable)
        out = os.path.join(HERE, '.build', 'out.%s.%d.json' % (gen, os.getpid()))
        cmd = [exe, 'explore', '--prop', gen, '--seed', str(seed), '--seconds', '%.1f' % sec, '--jobs', str(jobs), '--out', out,
               '--replays', replays, '--minimise', '60' if tier == 'thorough' else '25'] + (['--thorough'] if tier == 'thorough' else []) + libs_arg(libs)
        for k, _ in known:
            cmd += ['--known', k]
        for attempt in range(3):
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
            if p.returncode:
                # a process of the simulator failed (e.g. not enough memory); what the others found counts
                print(p.stdout[-3000:])
            if p.returncode == 0 or (os.path.exists(out) and '"violation":1' in open(out).read()):
                break
        else:
            broken.append('exploration of %s failed with status %d' % (gen, p.returncode))
            continue
        d = json.load(open(out))
        os.unlink(out)
        for i in range(2):
            g = subprocess.run([exe, 'gen', '--prop', gen, '--seed', str(seed * 1000003 + i * 7)] + libs_arg(libs), stdout=subprocess.PIPE, universal_newlines=True)
            samples.append({'generator': gen, 'seed': seed * 1000003 + i * 7, 'scenario': g.stdout.splitlines()[:120]})
        if agg is None:
            agg = {k: v for k, v in d.items() if k != 'reports'}
        else:
            for k, v in d.items():
                if k in ('faults', 'probes'):
                    for x, n in v.items():
                        agg[k][x] = agg[k].get(x, 0) + n
                elif k != 'reports':
                    agg[k] += v
        for r in d['reports']:
            if r.get('known'):
                seen_known.append(r)
            elif r.get('nondeterministic'):
                broken.append('seed %s is not deterministic' % r['seed'])
            elif r.get('violation') and not violation:
                f = r['replay']
                q = subprocess.run([exe, 'replay'] + libs_arg(libs) + [f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
                if 'REPRODUCED' in q.stdout:
                    violation = r
                else:
                    broken.append('the replay %s does not reproduce: %s' % (f, q.stdout[-400:]))
        if violation:
            break
    wall = time.time() - t0
    if agg:
        probes = agg.get('probes', {})
        ev = {
            'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'wall_s': round(wall, 1),
            'violations': 1 if violation else 0, 'assumptions': ASSUME,
            'coverage': {
                'evaluations': agg['runs'], 'distinct_nontrivial': agg['distinct_schedules'],
                'rule': 'one evaluation is one simulated execution: a seed chooses machine, files, grids, program, faults and the scheduling policy and then every '
                        'scheduling, network and timing decision; non-trivial: at least one context switch and at least one oracle evaluated; distinct: '
                        'different hash of the sequence of all decisions',
                'samples': samples,
                'runs_per_hour': int(agg['runs'] / max(agg['seconds'], 1e-9) * 3600), 'seeds_per_hour': int(agg['runs'] / max(agg['seconds'], 1e-9) * 3600),
                'exploration_s': agg['seconds'], 'build_s': round(t_build, 1),
                'simulated_steps': agg['steps'], 'simulated_time': agg['clock'], 'simulated_time_unit': 'simulator ticks (one per scheduling step; timeouts and delays are counted in them)',
                'context_switches': agg['switches'],
                'distinct_histories': agg['distinct_histories'], 'distinct_histories_measure': 'hash of all values read, results of operations and message deliveries in order',
                'faults_injected': agg['faults'], 'runs_with_planned_faults': agg['runs_with_faults'], 'runs_stopped_on_fault': agg['stopped_on_fault'],
                'oracle_and_progress_counts': probes,
                'determinism_checks': agg['determinism_checks'], 'determinism_failures': agg['determinism_failures'], 'replay_checks': agg['replay_checks'],
                'generators': [g for g, _, _ in runnable], 'libraries': [k for _, l, _ in runnable for k, _ in l],
                'real_code': REAL, 'stubs': STUB, 'known_findings_seen': len(seen_known), 'notes': notes,
            }}
        json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
        print('%s: %d runs in %.0f s (build %.0f s), %d distinct schedules, %d steps' % (prop, agg['runs'], agg['seconds'], t_build, agg['distinct_schedules'], agg['steps']))
    for k, desc in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, desc))
    if violation:
        print('%s: %s (seed %s)' % (violation['cls'], violation['msg'], violation['seed']))
        print('VIOLATION property=%s replay=%s' % (prop, violation['replay']))
        return 1
    if broken:
        for b in broken:
            print('ERROR: ' + b)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
