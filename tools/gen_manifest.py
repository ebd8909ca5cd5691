"""Writes MANIFEST.json."""
import json
import os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': ('deterministic simulation: seeded hash order, statement order, process history; order checked on the built model', 'random programs of up to a few hundred expressions; the reference order is derived from the program, not from the code'),
 'C02': ('deterministic simulation: seeded hash order and statement order; interface compared with a reference of the declarations', 'random programs, flat, nested and implicit'),
 'C03': ('deterministic simulation of driver histories under seeded unordered choices and uninitialised memory, against a reference interpreter', 'random programs and histories'),
 'C04': ('deterministic simulation of driver histories, derivatives against complex-step and finite differences of a reference interpreter', 'random programs and histories'),
 'C05': ('deterministic simulation of interleaved life cycles of several models with failures, against each model alone', 'random interleavings of 2 to 4 models'),
 'C06': ('deterministic simulation of thread schedules (seeded preemption at lines and stores)', 'random schedules of 2 to 4 threads; preemption between bytecodes that store, not inside C code'),
 'C07': ('deterministic simulation of life cycles with repeated set-ups and changed options', 'random histories'),
 'C08': ('deterministic simulation under seeded hash order; hierarchical against flat model (refinement)', 'random decompositions of random programs'),
 'C09': ('deterministic simulation of solve histories with failed, truncated and interrupted solves; residuals checked with a reference interpreter', 'random implicit models with known roots'),
 'C10': ('deterministic simulation of solve histories; derivatives against the implicit function theorem on the reference', 'random implicit models and linear solvers'),
 'C11': ('deterministic simulation of cyclic models under seeded hash order and earlier states; fixed points against a reference iteration', 'random contracting cycles'),
 'C12': ('fault injection: exceptions at seeded instants (library lines, user callbacks) of every life-cycle operation', 'one or more interruptions per run, sampled over all line events'),
 'C13': ('fault injection: values outside the domain injected into driver histories, dependence-exact oracle', 'random programs, points and histories'),
 'C14': ('fault injection: rejected declarations injected at random points of a program, refinement against the program without them', 'random programs, about 40 kinds of bad declarations'),
 'C15': ('deterministic simulation with a step counter: growth of building steps over model families', 'families of sharing structures, sizes doubled until the bound'),
 'C16': ('deterministic simulation under seeded statement order, hash order and driver histories against a reference interpreter', 'random partitions and keys'),
 'C17': ('fault injection into histories of option dictionaries (failing validators, interruptions at any line) against a small model', 'random histories'),
 'C18': ('deterministic simulation of the file system (order, buffering, torn and lost writes, full disk, I/O errors, crash and restart)', 'random directories and fault plans; real generator'),
}
NA = {
 'C19': 'Pure functions of their arguments: no schedule, time, I/O, fault or history takes part, so simulation has nothing to decide; that a rejected operand leaves no trace is C14, that shapes are right on valid programs is part of C02 and C03.',
 'C20': 'Pure string and number functions (utils/units.py, utils/gen_hex_name.py): no nondeterminism, state or fault to simulate; that automatically chosen names do not collide in any history is part of C05 and C06.',
}
py = '/opt/venv/bin/python'
checks = [{'property': p, 'quick_cmd': '%s sim/run.py %s quick' % (py, p), 'thorough_cmd': '%s sim/run.py %s thorough' % (py, p),
           'evidence_file': 'evidence/%s.json' % p, 'technique': t, 'level': 'exploration',
           'level_note': 'seeded search, not exhaustive: ' + n} for p, (t, n) in sorted(T.items())]
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks,
     'not_applicable': [{'property': p, 'reason': r} for p, r in sorted(NA.items())],
     'notes': 'No hooks in /repo: the seams are Python-level (class attributes, sys.monitoring, numpy.empty, builtins.open) and are installed from outside by sim/world.py.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
