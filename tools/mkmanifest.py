#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the check modules present."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'deterministic simulation with fault injection: '
NOTES = {
 'C01': ('seeded schedules of really forked pool workers against serial evaluation',
         'Seeded search over call sequences and worker schedules; the pool scheduler is simulated, everything else is the real code. No guarantee beyond the explored runs.'),
 'C02': ('seeded worker failures, pool start/feed failures and interrupts on simulated pools',
         'Seeded search over fault sequences; leaks are judged on the simulated pools, child processes, threads and open files.'),
 'C03': ('seeded histories with scopes, workers and failures against a model of collections and cold sessions',
         'Seeded search; the citation set of a computation is taken from the same code in a pristine forked session.'),
 'C04': ('seeded API histories against the same call in pristine forked sessions',
         'Seeded search, stratified over all modules that implement predictions; oracle is the same code in a pristine forked session, so it decides history dependence, not physics.'),
 'C05': ('interrupts, memory errors and failing observables injected at seeded executed lines, then comparison with pristine sessions',
         'Seeded search over interruption points (line granularity in flavio code; not inside third-party code).'),
 'C06': ('seeded line-level thread scheduler running one thread at a time',
         'Seeded search over interleavings at source-line granularity in flavio code; third-party code runs without preemption.'),
 'C07': ('seeded likelihood histories with failures against a small reference likelihood',
         'Seeded search; the reference sums log-probabilities of the measured constraints itself.'),
 'C08': ('seeded call sequences with injected failures, deep digests of inputs and shared state',
         'Seeded search; state is compared before and after each call by structural digests.'),
 'C09': ('the same seeded scenario in interpreters with different hash seeds, worker counts and histories',
         'Seeded search; each scenario is executed in several real interpreters whose hash seed is chosen by the simulator.'),
 'C10': ('seeded update histories with failing updates, dumps and reloads against a reference store',
         'Seeded search against an executable reference model.'),
 'C11': ('simulated file layer (I/O errors, short reads, truncation, garbling, interrupts) with registry digests',
         'Seeded search over fault positions; file system and URL layer are simulated.'),
 'C12': ('simulated file layer with failing and torn writes and crashes at every write boundary',
         'Seeded search over crash and error points; durability of completed system calls is assumed (no fsync modelling).'),
 'C13': ('simulated include trees with I/O errors and parse failures against a reference loader',
         'Seeded search over include trees and faults.'),
 'C14': ('scripted optimisers (seeded convergence and failure sequences) against a reference retry loop',
         'Seeded search; the optimisers themselves are scripted stand-ins.'),
 'C15': ('scripted random generator (extreme and seeded streams), update histories, distribution tests',
         'Seeded search; distribution tests use thresholds of about six standard deviations on fixed seeds.'),
 'C16': ('seeded compute/load/failure histories against a reference model of covariances and fast likelihoods',
         'Seeded search against an executable reference model.'),
 'C17': ('seeded definition/deletion/selection histories with failing definitions against a reference registry',
         'Seeded search against an executable reference model.'),
 'C18': ('seeded define/dump/load/restart histories with failing writes, interrupted and rejected loads',
         'Seeded search; the loaded object is compared with the original in its observable behaviour.'),
}
NA = {
 'C30': 'pure numerical identity between functions of their inputs (integral over a bin); no schedule, clock, I/O, fault or history enters, so simulation has nothing to vary',
 'C31': 'pure algebraic identity between functions of their inputs; nothing for a scheduler or fault injector to decide',
 'C32': 'accuracy of a pure translation/running (mostly in the wilson package); no schedule, fault or history enters',
 'C33': 'pure mathematical property of each density; no schedule, fault or history enters (its random draws are decided in C15)',
 'C34': 'pure parser property; no schedule, fault or history enters',
}
checks, na = [], [dict(property=k, reason=v) for k, v in NA.items()]
for pid, (tech, note) in NOTES.items():
    if not os.path.exists(os.path.join(here, 'sim/props/%s.py' % pid.lower())):
        na.append(dict(property=pid, reason='check not built yet'))
        continue
    checks.append(dict(property=pid, quick_cmd='./check %s --tier quick' % pid,
                       thorough_cmd='./check %s --tier thorough' % pid,
                       evidence_file='evidence/%s.json' % pid,
                       technique=TECH + tech, level='exploration', level_note=note))
m = dict(version=1, setup_cmd='./setup.sh',
         hooks=dict(guard='none', enable='no hooks in /repo: seams are installed from outside (multiprocessing, '
                    'concurrent.futures, locks, open/os, urllib/requests, optimisers, numpy random) before flavio is imported',
                    source_commits=[]),
         checks=checks, not_applicable=na,
         notes='Checks import flavio from /repo (pure Python, editable install); nothing needs to be built.')
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks')
