#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed when its harness exists."""
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')

COMMON = ('Exhaustive within the bounds stated in the evidence: every leaf of the choice tree is one execution of the '
          'real code of /repo and is compared with the oracle.  ')
TRUST = '  Trusted: the explorer, the simulated store, clock and (where threads run) scheduler in /verif/mc.'
NOTES = {
    'C01': ('stateless model checking of operation histories on the real code',
            'All histories up to the depth bound over colliding keys, tags and argument forms on two cache objects; '
            'nothing is said beyond the depth or about other backends.'),
    'C02': ('stateless model checking of operation histories against a reference map',
            'All histories up to the depth bound, all values of the list through every storing and reading call.'),
    'C03': ('exhaustive enumeration of building programs on the real code',
            'All well-bracketed building programs up to the size bound, each followed by every single-tag invalidation.'),
    'C04': ('stateless model checking of thread interleavings (preemption bounded) at backend-operation granularity',
            'All schedules within the preemption bound of the listed scenarios and of all small program combinations; '
            'assumes backend operations are atomic per key.'),
    'C05': ('stateless model checking of interleavings with a simulated versioned database and clock',
            'All schedules within the preemption bound of writers and readers; readers store within the life time of a '
            'lock record; schedules of the recorded findings are excluded and pinned.'),
    'C06': ('stateless model checking of transaction histories on the real code',
            'All histories up to the depth bound for each isolation level and delay.'),
    'C07': ('stateless model checking of transaction histories against a reference fence model',
            'All histories up to the depth bound of three sessions; the fence is required within the life time of lock '
            'records only.'),
    'C08': ('exhaustive enumeration of scope programs on the real code',
            'All scope programs up to the size bound, all decorator spellings.'),
    'C09': ('stateless model checking of thread interleavings (preemption bounded) at statement granularity',
            'All schedules within the preemption bound of two threads; switches inside a source line are not explored.'),
    'C10': ('exhaustive enumeration of batches and deferred trees, differential against single reads',
            'All assignments of entry kinds and invalidity up to the size bound.'),
    'C11': ('exhaustive enumeration of dependency trees and uses on the real code',
            'All trees up to the size bound in all use orders up to the depth bound.'),
    'C12': ('stateless model checking of operation histories against independent reference models',
            'All histories up to the depth bound over two versions and two aliases.'),
    'C13': ('stateless model checking of request histories on the real page cache',
            'All request histories up to the depth bound through decorator and middleware.'),
    'C14': ('exhaustive enumeration of templates and invalidations on the real template tags',
            'All templates of the grammar up to the size bound.'),
    'C15': ('exhaustive enumeration of texts and data values on the real substitution code',
            'All texts up to the size bound from the listed pieces.'),
    'C16': ('stateless model checking of registration and signal histories on the real code',
            'All combinations of registrations up to the bound and all histories of saves and deletes.'),
    'C17': ('enumeration of all crash points, torn writes, I/O errors and reader positions of a store',
            'Every system-call boundary and torn-write class of a store in a scratch directory; power failure and '
            'reordering below the file system are outside.'),
    'C18': ('stateless model checking of operation histories against a dictionary',
            'All histories up to the depth bound on an adapter of single-key operations.'),
    'C19': ('systematic fault injection at every backend call, exhaustive per scenario',
            'One failure or eviction per scenario execution, at every backend call before and after its effect.'),
    'C20': ('exhaustive enumeration of fork and thread trees on the real code',
            'All trees of forks and threads up to the bound, in real processes.'),
    'C21': ('stateless model checking of request histories through the real middleware',
            'All request sequences up to the bound and all view behaviours of the list.'),
}

checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    pid = json.loads(line)['id']
    if os.path.exists(os.path.join(HERE, 'mc', 'props', pid.lower() + '.py')):
        t, n = NOTES[pid]
        checks.append({'property': pid, 'quick_cmd': 'bin/check %s --tier quick' % pid,
                       'thorough_cmd': 'bin/check %s --tier thorough' % pid,
                       'technique': t, 'level': 'model_checking', 'level_note': COMMON + n + TRUST})
    else:
        na.append({'property': pid, 'reason': 'model checking applies; its check is not built yet'})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the checks replace the environment (clock, randomness, store, threads) from outside.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks')
