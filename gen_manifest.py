#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties that have a check."""
import json
CHECKED = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28 C29 C30".split()
MACRO = "explicit-state model checking of the compiled library: every sequence of API calls up to a depth, in a simulated kernel, judged against a reference model after every call"
MICRO = "stateless/explicit-state model checking of the compiled library: every interleaving at every system call and racing memory access, linearizability against a reference model"
KILL = "explicit-state model checking with exhaustive kill points: every interleaving and every system call at which a process can be killed"
FAULT = "explicit-state model checking with exhaustive fault points: every sequence of calls and every system call or allocation in them failing"
TECH = {'C29': 'explicit-state model checking of the compiled library: every sequence of API calls up to a depth with every memory access of the library monitored',
 'C30': 'explicit-state model checking of the compiled tool: every address and port argument over an alphabet around the limits, every resolver answer and every failing socket step',
 'C27': 'explicit-state model checking of the compiled library: every interleaving in which any sleeping system call may be interrupted by a signal handler', 'C07': MICRO, 'C08': MICRO, 'C09': MICRO, 'C10': MICRO, 'C11': KILL, 'C12': KILL, 'C14': FAULT,
 'C13': 'explicit-state model checking of the compiled wait/wake library: every operation sequence and every interleaving at system calls',
 'C16': MACRO, 'C17': 'explicit-state model checking of the compiled library with every truncation length and corrupted byte, in every reachable ring state up to a depth',
 'C18': 'explicit-state model checking of the compiled tool: every partial transfer and event arrival pattern up to a bound',
 'C19': 'explicit-state model checking of the compiled tool: every message arrival pattern up to a bound',
 'C20': 'explicit-state model checking of the compiled tool: every input sequence and partial or failing output up to a bound',
 'C24': 'explicit-state model checking of the compiled tool: every combination of size, mode and application-data arguments around the limits',
 'C25': 'explicit-state model checking of the compiled tool: every command line of the mount command over a small option alphabet, every directory state, every failing step',
 'C26': 'explicit-state model checking of the compiled tool: every command line up to a length over an alphabet of commands, options and files, and every way the delegate program can be missing or refused',
 'C21': MICRO, 'C22': MACRO, 'C23': 'explicit-state model checking with exhaustive power-failure points: every interleaving and every system call at which power can fail'}
NOTE = "Bounded but complete: every execution of the listed scenarios (see evidence) of the real sources, rebuilt from /repo, is explored up to the stated depth. Trusts the simulated kernel (files, fcntl locks, unix datagrams, epoll, /proc), which is cross-checked by replaying explored histories with the normally built library in real processes; visited states are merged by 64-bit fingerprints."
NOTE_TOOL = "Bounded but complete: every execution of the listed scenarios of shr-tool, rebuilt from /repo together with the library, is explored. Trusts the simulated kernel (TCP streams, epoll, terminals)."
m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': []}
for l in open('properties.jsonl'):
    p = json.loads(l)['id']
    if p in CHECKED:
        m['checks'].append({'property': p, 'quick_cmd': f'python3 check.py {p} quick', 'thorough_cmd': f'python3 check.py {p} thorough',
                            'technique': TECH.get(p, MACRO), 'level': 'model_checking', 'level_note': NOTE_TOOL if p in ('C18','C19','C20','C24','C25','C26','C30') else NOTE})
    else:
        m['not_applicable'].append({'property': p, 'reason': 'no check yet (work in progress)'})
json.dump(m, open('MANIFEST.json', 'w'), indent=1); open('MANIFEST.json','a').write('\n')
