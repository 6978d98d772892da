#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the list of built checks."""
import json, re
built = re.search(r'pub fn all\(\).*?&\[(.*?)\]', open('/verif/sim/src/checks/mod.rs').read(), re.S).group(1)
built = re.findall(r'"(C\d\d)"', built)
props = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
NOTE = {
 'C01': 'Seeded search: every response line a client receives is matched with the lines it sent (order, id, error or not, none missing at quiescence, none extra).',
 'C02': 'Seeded search: server panic, abort, hang or exit, dropped or unanswered well-behaved clients and missing notifications at quiescence are violations, whatever the faulty clients did.',
 'C03': 'Seeded search: marked notifications are followed from the request that caused them to the connections they arrive on (addressee, once, order, whole lines, identity first).',
 'C04': 'Seeded search against a reference model of views, buffers and selections: the last view each client was sent must be the one some order of the concurrent requests explains.',
 'C05': 'Seeded search against a reference text editor on grapheme clusters, over sequences and interleavings of moves, extensions and deletions of several clients.',
 'C06': 'Seeded search against a reference model of the view stack: every response and every displayed view must be explained by some order of the concurrent requests.',
 'C07': 'Seeded search over file contents, short and interrupted reads and failing opens, reads and stats: displayed text is compared with the bytes on the simulated disk.',
 'C08': 'Seeded search over edits, outside changes, clock jumps, coarse time stamps and failing reads: displayed text is compared with disk or with the unchanged buffer.',
 'C09': 'Seeded search over joins, quits, closes, resets and failing clean-up calls: server life, exit status, session directory and remaining connections are judged.',
 'C10': 'Seeded search over concurrent starters, crashed predecessors, stale sockets and failing spawn, bind, mkdir: after reported success a client must connect to one server.',
 'C11': 'Seeded search with a scripted server: library state and events are compared with a fold over the messages sent; requests read back from the wire.',
 'C12': 'Seeded search over interleaved menu updates and menu actions: every menu-select on the wire must be explained by a linearisation of the calls.',
 'C13': 'Seeded search against a reference model of menus: entries, order and effect of choices, with several clients using menus at once.',
 'C14': 'Seeded search against a reference model of the key modes: batching and interleaving of keys may not change effects; status lines are checked.',
 'C15': 'Seeded search against a reference model of scripts: effects, errors and order of exec requests of several clients.',
 'C16': 'Seeded search over standard input chunks, end, read errors and a slow reader of standard output of the real standalone program.',
 'C17': 'Seeded search with a scripted server and scripted standard input and output around the real bridge program.',
 'C19': 'Seeded search over lists of scripts and read faults against a reference model of the editor: exit status and what the scripts report of the editor must be explained.',
 'C22': 'Seeded search over plain names and addresses in every spelling, used at once by servers, daemons, json clients, library users and clients with their own reading of the name: who meets whom, what clients are told, what is listed.',
 'C24': 'Seeded search over keys, messages, terminal sizes and faults around the real terminal client with a scripted or the real server; some merge of keys and arrivals must explain the requests.',
 'C25': 'Seeded search as for C24; the bytes written are interpreted by a small terminal emulator and the screen at every rest compared with the state told.',
 'C26': 'Seeded search over waves of clients coming and leaving in every way with failing accepts and file faults; open connections, descriptors, tasks and threads of the server are counted at every rest.',
 'C18': 'Seeded search through the real C functions (linked into the simulation) with a scripted server.',
}
NA = {
 'C20': 'pure function of one value: no schedule, clock, I/O or fault can change its outcome, so simulation adds nothing over enumerating inputs (keys are exercised through C14)',
 'C21': 'pure sequential data structure without I/O, time or concurrency; the operations users can reach (append, delete, reload) are decided through C05 and C08; undo and insert are reachable by no request',
 'C23': 'build-time code generation, deterministic and sequential; nothing to simulate (a mismatch for the fields C18 reads is seen by C18)',
}
checks = [dict(property=c, quick_cmd=f'./check.sh {c} --tier quick', thorough_cmd=f'./check.sh {c} --tier thorough',
    evidence_file=f'evidence/{c}.json', technique='deterministic simulation with fault injection, seeded schedule and fault search',
    level='exploration', level_note=NOTE[c]+' Sampling, not proof; trusts the simulated network, executor and system calls (DESIGN.md).') for c in built]
na = [dict(property=p, reason=NA.get(p, 'no check built yet')) for p in props if p not in built]
m = dict(version=1, setup_cmd='./check.sh build',
    hooks=dict(guard='none', enable='No hooks in /repo: the seams are the async-net and async-executor crates (replaced through [patch] in /verif/sim), libc symbols (interposed in the simulator binary) and compiler-inserted basic-block callbacks (rustc-wrap.sh).', source_commits=[]),
    checks=checks, not_applicable=na,
    notes='One binary (sim/target/release/cedsim) decides all properties; check.sh rebuilds it from /repo. Replay: sim/target/release/cedsim replay FILE -v.')
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1); open('/verif/MANIFEST.json', 'a').write('\n')
