#!/usr/bin/env python3
"""Rewrites the section "Planted bugs" at the end of DESIGN.md from seeded/*/meta.json
and from the notes below on the mutants tried in scratch copies."""
import json,glob,os
base=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p=base+'/DESIGN.md'; s=open(p).read()
mark='## Planted bugs\n'
if mark in s: s=s[:s.index(mark)]
o=[mark,'\n','''Each lies in `seeded/<id>` with its demonstration. Each was run against the quick check of its own
property with `VERIF_SEED=1`, and is caught by it; the reports are those of the workload named in
the evidence file. (S08 has none: a demonstration would need the Aqua interpreter of the harness.)

| bug | caught by | needs |
|---|---|---|
''']
for d in sorted(glob.glob(base+'/seeded/*')):
    m=json.load(open(d+'/meta.json'))
    o.append(f"| {os.path.basename(d)} | {m['property']} | {m['needs']} - {m['what_it_breaks']} |\n")
o.append('''
Besides, some 230 further changes were made in scratch copies, in seven rounds, and run
against one to three properties each: single-line mutants of every file in scope, limits that
only large inputs hit (256 issuers, 200 revocations of one key, 100 roots, 4096 queued chains, 1 MiB
messages, chains of 255), caches keyed by too little (verified signatures, last weight), truncated
integers, swapped arguments, dropped errors at single call sites, weakened comparisons
(prefix, case, first of several), wall-clock dependence, journal modes, poor randomness, and changes
of the Aqua library, the start-up script and the shipped data. All that change behaviour covered by a
property are caught by the property they break; where one was missed at first, the
workload was widened (this is where crowds, floods, twin keys, walks offered as certificates, odd owners, refusals in
every field, paths of tetraplets, doubled signatures and very long messages come from). Not caught, and rightly so:
changes that turned out to keep the behaviour (for example write-ahead logging, a search that stops
extending behind a root's own trust), and a constant factor of work within G10's bound.

Behaviour-preserving rewrites (depth-first instead of breadth-first search, vectors for sets, checks reordered, `windows`
for index loops, several statements instead of one in the storage, transactions around updates,
write-ahead logging, tables without row ids and with a further index, renamed variables and inverted conditions in Aqua and AIR) leave
the checks quiet.
''')
open(p,'w').write(s.rstrip('\n')+'\n\n'+''.join(o))
