#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
M = 'model-based property testing (rapid generators, shrinking)'
tech = {
 'C01': M + ': alignment functions against a reference aligner over independent Unicode data',
 'C02': M + ': text and escape sequences interleaved by construction, metamorphic (with and without sequences) and against the reference width',
 'C03': 'stateful property testing: histories of measurements, floods and settings changes against a fresh process / reference width',
 'C04': 'stateful property testing of width tracking against a running-maximum model, with injected getter errors',
 'C05': M + ': aligned rows and table width against the reference aligner',
 'C06': 'property testing with identity tokens and injected getter faults at every column and stage',
 'C07': M + ': header against a reference header',
 'C08': 'property testing: generated grids parsed back by unique cell tokens (round trip)',
 'C09': 'property testing: measured width of every grid line against the maximum, widths generated around every decision point',
 'C10': M + ': grid output against uniform or tight reference grids',
 'C11': 'metamorphic property testing: line counts across modes and widths, and against the number of items that fit',
 'C12': 'robustness fuzzing of all rendering calls over degenerate arguments with a CPU-time watchdog',
 'C13': 'property testing with generated writer faults (write index, byte budget, partial writes, error kinds)',
 'C14': 'stateful differential property testing: call sequences on one table against each call on a fresh table',
 'C15': 'generated concurrent histories under the race detector, results against the model and a sequential run',
 'C16': 'fuzzing of iterator and stepper on byte strings, with an exhaustive sweep of code points and class sequences (round trip)',
 'C17': 'differential fuzzing against a UAX #29 reference over independent Unicode 14 data, with an exhaustive sweep of code points and class sequences',
 'C18': 'metamorphic fuzzing: chained, fresh and mixed stepping, iterator and extended strings must agree, with a sweep',
 'C19': 'differential fuzzing of cluster widths against the documented rules over independent Unicode 14 data, with a sweep',
 'C20': 'exhaustive sweep of all code points in all settings plus random runes against independent UAX #11 data',
 'C21': M + ': string width against the sum over reference clusters',
 'C22': 'stateful property testing: histories of settings, lookup tables, copies and queries against the reference width, with a sweep of settings transitions',
 'C23': 'property testing: generated environments against the written locale rule',
 'C24': 'property testing: one fresh process per generated environment against the written rule',
 'C25': 'property testing: retained heap after long generated histories of distinct strings',
 'C26': 'stateful property testing of the column registry against a list model',
 'C27': 'stateful property testing of settings objects against a model of independent records and the reference width',
 'C29': 'differential property testing: generated tables, texts and characters answered by 32-bit, WebAssembly and appengine builds and by this one, with a sweep of all characters',
 'C30': 'property testing: one fresh process (WebAssembly, appengine, Windows code with a stand-in for the system calls) per generated environment against the written rule',
 'C31': 'generated concurrent renderings of one table under the race detector, results against each call on a table of its own',
 'C32': 'property testing of generated histories with finalizers: every object handed over must become collectable',
 'C28': 'metamorphic property testing: every rendering with and without inserted escape sequences',
}
exh = {
 'C16': ' The sweep is exhaustive for every code point in 21 contexts and every class sequence up to length 4.',
 'C17': ' The sweep is exhaustive for every code point in 21 contexts and every class sequence up to length 5.',
 'C19': ' The sweep is exhaustive for every code point in 21 contexts and every class sequence up to length 4.',
 'C20': ' Exhaustive over all code points and settings; only out-of-range values are sampled.',
 'C22': ' Exhaustive over all code points for every transition between settings; histories are sampled.',
 'C15': ' Schedules are those the Go scheduler produced; the race detector generalises over reorderings of them.',
 'C12': ' "Returns" means within 60 s of CPU time per case.',
 'C29': ' A platform whose programs do not run in the sandbox is left out (the evidence says so); 386 and js do run here.',
 'C30': ' Windows is represented by its source file compiled here with a stand-in for the system calls; if that file no longer compiles so, it is left out.',
 'C31': ' Schedules are those the Go scheduler produced; the race detector generalises over reorderings of them.',
 'C25': ' Growth below 6 bytes per distinct string would go unnoticed.',
}
checks = []
for i in range(1, 33):
    id = 'C%02d' % i
    checks.append(dict(property=id, quick_cmd='bash check.sh ' + id, thorough_cmd='VERIF_TIER=thorough bash check.sh ' + id,
      technique=tech[id], level='exploration',
      level_note='No counterexample among the generated cases; failures are shrunk and replayable.' + exh.get(id, '') + ' Trusts the Go toolchain and the oracle in harness/.'))
m = dict(version=1, setup_cmd='bash check.sh setup', checks=checks, not_applicable=[],
  notes='No hooks in /repo: everything is observed through the public API. Defects found were repaired in "fix:" commits, listed in known-findings.txt.')
with open(os.path.join(here, '..', 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
