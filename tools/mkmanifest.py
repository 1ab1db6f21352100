#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': 'fault and progress monitor over random, hostile and deeply nested inputs (overflow checks, debug assertions, token-request budget, processor-time watchdog)',
 'C02': 'online tiling monitor on every answer of the real tokenizer',
 'C03': 'online position monitor: line and column recounted from the text',
 'C04': 'differential oracle: reference lexer, random and enumerated texts',
 'C05': 'differential oracle: reference lexer with independent values, random and enumerated literals',
 'C06': 'differential oracle: reference lexer, random and enumerated literals and comments',
 'C07': 'differential oracle: reference lexer decides which lexemes are malformed',
 'C08': 'metamorphic monitor: the same place read under other hints and other surroundings',
 'C09': 'differential oracle: independent recogniser of the grammar, generated modules and enumerated token sequences',
 'C10': 'differential oracle: independent recogniser of the grammar, damaged modules and enumerated token sequences',
 'C11': 'trace oracle: recorded token sequence against the one the grammar assigns',
 'C12': 'trace monitor: one pass, read to the end, rejected at the first error; unread text replaced',
 'C13': 'differential oracle over programs with line breaks and semicolons placed everywhere',
 'C14': 'metamorphic monitor: trivia inserted, removed, replaced; recorded tokens compared',
 'C15': 'differential oracle over contextual words in nested constructs',
 'C16': 'metamorphic monitor: accepted and rejected pieces put together',
 'C17': 'trace comparison: the same parse repeated, abandoned, nested, in concurrent threads with injected yields, and in fresh processes',
 'C18': 'trace comparison: stand-in token sources that deliver the same tokens differently, and recordings played back',
 'C19': 'cost monitor: instructions counted by callgrind and bytes allocated, at three sizes of each input shape',
 'C20': 'end-to-end monitor of the real command-line program: exit status, messages and files against the library on the same bytes, with odd names, pipes, links and closed streams',
 'C21': 'AddressSanitizer, Miri (borrows, data races, validity), unsafe-precondition checks, and a monitor on the address and validity of every token text',
}
NOTE = {}
ORDER = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
checks = []
for i in ORDER:
    if i not in T:
        continue
    checks.append({
        'property': i,
        'quick_cmd': './check ' + i,
        'thorough_cmd': './check %s thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': T[i],
        'level': 'exploration',
        'level_note': NOTE.get(i, 'Observed on every execution explored; inputs are sampled (and short ones enumerated), not exhausted.'),
    })
m = {
    'version': 1,
    'setup_cmd': './check build',
    'hooks': {
        'guard': 'cfg(jsparse_verif)',
        'enable': 'RUSTFLAGS="--cfg jsparse_verif" (set by /verif/harness/.cargo/config.toml)',
        'source_commits': ['807bf63855a0ad2c0d2d2d908dabeca8ccc59d8e'],
    },
    'checks': checks,
    'not_applicable': [{'property': i, 'reason': 'check not written yet'} for i in ORDER if i not in T],
}
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
