#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed properties."""
import json, os, sys
os.chdir(os.path.dirname(os.path.abspath(__file__)) + '/..')
sys.path.insert(0, '.')
TR = 'It trusts TLC, the JSON encoding of the driver and that what the public calls return is what the user sees; histories and inputs beyond those enumerated or sampled are not covered.'
MH = 'TLA+: TLC model of the banded index refining an abstract map; TLC-generated and random histories replayed on the real index and judged by TLC trace validation'
NOTE = {}
def n(p, tech, note): NOTE[p] = (tech, note)
n('C01', MH, 'Small-scope exhaustive for the design (3 ids, both container kinds) and for all call histories of length 3 over a small alphabet in the code (length 4 thorough), sampled beyond. ' + TR)
n('C02', MH, 'As C01, with contents, signature map, bucket counts and removal results observed after every call and capacity management interleaved. ' + TR)
n('C03', MH, 'As C01, with every query form observed and judged against the same abstract answer; ties may come in any order. ' + TR)
n('C04', MH, 'The design model proves bulk = sequential in small scope; bulk calls with absent, present and repeated ids on 1 to 8 threads are judged by the sequential meaning. ' + TR)
n('C05', MH, 'The same histories are run on 20 combinations of hash type, id type and container, all judged by one specification. ' + TR)
n('C06', MH, 'Malformed signatures at every batch position and in every insertion form, in the middle of histories; the specification demands refusal and an unchanged index. ' + TR)
n('C07', MH, 'Centroids of random groups (repeats, unknown ids) judged by the band-majority definition. ' + TR)
SG = 'TLA+: laws of signatures stated in TLA+ and checked by TLC on a small-scope model of the computation; TLC-enumerated and random documents run through the real hashers and judged by TLC trace validation'
n('C08', SG, 'Signature values are abstracted to per-position ranks; all documents up to length 4 over 4 tokens (6 thorough), sampled beyond, three hashers, both token types, all widths. ' + TR)
n('C09', SG, 'All pairs of short sequences plus random ones, thresholds on and between the attainable fractions, four value types. ' + TR)
n('C10', SG, 'The law is TLA+; the table of exact band probabilities it quantifies over is computed with 60 digits outside TLC (no reals), differences below 1e-11 are left undecided. ' + TR)
n('C11', SG, 'Bits are observed individually; documents up to 70000 tokens, centroids up to 40 signatures, both widths and hashers. ' + TR)
n('C23', SG, 'Orders of 18-26 tokens under 1-4 seeds and up to 100 positions per session, three hashers, two token types, both widths; five key pairs for SimHash. Chance collisions would show as a fixed-seed false alarm and have not. ' + TR)
EN = 'TLA+: the counting theorems behind the estimates checked by TLC over every hash function of a small universe; measurements of the real hashers on sampled documents and keys judged by TLC trace validation against bounds stated in TLA+'
n('C22', EN, 'About 14,000 pairs of documents per quick run over 150 vocabularies of 10-4000 tokens. Bounds are several times what was observed in 1.5 million pairs; the narrow hashers and unions below 8 tokens are judged on averages only, because low bits of linear functions of close hash values really are correlated. ' + TR)
n('C24', EN, '60 vocabularies of 400-1500 tokens with counts for every bit and pair of bits, 6000 pairs of documents under random keys per quick run. ' + TR)
n('C12', 'TLA+: TLC model of the permuted block tables refining exact Hamming search; TLC-enumerated bit placements and random histories replayed on the real index and judged by TLC trace validation',
  'The model proves recall for all signatures of a few bits; in the code every placement of up to k differing bits over the blocks for small layouts, and random layouts up to 128 bits. ' + TR)
TX = 'TLA+: the scanners as state machines checked by TLC against declarative n-grams and runs; TLC-enumerated and random texts run through the real iterators and judged by TLC trace validation'
n('C13', TX, 'All texts up to length 4 (6 thorough) over the four encoded widths with every range, and random texts up to 60 characters with ranges up to 9..15; every str, slice, boxed and fixed-size form. ' + TR)
n('C14', TX, 'Every ASCII, Latin and punctuation character between, before, after words and doubled; all texts up to length 4 (5 thorough) over six character classes; random texts. ' + TR)
n('C15', 'TLA+: TLC model of serial clustering over all small similarity relations; TLC-enumerated and random relations run on the real clusterer, several runs each, judged by TLC trace validation',
  'All symmetric relations on 4 points with all orders and minimum sizes 1-3 (a seed-dependent part in the quick tier), random relations up to 25 points, real MinHash similarities. ' + TR)
CP = 'TLA+: TLC model of the lock-free protocol, one action per atomic operation, safety and termination; interleavings generated by TLC and by random, priority and preemption schedules forced on the real clusterer through instrumented atomics, outcomes judged by TLC trace validation'
n('C16', CP, 'Model: 2 threads and 3 points over all symmetric relations (2x4 and 3x3 thorough). Orderings: knowledge model of release and acquire (2 threads and 3 points; 3x3 thorough). Code: forced sequentially consistent interleavings at the atomic operations, plus sampled schedules of Rust\'s memory model inside Miri (7 small shapes x 40). Use after free is observed at the instrumented cluster state and by Miri. ' + TR)
n('C17', CP, 'As C16, with termination under weak fairness in the model, a step bound in the code, thread counts above the number of points, empty input, and the exact greedy result on one thread. ' + TR)
n('C18', 'TLA+: TLC model of identities and batches of the string index; line splitting and UTF-8 validity specified on bytes; TLC-enumerated files and load sequences and random ones run on the real index, judged by TLC trace validation',
  'All files of up to 3 pieces (words, invalid bytes, line ends) and up to 3 loads or insertions (a seed-dependent part in the quick tier), random histories, missing files and directories; which documents are near-duplicates is taken from the signatures the library gives their texts (C08). ' + TR)
PY = 'TLA+: TLC model of analyzer selection, folding and batching refining a map from ids to token sets; TLC-enumerated configurations and histories and random ones run on the real Python package (built from the tree), judged by TLC trace validation that derives n-grams and signatures itself'
n('C19', PY, 'All configurations of hash size, container, analyzer, folding and seven ranges with all histories of two calls (a seed-dependent part in the quick tier; three calls thorough), random ones beyond; batches of 0-5 and 99-130. Signatures of single tokens are taken from the library. ' + TR)
n('C20', PY, 'All configurations of hash size, analyzer, folding and range with all histories of two calls, thirteen block layouts, native bulk insertion, random histories. Signatures of single tokens are taken from the library. ' + TR)
n('C21', 'TLA+: the constructors as a TLC model against the declared validity; all combinations of argument values on both sides of every limit, enumerated by TLC, run on the real Python package and judged by TLC',
  'About 95,000 argument combinations (a third of the MinHash ones in the quick tier); layouts with more than a few thousand block tables are not built. ' + TR)
n('C25', 'TLA+: TLC model of several indexes and threads with six ways of remembering intermediate results, of which the unsafe ones are refuted; TLC-enumerated histories of two indexes and random concurrent use of several real indexes, judged per index by TLC trace validation',
  'Rust: 2-4 indexes of one type with common ids and signatures, 1-8 threads behind read-write locks, bursts of simultaneous queries. Real threads are scheduled by the operating system, so a race is found with high probability only. ' + TR)
import importlib.util
spec = importlib.util.spec_from_file_location('chk', 'check.py'); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
props = [json.loads(l)['id'] for l in open('properties.jsonl')]
checks = []
for p in props:
    if p in m.CHECKS and p in NOTE:
        checks.append(dict(property=p, quick_cmd='python3 check.py %s --tier quick' % p, thorough_cmd='python3 check.py %s --tier thorough' % p,
                           evidence_file='evidence/%s.json' % p, technique=NOTE[p][0], level='model_checking', level_note=NOTE[p][1]))
NA = {}
na = [dict(property=p, reason=NA.get(p, 'check under construction')) for p in props if p not in [c['property'] for c in checks]]
hooks = dict(guard='cfg(gaoya_verif)', enable="RUSTFLAGS='--cfg gaoya_verif' (set by lib/core.py for the drivers that need it)", source_commits=[l.strip() for l in open('tools/hook_commits.txt')] if os.path.exists('tools/hook_commits.txt') else [])
json.dump(dict(version=1, setup_cmd='bash tools/setup.sh', hooks=hooks, checks=checks, not_applicable=na,
               notes='All checks: TLA+ specifications in spec/ checked with TLC, bound to the code by generated behaviours and trace validation; see DESIGN.md.'), open('MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed;', [x['property'] for x in na], 'not')
