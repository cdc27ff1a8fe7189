#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SAN = 'Decided on the executions of each run under address and undefined-behaviour sanitizers; nothing is claimed about inputs not generated. '
C = {
 'C01': ('sanitized execution of hostile workloads and coverage-guided fuzzing', 'Decided on the executions of each run under ASan+UBSan with assertions, ASan+UBSan without assertions, and MSan; nothing is claimed about inputs not generated. Oracle: the sanitizers, the assertions of the library, and the driver.'),
 'C02': ('allocation ledger and lifetime monitors', SAN + 'Oracle: a ledger of every allocation the library makes, and dumps taken before and after inputs are destroyed.'),
 'C03': ('fault injection at every allocation', 'Every allocation point of each sampled call is failed, alone and with all later ones; which calls and inputs are sampled is random. Oracle: the documented failure result, the ledger, and the unfailed result.'),
 'C16': ('clone monitor: dumps compared, nodes disjoint, release in either order', SAN + 'Oracle: the dump of the original tree.'),
 'C22': ('reconstruction through the constructors, and refusal of each bad operand', SAN + 'Oracle: the dump of the parsed tree; NULL and EINVAL with the ledger unchanged.'),
 'C04': ('position oracle over recorded parses', SAN + 'Oracle: line/column/offset recomputed from the input bytes, and leaf ranges against leaf texts.'),
 'C05': ('structural monitor over every returned tree', SAN + 'Oracle: an independent table of accessors and documented kinds (harness/spec.txt).'),
 'C06': ('model-based generation, tree compared with the generated one', SAN + 'Oracle: the tree each document was generated from; the language model is the one the library documents.'),
 'C07': ('model-based expression generation, grouping compared with the generated one', SAN + 'Oracle: the operator tree printed with minimal or random parentheses.'),
 'C08': ('model-based generation of texts, values compared with what was written', SAN + 'Oracle: the text written into the document.'),
 'C09': ('metamorphic: one token sequence under many layouts', SAN + 'Oracle: the tree under the tightest layout, and the list of comments inserted.'),
 'C10': ('differential monitoring of all deliveries of an input', SAN + 'Oracle: agreement between deliveries.'),
 'C11': ('segment-trace checker, by construction and by reparsing alone', SAN + 'Oracle: boundaries known by construction; each segment alone in its place.'),
 'C12': ('independent recogniser, judging recorded parses', SAN + 'Oracle: a recogniser of the accepted language (vf/cypher.peg, vf/peg.py), and damage whose place is known by construction.'),
 'C13': ('error-report monitor, with each expectation put to the test', SAN + 'Oracle: the input around the position, the recogniser, and parses of the input continued as the report says.'),
 'C14': ('differential: segments and clauses against undamaged or lone parses, and the recogniser', SAN + 'Oracle: each segment parsed alone in its place, the undamaged statement, and the recogniser.'),
 'C15': ('trace checker over instrumented, failing streams', SAN + 'Oracle: bytes requested when a segment is delivered; the buffer parse of what was delivered.'),
 'C17': ('independent renderer, prints compared byte for byte; failing streams', SAN + 'Oracle: the print written from accessor values (vf/printed.py).'),
 'C18': ('history monitor: every return value and release compared with a map', SAN + 'Oracle: a map from (context, node) to value, kept in vf/checks/annotations.py.'),
 'C19': ('independent splitter, and agreement with the full parser', SAN + 'Oracle: a splitter written from the documented rules (vf/checks/quick.py); boundaries known by construction.'),
 'C20': ('race detection and outcome comparison under concurrent and reordered calls', 'Decided on the interleavings observed under TSan and ASan and the call orders tried; other schedules are not claimed. Oracle: the race detector, and the outcome of the same call alone.'),
 'C21': ('differential: cypher-lint runs against the library', 'Decided on the executions of each run, of an optimised and an address-sanitized build. Oracle: what the library reports and prints for the same input and options.'),
 'C24': ('work counters over scaled input families', 'Decided on the families and inputs of each run; work is counted in edges executed and bytes asked for, not time. Oracle: growth exponents between doublings, and the work on the same statement alone.'),
 'C23': ('metamorphic: configurations against the default', SAN + 'Oracle: the default parse after undoing shift, numbering or markers.'),
}
LEVEL = {'C03': 'fault_enumeration'}
def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        if i in C:
            t, n = C[i]
            checks.append(dict(property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='python3 check.py %s thorough' % i,
                               technique='runtime monitoring: ' + t, level=LEVEL.get(i, 'exploration'), level_note=n))
        else:
            na.append(dict(property=i, reason='The check for this property is still being built.'))
    m = dict(version=1, setup_cmd='python3 check.py --setup', hooks=dict(guard='none', enable='No hooks: the checks compile the sources of /repo as they are, with instrumentation added by the compiler and by symbol renaming at link time.', source_commits=[]),
             checks=checks, not_applicable=na)
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
main()
