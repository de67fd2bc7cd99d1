#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the check modules present."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'C01': 'reference-model monitor (independent canonicalisation model, warning oracle) over generated sample sets',
 'C02': 'reference-model monitor compared after every step of random operation histories',
 'C03': 'reference-model monitor compared after every step of random operation histories',
 'C04': 'operation-log monitor: formulas evaluated at random points after every step of random histories',
 'C05': 'argument and global-state snapshot monitor wrapped around public calls; aliasing probes',
 'C06': 'reference-model monitor over generated key sets, units, dtypes and samplings',
 'C07': 'differential monitor: loading pipeline against step-by-step composition on generated CSV files',
 'C08': 'double-precision DFT oracle observing both transforms on generated spectra and samplings',
 'C09': 'DFT oracle on grammar-generated formulas and every table entry, at random symbol values',
 'C10': 'commuting-square monitor: all conversion routes on one formula against direct evaluation',
 'C11': 'offline checker of save/load histories (also in new processes) and of merges',
 'C12': 'independent numeric SHG simulator observing every generator on random tensors and angles',
 'C13': 'independent numeric SHG simulator with DFT observing the full generate-and-contract pipeline',
 'C14': 'invariance and subspace-dimension monitor on every table entry and every group operation',
 'C15': 'einsum and Rodrigues oracles observing tensor algebra and rotations on generated inputs',
 'C16': 'linear-algebra (subspace equality) oracle observing particularize on generated tensors',
 'C17': 'structural and numeric oracle observing make_tensor_real/complex on generated tensors',
 'C18': 'ASan/UBSan build of the generated code through the compiler hook, guard-page vectors, threaded callers, numeric oracle',
 'C19': 'offline checker of save/overwrite/load/delete/fault histories against a register model',
 'C20': 'numeric oracle with compiler faults injected at every step and every missing-file pattern',
 'C21': 'independent objective, bounds and gradient oracle observing every fitting entry point',
 'C22': 'row-by-row oracle observing the pandas views of generated containers',
 'C23': 'figure-state monitor observing matplotlib after generated plotting calls',
 'C25': 'independent numeric SHG experiment simulator observing the chain from files to fitted parameters',
 'C26': 'offline comparison of result logs of the same calls in interpreters with different hash seeds and histories',
 'C24': 'concurrent stress of threads and processes with file-system event monitor, injected delays and faults',
}
LEVEL = {'C20': 'fault_enumeration'}
NOTE = {}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'harness', i.lower() + '.py')):
        checks.append(dict(
            property=i, quick_cmd=f'./check {i} --tier quick',
            thorough_cmd=f'./check {i} --tier thorough',
            evidence_file=f'evidence/{i}.json', technique=TECH[i],
            level=LEVEL.get(i, 'exploration'),
            level_note=NOTE.get(i, 'Held on the executions observed (counts in the evidence file); '
                                   'trusts numpy, sympy evaluation of single operations and the independent model in harness/.')))
    else:
        na.append(dict(property=i, reason='check not built yet'))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
         notes='Runtime monitoring of the unmodified public interface; no hooks are needed in /repo. '
               'Replay a violation with ./check <id> --replay <path>.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), len(na))
