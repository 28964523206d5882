#!/usr/bin/env python3-vt
"""writes MANIFEST.json from properties.jsonl and engine/props.py"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'engine'))
sys.setrecursionlimit(20000)
import props
NA = {
 'C28': 'a computational-indistinguishability statement about every bounded adversary: no contract over program states expresses it, and it rests on DDH-type assumptions rather than on the code',
 'C29': 'a statement about probability distributions and about several runs of the process; function contracts speak about one execution. (The library never seeds gmp_randclass, see DESIGN.md: recorded there, outside what this family decides.)',
}
ids = [json.loads(l)['id'] for l in open(H + '/properties.jsonl')]
checks, na = [], []
for i in ids:
    if i in props.PROPS:
        p = props.PROPS[i]
        checks.append(dict(property=i, quick_cmd='./check.py --property %s --tier quick' % i,
                           thorough_cmd='./check.py --property %s --tier thorough' % i, level='proof',
                           technique='contract-based deductive verification of the LLVM IR compiled from /repo (weakest-precondition style VCs, function contracts, loop invariants; normaliser + z3)',
                           level_note=p.note()))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='./tools/setup.sh', checks=checks, not_applicable=na,
               notes='No hooks in /repo: the checks compile the unmodified sources. All 16 commits in /repo are repairs (known-findings.jsonl).'),
          open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
