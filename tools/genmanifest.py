#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.json, properties.jsonl and the reasons below."""
import json, os
top = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
checks = json.load(open(top + '/checks.json'))
props = [json.loads(l) for l in open(top + '/properties.jsonl')]
NA = {
}
out = dict(version=1, setup_cmd='cd gosx && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local CGO_ENABLED=0 go vet . >/dev/null 2>&1; true',
  checks=[], not_applicable=[],
  notes='No hooks in /repo: harnesses go in by overlay. bin/check builds the symbolic executor gosx from /verif/gosx and loads /repo\'s working tree on every run.')
out['setup_cmd'] = 'bin/setup'
for p in props:
    i = p['id']
    if i in checks:
        c = checks[i]
        note = 'Every path of the real code (Go SSA, regenerated from /repo on every run) within the bounds is executed symbolically and every assertion on it is decided for all values; counterexamples are replayed natively. Quick: %s. Thorough: %s. Outside: %s.' % (c['bounds']['quick'], c['bounds']['thorough'], c['outside'])
        if c['assumptions']:
            note += ' Assumes: ' + '; '.join(c['assumptions']) + '.'
        note += ' Trusts x/tools/go/ssa, the engine\'s models of regexp, unicode, x/text and encoding/json (paths are run natively as a check) and z3.'
        out['checks'].append(dict(property=i, quick_cmd='bin/check %s --tier quick' % i, thorough_cmd='bin/check %s --tier thorough' % i,
          evidence_file='evidence/%s.json' % i, technique='symbolic execution of the Go SSA of the real code, decided by an SMT solver (z3)',
          level='model_checking', level_note=note))
    else:
        out['not_applicable'].append(dict(property=i, reason=NA.get(i, 'Not claimed yet: its harness is not written.')))
json.dump(out, open(top + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
open(top + '/MANIFEST.json', 'a').write('\n')
