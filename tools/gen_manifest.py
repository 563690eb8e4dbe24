#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import common, registry

NA = {
    'C37': 'Quantifies over real time and over what sudo, the kernel and the command do after a callback returns 0; no '
           'argument over this repository\'s source bounds that. The part that is decidable here (delivery failure makes the '
           'callback return 0) is C09.',
    'C38': 'Depends on the host\'s sudoers policy, group membership and the script\'s sudo rules, none of which is in the '
           'source. The decidable parts (socket owner and mode, self-approval check) are C04 and C33.',
}
NOTE = ('Abstract interpretation of the release-semantics MIR of /repo\'s current tree: all paths, inputs kept symbolic, '
        'joins at merges, loops by induction on recognised shapes. A violation is reported only for a named construct with '
        'concrete inputs that realise its path condition. Trusts rustc\'s MIR, the models of '
        'std/libc/log functions in engine/models.py and sudo\'s documented calling contract. Obligations the analysis '
        'cannot follow are listed as undecided in the evidence and are not claimed.')
SPECIAL = getattr(registry, 'NOTES', {})
TECH = getattr(registry, 'TECH', {})
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = {
    'version': 1,
    'setup_cmd': 'python3 check.py --setup',
    'checks': [{
        'property': i,
        'quick_cmd': 'python3 check.py %s' % i,
        'thorough_cmd': 'python3 check.py %s' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': TECH.get(i, 'static analysis: property simulation over rustc MIR (abstract interpretation with symbolic '
                              'inputs, finite truth tables)'),
        'level': 'other',
        'level_note': SPECIAL.get(i, NOTE),
    } for i in ids if i in registry.TABLE],
    'not_applicable': [{'property': i, 'reason': NA.get(i, 'Its static check is not built yet.')}
                       for i in ids if i not in registry.TABLE],
}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(m['checks']), 'checks,', len(m['not_applicable']), 'not applicable')
