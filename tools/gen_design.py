"""Writes DESIGN.md from the rules table, the properties and the seeded bugs."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import registry
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
man = json.load(open(V + '/MANIFEST.json'))
na = {x['property']: x['reason'] for x in man['not_applicable']}
extra = json.load(open(V + '/tools/design_extra.json'))
out = [open(V + '/tools/design_head.md').read().rstrip(), '', '## Property by property', '']
for p in props:
    out.append('### %s. %s' % (p['id'], p['title']))
    out.append('')
    if p['id'] in na:
        out.append('Not applicable: ' + na[p['id']])
    else:
        out.append('Decided by: ' + ' '.join(registry.TABLE[p['id']][1].split()))
        if extra.get(p['id']):
            out.append('')
            out.append(extra[p['id']])
    out.append('')
out += [open(V + '/tools/design_mid.md').read().rstrip(), '']
out += ['## Planted bugs', '', 'Each is in `seeded/`; "caught by" is the check that reports it as a VIOLATION of its property.', '',
        '| seed | caught by | needs |', '|---|---|---|']
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m))
    out.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), d['property'] if not d.get('missed') else 'missed', ' '.join(d['needs'].replace('|', '/').split())))
out += ['', open(V + '/tools/design_tail.md').read().rstrip(), '']
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
print(len('\n'.join(out).splitlines()), 'lines')
