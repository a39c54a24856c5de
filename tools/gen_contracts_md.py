"""Write CONTRACTS.md (every contract and what it proves) and the table of planted bugs in DESIGN.md."""
import glob
import importlib
import json
import os
import re
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import contracts.common as cc
out = ['# Contracts', '', 'Generated by tools/gen_contracts_md.py from contracts/*.py; functions under contract and obligations are in',
       'evidence/<id>.json after a run.', '']
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)
    try:
        m = importlib.import_module('contracts.' + p['id'].lower())
    except ImportError:
        continue
    out += ['## %s %s' % (p['id'], p['title']), '']
    head = (m.__doc__ or '').strip()
    if head:
        out += ['```', head, '```', '']
    for c in cc.CONTRACTS[p['id']]:
        text = ' '.join((c.proves or c.fn.__doc__ or '').split())
        out.append('* %s%s' % (c.name, ': ' + text if text else ''))
    out.append('')
    if getattr(m, 'ASSUMPTIONS', None):
        out += ['Assumed: ' + '; '.join(m.ASSUMPTIONS) + '.', '']
with open(os.path.join(HERE, 'CONTRACTS.md'), 'w') as f:
    f.write('\n'.join(out))
rows = ['| bug | needs |', '|---|---|']
metas = sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json')))
for f in metas:
    with open(f) as fh:
        d = json.load(fh)
    rows.append('| %s | %s |' % (os.path.basename(os.path.dirname(f)), d['needs']))
f = os.path.join(HERE, 'DESIGN.md')
s = open(f).read()
s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda m: '<!-- seeds -->\n%d bugs:\n\n%s\n<!-- /seeds -->' % (len(metas), '\n'.join(rows)), s, flags=re.S)
open(f, 'w').write(s)
