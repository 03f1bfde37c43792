"""Table of the planted bugs for DESIGN.md."""
import json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
rows = ['| planted bug | property | needs | what it breaks |', '|---|---|---|---|']
for d in sorted((root / 'seeded').iterdir()):
    m = json.loads((d / 'meta.json').read_text())
    rows.append('| %s | %s | %s | %s |' % (d.name, m['property'], m['needs'], m['what_it_breaks']))
s = (root / 'DESIGN.md').read_text()
import re
tab = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
if 'SEEDTABLE' in s:
    s = s.replace('SEEDTABLE', tab)
else:
    s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: tab, s, flags=re.S)
(root / 'DESIGN.md').write_text(s)
