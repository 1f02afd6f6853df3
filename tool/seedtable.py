import json, os, re
d = '/verif/seeded'; rows = []
caught = json.load(open('/verif/tool/caught.json')) if os.path.exists('/verif/tool/caught.json') else {}
for b in sorted(os.listdir(d)):
    m = json.load(open('%s/%s/meta.json' % (d, b)))
    rows.append('| %s | %s | %s | %s |' % (b, m['property'], m['what_it_breaks'], caught.get(b, m['property'])))
s = open('/verif/DESIGN.md').read()
i = s.index('|----|----------|------|-----------|\n') + len('|----|----------|------|-----------|\n')
open('/verif/DESIGN.md', 'w').write(s[:i] + '\n'.join(rows) + '\n')
