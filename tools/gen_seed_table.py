# Rewrites section 4 of DESIGN.md from seeded/*/meta.json and tools/seed_catches.json ({seed id: [checks that report it]}).
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
catches = json.load(open(root + '/tools/seed_catches.json'))
rows = []
for d in sorted(glob.glob(root + '/seeded/*')):
    i = os.path.basename(d)
    m = json.load(open(d + '/meta.json'))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'], ', '.join(catches.get(i, [])) or 'none yet'))
t = open(root + '/DESIGN.md').read()
a = t.index('<!-- seeds -->'); b = t.index('<!-- /seeds -->')
t = t[:a] + '<!-- seeds -->\n| seed | property | what it breaks | reported by |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n' + t[b:]
open(root + '/DESIGN.md', 'w').write(t)
