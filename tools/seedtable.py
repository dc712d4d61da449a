"""rewrites the table of planted bugs in DESIGN.md (section 7) from seeded/*/meta.json"""
import glob, json, os, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
rows = ['| planted bug | in | what it breaks | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob('seeded/*')):
    m = json.load(open(d + '/meta.json'))
    fs = sorted({os.path.basename(f) for f in re.findall(r'^\+\+\+ b/(\S+)', open(d + '/patch.diff').read(), re.M)})
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(d), ', '.join(fs), m['what_it_breaks'].replace('|', '/'), m.get('caught_by', m['property'])))
s = open('DESIGN.md').read()
a, b = '<!-- seeds -->\n', '<!-- /seeds -->'
i, j = s.index(a) + len(a), s.index(b)
open('DESIGN.md', 'w').write(s[:i] + '\n'.join(rows) + '\n' + s[j:])
