#!/usr/bin/env python3
"""seedtable.py [id...]: runs the check of each planted bug's property against a scratch
copy of /repo with the bug, and rewrites the table in DESIGN.md (development only)."""
import json, os, re, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')
mark, end = '<!-- SEEDED -->', '<!-- /SEEDED -->'
doc = open(V + '/DESIGN.md').read()
head, _, rest = doc.partition(mark)
old, _, tail = rest.partition(end)
rows = {m.group(1): m.group(0) for m in re.finditer(r'^\| ([a-z0-9-]+) \|.*$', old, re.M)}
want = sys.argv[1:]
for i in sorted(os.listdir(S)):
    if want and i not in want: continue
    meta = json.load(open(f'{S}/{i}/meta.json')); p = meta['property']
    tmp = tempfile.mkdtemp(prefix='seedtable'); d = tmp + '/repo'
    subprocess.run(['git', 'clone', '-q', '/repo', d], check=True)
    subprocess.run(['git', '-C', d, 'apply', f'{S}/{i}/patch.diff'], check=True)
    r = subprocess.run(['python3', 'check.py', p], cwd=V, capture_output=True, text=True,
                       env=dict(os.environ, VERIF_REPO=d, VERIF_SEED='1', VERIF_TIER='quick'))
    shutil.rmtree(tmp)
    keys = sorted({re.sub(r'_', ':', m, count=1) for m in re.findall(r'replay=\S*/%s-(\S+)\.json' % p, r.stdout)})
    by = '%s: %s' % (p, ', '.join(f'`{k[:60]}`' for k in keys[:3]) + (' …' if len(keys) > 3 else '')) if r.returncode == 1 else '**missed**'
    rows[i] = f"| {i} | {p} | {meta['what_it_breaks']} | {meta['needs']} | {by} |"
    print(i, p, r.returncode, keys[:3], flush=True)
rows = {k: v for k, v in rows.items() if os.path.isdir(f'{S}/{k}')}
t = '| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n' + '\n'.join(rows[k] for k in sorted(rows))
open(V + '/DESIGN.md', 'w').write(head + mark + '\n' + t + '\n' + end + tail if tail else head + mark + '\n' + t + '\n' + end + '\n')
