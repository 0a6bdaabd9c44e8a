#!/usr/bin/env python3
"""seedtool.py DEFS.py [id...]: makes seeded/<id>/ from definitions, confirms each in a scratch copy (stable tests pass, demo
passes on /repo and fails with the change) and runs the property's quick check against the scratch copy.
A definition file holds SEEDS = {id: dict(property=, edits=[(file, old, new)], demo=, needs=, breaks=)}."""
import json, os, shutil, subprocess, sys, tempfile, xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open('/opt/vp/BASELINE.json'))
PY = '/opt/venv/bin/python'


def make(sid, d, checks=None):
  out = os.path.join(HERE, 'seeded', sid)
  work = tempfile.mkdtemp(prefix='seed_')
  log = []
  try:
    shutil.copytree('/repo/src', work + '/dice_calc', ignore=shutil.ignore_patterns('__pycache__'))
    for sub in ('a', 'b'):
      shutil.copytree('/repo/src', f'{work}/{sub}/src', ignore=shutil.ignore_patterns('__pycache__'))
    for f, old, new in d['edits']:
      p = f'{work}/b/src/{f}'
      s = open(p).read()
      if s.count(old) != 1:
        return sid, f'EDIT MATCHES {s.count(old)} TIMES: {old[:60]!r}'
      s = s.replace(old, new)
      open(p, 'w').write(s)
      open(f'{work}/dice_calc/{f}', 'w').write(s)
    env = dict(os.environ, PYTHONPATH=work, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    r = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '--ignore=test/test_fetch.py', '-o', 'junit_family=xunit2', f'--junitxml={work}/j.xml', 'test'], cwd='/repo', env=env, capture_output=True, text=True)
    failed = [l for l in r.stdout.splitlines() if l.startswith(('FAILED', 'ERROR'))]
    bad = [c.get('classname') + '::' + c.get('name') for c in ET.parse(f'{work}/j.xml').iter('testcase') if any(x.tag in ('failure', 'error') for x in c)]
    st = set(BASE['stable'])
    ran = [c.get('classname') + '::' + c.get('name') for c in ET.parse(f'{work}/j.xml').iter('testcase')]
    bad = [b for b in bad if b in st] + [b for b in st if b not in ran]
    if bad:
      return sid, f'TESTS FAIL: {bad[:4]} ({len(bad)})'
    os.makedirs(out, exist_ok=True)
    diff = subprocess.run(['diff', '-ru', 'a', 'b'], cwd=work, capture_output=True, text=True).stdout
    diff = '\n'.join(l for l in diff.split('\n') if not l.startswith('diff -ru'))
    open(out + '/patch.diff', 'w').write(diff)
    open(out + '/demo.py', 'w').write(d['demo'].lstrip('\n'))
    open(out + '/demo.sh', 'w').write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(out + '/demo.sh', 0o755)
    json.dump(dict(property=d['property'], needs=d['needs'], what_it_breaks=d['breaks']), open(out + '/meta.json', 'w'), indent=1)
    ap = subprocess.run(['git', '-C', '/repo', 'apply', '--check', out + '/patch.diff'], capture_output=True, text=True)
    if ap.returncode:
      return sid, 'PATCH DOES NOT APPLY ' + ap.stderr
    env2 = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    good = subprocess.run(['bash', out + '/demo.sh'], cwd='/repo', env=env2, capture_output=True, text=True, timeout=300)
    mut = subprocess.run(['bash', out + '/demo.sh'], cwd='/repo', env=dict(env2, PYTHONPATH=work), capture_output=True, text=True, timeout=300)
    if good.returncode:
      shutil.rmtree(out)
      return sid, 'DEMO FAILS ON UNCHANGED: ' + (good.stdout + good.stderr)[-600:]
    if not mut.returncode:
      shutil.rmtree(out)
      return sid, 'DEMO PASSES WITH CHANGE'
    res = []
    for c in checks or [d['property']]:
      ev = work + '/ev'
      r = subprocess.run([HERE + '/check', c], cwd=HERE, env=dict(os.environ, MC_TARGET=work, VERIF_EVIDENCE_DIR=ev), capture_output=True, text=True, timeout=1800)
      caught = r.returncode == 1 and f'VIOLATION property={c} ' in r.stdout
      res.append(f'{c}:{"caught" if caught else "MISSED rc=%d" % r.returncode}')
      if caught:
        res.append(next((l.strip()[:150] for l in r.stdout.splitlines() if 'case' in l), ''))
      elif r.returncode:
        res.append((r.stdout + r.stderr)[-400:])
    return sid, ' '.join(res)
  finally:
    shutil.rmtree(work)


if __name__ == '__main__':
  ns = {}
  exec(open(sys.argv[1]).read(), ns)
  ids = [a for a in sys.argv[2:] if not a.startswith('--checks=')]
  checks = next((a[9:].split(',') for a in sys.argv if a.startswith('--checks=')), None)
  for sid, d in ns['SEEDS'].items():
    if not ids or sid in ids:
      print(*make(sid, d, checks), sep=': ', flush=True)
