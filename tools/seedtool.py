"""Writes and confirms planted bugs (scratch copies only; never touches /repo).

Usage: from a script: seed(id, prop, edits, needs, breaks, demo); see confirm().
"""
import json
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = '/tmp/mut'
DEMO_SH = '''#!/bin/bash
# Run with cwd = the repository. Exit 0: the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=$PWD:$here/stubs:/opt/vp/support PYTHONDONTWRITEBYTECODE=1
export JAX_PLATFORMS=cpu CUDA_VISIBLE_DEVICES= TF_CPP_MIN_LOG_LEVEL=3 NO_GCE_CHECK=true
%sexec /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, **kw):
  return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def copy(dst):
  shutil.rmtree(dst, ignore_errors=True)
  os.makedirs(os.path.dirname(dst), exist_ok=True)
  sh(f'cp -a /repo {dst}')


def stable_tests(repo):
  """Runs the repository's tests in the given copy; returns lost stable tests."""
  t = open('/opt/vp/test.sh').read()
  env = open('/opt/vp/support/env.sh').read().replace('/repo', repo)
  envf, testf, out = repo + '.env.sh', repo + '.test.sh', repo + '.out.json'
  open(envf, 'w').write(env)
  t = t.replace('/opt/vp/support/env.sh', envf).replace('cd /repo', 'cd ' + repo)
  t = t.replace('--rootdir=/repo', '--rootdir=' + repo).replace('/opt/vp/reports', '/tmp/mut/reports')
  open(testf, 'w').write(t)
  r = sh(f'bash {testf} {out}')
  try:
    got = json.load(open(out))
    passed = set(got['passed'])
    return sorted(set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - passed)
  except Exception as e:
    return ['no result: ' + repr(e) + r.stdout[-500:] + r.stderr[-500:]]
  finally:
    for f in (envf, testf, out):
      if os.path.exists(f):
        os.remove(f)


def seed(sid, prop, edits, needs, breaks, demo, stubs=False, env='', tests=True, check=True):
  d = os.path.join(VERIF, 'seeded', sid)
  repo = os.path.join(SCRATCH, 's_' + sid)
  copy(repo)
  tmpd = os.path.join(SCRATCH, 'd_' + sid)
  shutil.rmtree(tmpd, ignore_errors=True)
  os.makedirs(tmpd)
  open(os.path.join(tmpd, 'demo.py'), 'w').write(demo.lstrip('\n'))
  open(os.path.join(tmpd, 'demo.sh'), 'w').write(DEMO_SH % (f'export {env}\n' if env else ''))
  if stubs:
    shutil.copytree(os.path.join(VERIF, 'stubs'), os.path.join(tmpd, 'stubs'), ignore=shutil.ignore_patterns('__pycache__'))
  try:
    r0 = sh(f'bash {tmpd}/demo.sh', cwd=repo)
    if r0.returncode:
      print(f'{sid}: DEMO FAILS ON CLEAN TREE', (r0.stdout + r0.stderr)[-1500:]); return
    for f, old, new in edits:
      p = os.path.join(repo, f)
      s = open(p).read()
      if s.count(old) != 1:
        print(f'{sid}: {s.count(old)} matches in {f} of {old!r}'); return
      open(p, 'w').write(s.replace(old, new))
    r1 = sh(f'bash {tmpd}/demo.sh', cwd=repo)
    if not r1.returncode:
      print(f'{sid}: DEMO PASSES WITH THE BUG'); return
    last = (r1.stdout + r1.stderr).strip().splitlines()[-1][:200]
    if tests:
      lost = stable_tests(repo)
      if lost:
        print(f'{sid}: TESTS CATCH IT: {len(lost)} {lost[:3]}'); return
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(tmpd, d)
    diff = sh('git diff', cwd=repo).stdout
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    print(f'{sid}: kept (demo: {last})')
    if check:
      r = sh(f'./check.sh {prop} quick', cwd=VERIF, env=dict(os.environ, VERIF_REPO=repo))
      v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
      sub = [l for l in r.stdout.splitlines() if 'sub-check' in l]
      print(f'{sid}: check {prop} rc={r.returncode} {"CAUGHT" if v and r.returncode == 1 else "MISSED"} {sub[:1]}')
      if v:
        p = v[0].split('replay=')[1].strip()
        if os.path.exists(p):
          os.remove(p)
  finally:
    shutil.rmtree(repo, ignore_errors=True)
    shutil.rmtree(tmpd, ignore_errors=True)
    sys.stdout.flush()
