"""Entry point: spawns workers, merges their results, writes the evidence."""
import hashlib
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF_DIR = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
QUICK_LIMIT = 780
THOROUGH_LIMIT = 6 * 3600


def known_findings(prop):
  """Lines 'KNOWN property=<id> signature=<sig> :: <what fails>'."""
  out = {}
  path = os.path.join(VERIF_DIR, 'known_findings.txt')
  if os.path.exists(path):
    for line in open(path):
      line = line.strip()
      if not line.startswith('known:'):
        continue
      head, _, text = line[len('known:'):].partition('::')
      fields = dict(f.split('=', 1) for f in head.split())
      if fields.get('property') == prop:
        out[fields['signature']] = text.strip()
  return out


def main():
  prop, tier = sys.argv[1], sys.argv[2]
  replay = None
  if '--replay' in sys.argv:
    replay = os.path.abspath(sys.argv[sys.argv.index('--replay') + 1])
  seed = int(os.environ.get('VERIF_SEED', '1'))
  t0 = time.time()
  meta_path = os.path.join(VERIF_DIR, 'checks', prop.lower() + '.meta.json')
  meta = json.load(open(meta_path)) if os.path.exists(meta_path) else {}
  shards = 1 if replay else int(os.environ.get('VERIF_SHARDS', meta.get('thorough_shards' if tier == 'thorough' else 'shards', meta.get('shards', 4))))
  tmp = tempfile.mkdtemp(prefix=f'verif_{prop}_')
  limit = QUICK_LIMIT if tier == 'quick' else THOROUGH_LIMIT
  rc = 2
  try:
    procs = []
    for i in range(shards):
      env = dict(os.environ)
      xla = meta.get('xla_flags', '')
      env['XLA_FLAGS'] = (xla + ' --xla_cpu_multi_thread_eigen=false --xla_backend_optimization_level=0 intra_op_parallelism_threads=1').strip()
      env['OMP_NUM_THREADS'] = env['OPENBLAS_NUM_THREADS'] = '1'
      env['TMPDIR'] = tmp
      out = os.path.join(tmp, f'shard{i}.json')
      cmd = [sys.executable, '-m', 'vlib.worker', prop, tier, str(seed), str(i), str(shards), out]
      if replay:
        cmd.append(replay)
      log = open(os.path.join(tmp, f'shard{i}.log'), 'w')
      procs.append((subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=env,
                                     cwd=VERIF_DIR, start_new_session=True), out, log))
    results = [None] * shards
    failed_at = None
    timed_out = False
    while True:
      pending = False
      for i, (p, out, _) in enumerate(procs):
        if results[i] is None:
          if p.poll() is None:
            pending = True
          else:
            try:
              results[i] = json.load(open(out))
            except Exception:  # pylint: disable=broad-except
              results[i] = {'crash': p.returncode}
            if results[i].get('failure') and failed_at is None:
              failed_at = time.time()
      if not pending:
        break
      if failed_at is not None and time.time() - failed_at > 10:
        break
      if time.time() - t0 > limit:
        timed_out = True
        break
      time.sleep(0.1)
    for p, _, _ in procs:
      if p.poll() is None:
        try:
          os.killpg(p.pid, 9)
        except ProcessLookupError:
          pass
        p.wait()
    rc = report(prop, tier, seed, meta, results, tmp, t0, timed_out, replay)
  finally:
    shutil.rmtree(tmp, ignore_errors=True)
  sys.exit(rc)


def report(prop, tier, seed, meta, results, tmp, t0, timed_out, replay):
  failures = [r['failure'] for r in results if r and r.get('failure')]
  real = [f for f in failures if not f['harness']]
  errors = [f for f in failures if f['harness']]
  crashes = [i for i, r in enumerate(results) if r and 'crash' in r]
  ok = [r for r in results if r and 'crash' not in r]
  known = known_findings(prop)
  hit = {}
  nontriv, events, samples, evals, per_sub = set(), {}, [], 0, {}
  rule = meta.get('rule', '')
  assumptions = list(meta.get('assumptions', []))
  for r in ok:
    evals += r['evaluations']
    nontriv.update(r['nontrivial'])
    for k, v in r['events'].items():
      events[k] = events.get(k, 0) + v
    for k, v in r['per_sub'].items():
      per_sub[k] = per_sub.get(k, 0) + v
    samples.extend(r['samples'])
    hit.update(r['known'])
  # At most two samples of each sub-check.
  kept, cnt = [], {}
  for s in samples:
    cnt[s['sub']] = cnt.get(s['sub'], 0) + 1
    if cnt[s['sub']] <= 2:
      kept.append(s)
  if not replay:
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': meta.get('level', 'exploration'),
        'coverage': {
            'evaluations': evals, 'distinct_nontrivial': len(nontriv), 'rule': rule,
            'samples': kept[:24], 'classes': dict(sorted(events.items())), 'cases_per_subcheck': per_sub,
            'workers': len(results),
        },
        'assumptions': assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(real),
    }
    os.makedirs(os.path.join(VERIF_DIR, 'evidence'), exist_ok=True)
    path = os.path.join(VERIF_DIR, 'evidence', prop + '.json')
    with open(path + '.part', 'w') as f:
      json.dump(ev, f, indent=1, default=str)
    os.replace(path + '.part', path)
  for sig in sorted(hit):
    print(f'KNOWN-FINDING: property={prop} {known.get(sig, hit[sig])}')
  if real:
    real.sort(key=lambda f: len(json.dumps(f['case'], default=str)))
    f = real[0]
    os.makedirs(os.path.join(VERIF_DIR, 'replays'), exist_ok=True)
    h = hashlib.sha1(json.dumps([f['sub'], f['case']], default=str).encode()).hexdigest()[:10]
    path = os.path.join(VERIF_DIR, 'replays', f'{prop}-{h}.json')
    with open(path, 'w') as fp:
      json.dump({'property': prop, **f}, fp, indent=1, default=str)
    print(f'[{prop}] sub-check {f["sub"]}: {f["error"][:1500]}')
    print(f'[{prop}] case: {json.dumps(f["case"], default=str)[:1500]}')
    print(f'VIOLATION property={prop} replay={path}')
    return 1
  if errors:
    print(f'[{prop}] HARNESS ERROR in {errors[0]["sub"]}: {errors[0]["error"]}\n{errors[0]["traceback"]}')
    return 2
  if crashes:
    for i in crashes[:2]:
      print(f'[{prop}] worker {i} crashed: {results[i]}')
      print(open(os.path.join(tmp, f'shard{i}.log')).read()[-4000:])
    return 2
  if timed_out:
    print(f'[{prop}] ran out of time')
    return 2
  print(f'[{prop}] held on everything explored: {evals} evaluations, {len(nontriv)} distinct non-trivial, {time.time()-t0:.1f}s')
  return 0


if __name__ == '__main__':
  main()
