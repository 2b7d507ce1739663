"""One worker: runs its share of every sub-check of a property."""
import importlib
import json
import os
import sys
import time
import traceback


def main():
  prop, tier, seed, shard, shards, out = sys.argv[1:7]
  replay = sys.argv[7] if len(sys.argv) > 7 else None
  seed, shard, shards = int(seed), int(shard), int(shards)
  os.environ['VERIF_SHARD'] = str(shard)
  import logging
  logging.disable(logging.WARNING)
  from vlib import core
  from vlib.main import known_findings
  mod = importlib.import_module('checks.' + prop.lower())
  ctx = core.Ctx(known_findings(prop))
  failure = None
  per_sub = {}
  t0 = time.time()
  guard = getattr(mod, 'TIME_GUARD', {'quick': 420, 'thorough': 5 * 3600})[tier]
  times = {}
  if replay:
    data = json.load(open(replay))
    sub = {s.name: s for s in mod.SUBS}[data['sub']]
    failure = core.run_sub(core.Sub(sub.name, None, sub.run, examples=(data['case'],)), ctx, 0, 0)
    per_sub[sub.name] = 1
  else:
    only = os.environ.get('VERIF_ONLY')
    for j, sub in enumerate(mod.SUBS):
      if only and sub.name not in only.split(','):
        continue
      n = sub.quick if tier == 'quick' else sub.thorough
      k = min(shards, sub.max_shards or shards)
      # Rotate so that sub-checks with few shards are spread over the workers.
      pos = (shard - j) % shards
      if pos >= k:
        continue
      share = n // k + (1 if pos < n % k else 0)
      ex = tuple(sub.examples)[pos::k]
      if share == 0 and not ex:
        continue
      before = ctx.evaluations
      ts = time.time()
      failure = core.run_sub(
          core.Sub(sub.name, sub.strategy, sub.run, examples=ex), ctx, share,
          core.sub_seed(seed, prop, sub.name, pos), deadline=t0 + guard,
          shrink_seconds=60.0 if tier == 'quick' else 300.0)
      per_sub[sub.name] = ctx.evaluations - before
      times[sub.name] = round(time.time() - ts, 1)
      if failure:
        break
  print(json.dumps({'times': times, 'total': time.time() - t0}))
  if os.environ.get('VERIF_TIMES'):
    with open('/tmp/verif_times.log', 'a') as f:
      f.write(f'{prop} shard{shard} {json.dumps(times)} cases {json.dumps(per_sub)}\n')
  res = {'failure': failure, 'evaluations': ctx.evaluations, 'nontrivial': sorted(ctx.nontrivial),
         'events': ctx.events, 'samples': [s for v in ctx.samples.values() for s in v], 'known': ctx.known, 'per_sub': per_sub}
  with open(out + '.part', 'w') as f:
    json.dump(res, f, default=str)
  os.replace(out + '.part', out)
  sys.stdout.flush()
  os._exit(0)


if __name__ == '__main__':
  main()
