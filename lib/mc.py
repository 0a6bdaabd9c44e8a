"""Bounded-exhaustive explorer: runs enumeration jobs against the real dice_calc, compares every execution with the
reference model, counts what was covered, writes evidence and replay files.

A check module (checks/cXX.py) defines PID, META and jobs(tier) -> [Job].  Every job runs in its own forked child of a
parent that has imported dice_calc and executed nothing of it, so each job starts from the pristine library state and is
deterministic.  Nothing is sampled: a job enumerates its whole bounded space in a fixed order.
"""
import hashlib
import importlib
import json
import os
import pickle
import resource
import selectors
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if os.environ.get('MC_TARGET'):  # development only, see target.py
  sys.path.insert(0, os.environ['MC_TARGET'])
EVID = os.environ.get('VERIF_EVIDENCE_DIR') or os.path.join(VERIF, 'evidence')
KNOWN_FILE = os.path.join(VERIF, 'known_findings.json')
JOB_TIMEOUT = {'quick': 240, 'thorough': 3000}
CHECK_BUDGET = {'quick': 780, 'thorough': 6 * 3600}


PID = ['']  # property being checked


class StopJob(Exception):
  pass


class CaseTimeout(BaseException):
  pass


def h64(x):
  return int.from_bytes(hashlib.blake2b(x.encode('utf-8', 'surrogatepass') if isinstance(x, str) else x, digest_size=8).digest(), 'big')


class Job:
  def __init__(self, name, fn, *args, **kw):
    self.name, self.fn, self.args, self.kw = name, fn, args, kw


class Ctx:
  """Collects what one job covered."""
  MAX_VIOL = 3

  def __init__(self, job_name, known_ids, stop_at=None):
    self.job = job_name
    self.pid = PID[0]
    self.evaluations = 0
    self.transitions = 0
    self.traces = 0
    self.states = set()
    self.outcomes = set()
    self.samples = []
    self.violations = []
    self.known = {}
    self.known_ids = known_ids
    self.counters = {}
    self.exhaustive = True

  # -- bookkeeping
  def state(self, key):
    """Remember a visited state (hashed canonical form); True if it is new."""
    k = h64(key if isinstance(key, (str, bytes)) else repr(key))
    if k in self.states:
      return False
    self.states.add(k)
    return True

  def outcome(self, key):
    self.outcomes.add(h64(key if isinstance(key, (str, bytes)) else repr(key)))

  def count(self, name, n=1):
    self.counters[name] = self.counters.get(name, 0) + n

  def sample(self, s):
    if len(self.samples) < 3:
      self.samples.append(s)

  def violation(self, case, expected, observed, known=None):
    if known is not None and known in self.known_ids:
      self.known.setdefault(known, [0, f'{case}'])[0] += 1
      return
    self.violations.append({'job': self.job, 'evaluation': self.evaluations, 'case': str(case), 'expected': clip(expected), 'observed': clip(observed)})
    if len(self.violations) >= self.MAX_VIOL:
      raise StopJob()

  # -- one explored execution
  def compare(self, case, run, expected, known=None, limit=60):
    """Execute run() on the real code (exceptions become observations), compare with the model's expected observation."""
    self.evaluations += 1
    self.transitions += 1
    obs = observe(run, limit)
    self.state(repr(obs))
    self.outcome(obs)
    if obs != expected:
      self.violation(case, expected, obs, known(obs) if known else None)
      return False
    if len(self.samples) < 3:
      self.sample(f'{case} -> {clip(obs, 200)}')
    return True


def clip(x, n=1500):
  s = x if isinstance(x, str) else repr(x)
  return s if len(s) <= n else s[:n] + f'... ({len(s)} chars)'


def _on_alarm(sig, frame):
  raise CaseTimeout()


def observe(run, limit=60):
  if limit:  # 0: nested in another observation, which has the clock
    signal.setitimer(signal.ITIMER_REAL, limit)
  try:
    return run()
  except CaseTimeout:
    if not limit:
      raise
    return ('timeout', f'no result within {limit}s')
  except StopJob:
    raise
  except MemoryError:
    return ('raised', 'MemoryError')
  except Exception as e:
    return ('raised', type(e).__name__)
  finally:
    if limit:
      signal.setitimer(signal.ITIMER_REAL, 0)


def load_known(pid):
  """Listed (unrepaired) findings of this property: id -> text.  "fixed" entries suppress nothing."""
  with open(KNOWN_FILE) as f:
    data = json.load(f)
  return {e['id']: e['what'] for e in data['findings'] if e['property'] == pid}


def child_main(job, known_ids, wfd, mem):
  code = 0
  try:
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 1)
    if not os.environ.get('MC_DEBUG'):
      os.dup2(devnull, 2)
    if mem:
      resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    signal.signal(signal.SIGALRM, _on_alarm)
    ctx = Ctx(job.name, known_ids)
    t0 = time.time()
    err = None
    try:
      job.fn(ctx, *job.args, **job.kw)
    except StopJob:
      pass
    except (Exception, CaseTimeout):
      err = traceback.format_exc()
    res = dict(name=job.name, evaluations=ctx.evaluations, transitions=ctx.transitions, traces=ctx.traces, states=ctx.states, outcomes=ctx.outcomes,
               samples=ctx.samples, violations=ctx.violations, known=ctx.known, counters=ctx.counters, exhaustive=ctx.exhaustive, err=err, wall=time.time() - t0)
    data = pickle.dumps(res, protocol=4)
    with os.fdopen(wfd, 'wb') as f:
      f.write(data)
  except BaseException:
    traceback.print_exc()
    code = 3
  finally:
    os._exit(code)


def run_jobs(jobs, known_ids, tier, nproc, stop_on_violation=True):
  sel = selectors.DefaultSelector()
  pending = list(enumerate(jobs))
  running, results = {}, {}
  start = time.time()
  stop = False
  mem = int(3.5 * 2**30)
  while (pending and not stop) or running:
    while pending and not stop and len(running) < nproc:
      i, job = pending.pop(0)
      rfd, wfd = os.pipe()
      sys.stdout.flush(); sys.stderr.flush()
      pid = os.fork()
      if pid == 0:
        sel.close()
        os.close(rfd)
        os.setpgid(0, 0)
        child_main(job, known_ids, wfd, mem)
      os.close(wfd)
      running[rfd] = [i, pid, time.time(), [], job]
      sel.register(rfd, selectors.EVENT_READ)
    for key, _ in sel.select(timeout=1.0):
      rfd = key.fd
      ent = running[rfd]
      chunk = os.read(rfd, 1 << 20)
      if chunk:
        ent[3].append(chunk)
        continue
      sel.unregister(rfd)
      os.close(rfd)
      os.waitpid(ent[1], 0)
      del running[rfd]
      try:
        res = pickle.loads(b''.join(ent[3]))
      except Exception:
        res = dict(name=ent[4].name, err='job process died without a result', died=True, evaluations=0, transitions=0, traces=0, states=set(), outcomes=set(), samples=[], violations=[], known={}, counters={}, exhaustive=False, wall=time.time() - ent[2])
      results[ent[0]] = res
      if res['violations'] and stop_on_violation:
        stop = True
    now = time.time()
    for rfd, ent in list(running.items()):
      if now - ent[2] > JOB_TIMEOUT[tier] or now - start > CHECK_BUDGET[tier]:
        try:
          os.killpg(ent[1], signal.SIGKILL)
        except ProcessLookupError:
          pass
        try:
          os.kill(ent[1], signal.SIGKILL)
        except ProcessLookupError:
          pass
        ent[4].killed = True
    if stop and running:
      # let the running ones finish for a moment, then end them (a violation is already known)
      if not hasattr(run_jobs, '_t'):
        run_jobs._t = now
      if now - run_jobs._t > 20:
        for ent in running.values():
          try:
            os.killpg(ent[1], signal.SIGKILL)
          except ProcessLookupError:
            pass
  return results


def main(argv):
  pid = argv[0].upper()
  PID[0] = pid
  tier = os.environ.get('VERIF_TIER', 'quick')
  if '--thorough' in argv:
    tier = 'thorough'
  if '--quick' in argv:
    tier = 'quick'
  seed = int(os.environ.get('VERIF_SEED', '1') or '1')
  only = None
  replay = None
  for i, a in enumerate(argv):
    if a == '--job':
      only = argv[i + 1]
    if a == '--replay':
      replay = argv[i + 1]
  t0 = time.time()
  sys.path.insert(0, os.path.join(VERIF, 'lib'))
  sys.path.insert(0, os.path.join(VERIF, 'checks'))
  mod = importlib.import_module(pid.lower())
  known = load_known(pid)
  if replay:
    with open(replay) as f:
      rep = json.load(f)
    only = rep['job']
    tier = rep.get('tier', tier)
  try:
    jobs = mod.jobs(tier)
  except Exception:
    # the harness could not even be set up on this tree (import of the package failed, or a value of the alphabet could
    # not be built): behaviour the property covers is broken
    tb = traceback.format_exc()
    return finish(pid, tier, seed, t0, mod, {}, [dict(job='setup', evaluation=0, case='building the alphabet', expected='no error', observed=clip(tb, 3000))], known, 0)
  if only:
    jobs = [j for j in jobs if j.name == only]
  nproc = int(os.environ.get('MC_PROCS', '0')) or min(8, os.cpu_count() or 1)
  results = run_jobs(jobs, set(known), tier, nproc)
  violations = []
  errors = []
  for i in sorted(results):
    violations += results[i]['violations']
  for i in sorted(results):
    r = results[i]
    if r['err'] and not r['violations']:
      j = jobs[i]
      if r.get('died') and not violations:
        # killed: time or memory limit; the generous limit is many times what the unchanged tree needs
        violations.append(dict(job=r['name'], evaluation=0, case=f'job {r["name"]} ended abnormally after {r["wall"]:.0f}s (time or memory limit, or interpreter crash)', expected='termination', observed='none'))
      elif not r.get('died'):
        errors.append((r['name'], r['err']))
  if errors and not violations:
    # an exception escaped from the harness code around the library (not from a compared call): report it, it can only
    # happen when a library call the harness itself relies on fails
    n, e = errors[0]
    violations.append(dict(job=n, evaluation=0, case='a library call made while driving the exploration failed', expected='no error', observed=clip(e, 3000)))
  if replay:
    for v in violations[:1]:
      print(json.dumps(v, indent=1, ensure_ascii=True))
    print('replayed:', 'violation reproduced' if violations else 'no violation')
    return 1 if violations else 0
  return finish(pid, tier, seed, t0, mod, results, violations, known, len(jobs))


def finish(pid, tier, seed, t0, mod, results, violations, known, njobs):
  states, outcomes = set(), set()
  tot = dict(evaluations=0, transitions=0, traces=0)
  counters, samples, known_seen = {}, [], {}
  complete = len(results) == njobs
  for i in sorted(results):
    r = results[i]
    states |= r['states']
    outcomes |= r['outcomes']
    for k in tot:
      tot[k] += r[k]
    for k, v in r['counters'].items():
      counters[k] = counters.get(k, 0) + v
    for k, (n, c) in r['known'].items():
      known_seen.setdefault(k, [0, c])[0] += n
    complete = complete and r['exhaustive'] and not r['err']
    if r['samples']:
      samples.append({'job': r['name'], 'cases': r['samples'][:3]})
  meta = mod.META
  if len(samples) > 12:
    step = len(samples) / 12
    samples = [samples[int(i * step)] for i in range(12)]
  cov = dict(states=len(states), transitions=tot['transitions'], traces_validated_against_impl=tot['traces'] or tot['evaluations'], evaluations=tot['evaluations'],
             distinct_outcomes=len(outcomes), jobs=len(results), samples=samples, exhaustive=bool(complete and not violations), rule=meta['rule'], bounds=meta['bounds'])
  if counters:
    cov['counters'] = counters
  slow = sorted(((round(r['wall'], 1), r['name']) for r in results.values()), reverse=True)[:3]
  cov['slowest_jobs'] = slow
  ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov, assumptions=meta.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(violations))
  os.makedirs(EVID, exist_ok=True)
  for k, (n, c) in sorted(known_seen.items()):
    print(f'KNOWN-FINDING: property={pid} {k}: {known[k]} ({n} explored cases, e.g. {clip(c, 160)})')
  if known_seen:
    ev['known_findings'] = {k: n for k, (n, c) in known_seen.items()}
  with open(os.path.join(EVID, pid + '.json'), 'w') as f:
    json.dump(ev, f, indent=1, ensure_ascii=True)
  print(f'{pid} {tier}: states={cov["states"]} transitions={cov["transitions"]} traces={cov["traces_validated_against_impl"]} outcomes={cov["distinct_outcomes"]} jobs={len(results)} wall={ev["wall_s"]}s slowest={slow}')
  if violations:
    rdir = os.path.join(EVID, 'replay')
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, f'{pid}.json')
    v = dict(violations[0], property=pid, tier=tier, how=f'cd /verif && ./check {pid} --replay {path}')
    with open(path, 'w') as f:
      json.dump(v, f, indent=1, ensure_ascii=True)
    for x in violations[:3]:
      print(f"  case: {ascii(x['case'])}\n    expected: {ascii(x['expected'])[:600]}\n    observed: {ascii(x['observed'])[-1200:]}")
    print(f'VIOLATION property={pid} replay={path}')
    return 1
  return 0


if __name__ == '__main__':
  sys.exit(main(sys.argv[1:]))
