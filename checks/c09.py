"""C09: function depth limit.  Every call tree/history with every placement of failures, against a counter model."""
import itertools
import ref
from mc import Job, observe
PID = 'C09'
META = dict(
  rule='call scripts: a call runs a list of events (nested call, change of the limit, a call with broken arguments, a reset) and then ends by returning a number, returning nothing, returning the empty die, raising an error, or being interrupted (KeyboardInterrupt); every caller may catch what its callees raise; the real decorated functions execute the script and record which bodies run and what every caller receives; afterwards the depth available to the next outermost call is measured.  Oracle: a counter model of the limit',
  bounds='quick: all chains up to depth 5 x 10 endings/catch choices per level under limits 1..4, all call trees up to 4 calls, all histories of 2 outermost calls of depth <= 2, all placements of one limit change/reset/broken call in chains of depth <= 4; both decorators, shared and distinct functions; thorough: chains of depth 6, trees of 5 calls, histories of 3',
  assumptions=['one thread', 'a reset of the settings inside a running call is only judged by the depth available afterwards'])

ENDS = ('num', 'none', 'raise', 'int', 'blank')


class Err(Exception):
  pass


# node = (end, catch, events); event = ('call', node) | ('set', n) | ('bad',) | ('reset',)
def model(nodes, limit):
  log = []
  st = [0, limit]

  def call(node):
    if st[0] >= st[1]:
      return ('blank',)
    saved = st[0]
    st[0] += 1
    log.append(('enter', node[0], saved + 1))
    try:
      end, catch, events = node
      for e in events:
        if e[0] == 'set':
          st[1] = e[1]
        elif e[0] == 'bad':
          log.append(('bad', 'blank' if st[0] >= st[1] else 'raised'))
        else:
          try:
            r = call(e[1])
            log.append(('got', r))
          except (Err, KeyboardInterrupt) as x:
            log.append(('exc', type(x).__name__))
            if not catch:
              raise
      if end == 'raise':
        raise Err()
      if end == 'int':
        raise KeyboardInterrupt()
      return ('num', saved + 1) if end == 'num' else ('blank',)
    finally:
      st[0] = saved
  for n in nodes:
    try:
      log.append(('top', call(n)))
    except (Err, KeyboardInterrupt) as x:
      log.append(('topexc', type(x).__name__))
  log.append(('depth', st[1]))
  return log


def make(T, deco, nfun):
  """nfun distinct real functions interpreting call scripts"""
  env = {'log': None, 'level': 0}

  def show(r):
    if isinstance(r, T.BlankRV):
      return ('blank',) if len(r) == 0 else ('null',)
    return ('num', r)

  def body(node):
    env['level'] += 1
    lv = env['level']
    env['log'].append(('enter', node[0], lv))
    try:
      end, catch, events = node
      for e in events:
        if e[0] == 'set':
          T.settings_set('maximum function depth', e[1])
        elif e[0] == 'reset':
          T.settings_reset()
        elif e[0] == 'bad':
          try:
            r = funs[lv % nfun](object(), object(), object())
            env['log'].append(('bad', show(r)[0]))
          except Exception:
            env['log'].append(('bad', 'raised'))
        else:
          try:
            r = funs[lv % nfun](e[1])
            env['log'].append(('got', show(r)))
          except (Err, KeyboardInterrupt) as x:
            env['log'].append(('exc', type(x).__name__))
            if not catch:
              raise
      if end == 'raise':
        raise Err()
      if end == 'int':
        raise KeyboardInterrupt()
      return lv if end == 'num' else None if end == 'none' else T.BlankRV()
    finally:
      env['level'] -= 1

  def mk():
    @deco()
    def f(node):
      return body(node)
    return f
  funs = [mk() for _ in range(nfun)]

  def measure():
    n = [0]

    @deco()
    def probe():
      n[0] += 1
      if n[0] > 600:
        return 0
      probe()
      return 1
    probe()
    return n[0]

  def run(nodes, limit, log_on=True):
    T.settings_reset()
    T.settings_set('maximum function depth', limit)
    env['log'] = []
    env['level'] = 0
    for n in nodes:
      try:
        env['log'].append(('top', show(funs[0](n))))
      except (Err, KeyboardInterrupt) as x:
        env['log'].append(('topexc', type(x).__name__))
    env['log'].append(('depth', measure()))
    return env['log']
  return run, measure


CATCHES = [(e, c) for e in ENDS for c in (0, 1)]


def chains(depth, choices):
  """all chains of exactly this depth"""
  for combo in itertools.product(choices, repeat=depth):
    node = None
    for e, c in reversed(combo):
      node = (e, c, [('call', node)] if node else [])
    yield node


def trees(n):
  """ordered tree shapes with n nodes"""
  if n == 1:
    yield ()
    return
  yield from forests(n - 1)


def forests(n):
  if n == 0:
    yield ()
    return
  for k in range(1, n + 1):
    for t in trees(k):
      for rest in forests(n - k):
        yield (t,) + rest


def fill(shape, it):
  e, c = next(it)
  return (e, c, [('call', fill(s, it)) for s in shape])


def job(ctx, deconame, nfun, gen, limits):
  import target as T
  run, _ = make(T, getattr(T, deconame), nfun)
  for nodes in gen():
    for L in limits:
      exp = model(nodes, L)
      ctx.transitions += len(exp) - 1
      ctx.compare(f'{deconame}, {nfun} function(s), limit {L}, calls {nodes}', lambda: run(nodes, L), exp)


def g_chains(depths, choices, first=None):
  def gen():
    for d in depths:
      for n in chains(d, choices):
        if first is None or (n[0], n[1]) == first:
          yield [n]
  return gen


def g_trees(sizes, choices):
  def gen():
    for n in sizes:
      for shape in trees(n):
        for combo in itertools.product(choices, repeat=n):
          yield [fill(shape, iter(combo))]
  return gen


def g_hist(depth, choices, length):
  def gen():
    al = [n for d in range(1, depth + 1) for n in chains(d, choices)]
    for combo in itertools.product(al, repeat=length):
      yield list(combo)
  return gen


def g_events(depth, events, choices):
  """one extra event before or after the nested call at every level"""
  def gen():
    for d in range(1, depth + 1):
      for combo in itertools.product(choices, repeat=d):
        for at in range(d):
          for pos in (0, 1):
            for ev in events:
              node = None
              for i in range(d - 1, -1, -1):
                evs = [('call', node)] if node else []
                if i == at:
                  evs = [ev] + evs if pos == 0 else evs + [ev]
                node = (combo[i][0], combo[i][1], evs)
              follow = ('num', 0, [('call', ('num', 0, [('call', ('num', 0, []))]))])
              yield [node, follow]
  return gen


def job_reset(ctx, deconame):
  """a reset inside a call at every level: afterwards the whole default depth is available"""
  import target as T
  run, measure = make(T, getattr(T, deconame), 2)
  for nodes in g_events(4, [('reset',)], [('num', 0), ('raise', 0), ('raise', 1), ('none', 0)])():
    for L in (1, 2, 4):
      ctx.compare(f'{deconame}, limit {L}, {nodes[:1]} then the available depth', lambda: run(nodes[:1], L)[-1], ('depth', 10 if any_reset_ran(nodes[0], L) else L))


def any_reset_ran(node, limit):
  def walk(n, depth):
    if depth > limit:
      return False
    for e in n[2]:
      if e[0] == 'reset':
        return True
      if e[0] == 'call':
        if walk(e[1], depth + 1):
          return True
        if raises(e[1], depth + 1) and not n[1]:
          return False
    return False

  def raises(n, depth):
    if depth > limit:
      return False
    for e in n[2]:
      if e[0] == 'call' and raises(e[1], depth + 1) and not n[1]:
        return True
    return n[0] == 'raise'
  return walk(node, 1)


def job_dice(ctx):
  """recursion over dice: every outcome branch stops at the limit; exact distribution"""
  import target as T
  import obs as O
  for faces in ([1, 2], [1, 2, 3], [0, 5]):
    for again in ([max(faces)], [min(faces)], faces):
      for L in range(1, 7):
        for k in (1, 2):
          @T.anydice_casting()
          def f(N: T.T_N):
            if N in again:
              return N + f(T.roll(1, T.RV(faces, [1] * len(faces))))
            return N * k

          @T.anydice_casting()
          def g(N: T.T_N):
            if N in again:
              return g(T.RV(faces, [1] * len(faces)))
            return N * k

          def mf(depth, blank_plus):
            """distribution of f(die) when `depth` calls are already in progress, None = empty die"""
            if depth >= L:
              return None
            parts = []
            for v in faces:
              if v in again:
                sub = mf(depth + 1, blank_plus)
                if sub is None:
                  if blank_plus:
                    parts.append((ref.const(v), 1))
                else:
                  parts.append((ref.map1(sub, lambda x: x + v) if blank_plus else sub, 1))
              else:
                parts.append((ref.const(v * k), 1))
            return ref.mix(parts) if parts else None
          for fn, name, bp in ((f, 'v+f', True), (g, 'g', False)):
            m = mf(0, bp)
            exp = ('blank',) if m is None else ('die', m)

            def run():
              T.settings_reset()
              T.settings_set('maximum function depth', L)
              return O.o_val(fn(T.RV(faces, [1] * len(faces))))
            ctx.compare(f'recursive {name} on die {faces}, again on {again}, x{k}, limit {L}', run, exp)
  T.settings_reset()


def job_many(ctx):
  import sys
  sys.setrecursionlimit(20000)
  """long histories: n failing calls of each kind must not eat depth; limits up to 500"""
  import target as T
  for deco in ('anydice_casting', 'max_func_depth'):
    run, measure = make(T, getattr(T, deco), 2)
    for L in (1, 2, 3, 5, 7, 10, 15, 16, 31, 50, 51, 60, 64, 99, 100, 101, 128, 150, 200, 256, 500):
      if L > 100 and deco == 'max_func_depth':
        continue
      for kind in itertools.product(('num', 'none', 'raise', 'int', 'blank'), repeat=2):
        for reps in (1, 5, 12, 25):
          nodes = [(kind[0], 1, [('call', (kind[1], 0, []))])] * reps
          ctx.compare(f'{deco}: {reps} outermost calls of kind {kind}, limit {L}', lambda: run(nodes, L), model(nodes, L))
      for n, end in itertools.product((L - 1, L, L + 1, L + 3), ('num', 'none', 'raise', 'blank')):
        deep = None
        for i in range(max(n, 1)):
          deep = (end if deep is None or end != 'raise' else 'num', 1, [('call', deep)] if deep else [])
        ctx.compare(f'{deco}: a chain of {n} calls, the innermost {end}, limit {L}', lambda: run([deep], L), model([deep], L))


def jobs(tier):
  q = tier == 'quick'
  js = []
  few = [('num', 0), ('none', 0), ('raise', 0), ('raise', 1), ('num', 1), ('int', 0)]
  for first in CATCHES:
    js.append(Job(f'chains {first}', job, 'anydice_casting', 1, g_chains(range(1, 5), CATCHES, first), (1, 2, 3, 4)))
  for first in few:
    js.append(Job(f'chains5 {first}', job, 'max_func_depth', 2, g_chains((5,) if q else (5, 6), few, first), (1, 3, 4, 5, 6)))
  js.append(Job('trees', job, 'anydice_casting', 2, g_trees((2, 3) if q else (2, 3, 4), CATCHES), (1, 2, 3)))
  js.append(Job('trees4', job, 'anydice_casting', 2, g_trees((4,) if q else (4, 5), few[:5]), (1, 2, 3)))
  js.append(Job('histories', job, 'anydice_casting', 2, g_hist(2, few, 2), (1, 2)))
  js.append(Job('histories md', job, 'max_func_depth', 1, g_hist(2, few, 2), (1, 2)))
  if not q:
    js.append(Job('histories3', job, 'anydice_casting', 1, g_hist(2, few[:5], 3), (1, 2)))
  evs = [('set', n) for n in (1, 2, 3, 5)] + [('bad',)]
  js.append(Job('limit changes', job, 'anydice_casting', 1, g_events(3 if q else 4, evs, few), (1, 2, 4)))
  js.append(Job('limit changes 2', job, 'max_func_depth', 2, g_events(3, evs, few), (1, 3)))
  for d in ('anydice_casting', 'max_func_depth'):
    js.append(Job(f'reset {d}', job_reset, d))
  js.append(Job('dice', job_dice))
  js.append(Job('many', job_many))
  return js
