"""C06: the function library, every function x every argument tuple of the alphabet."""
import itertools
import math
import ref
from mc import Job
PID = 'C06'
META = dict(
  rule='every library function with every tuple of arguments over numbers, sequences, lists, weighted dice and pools (including numbers outside the pool, empty sequences, negative faces), compared with its definition evaluated on every outcome; explode for every depth by argument and by setting; all sequences up to length 5 over {-1,0,1,2} for reverse/sort and their slow variants',
  bounds='quick: pools up to 4 dice of 6 faces (some 6d6/10d10/2d100), explode depth 0..6, sequences up to length 5; thorough: all sequences up to length 6 over 5 values, pools up to 6 dice',
  assumptions=['default position order', 'the maximum of a die is its highest listed value (dice whose highest value has weight 0 are excluded)'])

# (code, kind, payload): kind num/seq/pool(n, die)
A = [
  ('0', 'num', 0), ('3', 'num', 3), ('-2', 'num', -2), ('1', 'num', 1), ('2', 'num', 2), ('Seq(1,2)', 'seq', (1, 2)), ('Seq()', 'seq', ()), ('[3,1,3,-2]', 'seq', (3, 1, 3, -2)), ('Seq(2)', 'seq', (2,)), ('range(1,4)', 'seq', (1, 2, 3)),
  ('RV([1,2],[1,3])', 'pool', (1, ref.die([1, 2], [1, 3]))), ('roll(6)', 'pool', (1, ref.dn(6))), ('roll(2,3)', 'pool', (2, ref.dn(3))), ('roll(3,RV([-2,1,3],[1,2,1]))', 'pool', (3, ref.die([-2, 1, 3], [1, 2, 1]))), ('roll(4,6)', 'pool', (4, ref.dn(6))), ('roll(-3)', 'pool', (1, ref.dn(-3))),
  ('RV([5],[1])', 'pool', (1, ref.const(5))), ('roll(2,4)+1', 'pool', (1, ref.map1(ref.add_n(ref.dn(4), 2), lambda v: v + 1))), ('roll(2,[0,0,4])', 'pool', (2, ref.die([0, 0, 4]))),
]
FL = [('0.5', 'num', 0.5), ('-1.5', 'num', -1.5), ('RV([0.5,-2.5],[1,2])', 'pool', (1, ref.die([0.5, -2.5], [1, 2]))), ('Seq(0.5,2)', 'seq', (0.5, 2)), ('Seq(1.25,1.75,1)', 'seq', (1.25, 1.75, 1)), ('1.75', 'num', 1.75), ('RV([1.25,1.75,10**17],[1,2,1])', 'pool', (1, ref.die([1.25, 1.75, 10**17], [1, 2, 1]))), ('roll(2,[1.25,1.75,1])', 'pool', (2, ref.die([1.25, 1.75, 1]))), ('10**17', 'num', 10**17)]
BIGP = [('roll(6,6)', 'pool', (6, ref.dn(6))), ('roll(2,100)', 'pool', (2, ref.dn(100))), ('roll(5,10)', 'pool', (5, ref.dn(10))), ('roll(10,4)', 'pool', (10, ref.dn(4))), ('roll(20)', 'pool', (1, ref.dn(20)))]


def asN(a):
  k, p = a[1], a[2]
  return ref.const(p) if k == 'num' else ref.const(sum(p)) if k == 'seq' else ref.add_n(p[1], p[0])


def asS(a):
  k, p = a[1], a[2]
  return [((p,), 1)] if k == 'num' else [(tuple(p), 1)] if k == 'seq' else ref.sorted_pools(p[1], p[0])


def asD(a):
  """-> (n, die)"""
  k, p = a[1], a[2]
  return (1, ref.const(p)) if k == 'num' else (1, ref.die(p) if p else ref.const(0)) if k == 'seq' else p


def avg(parts):
  return ref.mix(parts)


def f_nn(fn):
  return lambda a, b: ref.map2(asN(a), asN(b), fn)


def m_contains(a, b):
  d = {}
  for t, w in asS(a):
    for v, q in asN(b):
      r = 1 if v in t else 0
      d[r] = d.get(r, 0) + w * q
  return ref.canon(d)


def m_count(a, b):
  d = {}
  for t, w in asS(a):
    for u, q in asS(b):
      r = sum(u.count(x) for x in t)
      d[r] = d.get(r, 0) + w * q
  return ref.canon(d)


def m_sel(which):
  def f(a, b):
    n, c = asD(b)
    out = []
    for k, w in asN(a):
      if which == 'high':
        pos = range(1, k + 1)
      elif which == 'low':
        pos = range(n - k + 1, n + 1)
      else:
        fr = 1 + (n - k) // 2
        pos = range(fr, fr + k)
      out.append((ref.select_dp(c, n, tuple(pos)), w))
    return avg(out)
  return f


def m_explode(c, depth):
  mx = max(v for v, _ in c)
  cur = c
  for _ in range(depth):
    d = {}
    T, t = ref.total(cur), ref.total(c)
    for v, w in c:
      if v == mx:
        for x, y in cur:
          d[mx + x] = d.get(mx + x, 0) + w * y
      else:
        d[v] = d.get(v, 0) + w * T
    cur = ref.canon(d)
  return cur


def isint(a):
  if any(abs(v) > 1000 for v, _ in asN(a)):
    return False
  return all(isinstance(v, int) for v, _ in asN(a)) if a[1] != 'seq' else all(isinstance(v, int) for v in a[2])


TWO = {
  'X_contains_X': (m_contains, lambda a, b: True),
  'count_X_in_X': (m_count, lambda a, b: True),
  'highest_X_of_X': (m_sel('high'), lambda a, b: isint(a)),
  'lowest_X_of_X': (m_sel('low'), lambda a, b: isint(a)),
  'middle_X_of_X': (m_sel('mid'), lambda a, b: isint(a)),
  'highest_of_X_and_X': (f_nn(max), lambda a, b: True),
  'lowest_of_X_and_X': (f_nn(min), lambda a, b: True),
}


def cost(a):
  return len(asS(a)) if a[1] == 'pool' and a[2][0] * len(a[2][1]) < 40 else 200


def job_two(ctx, name, big):
  import target as T
  import obs as O
  env = dict(vars(T))
  model, ok = TWO[name]
  base = A + FL
  pairs = list(itertools.product(base, base)) if not big else [(a, b) for a in A[:6] + A[10:12] for b in BIGP] + ([(b, a) for a in A[:6] for b in BIGP if b[0] not in ('roll(10,4)',)] if not name.endswith('_of_X') else [])
  fn = getattr(T, name)
  objs = {}
  for a, b in pairs:
    for x in (a, b):
      if x[0] not in objs:
        objs[x[0]] = eval(x[0], env)
    if not ok(a, b):
      continue
    if cost(a) * cost(b) > 60000:
      continue
    oa, ob = objs[a[0]], objs[b[0]]
    before = (O.snap(oa), O.snap(ob))
    exp = model(a, b)
    small = ref.total(exp) <= O.LIMIT

    def run():
      r = fn(oa, ob)
      o = O.o_die(r) if small else O.close(r, exp)
      return o if (O.snap(oa), O.snap(ob)) == before else 'arguments changed'
    ctx.compare(f'{name}({a[0]}, {b[0]})', run, exp if small else 'close')
    if name.endswith('X_of_X') or cost(a) * cost(b) < 2000:  # no library function depends on the position order
      T.settings_set('position order', 'lowest first')
      ctx.compare(f'{name}({a[0]}, {b[0]})  (position order lowest first)', run, exp if small else 'close')
      T.settings_set('position order', 'highest first')


def job_one(ctx):
  import target as T
  import obs as O
  env = dict(vars(T))
  for a in A + FL + BIGP:
    x = eval(a[0], env)
    s = O.snap(x)
    ctx.compare(f'absolute_X({a[0]})', lambda: O.o_die(T.absolute_X(x)), ref.map1(asN(a), abs))
    n, c = asD(a)
    full = ref.add_n(c, n)
    ctx.compare(f'maximum_of_X({a[0]})', lambda: O.o_die(T.maximum_of_X(x)), ref.const(max(v for v, _ in full)))
    ctx.compare(f'{a[0]} unchanged', lambda: O.snap(x), s)
    # given dice, a sequence result counts as its sum
    if a[1] == 'pool' and n * len(c) < 40:
      for fn in ('reverse_X', 'sort_X'):
        ctx.compare(f'{fn}({a[0]})', lambda: O.o_die(getattr(T, fn)(x)), full)


def job_explode(ctx, depths, setting):
  import target as T
  import obs as O
  env = dict(vars(T))
  for a in A + FL + BIGP:
    n, c = asD(a)
    full = ref.add_n(c, n)
    x = eval(a[0], env)
    for d in depths:
      if len(full) > 30 and d > 2:
        continue
      exp = m_explode(full, d)
      small = ref.total(exp) <= O.LIMIT
      if setting:
        T.settings_set('explode depth', d)
        run = lambda: T.explode_X(x)
      else:
        run = lambda: T.explode_X(x, depth=d)
      ctx.compare(f'explode_X({a[0]}) depth {d} by {"setting" if setting else "argument"}', lambda: O.o_die(run()) if small else O.close(run(), exp), exp if small else 'close')
      if setting and d > 1:
        ctx.compare(f'explode_X({a[0]}, depth=1) with setting {d}', lambda: O.o_die(T.explode_X(x, depth=1)), m_explode(full, 1))
  if setting:
    T.settings_reset()
    ctx.compare('explode_X(d6) with the default depth', lambda: O.o_die(T.explode_X(T.roll(6))), m_explode(ref.dn(6), 2))


def job_seqs(ctx, vals, L, first):
  import target as T
  import obs as O
  from dice_calc.funclib import reverse_VANILLA_SLOW, sort_VANILLA_SLOW
  for rest in itertools.product(vals, repeat=L - 1) if L else [None]:
    t = (first, *rest) if L else ()
    S = T.Seq(*t)
    rev, srt = t[::-1], tuple(sorted(t, reverse=True))
    ctx.compare(f'reverse_X(Seq{t})', lambda: O.o_val(T.reverse_X(S)), ('seq', rev))
    ctx.compare(f'sort_X(Seq{t})', lambda: O.o_val(T.sort_X(S)), ('seq', srt))
    ctx.compare(f'reverse_VANILLA_SLOW(Seq{t})', lambda: O.o_val(reverse_VANILLA_SLOW(S)), ('seq', rev))
    ctx.compare(f'sort_VANILLA_SLOW(Seq{t})', lambda: O.o_val(sort_VANILLA_SLOW(S)), ('seq', srt))
    if L <= 3:
      ctx.compare(f'reverse_X({list(t)})', lambda: O.o_val(T.reverse_X(list(t))), ('seq', rev))
      ctx.compare(f'sort_X({list(t)})', lambda: O.o_val(T.sort_X(list(t))), ('seq', srt))
    for k in vals:
      ctx.compare(f'X_contains_X(Seq{t},{k})', lambda: O.o_die(T.X_contains_X(S, k)), ref.const(1 if k in t else 0))
      ctx.compare(f'count_X_in_X({k},Seq{t})', lambda: O.o_die(T.count_X_in_X(k, S)) , ref.const(t.count(k)))
    for u in itertools.product(vals[:3], repeat=2):
      ctx.compare(f'count_X_in_X(Seq{u},Seq{t})', lambda: O.o_die(T.count_X_in_X(T.Seq(*u), S)), ref.const(sum(t.count(x) for x in u)))
    ctx.compare(f'Seq{t} unchanged', lambda: tuple(S), t)


def job_long_seqs(ctx):
  import target as T
  import obs as O
  from dice_calc.funclib import reverse_VANILLA_SLOW, sort_VANILLA_SLOW
  for n in (7, 8, 10, 16, 17, 33, 64, 100):
    for mul, mod in ((1, n), (7, 11), (3, 5), (-5, 13)):
      t = tuple((i * mul) % mod - 2 for i in range(n))
      S = T.Seq(*t)
      for nm, f, e in (('reverse_X', T.reverse_X, t[::-1]), ('sort_X', T.sort_X, tuple(sorted(t, reverse=True))), ('reverse slow', reverse_VANILLA_SLOW, t[::-1]), ('sort slow', sort_VANILLA_SLOW, tuple(sorted(t, reverse=True)))):
        ctx.compare(f'{nm} of i*{mul}%{mod}-2 for i<{n}', lambda: O.o_val(f(S)), ('seq', e))
      for k in (-2, 0, 5, 97):
        ctx.compare(f'contains {k} in long {n},{mul},{mod}', lambda: O.o_die(T.X_contains_X(S, k)), ref.const(1 if k in t else 0))
        ctx.compare(f'count {k} in long {n},{mul},{mod}', lambda: O.o_die(T.count_X_in_X(k, S)), ref.const(t.count(k)))
      for m in (1, 7, n - 1, n, n + 1, 2 * n):
        u = tuple((i * 3) % 7 - 2 for i in range(m))
        U = T.Seq(*u)
        e = sum(t.count(x) for x in u)
        ctx.compare(f'count of {m} values (i*3%7-2) in long {n},{mul},{mod}', lambda: (O.o_die(T.count_X_in_X(U, S)), O.o_die(T.count_X_in_X(list(u), S)), O.o_die(T.count_X_in_X(u, list(t)))), (ref.const(e),) * 3)
        ctx.compare(f'long sequences to numbers {n},{mul},{mod} {m}', lambda: (O.o_val(T.absolute_X(S)), O.o_die(T.highest_of_X_and_X(S, U)), O.o_die(T.lowest_of_X_and_X(U, S)), O.o_die(T.maximum_of_X(S)), O.o_die(T.explode_X(S))), (('num', abs(sum(t))), ref.const(max(sum(t), sum(u))), ref.const(min(sum(t), sum(u))), ref.const(max(t)), m_explode(ref.die(t), 2)))
    # counting in a pool, with many values
    u = tuple(i % 5 for i in range(n))
    ctx.compare(f'count of {n} values (i%5) in 2d3', lambda: O.o_die(T.count_X_in_X(T.Seq(*u), T.roll(2, 3))), m_count(('', 'seq', u), ('', 'pool', (2, ref.dn(3)))))


def job_sweep(ctx, which, lo):
  """every number of dice kept out of every pool size, and explosions of every depth"""
  import target as T
  import obs as O
  for code, d, top in (('2', ref.dn(2), 36), ('3', ref.dn(3), 20), ('RV([-1,0,5],[2,1,3])', ref.die([-1, 0, 5], [2, 1, 3]), 20), ('6', ref.dn(6), 16)):
    die = eval(code, dict(vars(T)))
    for n in range(1 + lo, top, 3):
      pool = T.roll(n, die)
      for k in range(0, n + 3):
        if len(d) > 3 and k > 6 and n - k > 6:
          continue
        exp = m_sel(which)(('', 'num', k), ('', 'pool', (n, d)))
        small = ref.total(exp) <= O.LIMIT
        ctx.compare(f'{which} {k} of {n}d{code}', lambda: (lambda r: O.o_die(r) if small else O.close(r, exp))(getattr(T, {'high': 'highest', 'low': 'lowest', 'mid': 'middle'}[which] + '_X_of_X')(k, pool)), exp if small else 'close')


def job_deep(ctx):
  import target as T
  import obs as O
  for code, d, top in (('2', ref.dn(2), 60), ('3', ref.dn(3), 40), ('6', ref.dn(6), 25), ('RV([-1,0,5],[2,1,3])', ref.die([-1, 0, 5], [2, 1, 3]), 25), ('RV([4],[1])', ref.const(4), 60), ('roll(2,4)', ref.add_n(ref.dn(4), 2), 15), ('20', ref.dn(20), 15)):
    die = T.roll(eval(code, dict(vars(T))))
    for k in range(0, top):
      exp = m_explode(d, k)
      small = ref.total(exp) <= O.LIMIT
      for how in ('argument', 'setting'):
        def run():
          if how == 'argument':
            return T.explode_X(die, depth=k)
          T.settings_set('explode depth', k)
          return T.explode_X(die)
        if how == 'argument' or k:
          ctx.compare(f'explode_X(d {code}) depth {k} by {how}', lambda: O.o_die(run()) if small else O.close(run(), exp), exp if small else 'close')
  T.settings_reset()


def job_gwf(ctx):
  import target as T
  import obs as O
  from dice_calc.funclib import gwf
  env = dict(vars(T))
  for ncode, nk, npay in [('0', 'num', 0), ('1', 'num', 1), ('2', 'num', 2), ('3', 'num', 3), ('5', 'num', 5), ('Seq(1,1)', 'seq', (1, 1)), ('roll(2)', 'pool', (1, ref.dn(2))), ('RV([0,3],[1,2])', 'pool', (1, ref.die([0, 3], [1, 2])))]:
    for dcode, d in [('6', ref.dn(6)), ('2', ref.dn(2)), ('1', ref.const(1)), ('10', ref.dn(10)), ('roll(8)', ref.dn(8)), ('RV([1,2,7],[3,1,2])', ref.die([1, 2, 7], [3, 1, 2])), ('roll(2,4)', ref.add_n(ref.dn(4), 2)), ('roll(-3)', ref.dn(-3))]:
      for m in (None, 0, 1, 2, 3, 6, -2, 100):
        mm = 2 if m is None else m
        single = ref.mix([(d if v <= mm else ref.const(v), w) for v, w in d])
        exp = ref.mix([(ref.roll(k, single), w) for k, w in asN((ncode, nk, npay))])
        no, do = eval(ncode, env), eval(dcode, env)
        small = ref.total(exp) <= O.LIMIT
        for style in range(3 if m is not None else 1):
          run = (lambda: gwf(no, do)) if m is None else (lambda: gwf(no, do, m)) if style == 0 else (lambda: gwf(no, do, min_to_reroll=m)) if style == 1 else (lambda: gwf(num_die=no, dmg_die=do, min_to_reroll=m))
          ctx.compare(f'gwf({ncode},{dcode},{m}) style {style}', lambda: O.o_die(run()) if small else O.close(run(), exp), exp if small else 'close')


def jobs(tier):
  q = tier == 'quick'
  js = []
  for n in TWO:
    js += [Job(f'{n}', job_two, n, False), Job(f'{n} big', job_two, n, True)]
  js += [Job('one', job_one), Job('explode arg', job_explode, range(0, 7 if q else 12), False), Job('explode setting', job_explode, range(1, 7 if q else 12), True), Job('gwf', job_gwf), Job('long seqs', job_long_seqs)]
  js += [Job(f'sweep {w} {lo}', job_sweep, w, lo) for w in ('high', 'low', 'mid') for lo in range(3)] + [Job('deep', job_deep)]
  vals = (-1, 0, 1, 2)
  for L in range(0, 6 if q else 8):
    for f in vals if L else (None,):
      js.append(Job(f'seqs {L} {f}', job_seqs, vals, L, f))
  for fv in ((0.5, 2, -1, 2.0, 3), (1.25, 1.75, 1, -1.5, -1.25), (10**17, 10**17 + 1, -10**17, 2**53 + 1, 0)):
    for L, f in itertools.product(range(1, 4 if q else 6), fv):
      js.append(Job(f'fseqs {L} {f}', job_seqs, fv, L, f))
  return js
