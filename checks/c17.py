"""C17: results whose exact weights pass the internal limit: every operation, alone and chained, within 1e-12 of exact; exact below the limit."""
import itertools
import ref
from mc import Job, observe
PID = 'C17'
META = dict(
  rule='every die of an alphabet (plain, weighted, weights of 20 to 300 digits, fractional and negative faces) rolled every number of times around the point where the exact weights pass 10**31 and at multiples of it; sums, differences, comparisons, integer division, remainders, mixtures, selections, decorated functions, explode and reports of such dice, and all chains of up to 3 operations over them; oracle: exact big-integer convolution, compared by integer cross-multiplication (difference below 10**-12 for every value, non-negative weights, sum 1); results all of whose steps stay within the limit are compared exactly',
  bounds='quick: counts to 300, results to 1500 values, chains of 3 operations from 4 of the 6 large dice, 2 from the others; thorough: counts to 1000, results to 12000 values, chains of 3 from all',
  assumptions=['values whose reduced probability is zero may be listed with probability 0'])

DICE = [
  ('6', ref.dn(6)), ('2', ref.dn(2)), ('20', ref.dn(20)), ('100', ref.dn(100)), ('-4', ref.dn(-4)), ('RV([0,1],[3,7])', ref.die([0, 1], [3, 7])), ('RV([0,1],[1,10**20])', ref.die([0, 1], [1, 10**20])), ('RV([1,2,3],[1,10**40,3])', ref.die([1, 2, 3], [1, 10**40, 3])),
  ('RV([0,1],[1,10**31-1])', ref.die([0, 1], [1, 10**31 - 1])), ('RV([0,1],[1,10**31])', ref.die([0, 1], [1, 10**31])), ('RV([0.5,2,-3],[1,2,10**9])', ref.die([0.5, 2, -3], [1, 2, 10**9])), ('RV([0,5],[10**300,1])', ref.die([0, 5], [10**300, 1])), ('RV([1,2,3,4],[7**50,5**70,3**99,2**160])', ref.die([1, 2, 3, 4], [7**50, 5**70, 3**99, 2**160])), ('RV([0,1,10**9],[10**15,3,10**15])', ref.die([0, 1, 10**9], [10**15, 3, 10**15])), ('RV([0],[10**50])', ref.const(0)), ('RV([1,2],[10**40,10**40])', ref.dn(2)),
]
LIM = 10**31


def ev(T, code, **kw):
  return eval(code, dict(vars(T), **kw))


def sound(T, O, x, exp, exact):
  """one result: close or exact, and its reports work"""
  if isinstance(x, (int, float)):
    return O.o_die(x) == exp or ('number', x, exp)
  if exact:
    o = O.o_die(x)
    if o != exp:
      return ('not exact', o, exp)
  else:
    c = O.close(x, exp)
    if c != 'close':
      return c
  vp = x.get_vals_probs()
  if any(not 0 <= p <= 1.0000001 for _, p in vp) or abs(sum(p for _, p in vp) - 1) > 1e-9:
    return ('listing', sum(p for _, p in vp))
  m, scale = float(ref.mean(exp)), max(1.0, max(abs(float(v)) for v, _ in exp))
  if abs(x.mean() - m) > 1e-9 * scale:
    return ('mean', x.mean(), m)
  sd = float(ref.var(exp))**0.5
  if abs(x.std() - sd) > 1e-5 * scale:
    return ('std', x.std(), sd)
  if not isinstance(T.output(x, print_=False), str):
    return 'no report'
  return True


def cmp(ctx, T, O, code, exp, exact, kw=None):
  return ctx.compare(code, lambda: sound(T, O, ev(T, code, **(kw or {})), exp, exact), True, limit=120)


def rolls(ctx, i, tier):
  import target as T
  import obs as O
  code, d = DICE[i]
  t = ref.total(d)
  import math
  cross = math.ceil(31 / math.log10(t)) if t > 1 else 30
  cap = 1500 if tier == 'quick' else 12000
  ns = sorted(set(range(max(1, cross - 3), cross + 4)) | {2, 3, 4, 5, 7, 8, 2 * cross - 1, 2 * cross, 2 * cross + 1, 3 * cross, 5 * cross, 10 * cross, 100, 101, 128, 300} | (set() if tier == 'quick' else {200, 255, 256, 257, 500, 777, 1000}))
  cur, k = ref.const(0), 0
  for n in ns:
    if t > 1 and (n * len(d) > cap or t.bit_length() * n > (12000 if tier == 'quick' else 60000) or wide(d) and n > (12 if tier == 'quick' else 40)):
      continue
    exp = cur = convolve(cur, ref.add_n(d, n - k) if n - k < 40 else power(d, n - k))
    k = n
    exact = ref.total(exp) <= LIM
    ok = cmp(ctx, T, O, f'roll({n},{code})', exp, exact)
    cmp(ctx, T, O, f'roll(-{n},{code})', ref.neg(exp), exact)
    cmp(ctx, T, O, f'roll([{n - 1},1],roll(1,{code}))', exp, exact)
    cmp(ctx, T, O, f'roll({n},{code})+roll(2,{code})', convolve(exp, ref.add_n(d, 2)), exact and ref.total(convolve(exp, ref.add_n(d, 2))) <= LIM)
    mid = exp[len(exp) // 2][0]
    for op in ('>', '<=', '=='):
      e = ref.map1(exp, lambda v: ref.OPS[op](v, mid))
      cmp(ctx, T, O, f'roll({n},{code}){op}{mid}', e, exact)
    if n * len(d) < 700:
      both = ref.map2(exp, exp, ref.OPS['>'])
      cmp(ctx, T, O, f'roll({n},{code})>roll({n},{code})', both, exact and ref.total(both) <= LIM)
      ks = sorted({1, 2, n // 2, n - 1, n} & set(range(1, n + 1)))
      if n <= 120 and len(d) <= 20:
        for kk in ks:
          e = ref.select_dp(d, n, (kk,))
          cmp(ctx, T, O, f'{kk}@roll({n},{code})', e, ref.total(e) <= LIM)
      elif len(d) == 2:
        pass
      if len(d) <= 3 and n <= 40 or len(d) <= 4 and n <= 12:
        for ps in ([1, 2], [1, n], list(range(1, n // 2 + 1)), list(range(1, n + 1))):
          if len(ps) > 1:
            e = ref.select_dp(d, n, tuple(ps))
            cmp(ctx, T, O, f'{ps}@roll({n},{code})', e, False)
  # many dice of equal value through mixtures
  for ws in ([1, 10**35], [10**40, 10**40], [3, 0, 10**31], [1] * 40):
    parts = [(ref.add_n(d, j % 3 + 1), w) for j, w in enumerate(ws)]
    e = ref.mix(parts)
    cmp(ctx, T, O, f'RV.from_rvs([roll(j%3+1,{code}) for j in range({len(ws)})],{ws})', e, ref.total(e) <= LIM)


def wide(d):
  return max(v for v, _ in d) > 1000 * len(d) or any(isinstance(v, float) for v, _ in d)


def convolve(a, b):
  d = {}
  for v, w in a:
    for x, y in b:
      d[v + x] = d.get(v + x, 0) + w * y
  return ref.canon(d)


def power(c, n):
  """n-fold sum (weights kept exact)"""
  r, b = ref.const(0), c
  while n:
    if n & 1:
      r = convolve(r, b)
    n >>= 1
    if n:
      b = convolve(b, b)
  return r


STARTS = [('roll(60,6)', lambda: power(ref.dn(6), 60)), ('roll(110,2)', lambda: power(ref.dn(2), 110)), ('roll(25,20)', lambda: power(ref.dn(20), 25)), ('roll(3,RV([0,1,3],[1,10**25,7]))', lambda: power(ref.die([0, 1, 3], [1, 10**25, 7]), 3)), ('RV([-1,0,2],[3**70,1,5**60])', lambda: ref.die([-1, 0, 2], [3**70, 1, 5**60])), ('roll(41,RV([0,1],[3,7]))', lambda: power(ref.die([0, 1], [3, 7]), 41))]


def m1(f):
  return lambda c: ref.map1(c, f)


STEPS = [
  ('({})+5', m1(lambda v: v + 5)), ('7-({})', m1(lambda v: 7 - v)), ('-({})', m1(lambda v: -v)), ('({})*3', m1(lambda v: v * 3)), ('({})//4', m1(lambda v: v // 4)), ('({})%3', m1(lambda v: v % 3)), ('abs({})', m1(abs)), ('({})>2', m1(lambda v: int(v > 2))), ('({})&1', m1(lambda v: int(v != 0))),
  ('({})+roll(6)', lambda c: convolve(c, ref.dn(6))), ('({})-roll(2,6)', lambda c: convolve(c, ref.neg(ref.add_n(ref.dn(6), 2)))), ('({})//roll(3)', lambda c: ref.map2(c, ref.dn(3), ref.OPS['//'])), ('({})==roll(100)', lambda c: ref.map2(c, ref.dn(100), ref.OPS['=='])), ('roll(4)*({})', lambda c: ref.map2(ref.dn(4), c, ref.OPS['*'])),
  ('roll(2,{})', lambda c: convolve(c, c)), ('roll(3,{})', lambda c: convolve(convolve(c, c), c)), ('2@roll(2,{})', lambda c: ref.select_dp(c, 2, (2,))), ('1@roll(3,{})', lambda c: ref.select_dp(c, 3, (1,))), ('RV.from_rvs([{},3,roll(6)],[1,2,10**12])', lambda c: ref.mix([(c, 1), (ref.const(3), 2), (ref.dn(6), 10**12)])), ('RV.from_rvs([roll(2),{}])', lambda c: ref.mix([(ref.dn(2), 1), (c, 1)])),
  ('fmod({})', lambda c: ref.mix([(ref.const(1) if v % 2 else ref.dn(2), w) for v, w in c])), ('highest_of_N_and_N({},20)', m1(lambda v: max(v, 20))), ('RV.from_seq([0,1])+({})', lambda c: convolve(ref.die([0, 1]), c)), ('explode({},depth=1)', lambda c: explode1(c)),
]


def explode1(c):
  m = max(v for v, _ in c)
  return ref.mix([(ref.map1(c, lambda x: x + m), w) if v == m else (ref.const(v), w) for v, w in c])


def chains(ctx, si, first, depth):
  import target as T
  import obs as O

  @T.anydice_casting()
  def fmod(N: T.T_N):
    if N % 2 == 1:
      return 1
    return T.roll(2)
  from dice_calc.funclib import highest_of_N_and_N, explode
  kw = dict(fmod=fmod, highest_of_N_and_N=highest_of_N_and_N, explode=explode)
  code, mk = STARTS[si]

  def go(code, c, d, exact):
    for j, (fmt, f) in enumerate(STEPS):
      if d == depth and j % 24 != first:
        continue
      if len(c) > 150 and ('2@' in fmt or '1@' in fmt or 'roll(3,{}' in fmt or 'roll(2,{}' in fmt or 'explode' in fmt or '//roll' in fmt):
        if len(c) > 600 or '1@' in fmt:
          continue
      if 'explode' in fmt and len(c) > 1 and max(c)[1] * 10**18 < ref.total(c):
        continue  # whether the largest value keeps any probability is a matter of rounding; the bound cannot decide
      e = f(c)
      if len(e) > 2500 or ref.total(e).bit_length() > 40000:
        continue
      if any(isinstance(v, float) for v, _ in e):
        continue
      x = fmt.format(code)
      ex = exact and ref.total(e) <= LIM
      if not cmp(ctx, T, O, x, e, ex, kw):
        return
      if d > 1:
        go(x, e, d - 1, ex)
  c = mk()
  go(code, c, depth, ref.total(c) <= LIM)


def jobs(tier):
  q = tier == 'quick'
  js = [Job(f'rolls {i}', rolls, i, tier) for i in range(len(DICE))]
  for s in range(len(STARTS)):
    for f in range(24):
      js.append(Job(f'chains {s} {f}', chains, s, f, 2 if q and s not in (2, 3, 4, 5) else 3))
  return js
