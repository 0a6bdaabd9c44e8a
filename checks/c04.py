"""C04: position selection = order statistics of the rolled pool."""
import itertools
import ref
from mc import Job, observe
PID = 'C04'
META = dict(
  rule='every small pool (faces x weights x size) with every single position including those outside the pool and every tuple of up to 3 positions (with repeats, in every order, as Seq/list/tuple), under both position orders; the model enumerates all ordered outcomes (brute force), larger pools use a face-by-face dynamic program that is itself checked against brute force on every small pool',
  bounds='quick: dice with 1..3 faces (weights 0..3), pools 1..4, positions -1..n+2, tuples up to length 3 over 0..n+1; larger pools up to 60 dice / 100 faces (single; 150d6, 260d2) and 12d6 (several); blocks of 4..16 positions with every position replaced by every other, doubled, reversed; thorough: 4 faces, pools of 5, tuples of 4, pools up to 200 dice; both tiers also: rare faces and sweeps of large pools',
  assumptions=['non-integer positions are not specified'])


def ev(T, code, env=None):
  d = dict(vars(T))
  if env:
    d.update(env)
  return eval(code, d)


def get(O, x, exp):
  return O.o_die(x) if ref.total(exp) <= O.LIMIT else O.close(x, exp)


def check_pool(ctx, T, O, pcode, pool, c, n, singles, tuples, forms, brute=True):
  for order in ('highest first', 'lowest first'):
    T.settings_set('position order', order)
    hf = order == 'highest first'
    for k in singles:
      exp = ref.select_dp(c, n, (k,), hf)
      if brute:
        assert exp == ref.select_brute(c, n, (k,), hf), 'reference self-check'
      for f in ('{}', 'Seq({})', '[{}]') if brute else ('{}',):
        code = f.format(k) + ' @ ' + pcode
        sel = ev(T, f.format(k))
        small = ref.total(exp) <= O.LIMIT
        ctx.compare(f'{code}  (order {order})', lambda: get(O, sel @ pool, exp), exp if small else 'close')
    for t in tuples:
      exp = ref.select_dp(c, n, t, hf)
      if brute and n <= 3:
        assert exp == ref.select_brute(c, n, t, hf), 'reference self-check'
      small = ref.total(exp) <= O.LIMIT
      for f in forms:
        sel = T.Seq(*t) if f == 'Seq' else (list(t) if f == 'list' else tuple(t))
        ctx.compare(f'{f}{t} @ {pcode}  (order {order})', lambda: get(O, sel @ pool, exp), exp if small else 'close')
  T.settings_set('position order', 'highest first')


def job_small(ctx, vals, weights, sizes, tl):
  import target as T
  import obs as O
  for ws in itertools.product(weights, repeat=len(vals)):
    if sum(ws) == 0 or (len(vals) > 1 and len(set(ws)) == 1 and ws[0] > 1):
      continue
    c = ref.die(vals, ws)
    for n in sizes:
      pcode = f'roll({n},RV({list(vals)},{list(ws)}))'
      pool = ev(T, pcode)
      before = O.snap(pool)
      tuples = [()] + [t for L in range(2, tl + 1) for t in itertools.product(range(0, n + 2), repeat=L)]
      if n >= 4:
        tuples = [t for t in tuples if len(t) <= 2 or len(set(t)) == len(t) or t == (1, 1, 1)]
      check_pool(ctx, T, O, pcode, pool, c, n, range(-1, n + 3), tuples, ('Seq',) if n > 2 else ('Seq', 'list', 'tuple'))
      ctx.compare(f'{pcode} unchanged by selecting', lambda: O.snap(pool), before)


BIG = [('roll(10,6)', ref.dn(6), 10), ('roll(20,6)', ref.dn(6), 20), ('roll(5,100)', ref.dn(100), 5), ('roll(2,100)', ref.dn(100), 2), ('roll(2,1000)', ref.dn(1000), 2), ('roll(30,20)', ref.dn(20), 30), ('roll(60,2)', ref.dn(2), 60), ('roll(100,2)', ref.dn(2), 100), ('roll(7,[1,1,5,-3])', ref.die([1, 1, 5, -3]), 7),
       ('roll(8,RV([0,0.5,3],[7,1,2]))', ref.die([0, 0.5, 3], [7, 1, 2]), 8), ('roll(12,RV([-1,1],[1,99]))', ref.die([-1, 1], [1, 99]), 12), ('roll(9,RV([1,2,3],[2,0,3]))', ref.die([1, 3], [2, 3]), 9), ('roll(5,-6)', ref.dn(-6), 5), ('roll(4,RV([10**12,3,-10**12],[1,10**6,1]))', ref.die([10**12, 3, -10**12], [1, 10**6, 1]), 4), ('roll(33,3)', ref.dn(3), 33), ('roll(3,[7])', ref.const(7), 3), ('roll(6,0)', ref.const(0), 6), ('roll(150,6)', ref.dn(6), 150), ('roll(260,2)', ref.dn(2), 260)]
MULTI = [('roll(4,6)', ref.dn(6), 4), ('roll(5,6)', ref.dn(6), 5), ('roll(6,4)', ref.dn(4), 6), ('roll(12,6)', ref.dn(6), 12), ('roll(3,20)', ref.dn(20), 3), ('roll(2,100)', ref.dn(100), 2), ('roll(30,3)', ref.dn(3), 30), ('roll(7,RV([0,1,4],[5,3,1]))', ref.die([0, 1, 4], [5, 3, 1]), 7), ('roll(6,RV([1,0.5,3],[1,2,2]))', ref.die([1, 0.5, 3], [1, 2, 2]), 6), ('roll(5,[-2,0,3,3])', ref.die([-2, 0, 3, 3]), 5), ('roll(200,2)', ref.dn(2), 200)]


def job_big(ctx, i):
  import target as T
  import obs as O
  code, c, n = BIG[i]
  ks = sorted(set(k for k in (-3, -1, 0, 1, 2, 3, n // 3, n // 2, n // 2 + 1, n - 2, n - 1, n, n + 1, n + 2, 2 * n, 100, 1000)))
  check_pool(ctx, T, O, code, ev(T, code), c, n, ks, [], (), brute=False)


def job_multi(ctx, i):
  import target as T
  import obs as O
  code, c, n = MULTI[i]
  ts = [tuple(range(1, m + 1)) for m in (2, 3, n // 2, n - 1, n, n + 3)] + [tuple(range(n, n - m, -1)) for m in (2, 3)] + [(1, n), (n, 1), (1, 1, 2), (2, 2), (0, 1), (1, n + 1), (n // 2, n // 2 + 1), (-1, 2), (1, 3, 5), (0, 0), (n + 1, n + 2), (1, 2, 3, 4, 5, 6, 7, 8, 9, 10)]
  ts = [t for t in dict.fromkeys(ts) if len(t) >= 2]
  check_pool(ctx, T, O, code, ev(T, code), c, n, (1, n), ts, ('Seq', 'list'), brute=False)


def job_long(ctx, die, n, m, start):
  """a block of m positions starting at start, with every one of them replaced by every position, repeated and missing"""
  import target as T
  import obs as O
  code, c = die
  pcode = f'roll({n},{code})'
  block = list(range(start, start + m))
  ts = {tuple(block), tuple(block[::-1]), tuple(block + [block[0]]), tuple(block + [block[-1]]), tuple(block * 2), tuple(block[::2] * 2), tuple(block + [0]), tuple([n + 1] + block)}
  for i in range(m):
    for j in range(0, n + 2):
      ts.add(tuple(block[:i] + [j] + block[i + 1:]))
  check_pool(ctx, T, O, pcode, ev(T, pcode), c, n, (), sorted(ts), ('Seq',), brute=False)


LONG = [((d, c), n, m, st) for d, c in (('2', ref.dn(2)), ('RV([0,1,5],[1,2,3])', ref.die([0, 1, 5], [1, 2, 3]))) for n, m, st in ((4, 4, 1), (5, 4, 2), (6, 5, 1), (8, 8, 1), (9, 9, 1), (10, 9, 2), (12, 10, 1), (17, 16, 1), (20, 6, 9))]
LONGER = [((d, c), n, m, st) for d, c in (('2', ref.dn(2)),) for n, m, st in ((33, 32, 1), (40, 33, 4), (65, 64, 1))]


def job_sweep(ctx, sides, lo, upto):
  """every pool size up to the bound x every position; every pair of positions of the smaller ones"""
  import target as T
  import obs as O
  for n in range(lo, upto + 1):
    for code, c in ((f'roll({n},{sides})', ref.dn(sides)), (f'roll({n},RV(range({sides}),[1]+[2]*{sides - 1}))', ref.die(range(sides), [1] + [2] * (sides - 1)))):
      ts = list(itertools.combinations(range(1, n + 1), 2)) if n * sides <= 40 else [(i, n + 1 - i) for i in range(1, n // 2 + 1)] if n * sides <= 100 else []
      check_pool(ctx, T, O, code, ev(T, code), c, n, range(0, n + 2), ts, ('Seq',), brute=False)


def job_rare(ctx, part, parts):
  """dice with one very rare or very common face"""
  import target as T
  import obs as O
  for i, (vals, ws) in enumerate(((vs, w) for vs in ((1, 2), (0, 1, 2), (-1, 5, 7)) for big in (1000, 10**7, 10**12) for j in range(len(vs)) for w in ([1 if k == j else big for k in range(len(vs))], [big if k == j else 1 for k in range(len(vs))]))):
    if i % parts != part:
      continue
    c = ref.die(vals, ws)
    for n in (1, 2, 3, 4, 5, 8, 10, 20, 40, 41, 64, 100):
      code = f'roll({n},RV({list(vals)},{ws}))'
      check_pool(ctx, T, O, code, ev(T, code), c, n, range(0, n + 2) if n <= 41 else (1, 2, n // 2, n - 1, n), [(1, 2), (1, n), (n - 1, n)] if n <= 10 else (), ('Seq',), brute=False)


def job_forms(ctx):
  """dice that are not pools count as one die; constants; selection results; rejected selectors"""
  import target as T
  import obs as O
  singles = [('roll(6)', ref.dn(6)), ('roll(2,6)+1', ref.map1(ref.add_n(ref.dn(6), 2), lambda v: v + 1)), ('roll(2,6)*roll(3)', ref.map2(ref.add_n(ref.dn(6), 2), ref.dn(3), lambda a, b: a * b)), ('RV([1,5],[2,3])', ref.die([1, 5], [2, 3])), ('roll(6)>3', ref.die([0, 1])), ('roll(1,[4,4,1])', ref.die([4, 4, 1])), ('1@roll(3,4)', ref.select_dp(ref.dn(4), 3, (1,))),
             ('RV.from_seq([1,2,2])', ref.die([1, 2, 2])), ('RV.from_rvs([roll(2),7])', ref.mix([(ref.dn(2), 1), (ref.const(7), 1)])), ('-roll(2)', ref.dn(-2)), ('abs(roll(-3))', ref.dn(3)), ('RV.from_const(3)', ref.const(3))]
  for code, c in singles:
    x = ev(T, code)
    check_pool(ctx, T, O, f'({code})', x, c, 1, range(-2, 4), [(1, 1), (1, 2), (0, 1), (2, 3), (1, 1, 1), ()], ('Seq', 'list', 'tuple'))
  # a die is not a position
  for sel in ('roll(2)', 'RV([1],[1])', 'roll(2,2)', '1@roll(2,2)', 'BlankRV()'):
    for tgt in ('roll(2,6)', 'roll(6)', 'Seq(1,2)', '[1,2]', 'Seq()', '3', 'BlankRV()', 'RV([1],[1])', '2.5'):
      ctx.evaluations += 1
      ctx.transitions += 1
      o = observe(lambda: O.o_val(ev(T, f'{sel} @ {tgt}')))
      ctx.state((sel, tgt))
      ctx.outcome(o)
      if not (isinstance(o, tuple) and o[0] == 'raised'):
        ctx.violation(f'{sel} @ {tgt}', 'rejected', o)
  for sel in ('Seq(roll(2,2),roll(3))',):
    pass


def job_settings_later(ctx):
  """the order in force when selecting counts, not the one in force when rolling"""
  import target as T
  import obs as O
  for mk_order, sel_order in itertools.product(('highest first', 'lowest first'), repeat=2):
    for n in (2, 3, 4):
      T.settings_set('position order', mk_order)
      p = T.roll(n, 3)
      T.settings_set('position order', sel_order)
      for k in range(0, n + 2):
        ctx.compare(f'pool of {n}d3 rolled under {mk_order}, {k}@ under {sel_order}', lambda: O.o_die(k @ p), ref.select_brute(ref.dn(3), n, (k,), sel_order == 'highest first'))
  T.settings_reset()
  p = T.roll(3, 4)
  for k in range(0, 5):
    ctx.compare(f'{k}@3d4 after reset', lambda: O.o_die(k @ p), ref.select_brute(ref.dn(4), 3, (k,)))


def jobs(tier):
  js = []
  q = tier == 'quick'
  for L in (1, 2, 3) + (() if q else (4,)):
    for vals in itertools.combinations((-1, 0, 1, 2.5, 3), L):
      if q and L == 3 and vals not in ((-1, 0, 1), (0, 1, 3), (-1, 2.5, 3), (0, 2.5, 3)):
        continue
      for first in ((0,), (1,), (2,), (3,)) if L == 3 else ((None,),):
        if L == 3:
          js.append(Job(f'small {vals} w0={first[0]}', job_small3, vals, first[0], (1, 2, 3) if q else (1, 2, 3, 4), 3))
        else:
          js.append(Job(f'small {vals}', job_small, vals, (0, 1, 2, 3) if L < 4 else (1, 2), (1, 2, 3, 4) + ((5,) if not q and L < 4 else ()), 3 if q else 4 if L < 3 else 3))
  js.append(Job('small uniform 4', job_small, (1, 2, 3, 4), (1,), (4,), 3))
  js += [Job(f'big {BIG[i][0]}', job_big, i) for i in range(len(BIG))]
  js += [Job(f'multi {MULTI[i][0]}', job_multi, i) for i in range(len(MULTI))]
  js += [Job(f'long {d[0]} {n} {m} {st}', job_long, d, n, m, st) for d, n, m, st in LONG + LONGER * (not q)]
  for s, n in ((1, 20), (2, 40), (3, 24), (4, 20), (5, 16), (6, 16), (8, 12), (10, 10), (12, 8), (20, 6)):
    m = n if q else n * 3 // 2
    js += [Job(f'sweep d{s} {i}', job_sweep, s, i, min(m, i + 1)) for i in range(1, m + 1, 2)]
  js += [Job(f'rare {p}', job_rare, p, 8) for p in range(8)]
  js += [Job('forms', job_forms), Job('settings later', job_settings_later)]
  return js


def job_small3(ctx, vals, w0, sizes, tl):
  import target as T
  import obs as O
  for ws in itertools.product((w0,), (0, 1, 2, 3), (1, 2) if len(sizes) == 3 else (0, 1, 2, 3)):
    if sum(ws) == 0:
      continue
    c = ref.die(vals, ws)
    for n in sizes:
      pcode = f'roll({n},RV({list(vals)},{list(ws)}))'
      pool = ev(T, pcode)
      tuples = [t for L in range(2, tl + 1) for t in itertools.product(range(0, n + 2), repeat=L)]
      if n >= 3:
        tuples = [t for t in tuples if len(t) <= 2 or tuple(sorted(t)) == t]
      check_pool(ctx, T, O, pcode, pool, c, n, range(-1, n + 3), tuples, ('Seq',))
