"""C02: construction and canonical form of dice."""
import itertools
import math
from fractions import Fraction
import ref
from mc import Job, observe
PID = 'C02'
META = dict(
  rule='every list of (value, weight) pairs up to the length bound over a value alphabet with int/float/bool duplicates and weights 0..3, in every order, under every combination of the truncate argument and the two settings; every rejected input form; every pair of the constructed dice for equality and hash; every mixture of up to 3 components',
  bounds='quick: lists of length <= 3 (7 values x 4 weights; length 4 over 4 values x 3 weights), long lists up to 2000 entries in fixed patterns, mixtures of up to 257 components, all triples over 14 values that nearly coincide; thorough: length 4 over 6 values x 4 weights, mixtures of 4',
  assumptions=['dice whose weights are all zero have no distribution and are only checked for structure'])
VALS = (-1, 0, 1, 2, 0.5, True, 1.0)


def model(vals, ws, trunc, ign):
  d = {}
  for v, w in zip(vals, ws):
    v = int(v) if trunc or isinstance(v, bool) else v
    d[v] = d.get(v, 0) + w
  if ign:
    d = {v: w for v, w in d.items() if w}
  if not d:
    return ((0, 1),)
  g = math.gcd(*d.values())
  return tuple((v, w // g if g > 1 else w) for v, w in sorted(d.items()))


def check_one(ctx, T, vals, ws, targ, strunc, sign, as_iter=0):
  trunc = strunc if targ is None else targ
  exp = model(vals, ws, trunc, sign)

  def run():
    v, w = list(vals), list(ws)
    if as_iter == 1:
      x = T.RV(iter(v), (q for q in w), targ)
    elif as_iter == 2:
      x = T.RV(tuple(v), tuple(w), truncate=targ)
    elif targ is None:
      x = T.RV(v, w)
    else:
      x = T.RV(v, w, truncate=targ)
    if v != list(vals) or w != list(ws):
      return 'arguments changed'
    if any(isinstance(q, bool) for q in x.vals):
      return ('bool value', x.vals)
    if any(type(q) is not int for q in x.probs):
      return ('non-int weight', x.probs)
    if trunc and any(type(q) is not int for q in x.vals):
      return ('not truncated', x.vals)
    return tuple(zip(x.vals, x.probs)) if len(x.vals) == len(x.probs) else 'length mismatch'
  ctx.compare(f'RV({list(vals)},{list(ws)}, truncate={targ}) RV_TRUNC={strunc} RV_IGNORE_ZERO_PROBS={sign}', run, exp)


def job_lists(ctx, vals, weights, length, strunc, sign, targs):
  import target as T
  if strunc:
    T.settings_set('RV_TRUNC', True)
  if sign:
    T.settings_set('RV_IGNORE_ZERO_PROBS', True)
  n = 0
  for vs in itertools.product(vals, repeat=length):
    for ws in itertools.product(weights, repeat=length):
      for t in targs:
        n += 1
        check_one(ctx, T, vs, ws, t, strunc, sign, as_iter=n % 3)


def job_long(ctx):
  import target as T
  for strunc, sign in itertools.product((False, True), repeat=2):
    T.settings_set('RV_TRUNC', strunc)
    T.settings_set('RV_IGNORE_ZERO_PROBS', sign)
    for n in (5, 8, 16, 17, 31, 33, 64, 65, 100, 127, 128, 129, 256, 257, 500, 1000, 2000):
      for m in (1, 2, 3, 7, 10, n // 2 + 1, n):
        for mul in (1, 7, -3):
          for off in (0, -5):
            vs = [((i * mul) % m) + off for i in range(n)]
            for ws in ([1] * n, [i % 4 for i in range(n)], [(i * i) % 5 * 6 for i in range(n)], [2**(i % 90) for i in range(n)]):
              check_one(ctx, T, vs, ws, None, strunc, sign)
        vs = [i * 0.5 - 3 for i in range(n)]
        check_one(ctx, T, vs, [3] * n, None, strunc, sign)
        check_one(ctx, T, vs[::-1], [3 * (i + 1) for i in range(n)], True, strunc, sign)
    for vs, ws in [([2**60, 2**60 + 1, -2**60], [4, 6, 8]), ([1e300, -1e300, 1e-300], [1, 2, 3]), ([10**30, 1, 10**30], [10**40, 2 * 10**40, 10**40]), ([3], [10**50]), ([], []), ([2**53, 2.0**53, 2**53 + 1], [1, 1, 1]), ([-0.5, 0.4, -0.9, 0.9], [1, 2, 3, 4]), ([-1.5, -2.5, 2.999999], [2, 2, 2])]:
      for t in (None, True, False):
        check_one(ctx, T, vs, ws, t, strunc, sign)


NEARV = (0.3, 0.1 + 0.2, 1.0, 1 - 2**-53, 1 + 2**-52, 1, 1e-13, 0, -1e-300, 2**53, 2.0**53 + 2, 2**53 + 1, 1e16, 10**16 + 1)


def job_near(ctx):
  """values that differ by less than any tolerance stay apart"""
  import target as T
  for st, sg in itertools.product((False, True), repeat=2):
    T.settings_set('RV_TRUNC', st)
    T.settings_set('RV_IGNORE_ZERO_PROBS', sg)
    for L in (2, 3):
      for vs in itertools.product(NEARV, repeat=L):
        for ws in ((1,) * L, tuple(range(1, L + 1)), (3, 0, 2)[:L]):
          check_one(ctx, T, vs, ws, None, st, sg)
  T.settings_set('RV_TRUNC', False)
  T.settings_set('RV_IGNORE_ZERO_PROBS', False)
  for a, b in itertools.product(NEARV, repeat=2):
    ctx.compare(f'dice on {a!r} and {b!r} equal', lambda: (bool(T.RV.dices_are_equal(T.RV([a, 5], [1, 2]), T.RV([b, 5], [1, 2]))), bool(T.RV.dices_are_equal(a, b)), bool(T.RV.dices_are_equal(a, T.RV([b], [1])))), (a == b,) * 3)
    ctx.compare(f'mixture of {a!r} and {b!r}', lambda: (lambda x: tuple(zip(x.vals, x.probs)))(T.RV.from_rvs([a, T.RV([b], [4])], [1, 2])), model((a, b), (1, 2), False, False))


def job_reject(ctx):
  import target as T
  bad = []
  for n in (1, 2, 3, 4):
    for pos in range(n):
      for b in (-1, -5, 0.5, 1.0, 2.5, '1', None, Fraction(1, 2)):
        ws = [1] * n
        ws[pos] = b
        bad.append((list(range(n)), ws))
    for m in range(0, 6):
      if m != n:
        bad.append((list(range(n)), [1] * m))
  bad.append(([], [1]))
  for n in (50, 300):  # a single bad weight among many good ones
    for pos in (0, 1, n // 2, n - 2, n - 1):
      for b in (-1, 0.5):
        ws = [1] * n
        ws[pos] = b
        bad.append((list(range(n)), ws))
        bad.append(([7] * n, ws))  # cancelled by grouping if checked too late
    bad.append((list(range(n)), [1] * (n - 1)))
    bad.append((list(range(n)), [1] * (n + 1)))
  for ign in (False, True):
    T.settings_set('RV_IGNORE_ZERO_PROBS', ign)
    for vs, ws in bad:
      ctx.evaluations += 1
      ctx.transitions += 1
      o = observe(lambda: repr(T.RV(list(vs), list(ws)).probs))
      ctx.outcome(o)
      ctx.state((vs, [str(w) for w in ws], ign))
      if not (isinstance(o, tuple) and o[0] == 'raised'):
        ctx.violation(f'RV({vs},{ws}) with RV_IGNORE_ZERO_PROBS={ign}', 'rejected', o)


def job_equal(ctx):
  import target as T
  specs = []
  for L in (1, 2, 3):
    for vs in itertools.combinations((-1, 0, 1, 2, 0.5), L):
      for ws in itertools.product((1, 2, 3), repeat=L):
        specs.append((vs, ws))
  seen = {}
  dice = []
  for vs, ws in specs:
    c = ref.die(vs, ws)
    dice.append((f'RV({vs},{ws})', T.RV(vs, ws), c))
    if c not in seen:
      seen[c] = 1
      # the same distribution written differently: scaled, split, reversed
      k = [3 * w for w in ws]
      dice.append((f'RV({vs[::-1]},{k[::-1]})', T.RV(vs[::-1], k[::-1]), c))
      dice.append((f'RV({vs + vs},{ws + ws})', T.RV(vs + vs, ws + ws), c))
  dice += [('roll(2,2)', T.roll(2, 2), ref.add_n(ref.dn(2), 2)), ('roll(2)+roll(2)', T.roll(2) + T.roll(2), ref.add_n(ref.dn(2), 2)), ('RV([2,3,4],[1,2,1])', T.RV([2, 3, 4], [1, 2, 1]), ref.add_n(ref.dn(2), 2)), ('RV([2,3.0,4],[1,2,1])', T.RV([2, 3.0, 4], [1, 2, 1]), ref.add_n(ref.dn(2), 2))]
  for i, (na, a, ca) in enumerate(dice):
    for nb, b, cb in dice:
      ctx.compare(f'dices_are_equal({na},{nb})', lambda: bool(T.RV.dices_are_equal(a, b)), ca == cb)
      if ca == cb:
        ctx.compare(f'hash({na})==hash({nb})', lambda: hash(a) == hash(b), True)
  # numbers and sequences in place of dice
  others = [('0', 0, ref.const(0)), ('1', 1, ref.const(1)), ('0.5', 0.5, ref.const(0.5)), ('[1,2]', [1, 2], ref.die([1, 2])), ('Seq(1,2)', T.Seq(1, 2), ref.die([1, 2])), ('Seq(2,1,1)', T.Seq(2, 1, 1), ref.die([2, 1, 1])), ('(1,1)', (1, 1), ref.const(1)), ('[]', [], ref.const(0)), ('True', True, ref.const(1))]
  for na, a, ca in others:
    for nb, b, cb in dice[::7] + [x for x in dice if x[2] in [o[2] for o in others]] + others:
      ctx.compare(f'dices_are_equal({na},{nb})', lambda: bool(T.RV.dices_are_equal(a, b)), ca == cb)
      ctx.compare(f'dices_are_equal({nb},{na})', lambda: bool(T.RV.dices_are_equal(b, a)), ca == cb)
  B = T.BlankRV()
  for nb, b, cb in dice[:5] + others:
    ctx.compare(f'dices_are_equal(BlankRV(),{nb})', lambda: (bool(T.RV.dices_are_equal(B, b)), bool(T.RV.dices_are_equal(b, B))), (False, False))
  ctx.compare('dices_are_equal(BlankRV(),BlankRV())', lambda: bool(T.RV.dices_are_equal(B, T.BlankRV())), True)


def job_convert(ctx):
  import target as T
  import obs as O
  for v in (-2, 0, 1, 7, 0.5, -1.5, True, 10**25):
    ctx.compare(f'RV.from_const({v})', lambda: O.o_die(T.RV.from_const(v)), ref.die([v]))
  for L in range(0, 5):
    for vs in itertools.product((-1, 0, 1, 2.5), repeat=L):
      exp = ref.die(vs) if L else ref.const(0)
      ctx.compare(f'RV.from_seq({list(vs)})', lambda: O.o_die(T.RV.from_seq(list(vs))), exp)
      ctx.compare(f'RV.from_seq(Seq({list(vs)}))', lambda: O.o_die(T.RV.from_seq(T.Seq(*vs))), exp)
  for n in (10, 100, 1000):
    vs = [i % 13 for i in range(n)]
    ctx.compare(f'RV.from_seq(i%13 for i<{n})', lambda: O.o_die(T.RV.from_seq(vs)), ref.die(vs))


def job_mix(ctx, n, first, weights):
  import target as T
  import obs as O
  comps = [('roll(2)', T.roll(2), ref.dn(2)), ('roll(3)', T.roll(3), ref.dn(3)), ('RV([1,2],[1,4])', T.RV([1, 2], [1, 4]), ref.die([1, 2], [1, 4])), ('RV([0.5,-3,2],[2,3,1])', T.RV([0.5, -3, 2], [2, 3, 1]), ref.die([0.5, -3, 2], [2, 3, 1])),
           ('4', 4, ref.const(4)), ('0.5', 0.5, ref.const(0.5)), ('roll(3,6)', T.roll(3, 6), ref.add_n(ref.dn(6), 3)), ('None', None, None), ('BlankRV()', T.BlankRV(), None), ('RV([1,5],[0,3])', T.RV([1, 5], [0, 3]), ref.const(5)), ('True', True, ref.const(1))]
  for rest in itertools.product(comps, repeat=n - 1):
    cs = (comps[first], *rest)
    for ws in [None] + list(itertools.product(weights, repeat=n)):
      w = ws or [1] * n
      parts = [(c[2], q) for c, q in zip(cs, w) if c[2] is not None]
      if parts and sum(q for _, q in parts) == 0:
        continue
      exp = ref.mix([p for p in parts if p[1]]) if parts else ('blank', 0)
      before = [O.snap(c[1]) for c in cs]

      def run():
        objs = [c[1] for c in cs]
        x = T.RV.from_rvs(objs) if ws is None else T.RV.from_rvs(rvs=tuple(objs), weights=list(ws))
        o = O.o_die(x)
        return o if [O.snap(c[1]) for c in cs] == before else 'components changed'
      ctx.compare(f'RV.from_rvs([{",".join(c[0] for c in cs)}], weights={ws})', run, exp)


def job_scale(ctx):
  """mixtures of many components, equality of large dice differing in one weight or value"""
  import target as T
  import obs as O
  for n in (4, 5, 8, 9, 10, 16, 17, 33, 64, 65, 100, 128, 200, 257):
    comps = [((T.roll(i % 5 + 1), ref.dn(i % 5 + 1)) if i % 3 == 0 else (i % 7, ref.const(i % 7)) if i % 3 == 1 else (T.RV([i % 4, 9], [1, i % 4 + 1]), ref.die([i % 4, 9], [1, i % 4 + 1]))) for i in range(n)]
    for wn, ws in (('none', None), ('1', [1] * n), ('i%4', [i % 4 for i in range(n)]), ('one', [0] * (n - 1) + [3]), ('6', [6 * (i % 3 + 1) for i in range(n)])):
      w = ws or [1] * n
      ctx.compare(f'from_rvs of {n} components, weights {wn}', lambda: O.o_die(T.RV.from_rvs([c for c, _ in comps], ws) if ws else T.RV.from_rvs([c for c, _ in comps])), ref.mix([(m, q) for (_, m), q in zip(comps, w) if q]))
    holes = [c if i % 2 else (None, None) if i % 4 else (T.BlankRV(), None) for i, c in enumerate(comps)]
    ctx.compare(f'from_rvs of {n} components, every second one empty', lambda: O.o_die(T.RV.from_rvs([c for c, _ in holes], list(range(1, n + 1)))), ref.mix([(m, q + 1) for q, (_, m) in enumerate(holes) if m is not None]))
    vs, ws = [i * 3 - n for i in range(n)], [i * i % 11 + 1 for i in range(n)]
    x = T.RV(vs, ws)
    ctx.compare(f'die with {n} faces equals itself scaled and reversed', lambda: (bool(T.RV.dices_are_equal(x, T.RV(vs[::-1], [5 * w for w in ws[::-1]]))), hash(x) == hash(T.RV(vs[::-1], [5 * w for w in ws[::-1]]))), (True, True))
    for i in sorted({0, 1, n // 2, n - 2, n - 1}):
      ctx.compare(f'die with {n} faces, face {i} different', lambda: (bool(T.RV.dices_are_equal(x, T.RV(vs[:i] + [vs[i] + 1] + vs[i + 1:], ws))), bool(T.RV.dices_are_equal(x, T.RV(vs, ws[:i] + [ws[i] + 1] + ws[i + 1:]))), bool(T.RV.dices_are_equal(T.RV(vs[:i] + vs[i + 1:], ws[:i] + ws[i + 1:]), x))), (False, False, False))


def jobs(tier):
  js = []
  for st, sg in itertools.product((False, True), repeat=2):
    for L in (0, 1, 2):
      js.append(Job(f'lists {L} {st} {sg}', job_lists, VALS, (0, 1, 2, 3), L, st, sg, (None, True, False)))
    js.append(Job(f'lists 3 {st} {sg}', job_lists, VALS, (0, 1, 2, 3), 3, st, sg, (None,) if tier == 'quick' else (None, True, False)))
    js.append(Job(f'lists 4 {st} {sg}', job_lists, (2, 0, 1.0, True) if tier == 'quick' else (2, 0, 1.0, True, 0.5, -1), (0, 2, 4) if tier == 'quick' else (0, 1, 2, 4), 4, st, sg, (None,)))
  js += [Job('long', job_long), Job('scale', job_scale), Job('near', job_near), Job('reject', job_reject), Job('equal', job_equal), Job('convert', job_convert)]
  for f in range(11):
    js.append(Job(f'mix1 {f}', job_mix, 1, f, (0, 1, 2, 3)))
    js.append(Job(f'mix2 {f}', job_mix, 2, f, (0, 1, 2, 3)))
    js.append(Job(f'mix3 {f}', job_mix, 3, f, (1, 2, 3) if tier == 'quick' else (0, 1, 2, 5)))
    if tier == 'thorough':
      js.append(Job(f'mix4 {f}', job_mix, 4, f, (1, 2)))
  return js
