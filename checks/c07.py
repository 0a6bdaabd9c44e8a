"""C07: sequence construction, access and operators."""
import itertools
import operator as op
import ref
from mc import Job, observe
PID = 'C07'
META = dict(
  rule='every sequence up to the length bound over {-1,0,1,2} (plus fractional and large values): construction in every nesting shape, every access position, every pair of sequences / sequence and number (either side, also with plain lists and tuples) under every arithmetic, comparison and boolean operator',
  bounds='quick: pairs of sequences of length <= 3 (and length 4 against 30 sequences), nesting shapes of up to 4 elements, very low and very high elements, sequences of up to 1000 elements differing in one place, 150 nested lists; thorough: all pairs of length <= 4; both tiers also: negative positions with set_one_indexed',
  assumptions=['order of dice faces relative to numbers inside one mixed list is not specified (compared as multiset)', 'digits of negative or fractional numbers are not specified'])
AR = {'+': op.add, '-': op.sub, '*': op.mul, '//': op.floordiv, '/': op.truediv, '%': op.mod, '**': op.pow}
CM = {'==': op.eq, '!=': op.ne, '<': op.lt, '<=': op.le, '>': op.gt, '>=': op.ge}
BO = {'&': op.and_, '|': op.or_}
INF = float('-inf')


def m_arith(o, a, b):
  try:
    r = AR[o](a, b)
  except (ZeroDivisionError, OverflowError):
    return None
  return 'skip' if isinstance(r, complex) else ('num', r)


def m_cmp_ss(o, a, b):
  n = max(len(a), len(b))
  x = a + (INF,) * (n - len(a))
  y = b + (INF,) * (n - len(b))
  if o == '!=':
    return ('num', 0 if all(p == q for p, q in zip(x, y)) else 1)
  return ('num', 1 if all(CM[o](p, q) for p, q in zip(x, y)) else 0)


def do(ctx, O, case, run, exp):
  if exp == 'skip':
    return
  if exp is None:
    ctx.evaluations += 1
    ctx.transitions += 1
    o = observe(run)
    if not (isinstance(o, tuple) and o[0] == 'raised'):
      ctx.violation(case, 'an error', o)
    return
  ctx.compare(case, run, exp)


def pair_ops(ctx, T, O, a, A, an, b, B, bn):
  """a, b tuples; A, B real objects (at least one Seq)"""
  sa, sb = sum(a), sum(b)
  for o in AR:
    if o == '**' and (abs(sb) > 64):
      continue
    do(ctx, O, f'{an} {o} {bn}', lambda: O.o_val(AR[o](A, B)), m_arith(o, sa, sb))
  for o in CM:
    do(ctx, O, f'{an} {o} {bn}', lambda: O.o_val(CM[o](A, B)), m_cmp_ss(o, a, b))
  for o in BO:
    e = int(bool(sa) and bool(sb)) if o == '&' else int(bool(sa) or bool(sb))
    do(ctx, O, f'{an} {o} {bn}', lambda: O.o_val(BO[o](A, B)), ('num', e))


def job_pairs(ctx, lefts, rights, lists):
  import target as T
  import obs as O
  rs = [(b, T.Seq(*b)) for b in rights]
  for a in lefts:
    A = T.Seq(*a)
    for b, B in rs:
      pair_ops(ctx, T, O, a, A, f'Seq{a}', b, B, f'Seq{b}')
      if lists:
        for mk in (list, tuple):
          L = mk(b)
          for o in CM:
            do(ctx, O, f'Seq{a} {o} {L}', lambda: O.o_val(CM[o](A, L)), m_cmp_ss(o, a, b))
            do(ctx, O, f'{mk(a)} {o} Seq{b}', lambda: O.o_val(CM[o](mk(a), B)), m_cmp_ss(o, a, b))
    if tuple(A) != a:
      ctx.violation(f'Seq{a} changed by operators', a, tuple(A))


def job_numbers(ctx, seqs):
  import target as T
  import obs as O
  nums = (-2, -1, 0, 1, 2, 3, 0.5, -1.5, 10**12, True, False, 2.0)
  for a in seqs:
    A = T.Seq(*a)
    s = sum(a)
    for k in nums:
      for o in AR:
        if o == '**' and (abs(k) > 64 or abs(s) > 64):
          continue
        do(ctx, O, f'Seq{a} {o} {k}', lambda: O.o_val(AR[o](A, k)), m_arith(o, s, k))
        do(ctx, O, f'{k} {o} Seq{a}', lambda: O.o_val(AR[o](k, A)), m_arith(o, k, s))
      for o in CM:
        do(ctx, O, f'Seq{a} {o} {k}', lambda: O.o_val(CM[o](A, k)), ('num', sum(1 for x in a if CM[o](x, k))))
        do(ctx, O, f'{k} {o} Seq{a}', lambda: O.o_val(CM[o](k, A)), ('num', sum(1 for x in a if CM[o](k, x))))
      for o in BO:
        e = int(bool(s) and bool(k)) if o == '&' else int(bool(s) or bool(k))
        do(ctx, O, f'Seq{a} {o} {k}', lambda: O.o_val(BO[o](A, k)), ('num', e))
        do(ctx, O, f'{k} {o} Seq{a}', lambda: O.o_val(BO[o](k, A)), ('num', e))
    do(ctx, O, f'~Seq{a}', lambda: O.o_val(~A), ('num', 1 if s == 0 else 0))
    do(ctx, O, f'len(Seq{a})', lambda: len(A), len(a))
    do(ctx, O, f'tuple(Seq{a})', lambda: (tuple(A), tuple(A)), (a, a))
    do(ctx, O, f'Seq{a}.sum()', lambda: (A.sum(), A.sum()), (s, s))
    n = len(a)
    for i in range(-3, n + 4):
      e = a[i - 1] if 1 <= i <= n else 0
      do(ctx, O, f'Seq{a}[{i}]', lambda: A[i], e)
      do(ctx, O, f'{i} @ Seq{a}', lambda: O.o_val(i @ A), ('num', e))
      do(ctx, O, f'Seq({i}) @ Seq{a}', lambda: O.o_val(T.Seq(i) @ A), ('num', e))
    for t in itertools.chain([()], itertools.product(range(-1, n + 2), repeat=2), [(1, 2, 3), (n, n, n), (0, 1, n + 1), (3, 2, 1, 1)]):
      e = sum(a[i - 1] for i in t if 1 <= i <= n)
      do(ctx, O, f'Seq{t} @ Seq{a}', lambda: O.o_val(T.Seq(*t) @ A), ('num', e))
      do(ctx, O, f'{list(t)} @ Seq{a}', lambda: O.o_val(list(t) @ A), ('num', e))
      do(ctx, O, f'Seq{t} @ {list(a)}', lambda: O.o_val(T.Seq(*t) @ list(a)), ('num', e))
    do(ctx, O, f'Seq{a} unchanged', lambda: tuple(A), a)


def job_digits(ctx):
  import target as T
  import obs as O
  for num in [0, 7, 10, 305, 98765, 1234567890123456789012] + [10**k + d for k in (1, 2, 3, 9, 14, 15, 16, 17, 18, 22, 23, 40) for d in (-1, 0, 1)] + [2**k + d for k in (31, 53, 63, 64, 100) for d in (-1, 0, 1)] + [int('1234567890' * 3), int('9' * 200)]:
    ds = [int(c) for c in str(num)]
    for i in range(-1, len(ds) + 3):
      do(ctx, O, f'Seq({i}) @ {num}', lambda: O.o_val(T.Seq(i) @ num), ('num', ds[i - 1] if 1 <= i <= len(ds) else 0))
      do(ctx, O, f'[{i}] @ Seq @ {num}', lambda: O.o_val(T.Seq(i, 1, i) @ num), ('num', 2 * (ds[i - 1] if 1 <= i <= len(ds) else 0) + ds[0]))
    for t in itertools.chain([()], itertools.product(range(-1, 7), repeat=1), itertools.product(range(0, 7), repeat=2), [(1, 22), (5, 5, 5)]):
      e = sum(ds[i - 1] for i in t if 1 <= i <= len(ds))
      do(ctx, O, f'Seq{t} @ {num}', lambda: O.o_val(T.Seq(*t) @ num), ('num', e))


def shapes(xs):
  """every way to bracket a list of elements into nested lists (depth <= 2 extra levels)"""
  n = len(xs)
  if n == 0:
    return [[], [[]], [[], [[]]]]
  res = []
  for cut in range(2**(n - 1)):
    parts, cur = [], [xs[0]]
    for i in range(1, n):
      if cut >> (i - 1) & 1:
        parts.append(cur)
        cur = [xs[i]]
      else:
        cur.append(xs[i])
    parts.append(cur)
    for wrap in itertools.product((0, 1, 2, 3), repeat=len(parts)):
      out = []
      for w, p in zip(wrap, parts):
        if w == 0:
          out.extend(p)
        elif w == 1:
          out.append(p)
        elif w == 2:
          out.append(tuple([p, []]))
        else:
          out.append([[p]])
      res.append(out)
  return res


def job_build(ctx, L):
  import target as T
  import obs as O
  base = [(3, 1, 3, -2), (0, 0.5, 0, 7)]
  for b in base:
    xs = list(b[:L])
    for sh in shapes(xs):
      for nm, mk in (('Seq', T.Seq), ('get_seq', T.get_seq)):
        do(ctx, O, f'{nm}(*{sh})', lambda: O.o_val(mk(*sh)), ('seq', tuple(xs)))
        do(ctx, O, f'{nm}({sh})', lambda: O.o_val(mk(sh)), ('seq', tuple(xs)))
        do(ctx, O, f'{nm}(Seq(*{sh}), 9)', lambda: O.o_val(mk(T.Seq(*sh), 9)), ('seq', (*xs, 9)))
        do(ctx, O, f'{nm}(8, {nm}({sh}), Seq())', lambda: O.o_val(mk(8, mk(sh), T.Seq())), ('seq', (8, *xs)))
        do(ctx, O, f'{nm}(generator over {sh})', lambda: O.o_val(mk(q for q in sh)), ('seq', tuple(xs)))


def job_build_dice(ctx):
  import target as T
  import obs as O
  dice = [('roll(3)', T.roll(3), (1, 2, 3)), ('RV([5,-1],[1,3])', T.RV([5, -1], [1, 3]), (-1, 5)), ('roll(2,2)', T.roll(2, 2), (2, 3, 4)), ('RV([7],[2])', T.RV([7], [2]), (7,)), ('BlankRV()', T.BlankRV(), ())]
  for nm, mk in (('Seq', T.Seq), ('get_seq', T.get_seq)):
    for n in (1, 2, 3):
      for ds in itertools.product(dice, repeat=n):
        e = tuple(v for d in ds for v in d[2])
        do(ctx, O, f'{nm}({", ".join(d[0] for d in ds)})', lambda: O.o_val(mk(*[d[1] for d in ds])), ('seq', e))
        do(ctx, O, f'{nm}([{", ".join(d[0] for d in ds)}])', lambda: O.o_val(mk([d[1] for d in ds])), ('seq', e))
    for d in dice:
      for nums in ((14,), (14, 10), (19, 19)):
        for pos in range(len(nums) + 1):
          src = list(nums[:pos]) + [d[1]] + list(nums[pos:])
          do(ctx, O, f'sorted {nm}({nums} with {d[0]} at {pos})', lambda: sorted(mk(src)), sorted(d[2] + nums))
          do(ctx, O, f'numbers in order in {nm}({nums} with {d[0]} at {pos})', lambda: [x for x in mk(src) if x in nums], [x for x in nums])
  for a, b in itertools.product([(), (1,), (1, 2), (2, 1), (1, 1), (1.0, 2)], repeat=2):
    do(ctx, O, f'seqs_are_equal(Seq{a},Seq{b})', lambda: bool(T.Seq.seqs_are_equal(T.Seq(*a), T.Seq(*b))), a == b)
    do(ctx, O, f'seqs_are_equal({list(a)},{list(b)})', lambda: bool(T.Seq.seqs_are_equal(list(a), list(b))), a == b)
  for n in (10, 65, 200, 1000):
    xs = tuple((i * 7) % 23 - 5 for i in range(n))
    do(ctx, O, f'long sequence {n}', lambda: O.o_val(T.Seq(*xs)), ('seq', xs))
    do(ctx, O, f'long range {n}', lambda: O.o_val(T.get_seq(range(n), [range(3)])), ('seq', tuple(range(n)) + (0, 1, 2)))
    S = T.Seq(xs)
    for i in (0, 1, 2, n // 2, n - 1, n, n + 1):
      do(ctx, O, f'{i} @ long {n}', lambda: O.o_val(i @ S), ('num', xs[i - 1] if 1 <= i <= n else 0))
    do(ctx, O, f'all positions of long {n}', lambda: O.o_val(T.Seq(range(1, n + 1)) @ S), ('num', sum(xs)))
    for k in (-5, 0, 17, 40):
      for o in CM:
        do(ctx, O, f'long {n} {o} {k}', lambda: O.o_val(CM[o](S, k)), ('num', sum(1 for x in xs if CM[o](x, k))))
    do(ctx, O, f'long {n} == itself', lambda: O.o_val(S == T.Seq(list(xs))), ('num', 1))
    do(ctx, O, f'long {n} == one shorter', lambda: (O.o_val(S == T.Seq(list(xs[:-1]))), O.o_val(S != T.Seq(list(xs[:-1]))), O.o_val(S > T.Seq(list(x - 1 for x in xs[:-1])))), (('num', 0), ('num', 1), ('num', 1)))
  for lo, hi in itertools.product((-3, 0, 1, 2, 5), repeat=2):
    do(ctx, O, f'get_seq(myrange({lo},{hi}))', lambda: O.o_val(T.get_seq(T.myrange(lo, hi))), ('seq', tuple(range(lo, hi + 1))))
  for bad in ('roll(2)', 'BlankRV()', 'RV([3],[1])'):
    x = eval(bad, dict(vars(T)))
    do(ctx, O, f'myrange({bad},3)', lambda: list(T.myrange(x, 3)), None)
    do(ctx, O, f'myrange(1,{bad})', lambda: list(T.myrange(1, x)), None)


def job_scale(ctx, lens):
  """long sequences: pairs that differ in one place only, and deep nesting"""
  import target as T
  import obs as O
  for n in lens:
    a = tuple((i * 5) % 7 - 2 for i in range(n))
    A = T.Seq(*a)
    for i in sorted({0, 1, n // 2, n - 2, n - 1} & set(range(n))):
      for dx in (-1, 1, 0.5, 10**9):
        b = a[:i] + (a[i] + dx,) + a[i + 1:]
        B = T.Seq(*b)
        for o in CM:
          do(ctx, O, f'{n} elements {o} the same with element {i} changed by {dx}', lambda: O.o_val(CM[o](A, B)), m_cmp_ss(o, a, b))
      short = a[:i]
      for o in CM:
        do(ctx, O, f'{n} elements {o} its first {i}', lambda: O.o_val(CM[o](A, T.Seq(*short))), m_cmp_ss(o, a, short))
        do(ctx, O, f'first {i} of {n} elements {o} all', lambda: O.o_val(CM[o](T.Seq(*short), A)), m_cmp_ss(o, short, a))
    s = sum(a)
    for o in AR:
      if o != '**':
        do(ctx, O, f'{n} elements {o} 3', lambda: O.o_val(AR[o](A, 3)), m_arith(o, s, 3))
        do(ctx, O, f'{n} elements {o} itself', lambda: O.o_val(AR[o](A, A)), m_arith(o, s, s))
    for o in BO:
      do(ctx, O, f'{n} elements {o} 1', lambda: O.o_val(BO[o](A, 1)), ('num', int(bool(s)) if o == '&' else 1))
    z = a + (-s,)
    do(ctx, O, f'~ of {n} elements summing to 0', lambda: (O.o_val(~T.Seq(*z)), O.o_val(T.Seq(*z) & 1), O.o_val(0 | T.Seq(*z))), (('num', 1), ('num', 0), ('num', 0)))
    for pos in range(-n - 3, n + 4) if n <= 70 else (0, 1, 2, n // 2, n - 1, n, n + 1, -1, -2, -n // 2, 1 - n, -n, -1 - n, 2 * n, -2 * n):
      do(ctx, O, f'{pos} @ {n} elements', lambda: (O.o_val(pos @ A), O.o_val(A[pos])), (('num', a[pos - 1] if 1 <= pos <= n else 0),) * 2)
    do(ctx, O, f'every second position of {n}', lambda: O.o_val(T.Seq(range(1, n + 1, 2)) @ A), ('num', sum(a[::2])))
    do(ctx, O, f'position {n} repeated {n} times', lambda: O.o_val(T.Seq([n] * n) @ A), ('num', n * a[-1]))
    nest = list(a[:1])
    for x in a[1:min(n, 150)]:
      nest = [nest, x] if x % 2 else [[x], nest]
    flat = list(a[:1])
    for x in a[1:min(n, 150)]:
      flat = flat + [x] if x % 2 else [x] + flat
    for nm, mk in (('Seq', T.Seq), ('get_seq', T.get_seq)):
      do(ctx, O, f'{nm} of {min(n, 150)} nested lists', lambda: O.o_val(mk(nest)), ('seq', tuple(flat)))
      do(ctx, O, f'{nm} of {n} one-element lists', lambda: O.o_val(mk(*[[x] for x in a])), ('seq', a))
      do(ctx, O, f'{nm} of {n} sequences', lambda: O.o_val(mk([T.Seq(x, x + 1) for x in a])), ('seq', tuple(y for x in a for y in (x, x + 1))))
      do(ctx, O, f'{nm} of a die with {n} faces', lambda: O.o_val(mk(T.roll(n))), ('seq', tuple(range(1, n + 1))))


def job_zero_based(ctx, n):
  """a sequence switched to zero-based positions (and back); only that sequence is affected, and only as the one selected from"""
  import target as T
  import obs as O
  for t in itertools.product((-1, 0, 3, 2.5), repeat=n):
    for hist in [(), (False,), (True,), (False, True), (False, False), (True, False), (False, True, False), (0,), (1,)]:
      S, plain = T.Seq(*t), T.Seq(*t)
      for h in hist:
        S.set_one_indexed(h)
      base = 1 if not hist or hist[-1] else 0
      at = lambda i, b: t[i - b] if 0 <= i - b < n else 0
      name = f'Seq{t} after set_one_indexed {hist}'
      do(ctx, O, name, lambda: (O.o_val(S), len(S), S.sum(), O.o_val(S == plain), O.o_val(T.Seq(S))), (('seq', t), n, sum(t), ('num', 1), ('seq', t)))
      for i in range(-2, n + 3):
        do(ctx, O, f'{i} @ {name}', lambda: (O.o_val(i @ S), O.o_val(S[i]), O.o_val(i @ plain), O.o_val(i @ T.Seq(S))), (('num', at(i, base)), ('num', at(i, base)), ('num', at(i, 1)), ('num', at(i, 1))))
        for j in (0, 1, n):
          do(ctx, O, f'[{i},{j}] @ {name}', lambda: (O.o_val([i, j] @ S), O.o_val(T.Seq(i, j) @ S)), (('num', at(i, base) + at(j, base)),) * 2)
      if all(isinstance(v, int) for v in t):
        do(ctx, O, f'{name} as selector', lambda: (O.o_val(S @ T.Seq(5, 7, 9)), O.o_val(S @ 579)), (('num', sum((5, 7, 9)[v - 1] if 1 <= v <= 3 else 0 for v in t)), ('num', sum((5, 7, 9)[v - 1] if 1 <= v <= 3 else 0 for v in t))))


def jobs(tier):
  q = tier == 'quick'
  V = (-1, 0, 1, 2)
  upto3 = [t for L in range(0, 4) for t in itertools.product(V, repeat=L)]
  four = list(itertools.product(V, repeat=4))
  fl = [(0.5,), (0.5, 2), (-1.5, 1.5), (10**12, 1), (2.0, 2), (1, 0.5, -3)]
  js = []
  small = [t for t in upto3 if len(t) <= 2]
  for i in range(0, len(upto3), 9):
    js.append(Job(f'pairs {i}', job_pairs, upto3[i:i + 9], upto3 + fl, False))
  for i in range(0, len(small), 5):
    js.append(Job(f'pairs lists {i}', job_pairs, small[i:i + 5], small, True))
  js.append(Job('pairs fl', job_pairs, fl, upto3[:25] + fl, True))
  r4 = upto3 + four if not q else upto3[::3]
  for i in range(0, len(four), 16):
    js.append(Job(f'pairs4 {i}', job_pairs, four[i:i + 16], r4, False))
  allseq = upto3 + fl + (four if not q else four[::5])
  for i in range(0, len(allseq), 12):
    js.append(Job(f'numbers {i}', job_numbers, allseq[i:i + 12]))
  low = [(-10**6,), (-10**9, 0), (0, -10**12), (-10**12 - 1,), (1, -10**13), (-2**31, -2**31 - 1), (-2**63 - 1,), (1, -10**18, 2), (-10**30,), (2, 1, -10**40), (-1e300,), (0, -1.7e308), (-2**1030,), (10**12,), (10**30, 1)]
  for i in range(0, len(low), 4):
    js.append(Job(f'pairs low {i}', job_pairs, low[i:i + 4], low + [t for t in upto3 if len(t) <= 2] + fl, True))
    js.append(Job(f'pairs low back {i}', job_pairs, [t for t in upto3 if len(t) <= 2] + fl, low[i:i + 4], True))
  js.append(Job('digits', job_digits))
  js += [Job(f'build {L}', job_build, L) for L in range(0, 5)]
  js.append(Job('build dice', job_build_dice))
  js += [Job(f'scale {n}', job_scale, n) for n in ((1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12), (15, 16, 17, 20, 31, 32, 33), (50, 63, 64, 65, 99), (100, 101, 127, 128), (200, 255, 256, 257), (500, 1000))]
  js += [Job(f'zero based {n}', job_zero_based, n) for n in range(0, 4)]
  return js
