"""C18: dice with text faces."""
import itertools
import math
from fractions import Fraction
from mc import Job, observe
PID = 'C18'
META = dict(
  rule='every die over every small selection of faces from texts (equal, prefix of each other, empty, number-like, containing quotes, blanks, the + and * of printed sums) and numbers, rolled up to n times and added to every other such die, number and sequence in every order and grouping; every pair and triple of a universe of text values (multisets up to size 3 with and without a number) under every comparison, hash and equality; every comparison, selection, filter, mixture, function call, listing (with every cut) of such dice; sequences with texts in every nesting; compiled programs with texts; oracle: enumeration of ordered outcomes, faces collected in multisets',
  bounds='quick: dice of up to 3 faces, up to 4 rolls, sums of 3 operands, universe of 120 values (all triples), dice of up to 40 texts, up to 130 rolls; thorough: dice of up to 4 faces, 6 rolls, universe of 300 values; both tiers also: texts with counted columns',
  assumptions=['adding the number 0 to a text shows as "+ 0"', 'operators other than + and comparisons, negation and several positions of text dice are not specified', 'texts given directly instead of inside a list are not specified'])
TEXTS = ['a', 'b', 'ab', 'B', '', '5', '-2.5', '2*a', 'a + b', '"5"', ' a', 'é', 'water']
NUMS = [0, 1, -1, 2.5, 10]


class M:
  """model value: a number, or a multiset of texts with the sum of the numbers met (None: no number)"""
  __slots__ = ('t', 'n')

  def __init__(self, t, n):
    self.t, self.n = t, n

  def __eq__(self, o):
    return self.t == o.t and self.n == o.n

  def __hash__(self):
    return hash((self.t, self.n))

  def __add__(self, o):
    d = dict(self.t)
    for k, c in o.t:
      d[k] = d.get(k, 0) + c
    return M(tuple(sorted(d.items())), None if self.n is None and o.n is None else (self.n or 0) + (o.n or 0))

  def desc(self):
    if not self.t:
      return ('n', self.n)
    return ('t', ' + '.join([k if c == 1 else f'{c}*{k}' for k, c in self.t] + ([] if self.n is None else [str(self.n)])))

  def show(self):
    """how a listing shows it; None: not specified"""
    k = self.desc()
    if k[0] == 'n':
      return k
    if len(self.t) == 1 and self.n is None and numeric(self.t[0][0]):
      return ('t', f'"{k[1]}"') if self.t[0][1] == 1 else None
    return k


def numeric(s):
  import re
  return re.fullmatch(r'-?[0-9]+(\.[0-9]+)?', s) is not None


def mv(face):
  return M(((face, 1),), None) if isinstance(face, str) else M((), face)


ZERO = M((), None)


def reduce_(items):
  items = [(k, w) for k, w in items if w]
  g = math.gcd(*[w for _, w in items])
  return sorted((k, w // g) for k, w in items)


def freeze(d):
  return reduce_([(k.desc(), w) for k, w in d.items()])


def m_die(faces):
  d = {}
  for f in faces:
    k = mv(f)
    d[k] = d.get(k, 0) + 1
  return d


def m_add(*ds):
  cur = {ZERO: 1}
  for d in ds:
    nxt = {}
    for a, w in cur.items():
      for b, x in d.items():
        k = a + b
        nxt[k] = nxt.get(k, 0) + w * x
    cur = nxt
  return cur


def desc(v):
  return ('n', v) if isinstance(v, (int, float)) else ('t', str(v))


def o_text(T, x):
  if not isinstance(x, T.RV):
    return desc(x)
  vals, probs = x.vals, x.probs
  for a, b in zip(vals, vals[1:]):
    if not (a < b) or b < a or a == b or not b > a or a >= b or not a <= b:
      return ('not increasing', [desc(v) for v in vals])
  kinds = [desc(v)[0] for v in vals]
  if kinds != sorted(kinds):
    return ('numbers after texts', [desc(v) for v in vals])
  if any(type(p) is not int or p < 0 for p in probs) or len(vals) != len(probs) or math.gcd(*probs) != 1:
    return ('weights', probs)
  return sorted((desc(v), p) for v, p in zip(vals, probs) if p)


def faces_sets(k, texts, nums):
  for n in range(1, k + 1):
    for fs in itertools.combinations(texts + nums, n):
      if any(isinstance(f, str) for f in fs):
        yield list(fs)


def j_rolls(ctx, part, nparts, k, maxn):
  import target as T
  for i, fs in enumerate(faces_sets(k, TEXTS, NUMS)):
    if i % nparts != part:
      continue
    d = m_die(fs)
    for n in range(1, maxn + 1):
      ctx.compare(f'roll({n},{fs})', lambda: o_text(T, T.roll(n, fs)), freeze(m_add(*[d] * n)))
    ctx.compare(f'len(roll(3,{fs}))', lambda: len(T.roll(3, fs)), 3)
    e = freeze(d)
    for p in itertools.permutations(fs):
      p = list(p)
      ctx.compare(f'roll({p})', lambda: o_text(T, T.roll(p)), e)
      ctx.compare(f'get_seq {p}', lambda: o_text(T, T.RV.from_seq(T.get_seq(*p))), e)
      ctx.compare(f'{p} as dice, equal', lambda: (T.RV.dices_are_equal(T.roll(p), T.roll(fs)), hash(T.roll(p)) == hash(T.roll(fs))), (True, True))
    for r in fs:  # repeated faces are weights
      ctx.compare(f'roll({[r] + fs})', lambda: o_text(T, T.roll([r] + fs)), freeze(m_die([r] + fs)))
      ctx.compare(f'roll(2,{fs + [r, r]})', lambda: o_text(T, T.roll(2, fs + [r, r])), freeze(m_add(*[m_die(fs + [r, r])] * 2)))
    big = fs * 3 + [fs[0]] * 4
    ctx.compare(f'roll(2,{big})', lambda: o_text(T, T.roll(2, big)), freeze(m_add(*[m_die(big)] * 2)))
    if len(fs) == 2:
      for n in (7, 10, 21):
        ctx.compare(f'roll({n},{fs})', lambda: o_text(T, T.roll(n, fs)), freeze(m_add(*[d] * n)))
      ctx.compare(f'roll(roll(3),{fs})', lambda: o_text(T, T.roll(T.roll(3), fs)), freeze(m_mix([(m_add(*[d] * n), 1) for n in (1, 2, 3)])))
      ctx.compare(f'roll(Seq(1,2),{fs})', lambda: o_text(T, T.roll(T.Seq(1, 2), fs)), freeze(m_add(d, d, d)))


def m_mix(parts):
  d = {}
  for p, w in parts:
    t = sum(p.values())
    for k, x in p.items():
      d[k] = d.get(k, 0) + Fraction(w * x, t)
  L = math.lcm(*[f.denominator for f in d.values()])
  return {k: int(f * L) for k, f in d.items()}


def operands(T):
  """(name, fresh object, model die, kind)"""
  for fs in (['a'], ['a', 'b'], ['a', 'a', 1], ['', 'ab'], ['5', 5], ['b', 'B', 0], ['2*a', 'a'], [1, 2.5, 'é']):
    yield f'roll({fs})', (lambda fs=fs: T.roll(fs)), m_die(fs), 'die'
  yield "roll(2,['a','b'])", lambda: T.roll(2, ['a', 'b']), m_add(*[m_die(['a', 'b'])] * 2), 'die'
  for n in (0, 3, -2, 1.5):
    yield repr(n), (lambda n=n: n), {mv(n): 1}, 'num'
  yield 'roll(3)', lambda: T.roll(3), m_die([1, 2, 3]), 'die'
  yield 'roll(2,2)', lambda: T.roll(2, 2), m_add(m_die([1, 2]), m_die([1, 2])), 'die'
  yield 'Seq(1,4)', lambda: T.Seq(1, 4), {mv(5): 1}, 'seq'
  for fs in (['a'], ['a', 'b'], ['b', 2], ['a', 'a', -1, 'é']):
    yield f'get_seq({fs})', (lambda fs=fs: T.get_seq(*fs)), m_add(*[{mv(f): 1} for f in fs]), 'seq'
  for fs in (['b'], [1, 'a']):
    yield f'{fs}', (lambda fs=fs: list(fs)), m_add(*[{mv(f): 1} for f in fs]), 'list'


def j_sums(ctx, i):
  import target as T
  ops = list(operands(T))
  an, a, am, ak = ops[i]
  one = lambda m: freeze(m) if len(m) > 1 else None  # noqa

  def chk(code, run, m, isdie):
    e = freeze(m)
    if not isdie:
      e = e[0][0]
    ctx.compare(code, lambda: o_text(T, run()), e)
  for bn, b, bm, bk in ops:
    if ak == bk == 'num' or 'list' in (ak, bk) and 'die' not in (ak, bk):
      continue
    ab = m_add(am, bm)
    isd = 'die' in (ak, bk)
    chk(f'{an}+{bn}', lambda: a() + b(), ab, isd)
    chk(f'{bn}+{an}', lambda: b() + a(), ab, isd)
    if isd:
      ctx.compare(f'{an}+{bn} same die in both orders', lambda: (T.RV.dices_are_equal(a() + b(), b() + a()), hash(a() + b()) == hash(b() + a())), (True, True))
    for cn, c, cm, ck in ops[::2] if i % 2 else ops[1::2]:
      if 'list' in (ak, bk, ck) or [ak, bk, ck].count('num') > 1:
        continue
      abc = m_add(ab, cm)
      d3 = isd or ck == 'die'
      for code, run in ((f'({an}+{bn})+{cn}', lambda: (a() + b()) + c()), (f'{an}+({bn}+{cn})', lambda: a() + (b() + c())), (f'{cn}+({bn}+{an})', lambda: c() + (b() + a()))):
        chk(code, run, abc, d3)


def universe(T, size, big):
  """(name, object, model): text values reached in several ways"""
  base = ['a', 'b', 'ab', '', '5'] + (['B', '_x', 'é'] if big else [])
  out = []
  for n in range(1, size + 1):
    for ts in itertools.combinations_with_replacement(base, n):
      for c in (None, 0, 1, -1, 2.5) if n < 3 else (None, 1):
        fs = list(ts) + ([] if c is None else [c])
        m = ZERO
        for f in fs:
          m = m + mv(f)
        out.append((fs, m))
  return out


def builds(T, fs):
  """the same value in several ways"""
  yield T.get_seq(*fs).sum()
  yield T.get_seq(*fs[::-1]).sum()
  x = None
  for f in fs:
    f = T.get_seq(f)[1] if isinstance(f, str) else f
    x = f if x is None else x + f
  yield x
  yield (T.roll([fs[0]]) if len(fs) == 1 else sum((T.roll([f]) for f in fs[1:]), start=T.roll([fs[0]]))).vals[0]
  if isinstance(fs[-1], (int, float)) and len(fs) > 1:
    y = T.get_seq(*fs[:-1]).sum()
    yield fs[-1] + y
    yield (fs[-1] - 3) + y + 3


def counted():
  """values with counts around the powers of ten"""
  out = []
  for a, b, c in itertools.product((1, 2, 9, 10, 11, 20, 100), (0, 1, 9, 10), (None, 9, 10, -10)):
    fs = ['a'] * a + ['b'] * b + ([] if c is None else [c])
    m = ZERO
    for f in fs:
      m = m + mv(f)
    out.append((fs, m))
  return out


def j_values(ctx, part, nparts, size, big):
  import target as T
  U = universe(T, size, big) if size else counted()
  V = [(fs, T.get_seq(*fs).sum(), m) for fs, m in U]
  nums = [0, 1, -1, 5, 2.5, -10**30, 10**30, 1e300, -0.5, True, 10**400]
  for i, (fs, x, m) in enumerate(V):
    if i % nparts != part:
      continue
    bs = list(builds(T, fs))
    for j, y in enumerate(bs):
      ctx.compare(f'value {fs} way {j}', lambda: desc(y), m.desc())
      ctx.compare(f'value {fs} ways 0 and {j}', lambda: (x == y, y == x, x != y, hash(x) == hash(y), x < y, x > y, x <= y, x >= y, len({x, y})), (True, True, False, True, False, False, True, True, 1))
      ctx.compare(f'RV of {fs} twice, way {j}', lambda: len(T.RV([x, y], [1, 2]).vals), 1)
      ctx.compare(f'filter {fs} way {j}', lambda: [desc(v) for v in T.RV([x, 7], [1, 1]).filter([y]).vals], [('n', 7)])
    ctx.compare(f'format {fs}', lambda: f'{x:>40}', m.desc()[1].rjust(40))
    for n in nums:
      if abs(n) > 1e308:
        continue
      ctx.compare(f'{fs} with number {n!r}', lambda: (x == n, n == x, x != n, n != x, x < n, n < x, x > n, n > x, x <= n, n <= x, x >= n, n >= x), (False, False, True, True, False, True, True, False, False, True, True, False))
    row = []
    for gs, y, k in V:
      same = m == k
      r = observe(lambda: (x == y, x != y, x < y, x <= y, x > y, x >= y, y < x, y > x), 10)
      lt = r[2]
      row.append(lt is True)
      e = (True, False, False, True, False, True, False, False) if same else (False, True, True, True, False, False, False, True) if lt is True else (False, True, False, False, True, True, True, False)
      ctx.evaluations += 1
      ctx.transitions += 8
      if r != e:
        ctx.violation(f'{fs} against {gs}', e, r)
      if same and hash(x) != hash(y):
        ctx.violation(f'hash of {fs} and {gs}', 'equal', 'different')
    # transitivity: everything above x is above everything below x
    above = [y for (gs, y, k), lt in zip(V, row) if lt]
    below = [y for (gs, y, k), lt in zip(V, row) if not lt and k != m]
    for y in below:
      for z in above:
        ctx.transitions += 1
        if not y < z:
          ctx.violation(f'order: {y} < {fs} < {z}', 'transitive', 'not')


def j_compare(ctx, part, nparts):
  """comparisons, selections, filters, mixtures and functions of text dice, values ordered as the library orders them"""
  import target as T
  import operator as op
  CM = {'==': op.eq, '!=': op.ne, '<': op.lt, '<=': op.le, '>': op.gt, '>=': op.ge}
  pool = [fs for fs in faces_sets(3, ['a', 'b', 'ab', '5'], [0, 5])] + [['a', 'a', 'b'], ['a', 3, 3, 'b', 'c'], [1, 'x']]

  def scalar(f):
    return T.get_seq(f)[1] if isinstance(f, str) else f
  for i, fs in enumerate(pool):
    if i % nparts != part:
      continue
    x = T.roll(fs)
    xs = [(scalar(f), mv(f)) for f in fs]
    rights = [(f'roll({gs})', T.roll(gs), [(scalar(g), mv(g)) for g in gs], True) for gs in pool[::3] + [[1, 5, 9]]] + [(f'get_seq({g!r})', T.get_seq(g), [(scalar(g), mv(g))], False) for g in ('a', 'b', '5', 'zz')] + [(repr(n), n, [(n, mv(n))], False) for n in (0, 5, 7.5)]
    rights.append(("get_seq('a','b')", T.get_seq('a', 'b'), [(T.get_seq('a', 'b').sum(), mv('a') + mv('b'))], False))
    for gn, y, ys, isdie in rights:
      for o, f in CM.items():
        def exp(swap):
          d = {}
          for (v, m), (w, k) in itertools.product(xs, ys):
            a, b = ((w, k), (v, m)) if swap else ((v, m), (w, k))
            r = (int(a[1] == b[1]) if o == '==' else int(a[1] != b[1]) if o == '!=' else int(f(a[0], b[0])))
            d[r] = d.get(r, 0) + 1
          return reduce_([(('n', k), w) for k, w in d.items()])
        ctx.compare(f'roll({fs}) {o} {gn}', lambda: o_text(T, f(x, y)), exp(False))
        ctx.compare(f'{gn} {o} roll({fs})', lambda: o_text(T, f(y, x)), exp(True))
    # selections
    for n in (1, 2, 3, 4) if len(fs) < 4 else (2, 3):
      p = T.roll(n, fs)
      rank = sorted(set(v for v, _ in xs))
      model = {v: m for v, m in xs}
      for order in ('highest first', 'lowest first'):
        for k in range(1, n + 1):
          d = {}
          for c in itertools.product([v for v, _ in xs], repeat=n):
            s = sorted((rank.index(v) for v in c), reverse=order == 'highest first')
            m = model[rank[s[k - 1]]]
            d[m] = d.get(m, 0) + 1

          def sel():
            T.settings_set('position order', order)
            try:
              return o_text(T, k @ p)
            finally:
              T.settings_reset()
          ctx.compare(f'{k}@roll({n},{fs}) {order}', sel, freeze(d))
    # filter
    uniq = list(dict.fromkeys(fs))
    for r in range(0, len(uniq) + 1):
      for rem in itertools.combinations(uniq, r):
        left = [f for f in fs if f not in rem or any(f is not g and type(f) is not type(g) and f == g for g in rem)]
        e = freeze(m_die([f for f in fs if mv(f) not in [mv(g) for g in rem]] or [0]))
        for fn, obj in (('list', list(rem)), ('seq', T.get_seq(*rem)), ('values', [scalar(g) for g in rem])) + ((('die', T.roll(list(rem))),) if rem else ()):
          ctx.compare(f'roll({fs}).filter({fn} {rem})', lambda: o_text(T, x.filter(obj)), e)
        del left
    # mixtures and functions
    d = m_die(fs)
    ctx.compare(f'from_rvs roll({fs}), 3, d2', lambda: o_text(T, T.RV.from_rvs([x, 3, T.roll(2)], [2, 1, 5])), freeze(m_mix([(d, 2), ({mv(3): 1}, 1), (m_die([1, 2]), 5)])))
    ctx.compare(f'from_rvs roll({fs}), {fs[0]!r}', lambda: o_text(T, T.RV.from_rvs([T.get_seq(fs[0])[1] if isinstance(fs[0], str) else fs[0], x], [3, 1])), freeze(m_mix([({mv(fs[0]): 1}, 3), (d, 1)])))

    @T.anydice_casting()
    def ident(N: T.T_N):
      return N

    @T.anydice_casting()
    def plus(N: T.T_N, K: T.T_N):
      return N + K

    @T.anydice_casting()
    def istext(N: T.T_N, D: T.T_D):
      return 1 if N > 10**9 else D
    ctx.compare(f'ident(roll({fs}))', lambda: o_text(T, ident(x)), freeze(d))
    ctx.compare(f'ident(roll(2,{fs}))', lambda: o_text(T, ident(T.roll(2, fs))), freeze(m_add(d, d)))
    ctx.compare(f'plus(roll({fs}),d2)', lambda: o_text(T, plus(x, T.roll(2))), freeze(m_add(d, m_die([1, 2]))))
    ctx.compare(f'plus(d2,roll({fs}))', lambda: o_text(T, plus(T.roll(2), x)), freeze(m_add(d, m_die([1, 2]))))
    ctx.compare(f'plus(roll({fs}) twice)', lambda: o_text(T, plus(x, x)), freeze(m_add(d, d)))
    ctx.compare(f'istext(roll({fs}),d)', lambda: o_text(T, istext(x, x)), freeze(m_mix([({mv(1): 1} if isinstance(f, str) else d, 1) for f in fs])))
    ctx.compare(f'roll({fs}) unchanged', lambda: o_text(T, x), freeze(d))


def j_listing(ctx, part, nparts):
  """value/probability listing, cuts and report lines"""
  import target as T
  cases = [fs for fs in faces_sets(3, TEXTS, [5, -2.5, 0])] + [['a'] * 9 + ['b'], ['5', 5, '"5"'], ['2*a', 'a', 'a'], ['x'] * 30 + ['yy'] * 5 + ['zzz'] * 3 + [12345] * 2 + ['w'], ['a + b', 'a', 'b'], ['a\nb', 'a'], ['12345678901', 'a'], ['5.', '.5', '+5', '5e3', '--5', '5.5.5', ' 5', '5 ', '0x5', '٣x', '05', '-0', '00.00']]
  for i, fs in enumerate(cases):
    if i % nparts != part:
      continue
    for n in (1, 2):
      x = T.roll(n, fs)
      d = m_add(*[m_die(fs)] * n)
      tot = sum(d.values())
      shows = {k: k.show() for k in d}
      if None in shows.values():
        continue
      for cut in (0, 0.05, 0.11, 0.26, 0.34, 0.51, 0.9):
        ps = sorted(d.values())
        # largest set of least likely values whose total stays below the cut; ties may go either way
        acc, drop = 0, 0
        for p in ps:
          if (acc + p) / tot < cut:
            acc += p
            drop += 1
          else:
            break
        if any(abs((sum(ps[:j + 1]) / tot) - cut) < 1e-9 for j in range(len(ps))):
          continue

        def run():
          got = [(('n', v) if isinstance(v, (int, float)) else ('t', v), p) for v, p in x.get_vals_probs(cut)]
          full = sorted((repr(shows[k]), round(w / tot, 9)) for k, w in d.items())
          g = sorted((repr(v), round(p, 9)) for v, p in got)
          rest = list(full)
          for it in g:
            if it not in rest:
              return ('not in the die', it)
            rest.remove(it)
          return (sorted(p for _, p in g), sorted(p for _, p in rest), [v[0] for v, _ in got] == sorted(v[0] for v, _ in got))
        ctx.compare(f'roll({n},{fs}).get_vals_probs({cut})', run, (sorted(round(p / tot, 9) for p in ps[drop:]), sorted(round(p / tot, 9) for p in ps[:drop]), True))

      def report():
        text = T.output(x, print_=False, named='N')
        if any('\n' in str(s[1]) for s in shows.values()):
          return True
        lines = text.split('\n')
        width = max(len(str(s[1])) for s in shows.values())
        want = sorted(f'{str(shows[k][1]).rjust(width)}: {100 * w / tot:>5.2f}' for k, w in d.items())
        got = sorted(ln[:width + 7] if 100 * 1 < 1 else ln.split('  █')[0].rstrip() for ln in lines[1:-1])
        return True if [w.rstrip() for w in want] == got and lines[0].startswith('N ') and set(lines[-1]) == {'-'} else ('report', want, got)
      ctx.compare(f'output(roll({n},{fs}))', report, True)


def j_seqs(ctx, part, nparts):
  """sequences with texts: construction in every nesting, length, iteration, access, sum, comparisons, as dice"""
  import target as T
  al = ['a', 'b', '', '5', 5, 0, 2.5]
  items = [list(t) for n in (1, 2, 3) for t in itertools.product(al, repeat=n) if any(isinstance(v, str) for v in t)]
  for i, t in enumerate(items):
    if i % nparts != part:
      continue
    want = [mv(f).desc() for f in t]
    total = m_add(*[{mv(f): 1} for f in t])
    e = freeze(total)[0][0]
    shapes = [('flat', lambda: T.get_seq(*t)), ('list', lambda: T.get_seq(t)), ('nested', lambda: T.get_seq(t[:1], [t[1:]])), ('deep', lambda: T.get_seq([[[t[0]]], tuple(t[1:])])), ('of a sequence', lambda: T.get_seq(T.get_seq(*t))), ('StringSeq', lambda: T.StringSeq(tuple(t))), ('values', lambda: T.get_seq([v for v in T.get_seq(*t)])), ('StringSeq of values', lambda: T.StringSeq(tuple(T.get_seq(*t))))]
    for sn, mk in shapes:
      c = f'{sn} {t}'
      ctx.compare(f'iterate {c}', lambda: [desc(v) for v in mk()], want)
      ctx.compare(f'len {c}', lambda: (len(mk()), T.myLen(mk())), (len(t), len(t)))
      ctx.compare(f'sum {c}', lambda: desc(mk().sum()), e)
      for k in range(-1, len(t) + 2):
        w = want[k - 1] if 1 <= k <= len(t) else ('n', 0)
        ctx.compare(f'{c}[{k}]', lambda: desc(mk()[k]), w)
        ctx.compare(f'{k}@{c}', lambda: desc(k @ mk()), w)
        ctx.compare(f'myMatmul({k},{c})', lambda: desc(T.myMatmul(k, mk())), w)
      ctx.compare(f'die of {c}', lambda: o_text(T, T.roll(mk())), freeze(m_die(t)))
      ctx.compare(f'2 of {c}', lambda: o_text(T, T.roll(2, mk())), freeze(m_add(m_die(t), m_die(t))))
      ctx.compare(f'sum again {c}', lambda: (lambda s: (desc(s.sum()), desc(s.sum()), [desc(v) for v in s]))(mk()), (e, e, want))
      ctx.compare(f'{c} + 3', lambda: desc(mk() + 3), (freeze(m_add(total, {mv(3): 1}))[0][0]))
      ctx.compare(f'-2 + {c}', lambda: desc(-2 + mk()), (freeze(m_add(total, {mv(-2): 1}))[0][0]))
      ctx.compare(f'{c} + d2', lambda: o_text(T, mk() + T.roll(2)), freeze(m_add(total, m_die([1, 2]))))
    for u in items[part::nparts * 4] + [t, t[:1], t + ['a'], [5], [0, 1]]:
      same = [mv(f) for f in t] == [mv(f) for f in u]
      U = T.get_seq(*u)
      ctx.compare(f'{t} == {u}', lambda: (int(T.get_seq(*t) == U), int(T.get_seq(*t) != U), int(U == T.get_seq(*t))), (int(same), int(not same), int(same)))
    for n in (5, 0, 7):
      ctx.compare(f'{t} count {n}', lambda: T.get_seq(*t) == n, sum(1 for f in t if not isinstance(f, str) and f == n))
      ctx.compare(f'{t} count above {n}', lambda: T.get_seq(*t) > n, sum(1 for f in t if isinstance(f, str) or f > n))
    # with dice inside
    ctx.compare(f'{t} with d2', lambda: sorted(repr(desc(v)) for v in T.get_seq(t, T.roll(2))), sorted(repr(x) for x in want + [('n', 1), ('n', 2)]))
    ctx.compare(f'numbers with a text die {t}', lambda: sorted(repr(desc(v)) for v in T.get_seq([9], T.roll(t))), sorted([repr(('n', 9))] + [repr(k.desc()) for k in m_die(t)]))
    ctx.compare(f'{t} with nothing', lambda: [desc(v) for v in T.get_seq(T.BlankRV(), t, [])], want)


def j_programs(ctx, safe):
  """compiled programs with texts"""
  import target as T
  import fastparse
  fastparse.install()
  from dice_calc.parser import compile_anydice
  import dice_calc.parser.parse_and_exec as pe

  def lit(f):
    return f'"{f}"' if isinstance(f, str) else str(f) if f >= 0 else f'-{-f}'

  def D(fs):
    return '{' + ','.join(lit(f) for f in fs) + '}'

  def run(src, flags=None):
    T.settings_reset()
    try:
      return [(o_text(T, a[0] if isinstance(a[0], T.RV) else a[0]), T.output(a[0], print_=False, named=k.get('named')) and k.get('named')) for a, k in getattr(pe, safe)(compile_anydice(src, flags=flags))]
    finally:
      T.settings_reset()

  def val(m):
    return freeze(m)[0][0]
  texts = ['a', 'b', 'ab', 'x y', '5', '-2.5', "it's", 'é', '{1}', '\\n', 'a;b']
  for fs in faces_sets(3, texts, [0, 5, -1]):
    d = m_die(fs)
    for n in (1, 2, 3):
      ctx.compare(f'output {n}d{D(fs)}', lambda: run(f'output {n}d{D(fs)}'), [(freeze(m_add(*[d] * n)), None)])
    ctx.compare(f'sum {fs}', lambda: run(f'A: {D(fs)} output dA + d2 named "s" output d2 + dA output A + dA output dA + A output 3 + dA'), [(freeze(m_add(d, m_die([1, 2]))), 's'), (freeze(m_add(d, m_die([1, 2]))), None)] + [(freeze(m_add(d, *[{mv(f): 1} for f in fs])), None)] * 2 + [(freeze(m_add(d, {mv(3): 1})), None)])
    ctx.compare(f'access {fs}', lambda: run(f'A: {D(fs)} output 1@A named "[A]" output #A output {len(fs)}@A output {len(fs) + 1}@A output A+1'), [(mv(fs[0]).desc(), '{?}'), (('n', len(fs)), None), (mv(fs[-1]).desc(), None), (('n', 0), None), (val(m_add({mv(1): 1}, *[{mv(f): 1} for f in fs])), None)])
    ctx.compare(f'loop {fs}', lambda: run(f'loop X over {D(fs)} {{ output X named "<[X]>" output dX output 2dX output d{{X,1}} }}'), [o for f in fs for o in ((mv(f).desc(), f'<{mv(f).desc()[1]}>'), (freeze({mv(f): 1}) if isinstance(f, str) else dn(f), None), (freeze(m_add({mv(f): 1}, {mv(f): 1})) if isinstance(f, str) else dn(f, 2), None), (freeze(m_die([f, 1])), None))])
    ctx.compare(f'function {fs}', lambda: run(f'function: f N:n {{ if N > 1000000 {{ result: 1 }} else {{ result: N }} }} output [f d{D(fs)}] output 1@1d{D(fs)}'), [(freeze(m_mix([({mv(1 if isinstance(f, str) else f): 1}, 1) for f in fs])), None), (freeze(d), None)])
    for f in fs[:1]:
      ctx.compare(f'compare {fs} {f}', lambda: run(f'output d{D(fs)} = {{{lit(f)}}} output {{{lit(f)}}} = d{D(fs)} output {D(fs)} = {D(fs)}'), [(reduce_([(('n', 1), 1), (('n', 0), len(fs) - 1)]), None)] * 2 + [(('n', 1), None)])


def dn(f, n=1):
  import ref
  return reduce_([(('n', v), w) for v, w in ref.roll(n, ref.dn(f))])


def j_reserved(ctx):
  """every text is only a text, also the ones the library uses itself"""
  import target as T
  import re
  import dice_calc.string_rvs as S
  words = {v for v in vars(S).values() if isinstance(v, str)} | set(vars(S)) | set(re.findall(r"'([^'\n]*)'", open(S.__file__).read())) | {'_UNIQUE_STRING', 'inf', 'nan', 'None', '0', '1', '{?}', '{}', 'd6', '1 + 2', ' + ', '*', '2*', '\t', '\x00', '\ud7ff', 'a' * 5000, '١٢'}
  for w in sorted(words):
    if '\n' in w or '"' in w:
      continue
    for code, run, m in ((f'roll([{w!r}])', lambda: T.roll([w]), m_die([w])), (f'roll(2,[{w!r},"b",3])', lambda: T.roll(2, [w, 'b', 3]), m_add(*[m_die([w, 'b', 3])] * 2)), (f'roll([{w!r},"a"])+1', lambda: T.roll([w, 'a']) + 1, m_add(m_die([w, 'a']), {mv(1): 1}))):
      ctx.compare(clipw(code), lambda: o_text(T, run()), freeze(m))


def clipw(c):
  return c if len(c) < 200 else c[:80] + '...'


def j_scale(ctx, part):
  """many different texts, many equal texts, large numbers next to them"""
  import target as T
  if part == 0:
    for n in (4, 5, 6, 9, 10, 11, 16, 26, 40):
      fs = [f't{i * 7 % n}' for i in range(n)]
      ctx.compare(f'roll of {n} texts', lambda: o_text(T, T.roll(fs)), freeze(m_die(fs)))
      ctx.compare(f'2 rolls of {n} texts', lambda: o_text(T, T.roll(2, fs)), freeze(m_add(*[m_die(fs)] * 2)))
      for pat in (fs, fs[::-1], fs + fs, [f for f in fs for _ in range(3)], fs + [5, -2, 0.5]):
        m = m_add(*[{mv(f): 1} for f in pat])
        ctx.compare(f'sum of {pat}'[:150], lambda: desc(T.get_seq(*pat).sum()), freeze(m)[0][0])
        dice = [T.roll([f]) for f in pat]
        ctx.compare(f'sum of the dice {pat}'[:150], lambda: o_text(T, sum(dice[1:], start=dice[0])), freeze(m))
        ctx.compare(f'sum of the dice {pat} from the other end'[:150], lambda: o_text(T, sum(dice[-2::-1], start=dice[-1])), freeze(m))
        ctx.compare(f'length and places of {pat}'[:150], lambda: (len(T.get_seq(*pat)), [desc(i @ T.get_seq(*pat)) for i in range(1, len(pat) + 2)]), (len(pat), [mv(f).desc() for f in pat] + [('n', 0)]))
  if part == 1:
    for fs in (['a'], ['a', 'b'], ['a', 1], ['a', 'b', 2], ['5', 5], ['a', 'b', 'c']):
      d, m = m_die(fs), None
      for n in range(1, 131 if len(fs) == 1 else 61 if len(fs) == 2 else 16):
        m = m_add(d) if m is None else m_add(m, d)
        ctx.compare(f'roll({n},{fs})', lambda: (o_text(T, T.roll(n, fs)), len(T.roll(n, fs)), T.RV.dices_are_equal(T.roll(n, fs), T.roll(n, fs[::-1]))), (freeze(m), n, True))
  if part == 2:
    for n in (10**6, 10**15, 2**53 + 1, 10**22, -10**22, 1e15, 1e16, 123456.789, -0.125, 1e-7):
      ctx.compare(f'roll(2,["a",{n}])', lambda: o_text(T, T.roll(2, ['a', n])), freeze(m_add(*[m_die(['a', n])] * 2)))
      ctx.compare(f'text + {n}', lambda: desc(T.get_seq('a', n).sum()), (mv('a') + mv(n)).desc())
    for k in range(1, 40):
      a, b = T.get_seq(*['a'] * k, 'b').sum(), T.get_seq('b', *['a'] * k).sum()
      ctx.compare(f'{k} times a and b in two orders', lambda: (a == b, hash(a) == hash(b), str(a)), (True, True, f'{k}*a + b' if k > 1 else 'a + b'))
      x = [T.get_seq(*['a'] * i, 'b').sum() for i in range(1, k + 1)] + [T.get_seq(*['a'] * i).sum() for i in range(1, k + 1)] + list(range(k))
      ctx.compare(f'a die of {3 * k} such values', lambda: o_text(T, T.RV(x, [1] * len(x)))[:0], [])


def jobs(tier):
  q = tier == 'quick'
  js = [Job(f'rolls {i}', j_rolls, i, 8 if q else 48, 3 if q else 4, 4 if q else 5) for i in range(8 if q else 48)]
  js += [Job(f'sums {i}', j_sums, i) for i in range(20)]
  js += [Job(f'values {i}', j_values, i, 8, 3 if q else 4, not q) for i in range(8)]
  js += [Job(f'counted {i}', j_values, i, 4, 0, False) for i in range(4)]
  js += [Job(f'compare {i}', j_compare, i, 8) for i in range(8)]
  js += [Job(f'listing {i}', j_listing, i, 4) for i in range(4)]
  js += [Job(f'sequences {i}', j_seqs, i, 8) for i in range(8)]
  js += [Job(f'programs {s}', j_programs, s) for s in ('unsafe_exec', 'safe_exec')]
  js += [Job(f'scale {i}', j_scale, i) for i in range(3)]
  js.append(Job('reserved', j_reserved))
  return js
