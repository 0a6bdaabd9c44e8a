"""C12: the random roller under an enumerated random source (every answer of the source, exact probability mass)."""
import itertools
import math
from fractions import Fraction as F
import ref
from mc import Job, observe
PID = 'C12'
META = dict(
  rule='the source of randomness (every way the random module produces numbers) is replaced by a script before the package is imported; all answers are explored depth-first: each uniform fraction on a grid whose cells resolve every weight (cell midpoints), each k-bit draw over all 2^k answers; the exact probability mass of every returned tuple is added up and compared with the product of the die\'s shares; boundary answers (0, every cell edge, the largest fraction below 1) must still give values of positive probability',
  bounds='quick: all dice with up to 3 faces over 6 values x weights {0,1,2,5}, pools, numbers, sequences, text dice; draws None, 0, 1, 2, 3 (joint outcomes up to 8000 cells); larger and very large weights at cell edges; thorough: 4 faces, 4 draws; both tiers also: up to 1001 draws',
  assumptions=['the random source itself is uniform', 'rejection loops are explored 4 draws beyond the number of values, the unexplored mass is allowed either way'])


class Script:
  def __init__(self):
    self.reset([], 1)

  def reset(self, prefix, grid, limit=12, cells=0):
    self.prefix, self.grid = prefix, grid
    self.trace = []      # (choice, options)
    self.fixed = None
    self.nbits = 0
    self.limit = limit
    self.mass, self.cells = 1, cells

  def pick(self, n):
    i = len(self.trace)
    c = self.prefix[i] if i < len(self.prefix) else 0
    if i >= self.limit or (self.cells > 1 and self.mass > 64 * self.cells):
      raise TooDeep()
    self.trace.append((c, n))
    self.mass *= n
    return c

  def random(self):
    if self.fixed is not None:
      return self.fixed
    return (2 * self.pick(self.grid) + 1) / (2 * self.grid)

  def bits(self, k):
    if k == 0:
      return 0
    if self.fixed is not None:
      self.nbits += 1
      return min((1 << k) - 1, int(self.fixed * (1 << k))) >> (self.nbits - 1)  # later answers are smaller: a rejection loop ends
    return self.pick(1 << k)


class TooDeep(Exception):
  pass


def install():
  import random
  S = Script()

  class EnumRandom(random.Random):
    def random(self):
      return S.random()

    def getrandbits(self, k):
      return S.bits(k)

    def randbytes(self, n):
      return S.bits(8 * n).to_bytes(n, 'little')

    def seed(self, *a, **k):
      pass
  inst = EnumRandom()
  for n in dir(random):
    f = getattr(random, n)
    if getattr(f, '__self__', None) is random._inst:
      setattr(random, n, getattr(inst, n))
  random._inst = inst
  random.Random = EnumRandom
  random.SystemRandom = EnumRandom
  import target as T
  return S, T


def explore(S, run, grid, draws=1):
  """-> (mass per result, unexplored mass, paths)"""
  mass, left, prefix, paths = {}, F(0), [], 0
  while True:
    S.reset(prefix, grid, draws + 4, grid**draws)
    try:
      r = run()
    except TooDeep:
      r = TooDeep
    tr = S.trace
    w = F(1)
    for _, n in tr:
      w /= n
    if r is TooDeep:
      left += w
    else:
      mass[r] = mass.get(r, 0) + w
    paths += 1
    i = len(tr) - 1
    while i >= 0 and tr[i][0] + 1 >= tr[i][1]:
      i -= 1
    if i < 0:
      break
    if paths > 4 * grid**draws + 3000:
      return mass, 1 - sum(mass.values()), paths
    prefix = [c for c, _ in tr[:i]] + [tr[i][0] + 1]
  return mass, left, paths


def verdict(mass, left, exp):
  for v, p in exp.items():
    m = mass.get(v, 0)
    if not (m <= p <= m + left):
      return f'{v!r} drawn with probability {m} instead of {p}'
  for v in mass:
    if v not in exp:
      return f'{v!r} drawn, which has no probability'
  return ''


def shares(faces):
  t = sum(w for _, w in faces)
  return {v: F(w, t) for v, w in faces if w}


def one(ctx, S, T, O, tag, mk, faces, counts):
  sh = shares(faces)
  t = sum(w for _, w in faces)
  for cnt in counts:
    grid = t * (2 if cnt in (None, 1) and t < 200 else 1)
    n = 1 if cnt is None else cnt
    if grid**n > 60000:
      continue
    if cnt is None:
      exp = dict(sh)
    else:
      exp = {}
      for combo in itertools.product(sh.items(), repeat=cnt):
        exp[tuple(v for v, _ in combo)] = math.prod([p for _, p in combo], start=F(1))

    def run():
      x = mk(T)
      before = O.snap(x)
      r = T.roller(x) if cnt is None else T.roller(x, cnt)
      if O.snap(x) != before:
        raise AssertionError('die changed')
      if cnt is not None and type(r) is not tuple:
        return ('not a tuple', repr(r))
      return r

    def all_():
      m, left, paths = explore(S, run, grid, n)
      for v, p in m.items():
        ctx.state((tag, cnt, repr(v), p))
      ctx.transitions += paths
      ctx.traces += paths
      ctx.count('source answers explored', paths)
      return verdict(m, left, exp)
    ctx.compare(f'roller({tag}{"" if cnt is None else ", " + str(cnt)}): all answers of the source', all_, '')
  # boundary answers
  for j in range(0, min(t, 60) + 1):
    for u in {j / min(t, 60) if t <= 60 else j / 60, math.nextafter(j / min(t, 60), 0), math.nextafter(j / min(t, 60), 1)}:
      if not 0 <= u < 1:
        continue

      def run():
        S.reset([], 1)
        S.fixed = u
        try:
          r = T.roller(mk(T))
          r2 = T.roller(mk(T), 2)
        finally:
          S.fixed = None
        return r in sh and len(r2) == 2 and all(v in sh for v in r2)
      ctx.compare(f'roller({tag}) when the source answers {u!r}: a possible value', run, True)


def job_small(ctx, n, part, parts, counts):
  S, T = install()
  import obs as O
  k = 0
  for vs in itertools.combinations((0, 1, -2, 3, 0.5, 10), n):
    for ws in itertools.product((1, 0, 2, 5), repeat=n):
      if not any(ws):
        continue
      k += 1
      if k % parts != part:
        continue
      g = math.gcd(*ws)
      faces = [(v, w // g) for v, w in sorted(zip(vs, ws))]
      one(ctx, S, T, O, f'RV({vs},{ws})', lambda T: T.RV(vs, ws), faces, counts)


def job_misc(ctx, counts, part, parts):
  S, T = install()
  import obs as O
  items = [(f'{n}d{s}', lambda T, n=n, s=s: T.roll(n, s), ref.add_n(ref.dn(s), n)) for n, s in ((1, 6), (2, 6), (3, 4), (1, 20), (1, 100), (2, 10), (4, 3), (1, 365), (1, 513), (2, 40), (4, 6), (12, 2))]
  items += [('3', lambda T: 3, ref.const(3)), ('0', lambda T: 0, ref.const(0)), ('-2.5', lambda T: -2.5, ref.const(-2.5)), ('Seq(1,2,2)', lambda T: T.Seq(1, 2, 2), ref.die([1, 2, 2])), ('[5,5,7,9]', lambda T: [5, 5, 7, 9], ref.die([5, 5, 7, 9])), ('range(4)', lambda T: range(4), ref.die(range(4)))]
  items += [('1@3d4', lambda T: 1 @ T.roll(3, 4), ref.select_brute(ref.dn(4), 3, [1])), ('d6>4', lambda T: T.roll(6) > 4, ref.die([0, 1], [2, 1])), ('mix', lambda T: T.RV.from_rvs([T.roll(2), 9], [3, 1]), ref.mix([(ref.dn(2), 3), (ref.const(9), 1)]))]
  items += [(f'weights {ws}', lambda T, ws=ws: T.RV(range(len(ws)), ws), list(enumerate(ws))) for ws in ((1, 999), (997, 1, 2), (0, 1, 0, 3, 0), (1,) * 37, (1, 2, 4, 8, 16, 32), (100, 1), (0, 0, 7, 1), (1,) * 257, tuple(i % 5 for i in range(300)), tuple(i * i % 17 for i in range(129)), (5000, 1, 4999))]
  for tag, mk, faces in items[part::parts]:
    faces = list(faces)
    big = sum(w for _, w in faces) > 200
    one(ctx, S, T, O, tag, mk, faces, (None, 1) if big else counts)
  if part:
    return
  # text faces: observed by their printed form
  for faces in (['a', 'b'], ['a', 'a', 'b'], ['x', 1, 2]):
    x = T.roll(faces)
    exp = {str(v): F(w, sum(x.probs)) for v, w in zip(x.vals, x.probs)}

    def all_():
      m, left, paths = explore(S, lambda: str(T.roller(x)), 2 * sum(x.probs))
      ctx.transitions += paths
      return verdict(m, left, exp)
    ctx.compare(f'roller of the text die {faces}', all_, '')


def job_large(ctx):
  """weights far beyond what a grid can enumerate: the value drawn at u must be one whose slice of [0,1) (in some order of the faces) is hit; checked at every slice edge +- 1e-9"""
  S, T = install()
  dice = [T.roll(20, 6), T.roll(50, 6), T.roll(100, 20), T.RV([1, 2, 3], [1, 10**18, 10**18]), T.RV([0, 5], [10**30, 1]), T.roll(40, [0, 1])]
  for x in dice:
    tot = sum(x.probs)
    # measure of each value by bisection over u: collect the step function on a fine grid of slice edges
    edges = sorted({float(F(c, tot)) for c in itertools.accumulate(x.probs)} | {1 - float(F(c, tot)) for c in itertools.accumulate(x.probs)})
    us = sorted({min(max(e + d, 0.0), 1 - 2**-53) for e in edges for d in (-1e-9, 1e-9)} | {0.0, 0.5, 1 - 2**-53})

    def draw(u):
      S.reset([], 1)
      S.fixed = u
      try:
        return T.roller(x)
      finally:
        S.fixed = None

    def run():
      got = [(u, draw(u)) for u in us]
      bits = S.nbits
      pos = {v for v, p in zip(x.vals, x.probs) if p}
      if any(v not in pos for _, v in got):
        return 'a value without probability'
      # a value of share s may be seen on points spanning at most s (+1e-8) of [0,1)
      span = {}
      if bits:  # not drawn from one fraction: slices are not contiguous
        return ''
      for u, v in got:
        lo, hi = span.get(v, (u, u))
        span[v] = (min(lo, u), max(hi, u))
      for v, (lo, hi) in span.items():
        s = F(x.probs[x.vals.index(v)], tot)
        if hi - lo > float(s) + 1e-8:
          return f'{v} seen from {lo} to {hi}, its share is {float(s)}'
      return ''
    ctx.transitions += len(us)
    ctx.compare(f'roller of a die with total weight {tot}', run, '')


def job_many(ctx, counts):
  """many draws at once: with the answers for all other draws held at any one cell, the answer for one draw decides exactly one value, with its exact share"""
  S, T = install()
  dice = [('d6', lambda: T.roll(6)), ('RV([1,2],[1,0])', lambda: T.RV([1, 2], [1, 0])), ('RV([1,2,3],[0,3,1])', lambda: T.RV([1, 2, 3], [0, 3, 1])), ('RV([5,1,2],[2,0,1])', lambda: T.RV([5, 1, 2], [2, 0, 1])), ('2d3', lambda: T.roll(2, 3)), ('[4,4,7]', lambda: [4, 4, 7]), ('3', lambda: 3), ('RV([0,0.5],[1,4])', lambda: T.RV([0, 0.5], [1, 4]))]
  for tag, mk in dice:
    r = T.RV.from_seq(mk()) if isinstance(mk(), list) else mk()
    sh = {3: F(1)} if isinstance(r, int) else {v: F(p, sum(r.probs)) for v, p in zip(r.vals, r.probs) if p}
    grid = 1 if len(sh) == 1 and isinstance(r, int) else sum(r.probs)
    for n in counts:
      for u in sorted({0.0, 5e-324, 2.0**-53, 1 - 2.0**-53} | {k / grid for k in range(min(grid, 20))}):
        def edge():
          S.reset([], grid, 10**9)
          S.fixed = u
          try:
            got = T.roller(mk(), n)
          finally:
            S.fixed = None
          return '' if type(got) is tuple and len(got) == n and all(v in sh for v in got) else ('not possible values', repr(got)[:200])
        ctx.compare(f'roller({tag}, {n}) when the source answers {u!r}', edge, '')
      for i in sorted({0, 1, n // 2, n - 2, n - 1}):
        for c in range(min(grid, 10)):
          def run():
            mass, moved, got0 = {}, set(), None
            for x in range(grid):
              S.reset([c] * i + [x] + [c] * (n - 1 - i), grid, n + 4)
              try:
                got = T.roller(mk(), n)
              except TooDeep:
                return ''  # another way of drawing, see the other jobs
              if type(got) is not tuple or len(got) != n or any(v not in sh for v in got):
                return ('not possible values', repr(got)[:200])
              if len(S.trace) != n or any(k != grid for _, k in S.trace):
                return ''
              got0 = got0 or got
              moved |= {j for j in range(n) if got[j] != got0[j]}
              mass[got] = mass.get(got, 0) + F(1, grid)
            ctx.transitions += grid
            if len(moved) > 1:
              return 'one answer decides several draws'
            if len(sh) == 1:
              return ''
            if not moved:
              return 'the answer decides nothing'
            j = moved.pop()
            return verdict({k[j]: m for k, m in mass.items()}, 0, sh)
          ctx.compare(f'roller({tag}, {n}): draw {i}, all others at cell {c}', run, '')


def jobs(tier):
  q = tier == 'quick'
  counts = (None, 0, 1, 2, 3) if q else (None, 0, 1, 2, 3, 4)
  js = [Job('1', job_small, 1, 0, 1, counts)]
  for p in range(2):
    js.append(Job(f'2.{p}', job_small, 2, p, 2, counts))
  for p in range(8):
    js.append(Job(f'3.{p}', job_small, 3, p, 8, (None, 1, 2) if q else counts))
  if not q:
    for p in range(16):
      js.append(Job(f'4.{p}', job_small, 4, p, 16, (None, 1, 2)))
  js += [Job(f'misc {p}', job_misc, (None, 1, 2, 3), p, 8) for p in range(8)]
  js.append(Job('large', job_large))
  for cs in ((5, 10, 20), (50, 51, 64, 100), (101, 200), (256, 500), (1001,)) + (() if q else ((1000,), (1024,), (5000,))):
    js.append(Job(f'many {cs}', job_many, cs))
  return js
