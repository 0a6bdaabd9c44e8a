"""Reference model: boring, exact, independent of dice_calc.

A distribution is a dict value -> positive int weight (canonical form: sorted tuple of (value, weight) with gcd 1).
A pool is (n, die): n independent rolls of die.  All operators work on Python numbers with Python's own operators.
"""
import functools
import itertools
import math
import operator
from fractions import Fraction


class Undefined(Exception):
  """the model says: this must be rejected (some outcome has no value)"""


def canon(d):
  """dict value->weight (weights >= 0, total > 0) -> canonical tuple without zero weights"""
  items = [(v, w) for v, w in d.items() if w != 0]
  g = math.gcd(*[w for _, w in items])
  try:
    items.sort()
  except TypeError:
    raise Undefined()
  return tuple((v, w // g) for v, w in items)


def die(vals, probs=None):
  d = {}
  if probs is None:
    probs = [1] * len(vals)
  for v, p in zip(vals, probs):
    if isinstance(v, bool):
      v = int(v)
    d[v] = d.get(v, 0) + p
  return canon(d)


def const(v):
  return die([v])


def dn(n):
  if n > 0:
    return die(range(1, n + 1))
  if n == 0:
    return const(0)
  return die(range(n, 0))


def total(c):
  return sum(w for _, w in c)


def map1(c, f):
  d = {}
  for v, w in c:
    r = f(v)
    d[r] = d.get(r, 0) + w
  return canon(d)


def map2(a, b, f):
  d = {}
  for v, w in a:
    for x, y in b:
      r = f(v, x)
      d[r] = d.get(r, 0) + w * y
  return canon(d)


def mix(parts):
  """parts: [(canon die, weight)], weights any non-negative ints/Fractions -> canonical mixture"""
  d = {}
  for c, w in parts:
    t = total(c)
    for v, p in c:
      d[v] = d.get(v, 0) + Fraction(w) * Fraction(p, t)
  return canon_frac(d)


def canon_frac(d):
  L = math.lcm(*[f.denominator for f in d.values()])
  return canon({v: int(f * L) for v, f in d.items()})


def add_n(c, n):
  """sum of n independent rolls (n >= 0): plain repeated convolution"""
  cur = {0: 1}
  for _ in range(n):
    nxt = {}
    for v, w in cur.items():
      for x, y in c:
        s = v + x
        nxt[s] = nxt.get(s, 0) + w * y
    cur = nxt
  return canon(cur)


def neg(c):
  return map1(c, lambda x: -x)


def roll(n, c):
  return neg(add_n(c, -n)) if n < 0 else add_n(c, n)


OPS = {
  '+': operator.add, '-': operator.sub, '*': operator.mul, '//': operator.floordiv, '/': operator.truediv, '%': operator.mod, '**': operator.pow,
  '==': lambda x, y: 1 if x == y else 0, '!=': lambda x, y: 1 if x != y else 0, '<': lambda x, y: 1 if x < y else 0, '<=': lambda x, y: 1 if x <= y else 0,
  '>': lambda x, y: 1 if x > y else 0, '>=': lambda x, y: 1 if x >= y else 0, '&': lambda x, y: 1 if (x != 0 and y != 0) else 0, '|': lambda x, y: 1 if (x != 0 or y != 0) else 0,
}


def pool_outcomes(c, n):
  """every ordered outcome of n rolls of c as (tuple of values, weight)"""
  for combo in itertools.product(c, repeat=n):
    w = 1
    for _, p in combo:
      w *= p
    yield tuple(v for v, _ in combo), w


def select_brute(c, n, positions, highest_first=True):
  """sum of the dice at the given positions of the sorted roll; positions outside 1..n count 0"""
  d = {}
  for vals, w in pool_outcomes(c, n):
    s = sorted(vals, reverse=highest_first)
    r = 0
    for k in positions:
      if 1 <= k <= n:
        r += s[k - 1]
    d[r] = d.get(r, 0) + w
  return canon(d)


def select_dp(c, n, positions, highest_first=True):
  """same by dynamic programming over faces in position order (independent of any order-statistic formula)"""
  mult = [0] * (n + 1)
  for k in positions:
    if 1 <= k <= n:
      mult[k] += 1
  pre = [0] * (n + 1)
  for k in range(1, n + 1):
    pre[k] = pre[k - 1] + mult[k]
  faces = sorted(c, reverse=highest_first)
  cur = {(0, 0): 1}
  for idx, (v, w) in enumerate(faces):
    nxt = {}
    last = idx == len(faces) - 1
    for (used, s), p in cur.items():
      for take in ([n - used] if last else range(0, n - used + 1)):
        m = pre[used + take] - pre[used]
        key = (used + take, s + v * m if m else s)
        nxt[key] = nxt.get(key, 0) + p * math.comb(n - used, take) * w**take
    cur = nxt
  d = {}
  for (used, s), p in cur.items():
    d[s] = d.get(s, 0) + p
  return canon(d)


@functools.lru_cache(maxsize=500)
def sorted_pools(c, n):
  """distinct sorted (highest first) pools with weights -> [(tuple, weight)]: add one die at a time to every pool"""
  cur = {(): 1}
  for _ in range(n):
    nxt = {}
    for t, w in cur.items():
      for v, p in c:
        k = tuple(sorted(t + (v,), reverse=True))
        nxt[k] = nxt.get(k, 0) + w * p
    cur = nxt
  return list(cur.items())


def mean(c):
  return sum(Fraction(v) * w for v, w in c) / total(c)


def var(c):
  m = mean(c)
  return sum((Fraction(v) - m)**2 * w for v, w in c) / total(c)
