"""Observation of real objects through their public surface, in the same canonical form as ref.py."""
import math
from target import RV, Seq, BlankRV


def o_die(x):
  """canonical distribution of an RV (or number), checking the canonical-form invariants on the way"""
  if isinstance(x, bool):
    x = int(x)
  if isinstance(x, (int, float)):
    return ((x, 1),)
  if isinstance(x, BlankRV):
    return ('blank', len(x))
  if isinstance(x, Seq):
    return ('seq', tuple(x))
  if not isinstance(x, RV):
    return ('unexpected', type(x).__name__, repr(x)[:200])
  vals, probs = x.vals, x.probs
  if len(vals) != len(probs) or len(vals) == 0:
    return ('malformed', vals, probs)
  for a, b in zip(vals, vals[1:]):
    if not (a < b):
      return ('values not increasing', vals, probs)
  for p in probs:
    if type(p) is not int or p < 0:
      return ('bad weight', vals, probs)
  items = [(v, p) for v, p in zip(vals, probs) if p]
  g = math.gcd(*[p for _, p in items]) if items else 0
  if g > 1:
    return ('weights not reduced', vals, probs)
  return tuple(items)


def o_val(x):
  """tagged observation: distinguishes numbers, sequences, dice and the two empty dice"""
  if isinstance(x, bool):
    return ('num', int(x))
  if isinstance(x, (int, float)):
    return ('num', x)
  if isinstance(x, BlankRV):
    return ('null',) if len(x) == 1 else ('blank',)
  if isinstance(x, Seq):
    return ('seq', tuple(x))
  if isinstance(x, RV):
    return ('die', o_die(x))
  if x is None:
    return ('none',)
  return ('other', type(x).__name__)


def snap(x):
  """everything a user can see of an object, including value types and the printed name"""
  if isinstance(x, RV):
    return ('RV', tuple((type(v).__name__, repr(v)) for v in x.vals), x.probs, len(x), str(x))
  if isinstance(x, BlankRV):
    return ('Blank', len(x), str(x))
  if isinstance(x, Seq):
    return (type(x).__name__, tuple((type(v).__name__, repr(v)) for v in x), len(x), str(x))
  if isinstance(x, (list, tuple, range)):
    return (type(x).__name__, repr(x))
  return (type(x).__name__, repr(x))


LIMIT = 10**31


def close(x, exp, tol_inv=10**12):
  """'close' if every probability of x differs from the exact one by less than 1/tol_inv (exact integer arithmetic)"""
  if isinstance(x, bool):
    x = int(x)
  if isinstance(x, (int, float)):
    vals, probs = (x,), (1,)
  else:
    if not isinstance(x, RV):
      return ('unexpected', type(x).__name__)
    vals, probs = x.vals, x.probs
  if len(vals) != len(probs):
    return ('malformed', len(vals), len(probs))
  for a, b in zip(vals, vals[1:]):
    if not (a < b):
      return ('values not increasing', vals)
  for p in probs:
    if type(p) is not int or p < 0:
      return ('bad weight', p)
  s = sum(probs)
  if s <= 0:
    return ('no probability left', s)
  e = dict(exp)
  t = sum(e.values())
  for v, p in zip(vals, probs):
    q = e.pop(v, 0)
    # |p/s - q/t| < 1/tol
    if abs(p * t - q * s) * tol_inv >= s * t:
      return ('probability off', v, p / s, q / t)
  for v, q in e.items():
    if q * tol_inv >= t:
      return ('value missing', v, q / t)
  return 'close'


def form(x):
  """observation of a program's output value: numbers and dice by their distribution, sequences and empty dice apart"""
  v = o_val(x)
  if v[0] == 'num':
    return ('val', ((v[1], 1),))
  if v[0] == 'die':
    return ('val', v[1])
  if isinstance(x, range):
    return ('seq', tuple(x))
  return v
