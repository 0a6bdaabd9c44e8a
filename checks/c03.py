"""C03: rolling n of a die."""
import itertools
import ref
from mc import Job
PID = 'C03'
META = dict(
  rule='every count form x every die form of the alphabets; every small weighted die (faces from {-1,0,1,2,0.5}, weights 1..3) rolled every number of times in range; each execution compared with plain repeated convolution',
  bounds='quick: counts -9..12 (all dice), {16,17,20,25,31,32,33,50,64,100} for selected dice, sides -12..30 and {50,64,100,101,128,200,256,1000}; thorough: counts up to 200, weighted dice with 4 faces; both tiers also: pools of uneven counts',
  assumptions=['a fractional random count is not specified and not explored'])

DICE = [
  ('6', ref.dn(6)), ('2', ref.dn(2)), ('1', ref.const(1)), ('0', ref.const(0)), ('-4', ref.dn(-4)), ('-1', ref.const(-1)), ('10', ref.dn(10)), ('20', ref.dn(20)),
  ('Seq(1,1,2)', ref.die([1, 1, 2])), ('[3,-1,0,0]', ref.die([3, -1, 0, 0])), ('(0.5,2)', ref.die([0.5, 2])), ('range(-2,3)', ref.die(range(-2, 3))), ('Seq(7)', ref.const(7)),
  ('[[1,2],[3,[4,4]]]', ref.die([1, 2, 3, 4, 4])), ('RV([0,1],[3,1])', ref.die([0, 1], [3, 1])), ('RV([-5,5,7],[2,3,7])', ref.die([-5, 5, 7], [2, 3, 7])), ('RV([1,2,9],[0,3,1])', ref.die([2, 9], [3, 1])),
  ('roll(2,3)', ref.add_n(ref.dn(3), 2)), ('roll(6)+1', ref.die(range(2, 8))), ('roll(6)>4', ref.die([0, 1], [4, 2])), ('RV([10**15,-10**15],[1,2])', ref.die([10**15, -10**15], [1, 2])), ('RV([0,1,3,100],[1,5,2,1])', ref.die([0, 1, 3, 100], [1, 5, 2, 1])),
]


def ev(T, code):
  return eval(code, dict(vars(T)))


def one(ctx, T, O, code, exp, n=None, known=None):
  small = ref.total(exp) <= O.LIMIT  # beyond the internal weight limit C17's error bound applies

  def run():
    x = ev(T, code)
    o = O.o_die(x) if small else O.close(x, exp)
    if n is not None and n >= 2 and len(x) != n:
      return ('number of dice', len(x), 'expected', n, o)
    if n is not None and n >= 2 and len(x) == n and not isinstance(x, T.RV):
      return 'not a die'
    return o
  return ctx.compare(code, run, exp if small else 'close')


def job_counts(ctx, i, counts):
  import target as T
  import obs as O
  dcode, d = DICE[i]
  for n in counts:
    exp = ref.roll(n, d)
    one(ctx, T, O, f'roll({n},{dcode})', exp, n)
    if abs(n) <= 12:
      one(ctx, T, O, f'roll(Seq({n}),{dcode})', exp, n)
      one(ctx, T, O, f'roll([{n},3,-3],{dcode})', exp, n)
      one(ctx, T, O, f'roll((1,{n - 1}),{dcode})', exp, n)
      one(ctx, T, O, f'roll(RV([{n}],[1]),{dcode})', exp)
      one(ctx, T, O, f'roll({n}, roll(1,{dcode}))', exp, n)
      if n >= 0:
        one(ctx, T, O, f'roll({n}, RV.from_rvs([roll({dcode})]))', exp, n)
  one(ctx, T, O, f'roll({dcode})', d)
  one(ctx, T, O, f'roll(d={dcode}, n=3)', ref.roll(3, d), 3)
  # reuse: the same die object rolled repeatedly, the die unchanged
  x = ev(T, f'roll({dcode})')
  s = O.snap(x)
  for n in list(counts) + list(counts)[::-1]:
    ctx.compare(f'x=roll({dcode}); roll({n},x) after others', lambda: O.o_die(T.roll(n, x)) if O.snap(x) == s else ('die changed', s, O.snap(x)), ref.roll(n, d))


def job_big(ctx, i, n):
  import target as T
  import obs as O
  dcode, d = DICE[i]
  one(ctx, T, O, f'roll({n},{dcode})', ref.roll(n, d), n)
  one(ctx, T, O, f'roll(-{n},{dcode})', ref.roll(-n, d))


def job_sweep(ctx, i, top, down):
  """every number of dice up to the bound, upwards and downwards"""
  import target as T
  import obs as O
  dcode, d = DICE[i]
  exp = [None, d]
  for n in range(2, top + 1):
    exp.append(ref.map2(exp[-1], d, lambda a, b: a + b))
  for n in (range(top, 0, -1) if down else range(1, top + 1)):
    one(ctx, T, O, f'roll({n},{dcode})', exp[n], n)
  for k in range(1, top - 2, 9):  # a random count
    m = ref.mix([(exp[k], 1), (exp[k + 1], 2), (exp[top], 1)])
    one(ctx, T, O, f'roll(RV([{k},{k + 1},{top}],[1,2,1]),{dcode})', m)


def job_sides(ctx, sides):
  import target as T
  import obs as O
  for s in sides:
    d = ref.dn(s)
    one(ctx, T, O, f'roll({s})', d)
    for n in (-2, -1, 0, 1, 2, 3):
      if n == 3 and abs(s) > 128:
        continue
      exp = ref.roll(n, d)
      one(ctx, T, O, f'roll({n},{s})', exp, n)
      if -1 <= n:
        one(ctx, T, O, f'roll("{n}d{s}")', exp, n)
    one(ctx, T, O, f'roll("d{s}")', d)


def job_uneven(ctx, sizes):
  """dice of many faces that are all weighted differently"""
  import target as T
  import obs as O
  for s in sizes:
    for nm, vals in (('i', [i for i in range(s)]), ('i-s//2', [i - s // 2 for i in range(s)]), ('i+0.5', [i + 0.5 for i in range(s)])):
      d = ref.die(vals, range(1, s + 1))
      for n in (-3, -2, -1, 0, 1, 2, 3) if s < 70 else (-2, -1, 1, 2):
        one(ctx, T, O, f'roll({n},RV([{nm} for i in range({s})],range(1,{s}+1)))'.replace('i-s//2', f'i-{s}//2'), ref.roll(n, d), n)
      one(ctx, T, O, f'roll(RV([-1,0,1,2],[1,2,3,4]),RV([{nm} for i in range({s})],range(1,{s}+1)))'.replace('i-s//2', f'i-{s}//2'), ref.mix([(ref.roll(k, d), w) for k, w in ((-1, 1), (0, 2), (1, 3), (2, 4))]))


def job_strings(ctx):
  import target as T
  import obs as O
  for n in range(-3, 25):
    for s in (-6, -2, 0, 1, 2, 6, 8, 12):
      one(ctx, T, O, f'roll("{n}d{s}")', ref.roll(n, ref.dn(s)), n)


def job_fractions(ctx):
  """a fractional count is rounded up; a fractional number given as die is the die with that one face"""
  import target as T
  import obs as O
  import math
  for i in (0, 1, 3, 4, 8, 10, 14, 17):
    dcode, d = DICE[i]
    for n in (0.0, 0.25, 0.5, 1.0, 1.5, 1.999, 2.0, 2.5, 3.000001, 5.0, -0.5, -1.0, -1.5, -2.0, -2.75):
      k = math.ceil(n)
      one(ctx, T, O, f'roll({n},{dcode})', ref.roll(k, d), k)
  for x in (0.5, 2.5, -1.5, 3.0, 0.0, -4.0):
    for n in (-2, 0, 1, 2, 3, 5):
      one(ctx, T, O, f'roll({n},{x})', ref.roll(n, ref.const(x)), n)
    one(ctx, T, O, f'roll({x})', ref.const(x))


def job_star(ctx):
  """the notation n *D* m of altcast"""
  import target as T
  import obs as O
  from dice_calc.altcast import D
  env = dict(vars(T), D=D)
  for dcode, d in DICE:
    ctx.compare(f'D*({dcode})', lambda: O.o_die(eval(f'D*({dcode})', env)), d)
    for n in range(-3, 8):
      for form in ('{}', 'Seq({})', '[{}]', 'Seq({},0)'):
        code = f'{form.format(n)} *D* ({dcode})'
        ctx.compare(code, lambda: (O.o_die(eval(code, env)), len(eval(code, env)) if n >= 2 else n), (ref.roll(n, d), n))
  for a, b in itertools.product(range(1, 4), repeat=2):
    x = ref.map2(ref.add_n(ref.dn(6), a), ref.add_n(ref.dn(4), b), lambda p, q: p + q)
    ctx.compare(f'{a}*D*6 + {b}*D*4', lambda: O.o_die(eval(f'{a}*D*6 + {b}*D*4', env)), x)
    two, half = eval('2*D', env), eval('3*D', env)  # the halves of two rolls at the same time
    ctx.compare(f'(2*D)*{a}, (3*D)*{b}', lambda: (O.o_die(two * a), O.o_die(half * b)), (ref.roll(2, ref.dn(a)), ref.roll(3, ref.dn(b))))


def job_random_count(ctx, di):
  import target as T
  import obs as O
  dcode, d = DICE[di]
  for vals in [v for L in (1, 2, 3) for v in itertools.combinations((-2, -1, 0, 1, 2, 3, 5), L)]:
    for ws in itertools.product((1, 2, 3), repeat=len(vals)):
      exp = ref.mix([(ref.roll(v, d), w) for v, w in zip(vals, ws)])
      one(ctx, T, O, f'roll(RV({list(vals)},{list(ws)}),{dcode})', exp)
  for code, c in [('roll(6)', ref.dn(6)), ('roll(2,4)', ref.add_n(ref.dn(4), 2)), ('roll(3)-2', ref.die([-1, 0, 1])), ('roll(6)>=4', ref.die([0, 1])), ('RV([0,2,4],[0,1,3])', ref.die([2, 4], [1, 3])), ('RV([10,1],[1,9])', ref.die([10, 1], [1, 9]))]:
    exp = ref.mix([(ref.roll(v, d), w) for v, w in c])
    one(ctx, T, O, f'roll({code},{dcode})', exp)
  one(ctx, T, O, f'roll(roll(2), roll(roll(2),{dcode}))', ref.mix([(ref.roll(k, ref.mix([(ref.roll(1, d), 1), (ref.roll(2, d), 1)])), 1) for k in (1, 2)]))


def job_weighted(ctx, vals, maxw, maxn):
  import target as T
  import obs as O
  for ws in itertools.product(range(1, maxw + 1), repeat=len(vals)):
    d = ref.die(vals, ws)
    for n in range(-2, maxn + 1):
      one(ctx, T, O, f'roll({n},RV({list(vals)},{list(ws)}))', ref.roll(n, d), n)


def jobs(tier):
  js = []
  for i in range(len(DICE)):
    js.append(Job(f'counts {DICE[i][0]}', job_counts, i, range(-9, 13)))
  big = (16, 17, 20, 25, 31, 32, 33, 50, 64, 100) + ((127, 128, 129, 150, 200) if tier == 'thorough' else ())
  for i in (0, 1, 3, 4, 8, 9, 14, 15, 16, 19) + ((6, 10, 13, 17, 20, 21) if tier == 'thorough' else ()):
    for n in big:
      c = DICE[i][1]
      if n * n * len(c)**2 > (1000000 if tier == 'quick' else 20000000):
        continue
      js.append(Job(f'big {n} {DICE[i][0]}', job_big, i, n))
  for i, top in ((1, 200), (14, 120), (8, 120), (9, 60), (0, 60), (10, 100), (2, 300), (3, 300), (12, 200)):
    js += [Job(f'sweep {DICE[i][0]} {down}', job_sweep, i, top if tier == 'quick' else 2 * top, down) for down in (False, True)]
  js.append(Job('uneven', job_uneven, (20, 49, 50, 51, 64, 65, 99, 100, 128, 129)))
  js.append(Job('sides all', job_sides, range(-40, 130)))
  js.append(Job('sides small', job_sides, range(-12, 31)))
  for s in (50, 64, 65, 100, 101, 128, 200, 256, -100):
    js.append(Job(f'sides {s}', job_sides, (s,)))
  js.append(Job('sides 1000', job_sides, (1000,)))
  js += [Job('strings', job_strings), Job('fractions', job_fractions), Job('star', job_star)]
  for di in (0, 1, 3, 4, 8, 10, 15, 16, 17):
    js.append(Job(f'random count {DICE[di][0]}', job_random_count, di))
  for L in (2, 3) + ((4,) if tier == 'thorough' else ()):
    for vals in itertools.combinations((-1, 0, 1, 2, 0.5), L):
      js.append(Job(f'weighted {vals}', job_weighted, vals, 3, 6 if L == 2 else 5))
  return js
