"""C05: casting decorator = average over every joint outcome."""
import itertools
from fractions import Fraction
from math import factorial
import ref
from mc import Job
PID = 'C05'
META = dict(
  rule='every signature of 1..3 parameters over {number, sequence, die, undeclared, other annotation} x every argument tuple over an alphabet of numbers, sequences, lists, dice, pools and the empty die x calling style (positional/keyword splits, reordered keywords, defaults, extra args) x body result kind (number, float, bool, sequence, list, die, nothing, empty die, mixtures); the body checks the type of what it receives; the result is compared with the weighted enumeration of all joint outcomes',
  bounds='quick: up to 2 parameters full alphabet, 3 parameters reduced alphabet, plus pools up to 6d6 / 10d4 and joint products up to 8000 outcomes; thorough: 3 parameters full alphabet, 4 reduced; both tiers also: sparse sequences',
  assumptions=['fractional numbers passed for a sequence parameter and texts are not specified here'])

W = ((1, 1), (2, 3))
ARGS = [
  ('3', 'num', 3), ('-2', 'num', -2), ('Seq(1,2)', 'seq', (1, 2)), ('[2,2,5]', 'list', (2, 2, 5)), ('Seq()', 'seq', ()), ('RV([1,2],[1,3])', 'die', (1, W)), ('roll(2,RV([1,2],[1,3]))', 'pool', (2, W)), ('roll(3,2)', 'pool', (3, ref.dn(2))),
  ('roll(3,RV([5],[1]))', 'pool', (3, ref.die([5]))), ('roll(2,RV([1,2,3],[1,0,2]))', 'pool', (2, ref.die([1, 3], [1, 2]))), ('BlankRV()', 'blank', None), ('RV([0,4],[1,2])', 'die', (1, ref.die([0, 4], [1, 2]))), ('roll(BlankRV(),6)', 'null', None), ('0', 'num', 0), ('range(2,4)', 'list', (2, 3)), ('roll(2)-1', 'die', (1, ref.die([0, 1]))), ('True', 'num', 1), ('1.5', 'float', 1.5), ('RV([0.5,2],[1,1])', 'die', (1, ref.die([0.5, 2]))), ('roll(2,RV([-1,0,5],[2,1,1]))', 'pool', (2, ref.die([-1, 0, 5], [2, 1, 1])))]
SMALLARGS = [ARGS[i] for i in (0, 2, 3, 5, 6, 10)]
KINDS = 'NSDUO'
MODES = ('num', 'die', 'seq', 'list', 'none-odd', 'blank-odd', 'mixed', 'none', 'bool', 'float', 'empty-seq', 'pool')


class BadType(Exception):
  pass


def enc_num(v):
  return v


def enc_seq(t):
  return 100 * len(t) + sum((i + 1) * x for i, x in enumerate(t))


def enc_die(c):
  tot = ref.total(c)
  return sum(v * w * 7 for v, w in c) + tot * 1000 + sum((i + 1) * w for i, (v, w) in enumerate(c))


def model_outcomes(kind, akind, aval):
  """-> list of (tag, payload, weight) the parameter takes, or 'skip'"""
  if akind in ('blank', 'null'):
    if kind in 'NS':
      return 'skip'
    return [('blank', None, 1)]
  if kind == 'N':
    if akind in ('num', 'float'):
      return [('num', aval, 1)]
    if akind in ('seq', 'list'):
      return [('num', sum(aval), 1)]
    n, c = aval
    return [('num', v, w) for v, w in ref.add_n(c, n)]
  if kind == 'S':
    if akind in ('num', 'float'):
      return [('seq', (aval,), 1)]
    if akind in ('seq', 'list'):
      return [('seq', aval, 1)]
    n, c = aval
    return [('seq', t, w) for t, w in ref.sorted_pools(c, n)]
  if kind == 'D':
    if akind in ('num', 'float'):
      return [('die', ref.const(aval), 1)]
    if akind in ('seq', 'list'):
      return [('die', ref.die(aval) if aval else ref.const(0), 1)]
    n, c = aval
    return [('die', ref.add_n(c, n), 1)]
  # undeclared / other annotation: passed through
  if akind in ('num', 'float'):
    return [('num', aval, 1)]
  if akind == 'seq':
    return [('seq', aval, 1)]
  if akind == 'list':
    return [('rawlist', aval, 1)]
  n, c = aval
  return [('die', ref.add_n(c, n), 1)]


def enc_model(tag, p):
  return 7 if tag == 'blank' else enc_num(p) if tag == 'num' else enc_seq(p) if tag == 'seq' else enc_seq(p) + 5 if tag == 'rawlist' else enc_die(p)


def is_hard(kind, akind):
  return (kind in 'NS') and akind in ('die', 'pool')


def body_result(mode, k):
  """model of the body's return value"""
  m = int(k) % 3
  odd = int(k) % 2 == 1
  if mode == 'num':
    return ('num', k)
  if mode == 'die':
    return ('die', ((k, 1), (k + 1, 2)))
  if mode in ('seq', 'list'):
    return (mode, (k, 1, k))
  if mode == 'none-odd':
    return ('none',) if odd else ('num', k)
  if mode == 'blank-odd':
    return ('blank',) if odd else ('num', k)
  if mode == 'mixed':
    return [('num', k), ('die', ((k, 1), (k + 1, 2))), ('none',)][m]
  if mode == 'none':
    return ('none',)
  if mode == 'bool':
    return ('num', 1 if k > 1500 else 0)
  if mode == 'float':
    return ('num', k / 2)
  if mode == 'empty-seq':
    return (('seq', ()) if m == 1 else ('seq', (k,))) if odd else (('list', ()) if m == 0 else ('num', 0))
  if mode == 'pool':
    return ('die', ((2, 1), (3, 6), (4, 9)))


def make_body(T, O, mode, calls, check):
  def enc_real(tagkind, x):
    if isinstance(x, T.BlankRV):
      return 7
    if tagkind == 'N':
      if not isinstance(x, (int, float)):
        raise BadType('number parameter got ' + type(x).__name__)
      return x
    if tagkind == 'S':
      if not isinstance(x, T.Seq):
        raise BadType('sequence parameter got ' + type(x).__name__)
      t = tuple(x)
      if len(x) != len(t) or any(x[i + 1] != v for i, v in enumerate(t)):
        raise BadType('sequence access')
      return enc_seq(t)
    if tagkind == 'D':
      if not isinstance(x, T.RV):
        raise BadType('die parameter got ' + type(x).__name__)
      return enc_die(O.o_die(x))
    if isinstance(x, (int, float)):
      return x
    if isinstance(x, T.Seq):
      return enc_seq(tuple(x))
    if isinstance(x, T.RV):
      return enc_die(O.o_die(x))
    return enc_seq(tuple(x)) + 5

  def body(kinds, xs):
    calls[0] += 1
    k = 0
    for i, (kd, x) in enumerate(zip(kinds, xs)):
      k += (i * 13 + 1) * enc_real(kd, x)
    r = body_result(mode, k)
    if r[0] == 'num':
      return (k > 1500) if mode == 'bool' else r[1]
    if r[0] == 'none':
      return None
    if r[0] == 'blank':
      return T.BlankRV()
    if r[0] == 'seq':
      return T.Seq(*r[1])
    if r[0] == 'list':
      return list(r[1])
    if mode == 'pool':
      return pool[0]
    return T.RV([v for v, _ in r[1]], [w for _, w in r[1]])
  pool = [T.roll(2, T.RV([1, 2], [1, 3]))]
  return body


ANN = {'N': ': T_N', 'S': ': T_S', 'D': ': T_D', 'U': '', 'O': ': int'}


def make_func(T, O, kinds, mode, deco, shape='plain'):
  calls = [0]
  body = make_body(T, O, mode, calls, None)
  names = [f'P{i}' for i in range(len(kinds))]
  params = ', '.join(n + ANN[k] for n, k in zip(names, kinds))
  if shape == 'varargs':
    params += ', *args, **kwargs'
  if shape == 'kwonly':
    params = params + ', *, flag=0'
  env = dict(T_N=T.T_N, T_S=T.T_S, T_D=T.T_D, body=body)
  exec(f'def f({params}):\n  return body({kinds!r}, [{", ".join(names)}])\n', env)
  return (T.anydice_casting() if deco == 'casting' else T.anydice_type_casting())(env['f']), calls


def expected(kinds, args, mode, deco):
  outs = []
  for kd, (code, ak, av) in zip(kinds, args):
    o = model_outcomes(kd, ak, av)
    if o is None:
      return 'unspecified'
    outs.append(o)
  if any(o == 'skip' for o in outs):
    return ('empty', 0)
  hard = any(is_hard(kd, a[1]) for kd, a in zip(kinds, args))
  if not hard:
    k = sum((i * 13 + 1) * enc_model(o[0][0], o[0][1]) for i, o in enumerate(outs))
    r = body_result(mode, k)
    if r[0] == 'none' and deco == 'casting':
      return ('val', ('blank',))
    return ('val', ('other', 'list') if r[0] == 'list' else r)
  d = {}
  from fractions import Fraction
  any_ = False
  for combo in itertools.product(*outs):
    w = 1
    k = 0
    for i, (tag, p, q) in enumerate(combo):
      w *= q
      k += (i * 13 + 1) * enc_model(tag, p)
    r = body_result(mode, k)
    if r[0] in ('none', 'blank'):
      continue
    any_ = True
    if r[0] == 'num':
      d[r[1]] = d.get(r[1], 0) + Fraction(w)
    elif r[0] in ('seq', 'list'):
      s = sum(r[1])
      d[s] = d.get(s, 0) + Fraction(w)
    else:
      t = sum(q for _, q in r[1])
      for v, q in r[1]:
        d[v] = d.get(v, 0) + Fraction(w * q, t)
  if not any_:
    if any('[1,0,2]' in a[0] for a in args):
      return 'unspecified'  # only outcomes of probability 0 give a result
    return ('val', ('blank',))
  return ('val', ('die', ref.canon_frac(d)))


def call(f, objs, npos, rev):
  pos = objs[:npos]
  kw = [(f'P{i}', objs[i]) for i in range(npos, len(objs))]
  if rev:
    kw.reverse()
  return f(*pos, **dict(kw))


def one(ctx, T, O, kinds, args, objs, mode, deco, npos, rev, f, calls, shape='plain', extra=None):
  exp = expected(kinds, args, mode, deco)
  if exp == 'unspecified':
    return
  before = [O.snap(o) for o in objs]

  def run():
    calls[0] = 0
    if extra:
      r = f(*objs, *extra[0], **extra[1])
    else:
      r = call(f, objs, npos, rev)
    if [O.snap(o) for o in objs] != before:
      return ('arguments changed', before)
    if exp[0] == 'empty':
      return ('empty', calls[0]) if isinstance(r, T.BlankRV) else ('not empty', O.o_val(r))
    if calls[0] == 0:
      return 'body never called'
    return ('val', O.o_val(r))
  sig = ','.join(kinds)
  ctx.compare(f'f({sig}) [{shape}] body={mode} {deco} called with ({", ".join(a[0] for a in args)}) positional={npos} reversed={rev} extra={extra}', run, exp)


def job(ctx, kinds_first, n, args, modes, styles, decos, argfirst=None):
  import target as T
  import obs as O
  env = dict(vars(T))
  objs_all = [(a, eval(a[0], env)) for a in args]
  for rest in itertools.product(KINDS, repeat=n - 1):
    kinds = (kinds_first, *rest)
    for mode in modes:
      for deco in decos:
        f, calls = make_func(T, O, kinds, mode, deco)
        for combo in itertools.product(objs_all, repeat=n):
          a = [c[0] for c in combo]
          o = [c[1] for c in combo]
          for npos, rev in styles:
            one(ctx, T, O, kinds, a, o, mode, deco, npos, rev, f, calls)


def job_shapes(ctx):
  import target as T
  import obs as O
  env = dict(vars(T))
  args = [(a, eval(a[0], env)) for a in SMALLARGS]
  extras = [((), {}), ((5,), {}), ((5, T.roll(2)), {'Z': 3}), ((), {'Z': T.roll(3), 'Y': T.Seq(1, 2)}), ((T.roll(2, 3), T.BlankRV(), [1]), {})]
  for n in (1, 2):
    for kinds in itertools.product('NSDU', repeat=n):
      for mode in ('num', 'mixed', 'die'):
        f, calls = make_func(T, O, kinds, mode, 'type', 'varargs')
        g, gcalls = make_func(T, O, kinds, mode, 'type', 'kwonly')
        for combo in itertools.product(args, repeat=n):
          a, o = [c[0] for c in combo], [c[1] for c in combo]
          for ex in extras:
            one(ctx, T, O, kinds, a, o, mode, 'type', n, False, f, calls, 'varargs', ex)
          one(ctx, T, O, kinds, a, o, mode, 'type', n, False, g, gcalls, 'kwonly', ((), {'flag': 1}))
          one(ctx, T, O, kinds, a, o, mode, 'type', n, False, g, gcalls, 'kwonly')


def job_defaults(ctx):
  """parameters left at their default are not converted and do not disturb the others"""
  import target as T
  import obs as O
  seen = []

  @T.anydice_type_casting()
  def f(A: T.T_N, B: T.T_S = 9, C: T.T_D = 4, D=T.Seq(1)):
    seen.append((type(A).__name__, type(B).__name__, type(C).__name__, type(D).__name__))
    b = sum(B) if isinstance(B, T.Seq) else B
    c = sum(v * p for v, p in zip(C.vals, C.probs)) if isinstance(C, T.RV) else C
    return A * 1000 + b * 10 + c
  d2 = T.roll(2)
  cases = [
    ('f(d2)', lambda: f(d2), ref.die([1094, 2094])), ('f(A=d2)', lambda: f(A=d2), ref.die([1094, 2094])), ('f(1,B=d2)', lambda: f(1, B=d2), ref.die([1014, 1024])), ('f(B=d2,A=d2)', lambda: f(B=d2, A=d2), ref.die([1014, 1024, 2014, 2024])),
    ('f(d2,C=5)', lambda: f(d2, C=5), ref.die([1095, 2095])), ('f(d2,C=d2)', lambda: f(d2, C=d2), ref.die([1093, 2093])), ('f(d2,roll(2,2))', lambda: f(d2, T.roll(2, 2)), ref.die([1024, 1034, 1044, 2024, 2034, 2044], [1, 2, 1, 1, 2, 1])), ('f(C=7,A=Seq(1,2))', lambda: f(C=7, A=T.Seq(1, 2)), ref.const(3097)),
    ('f(d2,[1,2],[3,3])', lambda: f(d2, [1, 2], [3, 3]), ref.die([1033, 2033])),
  ]
  for name, fn, exp in cases * 2:
    ctx.compare(name + '  for f(A:N, B:S=9, C:D=4, D=Seq(1)) = 1000A+10sum(B)+weighted sum(C)', lambda: O.o_die(fn()), exp)


def job_sparse(ctx, sizes, limit):
  """functions that return something only for some of the outcomes of a large die or pool"""
  import target as T
  import obs as O
  want, what = [None], [None]

  def body(n):
    if want[0](n):
      return n
    return {'none': None, 'blank': T.BlankRV(), 'null': T.BlankRV(_special_null=True)}[what[0]]

  @T.anydice_casting()
  def f(N: T.T_N):
    return body(N)

  @T.anydice_type_casting()
  def g(S: T.T_S):
    return body(sum(S))

  @T.anydice_casting()
  def h(A: T.T_N, B: T.T_N):
    return body(A * 100 + B)
  for s in sizes:
    die = ref.dn(s)
    for lo, hi in sorted({(a, b) for a in {1, 2, s // 3, s // 2, s - 8, s - 3, s - 1, s} for b in {a, a + 1, s // 2, s - 1, s, s + 1} if 1 <= a <= b}):
      for neg in (False, True):
        for w in ('none', 'blank', 'null'):
          want[0], what[0] = (lambda n: (lo <= n <= hi) != neg), w
          e = ref.canon({v: p for v, p in die if want[0](v)})
          for nm, fn in (('number', lambda: f(T.roll(s))), ('sequence', lambda: g(T.roll(s)))):
            ctx.compare(f'{nm} function of a d{s}, {w} {"inside" if neg else "outside"} {lo}..{hi}', lambda: O.o_val(fn()), ('die', e) if e else ('blank',))
    if s <= limit:
      for a, b in sorted({(x, y) for x in (1, 2, s // 2, s - 1, s) for y in (1, 2, s // 2, s - 1, s)}):
        for neg in (False, True):
          want[0], what[0] = (lambda n: (n == 100 * a + b) != neg), 'none'
          e = ref.canon({100 * x + y: 1 for x in range(1, s + 1) for y in range(1, s + 1) if want[0](100 * x + y)})
          ctx.compare(f'function of two d{s}, nothing {"only" if neg else "but"} at {a},{b}', lambda: O.o_val(h(T.roll(s), T.roll(s))), ('die', e))
      for k in (2, 3):
        p = ref.add_n(die, k)
        for lo in (k, k + 1, k * s // 2, k * s - 1, k * s):
          for neg in (False, True):
            want[0], what[0] = (lambda n: (n >= lo) != neg), 'none'
            e = ref.canon({v: q for v, q in p if want[0](v)})
            for nm, fn in (('number', f), ('sequence', g)):
              ctx.compare(f'{nm} function of {k}d{s}, nothing {"from" if neg else "below"} {lo}', lambda: O.o_val(fn(T.roll(k, s))), ('die', e) if e else ('blank',))


def job_big(ctx, i):
  import target as T
  import obs as O

  @T.anydice_type_casting()
  def top2(S: T.T_S):
    return 1 @ S + 2 @ S

  @T.anydice_type_casting()
  def span(S: T.T_S):
    return 1 @ S - len(S) @ S

  @T.anydice_type_casting()
  def lincomb(A: T.T_N, B: T.T_N, C: T.T_N):
    return A + 2 * B - C

  @T.anydice_type_casting()
  def drop(A: T.T_N):
    if A % 2:
      return A

  @T.anydice_type_casting()
  def nested(A: T.T_N):
    return T.roll(A % 3 + 1, 4)

  @T.anydice_type_casting()
  def mixed(S: T.T_S, N: T.T_N, D: T.T_D):
    return (S == N) + D

  def pooled(c, n, fn):
    d = {}
    for t, w in ref.sorted_pools(c, n):
      r = fn(t)
      d[r] = d.get(r, 0) + w
    return ref.canon(d)
  cs = [
    lambda: [(f'top2 of roll({n},{s})', lambda n=n, s=s: top2(T.roll(n, s)), ref.select_dp(ref.dn(s), n, (1, 2))) for n, s in ((2, 6), (3, 6), (4, 6), (5, 6), (6, 6), (10, 4), (20, 2), (3, 20), (15, 3))],
    lambda: [(f'span of roll({n},{s})', lambda n=n, s=s: span(T.roll(n, s)), pooled(ref.dn(s), n, lambda t: t[0] - t[-1])) for n, s in ((2, 6), (3, 6), (4, 5), (5, 4), (7, 3))],
    lambda: [(f'lincomb d20 d20 d20', lambda: lincomb(T.roll(20), T.roll(20), T.roll(20)), ref.map2(ref.map2(ref.dn(20), ref.dn(20), lambda a, b: a + 2 * b), ref.dn(20), lambda x, c: x - c)), ('lincomb same pool', lambda: lincomb(T.roll(2, 6), T.roll(2, 6), 3), ref.map2(ref.add_n(ref.dn(6), 2), ref.add_n(ref.dn(6), 2), lambda a, b: a + 2 * b - 3))],
    lambda: [(f'drop of roll({n},{s})', lambda n=n, s=s: drop(T.roll(n, s)), ref.canon({v: w for v, w in ref.add_n(ref.dn(s), n) if v % 2})) for n, s in ((1, 6), (2, 6), (10, 6), (1, 100), (20, 6))],
    lambda: [(f'nested of roll({n},{s})', lambda n=n, s=s: nested(T.roll(n, s)), ref.mix([(ref.add_n(ref.dn(4), v % 3 + 1), w) for v, w in ref.add_n(ref.dn(s), n)])) for n, s in ((1, 6), (2, 6), (4, 4), (1, 20))],
    lambda: [(f'mixed of roll({n},6), d6, d4', lambda n=n: mixed(T.roll(n, 6), T.roll(6), T.roll(4)), ref.map2(ref.mix([(pooled(ref.dn(6), n, lambda t: t.count(v)), 1) for v in range(1, 7)]), ref.dn(4), lambda a, b: a + b)) for n in (1, 2, 3, 4)],
  ]
  for name, fn, exp in cs[i]():
    small = ref.total(exp) <= O.LIMIT
    ctx.compare(name, lambda: O.o_die(fn()) if small else O.close(fn(), exp), exp if small else 'close')


def job_long(ctx, faces, ws, ns):
  """pools of every size: how many dice show the second face, and the ends"""
  import target as T
  import obs as O
  from math import comb

  @T.anydice_casting()
  def f(S: T.T_S):
    return (S == faces[1]) + 1000 * len(S)

  @T.anydice_type_casting()
  def ends(S: T.T_S):
    return 1 @ S * 10 + len(S) @ S

  @T.anydice_type_casting()
  def value(N: T.T_N, S: T.T_S):
    return N + 0.5 * (S == faces[1])
  die = T.RV(faces, ws)
  for n in ns:
    p = T.roll(n, die)
    cnt = ref.canon({k + 1000 * n: comb(n, k) * ws[1]**k * ws[0]**(n - k) for k in range(n + 1)})
    lo, hi, t = ws[0]**n, ws[1]**n, sum(ws)**n
    a, b = faces
    es = ref.canon({11 * a: lo, 11 * b: hi, b * 10 + a: t - lo - hi} if t - lo - hi else {11 * a: lo, 11 * b: hi})
    vs = ref.canon_frac({a * (n - k) + b * k + 0.5 * j: Fraction(comb(n, k) * ws[1]**k * ws[0]**(n - k) * (ws[0], ws[1])[j]) for k in range(n + 1) for j in (0, 1)}) if 2 * (b - a) != 1 else None
    for name, g, exp in (('count', lambda: f(p), cnt), ('ends', lambda: ends(p), es), ('value', lambda: value(p, die), vs)):
      small = ref.total(exp) <= O.LIMIT and t <= O.LIMIT
      ctx.compare(f'{name} of {n} dice {faces} weights {ws}', lambda: O.o_die(g()) if small else O.close(g(), exp), exp if small else 'close')


def job_wide(ctx, n, s):
  """few dice with many faces"""
  import target as T
  import obs as O

  @T.anydice_casting()
  def f(S: T.T_S):
    return 1 @ S + 1000 * (n @ S)
  d = {}
  for t in itertools.combinations_with_replacement(range(1, s + 1), n):
    k = 1
    for v in set(t):
      k *= factorial(t.count(v))
    r = t[-1] + 1000 * t[0]
    d[r] = d.get(r, 0) + factorial(n) // k
  ctx.compare(f'largest and smallest of {n}d{s}', lambda: O.o_die(f(T.roll(n, s))), ref.canon(d))


def job_arity(ctx, n):
  """many parameters: every assignment of kinds, each given a different die or pool"""
  import target as T
  import obs as O
  base = [('RV([1,2],[1,3])', 'die', (1, W)), ('3', 'num', 3), ('roll(2,RV([1,2],[1,3]))', 'pool', (2, W)), ('Seq(1,2)', 'seq', (1, 2)), ('RV([0,4],[1,2])', 'die', (1, ref.die([0, 4], [1, 2])))]
  env = dict(vars(T))
  for kinds in itertools.product('NSD', repeat=n):
    for shift in range(len(base) if n < 6 else 1):
      args = [base[(i + shift) % len(base)] for i in range(n)]
      objs = [eval(a[0], env) for a in args]
      f, calls = make_func(T, O, kinds, 'num', 'casting')
      for npos, rev in ((n, False), (n // 2, True)):
        one(ctx, T, O, kinds, args, objs, 'num', 'casting', npos, rev, f, calls)


def jobs(tier):
  js = []
  q = tier == 'quick'
  for k in KINDS:
    js.append(Job(f'1 {k}', job, k, 1, ARGS, MODES, ((1, False), (0, False)), ('casting', 'type')))
    for m in MODES:
      js.append(Job(f'2 {k} {m}', job, k, 2, ARGS if not q else ARGS[:15], (m,), ((2, False), (1, False), (0, False), (0, True)) if not q or m == 'mixed' else ((2, False), (0, True)), ('type',) if q else ('casting', 'type')))
    for m in ('mixed', 'num') if q else ('num', 'mixed', 'die', 'seq', 'none-odd'):
      js.append(Job(f'3 {k} {m}', job, k, 3, SMALLARGS[:5] if q else ARGS[:11], (m,), ((3, False),) if q and m == 'num' else ((1, True),) if q else ((3, False), (1, True)), ('type',)))
  for faces, ws, top in (((1, 2), (1, 1), 110), ((-3, 0.5), (3, 1), 60), ((0, 7), (1, 2), 60)):
    for part in range(4):
      js.append(Job(f'long {faces} {ws} {part}', job_long, faces, ws, range(2 + part, top if q else 2 * top, 4)))
  js += [Job(f'wide {n}d{s}', job_wide, n, s) for n, s in ((2, 60), (2, 100), (2, 128), (3, 25), (3, 33), (4, 12))]
  js += [Job(f'arity {n}', job_arity, n) for n in ((4, 5) if q else (4, 5, 6, 7))]
  js += [Job(f'sparse {s}', job_sparse, s, 12 if q else 24) for s in ((2, 3, 4, 5, 6, 8), (9, 10, 12), (16, 20, 24), (30, 33, 50, 65), (100, 129))]
  js += [Job('shapes', job_shapes), Job('defaults', job_defaults)]
  js += [Job(f'big {i}', job_big, i) for i in range(6)]
  return js
