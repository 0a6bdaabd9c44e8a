"""C19: operator tables of the empty die and of the undetermined die."""
import itertools
import math
import operator as op
import ref
from mc import Job, observe
PID = 'C19'
META = dict(
  rule='the empty die and the undetermined die, obtained in every way (constructor, rolling, functions, mixtures, filtered results), under every binary operator on both sides with every operand of an alphabet of numbers, sequences, lists, ranges, dice and pools, every unary operator, every selection, roll, sequence and mixture; explicit-state exploration of all chains of such steps from every start (states are values; each distinct value is expanded once); compiled expressions with the same operands under every operator and option; oracle: the written operator table',
  bounds='quick: chains of depth 3 over 12 operands; compiled expressions of 2 operators; thorough: depth 4, compiled expressions of 2 operators under all options; both tiers also: about 250 operands',
  assumptions=['an operator between the empty and the undetermined die other than + and - is not specified', 'empty die + sequence may be the sequence or its sum', 'multi-position selections from the undetermined die are not specified'])
AR = {'+': op.add, '-': op.sub, '*': op.mul, '//': op.floordiv, '/': op.truediv, '%': op.mod, '**': op.pow}
CM = {'==': op.eq, '!=': op.ne, '<': op.lt, '<=': op.le, '>': op.gt, '>=': op.ge}
BO = {'&': op.and_, '|': op.or_}
ALL = {**AR, **CM, **BO}
B, N = ('blank',), ('null',)


def starts(T):
  """every way to get the two special dice: name -> (object, model)"""
  @T.anydice_casting()
  def nothing(A: T.T_N):
    return None

  @T.anydice_casting()
  def deep(A: T.T_N):
    return deep(A)

  def blank():
    return T.roll(T.Seq())
  yield 'BlankRV()', T.BlankRV(), B
  yield 'roll(Seq())', T.roll(T.Seq()), B
  yield 'roll([])', T.roll([]), B
  yield 'roll(3,Seq())', T.roll(3, T.Seq()), B
  yield 'roll(0,Seq())', T.roll(0, T.Seq()), B
  yield 'roll(-2,[])', T.roll(-2, []), B
  yield 'roll(Seq(1,2),[[],[]])', T.roll(T.Seq(1, 2), [[], []]), B
  yield 'roll(roll(6),Seq())', T.roll(T.roll(6), T.Seq()), B
  yield 'roll(blank)', T.roll(blank()), B
  yield 'roll(2,blank)', T.roll(2, blank()), B
  yield 'roll(roll(2),blank)', T.roll(T.roll(2), blank()), B
  yield 'roll(Seq(2),blank)', T.roll(T.Seq(2), blank()), B
  yield 'roll([blank,blank])', T.roll([blank(), blank()]), B
  yield 'roll(Seq(blank))', T.roll(T.Seq(blank())), B
  yield 'RV.from_rvs([])', T.RV.from_rvs([]), B
  yield 'RV.from_rvs([blank,None],[3,1])', T.RV.from_rvs([blank(), None], [3, 1]), B
  yield 'RV.from_rvs([None])', T.RV.from_rvs([None]), B
  yield 'RV.from_rvs([blank]*3)', T.RV.from_rvs([blank(), blank(), blank()]), B
  yield 'nothing(1)', nothing(1), B
  yield 'nothing(d3)', nothing(T.roll(3)), B
  yield 'deep(1)', deep(1), B
  yield 'roll(blank,6)', T.roll(blank(), 6), N
  yield 'roll(blank,0)', T.roll(blank(), 0), N
  yield 'roll(blank,-3)', T.roll(blank(), -3), N
  yield 'roll(blank,[1,2])', T.roll(blank(), [1, 2]), N
  yield 'roll(blank,2d6)', T.roll(blank(), T.roll(2, 6)), N
  yield 'roll(blank,2.5)', T.roll(blank(), 2.5), N
  yield 'roll(roll(blank,6),6)', T.roll(T.roll(blank(), 6), 6), N
  yield 'roll(nothing(1),6)', T.roll(nothing(1), 6), N


def operands(T):
  """name -> (object, model value)"""
  for v in (0, 1, -1, 2, 5, 17, -40, 2.5, -0.5, True, False, 10**20, 0.0):
    yield repr(v), v, ('num', v)
  for t in ((), (0,), (1,), (1, 2), (-3, 3), (2.5, 1), (4, 4, 4), tuple(range(12)), tuple(i * 7 % 23 - 5 for i in range(120)), tuple(i % 10 + 1 for i in range(300))):
    nm = f'{t}' if len(t) < 20 else f'({t[0]},{t[1]},..{len(t)} elements)'
    yield f'Seq{nm}', T.Seq(*t), ('seq', t)
    yield f'list{nm}', list(t), ('seq', t)
    yield f'{nm}', t, ('seq', t)
  for n in (1, 2, 3):  # every small content
    for t in itertools.product((-7, -1, 0, 1, 0.5) if n < 3 else (-2, 0, 1), repeat=n):
      yield f'Seq{t}', T.Seq(*t), ('seq', t)
      if n < 3:
        yield f'list{t}', list(t), ('seq', t)
        yield f'{t}', t, ('seq', t)
        yield f'nested {t}', [[], list(t[:1]), [[list(t[1:])]]], ('seq', t)
  for v in range(-13, 14):
    yield repr(v), v, ('num', v)
  for a, b in ((-3, 0), (-5, -2), (0, 1), (5, 5), (-2, 3)):
    yield f'range({a},{b})', range(a, b), ('seq', tuple(range(a, b)))
  for vs, ws in itertools.product(((-2,), (-1, 0), (0, 1), (-3, 2), (0.5, 1)), ((1, 1), (2, 1), (1, 3))):
    yield f'RV({vs},{ws[:len(vs)]})', T.RV(vs, ws[-len(vs):]), ('die', ref.die(vs, ws[-len(vs):]))
  yield 'range(1,4)', range(1, 4), ('seq', (1, 2, 3))
  yield '[[1],[2,[3]]]', [[1], [2, [3]]], ('seq', (1, 2, 3))
  for c, x in (('RV.from_const(0)', T.RV.from_const(0)), ('RV.from_const(4)', T.RV.from_const(4)), ('roll(6)', T.roll(6)), ('roll(3,4)', T.roll(3, 4)), ('roll(-2)', T.roll(-2)), ('RV([0,7],[1,9])', T.RV([0, 7], [1, 9])), ('RV([-1.5,2],[2,3])', T.RV([-1.5, 2], [2, 3])), ('roll(0,6)', T.roll(0, 6)), ('roll(-2,6)', T.roll(-2, 6)), ('roll(roll(2),3)', T.roll(T.roll(2), 3)), ('roll(8,10)', T.roll(8, 10)), ('RV([0,1],[1,10**11])', T.RV([0, 1], [1, 10**11])), ('2@roll(3,6)', 2 @ T.roll(3, 6)), ('roll(6)>3', T.roll(6) > 3)):
    import obs as O
    yield c, x, ('die', O.o_die(x))


def num(v):
  return ('num', int(v) if isinstance(v, bool) else v)


def m_neg(m):
  if m[0] == 'num':
    return num(-m[1])
  if m[0] == 'seq':
    return num(-sum(m[1]))
  if m[0] == 'die':
    return ('die', ref.neg(m[1]))
  return m


def m_bin(o, x, y):
  """model; None: not specified; 'error'"""
  if x in (B, N) and y in (B, N):
    if o in '+-':
      return N if N in (x, y) else B
    if x != y:
      return None
  if N in (x, y):
    return N if o in AR else num(1)
  if B in (x, y):
    z = y if x == B else x
    if o == '-' and x == B:
      return m_neg(z)
    if o in ('+', '-', '|'):
      return num(sum(z[1])) if z[0] == 'seq' else num(z[1]) if z[0] == 'num' else z
    return B
  a, b = ((s[1] if s[0] == 'num' else sum(s[1])) if s[0] in ('num', 'seq') else s[1] for s in (x, y))
  if x[0] != 'die' and y[0] != 'die':
    if x[0] == 'seq' or y[0] == 'seq' or o in BO:
      return None
    try:
      r = ref.OPS[o](a, b)
    except (ZeroDivisionError, OverflowError):
      return None
    return None if isinstance(r, complex) else num(r)
  try:
    r = ref.map2(a if x[0] == 'die' else ref.const(a), b if y[0] == 'die' else ref.const(b), ref.OPS[o])
  except (ZeroDivisionError, OverflowError, TypeError, ref.Undefined):
    return None
  return ('die', r) if all(v == v and abs(v) < 1e15 for v, _ in r) else None


def seqsum(T, O, x):
  """a sequence of any kind counts as its sum"""
  if isinstance(x, (list, tuple, range)):
    x = T.Seq(x)
  return num(x.sum()) if isinstance(x, T.Seq) else O.o_val(x)


def tables(ctx, i):
  import target as T
  import obs as O
  name, s, m = list(starts(T))[i]
  ctx.compare(f'{name}', lambda: O.o_val(s), m)
  ctx.compare(f'len({name})', lambda: len(s), 0 if m == B else 1)
  for un, f in (('-', op.neg), ('+', op.pos), ('abs', abs), ('round', round), ('round1', lambda x: round(x, 1)), ('floor', math.floor), ('ceil', math.ceil), ('trunc', math.trunc)):
    ctx.compare(f'{un}({name})', lambda: O.o_val(f(s)), m)
  ctx.compare(f'~{name}', lambda: O.o_val(~s), m if m == B else num(1))
  ctx.compare(f'myInvert({name})', lambda: O.o_val(T.myInvert(s)), m if m == B else num(1))
  ctx.compare(f'myLen({name})', lambda: T.myLen(s), 0 if m == B else 1)
  for bn, f in (('bool', bool), ('if', lambda x: 1 if x else 0), ('not', lambda x: not x), ('and', lambda x: x and 1), ('while', lambda x: [1 for _ in range(2) if x])):
    ctx.compare(f'{bn}({name})', lambda: f(s), ('raised', 'TypeError'))
  ops = list(operands(T)) + [(n, x, k) for n, x, k in starts(T) if n in ('BlankRV()', 'roll(blank,6)', 'deep(1)')]
  for on, x, k in ops:
    for o, f in ALL.items():
      e = m_bin(o, m, k)
      if e is not None:
        ctx.compare(f'{name} {o} {on}', lambda: seqsum(T, O, f(s, x)), e)
      e = m_bin(o, k, m)
      if e is not None:
        ctx.compare(f'{on} {o} {name}', lambda: seqsum(T, O, f(x, s)), e)
    if k not in (B, N):
      for f, o in ((T.myAnd, '&'), (T.myOr, '|')):
        ctx.compare(f'my{o}({name},{on})', lambda: seqsum(T, O, f(s, x)), m_bin(o, m, k))
        ctx.compare(f'my{o}({on},{name})', lambda: seqsum(T, O, f(x, s)), m_bin(o, k, m))
    # as a position
    ctx.compare(f'{name} @ {on}', lambda: O.o_val(s @ x), ('raised', 'TypeError'))
    ctx.compare(f'myMatmul({name},{on})', lambda: O.o_val(T.myMatmul(s, x)), ('raised', 'TypeError'))
    # selecting from it
    if k[0] == 'num' and isinstance(k[1], int) or k[0] == 'seq' and len(k[1]) == 1 and isinstance(x, T.Seq) or m == B and k[0] == 'seq':
      p = k[1] if k[0] == 'num' else k[1][0] if len(k[1]) == 1 else None
      e = B if m == B else N if p == 1 else num(0)
      ctx.compare(f'{on} @ {name}', lambda: O.o_val(x @ s), e)
      ctx.compare(f'myMatmul({on},{name})', lambda: O.o_val(T.myMatmul(x, s)), e)
    # rolling it / rolling that many
    if m == B:
      if not isinstance(x, float):
        ctx.compare(f'roll({on},{name})', lambda: O.o_val(T.roll(x, s)), B)
    empty_die = k == ('seq', ()) or k == B
    if k != N and not empty_die:
      ctx.compare(f'roll({name},{on})', lambda: O.o_val(T.roll(s, x)), N)
    if m == B and k not in (B, N):
      # disappears from sequences
      for sn, mk in (('Seq(x,y)', lambda: T.Seq(x, s)), ('Seq(y,x)', lambda: T.Seq(s, x)), ('Seq(y,[x,[y]],y)', lambda: T.Seq(s, [x, [s]], s)), ('get_seq(x,y)', lambda: T.get_seq(x, s)), ('get_seq([y,x])', lambda: T.get_seq([s, x]))):
        want = (num(k[1])[1],) if k[0] == 'num' else k[1] if k[0] == 'seq' else tuple(v for v, _ in k[1])
        ctx.compare(f'{sn} x={on} y={name}', lambda: (type(mk()).__name__, tuple(mk())), ('Seq', tuple(want)))
      if k[0] == 'num' or k[0] == 'seq' and len(k[1]):
        vals = [num(k[1])[1]] if k[0] == 'num' else list(k[1])
        ctx.compare(f'roll([{name},{on}])', lambda: O.o_val(T.roll([s, x])), ('die', ref.die(vals)))
        ctx.compare(f'roll(2,[{on},{name},5])', lambda: O.o_val(T.roll(2, [x, s, 5])), ('die', ref.add_n(ref.die(vals + [5]), 2)))
      # and from mixtures
      if k[0] in ('num', 'die'):
        c = k[1] if k[0] == 'die' else ref.const(num(k[1])[1])
        for ws in ([1, 1], [3, 5], [10**35, 1]):
          ctx.compare(f'from_rvs([{on},{name}],{ws})', lambda: O.o_die(T.RV.from_rvs([x, s], ws)), c)
          ctx.compare(f'from_rvs([{name},{on}],{ws})', lambda: O.o_die(T.RV.from_rvs([s, x], ws)), c)
          if ref.total(c) < 10**12:
            ctx.compare(f'from_rvs([{name},{on},None,9],{ws})', lambda: O.o_die(T.RV.from_rvs([s, x, None, 9], ws[:1] + [2, 7, 3])), ref.mix([(c, 2), (ref.const(9), 3)]))
  # nothing changed it
  ctx.compare(f'{name} afterwards', lambda: O.o_val(s), m)


STEPOPS = [('0', 0, num(0)), ('3', 3, num(3)), ('-2', -2, num(-2)), ('2.5', 2.5, num(2.5))]


def chains(ctx, si, depth, wide):
  """explicit-state exploration: values are states, every step from every distinct value reached"""
  import target as T
  import obs as O
  alph = STEPOPS + [('Seq(1,2)', T.Seq(1, 2), ('seq', (1, 2))), ('Seq()', T.Seq(), ('seq', ())), ('d4', T.roll(4), ('die', ref.dn(4))), ('RV([0,2],[1,3])', T.RV([0, 2], [1, 3]), ('die', ref.die([0, 2], [1, 3]))), ('2d2', T.roll(2, 2), ('die', ref.add_n(ref.dn(2), 2))), ('blank', T.BlankRV(), B), ('null', T.roll(T.BlankRV(), 6), N), ('0d', T.RV.from_const(0), ('die', ref.const(0)))]
  name, s, m = [(n, x, k) for n, x, k in list(starts(T)) + [('5', 5, num(5)), ('d4', T.roll(4), ('die', ref.dn(4)))] if n in ('BlankRV()', 'roll(blank,6)', '5', 'd4')][si]
  seen = {m}
  ctx.state((si, m))
  level = [(name, s, m)]
  for d in range(depth):
    nxt = []

    def step(code, run, e):
      if e is None:
        return
      box = []

      def go():
        box.append(run())
        return seqsum(T, O, box[0])
      if ctx.compare(code, go, e) and e not in seen:
        seen.add(e)
        ctx.state((si, e))
        v = [e[1]] if e[0] == 'num' else [x for x, _ in e[1]] if e[0] == 'die' else []
        if len(v) <= (6 if wide else 4) and all(abs(x) <= 40 for x in v):
          nxt.append((code, box[0], e))
    for c, x, k in level:
      for on, y, ky in alph:
        for o, f in ALL.items():
          special = B in (k, ky) or N in (k, ky)
          if not special and (o == '**' or k[0] == 'seq'):
            continue
          step(f'({c}){o}{on}', lambda: f(x, y), m_bin(o, k, ky))
          step(f'{on}{o}({c})', lambda: f(y, x), m_bin(o, ky, k))
      if k in (B, N):
        for un, f in (('-', op.neg), ('+', op.pos), ('abs', abs), ('round', round)):
          step(f'{un}({c})', lambda: f(x), k)
        step(f'~({c})', lambda: ~x, B if k == B else num(1))
        for p in (1, 2, 0, -1):
          step(f'{p}@({c})', lambda: p @ x, B if k == B else N if p == 1 else num(0))
        step(f'roll({c},6)', lambda: T.roll(x, 6), N)
        if k == B:
          step(f'roll(2,{c})', lambda: T.roll(2, x), B)
          step(f'roll({c})', lambda: T.roll(x), B)
          step(f'from_rvs([{c},3,d4],[7,1,4])', lambda: T.RV.from_rvs([x, 3, T.roll(4)], [7, 1, 4]), ('die', ref.mix([(ref.const(3), 1), (ref.dn(4), 4)])))
      elif k[0] == 'die':
        step(f'from_rvs([{c},BlankRV()],[1,5])', lambda: T.RV.from_rvs([x, T.BlankRV()], [1, 5]), k)
      elif k[0] == 'num' and isinstance(k[1], int):
        step(f'{c}@BlankRV()', lambda: x @ T.BlankRV(), B)
        step(f'{c}@null', lambda: x @ T.roll(T.BlankRV(), 6), N if k[1] == 1 else num(0))
    level = nxt


TXT = ['(d{})', 'd{}', '(3d{})', 'd(d{})', '((d{})d6)', '((d{})d{1,2})', 'A', 'M', '[nothing]', '[nothing d4]']
PLAIN = ['0', '3', '(-2)', '{1,2}', '{}', '(d4)', '(2d3)', 'B']
OPS = ['+', '-', '*', '/', '^', '=', '!=', '<', '>', '<=', '>=', '&', '|', '@', ' d ']
PRE = 'function: nothing { if 0 { result: 1 } } function: nothing N:n { if N > 9 { result: 1 } } A: d{} M: (d{})d2 B: {3,0}'


def gen(o1, short):
  for t in TXT:
    for p in PLAIN + TXT:
      yield f'{t}{o1}{p}'
      yield f'{p}{o1}{t}'
  for un in ('-', '+', '!', '#', '--', '!!', '#-'):
    for t in TXT:
      yield f'{un}{t}'
      yield f'{un}{t}{o1}2'
      yield f'2{o1}{un}{t}'
  for o2 in OPS:
    for t in (TXT[:6:4] if short else TXT):
      for p, q in (('3', '(d4)'), ('{1,2}', '2'), ('(d4)', '{1,2}'), (t, '3'), ('1', t)):
        yield f'{t}{o1}{p}{o2}{q}'
        yield f'{p}{o1}{t}{o2}{q}'
        yield f'{p}{o1}{q}{o2}{t}'
        yield f'{p}{o1}({q}{o2}{t})'
        yield f'{t}{o1}({p}{o2}{q})'
  for t in TXT:
    for x in (f'{{1,{t},2}}', f'{{{t}}}', f'{{{t},{t},5}}', f'd{{{t}}}', f'd{{1,{t}}}', f'2d{{{t},3}}', f'#{{{t},4}}', f'{{1..3,{t}}}', f'[highest of {t} and 3]', f'1@{{{t},7}}'):
      yield f'{x}{o1}2'
      yield f'2{o1}{x}'
      yield x


def compiled(ctx, o1, flags, short):
  import progs
  progs.run_batch(ctx, PRE, gen(o1, short), flags, 250)


def jobs(tier):
  q = tier == 'quick'
  js = [Job(f'tables {i}', tables, i) for i in range(29)]
  for i in range(4):
    js.append(Job(f'chains {i}', chains, i, 3 if q else 4, not q))
  for o in OPS:
    for fl in (None, ('opint',)) if q else (None, ('opint',), ('scope',), ('scope', 'opint', 'lib')):
      js.append(Job(f'compiled {o} {fl}', compiled, o, fl, q))
  return js
