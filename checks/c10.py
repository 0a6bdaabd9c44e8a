"""C10: settings.  All sequences of setting operations against a register model, observed only through behaviour."""
import io
import itertools
import sys
import ref
from mc import Job
PID = 'C10'
META = dict(
  rule='sequences of operations {set each of the 7 documented settings to each valid value, to each of several invalid values of every kind (wrong type, zero, negative, fraction, text, None), unknown and internal names, reset}; after every operation the behaviour that depends on each setting is observed (selection order, explosion, recursion depth, truncation, zero-probability faces, report width, print function) and compared with a register model; plus the full product of valid settings x expressions',
  bounds='quick: all sequences of length 2 over ~75 operations, length 3 over 26, length 5 over 7; 216 setting combinations x 24 expressions; thorough: length 3 over all, length 4 over 26; both tiers also: messages after reset',
  assumptions=['True given for an integer setting is not specified'])

DEF = {'position order': 'highest first', 'explode depth': 2, 'maximum function depth': 10, 'RV_TRUNC': False, 'RV_IGNORE_ZERO_PROBS': False, 'DEFAULT_OUTPUT_WIDTH': 180, 'DEFAULT_PRINT_FN': None}


class Sink(list):
  def __call__(self, *a):
    self.append(a)


SINKS = [Sink(), Sink(), []]
APPEND = SINKS[2].append  # a builtin function, as print is
BADINT = [0, -1, 1.5, 2.0, '2', None, [2], 'x', (3,), -0.5]
# operation: (name, value, stored value or None if invalid)
CORE_OPS = [
  ('position order', 'lowest first', 'lowest first'), ('position order', 'highest first', 'highest first'), ('position order', 'lowest', None),
  ('explode depth', 1, 1), ('explode depth', 3, 3), ('explode depth', 0, None), ('maximum function depth', 1, 1), ('maximum function depth', 4, 4), ('maximum function depth', -1, None),
  ('RV_TRUNC', True, True), ('RV_TRUNC', 'false', False), ('RV_TRUNC', 1, None), ('RV_IGNORE_ZERO_PROBS', 'TRUE', True), ('RV_IGNORE_ZERO_PROBS', False, False), ('RV_IGNORE_ZERO_PROBS', 'yes', None),
  ('DEFAULT_OUTPUT_WIDTH', 20, 20), ('DEFAULT_OUTPUT_WIDTH', 1, 1), ('DEFAULT_OUTPUT_WIDTH', 0, None), ('DEFAULT_PRINT_FN', SINKS[0], 0), ('DEFAULT_PRINT_FN', SINKS[1], 1), ('DEFAULT_PRINT_FN', APPEND, 2), ('DEFAULT_PRINT_FN', 5, None),
  ('RESET', None, None), ('unknown', 1, None), ('INTERNAL_CURR_DEPTH', 5, None), ('explode depth', 7, 7), ('maximum function depth', 12, 12)]
MORE_OPS = [('position order', v, None) for v in (1, None, True, 'Lowest First', 'lowest first ', '', ['lowest first'])] + \
  [(n, v, None) for n in ('explode depth', 'maximum function depth', 'DEFAULT_OUTPUT_WIDTH') for v in BADINT] + \
  [(n, v, None) for n in ('RV_TRUNC', 'RV_IGNORE_ZERO_PROBS') for v in (0, None, 'yes', '', '1', 'tru', 2.0, ['true'])] + \
  [('RV_TRUNC', 'True', True), ('RV_TRUNC', False, False), ('RV_TRUNC', 'FALSE', False), ('RV_IGNORE_ZERO_PROBS', True, True), ('RV_IGNORE_ZERO_PROBS', 'false', False), ('RV_IGNORE_ZERO_PROBS', 'tRuE', True)] + \
  [('DEFAULT_PRINT_FN', v, None) for v in (None, 'print', 0)] + [(n, v, None) for n in ('Position Order', 'explode_depth', '', 'explode depth ', None, 7, 'INTERNAL_CURR_DEPTH_WARNING_PRINTED', 'clear') for v in (1, True, 'lowest first')] + \
  [('DEFAULT_OUTPUT_WIDTH', 500, 500), ('explode depth', 2, 2), ('maximum function depth', 2, 2), ('maximum function depth', 40, 40)]
ALL_OPS = CORE_OPS + MORE_OPS
SMALL = [CORE_OPS[i] for i in (0, 4, 7, 9, 15, 18, 22)]


def step(state, op):
  """model: -> (new state, 'ok'/'rejected')"""
  n, v, stored = op
  if n == 'RESET':
    return dict(DEF), 'ok'
  if stored is None:
    return state, 'rejected'
  s = dict(state)
  s[n] = stored
  return s, 'ok'


def expode(k):
  """explosion of a d2 with depth k"""
  cur = ref.dn(2)
  for _ in range(k):
    cur = ref.mix([(ref.const(1), 1), (ref.map1(cur, lambda x: x + 2), 1)])
  return cur


EXPL = {k: expode(k) for k in range(0, 9)}
SEL = {o: ref.select_brute(ref.dn(3), 2, [1], o == 'highest first') for o in ('highest first', 'lowest first')}


def expected(s):
  tv = [0.5, 1.7, -1.5, 2]
  return (SEL[s['position order']], EXPL[s['explode depth']], s['maximum function depth'], tuple(sorted({int(v) if s['RV_TRUNC'] else v for v in tv})), (1,) if s['RV_IGNORE_ZERO_PROBS'] else (1, 2), s['DEFAULT_OUTPUT_WIDTH'] + 8, s['DEFAULT_PRINT_FN'])


def make_observer():
  import target as T
  import obs as O
  n = [0]

  @T.max_func_depth()
  def probe():
    n[0] += 1
    if n[0] < 60:
      probe()

  def observe_all():
    n[0] = 0
    probe()
    out = sys.stdout
    sys.stdout = cap = io.StringIO()
    for s in SINKS:
      s.clear()
    try:
      T.output(3, show_pdf=False)
    finally:
      sys.stdout = out
    who = [i for i, s in enumerate(SINKS) if len(s) == 1 and s[0] in (('3.0 \xb1 0.0',), '3.0 \xb1 0.0')]
    if cap.getvalue() == '3.0 \xb1 0.0\n' and not who:
      who = [None]
    pf = who[0] if len(who) == 1 and (who[0] is None or not cap.getvalue()) else 'lost'
    return (O.o_die(1 @ T.roll(2, 3)), O.o_die(T.explode_X(T.roll(2))), n[0], T.RV([0.5, 1.7, -1.5, 2], [1, 2, 3, 1]).vals, T.RV([1, 2], [1, 0]).vals, len(T.output(T.roll(2), print_=False).split('\n')[-1]), pf)
  return T, observe_all


def job_seq(ctx, firsts, ops, length):
  T, obs_all = make_observer()

  def apply(op):
    try:
      if op[0] == 'RESET':
        T.settings_reset()
      else:
        T.settings_set(op[0], op[1])
      return 'ok'
    except Exception:
      return 'rejected'
  T.settings_reset()

  def messages():
    """what is printed when the depth limit is exceeded"""
    @T.max_func_depth()
    def endless():
      endless()
    T.settings_reset()
    out = sys.stdout
    sys.stdout = cap = io.StringIO()
    try:
      endless()
    finally:
      sys.stdout = out
    return cap.getvalue()
  first_messages = messages()
  for f in firsts:
    for rest in itertools.product(ops, repeat=length - 1):
      seq = (f,) + rest
      s = dict(DEF)

      def run():
        res = []
        for op in seq:
          res.append(apply(op))
        res.append(obs_all())
        T.settings_reset()
        return res
      exp = []
      for op in seq:
        s, r = step(s, op)
        exp.append(r)
      exp.append(expected(s))
      ctx.transitions += length - 1
      ctx.compare('; '.join(f'{o[0]}={o[1]!r}' if o[1] is not APPEND and not isinstance(o[1], Sink) else f'{o[0]}=fn{o[2]}' for o in seq), run, exp)
    ctx.compare(f'after reset (following {f[0]})', obs_all, expected(DEF))
    ctx.compare(f'messages after reset (following {f[0]})', messages, first_messages)


def job_product(ctx, order):
  import target as T
  import obs as O
  D = ref.dn
  for ex, dep, tr, ze, w in itertools.product((1, 2, 4), (1, 3, 10), (False, True), (False, True), (1, 30, 180)):
    def setup():
      T.settings_reset()
      T.settings_set('position order', order)
      T.settings_set('explode depth', ex)
      T.settings_set('maximum function depth', dep)
      T.settings_set('RV_TRUNC', tr)
      T.settings_set('RV_IGNORE_ZERO_PROBS', ze)
      T.settings_set('DEFAULT_OUTPUT_WIDTH', w)

    def t(c):
      return ref.map1(c, int) if tr else c
    hf = order == 'highest first'
    half = t(ref.die([0.5, 1.5, -0.5]))
    cases = [
      ('roll(3,4)', lambda: T.roll(3, 4), ref.add_n(D(4), 3)),
      ('roll(2,[0.5,1.5,-0.5])', lambda: T.roll(2, [0.5, 1.5, -0.5]), ref.add_n(half, 2)),
      ('d6/4', lambda: T.roll(6) / 4, t(ref.map1(D(6), lambda x: x / 4))),
      ('-d6/4', lambda: -T.roll(6) / 4, t(ref.map1(D(6), lambda x: -x / 4))),
      ('7/d3', lambda: 7 / T.roll(3), t(ref.map1(D(3), lambda x: 7 / x))),
      ('d6//4', lambda: T.roll(6) // 4, ref.map1(D(6), lambda x: x // 4)),
      ('-d6//4', lambda: -T.roll(6) // 4, ref.map1(D(6), lambda x: -x // 4)),
      ('2@3d4', lambda: 2 @ T.roll(3, 4), ref.select_brute(D(4), 3, [2], hf)),
      ('1@4d2', lambda: 1 @ T.roll(4, 2), ref.select_brute(D(2), 4, [1], hf)),
      ('4@4d3', lambda: 4 @ T.roll(4, 3), ref.select_brute(D(3), 4, [4], hf)),
      ('1@Seq(3,1,2)', lambda: 1 @ T.Seq(3, 1, 2), ref.const(3)),
      ('Seq(1,2)@Seq(3,1,2)', lambda: T.Seq(1, 2) @ T.Seq(3, 1, 2), ref.const(4)),
      ('explode(d4)', lambda: T.explode_X(T.roll(4)), explode_model(D(4), ex)),
      ('explode(2d2)', lambda: T.explode_X(T.roll(2, 2)), explode_model(ref.add_n(D(2), 2), ex)),
      ('explode(d4, depth=1)', lambda: T.explode_X(T.roll(4), depth=1), explode_model(D(4), 1)),
      ('d6>3', lambda: T.roll(6) > 3, ref.die([0, 1])),
      ('mix', lambda: T.RV.from_rvs([T.roll(2), 7], [1, 2]), ref.mix([(D(2), 1), (ref.const(7), 2)])),
      ('highest of', lambda: T.highest_of_X_and_X(T.roll(3), T.roll(3)), ref.map2(D(3), D(3), max)),
      ('count', lambda: T.count_X_in_X([1, 2], T.roll(2, 3)), ref.map1(ref.add_n(ref.die([1, 1, 0]), 2), lambda x: x)),
    ]
    raw = [
      ('zero face', lambda: T.RV([1, 2, 3], [1, 0, 1]).vals, (1, 3) if ze else (1, 2, 3)),
      ('zero face of a sum', lambda: (T.RV([1, 2, 3], [1, 0, 1]) + 1).vals, (2, 4) if ze else (2, 3, 4)),
      ('explicit truncation', lambda: T.RV([0.5, 1.5], [1, 1], truncate=True).vals, (0, 1)),
      ('explicitly no truncation', lambda: T.RV([0.5, 1.5], [1, 1], truncate=False).vals, (0.5, 1.5)),
      ('report width', lambda: [len(x) for x in T.output(T.roll(1), print_=False).split('\n')], [9, 11 + max(0, w - 1), w + 8]),
      ('explicit width', lambda: [len(x) for x in T.output(T.roll(1), print_=False, blocks_width=40).split('\n')], [9, 11 + 39, 48]),
      ('mean', lambda: (T.roll(2, 6).mean(), T.roll(6).mean()), (7.0, 3.5)),
    ]
    tag = f'[{order}, explode {ex}, depth {dep}, trunc {tr}, ignore zero {ze}, width {w}]'
    for name, run, exp in cases:
      ctx.compare(f'{tag} {name}', lambda: (setup(), O.o_die(run()))[1], exp)
    for name, run, exp in raw:
      ctx.compare(f'{tag} {name}', lambda: (setup(), run())[1], exp)
  T.settings_reset()


VALUES = list(range(1, 131)) + [150, 180, 181, 199, 200, 250, 255, 256, 257, 300, 365, 400, 499, 500, 511, 512, 513, 640, 750, 800, 900, 999, 1000, 1001, 1023, 1024, 1025, 1500, 2000, 2048, 4095, 4096, 5000, 9999, 10000, 10001, 20000]


def job_values(ctx, part, parts):
  """every value of the integer settings, alone and after another value"""
  import target as T
  import obs as O
  sys.setrecursionlimit(40000)
  n = [0]

  @T.max_func_depth()
  def probe():
    n[0] += 1
    if n[0] < 2500:
      probe()

  def quiet(fn):
    out, sys.stdout = sys.stdout, io.StringIO()
    try:
      return fn()
    finally:
      sys.stdout = out
  for v in VALUES[part::parts]:
    for before in (None, 7, 3000):
      def fresh(name):
        T.settings_reset()
        if before:
          T.settings_set(name, before)
        T.settings_set(name, v)

      def width():
        fresh('DEFAULT_OUTPUT_WIDTH')
        return [len(x) for x in T.output(T.roll(1), print_=False).split('\n')], [len(x) for x in T.output(T.roll(1), print_=False, blocks_width=40).split('\n')]
      ctx.compare(f'width {v} after {before}', width, ([9, 11 + max(0, v - 1), v + 8], [9, 50, 48]))
      if v <= 2100:
        def depth():
          fresh('maximum function depth')
          n[0] = 0
          quiet(probe)
          return n[0]
        ctx.compare(f'function depth {v} after {before}', depth, v)
      if v <= 60:
        def explode():
          fresh('explode depth')
          return O.o_die(T.explode_X(T.roll(2))), O.o_die(T.explode_X(T.RV([0, 1], [1, 1]), depth=1))
        ctx.compare(f'explode depth {v} after {before}', explode, (expode(v), ref.die([0, 1, 2], [2, 1, 1])))
  T.settings_reset()


def job_histories(ctx):
  """long histories: one operation many times, or two or three alternating, and what is left at the end"""
  T, obs_all = make_observer()

  def run(seq):
    for op in seq:
      try:
        if op[0] == 'RESET':
          T.settings_reset()
        else:
          T.settings_set(op[0], op[1])
      except Exception:
        pass
    r = obs_all()
    T.settings_reset()
    return r, obs_all()
  T.settings_reset()
  for cyc in [(o,) for o in CORE_OPS] + list(itertools.permutations([CORE_OPS[i] for i in (0, 1, 2, 4, 5, 8, 9, 15, 22)], 2)) + list(itertools.permutations(SMALL, 3)):
    for length in (7, 20, 65, 130):
      seq = [cyc[i % len(cyc)] for i in range(length)]
      s = dict(DEF)
      for op in seq:
        s, _ = step(s, op)
      ctx.transitions += length
      ctx.compare(f'{length} operations cycling through {[(o[0], o[2]) for o in cyc]}', lambda: run(seq), (expected(s), expected(DEF)))


def explode_model(c, k):
  m = max(v for v, _ in c)
  cur = c
  for _ in range(k):
    parts = []
    for v, w in c:
      parts.append((ref.map1(cur, lambda x: x + m), w) if v == m else (ref.const(v), w))
    cur = ref.mix(parts)
  return cur


def jobs(tier):
  q = tier == 'quick'
  js = []
  n = len(ALL_OPS)
  for i in range(0, n, 10):
    js.append(Job(f'pairs {i}', job_seq, ALL_OPS[i:i + 10], ALL_OPS, 2 if q else 3))
  for i in range(0, len(CORE_OPS), 3):
    js.append(Job(f'triples {i}', job_seq, CORE_OPS[i:i + 3], CORE_OPS, 3 if q else 4))
  for i in range(len(SMALL)):
    js.append(Job(f'long {i}', job_seq, SMALL[i:i + 1], SMALL, 5 if q else 6))
  js += [Job(f'values {p}', job_values, p, 8) for p in range(8)] + [Job('histories', job_histories)]
  for o in ('highest first', 'lowest first'):
    js.append(Job(f'product {o}', job_product, o))
  return js
