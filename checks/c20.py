"""C20: threads sharing dice, sequences and the library's caches, under every schedule up to a preemption bound."""
import itertools
from mc import Job, StopJob
PID = 'C20'
META = dict(
  rule='two real threads, each performing one or several operations (roll, add, select, print, compare, average, sequences, texts, huge weights, calls of functions at the limit of their depth) on shared fresh dice and sequences, in every pair of an operation alphabet; a controlled scheduler enumerates every schedule with at most the stated number of preemptions, a preemption being possible before every line (or every bytecode instruction) of the library; every execution starts from the pristine library state in its own process; oracle: what each thread gets alone from the pristine state, and what the shared objects and repeated operations give afterwards',
  bounds='quick: all pairs of 22 operations and 5 function calls (calls with selected others), 1 preemption at every line; 1 preemption at every bytecode instruction for 17 pairs; 2 preemptions at every line for 2 pairs; thorough: 1 preemption at every instruction for all pairs, 2 preemptions at every line for all pairs, 2 at every instruction for 6 pairs',
  assumptions=['only these operations run concurrently: changing settings and compiling are not claimed to be usable from several threads', 'the interpreter executes one bytecode instruction at a time'])


def setup(T):
  """shared objects, none used before"""
  s = dict(
    d=T.RV([1, 2], [1, 3]), e=T.RV([1, 2], [1, 3]), f=T.RV([1.0, 2.0], [1, 3]), big=T.RV([0, 1], [1, 10**20]), q=T.Seq(1, 2), t=T.get_seq('x', 1), c=T.RV([0, 1, 5], [2, 1, 1]))
  return s


def pools(T, s):
  """shared results of rolls whose lazily computed parts have not been asked for"""
  s['p'] = T.roll(2, T.RV([1, 2], [2, 1]))
  s['u'] = T.roll(s['t'])
  return s


def ops(T, made=None):
  import dice_calc.funclib as F
  import obs as O
  made = [] if made is None else made  # results, looked at once more when every thread has finished

  def see(x):
    """everything a thread can see of its result"""
    made.append(x)
    return O.snap(x)

  def show(x):
    got = []
    T.output(x, print_fn=got.append, named='n', blocks_width=30)
    return tuple(got)

  @T.anydice_casting()
  def fs(X: T.T_S):
    return 1 @ X * 10 + X.sum()

  @T.anydice_casting()
  def fn(N: T.T_N):
    return N * 2 + 1

  @T.anydice_casting()
  def rec(N: T.T_N, k: int):
    return N + rec(N, k + 1) if k < 2 else N
  A = {}
  A['roll2'] = lambda s: see(T.roll(2, s['d']))
  A['roll3'] = lambda s: see(T.roll(3, s['d']))
  A['roll4'] = lambda s: see(T.roll(4, s['d']))
  A['roll2 twin'] = lambda s: see(T.roll(2, s['e']))
  A['roll2 float'] = lambda s: see(T.roll(2, s['f']))
  A['roll-2'] = lambda s: see(T.roll(-2, s['d']))
  A['2d2'] = lambda s: see(T.roll(2, 2))
  A['roll die'] = lambda s: see(T.roll(T.RV([1, 2], [1, 1]), s['d']))
  A['roll1'] = lambda s: (see(T.roll(1, s['d'])), see(T.roll(s['d'])))
  A['roll seq'] = lambda s: (see(T.roll(s['q'], s['q'])), see(T.roll(2, s['q'])))
  A['add'] = lambda s: see(s['d'] + s['d'])
  A['add num'] = lambda s: (see(s['p'] + 1), see(1 + s['p']))
  A['add pool'] = lambda s: see(s['p'] + s['d'])
  A['select'] = lambda s: (O.snap(1 @ s['p']), O.snap(2 @ s['p']))
  A['select more'] = lambda s: O.snap([1, 2] @ s['p'])
  A['print'] = lambda s: (show(s['p']), str(s['p']))
  A['mean'] = lambda s: (s['p'].mean(), s['p'].std(), s['p'].get_vals_probs(), O.snap(s['p'].get_cdf()))
  A['huge'] = lambda s: (see(T.roll(2, s['big'])), see(s['big'] + s['big']))
  A['seq'] = lambda s: (s['q'].sum(), O.snap(s['q'] + s['d']), s['q'] == 1, 1 @ s['q'], len(s['q']))
  A['text'] = lambda s: (O.snap(T.roll(2, s['t'])), str(s['t'].sum()), show(s['u']))
  A['compare'] = lambda s: (see(s['p'] == 3), see(s['d'] < s['c']), T.RV.dices_are_equal(s['d'], s['e']), hash(s['d']) == hash(s['e']))
  A['expand'] = lambda s: see(fs(s['p']))
  A['expand 3'] = lambda s: see(fs(T.roll(3, s['d'])))
  A['each value'] = lambda s: (see(fn(s['d'])), see(fn(s['q'])))
  A['nested'] = lambda s: (see(rec(s['d'], 0)), see(rec(2, 0)))
  A['library'] = lambda s: (see(F.highest_N_of_D(1, s['p'])), see(F.contains(s['p'], 1)), see(F.sort(s['q'])), see(F.explode(s['d'])))
  A['roll twice'] = lambda s: (see(T.roll(2, s['c'])), see(T.roll(2, s['c'])))
  return A


def fresh(T):
  T.settings_set('maximum function depth', 3)  # as deep as the functions below go
  return pools(T, setup(T))


def after(T, s, names):
  """what the shared objects and the same operations give later, on one thread"""
  import obs as O
  A = ops(T)
  r = [(k, O.snap(v)) for k, v in sorted(s.items())]
  for n in names:
    r.append(A[n](s))
  return r


def execute(names, plan, opcodes):
  """one execution -> (results of the threads, state afterwards, points per thread, preemptions)"""
  import target as T
  import sched
  made = [[], []]
  s = fresh(T)
  S = sched.Sched(T._root, plan, opcodes)
  res = S.run([lambda i=i, n=n: ops(T, made[i])[n](s) for i, n in enumerate(names)])
  return list(zip(res, [late(T, m) for m in made])), after(T, s, names), S.steps, S.preempted


def late(T, made):
  import obs as O
  return [(O.snap(x), O.o_val(1 @ x)) if isinstance(x, T.RV) and all(isinstance(v, (int, float)) for v in x.vals) else O.snap(x) for x in made]


def alone(names):
  """each thread alone from the pristine state"""
  import target as T
  import sched
  out = []
  for n in names:
    def run():
      made = []
      r = ops(T, made)[n](fresh(T))
      return (r, late(T, made))
    out.append(sched.in_child(run))

  def later():
    s = fresh(T)
    return after(T, s, names)
  return out, sched.in_child(later)


def pair(ctx, names, bound, opcodes, part=0, nparts=1):
  import target as T
  import sched
  from mc import observe
  exp, later = alone(names)
  case = f'{names[0]} || {names[1]}'
  pristine = sched.Pristine('dice_calc')
  n = [0, 0]
  warm = True
  for tid in (0, 1):  # points each thread executes when it runs first, and whether the state can be put back in this process
    n[tid] = sched.in_child(lambda: execute(names, (tid,), opcodes)[2][tid])
    if not isinstance(n[tid], int):
      ctx.violation(f'{case}, one after the other', 'every thread finishes', n[tid])
      return
  for tid in (0, 1):
    for _ in range(2):
      pristine.restore()
      r = observe(lambda: execute(names, (tid,), opcodes), 30)
      if r[0] == 'raised' or r[2][tid] != n[tid]:
        warm = False
  if not warm:
    ctx.count('jobs with a process per schedule')

  def one(plan):
    if warm:
      pristine.restore()
      r = observe(lambda: execute(names, plan, opcodes), 30)
    else:
      r = sched.in_child(lambda: execute(names, plan, opcodes))
    ctx.evaluations += 1
    ctx.count('schedules')
    if r[0] in ('died', 'timeout', 'raised'):
      ctx.violation(f'{case} schedule {plan}', 'every thread finishes', r)
      raise StopJob()
    res, aft, steps, pre = r
    ctx.transitions += sum(steps)
    ctx.state((names, opcodes, plan if pre == len(plan) - 1 else plan[:1 + pre]))
    ctx.outcome(repr((res, aft)))
    if list(res) != exp:
      i = 0 if res[0] != exp[0] else 1
      ctx.violation(f'{case} ({"instruction" if opcodes else "line"} points) schedule {plan}: result of thread {i} ({names[i]})', exp[i], res[i])
    elif aft != later:
      ctx.violation(f'{case} schedule {plan}: shared objects and repeated operations afterwards', later, aft)
    return pre
  if part == 0:
    one((0,))
    one((1,))
  for first in (0, 1):
    if names[0] == names[1] and first:
      continue
    ctx.count('points', n[first])
    for k1 in range(n[first]):
      if k1 % nparts != part:
        continue
      one((first, k1))
      if bound > 1:
        for k2 in itertools.count(1):
          if one((first, k1, k2)) < 2:
            break
  ctx.sample(f'{case}: threads alone {str(exp)[:200]}')


QUICK2 = [('roll2', 'roll2 twin'), ('2d2', '2d2')]
CORE = [('roll2', 'roll2'), ('roll2', 'roll4'), ('roll3', 'roll2'), ('roll2', 'roll2 twin'), ('roll2', 'roll2 float'), ('roll2', 'select'), ('select', 'print'), ('2d2', '2d2')]
MORE = CORE + [('roll3', 'roll3'), ('roll4', 'roll3'), ('roll-2', 'roll2'), ('mean', 'print'), ('mean', 'mean'), ('mean', 'select'), ('seq', 'seq'), ('seq', 'roll seq'), ('text', 'text'), ('roll1', 'roll1'), ('roll1', 'roll2'), ('roll die', 'roll2'), ('roll die', 'roll die'), ('add num', 'mean'), ('add pool', 'select'), ('huge', 'huge'), ('select more', 'print'), ('select more', 'select more'), ('roll twice', 'roll twice'), ('compare', 'roll2'), ('add', 'roll1'), ('roll2 float', 'roll4'), ('nested', 'nested'), ('expand', 'expand'), ('nested', 'select'), ('nested', 'each value')]
NAMES = ['roll2', 'roll3', 'roll4', 'roll2 twin', 'roll2 float', 'roll-2', '2d2', 'roll die', 'roll1', 'roll seq', 'add', 'add num', 'add pool', 'select', 'select more', 'print', 'mean', 'huge', 'seq', 'text', 'compare', 'roll twice']
CALLS = ['expand', 'expand 3', 'each value', 'nested', 'library']
WITH = ['roll2', 'select', 'mean']  # combined with the functions above in the quick tier


def jobs(tier):
  q = tier == 'quick'
  js = []
  for a, b in itertools.combinations_with_replacement(NAMES + CALLS, 2):
    if q and (a == 'library' and b != a or b in CALLS and a not in WITH + CALLS or b == 'library' and a not in (b, 'roll2', 'expand')):
      continue
    js.append(Job(f'{a} | {b} lines', pair, (a, b), 1, False))
    if not q:
      js += [Job(f'{a} | {b} lines 2 {p}', pair, (a, b), 2, False, p, 4) for p in range(4)]
      js.append(Job(f'{a} | {b} instructions', pair, (a, b), 1, True))
  if q:
    for a, b in MORE[::2]:
      js += [Job(f'{a} | {b} instructions {p}', pair, (a, b), 1, True, p, 2) for p in range(2)]
    for a, b in QUICK2:
      js += [Job(f'{a} | {b} lines 2 {p}', pair, (a, b), 2, False, p, 8) for p in range(8)]
  else:
    for a, b in CORE[:6]:
      js += [Job(f'{a} | {b} instructions 2 {p}', pair, (a, b), 2, True, p, 32) for p in range(32)]
  return js
