"""C08: history independence.  Fork-tree search over all operation histories up to a depth; oracle: the same operation
evaluated first in a pristine process (differential), plus every earlier value re-observed after every step."""
import itertools
import os
import pickle
import signal
import ref
from mc import Job, observe, clip
PID = 'C08'
META = dict(
  rule='every sequence of operations up to the depth over an alphabet chosen so that memoised/labelled/shared objects collide (equal dice of different types, weights, names, settings; failing operations; operations under temporarily changed settings; compiled programs); every step is executed in a forked copy of the exact prefix state, its full observation (values with types, weights, printed name, dice count, report, selections) compared with that of a pristine process, and every earlier value is re-observed',
  bounds='quick: all histories of length 2 over the full alphabet, length 3 over the core alphabet, each operation repeated 4 times before each other, histories of 5000 rolls of 2500 different dice; thorough: length 3 over the full alphabet, length 4 over 16 core operations; both tiers also: labelled prints, functions sharing one name, volumes of prints',
  assumptions=['objects are only changed through the public operations (not set_source / set_one_indexed)'])

ENV = '''
a = RV([1,2,3],[1,1,2])
b = RV([1.0,2,3],[1,1,2])
z = RV([1,2,3],[1,1,0])
s = Seq(1,2,2)
p = roll(3,a)
d = roll(6)
h = RV([1,2,3],[2**60,1,2**55+1])
t = roll(["x","y"])
def fail(): raise ValueError("x")
@anydice_casting()
def rec(N: T_N):
  return rec(N+1)
@anydice_casting()
def boom(N: T_N):
  if N == 2: raise ValueError("boom")
  return N
@anydice_casting()
def okf(S: T_S, N: T_N):
  return (S == N) + 1@S
@anydice_casting()
def dief(D: T_D):
  return D
@anydice_casting()
def seqf(S: T_S):
  return S
@anydice_casting()
def numf(N: T_N):
  return N
@anydice_casting()
def deep(N: T_N):
  if N > 0: return 1 + deep(N-1)
  return 0
'''
CORE = [
  'roll(2,6)', 'roll(2,[1,2,3,4,5,6])', 'roll(2,[1.0,2.0,3.0,4.0,5.0,6.0])', 'roll(2,d)', 'roll(1,a)', 'roll(2,a)', 'roll(2,b)', 'roll(2,z)', 'UNDER("RV_TRUNC",True,"roll(2,[0.5,1.5])")', 'roll(2,[0.5,1.5])',
  'UNDER("RV_IGNORE_ZERO_PROBS",True,"roll(2,z)")', 'UNDER("position order","lowest first","1@roll(3,a)")', '1@roll(3,a)', 'boom(d)', 'rec(1)', 'deep(9)', 'roll(3,6)', 'roll(4,6)', 'highest_X_of_X(2,p)', 'explode_X(d)', 'Seq(1,2)@p', 'roll(d,2)',
]
MORE = [
  'a', 'b', 'p', 'd', 's', 't', 'roll(6)', 'roll("2d6")', 'roll(-2,6)', 'roll(2,-6)', 'roll(2,roll(1,6))', 'roll(2,roll(6)+0)', 'roll(2,RV(range(1,7),[2]*6))', 'roll(2,p)', 'roll(s,6)', 'roll(2,s)', 'roll(5,6)', 'roll(6,6)', 'roll(7,6)', 'roll(0,6)', 'roll(2,True)', 'roll(2,[True,2])', 'roll(2,t)', 'roll(3,["x","y"])',
  'a+a', 'a+b', 'a==b', 'a*2', '-a', 'abs(a-2)', 'p+p', 'a>2', 's+a', 's==2', 's&a', '2@s', 'okf(p,d)', 'okf(s,a)', 'UNDER("explode depth",4,"explode_X(d)")', 'UNDER("maximum function depth",3,"deep(9)")', 'UNDER("DEFAULT_OUTPUT_WIDTH",20,"output(a,print_=False)")', 'output(a,print_=False)', 'output(p,named="n",print_=False)', 'output(z,cdf_cut=10,print_=False)',
  'a.get_cdf()', 'a.filter(2)', 'a.filter([1,3])', 'RV.from_rvs([a,b,4],[1,2,3])', 'RV.from_rvs([a])', 'RV.from_seq(s)', 'a.mean()', 'p.std()', 'RV([1],[-1])', 'd//RV([0,1],[1,1])', 'roll(2,"x")+1', 'roll(BlankRV(),6)', 'roll(2,BlankRV())', 'fail()', 'boom(2)', 'settings_set("explode depth",-1)', 'sort_X(p)', 'reverse_X(s)', 'count_X_in_X(2,p)', 'X_contains_X(p,3)', 'middle_X_of_X(1,p)', 'lowest_X_of_X(2,p)', 'absolute_X(a-2)', 'maximum_of_X(p)',
  'COMPILE("output 2d6 named \\"x\\"")', 'COMPILE("function: f A:n { if A>1 {result: A} } X: 2 output [f X d 6]")', 'COMPILE("output (")', 'COMPILE("set \\"explode depth\\" to 3 output [explode d6]")', 'roll(60,6)', '1@roll(30,6)', 'roll(2,UNDER("RV_TRUNC",True,"RV([0.5,1.5],[1,1])"))', 'DRAW()', 'hash(a)==hash(b)', 'round(RV([0.5,1.5],[1,1]))', '{roll(2,6):1}.get(roll(6)+roll(6)) if False else 0', '~a', 'len(p)', 'roll(2,6)+roll(2,[1,2,3,4,5,6])', '3@roll(3,b)', '(1,2)@roll(3,b)', 'roll(a,d)', 'roll(RV([2],[1]),6)',
  'output(1,print_=False)', 'output(1.0,print_=False)', 'output(True,print_=False)', 'output([2,1],print_=False)', 'output([2.0,1],print_=False)', 'dief(1)', 'dief(1.0)', 'dief(True)', 'dief([1.0])', 'dief([1])', 'RV.from_const(1.0)', 'RV.from_const(1)', 'seqf(1)', 'seqf(True)', 'numf([1.0,2])', 'numf([1,2])', 'RV.from_rvs([1.0,a])', 'RV.from_rvs([1,a])', 'a+1.0', 'a+1', 'a==1.0', 'roll(1,1)', 'roll(1,True)', 'RV.from_seq([1,1.0])', 'RV.from_seq([1.0,1])',
  'roll(2,[-1,3])', 'roll(2,[-2,3])', 'roll(2,[0,3])', 'roll(2,[2**61-1,3])', 'Seq(1,2)@roll(2,[-1,3])', 'Seq(1,2)@roll(2,[-2,3])', 'seqf(roll(2,[-1,3]))', 'seqf(roll(2,[-2,3]))', '[-1,3]==a', '[-2,3]==a',
  'output(h,show_pdf=False,print_=False)', 'output(a,show_pdf=False,print_=False)', '1@h', '(2@roll(2,h),h+h,h.filter(1),h.get_cdf())[-1]', 'h.mean()', 'h.get_vals_probs(0.1)', 'numf(h)',
]  # hash(-1) == hash(-2), hash(2**61-1) == hash(0)
OPS = CORE + MORE


def start():
  import target as T
  import obs as O
  env = dict(vars(T))

  def UNDER(name, val, code):
    T.settings_set(name, val)
    try:
      return eval(code, env)
    finally:
      T.settings_reset()

  def COMPILE(src):
    from dice_calc.parser import compile_anydice
    from dice_calc.parser.parse_and_exec import unsafe_exec
    py = compile_anydice(src)
    r = unsafe_exec(py)
    T.settings_reset()
    return (py, [(x[0][0], sorted(x[1].items())) for x in r])

  def DRAW():
    T.roller(env['a'], 3)
    T.roller(env['p'])
    return 0
  env.update(UNDER=UNDER, COMPILE=COMPILE, DRAW=DRAW)
  exec(ENV, env)
  return T, O, env


def full(T, O, x, deep=True):
  """everything a user can see of a value (deep: also of what is selected from and rolled with it)"""
  if isinstance(x, T.RV):
    o = [O.snap(x), x.get_vals_probs() if sum(x.probs) else 0, O.snap(1 @ x) if len(x) < 30 else 0]
    if deep:
      small = len(x) <= 4 and len(x.vals) <= 20
      for k in ((2, [1, 2]) if small else ()):
        o.append(observe(lambda: O.snap(k @ x), 0))
      o.append(observe(lambda: (repr(x.mean()), repr(x.std())), 0))
      o.append(T.output(x, print_=False))
      o.append(O.snap(x + 1))
      o.append(observe(lambda: O.snap(T.roll(2, x))[:4], 0) if len(x.vals) < 9 else 0)
    return repr(o)
  if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], list):
    return repr((x[0], [(full(T, O, v, deep), n) for v, n in x[1]]))
  if isinstance(x, T.Seq):
    return repr((O.snap(x), observe(lambda: O.snap(x.sum()), 0), observe(lambda: repr(x == 2), 0), observe(lambda: repr(1 @ x), 0)))
  if isinstance(x, T.BlankRV):
    return repr((O.snap(x), T.output(x, print_=False)))
  return repr((type(x).__name__, x))


def run_op(T, O, env, i, keep):
  """-> observation; keeps the value alive"""
  def go():
    x = eval(OPS[i], env)
    keep.append((OPS[i], x, None))
    return full(T, O, x)
  return repr(observe(go))


def forked(fn):
  """run fn() in a forked copy of this process, return its (picklable) result"""
  r, w = os.pipe()
  pid = os.fork()
  if pid == 0:
    code = 0
    try:
      os.close(r)
      data = pickle.dumps(fn())
      with os.fdopen(w, 'wb') as f:
        f.write(data)
    except BaseException:
      code = 1
    os._exit(code)
  os.close(w)
  chunks = []
  while True:
    c = os.read(r, 1 << 16)
    if not c:
      break
    chunks.append(c)
  os.close(r)
  os.waitpid(pid, 0)
  try:
    return pickle.loads(b''.join(chunks))
  except Exception:
    return None


def baseline():
  base = []
  for i in range(len(OPS)):
    def one():
      devnull = os.open(os.devnull, os.O_RDWR)
      os.dup2(devnull, 1); os.dup2(devnull, 2)
      signal.signal(signal.SIGALRM, __import__('mc')._on_alarm)
      T, O, env = start()
      return run_op(T, O, env, i, [])
    base.append(forked(one))
  return base


def named_env(T, O, env):
  return {k: full(T, O, env[k], False) for k in ('a', 'b', 'z', 's', 'p', 'd', 't', 'h')}


def explore(T, O, env, base, env0, live, path, alphabet, depth):
  """returns (evaluations, violations, state keys); every child executes one more operation in a forked copy"""
  ev, viol, states = 0, [], set()
  for i in alphabet:
    def child():
      keep = []
      got = run_op(T, O, env, i, keep)
      bad = []
      hist = [OPS[j] for j in path] + [OPS[i]]
      if got != base[i]:
        bad.append(('; '.join(hist), base[i], got))
      now = named_env(T, O, env)
      for k in now:
        if now[k] != env0[k]:
          bad.append(('; '.join(hist) + f'   then the earlier value {k}', env0[k], now[k]))
      lv = list(live)
      for code, x, ob in live:
        n = full(T, O, x, False)
        if n != ob:
          bad.append(('; '.join(hist) + f'   then the earlier result of {code}', ob, n))
      for code, x, _ in keep:
        lv.append((code, x, full(T, O, x, False)))
      st = {hash((got, repr(sorted(now.items())), tuple(o for _, _, o in lv)))}
      e, v = 1, bad
      if depth > 1 and not bad:
        e2, v2, s2 = explore(T, O, env, base, env0, lv, path + [i], alphabet, depth - 1)
        e += e2
        v = v + v2
        st |= s2
      return e, [(c, clip(x), clip(y)) for c, x, y in v[:3]], st
    r = forked(child)
    if r is None:
      viol.append(('; '.join(OPS[j] for j in path + [i]), 'completes', 'process died'))
      continue
    ev += r[0]
    viol += r[1]
    states |= r[2]
    if len(viol) > 3:
      break
  return ev, viol, states


def report(ctx, ev, viol, states):
  ctx.evaluations += ev
  ctx.transitions += ev
  ctx.traces += ev
  for s in states:
    ctx.states.add(s)
    ctx.outcomes.add(s)
  for c, x, y in viol[:3]:
    ctx.violation(c, x, y)


def job_tree(ctx, firsts, alphabet, depth, base):
  T, O, env = start()
  env0 = named_env(T, O, env)
  for f in firsts:
    def go():
      keep = []
      got = run_op(T, O, env, f, keep)
      lv = [(c, x, full(T, O, x, False)) for c, x, _ in keep]
      bad = [] if got == base[f] else [(OPS[f] + '  (in a second process)', base[f], got)]
      e, v, s = explore(T, O, env, base, env0, lv, [f], alphabet, depth - 1)
      return e + 1, bad + v, s
    r = forked(go)
    if r is None:
      ctx.violation(OPS[f], 'completes', 'process died')
      continue
    ctx.sample(f'{OPS[f]}; then every history of {depth - 1} of {len(alphabet)} operations')
    report(ctx, *r)


def job_repeat(ctx, firsts, base):
  """op^4 then every other op once, then all ops in both directions in one process"""
  T, O, env = start()
  env0 = named_env(T, O, env)
  for f in firsts:
    def go():
      lv, bad = [], []
      for k in range(4):
        keep = []
        got = run_op(T, O, env, f, keep)
        lv += [(c, x, full(T, O, x, False)) for c, x, _ in keep]
        if got != base[f]:
          bad.append((f'{OPS[f]} for the {k + 1}. time', clip(base[f]), clip(got)))
      n = 4
      for i in list(range(f, len(OPS))) + list(range(f - 1, -1, -1)):
        got = run_op(T, O, env, i, [])
        n += 1
        if got != base[i]:
          bad.append((f'{OPS[f]} x4; the operations {f}..{i} in order; {OPS[i]}', clip(base[i]), clip(got)))
          break
      for c, x, ob in lv:
        now = full(T, O, x, False)
        if now != ob:
          bad.append((f'earlier result of {c} after all operations', clip(ob), clip(now)))
      return n, bad[:3], {f}
    r = forked(go)
    if r is None:
      ctx.violation(OPS[f] + ' repeated', 'completes', 'process died')
      continue
    report(ctx, *r)


def job_volume(ctx, how, count, base):
  """a long history: many different dice rolled and selected from (more than any cache of results could hold), then the same again in another order, then every operation of the alphabet"""
  T, O, env = start()
  env0 = named_env(T, O, env)

  def spec(i):
    return [i % 97 - 40, i % 97 + i // 97 + 1 - 40, 200 + i], [1, 1 + i % 3, 1 + i % 2]

  def two(i):
    vs, ws = spec(i)
    d = {}
    for (a, p), (b, q) in itertools.product(zip(vs, ws), repeat=2):
      d[a + b] = d.get(a + b, 0) + p * q
    h = {}
    for (a, p), (b, q) in itertools.product(zip(vs, ws), repeat=2):
      h[max(a, b)] = h.get(max(a, b), 0) + p * q
    return ref.canon(d), ref.canon(h)
  shared = {}

  def calc(i):
    vs, ws = spec(i)
    x = T.RV(vs, ws)
    p = T.roll(2, x)
    shared.setdefault(i, p)
    return O.o_die(p), O.o_die(1 @ p), O.o_die(1 @ shared[i]), len(p)
  orders = {'again': list(range(count)) * 2, 'back': list(range(count)) + list(range(count))[::-1], 'strided': list(range(count)) + [i * 7 % count for i in range(count)]}[how]
  for k, i in enumerate(orders):
    s, h = two(i)
    if not ctx.compare(f'step {k} of {count} dice rolled ({how}): roll(2,RV{spec(i)})', lambda: calc(i), (s, h, h, 2)):
      return
  c = ref.const(0)
  for n in range(1, 121):
    c = ref.canon(ref_add(c))
    if not ctx.compare(f'after {count} dice: roll({n},[0,1,5])', lambda: O.o_die(T.roll(n, [0, 1, 5])) if ref.total(c) < O.LIMIT else O.close(T.roll(n, [0, 1, 5]), c), c if ref.total(c) < O.LIMIT else 'close'):
      return
  for i in range(len(OPS)):
    if not ctx.compare(f'after {count} dice ({how}): {OPS[i]}', lambda: run_op(T, O, env, i, []), base[i]):
      return
  ctx.compare('the values made at the start', lambda: named_env(T, O, env), env0)


def job_labels(ctx, sizes):
  """the same roll in different words: each keeps how it is printed, whatever is rolled after it"""
  T, O, env = start()
  env['sq'] = T.Seq(1, 2, 2)
  for n in sizes:
    forms = [(f'roll({n},2)', f'{n}d2' if n > 1 else 'd2'), (f'roll({n},[1,2])', f'{n}d{{?}}' if n > 1 else 'd{?}'), (f'roll([{n}],2)', f'{n}d2' if n > 1 else 'd2'), (f'roll({n},RV([1,2],[1,1]))', f'{n}d{{?}}' if n > 1 else 'd{?}'), (f'roll({n},roll(2))', f'{n}d2' if n > 1 else 'd2'), (f'roll(Seq({n - 1},1),Seq(2,1))', f'{n}d{{?}}' if n > 1 else 'd{?}')]
    for k in (2, 3):
      for perm in itertools.permutations(forms, k):
        def run():
          made = [eval(c, env) for c, _ in perm]
          shown = [str(x) for x in made]
          selected = [O.o_die(1 @ x) for x in made] if n < 40 else []
          later = [str(x) for x in made]
          return shown, later, len(set(map(id, made))), all(O.o_die(x) == O.o_die(made[0]) for x in made[:2]), all(s == selected[0] for s in selected), [len(x) for x in made]
        ctx.compare('; '.join(c for c, _ in perm), run, ([s for _, s in perm], [s for _, s in perm], k, True, True, [n] * k))


KINDS = ('', ':n', ':s', ':d')


def same_name_programs():
  """groups of programs whose functions have the same name and code but other parameter types"""
  groups = []
  for body in ('A+0', 'A>2', 'A = {1,2}', '1@A'):
    groups.append([f'function: f A{k} {{ result: {body} }} output [f 2d3] output [f {{1,2}}] output [f 3]' for k in KINDS])
  for body in ('A*10+B', 'A>B', '1@B+A'):
    groups.append([f'function: f A{k} B{m} {{ result: {body} }} output [f 2d2 d3] output [f {{1,2}} 2d2] output [f d2 {{3}}]' for k in KINDS for m in KINDS])
  groups.append([f'function: f {a} {b} {{ result: A*10+B }} output [f 2d2 {{1,2}}]' for a, b in (('A:n', 'B'), ('B:n', 'A'), ('A', 'B:n'), ('B', 'A:n'), ('A:n', 'B:s'), ('B:s', 'A:n'))])
  return groups


def same_name_python():
  head = 'def f({}):\n  return {}\nf = anydice_casting()(f)\n'
  types = ('', ': T_N', ': T_S', ': T_D')
  groups = []
  for body in ('A + 0', 'A > 2', 'A == [1, 2]'):
    groups.append([head.format(f'A{k}', body) + '(f(roll(2,3)), f([1,2]), f(A=roll(2,3)), f(3))' for k in types])
  for body in ('A * 10 + B', 'A == B'):
    groups.append([head.format(f'A{k}, B{m}', body) + '(f(roll(2,2), d), f(B=roll(2,2), A=[1,2]), f(d, B=[3]))' for k in types for m in types])
  return groups


def job_same_name(ctx, group, python):
  """every two functions of one name and one code but other parameter types, one after the other, in both orders"""
  from dice_calc.parser import compile_anydice
  from dice_calc.parser.parse_and_exec import unsafe_exec
  T, O, env = start()
  py = {} if python else {src: compile_anydice(src) for src in group}

  def eval_one(src):
    def go():
      if not python:
        try:
          return repr([(full(T, O, a[0]), sorted(k.items())) for a, k in unsafe_exec(py[src])])
        finally:
          T.settings_reset()
      ns = dict(env)
      head, last = src.rsplit('\n', 1)
      exec(head, ns)
      return repr([full(T, O, x) for x in eval(last, ns)])
    return repr(observe(go))
  fresh = [forked(lambda: eval_one(s)) for s in group]
  for i, a in enumerate(group):
    def go():
      r = []
      for j, b in enumerate(group):
        r.append((a, b, eval_one(a) == fresh[i], eval_one(b) == fresh[j], eval_one(a) == fresh[i]))
        if not all(r[-1][2:]):
          break
      return r
    for a_, b_, *oks in forked(go) or [(a, '?', False, False, False)]:
      ctx.compare(f'{a_!r}; {b_!r}; {a_!r}: each as in a fresh process', lambda: oks, [True, True, True])
    ctx.transitions += 3 * len(group)


def ref_add(c):
  d = {}
  for v, w in c:
    for x in (0, 1, 5):
      d[v + x] = d.get(v + x, 0) + w
  return d


def jobs(tier):
  base = baseline()
  q = tier == 'quick'
  js = []
  for i, b in enumerate(base):
    if b is None:
      raise RuntimeError(f'operation {OPS[i]} did not complete in a fresh process')
  n = len(OPS)
  allops, core = list(range(n)), list(range(len(CORE)))
  for f in range(n):
    js.append(Job(f'depth2 {f}', job_tree, [f], allops, 2 if q else 3, base))
  for f in core:
    js.append(Job(f'core {f}', job_tree, [f], core if q else core[:16], 3 if q else 4, base))
  for f in range(0, n, 6):
    js.append(Job(f'repeat {f}', job_repeat, list(range(f, min(n, f + 6))), base))
  js += [Job(f'labels {s}', job_labels, s) for s in ((1, 2, 3, 4, 5, 8), (9, 10, 11, 12, 16, 20, 32), (33, 50, 64, 65, 99), (100, 101, 128), (150, 200, 257))]
  for python, groups in ((False, same_name_programs()), (True, same_name_python())):
    js += [Job(f'same name {python} {k}', job_same_name, g, python) for k, g in enumerate(groups)]
  for how, count in (('again', 600), ('back', 1300), ('strided', 2500)) if q else (('again', 1300), ('back', 5000), ('strided', 20011)):
    js.append(Job(f'volume {how}', job_volume, how, count, base))
  return js
