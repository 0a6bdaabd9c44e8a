"""Runs AnyDice programs on the real compiler and executors and on the reference interpreter."""
import fastparse
import lang
from mc import observe

FLAG = {'scope': 'COMPILER_FLAG_NON_LOCAL_SCOPE', 'opint': 'COMPILER_FLAG_OPERATOR_ON_INT', 'lib': 'COMPILER_FLAG_FUNC_LIB_CONFLICT', 'nocheck': 'COMPILER_FLAG_FUNC_EXIST_CHECK'}


def flags_of(names):
  if names is None:
    return None
  return {FLAG[n]: n != 'nocheck' for n in names}


def real(src, flagnames=None, how='unsafe_exec'):
  """-> [(form, name)] of the outputs"""
  import target as T
  import obs as O
  fastparse.install()
  from dice_calc.parser import compile_anydice
  import dice_calc.parser.parse_and_exec as pe
  T.settings_reset()
  try:
    py = compile_anydice(src, flags=flags_of(flagnames))
    return [(O.form(a[0]), k.get('named')) for a, k in getattr(pe, how)(py)]
  finally:
    T.settings_reset()


def real_both(src, flagnames=None):
  """same, executed both ways; the two must agree"""
  import target as T
  import obs as O
  fastparse.install()
  from dice_calc.parser import compile_anydice
  import dice_calc.parser.parse_and_exec as pe
  T.settings_reset()
  try:
    py = compile_anydice(src, flags=flags_of(flagnames))
    res = []
    for how in ('unsafe_exec', 'safe_exec'):
      T.settings_reset()
      res.append([(O.form(a[0]), k.get('named')) for a, k in getattr(pe, how)(py)])
  finally:
    T.settings_reset()
  if res[0] != res[1]:
    return ('safe and plain execution differ', res[0], res[1])
  return res[0]


def model(prog, opint=False, scope='dynamic', budget=200000):
  """-> outputs, or raises Skip / Fails"""
  if isinstance(prog, str):
    prog = lang.parse(prog)
  return lang.Interp(opint, scope, budget).run(prog)


def expect(src, flagnames):
  """expected observation (the reference interpreter may recurse deeper than the code under test is allowed to)"""
  import sys
  lim = sys.getrecursionlimit()
  sys.setrecursionlimit(20000)
  try:
    return expect_(src, flagnames)
  finally:
    sys.setrecursionlimit(lim)


def expect_(src, flagnames):
  """expected observation of a whole program under the flags; Skip if unspecified, ('fails',) if it must fail"""
  prog = lang.parse(src)
  opint = bool(flagnames) and 'opint' in flagnames
  if not lang.called(prog) <= lang.defined(prog):
    raise lang.Skip('calls a function that does not exist')

  def one(scope):
    try:
      return model(prog, opint, scope)
    except lang.Fails:
      return ('fails',)
  d = one('dynamic')
  if flagnames and 'scope' in flagnames:
    return d
  if one('lexical') != d:
    raise lang.Skip('scopes differ')
  return d


def run_batch(ctx, prelude, exprs, flagnames, size=250):
  """exprs: texts; each is evaluated by the model under the prelude; the defined ones are compiled many per program"""
  opint = bool(flagnames) and 'opint' in flagnames
  pre = lang.parse(prelude)
  todo = []

  def flush():
    if not todo:
      return
    src = prelude + '\n' + '\n'.join(f'output {e}' for e, _ in todo)
    ctx.evaluations += 1
    ctx.traces += len(todo)
    ctx.transitions += 2 * len(todo)
    got = observe(lambda: real_both(src, flagnames), 120)
    exp = [(x, None) for _, x in todo]
    if got != exp:
      # locate: one program per expression
      for e, x in todo:
        s = prelude + '\noutput ' + e
        g = observe(lambda: real_both(s, flagnames), 30)
        if g != [(x, None)]:
          ctx.violation(f'{s!r} flags {flagnames}', x, g)
          break
      else:
        ctx.violation(f'{src!r} flags {flagnames} (each output alone is right)', exp, got)
    for e, x in todo:
      ctx.state((e, x))
      ctx.outcome(x)
    ctx.sample(f'{todo[0][0]} -> {todo[0][1]}')
    todo.clear()
  for e in exprs:
    try:
      I = lang.Interp(opint)
      I.run(pre)
      p = lang.Parser(lang.lex(e))
      ast = p.expr()
      if p.i != len(p.t):
        raise lang.ParseError()
      x = lang.obs_form(I.ev(ast, I.globals))
    except lang.ParseError:
      ctx.count('not an expression')
      continue
    except lang.Skip:
      ctx.count('meaning not specified')
      continue
    except lang.Fails:
      ctx.count('fails at run time')
      continue
    todo.append((e, x))
    if len(todo) >= size:
      flush()
  flush()


LIBWORDS = {w for k in lang.LIB for w in k}
RESET = ' set "explode depth" to 2 set "maximum function depth" to 10 set "position order" to "highest first"'


def renamed(src, i):
  """the same program with its own variable and function names"""
  a, b = divmod(i, 26)
  suf = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'[b] + 'QWERTYUIOP'[a % 10] * (1 + a // 10)
  out = []
  toks = lang.lex(src)
  for j, (k, t) in enumerate(toks):
    if k == 'up':
      t = t + '_' + suf
    elif k == 'low' and t not in LIBWORDS and not (t in ('n', 's') and j and toks[j - 1][0] == ':'):
      t = t + suf.lower()
    elif k == 'str':
      t = '"' + ''.join(p if isinstance(p, str) else f'[{p[1]}_{suf}]' for p in lang.str_parts(t)) + '"'
    out.append(t)
  return ' '.join(out) + (RESET if ('set', 'set') in toks else '')


def run_programs(ctx, srcs, flagnames, size=40, alone=False, fail_step=1):
  """each program: model, then the real thing; many programs (renamed apart) share one compilation unless alone"""
  todo = []

  def check_one(src, exp):
    got = observe(lambda: real_both(src, flagnames), 30)
    if exp == ('fails',):
      if not (isinstance(got, tuple) and got[0] == 'raised'):
        ctx.violation(f'{src!r} flags {flagnames}', 'an error at run time', got)
        return False
    elif got != exp:
      known = None
      if isinstance(got, list):
        # listed finding: the printed form of a comparison of two numbers
        fixed = [(v, n.replace('True', '1').replace('False', '0') if isinstance(n, str) else n) for v, n in got]
        if fixed == exp:
          known = ctx.pid + '-comparison-label'
      ctx.violation(f'{src!r} flags {flagnames}', exp, got, known)
      return known is not None
    return True

  def flush():
    if not todo:
      return
    ctx.evaluations += 1
    ctx.traces += len(todo)
    if len(todo) == 1:
      check_one(*todo[0])
    else:
      src = '\n'.join(renamed(s, i) for i, (s, _) in enumerate(todo))
      exp = [o for _, e in todo for o in e]
      got = observe(lambda: real_both(src, flagnames), 120)
      if got != exp:
        before = sum(n for n, _ in ctx.known.values())
        for s, e in todo:
          if not check_one(s, e):
            break
        else:
          if sum(n for n, _ in ctx.known.values()) > before:
            return todo.clear()
          ctx.violation(f'{src!r} flags {flagnames} (each program alone is right)', exp, got)
    for s, e in todo:
      ctx.transitions += 2 * (1 + len(e))
      ctx.state((s, e))
      ctx.outcome(e)
    ctx.sample(f'{todo[0][0]} -> {todo[0][1]}')
    todo.clear()
  for src in srcs:
    try:
      exp = expect(src, flagnames)
    except lang.Skip as e:
      ctx.count('meaning not specified')
      ctx.count('  ' + str(e))
      continue
    if exp == ('fails',):
      ctx.count('must fail at run time')
      if ctx.counters['must fail at run time'] % fail_step:
        continue
      ctx.count('must fail at run time: run')
      ctx.evaluations += 1
      ctx.traces += 1
      ctx.transitions += 2
      ctx.state((src, exp))
      check_one(src, exp)
      continue
    todo.append((src, exp))
    if alone or len(todo) >= size:
      flush()
  flush()
