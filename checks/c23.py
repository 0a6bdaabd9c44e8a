"""C23: safe execution confines a program: explicit-state exploration of the objects a program can get hold of, all names,
imports, attribute writes and bypass techniques, executed by the real safe_exec."""
import builtins
import itertools
import sys
import types
from mc import Job, observe
PID = 'C23'
META = dict(
  rule='states: objects a program run by safe_exec can hold; transitions: reading an attribute (by syntax, by getattr, with every name the object has plus every dangerous name).  Starting from every name available to a program and from results of the library (dice, sequences, functions, generators, exceptions), every reachable object is visited and compared with the forbidden ones (modules and functions of the interpreter, the operating system, files, code execution, unguarded attribute access, namespaces of modules, frames, code objects).  Further: every name of the interpreter, every import form of every listed module, every attribute and item write to every visited library object (and the object looked at afterwards), every function of the given modules applied to the argument patterns that read or write attributes by name or evaluate text, every rebinding of a name followed by a probe run',
  bounds='quick: attribute chains to length 4 (to closure for library objects and modules), calls of the functions of the given modules with up to 3 (functools) or 2 arguments from 9; thorough: chains to length 6; both tiers also: attribute-name variants',
  assumptions=['RestrictedPython itself is trusted for the syntax it refuses (the check still exercises it)', 'objects are judged by identity with a forbidden list; denial of service (endless loops, memory) is not claimed', 'objects the caller passes in as extra variables are the caller\'s responsibility'])

FORBIDDEN_MODULES = ['os', 'posix', 'sys', 'builtins', 'io', '_io', 'subprocess', 'importlib', '_imp', 'ctypes', 'socket', 'shutil', 'pathlib', 'inspect', 'gc', 'types', 'operator', '_operator', 'tempfile', 'pickle', 'marshal', 'code', 'codeop', 'runpy', 'threading', '_thread', 'signal', 'multiprocessing', 'asyncio', 'site', 'pty', 'pdb', 'logging', 'traceback', 'linecache', 'tokenize', 'glob', 'fileinput', 'urllib', 'http', 'zipfile', 'tarfile', 'sqlite3', 'shelve', 'weakref', 'atexit', 'typing', 'RestrictedPython']
FORBIDDEN_BUILTINS = ['open', 'eval', 'exec', 'compile', '__import__', 'input', 'breakpoint', 'globals', 'locals', 'vars', 'dir', 'getattr', 'setattr', 'delattr', 'memoryview', 'super', 'type', 'exit', 'quit', 'help']
DANGER = ['__class__', '__globals__', '__builtins__', '__dict__', '__subclasses__', '__bases__', '__base__', '__mro__', '__code__', '__closure__', '__func__', '__self__', '__module__', '__init__', '__getattribute__', '__reduce__', '__reduce_ex__', '__wrapped__', '__loader__', '__spec__', '__call__', '__get__', '__set_name__', '__annotations__', '__defaults__', '_os', '_sys', '_inst', '_source_die',
          'gi_frame', 'gi_code', 'f_globals', 'f_locals', 'f_builtins', 'f_back', 'f_code', 'tb_frame', 'tb_next', 'co_code', 'cr_frame', 'ag_frame', 'func_globals', 'func_code', 'im_func', 'mro', 'format', 'format_map', 'modules', 'system', 'os', 'sys', 'io', 'open', 'eval']
VARIANTS = [f.format(n) for n in DANGER if n.startswith('__') for f in (' {}', '{} ', '\t{}', '\ufeff{}', 'a.{}', '0.{}', '.{}', 'RV{}', '-{}', '{}()')] + [f(n) for n in DANGER if n.startswith('__') for f in (str.upper, str.title, lambda n: n.strip('_'), lambda n: n[1:].strip('_') + '__', lambda n: n.replace('_', '\uff3f'), lambda n: n.replace('_', '\ufe33'), lambda n: '\0' + n, lambda n: n[2:-2] + '\0')]
VARIANTS = [n for n in VARIANTS if not n.startswith('_') and not n.isidentifier() or '\uff3f' in n or '\ufe33' in n]


def run(text):
  import dice_calc.parser.parse_and_exec as pe
  return pe.safe_exec(text)


def forbidden():
  """id -> name of the objects a program must not get; the objects are kept alive in the second result"""
  keep, ids = [], {}

  def add(name, o):
    keep.append(o)
    ids[id(o)] = name
  for m in FORBIDDEN_MODULES:
    if m in sys.modules:
      add('module ' + m, sys.modules[m])
  for n in FORBIDDEN_BUILTINS:
    if hasattr(builtins, n):
      add('builtin ' + n, getattr(builtins, n))
  for m in list(sys.modules.values()):
    if isinstance(m, types.ModuleType):
      add('namespace of ' + m.__name__, m.__dict__)
  for m in ('os', 'subprocess', 'sys', 'importlib', 'operator', 'io', 'shutil', 'inspect', 'gc', 'ctypes', 'socket'):
    mod = sys.modules.get(m)
    for k, v in vars(mod).items() if mod else ():
      if callable(v) and getattr(v, '__module__', None) in (m, 'posix', '_io', '_operator', '_socket', 'nt', '_ctypes') and not (isinstance(v, type) and issubclass(v, BaseException)):
        add(f'{m}.{k}', v)
  return ids, keep


BADTYPES = (types.ModuleType, types.CodeType, types.FrameType, types.TracebackType, types.CellType)
OKMODULES = ('math', 'itertools', 'random', 'functools', 'fractions', 'numbers', 'cmath')


def judge(o, ids):
  """None or why the program must not hold o"""
  if id(o) in ids:
    return ids[id(o)]
  if isinstance(o, types.ModuleType):
    return None if o.__name__ in OKMODULES else f'module {o.__name__}'
  if isinstance(o, BADTYPES):
    return type(o).__name__
  if isinstance(o, dict) and '__builtins__' in o:
    return 'a namespace'
  return None


def names_available():
  """every name a program can use: found by asking a program"""
  import dice_calc.parser.parse_and_exec as pe
  import RestrictedPython
  cand = set(dir(builtins)) | set(RestrictedPython.safe_builtins) | set(pe._get_lib() if hasattr(pe, '_get_lib') else ()) | set(vars(pe)) | set(FORBIDDEN_MODULES) | {'output', 'roll', 'RV', 'Seq', 'math', 'itertools', 'random', 'functools', 'printed', 'getattr', 'self', 'SETTINGS', 'BlankRV', 'settings_reset', 'logger', 'g', 'all_outputs', 'r', 'global_vars'}
  return sorted(cand)


START = ['roll(6)', 'roll(2,6)', 'Seq(1,2)', 'RV([1,2],[1,3])', 'roll(Seq())', 'roll(2,6).get_cdf()', 'roll(6).vals', 'RV.from_const(3)', 'anydice_casting()', 'anydice_casting()(lambda A: 1)', '(lambda a: a)', '(x for x in (1,2))', '[1]', '{1: 2}', '"text"', '1.5', '(1,)', 'b"x"', '{1}', 'myrange(1,3)', 'functools.partial(roll, 2)', 'functools.cmp_to_key(lambda a, b: 0)', 'random.Random(1)', 'math.pi', 'itertools.count()', 'roll(["a", 1])', 'Seq("a")', '1 @ roll(2,6)', 'get_seq(1,2)', 'ValueError("x")', 'functools.reduce', 'functools.lru_cache(lambda a: a)', 'None', '...']
PRELUDE = '''class C:
  y = 1
  def m(self):
    return self
def f(a):
  return a
def gen():
  yield 1
def ex():
  try:
    return 1 // 0
  except Exception as e:
    return e
'''
START2 = ['C', 'C()', 'C().m', 'f', 'gen', 'gen()', 'ex()']


def attrs(ctx, path, pre=''):
  """one program that tries every attribute of the object at path by getattr -> {name: value} of what it got"""
  try:
    o = run(pre + f'output({path})')[0][0][0]
  except Exception:
    return None, {}
  names = list(dict.fromkeys(dir(o) + DANGER + VARIANTS))
  text = pre + f'def take(o, n):\n  try:\n    output(n, getattr(o, n))\n  except Exception:\n    pass\no = {path}\n' + '\n'.join(f'take(o, {n!r})' for n in names)
  res = {}
  for a, _ in run(text):
    res[a[0]] = a[1]
  ctx.transitions += len(names)
  ctx.traces_n = getattr(ctx, 'traces_n', 0) + 1
  return o, res


def explore(ctx, roots, depth, pre=''):
  import target  # noqa
  ids, keep = forbidden()
  seen, hold = set(), []
  level = [(r, r) for r in roots]
  for d in range(depth + 1):
    nxt = []
    for path, _ in level:
      o, got = attrs(ctx, path, pre)
      ctx.evaluations += 1
      why = judge(o, ids)
      if why:
        ctx.violation(f'program: output({path})', 'refused or harmless', why)
        continue
      ctx.state((path.split('.')[0], type(o).__name__, d))
      for n, v in got.items():
        if n.startswith('_') or (n in VARIANTS and v is not None):
          ctx.violation(f'program: getattr({path}, {n!r})', 'refused', repr(v)[:200])
          continue
        why = judge(v, ids)
        if why:
          ctx.violation(f'program: getattr({path}, {n!r})', 'refused or harmless', why)
          continue
        # the same by syntax must agree
        key = (type(v), id(v)) if isinstance(v, (type, types.ModuleType, types.FunctionType, types.BuiltinFunctionType)) and getattr(v, '__self__', None) is None or isinstance(v, types.ModuleType) else (type(v), type(o), n)
        ctx.state(('attribute', type(o).__name__, n, type(v).__name__))
        if key not in seen:
          seen.add(key)
          hold.append(v)
          if not isinstance(v, (int, float, complex, str, bytes, tuple, type(None))) or d == 0:
            nxt.append((f'{path}.{n}', v))
    level = nxt
  ctx.sample(f'{roots[:3]}...: {len(seen)} kinds of objects held, none forbidden')


def syntax(ctx, part, parts):
  """every name, every underscore name and attribute, every import"""
  import target  # noqa
  import re
  ids, keep = forbidden()

  def go(text, refused=False):
    ctx.evaluations += 1
    ctx.transitions += 1
    o = observe(lambda: [x for a, k in run(text) for x in list(a) + list(k.values())], 30)
    ctx.state(text)
    ctx.outcome(type(o).__name__ if not isinstance(o, tuple) else o)
    if isinstance(o, tuple) and o and o[0] == 'raised':
      return
    if refused:
      ctx.violation(f'program: {text!r}', 'refused', repr(o)[:200])
      return
    for x in o if isinstance(o, list) else ():
      why = judge(x, ids)
      if why:
        ctx.violation(f'program: {text!r}', 'refused or harmless', why)
  texts = []
  for n in names_available():
    if not n.isidentifier():
      continue
    texts += [(f'output({n})', n.startswith('_')), (f'x = [{n}]\noutput(x[0])', n.startswith('_')), (f'def f(a={n}):\n  return a\noutput(f())', n.startswith('_'))]
    if n.startswith('_'):
      texts += [(f'{n} = 1', True), (f'def {n}(a):\n  return 1', n not in ('__init__',)), (f'f = lambda {n}: 1', True), (f'for {n} in (1,2):\n  output(1)', True), (f'class {n}:\n  pass', True), (f'global {n}\n{n} = 1', True)]
  for n in [x for x in DANGER if x.startswith('_')]:
    for o in ('roll', 'RV', 'Seq', 'random', 'functools', '"a"', '(1).real', 'roll(6)', '(lambda: 1)'):
      texts += [(f'output({o}.{n})', True), (f'output(f"{{{o}.{n}}}")' if '"' not in o else f"output(f'{{{o}.{n}}}')", True), (f'output(getattr({o}, {n!r}))', True), (f'output(getattr({o}, {n!r}, 1))', True), (f'{o}.{n} = 1' if o[0] not in '"(' else 'import os', True), (f'output({n!r} and getattr({o}, "".join(({n[:2]!r}, {n[2:]!r}))))', True),
                (f'output("{{0.{n}}}".format({o}))' if '"' not in o else f"output('{{0.{n}}}'.format('a'))", True), (f'output(str.format("{{0.{n}}}", {o}))' if '"' not in o else 'import os', True), (f'output("{{a.{n}}}".format_map({{"a": {o}}}))' if '"' not in o else 'import os', True)]
  for n in ('gi_frame', 'gi_code', 'f_globals', 'f_locals', 'f_builtins', 'f_back', 'f_code', 'tb_frame', 'tb_next', 'gi_yieldfrom', 'cr_frame', 'cr_code', 'ag_frame', 'ag_code'):
    texts += [(f'def g():\n  yield 1\noutput(g().{n})', False), (f'output((x for x in (1,)).{n})', False), (f'def g():\n  yield 1\noutput(getattr(g(), {n!r}))', False)]
  for m in FORBIDDEN_MODULES + ['math', 'random', 'dice_calc', 'dice_calc.settings', 'os.path', '__main__', 'builtins']:
    texts += [(f'import {m}', True), (f'import {m} as x\noutput(x)', True), (f'from {m} import *', True), (f'from {m} import path', True), (f'def f():\n  import {m}\n  return 1\noutput(f())', True), (f'try:\n  import {m}\n  output({m.split(".")[0]})\nexcept Exception:\n  raise ValueError', True), (f'class A:\n  import {m}', True), (f'output([__import__({m!r}) for x in (1,)])', True)]
  texts += [(t, True) for t in ('from . import x', 'from .. import x', 'exec("x=1")', 'eval("1")', 'compile("1","","eval")', 'open("/nonexistent")', 'output(globals())', 'output(locals())', 'output(vars())', 'output(dir())', 'output(type(1))', 'output(type("A", (), {}))', 'input()', 'breakpoint()', 'match roll:\n  case object(__globals__=g):\n    output(g)', 'class A(metaclass=type):\n  pass', 'class A:\n  __slots__ = ("a",)', 'class A:\n  def __getattr__(self, n):\n    return 1', 'try:\n  output(1)\nexcept* ValueError as e:\n  output(e)', 'async def f():\n  pass', 'x: int = 1', 'import os, sys', 'output(super)', 'output(memoryview(b"a"))', 'output(object.__subclasses__())', 'try:\n  1//0\nexcept Exception as e:\n  output(e.__traceback__.tb_frame)', 'exit()', 'quit()')]
  for i, (t, r) in enumerate(texts):
    if i % parts == part and re.sub(r'\s', '', t):
      go(t, r)


def writes(ctx, part, parts):
  """no attribute or item of an object handed to the program can be set or deleted"""
  import target as T
  import dice_calc.parser.parse_and_exec as pe
  objs = {}
  for n in names_available():
    if n.isidentifier() and not n.startswith('_'):
      try:
        objs[n] = run(f'output({n})')[0][0][0]
      except Exception:
        pass
  exprs = {'DIE': 'roll(2,6)', 'SEQ': 'Seq(1,2)', 'EMPTY': 'roll(Seq())', 'CAST': 'anydice_casting()(lambda A: 1)'}
  forms = ['{p}.{a} = 99', 'setattr({p}, {a!r}, 99)', 'del {p}.{a}', 'delattr({p}, {a!r})', '{p}.{a} += 99', 'for {p}.{a} in (99,):\n  output(1)', '{p}[{a!r}] = 99', '{p}[0] = 99', 'del {p}[0]', '({p}.{a}, x) = (99, 1)', '[99 for {p}.{a} in (1,)]']
  work = []
  for n, o in objs.items():
    if o is None or isinstance(o, (bool, int)) or isinstance(o, type(...)):
      continue
    if isinstance(o, type) and issubclass(o, BaseException):
      continue
    for a in ['newname', '__doc__', '__call__', 'vals'] + [x for x in dir(o) if not x.startswith('_')][:60]:
      for f in forms:
        work.append((n, o, a, f))

  def state(o):
    d = getattr(o, '__dict__', None)
    return None if d is None else {k: id(v) for k, v in dict(d).items() if not k.startswith('__')}
  for i, (n, o, a, f) in enumerate(work):
    if i % parts != part:
      continue
    before = state(o)
    text = f.format(p=n, a=a)
    ctx.evaluations += 1
    ctx.transitions += 1
    r = observe(lambda: run(text), 30)
    ctx.state(text)
    ctx.outcome(r if isinstance(r, tuple) else type(r).__name__)
    if state(o) != before:
      ctx.violation(f'program: {text!r}', 'refused, nothing changed', f'{n} was changed')
      return
    if not (isinstance(r, tuple) and r[0] == 'raised'):
      ctx.violation(f'program: {text!r}', 'refused', repr(r)[:200])
  if part == 0:
    for e in exprs.values():
      for a in ('vals', 'probs', 'newname', '_seq', '_source_roll', 'n'):
        for f in forms:
          text = f'o = {e}\n' + f.format(p='o', a=a)
          ctx.evaluations += 1
          ctx.transitions += 1
          r = observe(lambda: run(text), 30)
          ctx.state(text)
          if not (isinstance(r, tuple) and r[0] == 'raised'):
            ctx.violation(f'program: {text!r}', 'refused', repr(r)[:200])


def bypass(ctx, mod, most):
  """every function of the given modules applied to arguments that name attributes, carry them or evaluate text; what user
  objects receive, are given or return is searched for forbidden objects"""
  import target  # noqa
  ids, keep = forbidden()
  pre = '''class Sink:
  def update(self, d):
    output(d)
    return 1
  def keys(self):
    return ()
class Src:
  attrname = '__globals__'
  x = 1
def fn(a):
  return a
def ann(a: "output(roll.__globals__)"):
  return a
def ann2(a: "output(probe)") -> "output(probe)":
  return a
c = Sink()
src = Src()
probe = 'evaluated'
'''
  args = ['roll', 'fn', 'ann', 'ann2', 'c', 'src', '"__globals__"', '("__globals__",)', 'RV']
  try:
    fns = run(f'output({mod})')[0][0][0]
    names = [n for n in dir(fns) if not n.startswith('_') and callable(getattr(fns, n)) and not (isinstance(getattr(fns, n), type) and issubclass(getattr(fns, n), BaseException))]
  except Exception:
    names = []
  skip = {'count', 'cycle', 'repeat'}

  def search(x, depth=0):
    why = judge(x, ids)
    if why:
      return why
    if depth < 3 and not isinstance(x, (str, bytes, int, float, type, types.FunctionType, types.ModuleType)):
      d = getattr(x, '__dict__', None)
      if isinstance(d, dict):
        for k, v in list(d.items()):
          w = search(v, depth + 1)
          if w:
            return f'{k}: {w}'
      if isinstance(x, (list, tuple)):
        for v in x[:20]:
          w = search(v, depth + 1)
          if w:
            return w
    return None

  def go(call):
    text = pre + f'try:\n  r = {call}\n  output(r)\nexcept Exception:\n  output("failed")\noutput(c)\noutput(src)\noutput(fn)\n'
    ctx.evaluations += 1
    ctx.transitions += 1
    o = observe(lambda: run(text), 30)
    ctx.state(call)
    if isinstance(o, tuple):
      return
    for a, _ in o:
      if isinstance(a[0], str) and a[0] == 'evaluated':
        ctx.violation(f'program: {call} with a function annotated by a text', 'the text is not executed', 'executed')
        continue
      why = search(a[0])
      if isinstance(a[0], types.FunctionType) and why is None and a[0].__name__ in ('fn', 'ann', 'ann2'):
        why = next((search(v) for k, v in vars(a[0]).items() if search(v)), None)
      if why:
        ctx.violation(f'program: {call}', 'nothing forbidden is handed over', why)
  libs = run('output(RV)')[0][0][0]
  before = {k: id(v) for k, v in vars(libs).items() if k not in ('__annotations__', '__slotnames__')}
  for n in names:
    if n in skip:
      continue
    for k in range(most + 1):
      for t in itertools.product(args, repeat=k):
        go(f'{mod}.{n}({", ".join(t)})')
    if mod == 'math':
      continue
    for kw in ('assigned=("__globals__",), updated=()', 'assigned=(), updated=("__globals__",)', 'assigned=("__globals__",), updated=("__dict__",)'):
      for t in itertools.product(args, repeat=2):
        go(f'{mod}.{n}({", ".join(t)}, {kw})')
    for t in itertools.product(args, repeat=2):
      go(f'{mod}.{n}({t[0]})({t[1]})')
      go(f'{mod}.{n}({t[0]}).register({t[1]})')
      go(f'{mod}.{n}({t[0]}).register(RV, {t[1]})')
      go(f'{mod}.{n}({t[0]}).dispatcher.register({t[1]})')
  after = {k: id(v) for k, v in vars(libs).items() if k not in ('__annotations__', '__slotnames__')}
  if after != before:
    ctx.violation(f'functions of {mod}', 'library classes unchanged', sorted(k for k in after if after.get(k) != before.get(k)))


def escapes(ctx):
  """multi-step bypasses found by hand: each must hand out nothing"""
  import target  # noqa
  ids, keep = forbidden()
  progs = {
    'cached_property renamed, update_wrapper reads': '''class Sink:
  def update(self, d):
    output(d)
class Src:
  attrname = '__globals__'
def mk(self):
  return Sink()
cp = functools.cached_property(mk)
class C:
  x = cp
c = C()
functools.update_wrapper(cp, Src(), assigned=('attrname',), updated=())
c.x
functools.update_wrapper(c, myLen, assigned=(), updated=('__globals__',))
''',
    'wraps writes into a library class': '''class Src:
  from_const = 1
functools.wraps(Src, assigned=('from_const',), updated=())(RV)
output('done')
''',
    'annotation evaluated': '''def base(a):
  return 1
def f(a: "output(roll.__globals__)"):
  return 1
functools.singledispatch(base).register(f)
''',
    'annotation evaluated in a method': '''def base(a, b):
  return 1
def f(a: "output(roll.__globals__)"):
  return 1
functools.singledispatchmethod(base).register(f)
''',
  }
  for n, t in progs.items():
    ctx.evaluations += 1
    ctx.transitions += 1
    rv = run('output(RV)')[0][0][0]
    keepfn = rv.__dict__.get('from_const')
    o = observe(lambda: run(t), 30)
    ctx.state(n)
    ctx.outcome(o if isinstance(o, tuple) else type(o).__name__)
    if rv.__dict__.get('from_const') is not keepfn:
      rv.from_const = keepfn
      ctx.violation(f'program ({n}): {t!r}', 'refused', 'the library was changed')
    for a, _ in o if isinstance(o, list) else ():
      why = judge(a[0], ids)
      if why:
        ctx.violation(f'program ({n}): {t!r}', 'refused', why)


def rebinding(ctx, how):
  """whatever names one run binds, a later run sees the library"""
  import target as T
  import obs as O
  import dice_calc.parser.parse_and_exec as pe
  ex = getattr(pe, how)
  probe = 'output(roll(2,3))\noutput(Seq(1,2))\noutput(1 @ roll(2,6))\noutput(absolute_X(-2))\noutput(reverse_X(Seq(1,2)))\noutput(RV([1],[1]))\n@anydice_casting()\ndef f(A: T_N):\n  return A\noutput(f(roll(3)))\noutput(highest_X_of_X(1, roll(2,2)))\noutput(myLen(Seq(3)))\noutput(math.pi)\noutput(len((1,2)))\noutput(sorted((2,1)))\noutput(range(2))'

  def see():
    return [repr(O.form(a[0])) if not isinstance(a[0], (float, list, range)) else repr(a[0]) for a, _ in ex(probe)]
  want = see()
  names = [n for n in names_available() if n.isidentifier() and not n.startswith('_')]
  import keyword
  for n in names:
    if keyword.iskeyword(n):
      continue
    for f in ('{} = None', 'def {}(*a):\n  return 5', 'class {}:\n  pass', 'for {} in (1,2):\n  pass', 'def f():\n  global {0}\n  {0} = 3\n  return 1\nf()', 'del {}'):
      observe(lambda: ex(f.format(n)), 30)
      ctx.compare(f'{how}: {f.format(n)!r} and then the probe', see, want)
  if how == 'safe_exec':
    for n in names[::7]:
      ctx.compare(f'extra variable {n} given once', lambda: (observe(lambda: pe.safe_exec('output(1)', {n: 5}), 30), see())[1], want)


def jobs(tier):
  q = tier == 'quick'
  d = 4 if q else 6
  js = [Job(f'bypass {m}', bypass, m, n if q else 3) for m, n in (('functools', 3), ('random', 2), ('itertools', 2), ('math', 2))]
  js += [Job('names', lambda ctx: explore(ctx, [n for n in names_available() if n.isidentifier() and not n.startswith('_')], d))]
  js += [Job(f'objects {k}', explore, START[k::4], d) for k in range(4)]
  js += [Job('own objects', explore, START2, d, PRELUDE)]
  js += [Job(f'syntax {k}', syntax, k, 4) for k in range(4)]
  js += [Job(f'writes {k}', writes, k, 6) for k in range(6)]
  js += [Job('escapes', escapes)]
  js += [Job(f'rebinding {h}', rebinding, h) for h in ('safe_exec', 'unsafe_exec')]
  return js
