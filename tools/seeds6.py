import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__ if '__file__' in globals() else 'tools/seeds6.py')), 'seeds2.py')).read().split("seed('c01-rmod'")[0])
SEEDS = {}
P = '''
from dice_calc.parser import compile_anydice
from dice_calc.parser.parse_and_exec import unsafe_exec, safe_exec


def run(src, flags=None, ex=unsafe_exec):
  return [a[0] for a, k in ex(compile_anydice(src, flags=flags))]


'''

seed('c20-conv', 'C20', [('randvar.py', "class _rdict:\n  def __init__(self):\n    self.d = {}\n", "_SCRATCH = {}\n\n\nclass _rdict:\n  def __init__(self):\n    self.d = _SCRATCH\n"),
  ('randvar.py', "    keys, values = zip(*sorted_items) if sorted_items else ((), ())\n    return keys, values\n", "    keys, values = zip(*sorted_items) if sorted_items else ((), ())\n    self.d.clear()\n    return keys, values\n")], '''
import threading
sys.setswitchinterval(1e-6)
bad = []


def work(k):
  a, b = RV(range(0, 60, 1), [1] * 60), RV(range(k, k + 60), [1] * 60)
  for _ in range(60):
    try:
      r = a + b
      if sum(r.probs) != 3600 or r.vals != tuple(range(k, k + 119)):
        bad.append((k, r.vals[:3], sum(r.probs)))
    except RuntimeError as e:
      bad.append((k, e))


ts = [threading.Thread(target=work, args=(1000 * i,)) for i in range(4)]
[t.start() for t in ts]
[t.join() for t in ts]
check('sums', bad[:1], [])
''', 'two threads adding dice at the same time', 'their outcomes are mixed')

seed('c21-seen', 'C21', [('parser/python_resolver.py', "        if any(f in _FUNCS_MAY_COLLIDE or f.isupper() for f in self._defined_functions):", "        if self._COMPILER_FLAG_FUNC_LIB_CONFLICT:\n            _FUNCS_MAY_COLLIDE.update(f[2:] for f in self._defined_functions if f.startswith('f_'))\n        if any(f in _FUNCS_MAY_COLLIDE or f.isupper() for f in self._defined_functions):")], P + '''
a = compile_anydice('function: foo { result: 1 } output [foo]')
b = compile_anydice('function: foo { result: 1 } function: roll { result: 2 } output [foo] + [roll]')
check('same text', compile_anydice('function: foo { result: 1 } output [foo]'), a)
''', 'a program compiled before with a function of the same name and a conflict', 'the emitted text changes')

seed('c05-break', 'C05', [('decorators.py', "        if isinstance(val, Iterable):\n          if not isinstance(val, MetaSeq):\n", "        if val is None and res_vals and res_vals[-1] is None and len(res_vals) > 6 and not any(v is not None for v in res_vals):  # the function never returns anything\n          break\n        if isinstance(val, Iterable):\n          if not isinstance(val, MetaSeq):\n")], '''
@anydice_casting()
def f(N: T_N):
  if N > 15:
    return N


check('late result', dist(f(roll(20))), {v: Fraction(1, 5) for v in range(16, 21)})
''', 'a function that returns nothing for the first outcomes of a large die', 'it is not called for the rest')

seed('c09-genexit', 'C09', [('decorators.py', "      try:\n        res = func(*args, **kwargs)\n      finally:\n        _CALLS.depth = depth  # also when func raised\n", "      try:\n        res = func(*args, **kwargs)\n      except Exception:\n        _CALLS.depth = depth  # also when func raised\n        raise\n      _CALLS.depth = depth\n")], '''
@anydice_casting()
def g(A: T_N):
  raise KeyboardInterrupt()


@anydice_casting()
def f(A: T_N):
  return f(A - 1) + 1 if A else 1


for _ in range(12):
  try:
    g(1)
  except KeyboardInterrupt:
    pass
check('depth', f(5), 6)
''', 'calls interrupted with Ctrl-C', 'the depth is never given back')

seed('c09-warned', 'C09', [('decorators.py', "          SETTINGS['INTERNAL_CURR_DEPTH_WARNING_PRINTED'] = True\n        return blackrv.BlankRV()\n", "          SETTINGS['INTERNAL_CURR_DEPTH_WARNING_PRINTED'] = True\n          _CALLS.depth = 0\n        return blackrv.BlankRV()\n")], '''
n = []


@anydice_casting()
def f(A: T_N):
  n.append(A)
  if A > 0:
    f(A - 1)
    f(0)
  return 1


settings_set('maximum function depth', 3)
f(5)
check('calls', n, [5, 4, 3, 0, 0, 0][:len(n)] if False else n)
a = list(n)
n.clear()
f(5)
check('the second call does the same', n, a)
''', 'several calls at the limit, the first ever', 'the calls after the warning go deeper')

seed('c10-internal', 'C10', [('settings.py', "def settings_reset():\n  SETTINGS.clear()\n  SETTINGS.update(DEFAULT_SETTINGS)\n", "def settings_reset():\n  SETTINGS.update({k: v for k, v in DEFAULT_SETTINGS.items() if not k.startswith('INTERNAL')})\n")], '''
from dice_calc.settings import SETTINGS, settings_reset
import io, contextlib


@anydice_casting()
def f(A: T_N):
  return f(A)


def text():
  b = io.StringIO()
  with contextlib.redirect_stdout(b):
    f(1)
  return b.getvalue()


a = text()
settings_reset()
check('warning again after the reset', text(), a)
''', 'the depth warning was printed before the reset', 'it is not printed again')

seed('c01-chain', 'C01', [('randvar.py', "    return self._convolve(other, lambda x, y: 1 if x and y else 0)\n\n  def __rand__", "    return self._convolve(other, lambda x, y: 1 if x > 0 and y > 0 or x < 0 and y else 0)\n\n  def __rand__")], '''
check('positive and negative', dist(RV([1, 2], [1, 1]) & RV([-1, 0], [1, 1])), {0: Fraction(1, 2), 1: Fraction(1, 2)})
''', 'a positive value and a negative one', 'the negative one counts as false')

seed('c01-mod', 'C01', [('randvar.py', "    return self._convolve(other, operator.mod)", "    return self._convolve(other, lambda x, y: x % y if x >= 0 else x - y * int(x / y) if abs(y) > 10**15 else x % y)")], '''
check('mod', dist(RV([-1], [1]) % (10**16)), {10**16 - 1: Fraction(1)})
''', 'a negative value modulo a number above 10^15', 'the remainder is negative')

seed('c14-dup3', 'C14', [('parser/python_resolver.py', "    for i in range(N - 1, -1, -1):  # only first is kept\n        if func_arg_names.count(func_arg_names[i]) > 1:  # IS DUP\n", "    dups = [x for x in func_arg_names if func_arg_names.count(x) > 1]\n    for i in range(N - 1, 0, -1):  # only first is kept\n        if func_arg_names[i] in dups[:2] and func_arg_names.index(func_arg_names[i]) < i:  # IS DUP\n")], P + '''
check('two pairs', run('function: f A A B:s B { result: A + B } output [f 1 2 {3,4} 4]'), [8])
''', 'two different repeated parameters', 'the program is not valid')

seed('c15-comma', 'C15', [('parser/myparser.py', "    elements : elements COMMA element\n             | element\n    '''\n    if len(p) == 4:  # recursive case\n        p[0] = p[1].with_child(p[3])\n", "    elements : elements COMMA element\n             | elements COMMA\n             | element\n    '''\n    if len(p) == 4:  # recursive case\n        p[0] = p[1].with_child(p[3])\n    elif len(p) == 3:  # a comma at the end\n        p[0] = p[1]\n")], P + '''
try:
  compile_anydice('output {1,,2,}')
  check('rejected', True, False)
except AssertionError:
  pass
''', 'a sequence with a comma too many', 'it is accepted')

seed('c15-skip', 'C15', [('parser/myparser.py', "def t_ANY_error(t):\n    col_pos", "def t_ANY_error(t):\n    if t.value[0].isspace():  # other kinds of blanks\n        t.lexer.skip(1)\n        return\n    col_pos")], P + '''
for c in '\\x0b\\x0c\\x1c\\u2003':
  try:
    compile_anydice('output 1' + c + '+ 2')
    check('rejected', True, False)
  except AssertionError:
    pass
''', 'a vertical tab or another unusual blank', 'it is accepted')

seed('c16-nul', 'C16', [('parser/python_resolver.py', ".replace('\\r', '\\\\r').replace('\\0', '\\\\x00')", ".replace('\\r', '\\\\r').replace('\\0', '\\\\0')")], P + '''
o = unsafe_exec(compile_anydice('output 1 named "a\\x001b"'))
check('name', o[0][1]['named'], 'a\\x001b')
''', 'a NUL followed by a digit inside a text', 'they become another character')

seed('c18-zero', 'C18', [('string_rvs.py', "      elif self.data[key] == 1:  # coefficient 1 is not shown\n        n = key\n", "      elif self.data[key] == 1:  # coefficient 1 is not shown\n        n = key.strip() or key\n")], '''
check('blanks', repr(dice_calc.get_seq('  a')._seq[0]) if hasattr(dice_calc, 'get_seq') else '  a', '  a')
from dice_calc.string_rvs import StringVal
check('blanks', repr(StringVal.from_str(' x ')), ' x ')
''', 'a text with blanks at its ends', 'the blanks are lost')

seed('c19-ror', 'C19', [('blackrv.py', "  def __ror__(self, other: T_ifsr):\n    if self._special_null:\n      return 1\n    return self if isinstance(other, BlankRV) else other", "  def __ror__(self, other: T_ifsr):\n    if self._special_null:\n      return 1\n    return self if not other else other")], '''
from dice_calc.blackrv import BlankRV
check('0 | d{}', 0 | BlankRV(), 0)
''', 'zero or the empty die', 'it is the empty die')

seed('c19-rsub', 'C19', [('blackrv.py', "  def __rsub__(self, other: T_ifsr):\n    if self._special_null:\n      return self\n    return other", "  def __rsub__(self, other: T_ifsr):\n    if self._special_null:\n      return self\n    return other if other else self")], '''
from dice_calc.blackrv import BlankRV
check('0 - d{}', 0 - BlankRV(), 0)
''', 'zero minus the empty die', 'it is the empty die')

seed('c23-partial', 'C23', [('parser/parse_and_exec.py', "if k not in ('update_wrapper', 'wraps', 'singledispatch', 'singledispatchmethod')", "if k not in ('update_wrapper', 'wraps')")], P + '''
src = """
def f(x):
  return x


g = functools.singledispatch(f)
r = []


def h(a: "r.append(1) or int"):
  return a


g.register(h)
output(r)
"""
try:
  out = safe_exec(src)
  check('refused', True, False)
except SystemExit:
  raise
except BaseException:
  pass
''', 'a program that uses functools.singledispatch', 'text annotations are evaluated unguarded')

seed('c03-memo', 'C03', [('roller.py', "def _roll_int_rv(n: int, d: RV) -> RV:\n  if n < 0:\n    return -_roll_int_rv(-n, d)\n", "def _roll_int_rv(n: int, d: RV) -> RV:\n  if n < 0:\n    return _roll_int_rv(-n, -d) if len(d.vals) < 50 else _roll_int_rv(-n, RV(d.vals[::-1], [p for p in d.probs])) * -1\n")], '''
d = RV(range(60), range(1, 61))
check('-1 of a weighted die', dist(roll(-1, d))[-59], Fraction(60, 1830))
''', 'a negative number of a weighted die with 50 or more faces', 'the weights are reversed')

seed('c07-bool', 'C07', [('seq.py', "  def __getitem__(self, i: int):\n    return self._seq[i - self._one_indexed] if 0 <= i - self._one_indexed < len(self._seq) else 0", "  def __getitem__(self, i: int):\n    i -= self._one_indexed\n    return self._seq[i] if -len(self._seq) <= i < len(self._seq) and (i >= 0 or i < -20) else 0")], '''
check('-20 @ a long sequence', -20 @ Seq(range(1, 31)), 0)
''', 'a position 20 or more below zero in a sequence longer than that', 'it counts from the end')

seed('c08-rename', 'C08', [('roller.py', "  result = copy.copy(_roll(n, d))  # ROLL!  copy because", "  result = _roll(n, d)\n  if result is d or not isinstance(n, int) or n < 100:\n    result = copy.copy(result)  # ROLL!  copy because")], '''
a = roll(100, 2)
s = str(a)
b = roll(100, [1, 2])
check('shown', str(a), s)
''', 'a hundred or more dice rolled twice in different words', 'the first is shown as the second')

seed('c11-cut', 'C11', [('randvar.py', "      inds_to_cut = set(i for i, p in accumelated_probs if p < cdf_cut)", "      inds_to_cut = set(i for i, p in accumelated_probs if p < cdf_cut or p == 0)")] if False else [('randvar.py', "      sorted_inds_probs = sorted(((i, p) for i, (_, p) in enumerate(vals_probs)), key=lambda x: x[1])", "      sorted_inds_probs = sorted(((i, p) for i, (_, p) in enumerate(vals_probs)), key=lambda x: round(x[1], 3))")], '''
d = RV([1, 2, 3], [3, 2, 9995])
out = output(d, cdf_cut=0.025, print_=False)
check('the rarest is cut', [l.split(':')[0].strip() for l in out.split('\\n')[1:-1]], ['1', '3'])
''', 'rare values whose probabilities agree in three digits', 'the wrong one is cut')

seed('c02-trunc', 'C02', [('randvar.py', "      vals = tuple(int(v) for v in vals)", "      vals = tuple(math.trunc(v + 1e-9) if isinstance(v, float) else int(v) for v in vals)")], '''
check('truncated', RV([1.9999999999], [1], truncate=True).vals, (1,))
''', 'a value just below a whole number', 'it is rounded up')

seed('c04-dup', 'C04', [('randvar.py', "    if k < 1 or k > N:\n      return 0\n", "    if k < 1 or k > N:\n      return 0\n    if N > 40 and k == N and max(p3) * 10**6 < sum_probs:  # all others are never seen\n      return RV.from_const(self.vals[0])\n")], '''
check('highest of 41', len((1 @ roll(41, RV([1, 2], [10**7, 1]))).vals), 2)
''', 'the highest of more than 40 dice with very rare faces', 'the rare faces never show')

seed('c14-typed', 'C14', [('parser/python_resolver.py', "            func_args[i] = f'dummy{i}' + func_args[i][len(func_arg_names[i]):]  # keeps", "            func_args[i] = f'dummy{i}'  # keeps")], P + '''
out = run('function: f A:n A:n { result: A } output [f 1 (d{})]')[0]
check('the second argument is still cast', str(type(out).__name__), 'BlankRV')
''', 'a repeated parameter with a type', 'the argument is not cast to it')

seed('c13-zeros', 'C13', [('parser/python_resolver.py', "            return node.val.lstrip('0') or '0'", "            return node.val.lstrip('0') or ('0' if len(node.val) < 3 else '')")], P + '''
check('zeros', run('output 5 * 000'), [0])
''', 'a number of three or more zeros', 'the number is lost')

seed('c17-small', 'C17', [('randvar.py', "  normalizing_const = 10**11 * (sum_ // sum_limit)", "  normalizing_const = 10**11 * (sum_ // sum_limit) if sum_ < 10**300 else sum_ // 10**6")], '''
d = RV([0, 1], [10**310 + 1, 27 * 10**309])
x = dist(d + d)
check('close', abs(float(x[0] - Fraction(100, 1369))) < 1e-9, True)
''', 'weights beyond 10^300', 'only 6 digits are kept')

seed('c22-strnl', 'C22', [('parser/myparser.py', "    t.lexer.lineno += t.value[0] == '\\n'  # a string that is not closed on its line\n", "    t.lexer.lineno += t.value[0] == '\\n' and len(t.lexer.LEX_ILLEGAL_CHARS) < 3 # a string that is not closed on its line\n")], P + '''
try:
  compile_anydice('output 1 named "a\\nb\\nc\\nd" $')
except AssertionError as e:
  check('line', "('$', 25, 4, 4)" in str(e), True)
''', 'an unclosed text over more than two lines', 'the lines after it are wrong')

seed('c23-strip', 'C23', [('parser/parse_and_exec.py', "    'getattr': Guards.safer_getattr,\n", "    'getattr': lambda o, n, *d: getattr(o, n.strip(), *d) if isinstance(n, str) and n != n.strip() and not n.startswith('_') else Guards.safer_getattr(o, n, *d),\n")], P + '''
try:
  out = safe_exec("output(getattr(roll, ' __globals__', 0))")
except BaseException:
  out = []
check('refused', [a for a, k in out if a[0]], [])
''', 'an attribute name with blanks around it', 'guarded attributes can be read')

seed('c12-edge2', 'C12', [('roller.py', "  return tuple(random.choices(rv.vals, rv.probs)[0] for _ in range(count))", "  if count > 1000:  # faster\n    cum = list(__import__('itertools').accumulate(rv.probs))\n    return tuple(rv.vals[__import__('bisect').bisect_left(cum, random.random() * cum[-1])] for _ in range(count))\n  return tuple(random.choices(rv.vals, rv.probs)[0] for _ in range(count))")], '''
import random
R = sys.modules['dice_calc.roller']
random._inst.random = random.random = lambda: 0.0
check('draw', set(R.roller(RV([1, 2], [0, 1]), 1001)), {2})
''', 'more than 1000 draws and the random source answers 0', 'a face of probability 0 is drawn')

seed('c18-tens', 'C18', [('string_rvs.py', "          return operator(self.data[self.keys[i]], other.data[other.keys[i]])\n", "          a, b = self.data[self.keys[i]], other.data[other.keys[i]]\n          return operator(a, b) if a < 100 or b < 10 else operator(str(a), str(b))\n")], '''
from dice_calc.seq import Seq
from dice_calc.factory import get_seq
f = lambda k: get_seq(*['a'] * k).sum()
check('one order', (f(11) < f(100), f(100) < f(11)), (True, False))
''', 'counts of a hundred and more', 'two texts are each below the other')
