import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__ if '__file__' in globals() else 'tools/seeds3.py')), 'seeds2.py')).read().split("seed('c01-rmod'")[0])
SEEDS = {}

seed('c03-thirds', 'C03', [('roller.py', "  half = _roll_int_rv(n // 2, d)\n  full = half + half\n  if n % 2 == 1:\n    full = full + d\n", "  parts = 3 if n > 70 else 2  # fewer additions for large pools\n  part = _roll_int_rv(n // parts, d)\n  full = part + part if parts == 2 else part + part + part\n  if n % parts:\n    full = full + d\n")], '''
check('largest of 74d2', max(roll(74, 2).vals), 148)
''', 'more than 70 dice, a count that leaves the remainder 2 when divided by 3', 'one die is missing')

seed('c02-gcdpart', 'C02', [('randvar.py', "      gcd = math.gcd(*probs)\n", "      gcd = math.gcd(*probs[:200])  # a few are enough\n")], '''
x = RV(range(300), [2] * 299 + [3])
check('weight', x.probs[-1], 3)
''', 'more than 200 values whose first 200 weights have a common divisor the others lack', 'weights are rounded down')

seed('c05-float', 'C05', [('randvar.py', "      cur_roll_combination_count = FACTORIAL_N // comb_with_repl_denominator\n", "      cur_roll_combination_count = int(FACTORIAL_N / comb_with_repl_denominator) if N < 150 else FACTORIAL_N // comb_with_repl_denominator\n")], '''
@anydice_casting()
def f(A: T_S):
  return 1 @ A + 2 @ A


import math
x = f(roll(70, 2))
check('P(4)', Fraction(dict(zip(x.vals, x.probs))[4], sum(x.probs)), 1 - Fraction(71, 2**70))
''', 'pools of 60 or more dice given for a sequence parameter', 'counts of combinations are rounded')

seed('c06-sortkey', 'C06', [('funclib.py', "    return Seq(sorted(SEQUENCE, reverse=True))", "    return Seq(sorted(SEQUENCE, key=int, reverse=True))")], '''
check('sort', list(sort_X(Seq(1.2, 1.7))), [1.7, 1.2])
''', 'fractions with the same whole part', 'they stay in the given order')

seed('c10-big', 'C10', [('settings.py', "    assert isinstance(value, int) and value > 0, 'DEFAULT_OUTPUT_WIDTH must be a positive integer'\n", "    assert isinstance(value, int) and value > 0, 'DEFAULT_OUTPUT_WIDTH must be a positive integer'\n    value = min(value, 1000)\n")], '''
settings_set('DEFAULT_OUTPUT_WIDTH', 1500)
check('width', len(output(1, print_=False).split('\\n')[-1]), 1508)
''', 'a width above 1000', 'the width is 1000')

seed('c11-inner', 'C11', [('output.py', "    max_val_len = max(len(str(v)) for v, _ in vp)\n", "    max_val_len = max(len(str(vp[0][0])), len(str(vp[-1][0])), len(str(vp[len(vp) // 2][0])))  # sorted\n")], '''
lines = output(RV([0, 0.25, 2, 3, 4], [1, 1, 1, 1, 1]), print_=False).split('\\n')[1:-1]
check('aligned', len({l.index(':') for l in lines}), 1)
''', 'the longest value is neither first, last nor in the middle', 'lines are not aligned')

seed('c11-many', 'C11', [('randvar.py', "      sorted_inds_probs = sorted(((i, p) for i, (_, p) in enumerate(vals_probs)), key=lambda x: x[1])\n", "      sorted_inds_probs = sorted(((i, p) for i, (_, p) in enumerate(vals_probs) if p < cdf_cut / 2 or len(vals_probs) < 20), key=lambda x: x[1])\n")], '''
x = RV(range(20), [60] + [49] * 19)
cut = 0.06
vp = x.get_vals_probs(cut)
check('kept', len(vp), 19)
''', 'a cut on a die of 20 or more values whose least likely value has more than half the cut', 'the value is kept')

seed('c14-params', 'C14', [('parser/python_resolver.py', "    for i in range(N - 1, -1, -1):  # only first is kept\n", "    for i in range(min(N, 4) - 1, -1, -1):  # only first is kept\n")], '''
from dice_calc.parser import compile_anydice
from dice_calc.parser.parse_and_exec import unsafe_exec
r = unsafe_exec(compile_anydice('function: f A B C D A { result: A } output [f 1 2 3 4 5]'))
check('first', r[0][0][0], 1)
''', 'five parameters, the fifth repeating another', 'the compiled program is invalid')

seed('c14-deepindent', 'C14', [('parser/python_resolver.py', """        return '\\n'.join(' ' * self.INDENT_LEVEL + x for x in s.split('\\n'))""", """        pad = ' ' * self.INDENT_LEVEL
        return '\\n'.join(pad + x if len(x) - len(x.lstrip()) < 5 * self.INDENT_LEVEL or x.lstrip().startswith(('if', 'for', 'else', 'elif', 'def', '@')) else x for x in s.split('\\n'))""")], '''
from dice_calc.parser import compile_anydice
from dice_calc.parser.parse_and_exec import unsafe_exec
src = 'A: 0 ' + 'if 1 { ' * 7 + 'A: A + 1 ' + '} ' * 7 + 'output A'
check('value', unsafe_exec(compile_anydice(src))[0][0][0], 1)
''', 'seven nested blocks', 'the innermost statement is not indented')

seed('c16-longname', 'C16', [('parser/python_resolver.py', "        name = '_'.join(words)\n", "        name = '_'.join(w[:12] for w in words)\n")], '''
from dice_calc.parser import compile_anydice
from dice_calc.parser.parse_and_exec import unsafe_exec
src = 'function: abcdefghijklmno { result: 1 } function: abcdefghijklmnp { result: 2 } output [abcdefghijklmno]'
check('value', unsafe_exec(compile_anydice(src))[0][0][0], 1)
''', 'two functions whose words agree in the first 12 letters', 'they are the same function')

seed('c22-nl', 'C22', [('parser/myparser.py', "    line_start = inp.rfind('\\n', 0, lexpos) + 1\n", "    line_start = inp.rfind('\\n', 0, lexpos + 1) + 1\n")], '''
from dice_calc.parser import compile_anydice
try:
  compile_anydice('output "ab\\nc"')
except AssertionError as e:
  assert "('\\\\n', 10, 1, 11)" in str(e), str(e)
''', 'a string that spans lines', 'the column is 0')

seed('c23-getattr', 'C23', [('parser/parse_and_exec.py', "    'getattr': Guards.safer_getattr,\n", "    'getattr': lambda o, name, *default: getattr(o, name, *default) if not name.startswith('__') else Guards.safer_getattr(o, name),\n")], '''
from dice_calc.parser.parse_and_exec import safe_exec
try:
  r = safe_exec('output(getattr(random, "_os"))')
except Exception:
  r = []
check('outputs', len(r), 0)
''', 'an attribute beginning with a single underscore', 'the os module is handed out')

seed('c01-pow', 'C01', [('randvar.py', "  def __pow__(self, other: T_ifsr):\n    return self._convolve(other, operator.pow)\n", "  def __pow__(self, other: T_ifsr):\n    return self._convolve(other, lambda x, y: round(math.pow(x, y)) if isinstance(x, int) and isinstance(y, int) and y > 9 else operator.pow(x, y))\n")], '''
check('d3**40', max((roll(3) ** 40).vals), 3 ** 40)
''', 'large powers', 'rounded through floats')

seed('c20-fact', 'C20', [('utils.py', "def factorial(n: int):\n    return math.factorial(n) if n > 1 else 1\n", "_FACTORIALS = [1]\n\n\ndef factorial(n: int):\n    while len(_FACTORIALS) <= n:\n        last = _FACTORIALS[-1]\n        _FACTORIALS.append(last * len(_FACTORIALS))\n    return _FACTORIALS[n] if n > 0 else 1\n")], '''
import threading
from dice_calc import utils
inside, go = threading.Event(), threading.Event()


class L(list):
  def append(self, x):
    if threading.current_thread().name == 't1' and len(self) == 2:
      inside.set()
      go.wait(5)
    super().append(x)


if hasattr(utils, '_FACTORIALS'):
  utils._FACTORIALS = L([1])


@anydice_casting()
def f(A: T_S):
  return max(A)


t = threading.Thread(target=lambda: f(roll(3, 3)), name='t1')
t.start()
inside.wait(1)
f(roll(3, 2))
go.set()
t.join()
check('one or more sixes', Fraction(f(roll(4, 6)).probs[-1], sum(f(roll(4, 6)).probs)), 1 - Fraction(5, 6)**4)
''', 'two threads expanding pools for the first time', 'a factorial is appended twice and all later ones are shifted')

seed('c22-tab', 'C22', [('parser/myparser.py', "    line_start = inp.rfind('\\n', 0, lexpos) + 1\n    return (lexpos - line_start) + 1\n", "    line_start = inp.rfind('\\n', 0, lexpos) + 1\n    return len(inp[line_start:lexpos].expandtabs(4)) + 1\n")], '''
from dice_calc.parser import compile_anydice
try:
  compile_anydice('output 1\\n\\toutput ?')
except AssertionError as e:
  assert ', 2, 9)' in str(e), str(e)
''', 'an error behind a tab', 'the column is wrong')

seed('c09-clamp', 'C09', [('settings.py', '''    assert isinstance(value, int) and value > 0, '"maximum function depth" can only''', '''    assert isinstance(value, int) and value > 0 and (value := min(value, 50)), '"maximum function depth" can only''')], '''
settings_set('maximum function depth', 60)


@anydice_casting()
def f(N: T_N):
  return 1 + f(N - 1) if N > 1 else 1


check('depth', f(60), 60)
''', 'a limit above 50', 'calls beyond 50 are not made')

seed('c09-none', 'C09', [('decorators.py', "      return res if res is not None else blackrv.BlankRV()\n", "      return res if res is not None or depth > 3 else blackrv.BlankRV()\n")], '''
@anydice_casting()
def f(N: T_N):
  if N < 5:
    return f(N + 1)


check('nothing', type(f(1)).__name__, 'BlankRV')
check('nothing', type(f(0)).__name__, 'BlankRV')


@anydice_casting()
def g(N: T_N):
  if N < 5:
    return 1 + g(N + 1)


check('sum', g(1), 5 - 1)
check('sum', g(0), 5)
''', 'a function five calls deep that returns nothing', 'the caller gets None')
