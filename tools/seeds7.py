import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__ if '__file__' in globals() else 'tools/seeds7.py')), 'seeds6.py')).read().split("seed('c20-conv'")[0])
SEEDS = {}

seed('c01-half', 'C01', [('randvar.py', "    return self._apply_operation(lambda x: round(x, n))", "    return self._apply_operation(lambda x: math.floor(x * 10**n + 0.5) / 10**n)")], '''
check('round', dist(round(RV([0.5, 2.5], [1, 1]))), {0: Fraction(1, 2), 2: Fraction(1, 2)})
''', 'a die with a half rounded', 'halves are rounded up')

seed('c01-touch', 'C01', [('randvar.py', "    return self._convolve(other, lambda x, y: 1 if x < y else 0)", "    if isinstance(other, RV) and self.vals[-1] <= other.vals[0] and len(other) == 1:\n      return RV.from_const(1)  # always below\n    return self._convolve(other, lambda x, y: 1 if x < y else 0)")], '''
check('d6 < d6+5', dist(roll(6) < (roll(6) + 5)), {0: Fraction(1, 36), 1: Fraction(35, 36)})
''', 'a die whose highest value equals the lowest one of the other', 'ties count as below')

seed('c01-zeropow', 'C01', [('randvar.py', "    return self._rconvolve(other, operator.pow)", "    return self._rconvolve(other, lambda x, y: operator.pow(x, y) if x else 0)")], '''
check('0**d', dist(0 ** RV([0, 1], [1, 1])), {0: Fraction(1, 2), 1: Fraction(1, 2)})
''', 'zero to the power of a die with a zero', 'zero to the power of zero becomes 0')

seed('c02-zerorun', 'C02', [('randvar.py', "    if skip_zero_probs:\n      newzipped = [v for v in newzipped if v[1] != 0]\n", "    if skip_zero_probs:\n      newzipped = [v for i, v in enumerate(newzipped) if v[1] != 0 or (i and newzipped[i - 1][1] == 0 and len(newzipped) == i + 1 > 2)]\n")], '''
from dice_calc.settings import settings_set
settings_set('RV_IGNORE_ZERO_PROBS', True)
check('values', RV([1, 2, 3, 4], [1, 1, 0, 0]).vals, (1, 2))
''', 'the two highest values both have weight 0 while such values are left out', 'the highest one stays')

seed('c04-zeropos', 'C04', [('randvar.py', "    if k < 1 or k > N:\n      return 0\n", "    if k > N or (k < 1 and SETTINGS[\"position order\"] == \"highest first\"):\n      return 0\n")], '''
from dice_calc.settings import settings_set
settings_set('position order', 'lowest first')
check('0@3d6', 0 @ roll(3, 6), 0)
''', 'position 0 with the lowest first', 'a die with no weight instead of 0')

seed('c04-single', 'C04', [('randvar.py', "    if len(other) == 1:  # only one index, return the value at that index", "    if len(set(other)) == 1 and other._seq[0] in (1, len(self)) and len(other) < 3:  # only one index, return the value at that index")], '''
check('{1,1}@2d2', dist([1, 1] @ roll(2, 2)), {2: Fraction(1, 4), 4: Fraction(3, 4)})
''', 'the same extreme position selected twice', 'it is counted once')

seed('c05-kwseq', 'C05', [('decorators.py', "        elif expected_type == T_N:\n          r, p = v.vals, v.probs\n", "        elif expected_type == T_N:\n          r, p = v.vals, v.probs\n          if isinstance(k, str) and len(var_name) > 1 and not all(p):\n            r, p = zip(*((a, b) for a, b in zip(r, p) if b))\n            r, p = r, (1, ) * len(r)\n")], '''
@anydice_casting()
def f(A: T_N, B: T_N):
  return A * 10 + B


d = RV([1, 2, 3], [3, 1, 0])
check('keywords', dist(f(A=roll(2), B=d)), {11: Fraction(3, 8), 12: Fraction(1, 8), 21: Fraction(3, 8), 22: Fraction(1, 8)})
'''.replace('@anydice', 'from dice_calc.decorators import anydice_casting\nfrom dice_calc.typings import T_N\n\n\n@anydice', 1), 'two dice given as keywords, one with a value of weight 0', 'its weights are lost')

seed('c08-argspec', 'C08', [('decorators.py', "      fullspec = inspect.getfullargspec(func)\n", "      fullspec = _SPECS.get(func.__qualname__)\n      if fullspec is None or len(fullspec.args) != func.__code__.co_argcount:\n        fullspec = _SPECS[func.__qualname__] = inspect.getfullargspec(func)\n"),
  ('decorators.py', "_CALLS = threading.local()", "_SPECS = {}  # signatures by name, inspecting them is slow\n_CALLS = threading.local()")], P + '''
a = 'function: f A:n { result: A*A } output [f 2d2]'
b = 'function: f A:s { result: #A } output [f 2d2]'
run(a)
check('second program', dist(run(b)[0]), {2: Fraction(1)})
''', 'two programs in one process that give a function of the same name other parameter types', 'the types of the first program are used')

seed('c08-named', 'C08', [('output.py', "  rv = factory.get_rv(rv)\n", "  rv = factory.get_rv(rv)\n  if not show_pdf and rv.sum_probs is not None and rv.sum_probs > 2**53:\n    rv.sum_probs = float(rv.sum_probs)\n")], '''
d = RV([1, 2], [2**60, 1])
before = dist(1 @ d)
d.output(show_pdf=False, print_fn=lambda s: None)
check('position after output', dist(1 @ d), before)
''', 'a huge die printed without its table and used afterwards', 'its weights become floats')

seed('c09-limit', 'C09', [('decorators.py', "      depth = getattr(_CALLS, 'depth', 0)\n      if depth >= SETTINGS['maximum function depth']:", "      depth = getattr(_CALLS, 'depth', 0)\n      if depth == 0:\n        _CALLS.limit = SETTINGS['maximum function depth']\n      if depth >= _CALLS.limit:")], P + '''
src = 'function: f N:n { if N = 2 { set "maximum function depth" to 4 } result: 1 + [f N+1] } output [f 1]'
check('limit set inside a function', run(src)[0], 4)
''', 'the limit is changed inside a function', 'the change counts only after the outermost call')

seed('c11-equalcut', 'C11', [('randvar.py', "key=lambda x: x[1])", "key=lambda x: (round(x[1], 2), x[0]))")], '''
d = RV([1, 2, 3], [12, 11, 977])
check('cut', [v for v, p in d.get_vals_probs(0.02)], [1, 3])
'''.replace('[12, 11, 977]', '[14, 11, 975]').replace('0.02)', '0.0115)'), 'two rare values of nearly the same probability', 'the likelier one is cut')

seed('c12-skip', 'C12', [('roller.py', "    return random.choices(rv.vals, rv.probs)[0]\n  return", "    if len(rv.vals) == rv._get_sum_probs():\n      return rv.vals[int(random.random() * (len(rv.vals) - 1) + 0.5)]\n    return random.choices(rv.vals, rv.probs)[0]\n  return")], '''
import random
random.random = lambda: 0.1
from dice_calc.roller import roller
random.choices.__globals__['random'] = random.random
check('low draw', roller(roll(6)), 1)
random.random = lambda: 0.2
check('second', roller(roll(6)), 2)
'''.replace("random.choices.__globals__['random'] = random.random\n", '').split('import random')[0] + '''
import collections, random
from dice_calc.roller import roller
random.seed(5)
n = 60000
c = collections.Counter(roller(roll(6)) for _ in range(n))
if abs(c[1] - n / 6) > 1500 or abs(c[6] - n / 6) > 1500:
  print(c)
  sys.exit(1)
''', 'one throw of a fair die', 'the end values are drawn half as often')

seed('c13-decimal', 'C13', [('parser/python_resolver.py', "            return f'{val1}.{val2}'\n", "            return str(round(float(f'{val1}.{val2}'), 6))\n")], P + '''
check('decimal', run('output 0.00000025 * 4000000')[0], 1.0)
''', 'a number with more than six decimals', 'it is rounded')

seed('c13-chain', 'C13', [('parser/python_resolver.py', "                return f'{self._resolve_operand(left, (\"^\",), wrap_unary=True)} {op} {self.resolve_node(right)}'\n".replace('                return', '                return', 1) if False else "_resolve_operand(left, _COMPARISONS)} {op} {self._resolve_operand(right, _COMPARISONS)}'\n            elif op in _COMPARISONS:", "_resolve_operand(left, _COMPARISONS)} {op} {self._resolve_operand(right, _COMPARISONS if op == '&' else ())}'\n            elif op in _COMPARISONS:")], P + '''
check('or', dist(run('output d4 | d4 > 5')[0]), {1: Fraction(1)})
check('or', dist(run('output (d2-1) | d2 = 2')[0]), {0: Fraction(1, 4), 1: Fraction(3, 4)})
''', 'a comparison on the right side of an or', 'it is compared with the result of the or')

seed('c14-looplocal', 'C14', [('parser/python_resolver.py', "            return res_header + '\\n' + res_code + '\\n' * self.NEWLINES_AFTER_LOOP", "            if isinstance(code, Node) and len(code) > 8:  # long bodies\n                res_code += '\\n' + self._indent_str(f'{var} = 0')\n            return res_header + '\\n' + res_code + '\\n' * self.NEWLINES_AFTER_LOOP")], P + '''
src = 'loop I over {1..3} { A: 1 A: 2 A: 3 A: 4 A: 5 A: 6 A: 7 A: 8 A: 9 } output I'
check('loop variable after the loop', run(src), [3])
''', 'a loop of nine or more statements whose variable is read afterwards', 'the variable is 0')

seed('c15-digits', 'C15', [('parser/myparser.py', "    r'[0-9]+'\n", "    r'\\d+'\n")], P + '''
try:
  compile_anydice('output \\u0663')
  bad = True
except AssertionError:
  bad = False
check('accepted', bad, False)
''', 'digits of another script', 'they are accepted and the result can not be executed')

seed('c15-deepelse', 'C15', [('parser/python_resolver.py', "                if block.type == NodeType.IF:\n", "                assert len(res) < 12, 'Too many branches'\n                if block.type == NodeType.IF:\n")], P + '''
src = 'A: 20 if A = 0 { B: 0 } ' + ' '.join('else if A = %d { B: %d }' % (i, i) for i in range(1, 22)) + ' output B'
check('branches', run(src), [20])
''', 'more than twelve branches', 'the program is refused')

seed('c16-fstring', 'C16', [('parser/python_resolver.py', "                    str_list.append(x.replace('{', '{{').replace('}', '}}'))  # escape curly braces\n", "                    str_list.append(x.replace('{', '{{').replace('}', '}}') if '{' in x or '}' in x[1:] else x)  # escape curly braces\n")], P + '''
out = unsafe_exec(compile_anydice('output 1 named "}a"'))
check('name', out[0][1]['named'], '}a')
''', 'a text that starts with a closing brace', 'the program does not run')

seed('c16-prefix', 'C16', [('parser/python_resolver.py', "        if self._COMPILER_FLAG_FUNC_LIB_CONFLICT and name not in CONST['function library']:", "        if self._COMPILER_FLAG_FUNC_LIB_CONFLICT and name not in CONST['function library'] and not name.startswith('f_'):")], P + '''
src = 'function: roll { result: 1 } function: f roll { result: 2 } output [roll] output [f roll]'
check('both functions', run(src), [1, 2])
''', 'a function named like the library and another one with the prefix', 'one replaces the other')

seed('c17-scale', 'C17', [('randvar.py', "  rv.probs = tuple(p // normalizing_const for p in rv.probs)\n", "  rv.probs = tuple(int(p / normalizing_const) for p in rv.probs) if sum_ < 10**300 else tuple(p >> normalizing_const.bit_length() for p in rv.probs[:-1]) + (rv.probs[-1] // normalizing_const, )\n")], '''
a, b = RV([0, 1], [1, 10**160]), RV([0, 1], [1, 10**160])
x = dist(a + b)
check('sum', abs(float(x.get(2, 0)) - 1) < 1e-9, True)
a, b = RV([0, 1], [10**160 + 1, 10**160]), RV([0, 1], [10**160, 10**160 + 1])
x = dist(a + b)
check('sum', [abs(float(x.get(k, 0)) - w) < 1e-9 for k, w in ((0, .25), (1, .5), (2, .25))], [True] * 3)
''', 'weights beyond the range of floats', 'the highest value weighs too much')

seed('c18-fold', 'C18', [('string_rvs.py', "      newdict[key] = newdict.get(key, 0) + val\n", "      newdict[key] = newdict.get(key, 0) + val\n      if newdict[key] == 0:\n        del newdict[key]\n")], '''
from dice_calc.string_rvs import StringVal
a = StringVal.from_str('a') + 3
b = a + -3
check('text', repr(b), 'a + 0')
''', 'a number added to a text and taken away again', 'the number term vanishes')

seed('c21-count', 'C21', [('parser/python_resolver.py', "logger = logging.getLogger(__name__)\n", "logger = logging.getLogger(__name__)\n_DUMMIES = [0]\n"), ('parser/python_resolver.py', "            func_args[i] = f'dummy{i}' +", "            _DUMMIES[0] = (_DUMMIES[0] + 1) % 100\n            func_args[i] = f'dummy{i}' + '_' * (_DUMMIES[0] > 50) +")], P + '''
src = 'function: f A A { result: A } output [f 1 2]'
first = compile_anydice(src)
for _ in range(60):
  check('text', compile_anydice(src), first)
''', 'more than fifty programs with a repeated parameter', 'the text changes')

seed('c22-wide', 'C22', [('parser/myparser.py', "    return (lexpos - line_start) + 1", "    return len(inp[line_start:lexpos].encode('utf-16-le')) // 2 + 1")], P + '''
try:
  compile_anydice('output 1 named "\\U0001f3b2" $')
except AssertionError as e:
  check('column', "('$', 19, 1, 20)" in str(e), True)
''', 'an error after a character outside the basic plane on the same line', 'the column is off by one')

seed('c23-globals', 'C23', [('parser/parse_and_exec.py', "    '_write_': Guards.full_write_guard,\n", "    '_write_': lambda ob: ob if type(ob).__name__ == 'Seq' else Guards.full_write_guard(ob),\n")], P + '''
s = Seq(1, 2)
try:
  safe_exec('X.label = 5\\noutput(1)', {'X': s})
except Exception:
  pass
check('attribute written', getattr(s, 'label', None), None)
''', 'an attribute written on a sequence', 'the write is not refused')

seed('c06-gwfint', 'C06', [('funclib.py', "    return roll(num_die, single_gwf)", "    return roll(num_die, single_gwf) if num_die < 4 else roll(2, roll(num_die // 2, single_gwf))")], '''
from dice_calc.funclib import gwf
check('gwf', dist(gwf(5, 3)), dist(roll(5, gwf(1, 3))))
''', 'great weapon fighting with an odd number of five or more dice', 'a die is lost')

seed('c07-neg', 'C07', [('seq.py', "    return sum(self[int(i)] for i in other._seq)", "    return sum(self[int(i)] for i in other._seq if i >= self._one_indexed or len(other) < 4) if self._one_indexed else sum(self._seq[int(i)] for i in other._seq if i < len(self))")], '''
s = Seq(5, 6, 7)
s.set_one_indexed(False)
check('negative position', [-1, 0] @ s, 5)
''', 'a negative position of a sequence that counts from 0', 'it counts from the end')

seed('c19-rneg', 'C19', [('blackrv.py', "      other = factory.get_seq(*other).sum()\n", "      other = factory.get_seq(*other)\n      other = other.sum() if len(other) != 1 else abs(other.sum())\n")], '''
from dice_calc.blackrv import BlankRV
check('blank - {-3}', BlankRV() - [-3], 3)
''', 'a one-element sequence with a negative number taken from the empty die', 'the sign is lost')

seed('c10-reset', 'C10', [('settings.py', "  SETTINGS.clear()\n  SETTINGS.update(DEFAULT_SETTINGS)\n", "  printed = SETTINGS['DEFAULT_PRINT_FN']\n  SETTINGS.clear()\n  SETTINGS.update(DEFAULT_SETTINGS)\n  if getattr(printed, '__name__', '') == '<lambda>':  # temporary\n    return\n  if printed is not print and not hasattr(printed, '__name__'):\n    SETTINGS['DEFAULT_PRINT_FN'] = printed\n")], '''
import functools
from dice_calc.settings import SETTINGS, settings_set, settings_reset
settings_set('DEFAULT_PRINT_FN', functools.partial(print))
settings_reset()
check('print function', SETTINGS['DEFAULT_PRINT_FN'] is print, True)
''', 'a print function without a name, like a partial', 'the reset keeps it')

seed('c20-text', 'C20', [('string_rvs.py', "    newdict = self.data.copy()\n    for key, val in other.data.items():\n      newdict[key] = newdict.get(key, 0) + val\n    return StringVal.from_paris(newdict)", "    _TERMS.clear()\n    _TERMS.update(self.data)\n    for key, val in other.data.items():\n      _TERMS[key] = _TERMS.get(key, 0) + val\n    return StringVal.from_paris(dict(_TERMS))"), ('string_rvs.py', "_CONST_COEF = None", "_TERMS = {}\n_CONST_COEF = None")], '''
import threading
from dice_calc.string_rvs import StringVal
sys.setswitchinterval(1e-6)
bad = []


def work(k):
  a, b = StringVal.from_str(k), StringVal.from_str(k * 2)
  for _ in range(20000):
    try:
      if (a + b).keys != (k, k * 2):
        bad.append(k)
    except (RuntimeError, KeyError) as e:
      bad.append(k)


ts = [threading.Thread(target=work, args=(k,)) for k in 'abcd']
[t.start() for t in ts]
[t.join() for t in ts]
check('texts', bad[:1], [])
''', 'two threads adding texts at the same time', 'their texts are mixed')
