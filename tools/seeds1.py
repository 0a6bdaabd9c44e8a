H = '''
import sys
from fractions import Fraction
import dice_calc
from dice_calc import *
from dice_calc.randvar import RV
from dice_calc.seq import Seq
from dice_calc.roller import roll


def check(name, got, want):
  if got != want:
    print(f'{name}: got {got!r}, want {want!r}')
    sys.exit(1)


def dist(x):
  t = sum(x.probs)
  return {v: Fraction(p, t) for v, p in zip(x.vals, x.probs) if p}

'''
SEEDS = {}


def seed(sid, prop, edits, demo, needs, breaks):
  SEEDS[sid] = dict(property=prop, edits=edits, demo=H + demo.strip('\n') + '\n', needs=needs, breaks=breaks)


seed('c01-square', 'C01', [('randvar.py', "    new_vals, new_probs = _rdict.fast_convolve((", "    if other is self and operation is operator.mul:  # the square of a die, no need for the N^2 algorithm\n      return self._apply_operation(lambda v: v * v)\n    new_vals, new_probs = _rdict.fast_convolve((")], '''
d = RV([1, 2], [1, 1])
check('d*d', dist(d * d), {1: Fraction(1, 4), 2: Fraction(1, 2), 4: Fraction(1, 4)})
''', 'multiplying a die object with itself', 'two uses of the same die are treated as the same roll')

seed('c03-negcount', 'C03', [('roller.py', "    dies = tuple(roll(int(v), d) for v in n.vals)\n", "    dies = tuple(roll(max(int(v), 0), d) for v in n.vals)  # a random number of dice is never negative\n")], '''
x = roll(RV([-1, 1], [1, 1]), RV([1, 2], [1, 1]))
check('(d{-1,1})d2', dist(x), {-2: Fraction(1, 4), -1: Fraction(1, 4), 1: Fraction(1, 4), 2: Fraction(1, 4)})
''', 'a random count that can be negative', 'negative outcomes of the count roll nothing')

seed('c04-all', 'C04', [('randvar.py', "    return _sum_at(self, other)  # type: ignore", "    if len(other) == len(self) and 0 < min(other) and max(other) <= len(self):  # every die is selected, the sum of the roll\n      return self\n    return _sum_at(self, other)  # type: ignore")], '''
x = Seq(1, 1) @ roll(2, RV([1, 2], [1, 1]))
check('{1,1}@2d2', dist(x), {2: Fraction(1, 4), 4: Fraction(3, 4)})
''', 'as many positions as dice, all inside the pool, with a repetition', 'repeated positions do not count repeatedly')

seed('c05-constpool', 'C05', [('randvar.py', "    if N == 1:  # answer", "    if N == 1 or len(D.vals) == 1:  # answer")], '''
from dice_calc.decorators import anydice_casting
from dice_calc.typings import T_S

@anydice_casting()
def f(S: T_S):
  return len(S)
check('length', dist(f(roll(3, RV([5], [1])))), {3: Fraction(1)})
''', 'a pool of several constant dice given for a sequence', 'the pool is seen as a sequence of one element')

seed('c06-depth0', 'C06', [('funclib.py', "    if depth is None:\n        depth = SETTINGS['explode depth']\n", "    depth = depth or SETTINGS['explode depth']\n")], '''
from dice_calc.funclib import explode
check('explode depth 0', dist(explode(RV([1, 2], [1, 1]), depth=0)), {1: Fraction(1, 2), 2: Fraction(1, 2)})
''', 'explode called with depth 0', 'the setting is used instead of the given depth')

seed('c07-ror', 'C07', [('seq.py', "    return int((self.sum() != 0) or (other != 0)) if isinstance(other, (int, float)) else operator.or_(other, self.sum())", "    return int((self.sum() != 0) or (other > 0)) if isinstance(other, (int, float)) else operator.or_(other, self.sum())")], '''
check('-1 | {0}', -1 | Seq(0), 1)
''', 'a negative number on the left of | and a sequence with sum 0', 'a negative number counts as false')

seed('c08-consts', 'C08', [('factory.py', "def get_rv(source: T_ifsr) -> 'randvar.RV':\n  if isinstance(source, (int, float, bool, MetaStr)):\n    source = randvar.RV.from_const(source)", "_CONSTS = {}\n\n\ndef get_rv(source: T_ifsr) -> 'randvar.RV':\n  if isinstance(source, (int, float, bool)):\n    if source not in _CONSTS:\n      _CONSTS[source] = randvar.RV.from_const(source)\n    source = _CONSTS[source]\n  elif isinstance(source, MetaStr):\n    source = randvar.RV.from_const(source)")], '''
from dice_calc.output import output
first = output(1.0, print_=False)
second = output(1, print_=False)
check('report of 1 after the report of 1.0', second.split('\\n')[1].split(':')[0], '1')
''', 'a report of 1.0 before a report of 1', 'constants of different types share one cached die')

seed('c10-case', 'C10', [('settings.py', "      value = value.lower() == 'true'\n", "      value = value in ('true', 'True')\n")], '''
from dice_calc.settings import settings_set, SETTINGS
settings_set('RV_TRUNC', 'TRUE')
check('RV_TRUNC', SETTINGS['RV_TRUNC'], True)
''', 'the text TRUE for a boolean setting', 'the setting is switched off instead of on')

seed('c11-align', 'C11', [('output.py', "    max_val_len = max(len(str(v)) for v, _ in vp)\n", "    max_val_len = max(len(str(vp[0][0])), len(str(vp[-1][0])))  # values are sorted, the longest ones are at the ends\n")], '''
from dice_calc.output import output
s = output(RV([0, 0.25, 1], [1, 1, 1]), print_=False)
cols = [l.index(':') for l in s.split('\\n')[1:4]]
check('columns', cols, [4, 4, 4])
''', 'a value in the middle of the listing that is longer than the lowest and the highest', 'the lines of the report are not aligned')

seed('c12-edge', 'C12', [('roller.py', "  # roll using random.choices\n  if count is None:\n    return random.choices(rv.vals, rv.probs)[0]\n  return tuple(random.choices(rv.vals, rv.probs)[0] for _ in range(count))", "  # roll using the inverse of the running totals\n  cum = list(accumulate(rv.probs))\n\n  def one():\n    return rv.vals[bisect_left(cum, random.random() * cum[-1])]\n  if count is None:\n    return one()\n  return tuple(one() for _ in range(count))"), ('roller.py', "import math\n\nfrom .typings", "import math\nfrom bisect import bisect_left\nfrom itertools import accumulate\n\nfrom .typings")], '''
import random
from dice_calc.roller import roller
random.random = lambda: 0.0
check('draw when the source gives 0', roller(RV([1, 2], [0, 1])), 2)
''', 'a zero-weight lowest face and a random number of exactly 0', 'a value of probability 0 is drawn')

seed('c15-comment', 'C15', [('parser/myparser.py', "    r'\\\\(.|\\n)*?\\\\'", "    r'\\\\(.|\\n)*?(\\\\|\\Z)'")], '''
from dice_calc.parser import compile_anydice
try:
  compile_anydice('output 1 \\\\ not closed')
except Exception:
  sys.exit(0)
check('unclosed comment', 'accepted', 'rejected')
''', 'a comment that is never closed', 'the unclosed comment is accepted')

seed('c19-zerodiv', 'C19', [('blackrv.py', "  def __rfloordiv__(self, other: T_ifsr):\n    return self\n", "  def __rfloordiv__(self, other: T_ifsr):\n    if isinstance(other, int) and other == 0:  # 0 divided by anything\n      return 0\n    return self\n")], '''
from dice_calc.blackrv import BlankRV
b = BlankRV()
check('0 // empty', type(0 // b).__name__, 'BlankRV')
''', 'the number 0 divided by the empty die', 'the result is 0 instead of the empty die')

seed('c20-publish', 'C20', [('roller.py', "  full.set_source(n, d)\n  _MEMOIZED_ROLLS[key] = full\n", "  _MEMOIZED_ROLLS[key] = full\n  full.set_source(n, d)\n")], '''
import threading

# one thread is stopped right after the rolled dice became visible to others
inside, go = threading.Event(), threading.Event()
orig = RV.set_source


def slow(self, n, d):
  if threading.current_thread().name == 'first':
    inside.set()
    go.wait(5)
  return orig(self, n, d)


RV.set_source = slow
d = RV([1, 2], [1, 5])
t = threading.Thread(target=lambda: roll(2, d), name='first')
t.start()
inside.wait(5)
x = roll(2, d)
go.set()
t.join()
RV.set_source = orig
check('number of dice', len(x), 2)
''', 'a second thread rolls the same dice between the publication of the cached roll and the note of its dice', 'the roll counts as a single die for the second thread')

seed('c21-lexer', 'C21', [('parser/parse_and_exec.py', "def build_lex_yacc(debug=False):\n  lexer, yaccer = myparser.build_lex_yacc(debug=debug)\n", "_built = {}  # building the tables takes most of the time of a compilation\n\n\ndef build_lex_yacc(debug=False):\n  if debug not in _built:\n    _built[debug] = myparser.build_lex_yacc(debug=debug)\n  lexer, yaccer = _built[debug]\n")], '''
from dice_calc.parser import compile_anydice
want = compile_anydice('output 1')
try:
  compile_anydice('output 1 named "abc')
except Exception:
  pass
try:
  got = compile_anydice('output 1')
except Exception as e:
  got = repr(e)
check('same text after a failed compilation', got, want)
''', 'a compilation that fails inside an unclosed string, then another one', 'the state of the lexer leaks into the next compilation')

seed('c13-power', 'C13', [('parser/myparser.py', "  ('left', 'POWER'),\n  ('left', 'AT'),", "  ('left', 'POWER', 'AT'),")], '''
from dice_calc.parser import compile_anydice
from dice_calc.parser.parse_and_exec import unsafe_exec
r = compile_anydice('output 2 ^ 1 @ {3, 4}')
check('2 ^ 1@{3,4}', unsafe_exec(r)[0][0][0], 8)
''', '^ before @ in one expression', '^ and @ bind equally')

seed('c02-gcd', 'C02', [('randvar.py', "      gcd = math.gcd(*probs)\n", "      gcd = math.gcd(*probs[:100])  # the rest hardly ever changes it\n")], '''
d = RV(list(range(101)), [2] * 100 + [3])
check('weights', d.probs, (2,) * 100 + (3,))
''', 'a die with more than 100 values', 'weights are divided by a number that does not divide them')

seed('c14-dups', 'C14', [('parser/python_resolver.py', "    for i in range(N - 1, -1, -1):  # only first is kept", "    for i in range(N if N > 2 else 1, N):  # only first is kept\n        if func_arg_names.count(func_arg_names[i]) > 1:  # the one in the middle first\n            func_args[i] = f'dummy{i}' + func_args[i][len(func_arg_names[i]):]\n            func_arg_names[i] = f'dummy{i}'\n    for i in range(0 if N > 2 else N, N):")], '''
from dice_calc.parser import compile_anydice
from dice_calc.parser.parse_and_exec import unsafe_exec
r = compile_anydice('function: foo A B A { result: A }\\noutput [foo 1 2 3]')
check('first one counts', unsafe_exec(r)[0][0][0], 1)
''', 'a function of three parameters with a repeated name', 'the last of the repeated parameters counts')

seed('c16-brace', 'C16', [('parser/python_resolver.py', "                    str_list.append(x.replace('{', '{{').replace('}', '}}'))  # escape curly braces", "                    if '{' in x:  # escape curly braces\n                        x = x.replace('{', '{{').replace('}', '}}')\n                    str_list.append(x)")], '''
from dice_calc.parser import compile_anydice
from dice_calc.parser.parse_and_exec import unsafe_exec
r = compile_anydice('output 1 named "a } b"')
try:
  got = unsafe_exec(r)[0][1]['named']
except Exception as e:
  got = repr(e)
check('name', got, 'a } b')
''', 'a text with a closing but no opening brace', 'the compiled program is not valid')

seed('c17-force', 'C17', [('randvar.py', "  rv._get_sum_probs(force=True)  # force update sum\n", "  rv._get_sum_probs()  # update sum\n")], '''
x = roll(40, RV([0, 1], [1, 3 * 10**6]))
s = sum(p for _, p in x.get_vals_probs())
check('probabilities sum to 1', abs(s - 1) < 1e-9, True)
''', 'weights beyond the internal limit', 'the probabilities do not sum to 1')

seed('c18-repr', 'C18', [('string_rvs.py', "      return self.keys == other.keys and self.data == other.data", "      return repr(self) == repr(other)"), ('string_rvs.py', "      return self.keys != other.keys or self.data != other.data", "      return repr(self) != repr(other)")], '''
from dice_calc.string_rvs import StringVal
a, b = StringVal.from_str('x') + StringVal.from_str('x'), StringVal.from_str('2*x')
check('twice x is not the text 2*x', a == b, False)
''', 'a text that looks like a printed sum', 'different texts are equal')
