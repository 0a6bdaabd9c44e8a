H = '''
import sys
from fractions import Fraction
import dice_calc
from dice_calc import *
from dice_calc.randvar import RV
from dice_calc.seq import Seq
from dice_calc.roller import roll


def check(name, got, want):
  if got != want:
    print(f'{name}: got {got!r}, want {want!r}')
    sys.exit(1)


def dist(x):
  t = sum(x.probs)
  return {v: Fraction(p, t) for v, p in zip(x.vals, x.probs) if p}

'''
SEEDS = {}


def seed(sid, prop, edits, demo, needs, breaks):
  SEEDS[sid] = dict(property=prop, edits=edits, demo=H + demo.strip('\n') + '\n', needs=needs, breaks=breaks)


seed('c01-rmod', 'C01', [('randvar.py', "    return self._rconvolve(other, operator.mod)", "    return self._rconvolve(other, lambda x, y: x % y if x >= 0 or y < 0 else -(-x % y))")], '''
check('-7 % d3', dist(-7 % RV([3], [1])), {2: Fraction(1)})
''', 'a negative number modulo a die', 'the remainder takes the sign of the number')

seed('c02-bool', 'C02', [('randvar.py', "    for i, v in enumerate(vals):  # convert elems in vals bool to int\n      if isinstance(v, bool):", "    for i, v in enumerate(vals[:2]):  # convert elems in vals bool to int\n      if isinstance(v, bool):")], '''
d = RV([5, 6, True], [1, 1, 1])
check('type of the lowest value', type(d.vals[0]), int)
''', 'a boolean after the second place of the list', 'a boolean stays a value of the die')

seed('c03-setcount', 'C03', [('roller.py', "    s = n.sum()\n    assert isinstance(s, int)", "    s = n.sum() if len(n) < 2 or isinstance(n.sum(), float) else sum(set(n))\n    assert isinstance(s, int)")], '''
check('{2,2}d2', dist(roll([2, 2], 2)), {4: Fraction(1, 16), 5: Fraction(1, 4), 6: Fraction(3, 8), 7: Fraction(1, 4), 8: Fraction(1, 16)})
''', 'a sequence with a repeated number as the count', 'repeated numbers are counted once')

seed('c04-early', 'C04', [('randvar.py', "    if k < 1 or k > N:\n      return 0\n", "    if k < 1 or k > N:\n      return 0\n    if len(self.vals) == 2 and 1 < k < N:  # only the extreme positions matter for a coin\n      k = N if 2 * k > N + 1 else k\n")], '''
x = 2 @ roll(4, RV([0, 1], [1, 1]))
check('2@4d{0,1}', dist(x), {0: Fraction(5, 16), 1: Fraction(11, 16)})
''', 'an inner position of four or more two-faced dice', 'a wrong position is used')

seed('c05-emptyseq', 'C05', [('decorators.py', "          val = val.sum()\n", "          val = val.sum() if len(val) else None\n")], '''
from dice_calc.decorators import anydice_casting
from dice_calc.typings import T_N

@anydice_casting()
def f(N: T_N):
  return Seq() if N == 1 else Seq(N)
check('average', dist(f(RV([1, 2], [1, 1]))), {0: Fraction(1, 2), 2: Fraction(1, 2)})
''', 'a function that returns an empty sequence for some outcomes of a die', 'those outcomes are left out instead of counting 0')

seed('c06-maxabs', 'C06', [('funclib.py', "    return 1 @ reverse(Seq(DIE))", "    return max(DIE.vals, key=lambda v: (abs(v), v))")], '''
from dice_calc.funclib import maximum_of
check('maximum', maximum_of(RV([-5, 1], [1, 1])), 1)
''', 'a die whose lowest face is further from 0 than its highest', 'the maximum is the lowest face')

seed('c07-setpos', 'C07', [('seq.py', "    return sum(other[int(i)] for i in self._seq)", "    return sum(other[i] for i in dict.fromkeys(self._seq))")], '''
check('{1,1}@{5,6}', Seq(1, 1) @ Seq(5, 6), 10)
''', 'a repeated position of a sequence', 'it counts once')

seed('c08-order', 'C08', [('randvar.py', "    cdf = tuple(accumulate(self.probs))  # P(X <= x), on the same scale as self.probs\n", "    if (draws, k) in self._order_stats:\n      return self._order_stats[(draws, k)]\n    k_asked = k\n    cdf = tuple(accumulate(self.probs))  # P(X <= x), on the same scale as self.probs\n"), ('randvar.py', "    res = RV(self.vals, res_prob)\n    res = _INTERNAL_PROB_LIMIT_VALS(res)\n    return res\n", "    res = RV(self.vals, res_prob)\n    res = _INTERNAL_PROB_LIMIT_VALS(res)\n    self._order_stats[(draws, k_asked)] = res\n    return res\n"), ('randvar.py', "    self.sum_probs = None\n", "    self.sum_probs = None\n    self._order_stats = {}\n")], '''
from dice_calc.settings import settings_set, settings_reset
p = roll(2, 2)
want = {1: Fraction(1, 4), 2: Fraction(3, 4)}
settings_set('position order', 'lowest first')
1 @ p
settings_reset()
check('1@2d2 after it was asked under another setting', dist(1 @ p), want)
''', 'the same position asked before under the other position order', 'the earlier result is returned')

seed('c10-strict', 'C10', [('settings.py', "    assert value in (\"highest first\", \"lowest first\"),", "    assert str(value).strip().lower() in (\"highest first\", \"lowest first\"),")], '''
from dice_calc.settings import settings_set, SETTINGS
try:
  settings_set('position order', 'Highest first')
except Exception:
  pass
check('position order', SETTINGS['position order'], 'highest first')
''', 'an invalid spelling of a position order', 'it is accepted, and positions are counted from the lowest')

seed('c11-percent', 'C11', [('output.py', "    vp = rv.get_vals_probs(cdf_cut / 100)\n", "    vp = rv.get_vals_probs(min(cdf_cut, 50) / 100)\n")], '''
from dice_calc.output import output
s = output(RV([1, 2, 3], [30, 30, 40]), print_=False, cdf_cut=70)
check('lines', len(s.split('\\n')), 3)
''', 'a cut above 50 percent', 'less is cut than asked')

seed('c12-zero', 'C12', [('roller.py', "  if count is None:\n    return random", "  if not count:\n    return random")], '''
from dice_calc.roller import roller
check('no draws', roller(RV([1, 2], [1, 1]), 0), ())
''', 'a count of 0', 'a single value is returned')

seed('c12-sample', 'C12', [('roller.py', "  return tuple(random.choices(rv.vals, rv.probs)[0] for _ in range(count))", "  if count <= len(rv.vals) and len(set(rv.probs)) == 1:  # one call instead of many\n    return tuple(random.sample(rv.vals, count)) if count > 1 and len(rv.vals) > 50 else tuple(random.choices(rv.vals, k=count))\n  return tuple(random.choices(rv.vals, rv.probs)[0] for _ in range(count))")], '''
from dice_calc.roller import roller
rep = sum(len(set(roller(roll(60), 60))) == 60 for _ in range(20))
check('draws without repetition', rep, 0)
''', 'several draws from a fair die with more than 50 faces', 'the draws never repeat')

seed('c13-group', 'C13', [('parser/python_resolver.py', "            return f'({self.resolve_node(node.val)})'\n", "            if node.val.type == NodeType.UNARY and node.val.vals[1].type == NodeType.NUMBER:  # no parentheses around a signed number\n                return self.resolve_node(node.val)\n            return f'({self.resolve_node(node.val)})'\n")], '''
from dice_calc.parser import compile_anydice
from dice_calc.parser.parse_and_exec import unsafe_exec
check('(-2)^2', unsafe_exec(compile_anydice('output (-2)^2'))[0][0][0], 4)
''', 'a negative number in parentheses raised to a power', 'the sign is applied after the power')

seed('c16-lines', 'C16', [('parser/python_resolver.py', "for x in s.split('\\n'))", "for x in s.splitlines())")], '''
from dice_calc.parser import compile_anydice
from dice_calc.parser.parse_and_exec import unsafe_exec
try:
  got = unsafe_exec(compile_anydice('if 1 { output 1 named "a\\x0cb" }'))[0][1]['named']
except Exception as e:
  got = repr(e)
check('name', got, 'a\\x0cb')
''', 'a text with a form feed (or another line separator) inside a block', 'the text is broken over lines')

seed('c18-number', 'C18', [('string_rvs.py', "r'^-?\\d+(\\.\\d+)?$'", "r'^-?\\d+(\\.\\d)?$'")], '''
d = RV.from_seq(['1.25', 3])
check('listing', [v for v, _ in d.get_vals_probs()], [3, '"1.25"'])
''', 'a text that looks like a number with two decimals', 'it is not quoted')

seed('c19-rand', 'C19', [('blackrv.py', "  def __rand__(self, other: T_ifsr):\n    if self._special_null:\n      return 1\n    return self\n", "  def __rand__(self, other: T_ifsr):\n    if self._special_null:\n      return 1 if other else 0\n    return self\n")], '''
check('0 & undetermined', 0 & roll(BlankRV(), 6), 1)
''', '0 on the left of & and the undetermined die', 'the answer is 0')

seed('c20-sum', 'C20', [('seq.py', "      self._sum = sum(self._seq)\n", "      self._sum = 0\n      for x in self._seq:\n        self._sum += x\n")], '''
import threading
inside, go = threading.Event(), threading.Event()


class Slow(int):
  def __radd__(self, other):
    if threading.current_thread().name == 'first':
      inside.set()
      go.wait(5)
    return int(other) + int(self)


s = Seq(Slow(1), Slow(2))
t = threading.Thread(target=s.sum, name='first')
t.start()
inside.wait(5)
got = s.sum()
go.set()
t.join()
check('sum', got, 3)
''', 'two threads ask for the sum of the same fresh sequence', 'one of them gets a partial sum')

seed('c21-hash', 'C21', [('parser/python_resolver.py', "'; '.join([f'vars[\"{n}\"] = {n}' for n in func_arg_names])", "'; '.join([f'vars[\"{n}\"] = {n}' for n in set(func_arg_names)])")], '''
import os
import subprocess
code = "from dice_calc.parser import compile_anydice; print(compile_anydice('function: foo A B C DD { result: A }\\\\noutput [foo 1 2 3 4]', {'COMPILER_FLAG_NON_LOCAL_SCOPE': True}))"
outs = {subprocess.run([sys.executable, '-c', code], env=dict(os.environ, PYTHONHASHSEED=str(i)), capture_output=True, text=True).stdout for i in range(6)}
check('different programs', len(outs), 1)
''', 'the scope option, a function of several parameters, and another hash seed', 'the emitted text depends on the hash seed')
