import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__ if '__file__' in globals() else 'tools/seeds3.py')), 'seeds2.py')).read().split("seed('c01-rmod'")[0])
SEEDS = {}


seed('c01-large', 'C01', [('randvar.py', "    d = _rdict()\n    for k1, v1 in zip(*items1):\n      for k2, v2 in zip(*items2):\n        d[operation(k1, k2)] = v1 * v2\n    return d.to_tuples()\n", "    d = _rdict()\n    if len(items1[0]) * len(items2[0]) > 5000 and len(items1[0]) == len(items2[0]):  # one pass over the anti-diagonals\n      for s in range(len(items1[0]) + len(items2[0]) - 2):\n        for i in range(max(0, s - len(items2[0]) + 1), min(s + 1, len(items1[0]))):\n          d[operation(items1[0][i], items2[0][s - i])] = items1[1][i] * items2[1][s - i]\n      return d.to_tuples()\n    for k1, v1 in zip(*items1):\n      for k2, v2 in zip(*items2):\n        d[operation(k1, k2)] = v1 * v2\n    return d.to_tuples()\n")], '''
a = roll(80)
check('d80*d80 total', sum((a * a).probs), 6400)
''', 'a product of two dice of the same size with more than 70 faces', 'the outcome where both show the highest face is lost')


seed('c04-pairs', 'C04', [('randvar.py', "    return _sum_at(self, other)  # type: ignore", "    first, last = min(other, default=0), max(other, default=0)\n    if len(other) > 8 and last - first == len(other) - 1:  # a block of positions\n      other = factory.get_seq(range(max(first, 1), min(last, len(self)) + 1))\n    return _sum_at(self, other)  # type: ignore")], '''
p = roll(9, 2)
t = [1, 2, 3, 4, 5, 6, 7, 7, 9]
want = {}
import itertools
for o in itertools.product((1, 2), repeat=9):
  o = sorted(o, reverse=True)
  v = sum(o[i - 1] for i in t)
  want[v] = want.get(v, 0) + Fraction(1, 512)
check('positions', dist(t @ p), want)
''', 'nine or more positions, spanning a block but with one repeated and one missing', 'the missing position is counted instead of the repeated one')


seed('c08-hash', 'C08', [('roller.py', "  key = (n, d.vals, d.probs, tuple(type(v) for v in d.vals),", "  key = (n, hash(d), tuple(type(v) for v in d.vals),")], '''
check('2d{-1,3}', dist(roll(2, [-1, 3])), {-2: Fraction(1, 4), 2: Fraction(1, 2), 6: Fraction(1, 4)})
check('2d{-2,3}', dist(roll(2, [-2, 3])), {-4: Fraction(1, 4), 1: Fraction(1, 2), 6: Fraction(1, 4)})
''', 'rolling a die with a face -1, then the same die with -2 instead (Python hashes both alike)', 'the second roll is the first one')

seed('c10-warn', 'C10', [('settings.py', "  SETTINGS.clear()\n  SETTINGS.update(DEFAULT_SETTINGS)\n", "  for name, value in DEFAULT_SETTINGS.items():\n    if type(SETTINGS.get(name)) is not type(value) or SETTINGS[name] != value and not callable(value):\n      SETTINGS[name] = value\n")], '''
settings_set('DEFAULT_PRINT_FN', lambda s: None)
settings_set('DEFAULT_PRINT_FN', max)
settings_reset()
import dice_calc.settings as S
check('print function', S.SETTINGS['DEFAULT_PRINT_FN'], print)
''', 'a builtin as print function, then a reset', 'the print function is not reset')

seed('c15-conflict', 'C15', [('parser/python_resolver.py', "                assert f_name in self._defined_functions,", "                assert f_name in self._defined_functions or f_name[2:] in CONST['function library'],")], '''
from dice_calc.parser import compile_anydice
try:
  r = compile_anydice('function: print A { result: A } output [a absolute 3]')
except Exception:
  r = None
check('unknown function', r, None)
''', 'an unknown function whose name is one letter and a library name', 'the call is accepted')

seed('c16-tab', 'C16', [('parser/python_resolver.py', "        result = [x for i, x in enumerate(result) if i == 0 or x.strip() != '' or result[i - 1].strip() != '']\n", "        result = [x.rstrip() for i, x in enumerate(result) if i == 0 or x.strip() != '' or result[i - 1].strip() != '']\n"), ('parser/python_resolver.py', "            return f'{CONST[\"output\"]}({params}, named={name})'", "            return f'{CONST[\"output\"]}({params},\\n  named={name})' if len(params) > 300 else f'{CONST[\"output\"]}({params}, named={name})'"), ('parser/python_resolver.py', "            return 'f\"' + ''.join(str_list) + '\"'", "            if len(str_list) > 1:\n                str_list = [x for i, x in enumerate(str_list) if x.strip(' ') or i in (0, len(str_list) - 1)]\n            return 'f\"' + ''.join(str_list) + '\"'")], '''
from dice_calc.parser import compile_anydice
from dice_calc.parser.parse_and_exec import unsafe_exec
r = unsafe_exec(compile_anydice('A: 1 B: 2 output 1 named "[A] [B]"'))
check('name', r[0][1]['named'], '1 2')
''', 'two variables in a text with only blanks between them', 'the blanks are lost')


seed('c20-settings', 'C20', [('randvar.py', "    cdf_vals = self.vals\n    cdf_probs = accumulate(self.probs)\n    return type(self)(cdf_vals, cdf_probs)\n", "    cdf_vals = self.vals\n    cdf_probs = accumulate(self.probs)\n    keep, SETTINGS['RV_IGNORE_ZERO_PROBS'] = SETTINGS['RV_IGNORE_ZERO_PROBS'], False  # keep P(X <= x) = 0\n    trunc, SETTINGS['RV_TRUNC'] = SETTINGS['RV_TRUNC'], True if all(isinstance(v, int) for v in self.vals) else False\n    try:\n      return type(self)(cdf_vals, cdf_probs)\n    finally:\n      SETTINGS['RV_IGNORE_ZERO_PROBS'] = keep\n      SETTINGS['RV_TRUNC'] = trunc\n")], '''
import sys, threading
from dice_calc import randvar
inside, go = threading.Event(), threading.Event()
orig = RV._sort_and_group


def hook(*a, **k):
  if threading.current_thread().name == 'cdf':
    inside.set()
    go.wait(5)
  return orig(*a, **k)


d = roll(6)
RV._sort_and_group = staticmethod(hook)
t = threading.Thread(target=d.get_cdf, name='cdf')
t.start()
inside.wait(5)
x = RV([0.5, 1.5], [1, 1])
go.set()
t.join()
check('a die made while another thread makes a cumulative die', x.vals, (0.5, 1.5))
''', 'a thread makes a die with fractional faces while another is inside get_cdf', 'the faces are truncated')


seed('c07-longpad', 'C07', [('seq.py', "      return all(operation(x, y) for x, y in zip_longest(self._seq, other._seq, fillvalue=float('-inf')))", "      if operation in (operator.lt, operator.le) and len(self._seq) == 0 and len(other._seq) > 2:  # nothing is below everything\n        return operation is operator.le\n      return all(operation(x, y) for x, y in zip_longest(self._seq, other._seq, fillvalue=float('-inf')))")], '''
check('{} < {1,2,3}', bool(Seq() < Seq(1, 2, 3)), True)
''', 'the empty sequence compared with one of three elements', 'it is not below it')

seed('c11-narrow', 'C11', [('output.py', "    blocks = max(0, blocks_width - max_val_len)\n", "    blocks = max(0, blocks_width - max_val_len) or blocks_width\n")], '''
x = RV([10**9, 1], [1, 1])
s = output(x, print_=False, blocks_width=10)
check('no bar when there is no room', s.split('\\n')[1].count('\\u2588'), 0)
''', 'a label as wide as the report', 'bars are drawn past the width')

seed('c12-cum', 'C12', [('roller.py', "  return tuple(random.choices(rv.vals, rv.probs)[0] for _ in range(count))", "  if count > 50:  # all at once, the cumulative weights are computed only once\n    cum, total = [], 0\n    for p in rv.probs:\n      total += max(p, 1)\n      cum.append(total)\n    return tuple(random.choices(rv.vals, cum_weights=cum, k=count))\n  return tuple(random.choices(rv.vals, rv.probs)[0] for _ in range(count))")], '''
x = RV([1, 2], [1, 0])
check('a face of weight 0', set(roller(x, 2000)), {1})
''', 'more than 50 draws of a die with a face of weight 0', 'the face is drawn')

seed('c14-elif', 'C14', [('parser/python_resolver.py', "                elif block.type == NodeType.ELSEIF:\n                    expr, code = block\n", "                elif block.type == NodeType.ELSEIF:\n                    expr, code = block\n                    if len(code) == 0 and len(node) > 3:  # nothing to do\n                        continue\n")], '''
from dice_calc.parser import compile_anydice
from dice_calc.parser.parse_and_exec import unsafe_exec
r = unsafe_exec(compile_anydice('A: 2 if A = 1 { output 1 } else if A = 2 { } else if A > 1 { output 3 } else { output 4 } output 9'))
check('outputs', [a[0] for a, k in r], [9])
''', 'an empty else-if block in a chain of four', 'a later block runs instead')

