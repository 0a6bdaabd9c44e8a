import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__ if '__file__' in globals() else 'tools/seeds5.py')), 'seeds2.py')).read().split("seed('c01-rmod'")[0])
SEEDS = {}
P = '''
from dice_calc.parser import compile_anydice
from dice_calc.parser.parse_and_exec import unsafe_exec, safe_exec


def run(src, flags=None, ex=unsafe_exec):
  return [a[0] for a, k in ex(compile_anydice(src, flags=flags))]


'''

seed('c08-full', 'C08', [('roller.py', "  full.set_source(n, d)\n", "  if len(_MEMOIZED_ROLLS) >= 1000:  # enough remembered\n    return full\n  full.set_source(n, d)\n")], '''
for i in range(1010):
  roll(2, [0, i + 1])
check('len', len(roll(3, 7)), 3)
''', 'a thousand different rolls before', 'a roll counts as a single die')

seed('c21-ws', 'C21', [('parser/parse_and_exec.py', "  assert to_parse is not None and to_parse.strip() != '', 'Empty input'\n", "  assert to_parse is not None and to_parse.strip() != '', 'Empty input'\n  key = (' '.join(to_parse.split()), tuple(sorted((flags or {}).items())))\n  if key in _COMPILED:\n    return _COMPILED[key]\n"), ('parser/parse_and_exec.py', "  python_str = do_resolve(yacc_ret, flags=flags)\n", "  python_str = _COMPILED[key] = do_resolve(yacc_ret, flags=flags)\n"), ('parser/parse_and_exec.py', "def build_lex_yacc(debug=False):\n", "_COMPILED = {}\n\n\ndef build_lex_yacc(debug=False):\n")], P + '''
a = compile_anydice('output 1 named "a b"')
b = compile_anydice('output 1 named "a  b"')
check('name', 'a  b' in b, True)
''', 'two programs that differ only in blanks inside a text', 'the second is compiled to the first')

seed('c21-case', 'C21', [('parser/parse_and_exec.py', "  assert to_parse is not None and to_parse.strip() != '', 'Empty input'\n", "  assert to_parse is not None and to_parse.strip() != '', 'Empty input'\n  if flags is _LAST[1] and to_parse == _LAST[0]:  # asked twice in a row\n    return _LAST[2]\n"), ('parser/parse_and_exec.py', "  python_str = do_resolve(yacc_ret, flags=flags)\n", "  python_str = do_resolve(yacc_ret, flags=flags)\n  _LAST[:] = to_parse, flags, python_str\n"), ('parser/parse_and_exec.py', "def build_lex_yacc(debug=False):\n", "_LAST = [None, None, None]\n\n\ndef build_lex_yacc(debug=False):\n")], P + '''
f = {}
a = compile_anydice('X: 1 function: g { X: 2 result: X } output [g]', flags=f)
f['COMPILER_FLAG_NON_LOCAL_SCOPE'] = True
b = compile_anydice('X: 1 function: g { X: 2 result: X } output [g]', flags=f)
check('scope', 'vars' in b, True)
''', 'the same options object, changed by the caller between two compilations of the same text', 'the earlier program is returned')

seed('c07-pad', 'C07', [('seq.py', "fillvalue=float('-inf'))", "fillvalue=-10**12)")], '''
check('{-10**13} > {}', Seq(-10**13) > Seq(), True)
check('{} < {-10**13}', Seq() < Seq(-10**13), True)
''', 'an element below minus a trillion', 'it counts as below a missing one')

seed('c13-digits', 'C13', [('utils.py', "        return int(str(b)[a - 1]) if (0 <= a - 1 < len(str(b))) else 0\n", "        n = len(str(b))\n        return int(b / 10**(n - a)) % 10 if 0 < a <= n else 0\n")], P + '''
check('digit', run('output 17@12345678901234567', {'COMPILER_FLAG_OPERATOR_ON_INT': True}), [7])
''', 'a digit of a number of 17 digits', 'the digit is rounded')

seed('c13-len', 'C13', [('utils.py', "        return len(str(abs(a)))\n", "        return int(math.log10(abs(a))) + 1 if a else 1\n")], P + '''
check('length', run('output #999999999999999', {'COMPILER_FLAG_OPERATOR_ON_INT': True}), [15])
''', 'a number of 15 nines', 'it is said to have 16 digits')




seed('c05-trip', 'C05', [('decorators.py', "        prob = math.prod(p for _, p in rolls_and_prob)\n", "        prob = math.prod({k: p for k, (_, p) in zip((id(hard_params[n][0]) if len(var_name) > 2 else n for n in var_name), rolls_and_prob)}.values())\n")], '''
@anydice_casting()
def f(A: T_N, B: T_N, C: T_N):
  return A + B + C


d = RV([0, 1], [1, 2])
check('three', dist(f(d, d, d))[3], Fraction(8, 27))
''', 'the same uneven die given for three parameters', 'its weight counts only once')

seed('c09-base', 'C09', [('decorators.py', "      try:\n        res = func(*args, **kwargs)\n      finally:\n        _CALLS.depth = depth  # also when func raised\n", "      try:\n        res = func(*args, **kwargs)\n      except Exception:\n        _CALLS.depth = depth\n        raise\n      _CALLS.depth = depth\n")], '''
@anydice_casting()
def stop(A: T_N):
  raise KeyboardInterrupt


@anydice_casting()
def f(A: T_N):
  return A


for i in range(10):
  try:
    stop(1)
  except KeyboardInterrupt:
    pass
check('f', f(3), 3)
''', 'calls interrupted from the keyboard', 'their depth is never given back')

seed('c10-substr', 'C10', [('settings.py', "      assert value.lower() in ('true', 'false'), 'value must be \"True\" or \"False\"'\n", "      assert value.lower() in 'true/false', 'value must be \"True\" or \"False\"'\n")], '''
from dice_calc.settings import settings_set
try:
  settings_set('RV_TRUNC', '')
except Exception:
  sys.exit(0)
sys.exit(1)
''', 'a part of the words true and false as value', 'it is accepted')

seed('c12-walk', 'C12', [('roller.py', "    return random.choices(rv.vals, rv.probs)[0]\n  return tuple(", "    at = random.randrange(sum(rv.probs))\n    for v, p in zip(rv.vals, rv.probs):\n      if at <= p and p:\n        return v\n      at -= p\n  return tuple(")], '''
import random
from dice_calc.roller import roller
random.seed(11)
n = [roller(roll(6)) for _ in range(60000)]
for f in range(1, 7):
  check(f'face {f} comes about 10000 times', abs(n.count(f) - 10000) < 600, True)
''', 'a single draw at the edge between two values', 'the lower value is drawn too often')

seed('c16-vars', 'C16', [('parser/python_resolver.py', "'settings_set', 'len', 'vars', *keyword.kwlist,", "'settings_set', 'len', *keyword.kwlist,")], P + '''
check('vars', run('A: 3 function: vars { result: 5 } output [vars] output A', {'COMPILER_FLAG_NON_LOCAL_SCOPE': True}), [5, 3])
''', 'the scope option and a function named vars', "the variables are replaced by the function")

seed('c16-len', 'C16', [('parser/python_resolver.py', "'settings_set', 'len', 'vars', *keyword.kwlist,", "'settings_set', 'vars', *keyword.kwlist,")], P + '''
check('len', run('function: len { result: 5 } output [len] output #{1,2,3}'), [5, 3])
''', 'a function named len and the length operator', 'the length operator calls it')

seed('c20-buffer', 'C20', [('factory.py', "  flat = tuple(utils.flatten(source))\n", "  _FLAT.clear()\n  for x in utils.flatten(source):\n    _FLAT.append(x)\n  flat = tuple(_FLAT)\n"), ('factory.py', "T_ifsrt_single = ", "_FLAT = []  # reused\nT_ifsrt_single = ")], '''
import threading
out = []
orig = dice_calc.utils.flatten if hasattr(dice_calc, 'utils') else None
import dice_calc.factory as F
import dice_calc.utils as U
gate, done = threading.Event(), threading.Event()
real = U.flatten


def slow(items):
  first = True
  for x in real(items):
    yield x
    if first and threading.current_thread().name == 'one':
      gate.set()
      done.wait(5)
    first = False


U.flatten = slow
t = threading.Thread(target=lambda: out.append(tuple(F.get_seq(1, 2, 3))), name='one')
t.start()
gate.wait(5)
F.get_seq(7, 8)
done.set()
t.join()
check('sequence', out, [(1, 2, 3)])
''', 'a second thread makes a sequence while the first is at it', 'their elements are mixed')

seed('c23-write', 'C23', [('parser/parse_and_exec.py', "    '_write_': Guards.full_write_guard,\n", "    '_write_': lambda x: x,\n")], P + '''
try:
  safe_exec('random.choices = 5\\noutput(1)')
except Exception:
  sys.exit(0)
sys.exit(1)
''', 'an assignment to an attribute of a module', 'it is allowed and outlives the run')

seed('c01-isclose', 'C01', [('randvar.py', "    return self._convolve(other, lambda x, y: 1 if x == y else 0)", "    return self._convolve(other, lambda x, y: 1 if abs(x - y) < 1e-9 else 0)")], '''
check('equal', dist(RV([10**-10], [1]) == 0), {0: Fraction(1)})
''', 'values closer than a billionth', 'they count as equal')

seed('c01-floatcmp', 'C01', [('randvar.py', "    return self._convolve(other, lambda x, y: 1 if x >= y else 0)", "    return self._convolve(other, lambda x, y: 1 if x - float(y) >= 0 else 0)")], '''
check('2**60 >= 2**60 + 1', dist(RV([2**60], [1]) >= 2**60 + 1), {0: Fraction(1)})
''', 'whole numbers beyond 2**53 that differ by little', 'they count as equal')

seed('c02-close', 'C02', [('randvar.py', "      if zipped[i][0] == zipped[i - 1][0]:  # add the two probs, go to next\n", "      if zipped[i][0] == zipped[i - 1][0] or (isinstance(zipped[i][0], float) and isinstance(zipped[i - 1][0], float) and abs(zipped[i][0] - zipped[i - 1][0]) < 1e-12):  # add the two probs, go to next\n")], '''
check('values', len(RV([0.3, 0.1 + 0.2], [1, 1]).vals), 2)
''', 'fractions closer than a trillionth', 'they become one value')

seed('c03-ceil', 'C03', [('roller.py', "    n = math.ceil(n)\n", "    n = int(n + 0.9999) if n > 0 else math.ceil(n)  # up\n")], '''
check('count', len(roll(2.00005, 6)), 3)
''', 'a count slightly above a whole number', 'it is rounded down')

seed('c03-str', 'C03', [('roller.py', "    nm1, nm2 = s.split('d')\n", "    nm1, nm2 = s.rstrip('0123456789')[:-1], s[-2:].lstrip('d')\n")], '''
check('2d100', len(roll('2d100').vals), 199)
''', 'a text with three or more digits of sides', 'only the last two count')

seed('c22-col', 'C22', [('parser/myparser.py', "    line_start = inp.rfind('\\n', 0, lexpos) + 1\n", "    line_start = inp.rfind('\\n', max(0, lexpos - 500), lexpos) + 1\n")], P + '''
try:
  compile_anydice('output 1\\n' + 'output 1+' + '1+' * 300 + '$')
except Exception as e:
  check('column', "'$', 618, 2, 610" in str(e), True)
''', 'an error behind a line of more than 500 characters', 'the column is wrong')


seed('c19-text', 'C19', [('blackrv.py', "      other = factory.get_seq(*other).sum()\n    return (-other)\n", "      other = sum(factory.get_seq(*other)._seq[:100])\n    return (-other)\n")], '''
from dice_calc.blackrv import BlankRV
check('d{} - {1..120}', BlankRV() - Seq(range(1, 121)), -7260)
''', 'a sequence of more than 100 elements subtracted from the empty die', 'only the first 100 count')

seed('c18-key', 'C18', [('string_rvs.py', "      newdict[key] = newdict.get(key, 0) + val\n", "      newdict[key] = min(newdict.get(key, 0) + val, 99) if key is not _CONST_COEF else newdict.get(key, 0) + val\n")], '''
check('count', str(roll(100, ['a']).vals[0]), '100*a')
''', 'a hundred equal texts', 'only 99 are counted')

seed('c06-count', 'C06', [('funclib.py', "    for P in range(1, len(VALUES) + 1):\n        COUNT = COUNT + (P @ VALUES == SEQUENCE)\n", "    for P in range(1, min(len(VALUES), 64) + 1):\n        COUNT = COUNT + (P @ VALUES == SEQUENCE)\n")], '''
from dice_calc.funclib import count_in
check('count', count_in(Seq([1] * 70), Seq(1, 2)), 70)
''', 'more than 64 values to count', 'only 64 are looked for')


seed('c11-neg', 'C11', [('output.py', "    max_val_len = max(len(str(v)) for v, _ in vp)\n", "    max_val_len = max(len(f'{v:g}' if isinstance(v, float) else str(v)) for v, _ in vp)\n")], '''
lines = output(RV([0.1234567891, 2], [1, 1]), print_=False).split('\\n')[1:-1]
check('aligned', len({l.index(':') for l in lines}), 1)
''', 'a fraction with more than 6 digits', 'lines are not aligned')

seed('c17-mix', 'C17', [('randvar.py', "    result = RV(res_vals, res_probs)\n    result = _INTERNAL_PROB_LIMIT_VALS(result)\n    return result\n", "    result = RV(res_vals, res_probs)\n    result = _INTERNAL_PROB_LIMIT_VALS(result) if len(rvs) < 50 else _INTERNAL_PROB_LIMIT_VALS(result, 10**20)\n    return result\n")], '''
r = RV.from_rvs([roll(3, 20) for _ in range(30)] + [RV([i], [1]) for i in range(30)], [10**18 + 1] * 30 + [1] * 30)
t = sum(r.probs)
check('exact', Fraction(dict(zip(r.vals, r.probs))[3], t), (Fraction(30 * (10**18 + 1), 8000) + 1) / (30 * (10**18 + 1) + 30))
''', 'a mixture of 50 or more dice with weights between the two limits', 'it is not exact')
