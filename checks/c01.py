"""C01: operators on dice, every operand pair of the alphabet, both sides, operator chains of depth 2."""
import math
import ref
from mc import Job
PID = 'C01'
META = dict(
  rule='every (left operand, operator, right operand) over the operand alphabet with at least one die, on both sides, plus every distinct die reached that way combined again with every small operand on both sides; a case is one operator execution on the real objects, compared with the weighted enumeration of all outcome pairs; operands are re-observed after each execution',
  bounds='operator chains of length 1 (full alphabet, dice up to 1000 faces) and 2 (8 small operands on either side, and the die with itself); thorough: additionally chains of length 3 (4 small operands) on every distinct die of at most 6 faces reached; |exponent| <= 64',
  assumptions=['values are Python ints/floats; nan/inf excluded', 'reference applies the same Python scalar operator to each outcome pair'])

# (code, kind, model value)
DICE = [
  ('roll(6)', ref.dn(6)),
  ('roll(2)', ref.dn(2)),
  ('roll(1)', ref.const(1)),
  ('RV([0],[1])', ref.const(0)),
  ('RV([-1,0,1],[1,2,1])', ref.die([-1, 0, 1], [1, 2, 1])),
  ('RV([2,3,7],[0,5,3])', ref.die([2, 3, 7], [0, 5, 3])),
  ('RV([0.5,-1.5,2],[3,1,2])', ref.die([0.5, -1.5, 2], [3, 1, 2])),
  ('RV([10**9,10**20,-10**18],[1,3,5])', ref.die([10**9, 10**20, -10**18], [1, 3, 5])),
  ('RV([5,-5],[7,11])', ref.die([5, -5], [7, 11])),
  ('roll(3,6)', ref.add_n(ref.dn(6), 3)),
  ('roll(-4)', ref.dn(-4)),
  ('RV([1.0,2,True],[1,1,1])', ref.die([1.0, 2, 1], [1, 1, 1])),
]
BIGDICE = [
  ('roll(100)', ref.dn(100)),
  ('roll(10,10)', ref.add_n(ref.dn(10), 10)),
  ('RV(range(-500,500),range(1,1001))', ref.die(range(-500, 500), range(1, 1001))),
  ('RV([i*i for i in range(40)],[1]*40)', ref.die([i * i for i in range(40)])),
  ('RV([2**53,2**53+1,2**64],[2**70,3,2**40+1])', ref.die([2**53, 2**53 + 1, 2**64], [2**70, 3, 2**40 + 1])),
]
NUMS = [(repr(v), v) for v in (-3, -1, 0, 1, 2, 7, 0.5, -2.5, 2.0, 10**18, 2**53 + 1, 64)] + [('True', 1), ('False', 0)]
SEQS = [('Seq()', ()), ('Seq(1)', (1,)), ('Seq(1,2,3)', (1, 2, 3)), ('Seq(-1,1)', (-1, 1)), ('Seq(0.5,2)', (0.5, 2)), ('Seq(2,2,2,-9)', (2, 2, 2, -9)),
        ('[1,2]', (1, 2)), ('(3,-5)', (3, -5)), ('range(3)', (0, 1, 2)), ('[[1],[2,[3]]]', (1, 2, 3)), ('Seq(range(100))', tuple(range(100)))]
SMALL = [('roll(2)', ref.dn(2)), ('RV([-1,0,2],[1,2,4])', ref.die([-1, 0, 2], [1, 2, 4])), ('3', ref.const(3)), ('0', ref.const(0)), ('-2', ref.const(-2)), ('0.5', ref.const(0.5)), ('Seq(1,1)', ref.const(2)), ('roll(3)', ref.dn(3))]
OPS = list(ref.OPS)


def too_big(op, a, b):
  if op != '**':
    return False
  eb = max(abs(v) for v, _ in b)
  ea = max(abs(v) for v, _ in a)
  return eb > 64 or ea > 10**21 or (eb > 8 and ea > 10**9)


def expected(op, a, b):
  try:
    r = ref.map2(a, b, ref.OPS[op])
  except (ZeroDivisionError, OverflowError, TypeError, ref.Undefined):
    return 'reject'
  if any(isinstance(v, complex) or (isinstance(v, float) and not math.isfinite(v)) for v, _ in r):
    return 'skip'
  return r


def run_op(ctx, T, O, lcode, lobj, lref, op, rcode, robj, rref, cache=None):
  if too_big(op, lref, rref):
    ctx.count('skipped: huge exponent')
    return None, None
  if op in ('//', '/', '%', '**') and '[0,5,3]' in lcode + rcode:
    return None, None  # whether an undefined result on a face of weight 0 is an error is not specified
  exp = expected(op, lref, rref)
  if exp == 'skip':
    ctx.count('skipped: complex or non-finite outcome')
    return None, None
  before = (O.snap(lobj), O.snap(robj))
  fn = PYOPS[op]
  box = []

  def run():
    x = fn(lobj, robj)
    box.append(x)
    o = O.o_die(x)
    if (O.snap(lobj), O.snap(robj)) != before:
      return ('operands changed', before, (O.snap(lobj), O.snap(robj)))
    return o
  case = f'{lcode} {op} {rcode}'
  if exp == 'reject':
    import mc
    ctx.evaluations += 1
    ctx.transitions += 1
    o = mc.observe(run)
    if not (isinstance(o, tuple) and o and o[0] == 'raised'):
      ctx.violation(case, 'an error (some outcome is undefined)', o)
    ctx.outcome('reject')
    return None, None
  ok = ctx.compare(case, run, exp)
  return (box[0] if ok and box else None), exp


PYOPS = dict(ref.OPS)
import operator as _o
PYOPS.update({'==': _o.eq, '!=': _o.ne, '<': _o.lt, '<=': _o.le, '>': _o.gt, '>=': _o.ge, '&': _o.and_, '|': _o.or_})


def mk(T, code):
  return eval(code, dict(vars(T)))


def operands():
  xs = [(c, 'die', d) for c, d in DICE] + [(c, 'num', ref.const(v)) for c, v in NUMS] + [(c, 'seq', ref.const(sum(v))) for c, v in SEQS]
  return xs


def job_pairs(ctx, op, tier):
  import target as T
  import obs as O
  ops = [(c, k, r, mk(T, c)) for c, k, r in operands()]
  reached = {}
  for lc, lk, lr, lo in ops:
    for rc, rk, rr, ro in ops:
      if lk != 'die' and rk != 'die':
        continue
      x, e = run_op(ctx, T, O, lc, lo, lr, op, rc, ro, rr)
      if x is not None and isinstance(x, T.RV) and len(e) <= 40:
        key = tuple((type(v).__name__, v, w) for v, w in e)
        if key not in reached:
          reached[key] = (f'({lc} {op} {rc})', x, e)
  # the same object on both sides: two uses of the same die are independent (covered above by identical objects)
  # depth 2: every distinct die reached, combined again
  small = SMALL
  smo = [(c, r, mk(T, c)) for c, r in small]
  reached2 = {}

  def keep(code, x, e):
    if tier == 'thorough' and x is not None and isinstance(x, T.RV) and len(e) <= 6 and all(abs(v) < 2**40 for v, _ in e):  # whether a large number is an int or a float is lost in e
      key = tuple((type(v).__name__, v, w) for v, w in e)
      if key not in reached and key not in reached2:
        reached2[key] = (code, x, e)
  for code, x, e in reached.values():
    for op2 in OPS:
      for c, r, o in smo:
        y, e2 = run_op(ctx, T, O, code, x, e, op2, c, o, r)
        keep(f'({code} {op2} {c})', y, e2)
        y, e2 = run_op(ctx, T, O, c, o, r, op2, code, x, e)
        keep(f'({c} {op2} {code})', y, e2)
      run_op(ctx, T, O, code, x, e, op2, code, x, e) if len(e) <= 12 else None
  for code, x, e in reached2.values():
    for op3 in OPS:
      for c, r, o in smo[:4]:
        run_op(ctx, T, O, code, x, e, op3, c, o, r)
        run_op(ctx, T, O, c, o, r, op3, code, x, e)


def job_big(ctx, op):
  import target as T
  import obs as O
  small = operands()[:12] + [(c, 'num', ref.const(v)) for c, v in NUMS] + [(c, 'seq', ref.const(sum(v))) for c, v in SEQS[:4]]
  smo = [(c, k, r, mk(T, c)) for c, k, r in small]
  for bc, br in BIGDICE:
    bo = mk(T, bc)
    for c, k, r, o in smo:
      if len(br) * len(r) > 20000:
        continue
      run_op(ctx, T, O, bc, bo, br, op, c, o, r)
      run_op(ctx, T, O, c, o, r, op, bc, bo, br)
  if op in ('+', '-', '*', '==', '<', '>=', '&'):
    a, b = BIGDICE[0], BIGDICE[1]
    oa, ob = mk(T, a[0]), mk(T, b[0])
    run_op(ctx, T, O, a[0], oa, a[1], op, b[0], ob, b[1])
    run_op(ctx, T, O, a[0], oa, a[1], op, a[0], oa, a[1])
    run_op(ctx, T, O, b[0], ob, b[1], op, b[0], ob, b[1])


UN = {
  '-x': (lambda x: -x, lambda v: -v), '+x': (lambda x: +x, lambda v: +v), 'abs(x)': (abs, abs), 'round(x)': (round, lambda v: round(v)), 'round(x,1)': (lambda x: round(x, 1), lambda v: round(v, 1)),
  'round(x,-1)': (lambda x: round(x, -1), lambda v: round(v, -1)), 'floor(x)': (math.floor, math.floor), 'ceil(x)': (math.ceil, math.ceil), 'trunc(x)': (math.trunc, math.trunc),
}


def job_unary(ctx):
  import target as T
  import obs as O
  extra = [('RV([0.5,1.5,2.5,-0.5,-1.5,-2.49,0.05],[1,2,3,4,5,6,7])', ref.die([0.5, 1.5, 2.5, -0.5, -1.5, -2.49, 0.05], [1, 2, 3, 4, 5, 6, 7])),
           ('RV([15,25,-15,14,99],[1,2,3,4,5])', ref.die([15, 25, -15, 14, 99], [1, 2, 3, 4, 5])), ('RV([-3,3,2,-2],[1,2,3,4])', ref.die([-3, 3, 2, -2], [1, 2, 3, 4]))]
  base = [(c, r, mk(T, c)) for c, r in DICE + BIGDICE + extra]
  for c, r, o in base:
    for name, (impl, model) in UN.items():
      before = O.snap(o)

      def run():
        x = O.o_die(impl(o))
        return x if O.snap(o) == before else ('operand changed', before, O.snap(o))
      try:
        exp = ref.map1(r, model)
      except Exception:
        continue
      ctx.compare(f'{name} with x = {c}', run, exp)
      if name in ('-x', 'abs(x)', 'floor(x)'):
        for name2, (impl2, model2) in UN.items():
          ctx.compare(f'{name2} with x = {name} of {c}', lambda: O.o_die(impl2(impl(o))), ref.map1(exp, model2))
    if c != 'RV([2,3,7],[0,5,3])':
      ctx.compare(f'~x with x = {c}', lambda: O.o_die(~o), ref.const(1 if r == ((0, 1),) else 0))
  for code, exp in [('~(RV([3],[1])-3)', 1), ('~(roll(6)*0)', 1), ('~(roll(6)-roll(6))', 0), ('~roll(0,6)', 1), ('~RV([0,5],[1,1])', 0), ('~RV([0.0],[3])', 1), ('~RV([1],[1])', 0)]:
    ctx.compare(code, lambda: O.o_die(mk(T, code)), ref.const(exp))


def jobs(tier):
  js = [Job(f'pairs {op}', job_pairs, op, tier) for op in OPS]
  js += [Job(f'big {op}', job_big, op) for op in OPS]
  js.append(Job('unary', job_unary))
  return js
