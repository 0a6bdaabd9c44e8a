"""C13: every small expression, compiled and executed, against an independent AnyDice parser and interpreter."""
import itertools
import lang
from mc import Job
PID = 'C13'
META = dict(
  rule='every expression text a op b op c (15 operators incl. d, 6 operands: numbers, sequence, pool, variables), flat and in every parenthesisation, every expression with 3 operators over several operand assignments, every unary operator (and pairs of them) before every operand and group, groups around every kind of operand on either side of every operator, decimals, calls as operands; compiled under the default options, the integer-operator option, the scope option and all options; executed plainly and restricted; oracle: an independent precedence parser and exact interpreter',
  bounds='quick: all 2-operator expressions, 3-operator expressions over 2 operand assignments x 6 shapes, unary on 2-operand expressions, chains of one or two operators and groups up to 40 long / deep, whole numbers up to 120 digits in every role; thorough: 3-operator expressions over 12 operand assignments, 4-operator flat expressions over 9 operators; both tiers also: padded numbers and decimals',
  assumptions=['& | ! # @ on plain numbers without the integer-operator option, negative exponents, digits of negative numbers, positions of a random number of dice are not specified'])

OPS = ['+', '-', '*', '/', '^', '=', '!=', '<', '>', '<=', '>=', '&', '|', '@', ' d ']
PRE = 'A: 4 B: {2,3,1} C: 2d3 N: 12'
OPERANDS = ['2', '3', '{1,3}', '(2d3)', 'A', 'B']


def pairs(op1, shapes):
  for op2 in OPS:
    for a, b, c in itertools.product(OPERANDS, repeat=3):
      if 0 in shapes:
        yield f'{a}{op1}{b}{op2}{c}'
      if 1 in shapes:
        yield f'({a}{op1}{b}){op2}{c}'
      if 2 in shapes:
        yield f'{a}{op1}({b}{op2}{c})'


def triples(op1, assigns, shapes):
  for op2, op3 in itertools.product(OPS, repeat=2):
    for a, b, c, d in assigns:
      for s in shapes:
        yield s.format(a=a, b=b, c=c, d=d, o=op1, p=op2, q=op3)


SHAPES3 = ['{a}{o}{b}{p}{c}{q}{d}', '(({a}{o}{b}){p}{c}){q}{d}', '({a}{o}({b}{p}{c})){q}{d}', '({a}{o}{b}){p}({c}{q}{d})', '{a}{o}(({b}{p}{c}){q}{d})', '{a}{o}({b}{p}({c}{q}{d}))', '{a}{o}({b}{p}{c}{q}{d})', '({a}{o}{b}{p}{c}){q}{d}', '({a}{o}{b}){p}{c}{q}{d}', '{a}{o}({b}{p}{c}){q}{d}', '{a}{o}{b}{p}({c}{q}{d})']
ASSIGN = [('2', '3', '1', '2'), ('3', '(2d2)', '2', '{1,2}'), ('{2,1}', '2', 'A', '3'), ('12', '2', '3', '4'), ('(d3)', '2', '3', 'B'), ('1', 'B', '(2d3)', '2'), ('A', 'A', '2', '1'), ('0', '5', '0', '3'), ('2', '{3}', '2', '(d2)'), ('7', '2', '2', '2'), ('1', '0', '1', '0'), ('C', '2', 'C', '1')]
UN = ['', '-', '+', '!', '#', '--', '!-', '-#', '!!', '##', '-!', '+-', '#-']


def unary():
  for op in OPS:
    for u1, u2 in itertools.product(UN, UN[:5]):
      for a, b in itertools.product(['2', '{1,3}', 'A', 'C', '(2d3)', 'N'], ['3', 'B', '(2d2)', 'N', '0']):
        if u1 or u2:
          yield f'{u1}{a}{op}{u2}{b}'
          if u1:
            yield f'{u1}({a}{op}{u2}{b})'


def unary3():
  for o, p in itertools.product(OPS, repeat=2):
    for u in UN[1:5]:
      for a, b, c in (('2', '3', '2'), ('{1,2}', '2', 'A'), ('2', '(2d2)', '1'), ('N', '2', 'B')):
        yield f'{u}{a}{o}{b}{p}{c}'
        yield f'{a}{o}{u}{b}{p}{c}'
        yield f'{a}{o}{b}{p}{u}{c}'
        yield f'{u}({a}{o}{b}){p}{c}'
        yield f'{a}{o}{u}({b}{p}{c})'


def misc():
  atoms = ['1.5', '0.25', '2.0', '[absolute -3]', '[explode d2]', '[highest of 2 and d3]', '[sort {1,3,2}]', '[reverse {1,2}]', '{}', '{1..3}', '{3,1..2,A}', '{B,B}', '{d3}', 'd4', '2d{1,1,3}', '(2d3)', '-1', '007', '10', '[highest 2 of 3d3]', '[lowest 1 of 3d3]', '[count 1 in {1,1,2}]', '[{1,2} contains 2]', '[maximum of d6]', 'd{A..6}', '3d2', '{2d2}', '100']
  for a, op, b in itertools.product(atoms, OPS, atoms):
    yield f'{a}{op}{b}'
  for a in atoms:
    for u in UN:
      yield f'{u}{a}'
      yield f'{u}({a})'
    yield f'(({a}))'
    for x in ('{A}', '{1..A}', '({a})'):
      yield f'{{{a}}} + 0'
  # white space and comments between any two tokens change nothing
  for e in ('2*3+4', '1@2d3', '-2^2', '2>=1', '3!=4', '1<=A&2>1', '!{0}', '#{1,2}d4', '2d(3)'):
    toks = [t[1] for t in lang.lex(e)]
    glued = [['>', '='], ['<', '=']]
    for sep in (' ', '\n', '\t', ' \n\n ', '\\c\\', ' \\ output 1 \\ ', '\\\n"\\'):
      for i in range(1, len(toks)):
        yield ''.join(toks[:i]) + sep + ''.join(toks[i:])
      yield sep.join(toks)


def numbers():
  """long whole numbers: value, length, digits at every position, comparison with neighbours"""
  ns = [10**k + d for k in (1, 2, 5, 9, 12, 14, 15, 16, 17, 18, 19, 22, 23, 30) for d in (-1, 0, 1)] + [2**k + d for k in (24, 31, 32, 53, 63, 64, 80) for d in (-1, 0, 1)] + [int('1234567890' * 3), int('7' * 120)]
  for n in ns:
    yield f'{n}'
    yield f'#{n}'
    yield f'-{n}'
    for p in list(range(-1, len(str(n)) + 2)) if n < 10**25 else [1, 2, 9, 15, 16, 17, 18, 25, 30, 31, 119, 120, 121]:
      yield f'{p}@{n}'
    yield f'{{1,3,2}}@{n}'
    yield f'1@({n}+1)'
    yield f'#({n}+1)'
    yield f'#(-{n}+{n})'
    yield f'#{{{n},{n}}}'
    for op in ('+', '-', '*', '/', '=', '!=', '<', '<=', '>', '>=', '&', '|'):
      for m in (f'{n}', f'{n - 1}', f'{n + 1}', '7', f'{{{n - 1},{n},{n + 1}}}', f'd{{{n},{n + 1}}}', '1.5'):
        yield f'{n}{op}{m}'
        yield f'{m}{op}{n}'
    yield f'd{{{n},{n - 1},1}}'
    yield f'{{{n}..{n}}}'
    yield f'{{{n - 1}..{n + 1}}}'
    yield f'1@{{{n},{n + 1}}}'
    yield f'[maximum of d{{{n},{n + 1}}}]'
    yield f'[absolute (0-{n})]'
    yield f'[sort {{{n},{n + 1},{n - 1}}}]'
    yield f'[count {n} in {{{n},{n + 1},{n}}}]'


def padded():
  """numbers written with leading zeros, in every role a number can have"""
  for z in (1, 2, 3, 4, 5, 8, 10, 20, 60):
    for d in ('', '1', '2', '3', '10', '07'):
      n = '0' * z + d
      for e in ('{n}', '5*{n}', '{n}*5', '7-{n}', '{n}-7', '-{n}', '--{n}', '{n}+{n}', '{n}={n}', '{n}<1', '3>={n}', '({n})', '{{{n}}}', '{{{n},5,{n}}}', '#{{{n}}}', '{{{n}..{n}}}', '{{{n}..4}}', '{{0..{n}}}', '{n}d6', '2d{n}', 'd{n}', '{n}d{n}', '{n}@{{4,5,6}}', '{{{n},1}}@{{4,5,6}}', '{n}@2d4', '{n}.5', '1.{n}', '{n}.{n}', '2^{n}', '{n}^2', '{n}^{n}', '5/1{n}', 'd{{{n},3}}', '[absolute {n}]', '[absolute -{n}]', '[explode d{n}]', '[highest of {n} and 2]', '[highest {n} of 2d4]', '[count {n} in {{0,{n},2}}]', '{n}+A', 'A*{n}', '{n}&1', '{n}|0', '!{n}', '{n}+d4'):
        yield e.format(n=n)


GROUPED = ['(-2)', '(!A)', '(#B)', '(-A)', '(+3)', '(--2)', '(-(2d3))', '(!{0})', '((-2))', '(d3)', '(A)', '(2)', '({1,2})', '([absolute -3])', '(1.5)', '(-1.5)', '(1=1)', '(-2+1)', '(#{1,2})', '(-[absolute -3])', '(-{1,2})', '(!!3)']


def grouped():
  plain = ['2', '{1,3}', 'A', 'C', '3']
  for op in OPS:
    for g in GROUPED:
      for b in GROUPED + plain:
        yield f'{g}{op}{b}'
        if b in plain:
          yield f'{b}{op}{g}'
      for u in UN[1:5]:
        yield f'{u}{g}{op}2'
        yield f'2{op}{u}{g}'
    for op2 in OPS:
      for g in ('(-2)', '(!A)', '(#B)', '(d3)', '(1=1)', '(-A)'):
        for a, b in (('2', '3'), ('{1,2}', 'A')):
          yield f'{g}{op}{a}{op2}{b}'
          yield f'{a}{op}{g}{op2}{b}'
          yield f'{a}{op}{b}{op2}{g}'
          yield f'({a}{op}{g}){op2}{b}'
          yield f'{a}{op}({g}{op2}{b})'


def four():
  al = ['+', '*', '^', '<', '&', '|', '@', ' d ', '=']
  for o, p, q, r in itertools.product(al, repeat=4):
    yield f'2{o}3{p}1{q}2{r}2'
    yield f'{{1,2}}{o}2{p}(d2){q}1{r}A'


def chains(op, upto):
  """long chains of one operator, of it alternating with every other one, and deep groups"""
  atoms = {'^': ['2', '1'], ' d ': ['2', '1', '3', '1'], '@': ['1', '2', '34', 'B']}.get(op, ['7', '2', '3', '1', 'A'])
  for n in range(3, upto + 1):
    if op in ('*', ' d ') and n > 24:
      break
    xs = [atoms[i % len(atoms)] if op != ' d ' or i < 3 else '1' for i in range(n)]
    if op == '^' and n > 4:
      xs = ['2', '2'] + ['1'] * (n - 2)
    yield op.join(xs)
    if op in ('^', ' d ', '@'):
      continue
    yield '(' * (n - 1) + xs[0] + ''.join(f'{op}{x})' for x in xs[1:])
    yield ''.join(f'({x}{op}' for x in xs[:-1]) + xs[-1] + ')' * (n - 1)
    yield op.join(xs[:n // 2]) + f'{op}(d2)' + op + op.join(xs[n // 2:]) if n <= 24 else '1'
    for o2 in ('+', '-', '*', '/', '=', '<', '>=', '&', '|'):
      if o2 != op and n <= 20:
        yield ''.join(x + (op if i % 2 else o2) for i, x in enumerate(xs)) + '1'
        yield ''.join(x + (op if i % 3 else o2) for i, x in enumerate(xs)) + '2'
  if op == '+':
    for n in range(1, upto + 1):
      yield '(' * n + '3+A' + ')' * n + '*2'
      for u in ('-', '+', '!', '-!', '!-', '+-'):
        yield u * n + '3 - 1'
      yield '{' * 1 + ','.join(str(i * 7 % 11) for i in range(n)) + '} + 1'
      yield f'{n}@{{' + ','.join(str(i * 7 % 11) for i in range(n)) + '}'
      yield f'#{{1..{n}}} - {n}'
      yield f'd{n} + {n}d2'
      yield '1' + '0' * n + '/7'
      yield '{' + ','.join('{' * (i % 5) + str(i) + '}' * (i % 5) for i in range(n)) + '}>3'


def job(ctx, gen, flags, size=250):
  import progs
  progs.run_batch(ctx, PRE, gen(), flags, size)


def jobs(tier):
  q = tier == 'quick'
  js = []
  allf = ('scope', 'opint', 'lib')
  for op in OPS:
    js.append(Job(f'pairs {op} default', job, lambda op=op: pairs(op, (0, 1, 2)), None))
    js.append(Job(f'pairs {op} opint', job, lambda op=op: pairs(op, (0, 1, 2)), ('opint',)))
    if not q:
      js.append(Job(f'pairs {op} all', job, lambda op=op: pairs(op, (0, 1, 2)), allf))
    js.append(Job(f'triples {op} default', job, lambda op=op: triples(op, ASSIGN[1:3] if q else ASSIGN, SHAPES3[:6] if q else SHAPES3), None))
    js.append(Job(f'triples {op} opint', job, lambda op=op: triples(op, ASSIGN[:2] if q else ASSIGN, SHAPES3[:6] if q else SHAPES3), ('opint',)))
  for fl in (None, ('opint',), ('scope',), allf):
    js.append(Job(f'unary {fl}', job, unary, fl))
    js.append(Job(f'unary3 {fl}', job, unary3, fl))
    js.append(Job(f'misc {fl}', job, misc, fl))
    js.append(Job(f'grouped {fl}', job, grouped, fl))
    js.append(Job(f'numbers {fl}', job, numbers, fl))
    js.append(Job(f'padded {fl}', job, padded, fl))
  for op in OPS:
    for fl in (None, ('opint',)):
      js.append(Job(f'chains {op} {fl}', job, lambda op=op: chains(op, 40 if q else 90), fl))
  if not q:
    for fl in (None, ('opint',)):
      js.append(Job(f'four {fl}', job, four, fl))
  return js
