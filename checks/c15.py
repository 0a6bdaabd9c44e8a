"""C15: all short token sequences in every context, all single-token edits of sample programs, all short adversarial
character strings: the compiler accepts exactly what an independent lexer and parser accept."""
import itertools
import lang
from mc import Job, observe
PID = 'C15'
META = dict(
  rule='text -> accepted (and the emitted text is valid Python) or rejected with an error.  Explored: every token sequence of bounded length over the full token alphabet placed in 15 contexts; every viable token prefix (by the reference parser) extended by every token, to a larger depth; every deletion, insertion, replacement, duplication and transposition of one token in sample programs covering all constructs; every character of a large set at every kind of position; every short string over an adversarial character alphabet; every call pattern against every definition pattern; all option combinations; oracle: an independent lexer and predictive parser',
  bounds='quick: all sequences of length 2 over 36 tokens in 15 contexts, viable prefixes to length 4 (statements) and 4 (expressions), 14 sample programs, character strings to length 4 over 11 characters; thorough: length 3 in all contexts, viable prefixes to 6, two-token edits of 4 programs, character strings to length 5; both tiers also: words glued to numbers and keywords',
  assumptions=['empty string literals, adjacent string literals and functions without any name are not specified', 'a result statement outside a function is accepted by the compiler (it fails when executed)', 'LALR tables are built once per process by the library and reused (lib/fastparse.py)'])

TOK = ['output', 'A', '1', 'd', '(', ')', '[', ']', '{', '}', ':', ',', '..', '.', '+', '-', '*', '/', '^', '!', '!=', '#', '@', '=', '<', '>', '&', '|', '"s"', 'named', 'function', 'loop', 'over', 'if', 'else', 'result', 'set', 'to', 'f', 'n']
CORE = ['output', 'A', '1', 'd', '(', ')', '[', ']', '{', '}', ':', ',', '..', '.', '-', '!', '#', '=', '<', '"s"', 'named', 'if', 'else', 'f']
CTX = [('output 1 {}', 0), ('{} output 1', 0), ('output ({})', 0), ('output {{{}}}', 0), ('function: f {{ }} function: f A {{ }} function: A f {{ }} output [{}]', 0), ('if A {{ {} }} output 1', 0), ('function: {} {{ }} output 1', 0), ('output 1 named {}', 0), ('loop {} {{ }} output 1', 0), ('set {} output 1', 0), ('if {} {{ }} output 1', 0), ('if A {{ }} {} {{ }} output 1', 0), ('A: {} output 1', 0), ('function: f A:n {{ {} }} output [f 1]', 0), ('output {}', 0), ('output 2 d {}', 0), ('output {{1,{}..2}}', 0)]
_slow = None


def verdict(text, flags=None):
  from dice_calc.parser import compile_anydice
  try:
    py = compile_anydice(text, flags=flags)
  except Exception:
    return 'rejected'
  if not isinstance(py, str):
    return ('not a program', type(py).__name__)
  return py


def check(ctx, text, flags=None, expected=None):
  try:
    exp = expected or lang.wellformed(text)
  except lang.Skip:
    ctx.count('not specified')
    return
  ctx.evaluations += 1
  ctx.transitions += 1
  got = observe(lambda: verdict(text, flags), 30)
  seen = 'ok'
  if got == 'rejected':
    seen = 'rejected'
  elif isinstance(got, tuple):
    seen = got
  elif exp == 'ok' and not toplevel_result(text):
    try:
      compile(got, '<program>', 'exec')
    except Exception as e:
      seen = ('emitted text is not valid Python', type(e).__name__, got[:300])
  ctx.state(text)
  ctx.outcome(got)
  ctx.count(exp)
  if seen != exp:
    ctx.violation(f'{text!r} flags {flags}', exp, seen)
  elif exp == 'ok':
    ctx.sample(f'{text!r} accepted')


def toplevel_result(text):
  try:
    return 'result' in text and lang.has_result_top(lang.parse(text))
  except Exception:
    return False


def setup(ctx):
  """-> True if compilation is fast enough for the full bounds (tables reused)"""
  import time
  import target  # noqa
  import fastparse
  fastparse.install()
  verdict('output 1')
  t = time.time()
  for _ in range(5):
    verdict('output 1')
  return (time.time() - t) / 5 < 0.02


def sequences(ctx, context, n, toks, part=0, parts=1):
  if not setup(ctx) and n > 1:
    n, ctx.exhaustive = n - 1, False
  for k in range(n + 1):
    for i, s in enumerate(itertools.product(toks, repeat=k)):
      if i % parts == part:
        check(ctx, context.format(' '.join(s)))


def prefixes(ctx, start, end, depth, toks, first):
  """every viable prefix start t1..tk (k < depth) extended by every token; also closed by end"""
  fast = setup(ctx)
  if not fast:
    depth, ctx.exhaustive = depth - 2, False
  frontier = [(start + ' ' + first).strip()]
  for k in range(1, depth + 1):
    nxt = []
    for p in frontier:
      for e in end:
        check(ctx, f'{p} {e}')
      if lang.viable(p):
        if k < depth:
          nxt += [f'{p} {t}' for t in toks]
      else:
        ctx.count('prefix cut')
    frontier = nxt


SAMPLES = [
  'output 3d6 named "hi [A]"',
  'A: {1,2..5,{3}} output A@{4,5} - 2',
  'function: f N:n with S:s { result: N + #S } output [f 3 with {1,2}]',
  'if A = 1 { output 1 } else if A < 2 { B: 2 } else { output !3 } output 9',
  'loop P over {1..6} { output Pd6 named "[P]" loop Q over A { } } output 1',
  'set "explode depth" to 3 output [explode d6]',
  'set "position order" to "lowest first" output 1@3d6',
  'output -2 ^ 3 * 4 >= 5 & 6 != 7 | (8 <= 9)',
  'function: a B C:d { if B { result: [a B-1 C] } } output [a 2 d6] + 1.5',
  'function: if else A to { } output [if else 3 to]',
  'output [highest 2 of 4d6] named "x" output {} output d{}',
  'A: 1 B: A + 2 output A/B named "a" C: -B output !#C',
  'function: f { loop A over {1} { result: A } } output [f] + [absolute -1]',
  'output 1 \\ comment " here \\ output 2d(3+4)',
]


def edits(ctx, i, tier):
  fast = setup(ctx)
  text = SAMPLES[i]
  toks = ['"' + t + '"' if k == 'str' else t for k, t in lang.lex(text)]
  toks_in = TOK if fast else CORE[:8]
  seen = set()

  def go(ts):
    s = ' '.join(ts)
    if s not in seen:
      seen.add(s)
      check(ctx, s)

  def one(ts):
    n = len(ts)
    for j in range(n + 1):
      yield ts[:j]
      yield ts[j:]
      for t in toks_in:
        yield ts[:j] + [t] + ts[j:]
        if j < n:
          yield ts[:j] + [t] + ts[j + 1:]
      if j < n:
        yield ts[:j] + ts[j + 1:]
        yield ts[:j] + [ts[j]] + ts[j:]
      if j + 1 < n:
        yield ts[:j] + [ts[j + 1], ts[j]] + ts[j + 2:]
        yield ts[:j] + ts[j + 2:]
  check(ctx, text)
  for a in one(toks):
    go(a)
  if tier != 'quick' and len(toks) <= 12 and fast:
    for a in list(one(toks)):
      if len(a) >= 2:
        for j in range(len(a) + 1):
          for t in CORE:
            go(a[:j] + [t] + a[j:])


def chars(ctx, lo, hi):
  fast = setup(ctx)
  forms = ['output 1{}', 'output {}1', 'output 1{}+2', 'output 1 named "a{}b"', 'output A{}B', 'A{}: 1 output 1', 'output 1 \\ {} \\', '{}output 1', 'out{}put 1', 'function: a{} {{ }} output 1', 'output 1 named "[A{}]"', 'output 1{}2']
  for c in range(lo, hi):
    if 0xd800 <= c < 0xe000:
      continue
    for f in forms if fast else forms[:3]:
      check(ctx, f.format(chr(c)))


def strings(ctx, base, alphabet, n, first):
  if not setup(ctx):
    n, ctx.exhaustive = 2, False
  for k in range(n):
    for s in itertools.product(alphabet, repeat=k):
      check(ctx, base.format(first + ''.join(s)))


def calls(ctx):
  fast = setup(ctx)
  import progs
  words = ['f', 'g', 'X', 'to', 'dd'] if fast else ['f', 'X']
  pats = [p for k in (1, 2, 3) for p in itertools.product(words, repeat=k)]
  name = iter(range(10**9))

  def define(p):
    vs = iter('PQRS')
    return 'function: ' + ' '.join(next(vs) if w == 'X' else w for w in p) + ' { }'

  def call(p):
    return '[' + ' '.join('1' if w == 'X' else w for w in p) + ']'
  small = [p for p in pats if len(p) <= 2]
  for d, c in itertools.product(small, pats):
    if all(w == 'X' for w in d):
      continue
    check(ctx, f'{define(d)} output {call(c)}')
    if len(c) <= 2:
      check(ctx, f'output {call(c)} {define(d)}')
      check(ctx, f'output 1 if 0 {{ {define(d)} }} function: z {{ result: {call(c)} }}')
      for fl in (('opint',), ('scope',), ('lib',), ('scope', 'opint', 'lib')):
        check(ctx, f'{define(d)} output {call(c)}', progs.flags_of(fl))
  # calls as arguments of calls, in every position
  for outer, inner in itertools.product([p for p in small if 'X' in p and p != ('X',) and p != ('X', 'X')], small):
    for arg in (call(inner), f'({call(inner)})', call(inner) + '+1', '-' + call(inner), '1 d ' + call(inner)):
      c = '[' + ' '.join(arg if w == 'X' else w for w in outer) + ']'
      for ds in ([outer], [inner], [outer, inner]):
        if any(all(w == 'X' for w in d) for d in ds):
          continue
        check(ctx, ' '.join(map(define, ds)) + f' output {c}')
  # without the existence check unknown functions are accepted
  for c in pats:
    check(ctx, f'output {call(c)}', progs.flags_of(('nocheck',)), 'ok')
  lib = ['absolute X', 'X contains X', 'count X in X', 'explode X', 'highest X of X', 'lowest X of X', 'middle X of X', 'highest of X and X', 'lowest of X and X', 'maximum of X', 'reverse X', 'sort X']
  for f in lib:
    ws = f.split()
    check(ctx, f'output {call(ws)}', expected='ok')
    for j in range(len(ws)):
      for w in [w for w in ('X', 'f', 'of', None) if w != ws[j]]:
        v = ws[:j] + ([w] if w else []) + ws[j + 1:]
        if v and ' '.join(v) not in lib and any(x != 'X' for x in v):
          check(ctx, f'output {call(v)}', expected='rejected')
  for t in ('', ' ', '\n', '\t \n', '\\ \\', '\\a\\ \\b\\', 'A: 1', 'function: f { output 1 }', 'if 0 { output 1 }', 'loop A over {} { output 1 }', 'function: f { result: 1 }', 'set "a" to 1', 'if 1 { } else { }'):
    check(ctx, t)
  # long and deep programs
  for n in (1, 2, 50, 400):
    check(ctx, ' '.join(f'output {i}' for i in range(n)))
    check(ctx, 'output ' + '+'.join(['1'] * n))
    check(ctx, 'output {' + ','.join(['1'] * n) + '}')
    check(ctx, 'output {' + ','.join(['1'] * n) + ',}')
    check(ctx, 'if 1 { } ' + 'else if 2 { A: 1 } ' * min(n, 50) + ' else { } output 1')
    check(ctx, 'output 1 named "' + 'x[A]' * n + '"')
    check(ctx, 'output ' + '9' * n)
  for n in (1, 2, 10, 18):
    check(ctx, 'output ' + '(' * n + '1' + ')' * n)
    check(ctx, 'output ' + '(' * n + '1' + ')' * (n - 1))
    check(ctx, 'output ' + '(' * n + '1' + ')' * (n + 1))
    check(ctx, 'if 1 { ' * n + 'output 1' + ' }' * n)
    check(ctx, 'if 1 { ' * n + 'output 1' + ' }' * (n - 1))
    check(ctx, 'output ' + '[absolute ' * n + '1' + ']' * n)
    check(ctx, 'output ' + '{' * n + '1' + '}' * n)


def jobs(tier):
  q = tier == 'quick'
  js = []
  for i, (c, _) in enumerate(CTX):
    if q:
      js.append(Job(f'sequences in {c}', sequences, c, 2, TOK))
    else:
      for k in range(4):
        js.append(Job(f'sequences {k} in {c}', sequences, c, 3, TOK, k, 4))
  d = 4 if q else 5
  for f in ('output', 'A', 'function', 'if', 'loop', 'result', 'set'):
    js.append(Job(f'prefixes {f}', prefixes, '', ['output 1'], d + (2 if f in ('loop', 'set') else 1 if f == 'result' else 0 if q else 1), CORE + (['function', 'loop', 'over', 'set', 'to', 'result', 'n'] if f != 'output' else []), f))
  for t in ['A', '1', 'd', '(', '[', '{', '-', '#', '"s"']:
    js.append(Job(f'expression prefixes {t}', prefixes, 'function: f A { } output', ['', 'output 1'], d, CORE, t))
  for i in range(len(SAMPLES)):
    js.append(Job(f'edits {i}', edits, i, tier))
  step = 0x60
  for lo in range(0, 0x240 if q else 0x2100, step):
    js.append(Job(f'characters {lo:#x}', chars, lo, lo + step))
  for lo in (0x370, 0x660, 0x966, 0x2000, 0x2100, 0x2160, 0x2460, 0xff00, 0x1d7c0, 0x1f600) if q else range(0x2100, 0x30000, 0x1000):
    js.append(Job(f'characters {lo:#x}', chars, lo, lo + (0x28 if q else 0x40)))
  al = ['"', '\\', '[', ']', 'A', 'a', 'd', '1', '.', '\n', '!', '=']
  for c in al:
    js.append(Job(f'strings {c!r}', strings, 'output 1 {}', al, 4 if q else 5, c))
    js.append(Job(f'strings in a name {c!r}', strings, 'output 1 named "{}"', al, 3 if q else 5, c))
    js.append(Job(f'strings in a comment {c!r}', strings, 'output \\{}\\ 1', al, 3 if q else 4, c))
  glued = ['A', '_', 'a', 'd', '1', 'if', 'f', '"']
  for k, base in enumerate(('output {}', 'function: {} {{ }} output 1', 'function: f {{ }} function: f A {{ }} function: A f {{ }} function: a A a {{ }} function: A A {{ }} output [{}]', 'loop {} over 1 {{ }} output 1', '{}: 1 output 1')):
    for c in glued:
      js.append(Job(f'glued {k} {c}', strings, base, glued, 3 if q else 5, c))
  js.append(Job('calls', calls))
  js.sort(key=lambda j: j.name not in ('calls', 'prefixes result', 'prefixes if'))
  return js
