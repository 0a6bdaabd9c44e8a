"""C16: hostile function words and string characters: exhaustive vocabularies in every role, against the interpreter; string
contents never change the syntax tree of the emitted program."""
import ast
import builtins
import itertools
import keyword
import lang
from mc import Job, observe
PID = 'C16'
META = dict(
  rule='(names) every word of a vocabulary (Python keywords, builtins, every identifier the library exposes, split at underscores) in every role of a function name x every option set: the program defines, calls and recurses the function and then exercises every construct of the language; all patterns of up to 3 words/parameters over an overlapping alphabet defined together and called separately; every hostile variable name against every function shape; calls of undefined builtins are rejected; (texts) every string of bounded length over an adversarial alphabet and every single character up to U+24F and selected planes, as output name, as assigned text, and inside nested blocks and around [VARIABLE] references: the name reproduces it and the syntax tree of the emitted program equals the one for a harmless text; oracle: independent interpreter, and non-interference of the emitted tree',
  bounds='quick: strings to length 3 over 16 characters and length 4 over 8, about 230 words x 6 roles x 3 option sets; thorough: length 4 over 16 and 5 over 8 characters, characters to U+2FFF, pairs of words; both tiers also: names of up to 300 letters',
  assumptions=['texts containing a double quote, a line feed (both end a string) or lone surrogates are not strings of the language', 'variables starting with an underscore are not available to restricted execution'])

TAIL = 'output #{1,2} output 2d3 output {1..3}+0 output [absolute -3] loop I over {1,2} { output I } A: 5 output A named "n[A]" set "explode depth" to 1 output [explode d2] function: zz N:n { result: N+1 } output [zz d2] output 1@{4,5} output !{0} output ({1}&{1})|{0} output [highest 1 of 2d2] output [{1,2} contains 2] output [count {2} in {2,2}] if A=5 { output 1 } else { output 2 }'
FLAGS = [None, ('scope',), ('opint',), ('lib',), ('scope', 'opint', 'lib')]


def vocabulary():
  ids = set(keyword.kwlist) | set(keyword.softkwlist) | set(dir(builtins))
  ids |= {'roll', 'output', 'get_seq', 'myrange', 'settings_set', 'anydice_casting', 'max_func_depth', 'vars', 'len', 'math', 'itertools', 'random', 'functools', 'dummy', 'true_div', 'roller', 'settings_reset', 'self', 'args', 'kwargs', 'copy', 'printed', 'getattr', 'globals', 'v', 'f', 'x', 'n', 's', 't', 'a', 'seq', 'rv', 'g', 'named', 'os', 'sys', 'main', 'name', 'exec', 'eval', 'import', 'casting', 'func', 'lib', 'matmul', 'mylen', 'fx'}
  ids |= {'absolute', 'contains', 'count', 'in', 'explode', 'highest', 'lowest', 'middle', 'maximum', 'reverse', 'sort', 'of', 'and', 'count_in', 'highest_of', 'f_f', 'f_absolute'}
  try:
    import target  # noqa
    import dice_calc
    ids |= set(dir(dice_calc))
  except Exception:
    pass
  out = set()
  for i in ids:
    parts = [p for p in i.lower().split('_') if p]
    if parts and all(p.isascii() and p.isalpha() for p in parts) and 'd' not in parts:
      out.add(' '.join(parts))
  return sorted(out)


def names(ctx, flags, part, parts):
  import progs

  def gen():
    for i, w in enumerate(vocabulary()):
      if i % parts != part:
        continue
      yield f'function: {w} {{ result: 41 }} output [{w}] {TAIL} output [{w}]+1'
      yield f'function: {w} N {{ if N<1 {{ result: 0 }} result: 1+[{w} N-1] }} output [{w} 3] {TAIL} output [{w} 2]'
      yield f'function: N:n {w} {{ result: N*2 }} output [d3 {w}] {TAIL}'
      yield f'function: N:n {w} M:s {{ result: N+#M }} output [2 {w} {{7,8}}] {TAIL}'
      yield f'function: go {w} {{ result: 42 }} output [go {w}] {TAIL}'
      yield f'function: {w} {w} {{ result: 43 }} function: {w} {{ result: 44 }} output [{w} {w}] output [{w}] {TAIL}'
      yield f'{TAIL} function: {w} N:d {{ result: N+1 }} output [{w} d2] B: [{w} 1] output B named "[A]{w}[I]"'
  progs.run_programs(ctx, gen(), flags, alone=True)


def name_pairs(ctx, flags, part, parts):
  import progs
  ws = [w for w in vocabulary() if ' ' not in w]

  def gen():
    n = 0
    for a, b in itertools.product(ws, repeat=2):
      n += 1
      if n % parts == part:
        yield f'function: {a} {b} {{ result: 1 }} function: {a} {{ result: 2 }} function: {b} N {{ result: N }} output [{a} {b}] output [{a}] output [{b} 3] output [absolute -3] output #{{1,2}} output 2d2'
  progs.run_programs(ctx, gen(), flags, alone=True)


def patterns(ctx, flags, alphabet, n):
  """all name patterns defined at once, each called: told apart by words and parameter positions"""
  import progs
  pats = [p for k in range(1, n + 1) for p in itertools.product(alphabet, repeat=k)]

  def define(p, i):
    vs = iter('PQRS')
    return 'function: ' + ' '.join(next(vs) if w == 'X' else w for w in p) + f' {{ result: {i} }}'

  def call(p):
    return '[' + ' '.join('(1)' if w == 'X' else w for w in p) + ']'
  order = list(enumerate(pats))
  for k, o in enumerate((order, order[::-1], order[1::2] + order[::2])):
    progs.run_programs(ctx, [' '.join(define(p, i) for i, p in o) + ' ' + ' '.join(f'output {call(p)}' for i, p in order) + ' output [absolute -3] output [maximum of d6]'], flags, alone=True)
  small = [p for p in pats if len(p) <= 2]
  progs.run_programs(ctx, (f'{define(a, 1)} {define(b, 2)} output {call(a)} output {call(b)}' for a, b in itertools.permutations(small, 2)), flags, alone=True)


def long_names(ctx, flags):
  """names that agree in all but one letter or word, of every length"""
  import progs

  def gen():
    for n in list(range(1, 48)) + [60, 64, 80, 100, 128, 200, 256, 300]:
      w = ('abcefgh' * 50)[:n]
      others = [w[:i] + 'z' + w[i + 1:] for i in sorted({0, n // 2, n - 1, max(0, n - 2)})] + [w + 'a', w + w[:1], w[:-1] or 'z']
      others = [o for o in dict.fromkeys(others) if o != w]
      ds = ' '.join(f'function: {o} {{ result: {i} }} function: {o} N {{ result: 100+{i} }} function: N {o} {{ result: 200+{i} }}' for i, o in enumerate(others))
      ca = ' '.join(f'output [{o}] output [{o} 1] output [1 {o}]' for o in others + [w])
      yield f'{ds} function: {w} {{ result: 40 }} function: {w} N {{ result: 41 }} function: N {w} {{ result: 42 }} {ca}'
      at = range(n) if n < 48 else sorted({i for k in (8, 10, 16, 20, 24, 31, 32, 48, 50, 63, 64, 100, 127, 128, 255, 256) for i in (k - 1, k) if i < n} | {0, n - 1})
      cut = [w] + [w[:i] + ' ' + w[i:] for i in at if i] + ([w[:n // 3] + ' ' + w[n // 3:n // 2] + ' ' + w[n // 2:]] if n > 5 else [])
      withd = [w] + [o for o in (w[:i] + 'd' + w[i + 1:] for i in at) if o != 'd'] + [w + 'to', w + 'if', w + 'd', 'd' + w, 'if' + w]
      for group in (cut, withd):
        group = list(dict.fromkeys(group))
        yield ' '.join(f'function: {o} {{ result: {i} }} function: {o} N {{ result: 100+{i} }}' for i, o in enumerate(group)) + ' ' + ' '.join(f'output [{o}] output [{o} 1]' for o in group)
      V = w.upper()
      vs = list(dict.fromkeys([V] + [o.upper() for o in others]))
      yield ' '.join(f'{v}: {i}' for i, v in enumerate(vs)) + ' ' + ' '.join(f'output {v} named "[{v}]"' for v in vs)
      yield f'function: f {" ".join(v + ":n" for v in vs[:4])} {{ result: ' + '+'.join(f'{10**i}*{v}' for i, v in enumerate(vs[:4])) + f' }} output [f {" ".join(str(i + 1) for i in range(len(vs[:4])))}]'
    for n in range(1, 26):  # many words and parameters
      for pat in (lambda i: 'a', lambda i: 'ab'[i % 2], lambda i: 'X'[:i % 2] or 'a', lambda i: 'X' if i % 3 else 'a', lambda i: 'a' if i else 'X', lambda i: 'a' if i < n - 1 else 'X'):
        ps = [pat(i) for i in range(n)]
        alts = [ps] + [ps[:i] + [{'X': 'a', 'a': 'X', 'b': 'a'}[ps[i]]] + ps[i + 1:] for i in sorted({0, n // 2, n - 1})] + [ps + ['a'], ps[:-1]] + ([ps + ['X']] if n < 20 else [])
        alts = [p for p in dict.fromkeys(map(tuple, alts)) if p and p != ('X',)]
        out = []
        for k, p in enumerate(alts):
          vs = iter('ABCEFGHIJKLMNOPQRSTUVWYZ_' * 2)
          out.append('function: ' + ' '.join(next(vs) if x == 'X' else x for x in p) + f' {{ result: {k} }}')
        yield ' '.join(out) + ' ' + ' '.join('output [' + ' '.join('(1)' if x == 'X' else x for x in p) + ']' for p in alts)
  progs.run_programs(ctx, gen(), flags, alone=True)


def variables(ctx, flags):
  import progs
  vs = ['A', 'X', 'X_X', 'X_X_X', 'T_N', 'T_S', 'T_D', 'RV', 'V', 'F_X', 'OUTPUT', 'ROLL', 'V_T_N', 'N', 'D', 'VARS', 'F', 'T_', 'X_', 'DUMMY', 'NONE', 'TRUE', 'SEQ', 'MYLEN', 'F_X_X']
  fns = ['function: P:n { if P=1 { result: 9 } result: P+1 }', 'function: P:n Q:s { if P>4 { result: 0 } result: P*10+#Q }', 'function: P Q:n R { if Q=1 { result: 5 } result: Q*P }', 'function: f P:n { if P=1 { result: 9 } result: P+1 }', 'function: P:d Q:s { result: (1@P)+#Q }', 'function: f P:s Q:n { loop I over P { if I=Q { result: 3 } } result: #P }']
  calls = ['[(d2)]', '[2 4]', '[1 (d2) 3]', '[f (d2)]', '[{2,3} 4]', '[f (2d2) {1,1}]']

  def gen():
    for v in vs:
      for fn, c in zip(fns, calls):
        yield f'{v}: 6 {fn} output {c} output {v} named "[{v}]" {v}: {v}+1 output {v} output {c}'
        yield f'{fn} {v}: 6 output {c} loop {v} over {{1,2}} {{ output {c}+{v} named "x[{v}]" }} output {v}'
        yield f'{fn} function: g {v}:n {{ if {v}=1 {{ result: 8 }} result: {v}*2 }} output [g (d2)] output {c} function: h {v}:s {v}:d {{ result: #{v} }} output [h (2d2) 4] {v}: 3 output {v} output {c}'
        yield f'{v}: 6 function: k {{ {v}: 7 result: {v} }} {fn} output [k] output {v} output {c}'
    for a, b in itertools.permutations(vs, 2):
      yield f'{a}: 1 {b}: 2 output {a} named "[{b}][{a}]" output {b} function: f {a}:n {b}:n {{ if {a}=1 {{ result: 3 }} result: {a}*10+{b} }} output [f (d2) 4]'
  progs.run_programs(ctx, gen(), flags, alone=True)


def undefined(ctx):
  """builtin and library-internal names are not callable"""
  import target  # noqa
  import fastparse
  import progs
  fastparse.install()
  from dice_calc.parser import compile_anydice

  def tried(src, fl):
    try:
      return 'accepted: ' + compile_anydice(src, flags=fl)
    except Exception:
      return 'rejected'
  known = {' '.join('1' if w == 'X!' else w for w in k) for k in lang.LIB}
  for w in vocabulary():
    for args in ('{}', '{} 1', '1 {}', '{} 1 1', '{} "x"', '1 {} 1', '{} {{1}}'):
      body = args.format(w)
      if body in known or body.replace('"x"', '1').replace('{1}', '1') in known:
        continue
      for fl in (None, ('scope', 'opint', 'lib')):
        for src in (f'output [{body}]', f'function: own word {{ result: [{body}] }} output 1'):
          ctx.compare(f'{src!r} flags {fl}', lambda: tried(src, progs.flags_of(fl)), 'rejected')


# ---------------------------------------------------------------- texts
def shape(py):
  """syntax tree with the contents of texts removed"""
  t = ast.parse(py)
  for n in ast.walk(t):
    if isinstance(n, ast.JoinedStr):
      # pieces of text: only their presence between the variables matters
      n.values = [v for v in n.values if not isinstance(v, ast.Constant)]
    elif isinstance(n, ast.Constant) and isinstance(n.value, str):
      n.value = ''
  return ast.dump(t)


def harmless(text):
  return ''.join('q' if isinstance(p, str) else f'[{p[1]}]' for p in lang.str_parts(text))


def texts(ctx, gen, flags, size=150):
  import progs
  import target as T
  import dice_calc.parser.parse_and_exec as pe
  import fastparse
  fastparse.install()
  from dice_calc.parser import compile_anydice
  A, B = 5, -12
  pre = f'A: {A} B: {B} '
  batch = []

  def run(src):
    T.settings_reset()
    py = compile_anydice(src, flags=progs.flags_of(flags))
    names = []
    for how in (pe.unsafe_exec, pe.safe_exec):
      T.settings_reset()
      names.append([k.get('named') for a, k in how(py)])
    if names[0] != names[1]:
      return ('safe and plain execution differ', names)
    return names[0], shape(py)

  def flush():
    if not batch:
      return
    forms = [lambda s: f'output 1 named "{s}"', lambda s: f'C: "{s}" output 1 named "[C]"', lambda s: f'output 1 named "[A]{s}[B]"', lambda s: f'loop Z over {{1}} {{ if Z {{ output 1 named "{s}" }} }}']
    for fi, f in enumerate(forms):
      want = []
      for s in batch:
        full = s if fi != 2 else f'[A]{s}[B]'
        want.append(''.join(p if isinstance(p, str) else str({'A': A, 'B': B}[p[1]]) for p in lang.str_parts(full)))
      src = pre + ' '.join(f(s) for s in batch)
      benign = pre + ' '.join(f(harmless(s) if fi != 2 else harmless(f'[A]{s}[B]')[3:-3]) for s in batch)
      got = observe(lambda: run(src), 60)
      ok = isinstance(got, tuple) and got[0] == want and got[1] == observe(lambda: run(benign), 60)[1]
      ctx.evaluations += 1
      ctx.traces += len(batch)
      ctx.transitions += 2 * len(batch)
      if not ok:
        for s, w in zip(batch, want):
          one = observe(lambda: run(pre + f(s)), 30)
          if not (isinstance(one, tuple) and one[0] == [w]):
            ctx.violation(f'{pre + f(s)!r} flags {flags}', [w], one)
            break
          h = harmless(s) if fi != 2 else harmless(f'[A]{s}[B]')[3:-3]
          if one[1] != run(pre + f(h))[1]:
            ctx.violation(f'{pre + f(s)!r} flags {flags}', 'the same program structure as for a harmless text', one[1])
            break
        else:
          ctx.violation(f'{src!r} flags {flags}', want, got)
      for w in want:
        ctx.state(w)
    ctx.sample(f'name {batch[0]!r}')
    batch.clear()
  for s in gen():
    if s == '' or chr(34) in s or chr(10) in s or any(isinstance(p, tuple) and p[1] not in ('A', 'B') for p in lang.str_parts(s)) or any(isinstance(p, tuple) and p[1] not in ('A', 'B') for p in lang.str_parts(f'[A]{s}[B]')):
      continue
    batch.append(s)
    if len(batch) >= size:
      flush()
  flush()


ADV = ['{', '}', '\\', "'", '[', ']', 'A', 'n', '%', '\r', '\0', '\t', '#', ' ', 'N', '0']
HARD = ['{', '}', '\\', '[', ']', 'A', "'", 'x']


def strings(alpha, n, first):
  for k in range(n):
    for s in itertools.product(alpha, repeat=k):
      yield first + ''.join(s)


def chars(lo, hi):
  for c in range(lo, hi):
    if chr(c) in '"\n' or 0xd800 <= c < 0xe000:
      continue
    yield chr(c)
    yield 'a' + chr(c) + 'b'
    yield '[A]' + chr(c)
    yield '\\' + chr(c)
    yield '{' + chr(c) + '}'


INJECT = ["'); import os; ('", '"+str(1)+', '{A}', '{A!r}', '{1+1}', '{__import__(chr(111)+chr(115))}', "{vars['A']}", '{{A}}', '\\x41', '\\u0041', '\\N{BULLET}', '\\', '\\\\', '\\\\\\', '\\"'[:1], '{', '}', '{{', '}}', '{}', '{0}', '%s', '%(A)s', "'''", '# comment', '[A][B]', '[A]{B}', '[A}', '{A]', '[[A]]', '[[[B]]]', '\r\rprint(1)', '\x0b', '\x0c', '\x1c', '\x1d', '\x1e', '\x85', '\u2028', '\u2029', '\ufeff', '\u202e', '\U0001f600', 'e\u0301', 'x' * 5000, '[A]' * 200, '{' * 101, '\\' * 101, 'f"', "rb'", '=', ':', ';', '$A', '${A}', '`A`', '<A>', '[a]', '[A ]', '[ A]', '[1]', '[A1]', 'named', 'output 2', '[A]=[B]', '\\n', '\\0', '\t', '  lead', 'trail  ', 'True', '[AB', 'AB]']


def printed(ctx, flags):
  """[VARIABLE] shows the printed value of whatever the variable holds"""
  import progs
  import target as T
  import dice_calc.parser.parse_and_exec as pe
  import fastparse
  fastparse.install()
  from dice_calc.parser import compile_anydice
  exprs = ['1', '0', '-7', '1+1', '7/2', '2^5', '1.5', '{1,2}', '{}', 'd6', '2d6', '-(d6)', '3d{1,1,2}', 'd{}', 'd6+1', '1@3d6', '{1,2}@3d6', '0d6', '-1d6', '2d-4', 'd6>3', '!(d6)', '[explode d4]', '[highest 2 of 3d4]', '(d2)d3', '{1}+1', '{1}=1', '#(3d6)', '100d2', 'd{1..6}', 'd{0}', '"txt"', '[sort {1,2}]', 'd(d4)', '2d(3d2)', 'd2.5'[:2], '1000000', '{d4}', '[absolute -3]', '[reverse {1,2}]']

  def run(src, how):
    T.settings_reset()
    return [(str(a[0]), k.get('named')) for a, k in getattr(pe, how)(compile_anydice(src, flags=progs.flags_of(flags)))]
  for e in exprs:
    for how in ('unsafe_exec', 'safe_exec'):
      for src, f in ((f'A: {e} output A named "x[A]y[A]"', lambda v: f'x{v}y{v}'), (f'function: f A {{ output A named "[A]!" result: 1 }} B: [f {e if e[0] != chr(34) else "4"}] output 1', lambda v: f'{v}!'), (f'A: {e} loop B over {{1}} {{ if B {{ output A named "<[A]>[B]" }} }}', lambda v: f'<{v}>1')):
        ctx.evaluations += 1
        ctx.transitions += 1
        got = observe(lambda: run(src, how))
        ok = isinstance(got, list) and got and got[0][1] == f(got[0][0])
        ctx.outcome(got)
        ctx.state(repr((src, got)))
        if not ok:
          ctx.violation(f'{src!r} flags {flags}', 'name shows the value as printed', got)
  for c, v in (('1>0', 1), ('1=2', 0)):
    src = f'A: {c} output A named "v[A]"'
    got = observe(lambda: [k.get('named') for a, k in pe.unsafe_exec(compile_anydice(src, flags=progs.flags_of(flags)))])
    ctx.evaluations += 1
    if got != [f'v{v}']:
      ctx.violation(src, [f'v{v}'], got, 'C16-comparison-label' if got == [f'v{bool(v)}'] else None)


def jobs(tier):
  q = tier == 'quick'
  js = []
  fls = [None, ('scope',), ('opint', 'lib')] if q else FLAGS
  P = 4
  for fl in fls:
    for k in range(P):
      js.append(Job(f'names {k} {fl}', names, fl, k, P))
    js.append(Job(f'patterns {fl}', patterns, fl, ['a', 'f', 'X', 'x', 'fa'] if q else ['a', 'f', 'X', 'x', 'fa', 'to', 'dd'], 3))
    js.append(Job(f'variables {fl}', variables, fl))
    js.append(Job(f'long names {fl}', long_names, fl))
    js.append(Job(f'printed {fl}', printed, fl))
    js.append(Job(f'injections {fl}', texts, lambda: (a + b for a in [''] + INJECT for b in INJECT), fl, 40))
  for fl in (None, ('scope',)):
    for c in ADV:
      js.append(Job(f'texts {c!r} {fl}', texts, lambda c=c: strings(ADV, 3 if q else 4, c), fl))
    for c in HARD:
      js.append(Job(f'texts {c!r} hard {fl}', texts, lambda c=c: strings(HARD, 4 if q else 5, c), fl))
    for lo in range(0, 0x240 if q else 0x3000, 0x120):
      js.append(Job(f'characters {lo:#x} {fl}', texts, lambda lo=lo: chars(lo, lo + 0x120), fl))
    for lo in (0x2000, 0xfe00, 0x1f600, 0x10fff0):
      js.append(Job(f'characters {lo:#x}+ {fl}', texts, lambda lo=lo: chars(lo, min(lo + 0x80, 0x110000)), fl))
  js.append(Job('undefined', undefined))
  if not q:
    for k in range(32):
      js.append(Job(f'name pairs {k}', name_pairs, None, k, 32))
  return js
