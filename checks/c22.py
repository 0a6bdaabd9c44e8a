"""C22: every rejected text of a bounded space: the error names the offending characters / the first token that cannot
follow, with offset, line and column."""
import ast
import itertools
import lang
from mc import Job, observe
PID = 'C22'
META = dict(
  rule='text -> failing compilation -> the entries (what, offset, line, column) in the error.  Explored: all short strings over an adversarial alphabet with line breaks; all token sequences of length 2 in every context and all single-token edits of sample programs, laid out with every kind of separator (spaces, line breaks, comments spanning lines); every placement of one and two illegal characters between, in front of and behind the tokens and inside strings and comments.  Oracle: an independent lexer with positions (all illegal characters, unclosed strings) and the position at which an independent predictive parser stops (the first token that no well-formed program can have there)',
  bounds='quick: strings to length 5 over 8 characters alone and 4 in 2 contexts, sequences of 2 tokens in 17 contexts with 3 separators, 14 sample programs edited with 2 separators each, all pairs of illegal characters in 4 programs; thorough: strings to length 6, 7 separators; both tiers also: unusual characters in front of an error',
  assumptions=['only the first reported syntax error is claimed; later ones depend on error recovery', 'for a premature end of the text no place is claimed', 'empty and adjacent string literals and functions without any name are not specified', 'the place of a string is its opening quote or its first character'])


def scan(s):
  """-> (illegal [(what, offset)], tokens [(kind, text, offset)])"""
  bad, toks = [], []
  i, n = 0, len(s)

  def run(i, cs):
    while i < n and s[i] in cs:
      i += 1
    return i
  while i < n:
    c = s[i]
    if c in ' \t\n':
      i += 1
    elif c == '\\':
      j = s.find('\\', i + 1)
      if j < 0:
        bad.append((c, i))
        i += 1
      else:
        i = j + 1
    elif c in lang.DIG:
      j = run(i, lang.DIG)
      toks.append(('num', s[i:j], i))
      i = j
    elif c in lang.UP:
      j = run(i, lang.UP)
      toks.append(('up', s[i:j], i))
      i = j
    elif c in lang.LOW:
      j = run(i, lang.LOW)
      w = s[i:j]
      toks.append(('d' if w == 'd' else w if w in lang.WORDS else 'low', w, i))
      i = j
    elif c == '"':
      j = i + 1
      while j < n and s[j] != '"':
        if s[j] == '\n':
          bad.append(('\n', j))
        j += 1
      if j >= n:
        bad.append((None, n))
      toks.append(('str', s[i + 1:j], i))
      i = j + 1
    elif s[i:i + 2] in ('!=', '..'):
      toks.append((s[i:i + 2], s[i:i + 2], i))
      i += 2
    elif c in '+-*/^:<>=@#|&!.,(){}[]':
      toks.append((c, c, i))
      i += 1
    else:
      bad.append((c, i))
      i += 1
  return bad, toks


def place(s, off):
  return (off, s.count('\n', 0, off) + 1, off - (s.rfind('\n', 0, off) + 1) + 1)


def expect(text):
  """-> ('illegal', [(what, offset, line, col)]) | ('token', kind, text, offset) | None (not claimed)"""
  bad, toks = scan(text)
  if bad:
    return ('illegal', [(c,) + place(text, o) for c, o in bad])
  if any(toks[i][0] == 'function' and [t[0] for t in toks[i + 1:i + 3]] == [':', '{'] for i in range(len(toks))):
    return None
  p = lang.Parser([t[:2] for t in toks])
  try:
    p.program()
  except lang.Skip:
    return None
  except lang.ParseError as e:
    if e.incomplete or str(e).startswith('type'):
      return None
    for k in toks[:p.i]:
      if k[0] == 'str' and k[1] == '':
        return None
    k = toks[p.i]
    if k[0] == 'str' and k[1] == '':
      return None
    return ('token',) + k
  return None


def entries(msg):
  """the list of entries an error message ends with"""
  try:
    r = ast.literal_eval(msg[msg.index('['):])
    return [tuple(x) for x in r]
  except Exception:
    return msg


def failure(text, flags=None):
  from dice_calc.parser import compile_anydice
  try:
    compile_anydice(text, flags=flags)
  except Exception as e:
    return entries(str(e))
  return 'compiled'


def check(ctx, text, flags=None):
  exp = expect(text)
  if exp is None:
    ctx.count('nothing claimed')
    return
  ctx.evaluations += 1
  ctx.transitions += 1
  got = observe(lambda: failure(text, flags), 30)
  ctx.state(text)
  ctx.outcome(got)
  ctx.count(exp[0])
  if exp[0] == 'illegal':
    want = exp[1]
    ok = isinstance(got, list) and len(got) == len(want) and all(len(g) == 4 and g[1:] == w[1:] and (g[0] == w[0] or w[0] is None and isinstance(g[0], str)) for g, w in zip(got, want))
  else:
    _, kind, tok, off = exp
    want = (tok,) + place(text, off)
    ok = isinstance(got, list) and got and len(got[0]) == 4
    if ok:
      g = got[0]
      if kind == 'str':
        ok = g[1] in (off, off + 1) and g[1:] == place(text, g[1]) and isinstance(g[0], str) and g[0] != '' and text.startswith(g[0], g[1])
      else:
        ok = g == want
  if not ok:
    ctx.violation(f'{text!r} flags {flags}', want, got)
  else:
    ctx.sample(f'{text!r}: {got!r}')


SEPS = [' ', '\n', ' \\c\nc\n\\ ', '\n\n\t', '\t', '\\\\\n', ' \n\\x\\\n\n ']


def setup():
  import c15
  return c15.setup(None)


def join(ts, sep, k=0):
  return sep * k + sep.join(ts)


def sequences(ctx, context, n, toks, seps):
  import c15  # noqa
  if not setup():
    n, ctx.exhaustive = 1, False
  for k in range(1, n + 1):
    for s in itertools.product(toks, repeat=k):
      for sep in seps:
        check(ctx, (sep + context).replace(' {}', sep + '{}').format(sep.join(s)))


def edits(ctx, i, seps):
  import c15
  fast = setup()
  toks = ['"' + t + '"' if k == 'str' else t for k, t in lang.lex(c15.SAMPLES[i])]
  seen = set()
  for j in range(len(toks) + 1):
    for a in [toks[:j] + [t] + toks[j:] for t in (c15.TOK if fast else c15.CORE[:6])] + [toks[:j] + toks[j + 1:], toks[j:], toks[:j] + toks[j + 2:]] + [toks[:j] + [t] + toks[j + 1:] for t in (c15.TOK if fast else ['1', ')'])]:
      for n, sep in enumerate(seps):
        s = join(a, sep, n % 2)
        if s not in seen:
          seen.add(s)
          check(ctx, s)


BADCHARS = ['?', '\r', '\\', '"', '\x00', '$', ';', "'", '`', '~', '%', '\x0b', '\x0c', '\xa0', 'é', '\u2028', '\u0660', '\U0001f3b2']
PROGS = ['output 1\noutput 2d6 named "a [B] c"\n', 'A: {1,2}\n\\ a comment\nover lines \\\noutput A\n\n', 'function: f N:n {\n\tresult: N + 1\n}\noutput [f 3]', '\n\n  output 1 \\x\\ \\y\n\\ output "s"\n\n']


def illegal(ctx, i):
  fast = setup()
  text = PROGS[i]
  spots = range(len(text) + 1)
  for c in BADCHARS:
    for k in spots:
      check(ctx, text[:k] + c + text[k:])
  for c, c2 in (('?', '?'), ('?', '$'), ('"', '?'), ('\\', '?')) if fast else (('?', '$'),):
    for a, b in itertools.combinations(spots, 2):
      check(ctx, text[:a] + c + text[a:b] + c2 + text[b:])


def strings(ctx, base, al, n, first):
  if not setup():
    n, ctx.exhaustive = 2, False
  for k in range(n):
    for s in itertools.product(al, repeat=k):
      check(ctx, base.format(first + ''.join(s)))


def options(ctx):
  """the same with every option; long programs; far positions"""
  import progs
  setup()
  texts = ['output 1\noutput 2 3', 'output ?', '\n\n)', 'output 1\n}', '\\\n\n\n\\ output [f 1\n2..3]', 'output 1 "x\ny"']
  for fl in progs.ALLFLAGS if hasattr(progs, 'ALLFLAGS') else [(), ('scope',), ('opint',), ('lib',), ('nocheck',), ('scope', 'opint', 'lib')]:
    for t in texts:
      check(ctx, t, progs.flags_of(fl) if fl else None)
  for n in (1, 9, 10, 99, 100, 256, 1000):
    for end in ('output )', 'output ?', '?', 'A: 1 2', '\\\n\\ ]', 'output "a\nb"'):
      check(ctx, 'output 1\n' * n + end)
      check(ctx, '\n' * n + end)
      check(ctx, ' ' * n + end)
      check(ctx, 'output 1 ' * n + end + ' output 3')
      check(ctx, '\\' + 'c\n' * n + '\\' + end)
      if n <= 256:
        # far right on a line that is not the first one
        for head in ('output 1\n', 'A: 2\n\n', '\\ \n \\'):
          check(ctx, head + ' ' * (4 * n) + end)
          check(ctx, head + 'output 1 ' * n + end + '\noutput 3')
          check(ctx, head + 'output 1' + '+1' * (2 * n) + ' ' + end)
          check(ctx, head + 'output 1 named "' + 'x' * (5 * n) + '" ' + end)
    check(ctx, '?\n' * n)
    check(ctx, 'output 1 ?' * n)


INSIDE = ['\r', '\t', '\x0b', '\x0c', '\x1c', '\x1d', '\x1e', '\x85', '\u2028', '\u2029', '\x00', '\x08', '\x7f', '\xa0', '\xad', 'é', 'ß', 'e\u0301', '\u200d', '\u202e', '\ufeff', '\u0660', '漢', '\U0001f3b2', '\U0001f468\u200d\U0001f469', '\ud800', '{', '}', "'", '$', '[A]', '[', ']', '%d', '\\\\', '\r\n']


def inside(ctx, part):
  """any characters inside texts and comments in front of the error, on its line and on lines before"""
  setup()
  for c, n in itertools.product(INSIDE[part::4], (1, 2, 7)):
    x = c * n
    quoted = [] if '\n' in c or '\\' in c else [f'output 1 named "{x}"', f'output 1 named "a{x}b"', f'set "{x}" to "{x}"', f'output "{x}" A: "{x}[A]"']
    remark = [] if '\\' in c else [f'\\{x}\\', f'output 1 \\a{x} b\\', f'\\"{x}\\ output \\{x}"\\ 1']
    for head in quoted + remark:
      for gap in (' ', '\n', '\t', '', '\n \\\n' + ('' if '\\' in c else x) + '\\ '):
        for end in ('$', ')', 'output 2 3', '"'):
          check(ctx, head + gap + end)
          check(ctx, head + gap + end + ' ' + head)


def jobs(tier):
  import c15
  q = tier == 'quick'
  js = []
  for i, (c, _) in enumerate(c15.CTX):
    for k in range(0, 3 if q else len(SEPS)):
      js.append(Job(f'sequences {k} in {c}', sequences, c, 2, c15.TOK, SEPS[k:k + 1]))
  for i in range(len(c15.SAMPLES)):
    js.append(Job(f'edits {i}', edits, i, (SEPS[1:3] if q else SEPS)))
  js += [Job(f'illegal {i}', illegal, i) for i in range(len(PROGS))]
  al = ['"', '\\', '\n', '?', 'A', '1', ' ', ')']
  for c in al:
    for base in ('{}', 'output 1\n{}', 'output "a{}'):
      js.append(Job(f'strings {c!r} {base!r}', strings, base, al, (5 if base == '{}' else 4) if q else 6, c))
  js += [Job('options', options)] + [Job(f'inside {k}', inside, k) for k in range(4)]
  return js
