"""C14: every small program (statements, blocks, functions, scopes), compiled and executed, against the independent interpreter."""
import itertools
from mc import Job
PID = 'C14'
META = dict(
  rule='every sequence of statements from an alphabet of assignments, outputs (plain and named), if/else-if/else, loops and nested blocks; every function header (parameter types n s d or none, repeated names, word positions) times every argument kind times a set of bodies; recursion to every depth under every limit; definition order and redefinition; every combination of reads and writes of variables at top level, in a caller and in its callee; set statements between outputs; each under the default options and the scope option, executed plainly and restricted; oracle: an independent parser and interpreter',
  bounds='quick: statement sequences of length 2 over 60 statements and length 3 over 14, functions of up to 2 parameters x 7 argument kinds x 9 bodies and 3 parameters x 4 argument kinds, nested calls to depth 3, recursion depth to 14, scope programs over 5 levels; thorough: length 2 over 150 and length 3 over 25 statements, 3 parameters under all options, all bodies for every wording; both tiers also: bodies and programs of up to 300 statements',
  assumptions=['default options: only programs on which lexical and copied scopes agree are judged', 'calling a function at top level before its definition, function definitions inside blocks, result outside a function, sequences or texts as conditions are not specified'])

SIMPLE = ['A: A+1', 'B: A*2', 'A: B', 'output A', 'output B named "x[A]y[B]"', 'output A+B named "t"', 'A: {A,B}+0', 'B: 7-B']
SHORT = ['A: A+1', 'output A', 'B: A*2', 'output B named "[A]"']
CONDS = ['A>1', 'A=1', 'A', 'A-1', 'B>A', 'A=B']


def blocks(bodies, bodies2):
  for c in CONDS:
    for x in bodies2:
      yield f'if {c} {{ {x} }}'
  for c in CONDS[:3]:
    for x, y in itertools.product(bodies2, repeat=2):
      yield f'if {c} {{ {x} }} else {{ {y} }}'
  for c, d in (('A=1', 'A=2'), ('A>2', 'A>1'), ('B=A', 'B'), ('A', 'B')):
    for x, y in itertools.product(bodies2[:2], repeat=2):
      yield f'if {c} {{ {x} }} else if {d} {{ {y} }}'
      for z in bodies2[:2]:
        yield f'if {c} {{ {x} }} else if {d} {{ {y} }} else {{ {z} B: B+1 }}'
  for s in ('{1,2}', '{1..A}', '{3,3,A}', '{}', '{2..1}', '{B,{A,1},1..2}'):
    for x in bodies2:
      yield f'loop A over {s} {{ {x} }}'
      yield f'loop I over {s} {{ {x} B: B+I }}'


def nested():
  leaf = ['A: A+1', 'output A named "i[A]"', 'B: B+A', 'if A>1 { B: 9 } else { B: B+1 }', 'loop I over {1,2} { A: A+I }', '']
  heads = ['if A>1', 'if B=5', 'loop A over {1..2}', 'loop I over {A,3}', 'if A=1 { } else', 'if A=1 { output 1 } else if B=5']
  for h1, h2 in itertools.product(heads, repeat=2):
    for x, y in itertools.product(leaf, repeat=2):
      yield f'{h1} {{ {h2} {{ {x} }} {y} }}'
      yield f'{h1} {{ {x} {h2} {{ {y} }} output B }}'


def chains(k, empty=True):
  """chains of k conditional blocks, any of them empty, with and without else"""
  conds = ['A=1', 'A=2', 'A>4', 'A>2', 'A=A'][:k]
  for e in itertools.product((0, 1), repeat=k):
    for els in (None, '', 'B: B+100'):
      body = [('' if z and empty else f'B: B*10+{i + 1}') for i, z in enumerate(e)]
      yield ' else '.join(f'if {c} {{ {b} }}' for c, b in zip(conds, body)) + ('' if els is None else f' else {{ {els} }}')


def chain_progs(k):
  forms = ['{0} output B', 'loop A over {{1..6}} {{ {0} }} output B',
           'function: f A B {{ {0} result: B }} output [f 1 5] output [f 2 5] output [f 3 5] output [f 6 5]',
           'function: f A:n B:n {{ {0} result: B }} output [f d6 d2]',
           'function: f A B {{ loop A over {{A..A+3}} {{ {0} }} result: B }} output [f 1 5]',
           'loop I over {{1..2}} {{ if I=1 {{ {0} }} else {{ {0} output B }} A: A+1 }} output B']
  for c in chains(k):
    for form in forms:
      yield 'A: 1 B: 2 ' + form.format(c)


def with_ends(seqs, starts=('A: 1 B: 5', 'A: 2 B: 2')):
  for s in seqs:
    for st in starts:
      yield f'{st} {" ".join(s)} output A output B'


def statements(tier):
  q = tier == 'quick'
  blk = list(blocks(SHORT, SHORT[:3]))
  stm = SIMPLE + blk
  for s in stm:
    yield (s,)
  core = SIMPLE[:6] + [s for i, s in enumerate(blk) if i % 7 == 0]
  if q:
    for a, b in itertools.product(SIMPLE, blk):
      yield (a, b)
    for a, b in itertools.product(core, repeat=2):
      yield (a, b)
    for a in itertools.product(SIMPLE[:4] + ['if A>1 { A: A-1 } else { B: B+A }', 'loop A over {1..B} { B: B-1 }'], repeat=3):
      yield a
  else:
    yield from itertools.product(stm, repeat=2)
    yield from itertools.product(core, repeat=3)
    yield from itertools.product(SIMPLE[:4] + ['if A>1 { A: A-1 } else { B: B+A }', 'loop A over {1..B} { B: B-1 }'], repeat=4)


def statement_jobs(ctx, flags, tier, part, parts):
  import progs
  progs.run_programs(ctx, (p for i, p in enumerate(with_ends(statements(tier))) if i % parts == part), flags)


def nested_jobs(ctx, flags):
  import progs
  progs.run_programs(ctx, with_ends((s,) for s in nested()), flags)


# ---------------------------------------------------------------- functions
ARGS = ['2', '{1,3}', '(2d2)', '(d{1,1,4})', '0', '{}', '(d{})', '(d2)', '-1']
BODIES1 = ['result: A', 'result: A+0', 'if A=1 { result: 5 } result: A*2', 'X: A+1 result: X*X', '', 'A: A+A result: A', 'if A>1 { result: d{} } result: A', 'loop I over {1..3} { if I>1 { result: I+A } }', 'output A result: 1', 'if A>2 { result: A }', 'result: #A', 'loop I over A { result: I }', 'result: 1@A', 'result: d{1..2}+A', 'result: {A,7}']
BODIES2 = ['result: A+B', 'result: A-B*2', 'if A>B { result: A } else { result: B }', 'result: B', 'result: A', 'A: B B: 3 result: A*B', 'if A=B { result: 9 }', 'loop I over A { if I=B { result: I*10 } } result: 0', 'result: 0']
TYPES = ['', ':n', ':s', ':d']
OUT = ['{}', '{} + 0', '1 + {}']


def one_param():
  for ty, a, b in itertools.product(TYPES, ARGS, BODIES1):
    for words in ('f A{}', 'A{} f', 'f A{} g'):
      h = words.format(ty)
      c = words.replace('A{}', a)
      yield f'function: {h} {{ {b} }} output [{c}]'
  for a in ARGS:
    yield f'function: f A:n {{ result: A }} output [f {a}] output [f {a}] + 1 output {{[f {a}]}} + 0 output ([f {a}]) named "n"'


def two_params(tier):
  names = [('A', 'B'), ('A', 'A'), ('B', 'A')]
  wordings = ['f {} {}', 'f {} with {}', '{} f {}', '{} {} f', '{} {}']
  args = ARGS[:4] + ['(d{})', '3', '{}']
  for (x, y), t1, t2, i in itertools.product(names, TYPES, TYPES, range(3)):
    w = wordings[i]
    for a, b in itertools.product(args, repeat=2):
      bodies = BODIES2 if (x, y) == ('A', 'B') and i == 0 else BODIES2[3:5] + BODIES2[-1:]
      for k, body in enumerate(bodies):
        if (x, y) == ('A', 'A') and 'B' in body:
          body = body.replace('B', 'A')
        if tier == 'quick' and i and k:
          continue
        if ' ' in w.format(a, b) and (a.startswith('-') or b.startswith('-')):
          continue
        yield f'function: {w.format(x + t1, y + t2)} {{ {body} }} output [{w.format(a, b)}]'
  for w in wordings:
    for t1, t2 in itertools.product(TYPES, repeat=2):
      yield f'function: {w.format("A" + t1, "B" + t2)} {{ result: A*10+B }} output [{w.format("2", "{1,4}")}] output [{w.format("A", "B")}]'.replace('function', 'A: 3 B: 4 function', 1)


def three_params():
  for ts in itertools.product(TYPES, repeat=3):
    for names in itertools.product('AB', repeat=3):
      for args in itertools.product(['2', '{1,3}', '(2d2)', '(d{})'], repeat=3):
        h = ' '.join(n + t for n, t in zip(names, ts))
        r = 'A*100+B' if 'A' in names and 'B' in names else names[0]
        yield f'function: f {h} {{ result: {r} }} output [f {" ".join(args)}]'


def functions(ctx, flags, which, tier, part=0, parts=1):
  import progs
  gen = {'one': one_param, 'two': lambda: two_params(tier), 'three': three_params}[which]()
  progs.run_programs(ctx, (p for i, p in enumerate(gen) if i % parts == part), flags)


def recursion(tier):
  lims = [None, 1, 2, 3, 5, 9, 10, 11] + ([] if tier == 'quick' else [4, 6, 7, 8, 12, 15])
  for lim in lims:
    st = f'set "maximum function depth" to {lim} ' if lim else ''
    for n in range(0, 15):
      yield st + f'function: f N:n {{ if N=0 {{ result: 0 }} result: N+[f N-1] }} output [f {n}]'
    for n in (0, 1, 2, 5, 9, 10, 11, 12):
      yield st + f'function: f N {{ result: 1+[g N-1] }} function: g N {{ if N<1 {{ result: 100 }} result: 10+[f N] }} output [f {n}] output [g {n}] output [f 1]'
      yield st + f'function: f N {{ if N=0 {{ result: 1 }} result: [f N-1]+[f N-1] }} output [f {min(n, 6)}]'
      yield st + f'function: f N {{ if N<=0 {{ output N named "deep" result: 3 }} A: [f N-1] result: A }} output [f {n}] output [f 1]'
      yield st + f'function: f N:n {{ if N=1 {{ result: 2 }} result: [f N-1]+1 }} output [f d2] output [f {{1,{n}}}] output [f {n}]'
    yield st + 'function: f { result: [f] } output [f] output [f]+1 function: g { result: 4 } output [g]'
    yield st + 'function: f N:n { result: [f N] } output [f d3] output [f 1] function: g { result: 4 } output [g]'
    for k in range(1, 13):
      defs = ' '.join(f'function: g{"abcdefghijklmnop"[i]} N {{ result: [g{"abcdefghijklmnop"[i + 1]} N]+1 }}' for i in range(k))
      yield st + f'{defs} function: g{"abcdefghijklmnop"[k]} N {{ result: N }} output [ga 5]'


def nested_calls():
  defs = 'function: f N { result: N+1 } function: N g { result: N*10 } function: N h M { result: N*100+M } function: z { result: 7 } function: p N:n q { result: N-1 }'
  leaf = ['3', '[z]', '(2d2)', '{1,2}', 'A']
  wraps = ['[f {}]', '[{} g]', '[p {} q]', '[{} h 2]', '[1 h {}]', '-{}', '({})+1', '{{{},1}}', '1@{{{},2}}']
  lv = leaf
  for depth in range(3):
    nxt = [w.format(x) for w, x in itertools.product(wraps, lv)]
    for x in nxt:
      yield f'A: 4 {defs} output {x}'
      yield f'A: 4 {defs} B: {x} if B=[f 3] {{ output 1 }} else {{ output B }} loop I over {{{x},2}} {{ output I }}'
    lv = nxt
  for x, y in itertools.product([w.format(l) for w, l in itertools.product(wraps[:6], leaf)], repeat=2):
    yield f'A: 4 {defs} output [{x} h {y}]'


def ordering():
  d1 = ['function: f N { result: N+1 }', 'function: f N:n { result: N*10 }', 'function: f N:s { result: 1@N+0 }', 'function: g N { result: [f N]+100 }', 'function: f A B { result: A*1000+B }', 'function: g N { result: [f N N]+1 }']
  calls = ['output [f 3]', 'output [g 3]', 'output [f {5,6}]', 'output [f 2 3]', 'A: [f 4] output A']
  for x, y in itertools.product(d1, repeat=2):
    for c1, c2 in itertools.product(calls, repeat=2):
      yield f'{x} {c1} {y} {c2}'
      yield f'{x} {y} {c1} {c2}'
  for z in itertools.permutations(d1, 3):
    for c in calls:
      yield ' '.join(z) + ' ' + c


def redefined():
  # library functions redefined, and not
  libs = [('absolute {}', 1), ('{} contains {}', 2), ('count {} in {}', 2), ('explode {}', 1), ('highest {} of {}', 2), ('lowest {} of {}', 2), ('highest of {} and {}', 2), ('lowest of {} and {}', 2), ('maximum of {}', 1), ('reverse {}', 1), ('sort {}', 1)]
  ex = {'absolute {}': ['-3'], '{} contains {}': ['{2,3}', '3'], 'count {} in {}': ['{3}', '{3,3,1}'], 'explode {}': ['d2'], 'highest {} of {}': ['2', '(3d2)'], 'lowest {} of {}': ['2', '(3d2)'], 'highest of {} and {}': ['2', '5'], 'lowest of {} and {}': ['2', '5'], 'maximum of {}': ['d5'], 'reverse {}': ['{2,3}'], 'sort {}': ['{2,3}']}
  for w, n in libs:
    call = '[' + w.format(*ex[w]) + ']'
    head = w.format(*'AB'[:n])
    yield f'output {call}'
    yield f'function: {head} {{ result: 77 }} output {call}'
    yield f'output {call} function: {head} {{ result: 77 }} output {call}'
    yield f'function: {head} {{ result: A }} output {call} output [absolute -4] output [sort {{1,9}}]'
    yield f'function: x {{ result: {call} }} output [x] function: {head} {{ result: 78 }} output [x]'
    yield f'function: x {head} {{ result: 79 }} output {call} output [x {w.format(*ex[w])}]'


def scopes(tier):
  tops = ['', 'G: 5', 'G: 5 L: 2', 'L: 2']
  fbody = ['result: G', 'G: 8 result: G', 'G: 8 result: [g]', 'L: 4 result: [g]', 'result: [g]+L', 'loop G over {3,4} { L: [g] } result: L', 'X: [g] result: X+G', 'if G=5 { G: 6 } result: [g]+G']
  gbody = ['result: G', 'result: L', 'G: 9 result: G', 'result: 1', 'L: 3 G: L result: G+L', 'loop G over {1,2} { } result: G', 'if L=2 { result: 20 } result: L']
  ends = ['output [f]', 'output [f] output G', 'G: 1 output [f] output G output L', 'loop G over {1,2} { output [f] named "g[G]" } output G', 'output [g] output [f] output [g]']
  for t, fb, gb, e in itertools.product(tops, fbody, gbody, ends):
    yield f'{t} function: f {{ {fb} }} function: g {{ {gb} }} {e}'
  for t, gb, e in itertools.product(tops, gbody, ('output [f 3]', 'output [f d2] output G', 'output [f {1,2}] output [f 1] output G')):
    for p in ('G', 'G:n', 'L:n', 'L', 'G:s', 'L:d'):
      v = p[0]
      yield f'{t} function: f {p} {{ result: {v} }} function: g {{ {gb} }} {e}'
      yield f'{t} function: f {p} {{ {v}: {v}+1 result: {v}+0 }} {e}'
      yield f'{t} function: f {p} {{ result: [g]+0 }} function: g {{ {gb} }} {e}'
      yield f'{t} function: f {p} {{ result: [h 1] }} function: h H {{ L: H result: [g] }} function: g {{ {gb} }} {e}'
  if tier != 'quick':
    for t in tops:
      for a, b, c, d in itertools.product(['G: 2', 'L: 2', 'X: 1', 'if G=5 { L: 7 }'], ['G: 3', 'L: G', 'X: 2'], ['L: 4', 'G: L+1', ''], ['G', 'L', 'G*L', 'G+[e]']):
        yield f'{t} function: a {{ {a} result: [b] }} function: b {{ {b} result: [c] }} function: c {{ {c} result: [dd] }} function: dd {{ result: {d} }} function: e {{ G: 100 result: L }} output [a] G: 6 output [a] output G'


def settings_progs():
  sets = ['set "explode depth" to 1', 'set "explode depth" to 3', 'set "position order" to "lowest first"', 'set "position order" to "highest first"', 'set "maximum function depth" to 2', 'set "maximum function depth" to 12', 'D: 3 set "explode depth" to D', 'set "explode depth" to 1+1', 'X: "explode depth" set "[X]" to 4', 'set "explode depth" to 0', 'set "explode depth" to -1', 'set "position order" to "middle first"', 'set "position order" to 3', 'set "maximum function depth" to 0', 'set "nothing" to 1', 'set "explode depth" to d2']
  fn = 'function: f N { if N=0 { result: 0 } result: 1+[f N-1] }'
  probe = 'output [explode d3] output 1@2d3 output 2@2d3 output [f 5]'
  for a, b in itertools.product(sets, repeat=2):
    yield f'{fn} {a} {probe} {b} {probe}'
    yield f'{fn} function: g {{ {a} result: [explode d2] }} output [g] {b} {probe}'
    yield f'{fn} if 1 {{ {a} }} else {{ {b} }} {probe}'
    yield f'{fn} loop I over {{1,2}} {{ {a} output [explode d2] {b} output 1@2d2 }} {probe}'


def labels():
  vals = ['1', '-2', '12', '1+1', '2*3-1', '7/2', '2^3', '{1,2}', '{}', '#{1,2,3}', '1@{5,6}', '"q"', '1.5', '{1..3}+0']
  names = ['[A]', 'a[A]b', '[A][A]', '[A] [B]', '[ A]', '[a]', '[]', '[[A]]', '[A', 'A]', '[A]]', '[AB]', '{A}', '[A_]', 'x', ' ', '[1]', '[A B]']
  for v, n in itertools.product(vals, names):
    yield f'A: {v} B: 5 output 1 named "{n}"'
    yield f'A: {v} B: 5 loop A over {{8,9}} {{ output A named "{n}" }}'
    yield f'A: 4 B: 5 function: f A {{ output 2 named "{n}" result: 1 }} output [f {v if v[0] != chr(34) else 3}]'
  for c in ('1>0', '1=2', '2!=2'):
    yield f'A: {c} B: 5 output 1 named "v[A]"'
  yield 'AB: 4 A: 1 A_: 2 output 1 named "[AB][A][A_]"'


LET = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'


def many_params():
  for n in range(4, 11):
    for k in range(1, n + 1):  # k different names, in three arrangements
      for arr in (lambda i: i % k, lambda i: min(i, k - 1), lambda i: (n - 1 - i) % k, lambda i: max(0, i - (n - k))):
        names = [LET[arr(i)] for i in range(n)]
        res = '+'.join(f'{v}*{10**i}' for i, v in enumerate(sorted(set(names))))
        for t in range(3):
          ts = [('', ':n', ':s', ':d')[(i * t) % 4 if t < 2 else 1] for i in range(n)]
          r = res if t != 1 else '+'.join(f'(1@{{{v}}}*0+#{{{v}}}*{10**i})' if ts[names.index(v)] == ':s' else f'({v}*{10**i})' for i, v in enumerate(sorted(set(names))))
          args = [str(i + 1) for i in range(n)]
          yield f'function: f {" ".join(v + t for v, t in zip(names, ts))} {{ result: {r} }} output [f {" ".join(args)}]'
          yield f'function: {" ".join(v + t + " w" for v, t in zip(names, ts))} {{ result: {r} }} output [{" ".join(a + " w" for a in args)}]'
          if t == 2:
            for j in range(n):
              yield f'function: f {" ".join(v + t for v, t in zip(names, ts))} {{ result: {r} }} output [f {" ".join(a if i != j else "(d2)" for i, a in enumerate(args))}]'


def deep_blocks():
  heads = ['if A>0 {', 'loop I over {1,2} {', 'if A=0 { output 7 } else {', 'if A=0 { output 7 } else if A>0 {', 'loop A over {1} {']
  for d in range(3, 13):
    for rot in range(len(heads) + 3):
      hs = [heads[(i + rot) % len(heads)] if rot < len(heads) else heads[(rot - len(heads)) * 2 % len(heads)] for i in range(d)]
      loops = sum('1,2' in h for h in hs)
      if loops > 6:
        continue
      for inner in ('B: B+1', 'output A named "i[B]"', ''):
        for mid in ('', 'B: B+100 '):
          body = inner
          for h in reversed(hs):
            body = f'{mid}{h} {body} }}' + (' B: B+10' if mid else '')
          yield f'A: 1 B: 0 {body} output B'
          yield f'function: f A B {{ {body} result: B }} output [f 1 0]'
  for d in range(1, 12):
    body = 'result: 5'
    for i in range(d):
      body = f'if A>{i} {{ {body} }} else {{ result: {i} }}'
    for a in range(0, d + 2):
      yield f'function: f A {{ {body} }} output [f {a}]'
    body = 'output I'
    for i in range(d):
      body = f'loop {LET[i]} over {{{i + 1}}} {{ {body} }}'
    yield f'I: 3 {body} output {LET[d - 1]}'


def long_programs():
  for n in list(range(1, 30)) + [40, 64, 100, 150, 256, 300]:
    yield 'A: 0 ' + 'A: A+1 ' * n + 'output A'
    yield ' '.join(f'output {i} named "n{i}"' for i in range(n))
    yield f'A: 0 loop I over {{1..{n}}} {{ A: A+I }} output A output I'
    yield 'A: {' + ','.join(str(i % 7) for i in range(n)) + '} output #A output A+0 output A=3'
    yield f'output {n} named "{"x" * n}[Z]"'.replace('[Z]', '') + f' A: {n} output 1 named "' + '[A]' * n + '"'
    if n <= 64:  # long bodies
      body = 'A: A+1 ' * n
      dif = ' '.join(f'{LET[i % 26]}: {i}+A' for i in range(n))
      for b in (body, dif, f'{dif} output B'):
        yield f'A: 0 B: 7 I: 9 loop I over {{4,5}} {{ {b} }} output I output A+B'
        yield f'A: 0 B: 7 loop I over {{4,5}} {{ loop J over {{1..2}} {{ {b} }} }} output I*10+J output A+B'
        yield f'A: 0 B: 7 if B=7 {{ {b} }} else {{ A: 3 }} output A+B'
        yield f'A: 0 B: 7 if B=8 {{ A: 3 }} else {{ {b} }} output A+B'
        yield f'A: 0 B: 7 if B=8 {{ A: 3 }} else if B=7 {{ {b} }} output A+B'
        yield f'A: 5 B: 7 function: f A B {{ {b} result: A+B }} output [f 1 2] output A output B'
        yield f'A: 5 B: 7 function: f I A:n {{ B: 3 loop I over {{4,5}} {{ {b} }} result: A+I+B }} output [f 1 2] output [f 1 d2] output A output B'
    if n <= 150:
      vs = [LET[i % 26] + '_' * (i // 26 % 3) + LET[i // 26 % 26] for i in range(n)]
      yield ' '.join(f'{v}: {i}' for i, v in enumerate(vs)) + ' output ' + '+'.join(f'{v}*{i % 5 + 1}' for i, v in enumerate(vs))
      ws = ['f' + ''.join('abcefghijk'[int(c)] for c in str(i)) for i in range(n)]
      yield ' '.join(f'function: {w} N {{ result: N+{i} }}' for i, w in enumerate(ws)) + ' ' + ' '.join(f'output [{w} 1000]' for w in ws)
      yield ' '.join(f'function: {w} {{ result: {i} }} output [{w}]' for i, w in enumerate(ws))
      yield 'A: 0 ' + ' '.join(f'function: {w} {{ result: {i} }} A: A+[{w}]' for i, w in enumerate(ws)) + ' output A'
    if n <= 64:
      conds = ' else '.join(f'if A={i} {{ B: {i * i} }}' for i in range(n))
      for a in sorted({0, n // 2, n - 1, n}):
        yield f'A: {a} B: -1 {conds} output B'
        yield f'A: {a} B: -1 {conds} else {{ B: -2 }} output B'
        yield f'function: f A {{ {conds.replace("B:", "result:")} result: 1000 }} output [f {a}]'
      yield 'output ' + ' + '.join(str(i) for i in range(n + 1))
      yield 'output ' + ' - '.join(str(i) for i in range(n + 1))
      yield 'output ' + ' * '.join('2' for i in range(n + 1)) + ' / 3'
      yield 'output ' + '-' * n + '5'
      yield 'output ' + '!' * n + '5'
      yield 'output ' + '(' * n + '5' + ')' * n
      yield 'output ' + '1+(' * n + '5' + ')' * n
      yield 'output #' + '{' * n + '1,2' + '}' * n
      yield 'output ' + '[absolute ' * n + '-3' + ']' * n
      yield 'output ' + ' & '.join('1' for i in range(n + 1)) + ' | 0'
      yield 'output ' + '>'.join(str(i % 2) for i in range(n + 1))


def gen_job(ctx, gen, flags, alone=False, part=0, parts=1, fail_step=1):
  import progs
  progs.run_programs(ctx, (p for i, p in enumerate(gen()) if i % parts == part), flags, alone=alone, fail_step=fail_step)


def jobs(tier):
  q = tier == 'quick'
  js = []
  P = 4 if q else 16
  allf = ('scope', 'opint', 'lib')
  for fl in (None, ('scope',)) + (() if q else (allf,)):
    for k in range(P):
      js.append(Job(f'statements {k} {fl}', statement_jobs, fl, tier, k, P))
    js.append(Job(f'nested {fl}', nested_jobs, fl))
    for k in range(1, 4 if tier == 'quick' else 6):
      js.append(Job(f'chains {k} {fl}', gen_job, lambda k=k: chain_progs(k), fl))
    js.append(Job(f'one parameter {fl}', functions, fl, 'one', tier))
    for k in range(4):
      js.append(Job(f'two parameters {k} {fl}', functions, fl, 'two', tier, k, 4))
    if fl is None or not q:
      for k in range(8):
        js.append(Job(f'three parameters {k} {fl}', functions, fl, 'three', tier, k, 8))
    js.append(Job(f'recursion {fl}', gen_job, lambda: recursion(tier), fl))
    js.append(Job(f'definition order {fl}', gen_job, ordering, fl, fail_step=1))
    js += [Job(f'nested calls {k} {fl}', gen_job, nested_calls, fl, False, k, 4) for k in range(4)]
    js.append(Job(f'library redefined {fl}', gen_job, redefined, fl, True))
    for k in range(4):
      js.append(Job(f'scopes {k} {fl}', gen_job, lambda: scopes('thorough'), fl, False, k, 4))
    js.append(Job(f'settings {fl}', gen_job, settings_progs, fl, fail_step=1))
    for k in range(2):
      js.append(Job(f'many parameters {k} {fl}', gen_job, many_params, fl, False, k, 2))
      js.append(Job(f'deep blocks {k} {fl}', gen_job, deep_blocks, fl, False, k, 2))
      js.append(Job(f'long programs {k} {fl}', gen_job, long_programs, fl, True, k, 2))
    js.append(Job(f'labels {fl}', gen_job, labels, fl))
  return js
