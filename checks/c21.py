"""C21: compilation is a pure function.  All compile histories, differential against pristine processes and hash seeds."""
import itertools
import json
import os
import subprocess
import sys
from mc import Job, observe
PID = 'C21'
META = dict(
  rule='histories of compilations over (text, options) pairs: valid programs, programs failing in the lexer (inside a string, inside a comment, illegal character), in the parser, in name resolution, without output; programs whose functions need renaming; options absent, empty, each documented flag on/off, all combinations shared as one dict object across calls, unknown options; every compilation is compared (text or error type) with the one made first in a pristine process; option objects are compared with their state before; then execution histories of compiled programs that define the same names',
  bounds='quick: all pairs over ~57 (text, options), all triples over 8, 13 hash seeds, all ordered pairs (and triples of a core) of executions of 12 programs in both executors, histories of 600 compilations of 270 different programs, all ordered pairs inside 10 groups of near-equal texts under 2 options, all histories x y x of one options object changed by its owner; thorough: all triples over 24, all 4-histories over 8',
  assumptions=['error messages are not compared, only the kind of failure'])

TEXTS = {
  'plain': 'output 2d6+1 named "x [A] {y}"\nA: 3',
  'func': 'function: f A:n and B:s { result: A+#B } output [f d6 and {1,2}]',
  'scope': 'X: 1 function: g { X: X+1 result: X } output [g] output X',
  'rename': 'function: roll A:n { result: A*2 } output [roll d4] output [roll {1..3}]',
  'kwname': 'function: if A else B:d { result: A } output [if 1 else d4]',
  'libredef': 'function: explode A:d { result: 7 } output [explode d6]',
  'lib': 'output [explode d6] output [highest 2 of 3d6] output [absolute -3]',
  'dup': 'function: f A A:s B { result: A } output [f 1 {2} 3]',
  'loop': 'loop P over {1..3} { if P = 2 { output P } else if P > 2 { output d P } else { output 0 } }',
  'opint': 'output 2@345 output #678 output !0 output 1&0 output 1|0',
  'set': 'set "explode depth" to 3 output [explode d2]',
  'unclosed string': 'output 1 named "abc',
  'unclosed var': 'output 1 named "ab [C',
  'unclosed comment': 'output 1 \\ comment',
  'illegal': 'output 1 $ 2',
  'syntax': 'output (1',
  'syntax2': 'output 1 } output 2',
  'nooutput': 'A: 1',
  'unknown func': 'output [nosuch 1]',
  'empty': '  \n ',
  'parafter': 'output 1 + + output 2',
  'type': 'T_N: 3 function: h A:n { result: A + T_N } output [h d2]',
  'long': '\n'.join(f'V{"A" * i}: {i} output V{"A" * i} named "n[V{"A" * i}]"' for i in range(1, 30)),
}
FLAGS = {
  'none': None, 'empty': {}, 'scope': {'COMPILER_FLAG_NON_LOCAL_SCOPE': True}, 'opint': {'COMPILER_FLAG_OPERATOR_ON_INT': True}, 'lib': {'COMPILER_FLAG_FUNC_LIB_CONFLICT': True}, 'nocheck': {'COMPILER_FLAG_FUNC_EXIST_CHECK': False},
  'all': {'COMPILER_FLAG_NON_LOCAL_SCOPE': True, 'COMPILER_FLAG_OPERATOR_ON_INT': True, 'COMPILER_FLAG_FUNC_LIB_CONFLICT': True, 'COMPILER_FLAG_FUNC_EXIST_CHECK': True},
  'off': {'COMPILER_FLAG_NON_LOCAL_SCOPE': False, 'COMPILER_FLAG_OPERATOR_ON_INT': False, 'COMPILER_FLAG_FUNC_LIB_CONFLICT': False, 'COMPILER_FLAG_FUNC_EXIST_CHECK': True},
  'unknown': {'COMPILER_FLAG_X': True}, 'mixed unknown': {'COMPILER_FLAG_NON_LOCAL_SCOPE': True, 'nope': 0},
}
PAIRS = [(t, 'none') for t in TEXTS] + [(t, f) for t in ('plain', 'func', 'scope', 'rename', 'opint') for f in ('scope', 'opint', 'all', 'unknown')] + \
  [('lib', 'scope'), ('kwname', 'lib'), ('unknown func', 'nocheck'), ('unknown func', 'all'), ('scope', 'empty'), ('scope', 'off'), ('dup', 'scope'), ('syntax', 'scope'), ('unclosed string', 'opint'), ('plain', 'mixed unknown'), ('rename', 'lib'), ('type', 'scope'), ('loop', 'scope'), ('nooutput', 'all')]
CORE = [('scope', 'scope'), ('rename', 'none'), ('unclosed string', 'none'), ('syntax', 'scope'), ('opint', 'opint'), ('plain', 'mixed unknown'), ('func', 'all'), ('lib', 'none')]


def comp(text, flags):
  from dice_calc.parser import compile_anydice
  try:
    return ('ok', compile_anydice(text, flags=flags) if flags is not None else compile_anydice(text))
  except Exception as e:
    return ('failed', type(e).__name__)


def base_all():
  """each pair compiled first in its own forked process"""
  import pickle
  res = {}
  procs = []
  for p in PAIRS:
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
      try:
        os.close(r)
        dn = os.open(os.devnull, os.O_RDWR)
        os.dup2(dn, 2)
        os.dup2(dn, 1)
        import target  # noqa
        f = FLAGS[p[1]]
        data = pickle.dumps(comp(TEXTS[p[0]], None if f is None else dict(f)))
        with os.fdopen(w, 'wb') as fh:
          fh.write(data)
      finally:
        os._exit(0)
    os.close(w)
    procs.append((p, r, pid))
    if len(procs) >= 8:
      collect(procs, res)
  collect(procs, res)
  return res


def collect(procs, res):
  import pickle
  for p, r, pid in procs:
    with os.fdopen(r, 'rb') as f:
      data = f.read()
    os.waitpid(pid, 0)
    res[p] = pickle.loads(data)
  procs.clear()


REJECT = {'unclosed string', 'unclosed var', 'unclosed comment', 'illegal', 'syntax', 'syntax2', 'nooutput', 'unknown func', 'empty', 'parafter'}


def job_base(ctx, base):
  for p, r in base.items():
    bad = (p[0] in REJECT and not (p == ('unknown func', 'nocheck'))) or 'unknown' in p[1]
    ctx.compare(f'{p} in a fresh process', lambda: r[0], 'failed' if bad else 'ok')


def job_hist(ctx, base, firsts, alphabet, length):
  """shared option objects across the whole history; after it every object must be unchanged"""
  import target  # noqa
  for f in firsts:
    shared = {k: (None if v is None else dict(v)) for k, v in FLAGS.items()}
    for rest in itertools.product(alphabet, repeat=length - 1):
      hist = (f,) + rest

      def run():
        return [comp(TEXTS[t], shared[fl]) for t, fl in hist]
      ctx.transitions += length - 1
      ok = ctx.compare(f'compile history {hist}', run, [base[p] for p in hist])
      if not ok:
        return
      if shared != FLAGS:
        ctx.violation(f'options after {hist}', FLAGS, shared)
        return


def job_pairs(ctx, base, firsts):
  """f x1 f x2 f x3 ... : every ordered pair (f, x) and (x, f) occurs as neighbours"""
  import target  # noqa
  for i in firsts:
    f = PAIRS[i]
    shared = {k: (None if v is None else dict(v)) for k, v in FLAGS.items()}
    done = []
    for x in PAIRS[i:]:
      for p in (f, x):
        done.append(p)
        if not ctx.compare(f'compile {p} after the history {done[:-1]}', lambda: comp(TEXTS[p[0]], shared[p[1]]), base[p]):
          return
      if shared != FLAGS:
        ctx.violation(f'options after {done}', FLAGS, shared)
        return


def job_repeat(ctx, base):
  import target  # noqa
  for p in PAIRS:
    for k in range(4):
      f = FLAGS[p[1]]
      ctx.compare(f'{p} for the {k + 1}. time', lambda: comp(TEXTS[p[0]], f), base[p])


SUB = '''
import sys, json
sys.path.insert(0, %r); sys.path.insert(0, %r)
import target, c21
out = []
for t, f in c21.PAIRS:
  fl = c21.FLAGS[f]
  out.append(c21.comp(c21.TEXTS[t], None if fl is None else dict(fl)))
sys.stdout.write(json.dumps(out))
'''


def job_seed(ctx, base, seed):
  here = os.path.dirname(os.path.abspath(__file__))
  lib = os.path.join(os.path.dirname(here), 'lib')
  env = dict(os.environ, PYTHONHASHSEED=str(seed), PYTHONDONTWRITEBYTECODE='1')
  r = subprocess.run([sys.executable, '-c', SUB % (lib, here)], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
  try:
    got = [tuple(x) for x in json.loads(r.stdout)]
  except Exception:
    ctx.violation(f'hash seed {seed}', 'compiles', r.stderr.decode(errors='replace')[-800:])
    return
  for p, g in zip(PAIRS, got):
    ctx.compare(f'{p} under hash seed {seed}', lambda: g, base[p])


RUNS = [
  ('A: 1 function: f N:n { result: N+1 } output [f 1] + A', None), ('A: 5 function: f N:n { result: N*10 } output [f 1] + A', None), ('output A', None), ('function: g { result: [f 1] } output [g]', 'nocheck'),
  ('function: explode D:d { result: 42 } output [explode d2]', None), ('output [explode d2]', None), ('X: 1 function: h { X: X+1 result: X } output [h] output X', 'scope'), ('output [h]', 'nocheck'), ('output X named "v[X]"', 'scope'),
  ('function: roll A:n { result: 99 } output [roll 1] output d2', None), ('output d2 output {1..3} named "s"', None), ('function: absolute A:n { result: 1/0 } output [absolute 3]', None), ('loop P over {1,2} { A: P } output A', None), ('output P', None),
  ('X: 3 function: h { result: X } output [h] output X', 'scope'), ('function: len A { result: 5 } output [len 1] output #{1,2}', None),
]


def run_prog(T, O, src, fl, how):
  from dice_calc.parser import compile_anydice
  import dice_calc.parser.parse_and_exec as pe
  py = compile_anydice(src, flags=None if fl is None else dict(FLAGS[fl]))
  try:
    return [(O.snap(a[0]), sorted(k.items())) for a, k in getattr(pe, how)(py)]
  except Exception as e:
    return ('failed', type(e).__name__)


def job_exec(ctx, firsts):
  """executions in every order: each gives what it gives alone"""
  import target as T
  import obs as O
  from c08 import forked
  how = ('unsafe_exec', 'safe_exec')
  base = {(i, h): forked(lambda: run_prog(T, O, *RUNS[i], h)) for i in range(len(RUNS)) for h in how}
  for (i, h), b in base.items():
    fails = i in (2, 3, 7, 8, 11, 13)
    ctx.compare(f'{h} of {RUNS[i]} alone', lambda: isinstance(b, tuple) and b[0] == 'failed', fails)
  from dice_calc.parser import compile_anydice
  import dice_calc.parser.parse_and_exec as pe
  codes = [compile_anydice(s, flags=None if f is None else dict(FLAGS[f])) for s, f in RUNS]

  def ex(i, h):
    try:
      return [(O.snap(a[0]), sorted(k.items())) for a, k in getattr(pe, h)(codes[i])]
    except Exception as e:
      return ('failed', type(e).__name__)
  for i in firsts:
    for h1 in how:
      for j in range(len(RUNS)):
        for h2 in how:
          ctx.compare(f'{h1} {RUNS[i]}, {h2} {RUNS[j]}', lambda: [ex(i, h1), ex(j, h2)], [base[i, h1], base[j, h2]])
      for j, k in itertools.product(range(len(RUNS)), repeat=2):
        ctx.compare(f'{h1}: {RUNS[i]}, {RUNS[j]}, {RUNS[k]}', lambda: [ex(x, h1) for x in (i, j, k)], [base[x, h1] for x in (i, j, k)])


def text(i):
  """i-th of a family of programs: every fourth one is not accepted"""
  k = i // 4
  name = 'q' + ''.join(chr(97 + int(c)) for c in str(k))
  up = name.upper()
  return [f'function: {name} N:n {{ result: N + {k} }} {up}: {k} output [{name} d4] + {up} named "{name} [{up}]"',
          f'loop {up} over {{{k}..{k + 2}}} {{ if {up} > {k} {{ output {up} }} else {{ output d{up} named "{k}" }} }}',
          f'{up}: {k} output d{k + 2} output 2d{up} \\ {name} \\ output #{{1..{k + 1}}} output {k + 1}@{{1..{k + 1}}}',
          [f'output {k} named "{name}', f'output {k} + ) {up}', f'{up}: {k}', f'output [{name} {k}]', f'output {k} \\ {name}', f'output {k} ; {up}'][k % 6]][i % 4]


def job_volume(ctx, how, count):
  """a long history of different programs (more than any cache could hold) and the same again in another order; what each yields is compared with its result in a fresh process"""
  import target as T
  import obs as O
  from c08 import forked
  from dice_calc.parser import compile_anydice
  import dice_calc.parser.parse_and_exec as pe
  flags = [None, 'scope', 'opint', 'all']

  def one(i, j):
    f = FLAGS[flags[j]] if flags[j] else None
    r = comp(text(i), None if f is None else dict(f))
    if r[0] == 'ok' and i % 8 < 4:
      return r, [(O.snap(a[0]), sorted(k.items())) for a, k in pe.safe_exec(r[1])]
    return r
  alone = {}
  for i in list(range(8)) + list(range(8, count, max(1, count // 6))):
    for j in range(4):
      alone[i, j] = forked(lambda: one(i, j))
      ctx.compare(f'{text(i)!r} options {flags[j]} alone', lambda: (alone[i, j][0][0] if isinstance(alone[i, j][0], tuple) else alone[i, j][0]), 'failed' if i % 4 == 3 else 'ok')
  first = {}
  order = {'again': lambda i: i, 'back': lambda i: count - 1 - i, 'strided': lambda i: i * 7 % count}[how]
  for rnd in range(2):
    for n in range(count):
      i = order(n) if rnd else n
      for j in ((i % 4,) if (i, 0) not in alone else range(4)):
        e = alone.get((i, j)) or first.get((i, j))
        if e is None:
          first[i, j] = one(i, j)
          ctx.transitions += 1
          continue
        if not ctx.compare(f'{text(i)!r} options {flags[j]}, pass {rnd + 1} over {count} programs ({how})', lambda: one(i, j), e):
          return


NEAR = [
  # groups of texts that differ in little: every member must be compiled on its own merits
  ['output 1 named "a b"', 'output 1 named "a  b"', 'output 1 named "a\tb"', 'output 1 named "a\nb"', 'output 1 named "ab"', 'output 1 named " a b"', 'output 1 named "a b "', 'output 1 named "A b"', 'output 1  named "a b"', 'output 1\nnamed "a b"', ' output 1 named "a b"', 'output 1 named "a b"\n'],
  ['output 12', 'output 1 2', 'output 1\n2', 'output 1 output 2', 'output 1output 2', 'output 12 ', 'output 012', 'output 12 \\ x \\', 'output 1 \\ x \\ 2', 'output 12 \\ y \\', 'output 12 \\', 'output 12"'],
  ['AB: 1 output AB', 'A B: 1 output AB', 'AB: 1 output A B', 'AB: 1 output AB named "[AB]"', 'AB: 1 output AB named "[A B]"', 'AB: 1 output AB named "[ AB ]"', 'AB: 1 output AB named "[AB] "', 'AB: 1 output AB named "[ab]"', 'AB : 1 output AB', 'AB:1 output AB', 'AB:\n1\noutput\nAB'],
  ['output 1 named "\\ x \\"', 'output 1 named "\\ x"', 'output 1 named "" \\ x \\', 'output 1 \\ named "x" \\', 'output 1 \\ " \\ named "x"', 'output 1 named "x" \\ " \\', 'output 1 named "x\\" output 2', 'output 1 named "x" \\ output 2 \\'],
  ['function: f A:n { result: A } output [f 1]', 'function: f A:d { result: A } output [f 1]', 'function: f A:s { result: A } output [f 1]', 'function: f A { result: A } output [f 1]', 'function: f B:n { result: B } output [f 1]', 'function: g A:n { result: A } output [g 1]', 'function: f A:n { result: A } output [g 1]',
   'function: A:n f { result: A } output [1 f]', 'function: f f A:n { result: A } output [f f 1]', 'function: ff A:n { result: A } output [ff 1]', 'function: f A:n f { result: A } output [f 1 f]', 'function: f A:n { result: A } output [f 1] output [f 1]'],
  ['output {1,2}', 'output {2,1}', 'output {1..2}', 'output {1:2}', 'output {1,2,}', 'output {12}', 'output {1, 2}', 'output d{1,2}', 'output 1d{1,2}', 'output{1,2}', 'output {{1},2}', 'output {{1,2}}'],
  ['output 2d6', 'output 2 d6', 'output 2d 6', 'output d6*2', 'output (2d6)', 'output 2d(6)', 'output (2)d6', 'output 2d6+0', 'output 2d60', 'output 20d6', 'OUTPUT 2d6', 'output 2D6', 'output 2d6 named "2d6"'],
  ['set "position order" to "highest first" output 1@12', 'set "position order" to "lowest first" output 1@12', 'set "position order" to "highest  first" output 1@12', 'set "position  order" to "highest first" output 1@12', 'set "explode depth" to 1 output [explode d2]', 'set "explode depth" to 2 output [explode d2]', 'set "explode depth" to 12 output [explode d2]', 'set "explode depth" to 1 2 output [explode d2]'],
  ['X: 1 function: f { X: 2 result: X } output [f] + X', 'X: 1 function: f { X: 2 result: X } output X + [f]', 'X: 2 function: f { X: 1 result: X } output [f] + X', 'x: 1 function: f { X: 2 result: X } output [f] + X', 'X: 1 function: f { Y: 2 result: X } output [f] + X', 'X: 1 function: f { X: 2 result: X } output X', 'function: f { X: 2 result: X } X: 1 output [f] + X'],
  ['', ' ', '\n', '\\\\', '\\ a \\', 'output', 'output 1', 'output\n1', '\noutput 1', 'output 1\r\n', '\toutput 1', 'output 1\x0c', '\ufeffoutput 1', 'output 1\x00', 'output \u0661', 'output 1 '],
]
NEARFLAGS = ['none', 'scope', 'opint', 'all']


def near_alone(g, f):
  from c08 import forked
  return [forked(lambda: comp(t, None if FLAGS[f] is None else dict(FLAGS[f]))) for t in NEAR[g]]


def job_near(ctx, g, f):
  """all ordered pairs of texts of the group as neighbours in one process; the shared options object is changed and changed back on the way in the second part"""
  import target  # noqa
  base = near_alone(g, f)
  grp = NEAR[g]
  fl = None if FLAGS[f] is None else dict(FLAGS[f])
  # one history in which every ordered pair occurs as neighbours
  seq = []
  for i in range(len(grp)):
    for j in range(i, len(grp)):
      seq += [i, j]
  for n, i in enumerate(seq):
    if not ctx.compare(f'options {f}: {grp[i]!r} after {[grp[k] for k in seq[max(0, n - 20):n]]}', lambda: comp(grp[i], fl), base[i]):
      return
  ctx.compare(f'options object after {grp}', lambda: fl, FLAGS[f])


def job_mutated(ctx, base, txt, deep):
  """the caller may change its own options object between two compilations: every history of three states, then what it finds in the object"""
  import target  # noqa
  names = [f for f in ('empty', 'scope', 'opint', 'all', 'unknown', 'nocheck', 'lib', 'off')]
  from c08 import forked
  alone = {f: forked(lambda: comp(TEXTS[txt], dict(FLAGS[f]))) for f in names}
  for f in names:
    if (txt, f) in base:
      ctx.compare(f'{txt} {f} alone', lambda: alone[f], base[txt, f])
  for hist in itertools.product(names, repeat=3):
    if not deep and (hist[0] != hist[2] or names.index(hist[0]) > names.index(hist[1])):
      continue
    opts = {}

    def run():
      r = []
      for f in hist:
        opts.clear()
        opts.update(FLAGS[f])
        r.append((comp(TEXTS[txt], opts), dict(opts)))
      return r
    if not ctx.compare(f'{TEXTS[txt]!r} compiled with one options object in the states {hist}', run, [(alone[f], FLAGS[f]) for f in hist]):
      return


def jobs(tier):
  q = tier == 'quick'
  base = base_all()
  js = [Job('fresh', job_base, base), Job('repeat', job_repeat, base)]
  for s in [0, 1, 2, 3, 5, 7, 11, 42, 99, 1234, 77777, 4294967295, 314159]:
    js.append(Job(f'hash seed {s}', job_seed, base, s))
  n = len(PAIRS)
  for i in range((n + 1) // 2):
    js.append(Job(f'pairs {i}', job_pairs, base, sorted({i, n - 1 - i})))
  for i in range(len(CORE)):
    js.append(Job(f'triples {i}', job_hist, base, CORE[i:i + 1], CORE, 3 if q else 4))
  if not q:
    for i in range(0, 24):
      js.append(Job(f'triples24 {i}', job_hist, base, PAIRS[i * 2:i * 2 + 1], PAIRS[::2][:24], 3))
  for i in range(0, len(RUNS), 2):
    js.append(Job(f'exec {i}', job_exec, list(range(i, min(i + 2, len(RUNS))))))
  for g in range(len(NEAR)):
    for f in ('none', 'all') if q else NEARFLAGS:
      js.append(Job(f'near {g} {f}', job_near, g, f))
  for t in ('scope', 'rename', 'opint', 'func', 'unknown func') + (() if q else ('libredef', 'syntax', 'loop')):
    js.append(Job(f'mutated {t}', job_mutated, base, t, not q))
  for how, count in (('again', 70), ('back', 140), ('strided', 270)) if q else (('again', 1301), ('back', 3001), ('strided', 6007)):
    js.append(Job(f'volume {how}', job_volume, how, count))
  return js
