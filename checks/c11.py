"""C11: listings, statistics and printed reports against exact rational arithmetic."""
import itertools
import math
from fractions import Fraction as F
import ref
from mc import Job
PID = 'C11'
META = dict(
  rule='all dice with up to 3 faces over an alphabet of 14 values (negative, 0, fractions, large) x 4 weights each (also 0), pools, numbers, sequences, lists, both empty dice, every small die with weights far apart; for each: listing, mean, deviation, running totals, filtering by every subset (given as number, sequence, list, die), every cut level strictly between (and, where exactly representable, at) neighbouring partial sums, and the printed report over widths x names x cuts x call styles, parsed line by line',
  bounds='quick: ~24000 dice for listing/statistics, ~1500 for cuts and reports x 6 widths x 5 names; thorough: 4 faces',
  assumptions=['floating point rounding: shares within 1e-12, mean and deviation within 1e-12 of the largest value, printed digits either way when exactly half-way', 'which of several equally unlikely values a cut omits is not specified', 'dice without any probability are not specified', 'values beyond about 1e150, whose squares leave the floating point range, are not judged'])

VALS = [0, 1, -1, 2, 5, -3, 10, 100, 0.5, -0.25, 1.75, 1000000, 10**15, -10**9]
WTS = [1, 2, 0, 7]


def all_dice(n, vals=VALS, wts=WTS):
  for vs in itertools.combinations(vals, n):
    for ws in itertools.product(wts, repeat=n):
      if any(ws):
        yield vs, ws


def norm(vs, ws):
  """expected faces with weights (zero-weight faces stay listed)"""
  d = {}
  for v, w in zip(vs, ws):
    d[v] = d.get(v, 0) + w
  return sorted(d.items())


def near(a, b, tol):
  return abs(F(a) - F(b)) <= tol


def chk_listing(x, faces, cut=None):
  """'' or what is wrong with get_vals_probs"""
  t = sum(w for _, w in faces)
  vp = x.get_vals_probs() if cut is None else x.get_vals_probs(cut)
  keep = dict(vp)
  if len(keep) != len(vp):
    return f'repeated value {vp}'
  if [v for v, _ in vp] != sorted(keep):
    return f'order {vp}'
  fd = dict(faces)
  for v, p in vp:
    if v not in fd:
      return f'extra value {v!r}'
    if not near(p, F(fd[v], t), F(1, 10**12)):
      return f'share of {v!r}: {p}'
  gone = sorted(w for v, w in faces if v not in keep)
  if not cut:
    return '' if not gone else f'missing values {gone}'
  n, acc = 0, 0
  for w in sorted(fd.values()):
    if F(acc + w, t) >= F(cut):
      break
    acc += w
    n += 1
  if gone != sorted(fd.values())[:n]:
    return f'cut {cut} removed weights {gone} of {faces}, expected {sorted(fd.values())[:n]}'
  return ''


def cuts(faces):
  """levels strictly between neighbouring partial sums, at exactly representable ones, and extremes"""
  t = sum(w for _, w in faces)
  sums = [0]
  for w in sorted(w for _, w in faces):
    sums.append(sums[-1] + w)
  lv = []
  pts = sorted(set(sums))
  for a, b in zip(pts, pts[1:]):
    lv.append(float(F(a + b, 2 * t)))
  if t & (t - 1) == 0 and t < 2**20:
    lv += [a / t for a in pts if 0 < a < t]
  return [c for c in lv + [1e-9, 0.999999999] if 0 < c < 1 and all(abs(F(c) - F(a, t)) > F(1, 10**14) or (t & (t - 1) == 0 and t < 2**20) for a in pts)]


def chk_stats(x, faces):
  c = [(v, w) for v, w in faces if w]
  m, va = ref.mean(c), ref.var(c)
  big = max(1e-300, max(abs(F(v)) for v, _ in c))
  if not near(x.mean(), m, F(big) / 10**12):
    return f'mean {x.mean()!r} expected {float(m)!r}'
  sd = math.sqrt(va)
  if not abs(x.std() - sd) <= 1e-9 * sd + 1e-12 * float(big):
    return f'std {x.std()!r} expected {sd!r}'
  return ''


def chk_cdf(x, faces):
  c = x.get_cdf()
  acc = list(itertools.accumulate(w for _, w in faces))
  if tuple(c.vals) != tuple(v for v, _ in faces):
    return f'cdf values {c.vals}'
  a0, p0 = acc[-1], c.probs[-1]
  if [a * p0 for a in acc] != [p * a0 for p in c.probs]:
    return f'cdf {c.probs} expected {acc}'
  return ''


def job_basic(ctx, n, part, parts, vals, wts):
  import target as T
  for k, (vs, ws) in enumerate(all_dice(n, vals, wts)):
    if k % parts != part:
      continue
    faces = norm(vs, ws)
    perm = list(zip(vs, ws))[::-1]

    def run():
      x = T.RV([v for v, _ in perm], [w for _, w in perm])
      return [chk_listing(x, faces), chk_stats(x, faces), chk_cdf(x, faces), chk_listing(x, faces, 0), chk_stats(x, faces)]
    ctx.transitions += 4
    ctx.compare(f'die {vs} weights {ws}: listing, statistics, running totals', run, [''] * 5)


def job_cut(ctx, items):
  import target as T
  for tag, mk, faces in items:
    x = mk(T)
    for c in cuts(faces):
      ctx.compare(f'{tag}: listing with cut {c!r}', lambda: chk_listing(x, faces, c), '')
    for c in (-0.1, 1, 1.5):
      ctx.compare(f'{tag}: cut {c} is rejected', lambda: x.get_vals_probs(c), ('raised', 'AssertionError'))


def job_filter(ctx, part, parts):
  import target as T
  import obs as O
  al = [0, 1, 2, -1, 0.5]
  i = 0
  for n in (1, 2, 3):
    for vs in itertools.combinations(al, n):
      for ws in itertools.product((1, 3, 0), repeat=n):
        if not any(ws):
          continue
        i += 1
        if i % parts != part:
          continue
        faces = norm(vs, ws)
        for r in range(0, 4):
          for sub in itertools.combinations(al + [7], r):
            left = [(v, w) for v, w in faces if v not in sub]
            if left and not any(w for _, w in left):
              continue
            exp = ref.die([v for v, _ in left], [w for _, w in left]) if left else ref.const(0)
            ev = tuple(v for v, _ in left) if left else (0,)
            forms = [('list', lambda: list(sub)), ('Seq', lambda: T.Seq(*sub))]
            if len(sub) == 1:
              forms += [('number', lambda: sub[0]), ('float', lambda: float(sub[0]))]
              if sub[0] in (0, 1):
                forms.append(('bool', lambda: bool(sub[0])))
            if sub:
              forms.append(('die', lambda: T.RV(list(sub), [1] * len(sub))))
            for nm, f in forms:
              def run():
                x = T.RV(list(vs), list(ws))
                y = x.filter(f())
                return (O.o_die(y), y.vals, tuple(x.vals))
              ctx.compare(f'RV({vs},{ws}).filter({nm} {sub})', run, (exp, ev, tuple(v for v, _ in faces)))


def half(x):
  """x is (nearly) half-way between two integers"""
  f = x - math.floor(x)
  return abs(f - F(1, 2)) < F(1, 10**6)


def num2(txt, exact, big):
  """txt is exact rounded to 2 digits in the shortest form"""
  try:
    f = float(txt)
  except ValueError:
    return False
  if repr(f) != txt and str(int(f)) != txt:
    return False
  if abs(f) < 10**12 and abs(f * 100 - round(f * 100)) > 1e-3:
    return False
  return abs(F(f) - exact) <= F(5, 1000) + F(1, 10**8) + F(big) / 10**11


def chk_report(txt, faces, named, width, show_pdf, cut):
  c = [(v, w) for v, w in faces if w]
  t = sum(w for _, w in faces)
  lines = txt.split('\n')
  head = lines[0]
  if named is not None:
    if not head.startswith(named + ' '):
      return f'name missing in {head!r}'
    head = head[len(named) + 1:]
  parts = head.split(' \xb1 ')
  big = max(abs(F(v)) for v, _ in c)
  sd = math.sqrt(ref.var(c))
  if len(parts) != 2 or not num2(parts[0], ref.mean(c), big) or not num2(parts[1], F(sd), big):
    return f'header {head!r}, mean {float(ref.mean(c))} deviation {sd}'
  if not show_pdf:
    return '' if len(lines) == 1 else f'extra lines {lines[1:]}'
  if lines[-1] != '-' * (width + 8):
    return f'last line {lines[-1]!r}'
  rows = lines[1:-1]
  fd = {str(v): w for v, w in faces}
  order = [str(v) for v, _ in faces]
  got = []
  for r in rows:
    v, sep, rest = r.partition(': ')
    got.append((v, rest))
  names = [v.strip(' ') for v, _ in got]
  if [n for n in order if n in names] != names:
    return f'listed values {names} of {order}'
  if not cut and names != order:
    return f'listed values {names} expected {order}'
  if cut:
    n, acc = 0, 0
    for w in sorted(fd.values()):
      if F(acc + w, t) * 100 >= F(cut):
        break
      acc += w
      n += 1
    gone = sorted(w for v, w in fd.items() if v not in names)
    if gone != sorted(fd.values())[:n]:
      return f'cut {cut}% removed weights {gone} of {faces}'
  ml = max(len(n) for n in names)
  blocks = max(0, width - ml)
  for (v, rest), n in zip(got, names):
    if len(v) != ml or v != n.rjust(ml):
      return f'alignment of {v!r}'
    p = F(fd[n], t)
    pct, bar = rest[:5 if p < 1 else 6], rest[5 if p < 1 else 6:]
    ok = {f'{float(100 * p):5.2f}'}
    if half(p * 10000):
      ok |= {f'{math.floor(p * 10000) / 100:5.2f}', f'{math.ceil(p * 10000) / 100:5.2f}'}
    if float(100 * p) > 99.99 and p < 1:
      if rest.startswith('100.00'):
        pct, bar = rest[:6], rest[6:]
    if pct not in ok:
      return f'percentage {pct!r} expected {ok}'
    if not bar.startswith('  ') or bar[2:].strip('\u2588'):
      return f'bar {bar!r}'
    ln = len(bar) - 2
    q = p * blocks
    if not (ln == round(q) or (half(q) and ln in (math.floor(q), math.ceil(q)))):
      return f'bar length {ln} expected {float(q)}'
  return ''


def job_report(ctx, items, widths, names, cutlevels, extra):
  import target as T
  for tag, mk, faces in items:
    x = mk(T)
    # the equally long names of values must be distinct for the parser
    for w in widths:
      for nm in names:
        ctx.compare(f'output({tag}, named={nm!r}, blocks_width={w})', lambda: chk_report(T.output(x, named=nm, blocks_width=w, print_=False), faces, nm, w, True, 0), '')
    for c in cutlevels(faces):
      ctx.compare(f'output({tag}, cdf_cut={c * 100})', lambda: chk_report(T.output(x, cdf_cut=c * 100, print_=False), faces, None, 180, True, c * 100), '')
    if extra:
      def styles():
        res = [chk_report(T.output(x, print_=False), faces, None, 180, True, 0), chk_report(T.output(x, print_=False, show_pdf=False), faces, None, 180, False, 0), chk_report(T.output(x, 'n', print_=False, show_pdf=False), faces, 'n', 180, False, 0)]
        got = []
        res.append(repr(T.output(x, named='q', print_fn=got.append)))
        res.append(len(got) == 1 and chk_report(got[0], faces, 'q', 180, True, 0))
        seen = []
        T.settings_set('DEFAULT_PRINT_FN', seen.append)
        T.settings_set('DEFAULT_OUTPUT_WIDTH', 33)
        try:
          res.append(repr(T.output(x)))
          res.append(len(seen) == 1 and chk_report(seen[0], faces, None, 33, True, 0))
          if isinstance(x, T.RV):
            x.output(named='m', blocks_width=20)
            res.append(len(seen) == 2 and chk_report(seen[1], faces, 'm', 20, True, 0))
            res.append(chk_report(repr(x), faces, None, 33, True, 0))
          else:
            res += ['', '']
        finally:
          T.settings_reset()
        return res
      ctx.compare(f'output styles of {tag}', styles, ['', '', '', 'None', '', 'None', '', '', ''])


def job_blank(ctx):
  import target as T
  for tag, mk in [('BlankRV()', lambda: T.BlankRV()), ('roll(BlankRV(),6)', lambda: T.roll(T.BlankRV(), 6)), ('Seq()', lambda: T.Seq()), ('None', lambda: None), ('roll(2,Seq())', lambda: T.roll(2, T.Seq())), ('get_seq()', lambda: T.get_seq())]:
    for w in (1, 5, 33, 180):
      for nm in (None, '', 'x', 'a b'):
        exp = ('' if nm is None else nm + ' ') + '\n' + '-' * (w + 8)
        ctx.compare(f'output({tag}, named={nm!r}, blocks_width={w})', lambda: T.output(mk(), named=nm, blocks_width=w, print_=False), exp)

        def printed():
          g = []
          r = T.output(mk(), named=nm, blocks_width=w, print_fn=g.append)
          return (r, g)
        ctx.compare(f'output({tag}, named={nm!r}, blocks_width={w}) printed', printed, (None, [exp]))
    ctx.compare(f'output({tag})', lambda: T.output(mk(), print_=False), '\n' + '-' * 188)
  for mk in (lambda: T.BlankRV(), lambda: T.roll(T.BlankRV(), 6)):
    ctx.compare('repr of the empty die', lambda: repr(mk()), '\n' + '-' * 188)
    ctx.compare('mean and std of the empty die', lambda: (mk().mean(), mk().std()), (0, 0))
    ctx.compare('output method', lambda: mk().output(print_=False, named='z'), 'z \n' + '-' * 188)


def items_small(n, step, vals=VALS, wts=WTS, off=0):
  out = []
  for k, (vs, ws) in enumerate(all_dice(n, vals, wts)):
    if k % step == off:
      out.append((f'RV({vs},{ws})', lambda T, vs=vs, ws=ws: T.RV(list(vs), list(ws)), norm(vs, ws)))
  return out


def items_misc():
  out = []

  def add(tag, mk, c):
    out.append((tag, mk, sorted(c)))
  for n, s in ((1, 20), (2, 6), (3, 6), (5, 4), (10, 10), (1, 100), (1, 1), (4, 2), (20, 6), (1, 11)):
    add(f'{n}d{s}', lambda T, n=n, s=s: T.roll(n, s), ref.add_n(ref.dn(s), n))
  add('4 coins from -10', lambda T: T.roll(4, [0, 1]) - 2, ref.map1(ref.add_n(ref.die([0, 1]), 4), lambda x: x - 2))
  add('1@3d6', lambda T: 1 @ T.roll(3, 6), ref.select_brute(ref.dn(6), 3, [1]))
  for ws in ([1, 10**6], [1, 10**12, 1], [1, 999], [1, 1, 9998], [3, 99997], [1, 199], [1, 1999], [10**25, 1, 5], [1, 2, 4, 8, 16, 32, 64, 128], [5, 4, 3, 2, 1, 1, 0], [0, 3, 0], [49, 51], [1, 7], [1, 15], [3, 13], [1, 31], [2000, 1, 1]):
    add(f'weights {ws}', lambda T, ws=ws: T.RV(range(-2, len(ws) - 2), ws), [(i - 2, w // math.gcd(*ws)) for i, w in enumerate(ws)])
  for vs, ws in (([0.5, 1], [10**400, 1]), ([0.5, 1], [1, 10**400]), ([-1.5, 2], [10**320, 10**320 + 1]), ([1, 2, 3], [10**400, 1, 10**399]), ([0.5, 10**15], [7**500, 7**499]), ([-0.25, 0.75, 8], [10**330, 3 * 10**330, 1]), ([0.5, 2.5, 3], [10**307, 10**308, 10**308 + 1]), ([10**120, 1], [1, 1]), ([-10**40, 10**40 + 1, 0.5], [2, 1, 10**340])):
    add(f'RV({vs}, weights of {len(str(ws[0]))},{len(str(ws[1]))}.. digits)', lambda T, vs=vs, ws=ws: T.RV(vs, ws), norm(vs, ws))
  for v in (3, 0, -7, 2.5, -0.125, 10**9, True, 1e-3, 123456.789):
    add(f'number {v}', lambda T, v=v: v, [(int(v) if v is True else v, 1)])
  for s in ((1, 2, 3), (2, 2, 5), (0,), (-1, 0, 0, 0), (0.5, 1), (7, 3, 100)):
    d = {}
    for v in s:
      d[v] = d.get(v, 0) + 1
    add(f'Seq{s}', lambda T, s=s: T.Seq(*s), list(d.items()))
    add(f'list {s}', lambda T, s=s: list(s), list(d.items()))
    add(f'range-like {s}', lambda T, s=s: T.get_seq(*s), list(d.items()))
  add('range(1,5)', lambda T: range(1, 5), ref.dn(4))
  return out


def items_lengths(n):
  """values of different printed lengths in every arrangement, and weights that make every line the longest"""
  out = []
  for sub in itertools.product((0, 1, 2), repeat=n):
    vs = [i - n // 2 + (0, 0.5, 0.125)[k] for i, k in enumerate(sub)]
    ws = [1 + (i * 7) % 5 for i in range(n)]
    out.append((f'RV({vs},{ws})', lambda T, vs=vs, ws=ws: T.RV(vs, ws), norm(vs, ws)))
  return out


def items_many():
  out = []
  for m in list(range(4, 40)) + [50, 64, 99, 100, 101, 128, 200, 256, 300, 500, 1000]:
    for name, f in (('equal', lambda i: 1), ('rising', lambda i: i + 1), ('peak', lambda i: 1 + 5 * (i % 17 == 3)), ('gaps', lambda i: i % 3)):
      if name != 'equal' and m > 130:
        continue
      vs, ws = list(range(-1, m - 1)), [f(i) for i in range(m)]
      out.append((f'{m} values from -1, weights {name}', lambda T, vs=vs, ws=ws: T.RV(vs, ws), norm(vs, ws)))
  return out


def no_cut(faces):
  return []


def jobs(tier):
  q = tier == 'quick'
  js = []
  for n in (1, 2):
    js.append(Job(f'basic {n}', job_basic, n, 0, 1, VALS, WTS + [10**20]))
  for p in range(6):
    js.append(Job(f'basic 3.{p}', job_basic, 3, p, 6, VALS, WTS))
  if not q:
    for p in range(16):
      js.append(Job(f'basic 4.{p}', job_basic, 4, p, 16, VALS, WTS))
  misc = items_misc()
  rvs = [m for m in misc if m[0][0] not in 'nSlr']
  js.append(Job('cut misc', job_cut, rvs))
  js.append(Job('cut 1-2', job_cut, items_small(1, 1) + items_small(2, 1)))
  for o in range(4):
    js.append(Job(f'cut 3.{o}', job_cut, items_small(3, 12 if q else 4, off=o)))
  for p in range(3):
    js.append(Job(f'filter {p}', job_filter, p, 3))
  W, NM = (1, 5, 12, 40, 180, 300), (None, '', 'x', 'a: b', 'n \xb1 m')
  js.append(Job('report misc', job_report, misc, W, NM, no_cut, True))
  js.append(Job('report misc cut', job_report, misc, (), (), lambda f: [c for c in cuts(f) if c > 1e-8], False))
  js.append(Job('report 1', job_report, items_small(1, 1), W, NM, cuts, True))
  for o in range(3):
    js.append(Job(f'report 2.{o}', job_report, items_small(2, 3, off=o), W, NM[1:3], cuts, True))
    js.append(Job(f'report 3.{o}', job_report, items_small(3, 30 if q else 6, off=o), (5, 40), (None,), cuts, False))
  for n in range(3, 6 if q else 8):
    it = items_lengths(n)
    for o in range(0, len(it), 40):
      js.append(Job(f'lengths {n}.{o}', job_report, it[o:o + 40], (40,), (None,), no_cut, False))
  it = items_many()
  for o in range(8):
    js.append(Job(f'many {o}', job_report, it[o::8], (12, 180), (None,), no_cut, False))
    js.append(Job(f'many cut {o}', job_cut, [x for x in it[o::8] if len(x[2]) < 130]))
  js.append(Job('blank', job_blank))
  return js
