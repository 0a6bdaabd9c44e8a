"""Independent AnyDice front end and interpreter (reference for C13-C16).  No code shared with dice_calc.

lex(text) -> tokens or LexError; parse(tokens) -> program or ParseError; Interp(...).run(program) -> outputs.
"""
import ref


class LexError(Exception):
  pass


class ParseError(Exception):
  pass


class Skip(Exception):
  """the meaning of this program is not specified by the properties"""


class Fails(Exception):
  """the program must fail when it runs"""


WORDS = ('output', 'function', 'loop', 'over', 'named', 'set', 'to', 'if', 'else', 'result')
UP = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ_'
LOW = 'abcdefghijklmnopqrstuvwxyz'
DIG = '0123456789'


def lex(s):
  """-> list of (kind, text); kinds: punctuation itself, 'num', 'up', 'low', 'd', reserved words, 'str' (list of parts)"""
  out = []
  i, n = 0, len(s)
  while i < n:
    c = s[i]
    if c in ' \t\n':
      i += 1
    elif c == '\\':
      j = s.find('\\', i + 1)
      if j < 0:
        raise LexError('comment')
      i = j + 1
    elif c in DIG:
      j = i
      while j < n and s[j] in DIG:
        j += 1
      out.append(('num', s[i:j]))
      i = j
    elif c in UP:
      j = i
      while j < n and s[j] in UP:
        j += 1
      out.append(('up', s[i:j]))
      i = j
    elif c in LOW:
      j = i
      while j < n and s[j] in LOW:
        j += 1
      w = s[i:j]
      out.append(('d', w) if w == 'd' else (w, w) if w in WORDS else ('low', w))
      i = j
    elif c == '"':
      j = s.find('"', i + 1)
      if j < 0 or '\n' in s[i + 1:j]:
        raise LexError('string')
      out.append(('str', s[i + 1:j]))
      i = j + 1
    elif s.startswith('!=', i) or s.startswith('..', i):
      out.append((s[i:i + 2],) * 2)
      i += 2
    elif c in '+-*/^:<>=@#|&!.,(){}[]':
      out.append((c, c))
      i += 1
    else:
      raise LexError(c)
  return out


def str_parts(s):
  """text of a string -> ['literal' | ('var', NAME)]"""
  parts, lit, i = [], '', 0
  while i < len(s):
    if s[i] == '[':
      j = i + 1
      while j < len(s) and s[j] in UP:
        j += 1
      if j > i + 1 and j < len(s) and s[j] == ']':
        if lit:
          parts.append(lit)
          lit = ''
        parts.append(('var', s[i + 1:j]))
        i = j + 1
        continue
    lit += s[i]
    i += 1
  if lit:
    parts.append(lit)
  return parts


LEVELS = [('|',), ('&',), ('=', '!=', '<', '>', '<=', '>='), ('+', '-'), ('*', '/'), ('^',), ('@',)]


class Parser:
  def __init__(self, toks):
    self.t = toks
    self.i = 0

  def peek(self, k=0):
    return self.t[self.i + k][0] if self.i + k < len(self.t) else None

  def take(self, kind=None):
    if self.i >= len(self.t) or (kind and self.t[self.i][0] != kind):
      raise self.err(f'expected {kind}')
    self.i += 1
    return self.t[self.i - 1][1]

  def err(self, what):
    e = ParseError(f'{what} at {self.i}')
    e.incomplete = self.i >= len(self.t)  # the tokens so far can still be completed
    return e

  def program(self):
    code = self.block()
    if self.i != len(self.t):
      raise self.err('extra')
    return code

  def block(self):
    out = []
    while self.peek() not in (None, '}'):
      out.append(self.statement())
    return out

  def braces(self):
    self.take('{')
    b = self.block()
    self.take('}')
    return b

  def statement(self):
    k = self.peek()
    if k == 'output':
      self.take()
      e = self.expr()
      if self.peek() == 'named':
        self.take()
        return ('output', e, self.string())
      return ('output', e, None)
    if k == 'function':
      self.take()
      self.take(':')
      parts = []
      while self.peek() != '{':
        p = self.peek()
        if p in ('low', 'd') or p in WORDS:
          parts.append(self.take())
        elif p == 'up':
          nm = self.take()
          ty = None
          if self.peek() == ':':
            self.take()
            if self.peek() not in ('d', 'low') or self.t[self.i][1] not in ('n', 's', 'd'):
              raise self.err('type')
            ty = self.take()
          parts.append(('param', nm, ty))
        else:
          raise self.err('function name')
      return ('function', parts, self.braces())
    if k == 'loop':
      self.take()
      v = self.take('up')
      self.take('over')
      e = self.expr()
      return ('loop', v, e, self.braces())
    if k == 'result':
      self.take()
      self.take(':')
      return ('result', self.expr())
    if k == 'set':
      self.take()
      n = self.string()
      self.take('to')
      return ('set', n, self.expr())
    if k == 'if':
      self.take()
      arms = [(self.expr(), self.braces())]
      other = None
      while self.peek() == 'else':
        self.take()
        if self.peek() == 'if':
          self.take()
          arms.append((self.expr(), self.braces()))
        else:
          other = self.braces()
          break
      return ('if', arms, other)
    if k == 'up':
      v = self.take()
      self.take(':')
      return ('assign', v, self.expr())
    raise self.err(f'statement {k}')

  def string(self):
    s = self.take('str')
    if s == '':
      raise Skip('empty string')
    if self.peek() == 'str':
      raise Skip('adjacent strings')
    return ('str', s)

  def expr(self, lv=0):
    if lv == len(LEVELS):
      return self.dexpr()
    e = self.expr(lv + 1)
    while True:
      op = self.peek()
      if op in ('<', '>') and self.peek(1) == '=':
        op += '='
      if op not in LEVELS[lv]:
        return e
      for _ in range(2 if op in ('<=', '>=') else 1):
        self.take()
      e = ('bin', op, e, self.expr(lv + 1))

  def dexpr(self):
    if self.peek() == 'd':
      self.take()
      return ('d', None, self.term())
    e = self.term()
    if self.peek() == 'd':
      self.take()
      return ('d', e, self.term())
    return e

  def term(self):
    k = self.peek()
    if k in ('+', '-', '!', '#'):
      self.take()
      return ('un', k, self.term())
    if k == '(':
      self.take()
      e = self.expr()
      self.take(')')
      return ('group', e)
    if k == 'num':
      a = self.take()
      if self.peek() == '.':
        self.take()
        return ('dec', a, self.take('num'))
      return ('num', a)
    if k == 'up':
      return ('var', self.take())
    if k == 'str':
      return self.string()
    if k == '{':
      self.take()
      els = []
      if self.peek() != '}':
        while True:
          e = self.expr()
          if self.peek() == '..':
            self.take()
            e = ('range', e, self.expr())
          els.append(e)
          if self.peek() != ',':
            break
          self.take()
      self.take('}')
      return ('seq', els)
    if k == '[':
      self.take()
      parts = []
      while self.peek() != ']':
        p = self.peek()
        if p == 'low' or p in WORDS:
          parts.append(self.take())
        else:
          parts.append(('arg', self.expr()))
      if not parts:
        raise self.err('empty call')
      self.take(']')
      return ('call', parts)
    raise self.err(f'term {k}')


def parse(text):
  return Parser(lex(text)).program()


def fkey(parts):
  return tuple(p if isinstance(p, str) else 'X!' for p in parts)


# ---------------------------------------------------------------- values
# ('num', v) ('seq', tuple) ('die', n or None, canon) ('blank',) ('null',) ('str', text)
MAXTOT = 10**30


def die(c, n=1):
  if ref.total(c) > MAXTOT or len(c) > 3000:
    raise Skip('large')
  return ('die', n, c)


def num(v):
  if isinstance(v, bool):
    v = int(v)
  if isinstance(v, complex) or abs(v) > (10**150 if isinstance(v, int) else 10**9):
    raise Skip('large number')
  return ('num', v)


def dist(v):
  """the distribution of a value used as a number"""
  if v[0] == 'num':
    return ref.const(v[1])
  if v[0] == 'seq':
    return ref.const(sum(v[1]))
  if v[0] == 'die':
    return v[2] if v[1] in (1, None, 'zero') else ref.add_n(v[2], v[1])
  raise Skip(v[0])


def scalar(v):
  return v[1] if v[0] == 'num' else sum(v[1])


def obs_form(v):
  """what O.form() of the real value must be"""
  if v[0] == 'num':
    return ('val', ref.const(v[1]))
  if v[0] == 'die':
    return ('val', dist(v))
  return v


CMP = {'=': lambda a, b: a == b, '!=': lambda a, b: a != b, '<': lambda a, b: a < b, '>': lambda a, b: a > b, '<=': lambda a, b: a <= b, '>=': lambda a, b: a >= b}


def seqcmp(op, a, b):
  if op == '!=':
    return 1 - seqcmp('=', a, b)
  n = max(len(a), len(b))
  inf = float('-inf')
  a, b = a + (inf,) * (n - len(a)), b + (inf,) * (n - len(b))
  return 1 if all(CMP[op](x, y) for x, y in zip(a, b)) else 0


def arith(op):
  def f(a, b):
    if op == '+':
      return a + b
    if op == '-':
      return a - b
    if op == '*':
      return a * b
    if op == '/':
      if b == 0:
        raise Fails('division by zero')
      return a // b
    if b < 0 or b != int(b) or abs(b) > 12 or abs(a) > 1000:
      raise Skip('power')
    return a**b
  return f


class Interp:
  """scope: 'dynamic' (temporary copy of the caller's variables) or 'lexical' (own variables, outer ones readable)"""

  def __init__(self, opint=False, scope='dynamic', budget=200000):
    self.opint, self.scope = opint, scope
    self.outputs = []
    self.funcs = {}
    self.settings = {'explode depth': 2, 'maximum function depth': 10, 'position order': 'highest first'}
    self.depth = 0
    self.globals = {}
    self.budget = budget

  def run(self, prog):
    self.block(prog, self.globals, True)
    return self.outputs

  # statements; returns ('result', value) or None
  def block(self, code, env, top=False):
    for st in code:
      self.budget -= 1
      if self.budget < 0:
        raise Skip('long')
      k = st[0]
      if k == 'output':
        v = self.ev(st[1], env)
        self.outputs.append((obs_form(v), None if st[2] is None else self.text(st[2][1], env)))
      elif k == 'assign':
        env[st[1]] = self.ev(st[2], env)
      elif k == 'if':
        done = False
        for c, b in st[1]:
          v = self.ev(c, env)
          if v[0] in ('seq', 'str') or (v[0] == 'die' and v[1] == 'zero'):
            raise Skip('condition')
          if v[0] != 'num':
            raise Fails('condition')
          if v[1] != 0:
            r = self.block(b, env)
            if r:
              return r
            done = True
            break
        if not done and st[2] is not None:
          r = self.block(st[2], env)
          if r:
            return r
      elif k == 'loop':
        v = self.ev(st[2], env)
        if v[0] == 'die':
          raise Fails('loop over die')
        if v[0] != 'seq':
          raise Skip('loop over ' + v[0])
        for x in v[1]:
          env[st[1]] = ('num', x)
          r = self.block(st[3], env)
          if r:
            return r
      elif k == 'function':
        if not top:
          raise Skip('nested function')
        self.funcs[fkey(st[1])] = st
      elif k == 'result':
        if self.depth == 0:
          raise Skip('result at top level')
        return ('result', self.ev(st[1], env))
      elif k == 'set':
        name = self.text(st[1][1], env)
        v = self.ev(st[2], env)
        if v[0] == 'die' or name not in self.settings:
          raise Skip('set')
        if name == 'position order':
          if v[0] != 'str' or v[1] not in ('highest first', 'lowest first'):
            raise Fails('set')
        elif v[0] != 'num' or v[1] <= 0 or isinstance(v[1], float):
          raise Fails('set')
        self.settings[name] = v[1]
    return None

  def lookup(self, name, env):
    if name in env:
      return env[name]
    if self.scope == 'lexical' and name in self.globals and env is not self.globals:
      if name in env.get('!locals', ()):
        raise Fails('unbound')
      return self.globals[name]
    raise Fails('undefined variable ' + name)

  def text(self, s, env):
    out = ''
    for p in str_parts(s):
      out += p if isinstance(p, str) else self.printed(self.lookup(p[1], env))
    return out

  def printed(self, v):
    if v[0] == 'num':
      return str(v[1])
    if v[0] == 'seq':
      return '{?}'
    if v[0] == 'str':
      return v[1]
    raise Skip('printed die')

  # expressions
  def ev(self, e, env):
    self.budget -= 1
    if self.budget < 0:
      raise Skip('long')
    k = e[0]
    if k == 'num':
      return num(int(e[1]))
    if k == 'dec':
      return num(float(e[1] + '.' + e[2]))
    if k == 'var':
      return self.lookup(e[1], env)
    if k == 'group':
      return self.ev(e[1], env)
    if k == 'str':
      return ('str', self.text(e[1], env))
    if k == 'seq':
      return self.seq(e[1], env)
    if k == 'un':
      return self.unary(e[1], self.ev(e[2], env))
    if k == 'd':
      left = ('num', 1) if e[1] is None else self.ev(e[1], env)
      return self.roll(left, self.ev(e[2], env))
    if k == 'bin':
      a, b = self.ev(e[2], env), self.ev(e[3], env)
      return self.binary(e[1], a, b)
    if k == 'call':
      return self.call(e[1], env)
    raise AssertionError(k)

  def seq(self, els, env):
    out, faces = [], []
    for e in els:
      if e[0] == 'range':
        a, b = self.ev(e[1], env), self.ev(e[2], env)
        if a[0] == 'die' or b[0] == 'die':
          raise Fails('range')
        if a[0] != 'num' or b[0] != 'num' or isinstance(a[1], float) or isinstance(b[1], float):
          raise Skip('range')
        if b[1] - a[1] > 2000:
          raise Skip('long range')
        out += range(a[1], b[1] + 1)
        continue
      v = self.ev(e, env)
      if v[0] == 'num':
        out.append(v[1])
      elif v[0] == 'seq':
        out += v[1]
      elif v[0] == 'die':
        faces += [x for x, _ in dist(v)]
      elif v[0] in ('blank', 'null'):
        pass
      else:
        raise Skip('text in a sequence')
    if faces and out:
      raise Skip('numbers and dice in one sequence')
    return ('seq', tuple(out + faces))

  def unary(self, op, v):
    if v[0] == 'str':
      raise Skip(v[0])
    if v[0] in ('blank', 'null'):
      if op == '#':
        return num(0 if v[0] == 'blank' else 1)
      return num(1) if op == '!' and v[0] == 'null' else v
    if op == '#':
      if v[0] == 'num':
        if not self.opint or not isinstance(v[1], int) or v[1] < 0:
          raise Skip('# of a number')
        return num(len(str(v[1])))
      if v[0] == 'seq':
        return num(len(v[1]))
      if not isinstance(v[1], int):
        raise Skip('# of a random number of dice')
      return num(v[1])
    if op == '!':
      if v[0] == 'num':
        if not self.opint or not isinstance(v[1], int):
          raise Skip('! of a number')
        return num(1 if v[1] == 0 else 0)
      if v[0] == 'seq':
        return num(1 if sum(v[1]) == 0 else 0)
      if v[1] == 'zero' and not self.opint:
        raise Skip('0 as number or die')
      return die(ref.const(1 if dist(v) == ((0, 1),) else 0), 'zero' if v[1] == 'zero' else 1)
    if v[0] == 'seq':
      raise Skip('sign of a sequence')
    if op == '+':
      return v
    if v[0] == 'num':
      return num(-v[1])
    return die(ref.neg(dist(v)), 'zero' if v[1] == 'zero' else 1)

  def binary(self, op, a, b):
    if 'str' in (a[0], b[0]):
      raise Skip('special value')
    if a[0] in ('blank', 'null') or b[0] in ('blank', 'null'):
      return self.special(op, a, b)
    if op in CMP and 'seq' in (a[0], b[0]) and ('zero' in (a[1], b[1])):
      raise Skip('0 as number or die')
    if op == '@':
      return self.at(a, b)
    if op in '&|':
      if 'zero' in (a[1], b[1]) and not self.opint:
        raise Skip('0 as number or die')
      if a[0] == 'num' and b[0] == 'num':
        if not (self.opint and isinstance(a[1], int) and isinstance(b[1], int)) and not (a[1] in (0, 1) and b[1] in (0, 1) and isinstance(a[1], int) and isinstance(b[1], int)):
          raise Skip('boolean of numbers')
      f = (lambda x, y: 1 if (x != 0 and y != 0) else 0) if op == '&' else (lambda x, y: 1 if (x != 0 or y != 0) else 0)
    elif op in CMP:
      if a[0] == 'seq' and b[0] == 'seq':
        return num(seqcmp(op, a[1], b[1]))
      if a[0] == 'seq' and b[0] == 'num':
        return num(sum(1 for x in a[1] if CMP[op](x, b[1])))
      if a[0] == 'num' and b[0] == 'seq':
        return num(sum(1 for x in b[1] if CMP[op](a[1], x)))
      f = lambda x, y: 1 if CMP[op](x, y) else 0
    else:
      f = arith(op)
    if a[0] != 'die' and b[0] != 'die':
      return num(f(scalar(a), scalar(b)))
    da, db = dist(a), dist(b)
    if len(da) * len(db) > 200000:
      raise Skip('large')
    if op == '^' and (max(abs(v) for v, _ in da) > 200 or max(abs(v) for v, _ in db) > 8):
      raise Skip('large power')
    amb = 'zero' in (a[1], b[1]) and not any(v[0] == 'die' and v[1] != 'zero' for v in (a, b))  # number or constant die
    return die(ref.map2(da, db, f), 'zero' if amb else 1)

  def special(self, op, a, b):
    """operators with an empty or undetermined die"""
    both = a[0] in ('blank', 'null') and b[0] in ('blank', 'null')
    if op == '@':
      if a[0] in ('blank', 'null') or (a[0] == 'die' and a[1] != 'zero'):
        raise Fails('die as position')
      if a[0] == 'die':
        raise Skip('0 as number or die')
      if b[0] == 'blank':
        if a[0] == 'num' and not isinstance(a[1], int):
          raise Skip('fractional position')
        return b
      if a[0] != 'num' or not isinstance(a[1], int):
        raise Skip('several positions of the undetermined die')
      return b if a[1] == 1 else num(0)
    if both and a != b:
      if op not in '+-':
        raise Skip('empty with undetermined')
      return ('null',)
    if 'null' in (a[0], b[0]):
      return num(1) if op in CMP or op in '&|' else ('null',)
    if both or op not in ('+', '-', '|'):
      return ('blank',)
    z = b if a[0] == 'blank' else a
    if z[0] == 'die':
      return die(ref.neg(dist(z)), None) if op == '-' and a[0] == 'blank' else die(dist(z), None if z[1] != 'zero' else 'zero')
    if z[0] == 'seq' and not (op == '-' and a[0] == 'blank'):
      raise Skip('sequence or its sum')
    return num(-scalar(z)) if op == '-' and a[0] == 'blank' else z

  def at(self, a, b):
    if a[0] == 'die' and a[1] == 'zero':
      raise Skip('0 as number or die')
    if a[0] == 'die':
      raise Fails('die as position')
    pos = (a[1],) if a[0] == 'num' else a[1]
    if any(not isinstance(k, int) for k in pos):
      raise Skip('fractional position')
    if b[0] == 'num':
      if (a[0] == 'num' and not self.opint) or not isinstance(b[1], int) or b[1] < 0:
        raise Skip('digits')
      s = str(b[1])
      return num(sum(int(s[k - 1]) for k in pos if 1 <= k <= len(s)))
    if b[0] == 'seq':
      return num(sum(b[1][k - 1] for k in pos if 1 <= k <= len(b[1])))
    n, c = b[1], b[2]
    if not isinstance(n, int) or n * len(c) > 120 or len(pos) > 12:
      raise Skip('positions of a random number of dice')
    if len(pos) == 1 and not 1 <= pos[0] <= n:
      return die(ref.const(0), 'zero')  # 0, as a number or a die
    return die(ref.select_dp(c, n, pos, self.settings['position order'] == 'highest first'))

  def roll(self, a, b):
    if any(v[0] == 'die' and v[1] == 'zero' for v in (a, b)):
      raise Skip('0 as number or die')
    if b[0] in ('blank', 'null') or (b[0] == 'seq' and not b[1] and a[0] not in ('blank', 'null')):
      return ('blank',)
    if a[0] in ('blank', 'null'):
      return ('null',)
    if 'str' in (a[0], b[0]):
      raise Skip('text')
    if b[0] == 'num':
      if not isinstance(b[1], int):
        raise Skip('fractional die')
      if abs(b[1]) > 400:
        raise Skip('large')
      c, pool = ref.dn(b[1]), 1
    elif b[0] == 'seq':
      c, pool = ref.die(b[1]), 1
    else:
      c, pool = dist(b), b[1]

    def rolls(n):
      if abs(n) * len(c) > 1500:
        raise Skip('large')
      return ref.roll(n, c)
    if a[0] == 'die':
      if any(not isinstance(v, int) for v, _ in dist(a)):
        raise Skip('fractional count')
      return die(ref.mix([(rolls(v), w) for v, w in dist(a)]), None)
    n = scalar(a)
    if not isinstance(n, int):
      raise Skip('fractional count')
    if n == 1:
      return die(c, 1 if pool == 1 else None)
    if n <= 0:
      return die(rolls(n), None)
    if n * len(c) > 1500 or ref.total(c)**n > MAXTOT:
      raise Skip('large')
    return die(c, n)

  # functions
  def call(self, parts, env):
    args = [self.ev(p[1], env) for p in parts if not isinstance(p, str)]
    key = fkey(parts)
    if key in self.funcs:
      return self.user(self.funcs[key], args, env)
    if key in LIB:
      return LIB[key](self, *args)
    raise Skip('unknown function')

  def user(self, fn, args, env):
    if self.depth >= self.settings['maximum function depth']:
      return ('blank',)
    params = [p for p in fn[1] if not isinstance(p, str)]
    if any(a[0] == 'str' or (a[0] == 'die' and a[1] == 'zero') for a in args):
      raise Skip('text argument')
    choices = []
    hard = False
    for (_, nm, ty), a in zip(params, args):
      if a[0] in ('blank', 'null'):
        if ty in ('n', 's'):
          return ('null',)
        choices.append([(a, 1)])
      elif ty == 'n' and a[0] == 'seq':
        choices.append([(num(sum(a[1])), 1)])
      elif ty == 'n' and a[0] == 'die':
        hard = True
        choices.append([(num(v), w) for v, w in dist(a)])
      elif ty == 's' and a[0] == 'num':
        if not isinstance(a[1], int):
          raise Skip('fraction as sequence')
        choices.append([(('seq', (a[1],)), 1)])
      elif ty == 's' and a[0] == 'die':
        hard = True
        if not isinstance(a[1], int) or self.settings['position order'] != 'highest first' or a[1] * len(a[2]) > 60:
          raise Skip('outcomes of a random number of dice')
        choices.append([(('seq', t), w) for t, w in ref.sorted_pools(a[2], a[1])])
      elif ty == 'd' and a[0] == 'num':
        choices.append([(die(ref.const(a[1])), 1)])
      elif ty == 'd' and a[0] == 'seq':
        choices.append([(die(ref.die(a[1]) if a[1] else ref.const(0)), 1)])
      else:
        choices.append([(a, 1)])
    self.depth += 1
    try:
      if not hard:
        r = self.body(fn, params, [c[0][0] for c in choices], env)
        return ('blank',) if r is None else r
      parts = []
      import itertools
      for combo in itertools.product(*choices):
        w = 1
        for _, p in combo:
          w *= p
        before = len(self.outputs)
        r = self.body(fn, params, [v for v, _ in combo], env)
        if len(self.outputs) > before:
          raise Skip('order of outputs over outcomes')
        if r is None or r[0] in ('blank', 'null'):
          continue
        if r[0] == 'str':
          raise Skip('text')
        parts.append((dist(r), w))
      return die(ref.mix(parts)) if parts else ('blank',)
    finally:
      self.depth -= 1

  def body(self, fn, params, vals, env):
    if self.scope == 'dynamic':
      new = dict(env)
    else:
      new = {'!locals': assigned(fn[2]) | {p[1] for p in params}}
    for (_, nm, ty), v in reversed(list(zip(params, vals))):  # the first of a repeated name counts
      new[nm] = v
    r = self.block(fn[2], new)
    return r[1] if r else None


def assigned(code):
  out = set()
  for st in code:
    if st[0] == 'assign':
      out.add(st[1])
    elif st[0] == 'loop':
      out |= {st[1]} | assigned(st[3])
    elif st[0] == 'if':
      for _, b in st[1]:
        out |= assigned(b)
      if st[2] is not None:
        out |= assigned(st[2])
  return out


def _n2(f):
  def g(I, a, b):
    if 'blank' in (a[0], b[0]) or 'null' in (a[0], b[0]):
      raise Skip('blank')
    c = ref.map2(dist(a), dist(b), f)
    return die(c) if 'die' in (a[0], b[0]) else num(c[0][0])
  return g


def _absolute(I, a):
  if a[0] in ('blank', 'null'):
    raise Skip('blank')
  c = ref.map1(dist(a), abs)
  return die(c) if a[0] == 'die' else num(c[0][0])


def _explode(I, a):
  if a[0] in ('blank', 'null'):
    raise Skip('blank')
  c = (ref.die(a[1]) if a[1] else ref.const(0)) if a[0] == 'seq' else dist(a)
  m = max(v for v, _ in c)
  if I.settings['explode depth'] > 300:
    raise Skip('large')
  cur = c
  for _ in range(I.settings['explode depth']):
    cur = ref.mix([(ref.map1(cur, lambda x: x + m), w) if v == m else (ref.const(v), w) for v, w in c])
  return die(cur)


def from_highest(I, pos, d):
  if len(pos) > 100:
    raise Skip('large')
  order = I.settings['position order']
  I.settings['position order'] = 'highest first'
  try:
    return I.at(('seq', tuple(pos)), d)
  finally:
    I.settings['position order'] = order


def _highest(I, k, d):
  if k[0] != 'num' or d[0] != 'die':
    raise Skip('highest')
  return from_highest(I, range(1, k[1] + 1), d)


def _lowest(I, k, d):
  if k[0] != 'num' or d[0] != 'die' or not isinstance(d[1], int):
    raise Skip('lowest')
  return from_highest(I, range(d[1] - k[1] + 1, d[1] + 1), d)


def _middle(I, k, d):
  if k[0] != 'num' or d[0] != 'die' or not isinstance(d[1], int) or k[1] == d[1]:
    raise Skip('middle')
  fr = 1 + (d[1] - k[1]) // 2
  return from_highest(I, range(fr, fr + k[1]), d)


def _reverse(I, s):
  if s[0] not in ('seq', 'num'):
    raise Skip('reverse')
  return ('seq', (s[1] if s[0] == 'seq' else (s[1],))[::-1])


def _sort(I, s):
  if s[0] not in ('seq', 'num'):
    raise Skip('sort')
  return ('seq', tuple(sorted(s[1] if s[0] == 'seq' else (s[1],), reverse=True)))


def _maximum(I, d):
  c = (ref.die(d[1]) if d[1] else ref.const(0)) if d[0] == 'seq' else dist(d)
  return num(max(v for v, _ in c))


def _contains(I, s, n):
  if s[0] != 'seq' or n[0] != 'num':
    raise Skip('contains')
  return num(1 if n[1] in s[1] else 0)


def _count(I, v, s):
  if s[0] != 'seq' or v[0] not in ('seq', 'num'):
    raise Skip('count')
  return num(sum(s[1].count(x) for x in (v[1] if v[0] == 'seq' else (v[1],))))


X = 'X!'
LIB = {
  ('absolute', X): _absolute, ('explode', X): _explode, ('highest', 'of', X, 'and', X): _n2(max), ('lowest', 'of', X, 'and', X): _n2(min), ('highest', X, 'of', X): _highest, ('lowest', X, 'of', X): _lowest,
  ('reverse', X): _reverse, ('sort', X): _sort, ('maximum', 'of', X): _maximum, (X, 'contains', X): _contains, ('count', X, 'in', X): _count, ('middle', X, 'of', X): _middle,
  ('true', 'div', X, X): lambda I, *a: (_ for _ in ()).throw(Skip('true div')),
}


def called(code, out=None):
  """keys of all functions called anywhere in the program"""
  out = set() if out is None else out

  def walk(e):
    if isinstance(e, (list, tuple)):
      if isinstance(e, tuple) and e and e[0] == 'call' and len(e) == 2 and isinstance(e[1], list):
        out.add(fkey(e[1]))
      for x in e:
        walk(x)
  walk(code)
  return out


def defined(code, out=None):
  out = set(LIB) if out is None else out

  def walk(c):
    for st in c:
      if st[0] == 'function':
        out.add(fkey(st[1]))
        walk(st[2])
      elif st[0] == 'loop':
        walk(st[3])
      elif st[0] == 'if':
        for _, b in st[1]:
          walk(b)
        if st[2] is not None:
          walk(st[2])
  walk(code)
  return out


def has_output(code):
  for st in code:
    if st[0] == 'output':
      return True
    if st[0] == 'function' and has_output(st[2]):
      return True
    if st[0] == 'loop' and has_output(st[3]):
      return True
    if st[0] == 'if' and (any(has_output(b) for _, b in st[1]) or (st[2] is not None and has_output(st[2]))):
      return True
  return False


def has_result_top(code):
  for st in code:
    if st[0] == 'result':
      return True
    if st[0] == 'loop' and has_result_top(st[3]):
      return True
    if st[0] == 'if' and (any(has_result_top(b) for _, b in st[1]) or (st[2] is not None and has_result_top(st[2]))):
      return True
  return False


def wellformed(text):
  """'ok' / 'rejected' / raises Skip where not specified"""
  try:
    toks = lex(text)
  except LexError:
    return 'rejected'
  for a, b in zip(toks, toks[1:] + [('', '')]):
    if a == ('str', ''):
      raise Skip('empty string')
    if a[0] == b[0] == 'str':
      raise Skip('adjacent strings')
  try:
    prog = Parser(toks).program()
  except ParseError:
    return 'rejected'
  if any(st[0] == 'function' and not st[1] for st in prog):
    raise Skip('nameless function')
  if not has_output(prog):
    return 'rejected'
  if not called(prog) <= defined(prog):
    return 'rejected'
  return 'ok'


def viable(text):
  """can the text be continued (by more tokens) to something that parses?"""
  try:
    Parser(lex(text)).program()
  except ParseError as e:
    return e.incomplete
  except Skip:
    return False
  return True
