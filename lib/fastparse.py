"""Speeds up exploration of the compiler: the LALR tables, which the library rebuilds from the (unchanging) grammar for
every compilation, are built once per process by the library's own code and reused for an equal grammar.  Everything else
(lexing, parsing with those tables, error handling, emission) is the real code on every call.  If the library is organised
differently the patch silently does nothing and exploration is only slower.  C21 runs without it."""


def install():
  try:
    import target  # noqa
    import dice_calc.parser.ply.yacc as y
    real = y.LRTable
    if getattr(real, '_memo', False):
      return True
    memo = {}

    def table(grammar, *a, **k):
      key = (tuple(map(str, grammar.Productions)), tuple((p.name, p.len, tuple(p.prod), p.prec, p.func) for p in grammar.Productions), repr(sorted(grammar.Precedence.items())), tuple(sorted(grammar.Terminals)), grammar.Start)
      if key not in memo:
        memo[key] = real(grammar, *a, **k)
      return memo[key]
    table._memo = True
    y.LRTable = table
    return True
  except Exception:
    return False
