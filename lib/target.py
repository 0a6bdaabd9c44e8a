"""Imports the code under test (the editable install of /repo's working tree) without executing any dice operation."""
import os
import sys
if os.environ.get('MC_TARGET'):  # development only: a directory holding a package dice_calc to test instead
  sys.path.insert(0, os.environ['MC_TARGET'])
import logging  # noqa
logging.disable(logging.CRITICAL)
import dice_calc as dc  # noqa
from dice_calc import *  # noqa
from dice_calc import RV, Seq, BlankRV, roll, roller, output, get_seq, settings_set, settings_reset, StringSeq, myrange  # noqa
from dice_calc import anydice_casting, anydice_type_casting, max_func_depth, T_N, T_S, T_D  # noqa

_root = os.path.realpath(os.path.dirname(dc.__file__))
if os.environ.get('MC_TARGET'):
  assert _root.startswith(os.path.realpath(os.environ['MC_TARGET'])), f'checks must run against MC_TARGET, got {_root}'
else:
  assert _root == '/repo/src', f'checks must run against /repo, got {_root}'
