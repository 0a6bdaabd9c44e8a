"""Controlled scheduler for real threads: exactly one thread runs at a time and the switch points are chosen, not left to
chance.  A point is every line (or every bytecode instruction) the library executes.  A schedule is (first thread, number
of points after which it is preempted, number of points after which the other is preempted, ...); after the last chosen
preemption every thread runs to its end.  Each execution happens in its own forked process, from the same state.
"""
import copy
import gc
import os
import signal
import sys
import threading
import traceback
import types


TOOL = 4
_active = None  # the Sched whose threads run
_installed = set()


def codes(root):
  """every code object of the library"""
  seen = set()

  def walk(c):
    if c in seen or not c.co_filename.startswith(root):
      return
    seen.add(c)
    for k in c.co_consts:
      if isinstance(k, types.CodeType):
        walk(k)
  for o in gc.get_objects():
    if isinstance(o, types.FunctionType):
      walk(o.__code__)
  return seen


def _event(code, where):
  s = _active
  if s is not None:
    tid = s.idents.get(threading.get_ident())
    if tid is not None:
      s.point(tid)


def install(root, opcodes):
  """switch the events on once, before any thread exists"""
  if (root, opcodes) in _installed:
    return
  M = sys.monitoring
  if M.get_tool(TOOL) is None:
    M.use_tool_id(TOOL, 'sched')
  ev = M.events.INSTRUCTION if opcodes else M.events.LINE
  M.register_callback(TOOL, ev, _event)
  for c in codes(root):
    M.set_local_events(TOOL, c, ev)
  _installed.clear()
  _installed.add((root, opcodes))


class Sched:
  def __init__(self, root, plan, opcodes):
    self.root, self.opcodes = root, opcodes
    self.first, self.quanta = plan[0], list(plan[1:])
    self.turn = None
    self.sems = None
    self.steps = None
    self.slice = 0
    self.qi = 0
    self.done = None
    self.preempted = 0
    self.idents = {}

  def point(self, tid):
    while self.turn != tid:  # was blocked in a lock while the other went on
      self.sems[tid].acquire()
    self.steps[tid] += 1
    if self.qi < len(self.quanta):
      if self.slice == self.quanta[self.qi]:
        self.qi += 1
        self.slice = 1  # the point executed on resumption counts for no further quantum of this thread
        self.preempted += 1
        self.handover(tid)
      else:
        self.slice += 1

  def handover(self, tid):
    other = 1 - tid
    if self.done[other]:
      return
    self.turn = other
    self.slice = 0
    self.sems[other].release()
    while self.turn != tid:
      before = self.steps[other]
      if not self.sems[tid].acquire(timeout=0.3):
        # the other made no progress: it waits for a lock this thread holds
        if self.steps[other] == before and not self.done[other] and self.turn == other:
          self.turn = tid
          return

  def run(self, fns):
    global _active
    install(self.root, self.opcodes)
    n = len(fns)
    self.sems = [threading.Semaphore(0) for _ in range(n)]
    self.steps = [0] * n
    self.done = [False] * n
    results = [None] * n
    ready = threading.Barrier(n + 1)

    def body(tid):
      self.idents[threading.get_ident()] = tid
      ready.wait()
      while self.turn != tid:
        self.sems[tid].acquire()
      try:
        results[tid] = fns[tid]()
      except Exception as e:
        results[tid] = ('raised', type(e).__name__, str(e)[:200], traceback.format_exc()[-800:])
      finally:
        self.done[tid] = True
        for o in range(n):
          if not self.done[o]:
            self.turn = o
            self.slice = 0
            self.sems[o].release()
            break
        self.idents.pop(threading.get_ident(), None)
    ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
    for t in ts:
      t.start()
    ready.wait()
    _active = self
    self.turn = self.first
    self.sems[self.first].release()
    for t in ts:
      t.join()
    _active = None
    return results


class Pristine:
  """Puts every module-level and class-level container of the library back to what it was; whether that restores all of
  the library's state is checked by the caller (same number of points executed), who otherwise uses a process per run."""

  def __init__(self, prefix):
    self.saved = []
    for name, m in list(sys.modules.items()):
      if name == prefix or name.startswith(prefix + '.'):
        self.save(m)
        for v in list(vars(m).values()):
          if isinstance(v, type) and v.__module__ == name:
            self.save(v)

  def save(self, holder):
    for k, v in list(vars(holder).items()):
      if k.startswith('__'):
        continue
      self.saved.append((holder, k, v, copy.copy(v) if isinstance(v, (dict, list, set)) else None))

  def restore(self):
    for holder, k, v, content in self.saved:
      if vars(holder).get(k, self) is not v:
        setattr(holder, k, v)
      if isinstance(v, (dict, set)):
        if v != content:
          v.clear()
          v.update(content)
      elif isinstance(v, list):
        v[:] = content
      elif hasattr(v, 'cache_clear'):
        v.cache_clear()


def in_child(fn, limit=30):
  """run fn in a forked process -> its (picklable) result, or ('died', status)"""
  import pickle
  r, w = os.pipe()
  pid = os.fork()
  if pid == 0:
    try:
      os.close(r)
      signal.signal(signal.SIGALRM, signal.SIG_DFL)
      signal.alarm(limit)
      data = pickle.dumps(fn(), protocol=4)
      with os.fdopen(w, 'wb') as f:
        f.write(data)
      os._exit(0)
    except BaseException:
      try:
        os.write(w, b'')
      finally:
        os._exit(9)
  os.close(w)
  chunks = []
  while True:
    c = os.read(r, 1 << 16)
    if not c:
      break
    chunks.append(c)
  os.close(r)
  _, st = os.waitpid(pid, 0)
  if st or not chunks:
    return ('died', st)
  return pickle.loads(b''.join(chunks))
