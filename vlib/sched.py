"""Runs the ranks of an MPI program as threads under a controlled scheduler and explores every interleaving.

Exactly one rank runs at a time.  A rank hands over at its start, at every collective operation and right before and right
after every file it opens for writing, so a schedule is the sequence of ranks chosen at those points.  `explore` performs a
stateless depth-first search over all schedules (optionally only those with at most `preemptions` switches away from a rank
that could have continued).  Each rank has its own random state, like separate processes."""
import builtins, io, os, pickle, sys, threading, types
import numpy as np


class Stop(BaseException):
    pass


class Deadlock(Exception):
    pass


class Run:
    """One execution of all ranks under one schedule prefix (then: continue the running rank while possible)."""
    def __init__(self, size, body, prefix, seeds):
        self.size, self.body, self.prefix = size, body, prefix
        self.lock = threading.Condition()
        self.turn = None                       # rank allowed to run; None: scheduler
        self.state = ['new'] * size            # new, ready, blocked, done
        self.wait = [None] * size              # predicate of a blocked rank
        self.err = [None] * size
        self.choices, self.taken = [], []      # enabled sets and decisions
        self.rng = [np.random.RandomState(s).get_state() for s in seeds]
        self.gens = [0] * size
        self.seeds = seeds
        self.events = []                       # (rank, what, path)
        self.coll = {}                         # collectives: (index) -> {rank: value}
        self.count = [0] * size
        self.stop = False
        self.current = None
        self.tids = {}

    # -- called in rank threads
    def me(self):
        return self.tids.get(threading.get_ident())

    def yield_(self, what, wait=None):
        r = self.me()
        if r is None:
            return
        self.events.append((r,) + what)
        with self.lock:
            self.state[r] = 'ready' if wait is None else 'blocked'
            self.wait[r] = wait
            self.rng[r] = np.random.get_state()
            self.turn = None
            self.lock.notify_all()
            while self.turn != r:
                if self.stop:
                    raise Stop()
                self.lock.wait()
            np.random.set_state(self.rng[r])
            self.state[r] = 'running'

    def thread(self, r):
        self.tids[threading.get_ident()] = r
        with self.lock:
            while self.turn != r:
                if self.stop:
                    return
                self.lock.wait()
            np.random.set_state(self.rng[r])
            self.state[r] = 'running'
        try:
            self.body(r, Comm(self, r))
        except Stop:
            pass
        except BaseException as e:
            import traceback
            self.err[r] = (e, traceback.format_exc())
        with self.lock:
            self.state[r] = 'done'
            self.rng[r] = np.random.get_state()
            self.turn = None
            self.lock.notify_all()

    # -- the scheduler
    def enabled(self):
        out = []
        for r in range(self.size):
            if self.state[r] in ('new', 'ready') or (self.state[r] == 'blocked' and self.wait[r]()):
                out.append(r)
        return out

    def go(self):
        threads = [threading.Thread(target=self.thread, args=(r,), daemon=True) for r in range(self.size)]
        saved = np.random.get_state()
        patch = Patches(self)
        with patch:
            for t in threads:
                t.start()
            last = None
            try:
                while True:
                    with self.lock:
                        while self.turn is not None:
                            self.lock.wait()
                        if any(self.err):
                            break
                        en = self.enabled()
                        if not en:
                            if all(s == 'done' for s in self.state):
                                break
                            raise Deadlock('ranks %s wait for each other' % [r for r in range(self.size) if self.state[r] == 'blocked'])
                        k = len(self.taken)
                        if k < len(self.prefix):
                            r = self.prefix[k]
                            if r not in en:
                                r = en[0]
                        else:
                            r = last if last in en else en[0]
                        self.choices.append((tuple(en), last))
                        self.taken.append(r)
                        last = r
                        self.turn = r
                        self.lock.notify_all()
            finally:
                with self.lock:
                    self.stop = True
                    self.lock.notify_all()
                for t in threads:
                    t.join(10)
                np.random.set_state(saved)
        return self


class Comm:
    """collective operations of a communicator (only those a program of this kind can use)"""
    def __init__(self, run, rank):
        self._run, self._rank = run, rank

    def Get_rank(self):
        return self._rank

    def Get_size(self):
        return self._run.size

    rank = property(lambda s: s._rank)
    size = property(lambda s: s._run.size)

    def _meet(self, name, value, need):
        run, r = self._run, self._rank
        k = run.count[r]
        run.count[r] += 1
        slot = run.coll.setdefault(k, {})
        slot[r] = pickle.dumps((name, value))
        run.yield_(('collective', name), wait=lambda: all(q in slot for q in (need if need is not None else range(run.size))))
        vals = {q: pickle.loads(v) for q, v in slot.items()}
        for q, (n, _) in vals.items():
            if n != name:
                raise Deadlock('rank %d is in %s while rank %d is in %s' % (r, name, q, n))
        return {q: v for q, (n, v) in vals.items()}

    def bcast(self, obj, root=0):
        v = self._meet('bcast', obj if self._rank == root else None, [root])
        return obj if self._rank == root else v[root]

    def Barrier(self):
        self._meet('barrier', None, None)

    barrier = Barrier

    def scatter(self, obj, root=0):
        return self._meet('scatter', obj if self._rank == root else None, [root])[root][self._rank]

    def gather(self, obj, root=0):
        v = self._meet('gather', obj, None if self._rank == root else [self._rank])
        return [v[q] for q in range(self._run.size)] if self._rank == root else None

    def allgather(self, obj):
        v = self._meet('allgather', obj, None)
        return [v[q] for q in range(self._run.size)]

    def allreduce(self, obj, op=None):
        return sum(self.allgather(obj))

    def reduce(self, obj, op=None, root=0):
        g = self.gather(obj, root)
        return sum(g) if g is not None else None

    def Abort(self, code=1):
        raise SystemExit(code)


class Patches:
    def __init__(self, run):
        self.run = run

    def __enter__(self):
        run = self.run
        self.open, self.ioopen, self.gen = builtins.open, io.open, np.random.default_rng
        real, gen = self.open, self.gen

        def open_(file, mode='r', *a, **k):
            r = run.me()
            if r is None or not isinstance(file, (str, os.PathLike)) or not any(c in str(mode) for c in 'wax+'):
                return real(file, mode, *a, **k)
            p = os.path.relpath(os.path.abspath(os.fspath(file)))
            if p.startswith('..'):
                return real(file, mode, *a, **k)
            run.yield_(('before', p))
            f = real(file, mode, *a, **k)
            run.yield_(('open', p))
            return f

        def default_rng(seed=None):
            r = run.me()
            if r is None or seed is not None:
                return gen(seed)
            run.gens[r] += 1
            return gen([run.seeds[r], run.gens[r]])

        builtins.open = io.open = open_
        np.random.default_rng = default_rng
        return self

    def __exit__(self, *a):
        builtins.open, io.open, np.random.default_rng = self.open, self.ioopen, self.gen


def explore(size, body, seeds, reset, visit, preemptions=None, limit=None):
    """Depth-first search over all schedules.  reset() before and visit(run) after every execution; returns (schedules, max depth)."""
    stack = [()]
    n = depth = 0
    while stack:
        prefix = stack.pop()
        reset()
        run = Run(size, body, prefix, seeds).go()
        visit(run)
        n += 1
        depth = max(depth, len(run.taken))
        if limit and n >= limit:
            return n, depth, False
        for k in range(len(run.taken) - 1, len(prefix) - 1, -1):
            en, last = run.choices[k]
            for r in en:
                if r == run.taken[k]:
                    continue
                new = tuple(run.taken[:k]) + (r,)
                if preemptions is not None:
                    c = sum(1 for j in range(len(new)) if run.choices[j][1] is not None and new[j] != run.choices[j][1]
                            and run.choices[j][1] in run.choices[j][0])
                    if c > preemptions:
                        continue
                stack.append(new)
    return n, depth, True
