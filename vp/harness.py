"""Worker side of the runtime monitors: case loop, counters, watchdog.

Verdicts are three-valued.  A monitor that sees the property broken calls
ctx.fail (-> violation).  An exception out of the code under test where the
property allows none is a violation too, and so is an answer of the code under
test that the monitor cannot use.  Anything else that goes wrong in the
harness itself is recorded as a harness error and makes the run inconclusive.
"""
import hashlib
import json
import logging
import os
import random
import signal
import sys
import time
import traceback
import zlib

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
MAX_VIOLATIONS = 5
CPU_LIMIT = 40.0        # seconds of CPU time for one case


class Violation(Exception):
    def __init__(self, msg, detail=None, mech=None):
        Exception.__init__(self, msg)
        self.msg = msg
        self.detail = detail
        self.mech = mech


class HangError(BaseException):
    """The CPU watchdog fired: one case used more CPU than any case can"""


class Stop(Exception):
    pass


class BlockedError(BaseException):
    """The code under test waits for something that does not happen"""


def _alarm(signum, frame):
    raise HangError()


TICK = 15.0             # seconds
IDLE = 3                # ticks without any use of the processor
_waiting = [None, 0.0, 0]
CASE = [0]


def _tick(signum, frame):
    """Is the code under test asleep, and has been?  One that is only slow, or
    on a machine that is, uses the processor"""
    cpu = time.process_time()
    f = frame
    while f is not None:
        fn = os.path.abspath(f.f_code.co_filename)
        if fn.startswith(HERE + os.sep):
            f = None
            break
        if fn.startswith(REPO + os.sep):
            break
        f = f.f_back
    if f is None or _waiting[0] != CASE[0] or cpu - _waiting[1] > .1:
        _waiting[:] = [CASE[0], cpu, 0]
        return
    _waiting[2] += 1
    if _waiting[2] >= IDLE:
        _waiting[2] = 0
        raise BlockedError()


def digest(obj):
    return hashlib.blake2b(repr(obj).encode('utf-8', 'backslashreplace'),
                           digest_size=8).hexdigest()


class Ctx:
    def __init__(self, prop, tier, seed, shard, nshards, backend, only=None):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.shard = shard
        self.nshards = nshards
        self.backend = backend
        self.only = only            # (group, index) when replaying
        self.counters = {}
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.known = {}             # mech -> text of listed findings seen
        self.errors = []
        self.evaluations = 0
        self.case = None
        self.known_mechs = {}

    # ------------------------------------------------------------ recording
    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def eval(self, n=1):
        """One decision of the oracle"""
        self.evaluations += n

    def seen(self, *key):
        """A distinct, non-trivial thing the monitor judged"""
        if len(self.distinct) < 400000:
            self.distinct.add(digest(key))

    def sample(self, obj):
        n = self.evaluations
        if len(self.samples) < 3:
            self.samples.append(obj)

    def fail(self, msg, detail=None, mech=None):
        raise Violation(msg, detail, mech)

    def check(self, cond, msg, detail=None, mech=None):
        self.evaluations += 1
        if not cond:
            if mech is not None and mech in self.known_mechs:
                self.known[mech] = msg() if callable(msg) else msg
                return
            raise Violation(msg() if callable(msg) else msg,
                            detail() if callable(detail) else detail, mech)

    def eq(self, got, want, what, detail=None, mech=None):
        self.evaluations += 1
        if not (type(got) is type(want) and got == want):
            raise Violation('%s: expected %r, got %r' % (what, want, got),
                            detail() if callable(detail) else detail, mech)

    # ------------------------------------------------------------- the loop
    def group(self, name, quick, thorough, fn, salt=True):
        """Run fn(rng, index) for index in range(n), this shard's part"""
        n = quick if self.tier == 'quick' else thorough
        # a share of the cases only, when trying out many changes
        n = max(1, int(n * float(os.environ.get('VERIF_SCALE', '1'))))
        if self.only is not None:
            if self.only[0] != name:
                return
            indexes = [self.only[1]]
        else:
            indexes = range(self.shard, n, self.nshards)
        for i in indexes:
            key = '%s:%s:%s:%s' % (self.seed, self.prop, name, i)
            if salt:
                key += ':' + self.backend
            self.case = (name, i)
            rng = random.Random(key)
            self._run(fn, rng, i, name)

    def once(self, name, fn):
        """A deterministic case, run by every worker"""
        if self.only is not None and self.only[0] != name:
            return
        self.case = (name, 0)
        self._run(fn, random.Random('%s:%s' % (self.prop, name)), 0, name)

    def _run(self, fn, rng, i, name):
        self.count('cases.' + name)
        CASE[0] += 1
        if signal.getsignal(signal.SIGALRM) is not _tick:
            signal.signal(signal.SIGALRM, _tick)
            signal.setitimer(signal.ITIMER_REAL, TICK, TICK)
        try:
            self.count('logging.' + logging_mode('%s:%s:%s' % (
                self.prop, name, i)))
            signal.signal(signal.SIGVTALRM, _alarm)
            signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
            try:
                fn(rng, i)
            finally:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        except Violation as e:
            self._violation(e.msg, e.detail, e.mech, name, i)
        except HangError:
            tb = traceback.format_exc()
            if _in_repo(sys.exc_info()[2]):
                self._violation('no result after %gs of CPU time' % CPU_LIMIT,
                                tb[-3000:], 'hang', name, i)
            else:
                self._error(name, i, tb)
        except BlockedError:
            self._violation('waits for ever for something that does not '
                            'happen', traceback.format_exc()[-3000:],
                            'blocked', name, i)
            raise Stop()
        except (KeyboardInterrupt, SystemExit, MemoryError):
            raise
        except BaseException as e:
            tb = traceback.format_exc()
            if _in_repo(sys.exc_info()[2]):
                self._violation('unexpected %s: %s' % (type(e).__name__, e),
                                tb[-4000:], 'exception', name, i)
            elif isinstance(e, ANSWERS):
                # the monitor cannot use what the code under test gave it
                self._violation('an answer which is not one: %s: %s' % (
                    type(e).__name__, e), tb[-4000:], 'answer', name, i)
            else:
                self._error(name, i, tb)

    def _violation(self, msg, detail, mech, name, i):
        if mech is not None and mech in self.known_mechs:
            self.known[mech] = msg
            return
        self.violations.append({
            'property': self.prop, 'group': name, 'index': i,
            'seed': self.seed, 'tier': self.tier, 'backend': self.backend,
            'shard': self.shard, 'nshards': self.nshards,
            'message': msg, 'mech': mech,
            'detail': detail if isinstance(detail, (str, type(None)))
            else json.dumps(detail, default=repr, indent=1)})
        if len(self.violations) >= MAX_VIOLATIONS:
            raise Stop()

    def _error(self, name, i, tb):
        self.errors.append('%s:%s %s' % (name, i, tb[-4000:]))
        if len(self.errors) >= 3:
            raise Stop()

    def result(self):
        return {'counters': self.counters, 'distinct': sorted(self.distinct),
                'samples': self.samples, 'violations': self.violations,
                'errors': self.errors, 'evaluations': self.evaluations,
                'known': self.known}


# what goes wrong in a monitor given something else than it should be given;
# failures of the sandbox (memory, files, processes) are none of these
ANSWERS = (TypeError, AttributeError, LookupError, ValueError, AssertionError,
           ArithmeticError, RecursionError, StopIteration)


def _in_repo(tb):
    """Is the innermost frame of ours or theirs one of theirs?"""
    last = None
    while tb is not None:
        fn = os.path.abspath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(REPO + os.sep):
            last = True
        elif fn.startswith(HERE + os.sep):
            last = False
        tb = tb.tb_next
    return bool(last)


class Sink(logging.Handler):
    """Does what a handler does, but keeps nothing"""

    def createLock(self):
        self.lock = None

    def emit(self, record):
        try:
            self.format(record)
        except Exception:
            pass        # as any handler does


def quiet_logging():
    logging.disable(logging.CRITICAL)


SINK = Sink()


def logging_mode(key):
    """What is logged is up to the application and must not matter: each case
    runs with all messages made, those by default or none"""
    x = zlib.crc32(key.encode()) % 6
    root = logging.getLogger()
    if SINK not in root.handlers:
        root.addHandler(SINK)
    if x == 0:
        root.setLevel(logging.DEBUG)
        logging.disable(logging.NOTSET)
        return 'debug'
    if x == 1:
        root.setLevel(logging.WARNING)
        logging.disable(logging.NOTSET)
        return 'default'
    # Nothing has been set up at all
    root.removeHandler(SINK)
    logging.disable(logging.CRITICAL)
    return 'off'
