"""Watching what one step of the process does outside its own objects: files,
connections, processes and code compiled (audit events of the interpreter, and
inotify for what native code does), output, and the state of the process."""
import builtins
import ctypes
import gc
import io
import locale
import logging
import mimetypes
import os
import random
import select
import signal
import socket
import struct
import sys
import threading
import time
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
ON = [False]
MAIN = threading.get_ident()
EVENTS = []
CANARY = 'vpcanary77'
PREFIXES = ('os.', 'socket.', 'subprocess.', 'shutil.', 'tempfile.', 'urllib.',
            'http.', 'ftplib.', 'smtplib.', 'sqlite3.', 'ctypes.', 'pty.',
            'webbrowser.', 'syslog.', 'fcntl.', 'resource.', 'signal.',
            'poplib.', 'imaplib.', 'telnetlib.', 'nntplib.', 'glob.',
            'pathlib.', 'msvcrt.', 'winreg.', 'mmap.')
NAMES = {'open', 'compile', 'exec', 'import', 'builtins.input',
         'builtins.breakpoint', 'sys.settrace', 'sys.setprofile',
         'sys.addaudithook', '_thread.start_new_thread',
         '_thread.start_joinable_thread', 'sys.unraisablehook',
         'sys.excepthook', 'cpython.run_command', 'code.__new__'}


def _hook(event, args):
    if not ON[0] or threading.get_ident() != MAIN:
        return
    if event in NAMES or event.startswith(PREFIXES):
        try:
            EVENTS.append((event, tuple(
                a if isinstance(a, (str, bytes, int, type(None))) else
                bytes(a) if isinstance(a, (bytearray, memoryview)) else
                repr(type(a)) if not isinstance(a, tuple) else a
                for a in args)))
        except Exception as e:
            EVENTS.append((event, (repr(e),)))


def install():
    sys.addaudithook(_hook)


# --------------------------------------------------------------- judging
LIBS = tuple(sorted(set(os.path.realpath(p) + os.sep for p in (
    sys.prefix, sys.base_prefix, os.path.dirname(os.__file__), REPO, HERE))))
SOURCES = ('.py', '.pyc', '.so', '.pth', '.egg-link')
DEVICES = ('/dev/null', '/dev/urandom', '/dev/random', '/dev/zero')


def _name(p):
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    return os.path.realpath(p)


def odd(events, allowed=(), hosts=(), urls=(), scratch=None):
    """What in a list of events goes beyond the files and hosts allowed
    @return: [text]"""
    out = []
    allowed = set(os.path.realpath(a) for a in allowed)
    for event, args in events:
        if event == 'open':
            path, mode, flags = (args + (None,) * 3)[:3]
            if not isinstance(path, (str, bytes)):
                continue                # a descriptor there is already
            path = _name(path)
            flags = flags if isinstance(flags, int) else 0
            writing = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT |
                               os.O_TRUNC | os.O_APPEND)
            if path in DEVICES:
                continue
            if not writing and path in allowed:
                continue
            if not writing and not path.startswith(scratch) and (
                    (path.startswith(LIBS) and path.endswith(SOURCES)) or
                    path in mimetypes.knownfiles):
                continue
            out.append('%s %s' % ('writes' if writing else 'reads', path))
        elif event in ('os.listdir', 'os.scandir'):
            p = args[0]
            p = _name('.' if p is None else p) if not isinstance(p, int) \
                else ''
            roots = [os.path.realpath(x or '.') for x in sys.path]
            if (p + os.sep).startswith(LIBS) or p in roots:
                continue
            out.append('lists %s' % p)
        elif event in ('compile', 'exec', 'import'):
            text = args[0]
            if isinstance(text, bytes):
                text = text.decode('utf-8', 'replace')
            if isinstance(text, str) and CANARY in text:
                out.append('%s of text of a document: %.200r' % (event, text))
        elif event == 'urllib.Request':
            u = str(args[0])
            if u not in urls and not u.startswith('file:'):
                out.append('requests %s' % u)
        elif event in ('socket.connect', 'socket.sendto'):
            addr = args[-1]
            if isinstance(addr, tuple) and addr[:2] in hosts:
                continue
            out.append('%s %r' % (event, addr))
        elif event in ('socket.getaddrinfo', 'socket.gethostbyname',
                       'http.client.connect'):
            if any(h[0] in args or 'localhost' in args for h in hosts):
                continue
            out.append('%s %r' % (event, args[:3]))
        elif event in ('socket.__new__', 'socket.setsockopt',
                       'http.client.send', 'socket.gethostname') and hosts:
            continue
        elif event in ('sys.unraisablehook', 'sys.excepthook', 'code.__new__',
                       'os.putenv', 'os.unsetenv') and event[:3] != 'os.':
            if event == 'code.__new__':
                continue
            out.append(event)
        elif event == 'socket.gethostbyaddr' or event == 'socket.gethostname':
            continue
        else:
            out.append('%s %.300r' % (event, args))
    return out


# --------------------------------------------------------------- inotify
class Inotify:
    """Accesses to files below the directories added, by whatever means"""
    ACCESS, MODIFY, OPEN, CREATE, DELETE, MOVED = (1, 2, 0x20, 0x100, 0x200,
                                                   0xc0)

    def __init__(self):
        self.fd = -1
        self.dirs = {}
        try:
            self.libc = ctypes.CDLL(None, use_errno=True)
            self.fd = self.libc.inotify_init1(os.O_NONBLOCK | os.O_CLOEXEC)
        except Exception:
            pass

    def add(self, path):
        if self.fd < 0:
            return False
        wd = self.libc.inotify_add_watch(
            self.fd, os.fsencode(path), self.OPEN | self.ACCESS | self.MODIFY
            | self.CREATE | self.DELETE | self.MOVED)
        if wd >= 0:
            self.dirs[wd] = path
        return wd >= 0

    def read(self):
        """@return: {path: mask} since the last call"""
        out = {}
        if self.fd < 0:
            return out
        while True:
            try:
                data = os.read(self.fd, 65536)
            except BlockingIOError:
                return out
            i = 0
            while i < len(data):
                wd, mask, cookie, n = struct.unpack_from('iIII', data, i)
                name = data[i + 16:i + 16 + n].rstrip(b'\0')
                i += 16 + n
                d = self.dirs.get(wd)
                if mask & 0x8000:           # no longer watched
                    self.dirs.pop(wd, None)
                elif d is not None:
                    p = os.path.join(d, os.fsdecode(name))
                    out[p] = out.get(p, 0) | mask


# ----------------------------------------------------------------- server
class Server:
    """Answers requests on the loopback interface from a dict, and keeps a
    list of what was asked for"""

    def __init__(self):
        self.files = {}
        self.asked = []
        self.sock = socket.socket()
        self.sock.bind(('127.0.0.1', 0))
        self.sock.listen(16)
        self.addr = self.sock.getsockname()
        self.lock = threading.Lock()        # held while a request is answered
        self.thread = threading.Thread(target=self._run, daemon=True)
        self.thread.start()

    def settle(self):
        """Wait until all who have connected have been answered"""
        for _ in range(5000):
            with self.lock:
                if not select.select([self.sock], [], [], 0)[0]:
                    return
            time.sleep(.001)

    def _run(self):
        while True:
            try:
                select.select([self.sock], [], [])
                with self.lock:
                    self._answer(self.sock.accept()[0])
            except (OSError, ValueError):
                return

    def _answer(self, c):
        try:
            c.settimeout(5)
            data = b''
            while b'\r\n\r\n' not in data and len(data) < 65536:
                more = c.recv(4096)
                if not more:
                    break
                data += more
            path = data.split(b' ')[1].decode('utf-8', 'replace') \
                if data.count(b' ') > 1 else repr(data)
            self.asked.append(path)
            body = self.files.get(path)
            head = b'200 OK' if body is not None else b'404 Not Found'
            body = body or b''
            c.sendall(b'HTTP/1.0 %s\r\nContent-Type: application/xml\r\n'
                      b'Content-Length: %d\r\n\r\n' % (head, len(body)) +
                      body)
        except OSError:
            self.asked.append('a connection')
        finally:
            c.close()


# ----------------------------------------------------------- process state
def _fds():
    out = {}
    for n in os.listdir('/proc/self/fd'):
        try:
            out[n] = os.readlink('/proc/self/fd/' + n)
        except OSError:
            pass
    return out


PATCHABLE = ['builtins', 'io', 'os', 'os.path', 're', 'datetime', 'copy',
             'urllib.request', 'urllib.parse', 'socket', 'xml.dom',
             'xml.etree.ElementTree', 'xml.parsers.expat', 'lxml.etree',
             'logging', 'warnings', 'time', 'string', 'operator', 'functools',
             'collections', 'types', 'abc', 'importlib', 'decimal', 'pickle',
             'threading', 'math', 'codecs']
CLASSES = {
    'http.client': ['HTTPConnection', 'HTTPResponse'],
    'urllib.request': ['Request', 'OpenerDirector', 'HTTPHandler',
                       'FileHandler', 'ProxyHandler'],
    'logging': ['Logger', 'Handler', 'LogRecord', 'Formatter'],
    'threading': ['Thread'], 'socket': ['socket'],
    'xml.etree.ElementTree': ['ElementTree', 'QName'],
    'abc': ['ABC']}
# changed by the libraries themselves: the standard library's namespace map is
# not judged (see DESIGN.md), the opener is judged on its own
EXCEPT = {('xml.etree.ElementTree', '_namespace_map'),
          ('urllib.request', '_opener'), ('urllib.request', 'ftpcache'),
          ('re', '_cache'), ('re', '_cache2'), ('threading', '_counter'),
          ('warnings', '_filters_version'), ('builtins', '_'),
          ('warnings', 'onceregistry'), ('warnings', '_onceregistry')}


def state():
    """Plain data describing the process, for comparison"""
    s = {}
    s['open files'] = _fds()
    s['working directory'] = os.getcwd()
    s['environment'] = dict(os.environ)
    s['import path'] = list(sys.path)
    s['import hooks'] = [list(map(id, sys.meta_path)),
                         list(map(id, sys.path_hooks))]
    s['warning filters'] = [repr(f) for f in warnings.filters]
    s['warning display'] = (id(warnings.showwarning),
                            id(warnings.formatwarning))
    root = logging.getLogger()
    s['logging'] = (root.level, [id(h) for h in root.handlers],
                    root.manager.disable, logging.raiseExceptions,
                    id(logging.getLoggerClass()),
                    sorted((n, l.level, l.disabled, l.propagate,
                            [id(h) for h in l.handlers])
                           for n, l in root.manager.loggerDict.items()
                           if isinstance(l, logging.Logger) and (
                               l.level or l.disabled or not l.propagate or
                               l.handlers)))
    s['recursion limit'] = sys.getrecursionlimit()
    s['switch interval'] = sys.getswitchinterval()
    s['int digits'] = sys.get_int_max_str_digits()
    s['signals'] = [repr(signal.getsignal(n)) for n in
                    sorted(signal.valid_signals())]
    s['signal mask'] = sorted(signal.pthread_sigmask(signal.SIG_BLOCK, []))
    s['socket timeout'] = socket.getdefaulttimeout()
    u = os.umask(0o22)
    os.umask(u)
    s['umask'] = u
    s['random numbers'] = hash(random.getstate())
    req = sys.modules.get('urllib.request')
    s['url opener'] = id(getattr(req, '_opener', None)) if getattr(
        req, '_opener', None) is not None else None
    s['locale'] = locale.setlocale(locale.LC_ALL)
    s['threads'] = sorted((t.ident, t.daemon) for t in threading.enumerate())
    s['thread hooks'] = (sys.gettrace(), sys.getprofile(),
                         id(sys.excepthook), id(sys.displayhook),
                         id(threading.excepthook), id(sys.unraisablehook))
    s['collector'] = (gc.isenabled(), gc.get_threshold(), gc.get_debug(),
                      len(gc.callbacks))
    s['streams'] = (id(sys.stdin), id(sys.stdout), id(sys.stderr))
    s['time zone'] = time.tzname
    dec = sys.modules.get('decimal')
    s['decimal context'] = repr(dec.getcontext()) if dec else None
    try:
        import resource
        s['limits'] = [resource.getrlimit(getattr(resource, n)) for n in (
            'RLIMIT_NOFILE', 'RLIMIT_AS', 'RLIMIT_CPU', 'RLIMIT_STACK',
            'RLIMIT_FSIZE', 'RLIMIT_CORE')]
    except ImportError:
        pass
    s['thread stacks'] = threading.stack_size()
    import copyreg
    s['pickling'] = sorted((repr(k), id(v)) for k, v in
                           copyreg.dispatch_table.items())
    s['timers'] = [signal.getitimer(t)[1] for t in (
        signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)] + [
        signal.getitimer(t)[0] > 0 for t in (
            signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)]
    s['priority'] = os.getpriority(os.PRIO_PROCESS, 0)
    s['coroutine hooks'] = (tuple(sys.get_asyncgen_hooks()),
                            sys.get_coroutine_origin_tracking_depth())
    for m, names in CLASSES.items():
        mod = sys.modules.get(m)
        for n in names if mod is not None else ():
            c = getattr(mod, n)
            s['class %s.%s' % (m, n)] = dict(
                (k, repr(v) if isinstance(v, (int, str, tuple)) else id(v))
                for k, v in vars(c).items() if not k.startswith('__') and
                k != '_abc_impl')
    import atexit
    s['exit handlers'] = atexit._ncallbacks()
    for m in PATCHABLE:
        mod = sys.modules.get(m)
        if mod is not None:
            s['module ' + m] = dict((k, id(v)) for k, v in vars(mod).items()
                                    if (m, k) not in EXCEPT and
                                    not k.startswith('_'))
    lx = sys.modules.get('lxml.etree')
    if lx is not None:
        s['default parser'] = (lx.get_default_parser().resolve_entities
                               if hasattr(lx.get_default_parser(),
                                          'resolve_entities') else None)
        s['xpath functions'] = sorted(map(repr, lx.FunctionNamespace(None)))
    return s


MAYGROW = ('module ',)


def differences(a, b):
    """What changed between two states
    @return: [text]"""
    out = []
    for k in a:
        if k not in b:
            out.append('%s: gone' % k)
        elif a[k] != b[k]:
            if k == 'decimal context' and a[k] is None:
                continue
            if isinstance(a[k], dict):
                ch = ['%s %r -> %r' % (x, a[k].get(x), b[k].get(x))
                      for x in sorted(set(a[k]) | set(b[k]))
                      if a[k].get(x) != b[k].get(x) and not (
                          k.startswith(MAYGROW) and x not in a[k] and
                          k != 'module builtins')]
                if ch:
                    out.append('%s: %s' % (k, '; '.join(ch)[:400]))
            else:
                out.append('%s: %.300r -> %.300r' % (k, a[k], b[k]))
    return out


class Recorder(io.StringIO):
    """Stands for standard output or error"""

    def fileno(self):
        raise OSError('no descriptor')


def written():
    """Bytes written so far to the descriptors of output and error"""
    out = []
    for fd in (1, 2):
        try:
            out.append(os.lseek(fd, 0, os.SEEK_CUR) + os.fstat(fd).st_size)
        except OSError:
            out.append(0)
    return out
