"""The controller: owns every schedule, clock, entropy, I/O and compiler
decision of a simulated run, and records it."""
import errno
import hashlib
import json
import os
import random
import select
import shutil
import signal
import socket
import stat
import time

SEP = '\x1f'


SILENCE = 150     # s without a seam operation, where a call takes a few


class HarnessError(Exception):
    pass


class Th:
    __slots__ = ('tid', 'actor', 'idx', 'sock', 'buf', 'state', 'op', 'step',
                 'k', 'blocked', 'results', 'pid', 'entropy_used', 'begin', 'nlines')

    def __init__(self, actor, idx):
        self.actor, self.idx = actor, idx
        self.tid = '%s.%d' % (actor, idx)
        self.sock = None
        self.buf = b''
        self.state = 'new'      # new parked running done dead
        self.op = None
        self.step = 0
        self.k = 0
        self.begin = 0
        self.nlines = 0
        self.blocked = False
        self.results = []
        self.pid = None
        self.entropy_used = None


class Out:
    def __init__(self):
        self.events = []        # (phase, tid, step, k, op, path, path2, n, directive)
        self.results = []       # per phase: {tid: [step results]}
        self.deaths = []        # per phase: {actor: how}
        self.inflight = []      # per phase: {tid: {'i','b','e'}} steps cut off by a death
        self.snaps = []         # per phase: {relpath: (kind, size, sha)}
        self.switches = []      # explicit schedule per phase
        self.fired = []         # explicit fault list
        self.hit = set()        # (phase, thread, step) something failed under
        self.status = []        # per phase: ok / deadlock / livelock
        self.sim_ns = 0
        self.points = 0
        self.switch_count = 0
        self.fault_counts = {}

    def digest(self):
        h = hashlib.sha256()
        for e in self.events:
            h.update(repr(e).encode())
        h.update(json.dumps([self.results, self.deaths, self.status], sort_keys=True,
                            default=str).encode())
        h.update(json.dumps(self.snaps, sort_keys=True).encode())
        return h.hexdigest()

    def shape(self):
        """Identity of the interleaving / fault placement, ignoring payload."""
        h = hashlib.sha256()
        for e in self.events:
            h.update(repr((e[0], e[1], e[2], e[4], e[8])).encode())
        return h.hexdigest()[:16]


def _h64(*a):
    return int.from_bytes(hashlib.sha256(repr(a).encode()).digest()[:6], 'big')


NOSWITCH = {'dlopen'}
WRITE_OPS = {'openw', 'openx', 'write', 'mkdir', 'ftruncate64', 'link', 'symlink'}
OP_BUDGET = 60000


class Rig:
    """One worker's private simulator: scratch tree, sockets, zygotes."""

    def __init__(self, base, zygotes, cache, simbin):
        self.base = base
        os.makedirs(base, exist_ok=True)
        self.root = os.path.join(base, 'root')
        self.log = os.path.join(base, 'actor.log')
        self.cache = cache
        self.simbin = simbin
        self.sockpath = os.path.join(base, 'ctl')
        self.srv = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        if os.path.exists(self.sockpath):
            os.unlink(self.sockpath)
        self.srv.bind(self.sockpath)
        self.srv.listen(64)
        self.z = []
        for p in zygotes:
            s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
            s.connect(p)
            self.z.append(s.makefile('rwb'))
        self.stats = {'runs': 0, 'cc_real': 0, 'cc_cached': 0}

    # ------------------------------------------------------------ tree
    def reset_tree(self, sc):
        if os.path.isdir(self.root):
            _rmtree(self.root)
        for d in ('work', 'tmp', 'home', 'by'):
            os.makedirs(os.path.join(self.root, d))
        os.symlink('work', os.path.join(self.root, 'lnk'))
        for d in sc.get('dirs', []):
            os.makedirs(os.path.join(self.root, d), exist_ok=True)
        for p, content in sc.get('files', {}).items():
            f = os.path.join(self.root, p)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f, 'wb') as fh:
                fh.write(content.encode('utf-8', 'surrogateescape'))

    def snapshot(self):
        out = {}
        for dp, dn, fn in os.walk(self.root):
            rel = os.path.relpath(dp, self.root)
            for d in dn:
                out[os.path.normpath(os.path.join(rel, d))] = ('d', 0, '')
            for f in fn:
                p = os.path.join(dp, f)
                st = os.lstat(p)
                if stat.S_ISREG(st.st_mode):
                    with open(p, 'rb') as fh:
                        b = fh.read()
                    out[os.path.normpath(os.path.join(rel, f))] = (
                        'f', len(b), hashlib.sha1(b).hexdigest()[:16])
                else:
                    out[os.path.normpath(os.path.join(rel, f))] = ('o', 0, '')
        return out

    def norm(self, p):
        return p.replace(self.root, '$R')

    # ------------------------------------------------------------- run
    def run(self, sc):
        self.stats['runs'] += 1
        self.seq = 0
        out = Out()
        self.reset_tree(sc)
        self.diskfull = 0
        self.faults = {}
        for f in sc.get('faults', []):
            self.faults.setdefault((f['ph'], f['t'], f['s'], f['k']), f)
        fg = sc.get('faultgen')
        self.fg = fg
        self.frng = random.Random(fg['seed']) if fg else None
        self.fleft = fg.get('max', 3) if fg else 0
        for ph, phase in enumerate(sc['phases']):
            self.phase(sc, ph, phase, out)
            out.snaps.append(self.snapshot())
        return out

    def spawn(self, sc, ph, a, ths):
        req = {'cmd': 'spawn', 'actor': a['id'], 'root': self.root,
               'log': self.log, 'sock': self.sockpath, 'simbin': self.simbin,
               'cwd': a.get('cwd', 'work'),
               'entropy': a.get('entropy', _h64(sc.get('seed', 0), ph, a['id'])),
               'wall': a.get('wall', 1700000000), 'threads': a['threads'], 'private': a.get('private'),
               'forms': sc.get('forms', []), 'dats': sc.get('dats', []),
               'extra': sc.get('extra', {})}
        z = self.z[a.get('z', 0) % len(self.z)]
        z.write(json.dumps(req).encode() + b'\n')
        z.flush()
        line = z.readline()
        if not line:
            raise HarnessError('zygote died')
        pid = int(line)
        for t in ths:
            t.pid = pid
        return pid, z

    def accept(self, timeout=120):
        r, _, _ = select.select([self.srv], [], [], timeout)
        if not r:
            raise HarnessError('no connection: ' + self.tail())
        c, _ = self.srv.accept()
        return c

    def tail(self):
        try:
            with open(self.log, errors='replace') as fh:
                return fh.read()[-1500:]
        except OSError:
            return ''

    def readline(self, sock, buf=b'', timeout=240):
        while b'\n' not in buf:
            r, _, _ = select.select([sock], [], [], timeout)
            if not r:
                raise HarnessError('actor silent for %ss: %s' % (timeout, self.tail()))
            try:
                d = sock.recv(1 << 20)
            except ConnectionResetError:
                d = b''
            if not d:
                return None, b''
            buf += d
        line, rest = buf.split(b'\n', 1)
        return line.decode('utf-8', 'surrogateescape'), rest

    def phase(self, sc, ph, phase, out):
        self.diskfull = 0
        if os.path.exists(self.log):
            os.truncate(self.log, 0)
        ths, procs = [], {}
        for a in phase['actors']:
            mine = [Th(a['id'], i) for i in range(len(a['threads']))]
            ths += mine
            pid, z = self.spawn(sc, ph, a, mine)
            procs[a['id']] = {'pid': pid, 'z': z, 'ths': mine, 'how': None}
            need = len(mine)
            while need:
                c = self.accept()
                line, rest = self.readline(c)
                if line is None:
                    raise HarnessError('actor died at start: ' + self.tail())
                _, who, idx = line.split(SEP)
                t = mine[int(idx)]
                t.sock, t.buf, t.state, t.op = c, rest, 'parked', ['start', '', '', '0']
                need -= 1
        sched = phase.get('sched') or {}
        explicit = {int(n): t for n, t in sched.get('switches', [])}
        srng = random.Random(sched['seed']) if 'seed' in sched and not explicit else None
        p = sched.get('p', 0.15)
        used = []
        byid = {t.tid: t for t in ths}
        cur = ths[0]
        n = 0
        status = 'ok'
        self.events = out.events
        out.inflight.append({})
        self.nsteps = {'%s.%d' % (a['id'], i): len(x) for a in phase['actors']
                       for i, x in enumerate(a['threads'])}
        self.out = out
        self.ph = ph
        self.sc = sc
        try:
            while True:
                live = [t for t in ths if t.state == 'parked']
                if not live:
                    break
                ready = [t for t in live if not t.blocked]
                if not ready:
                    timed = [t for t in live if t.op[1] == 'semtimed']
                    if timed:
                        cur = timed[0]
                        cur.blocked = False
                        self.grant(cur, 'W', procs)
                        continue
                    # a lock nobody will release
                    stuck = getattr(self, '_retry', 0)
                    if stuck < 3:
                        self._retry = stuck + 1
                        for t in live:
                            t.blocked = False
                        continue
                    status = 'deadlock'
                    break
                nosw = cur.state == 'parked' and cur.op[0] in NOSWITCH
                pick = cur if cur in ready else ready[0]
                if not nosw and len(ready) > 1:
                    if n in explicit:
                        t = byid.get(explicit[n])
                        if t in ready:
                            pick = t
                    elif srng is not None:
                        if cur not in ready or srng.random() < p:
                            pick = srng.choice(ready)
                    if pick is not (cur if cur in ready else ready[0]):
                        used.append([n, pick.tid])
                        out.switch_count += 1
                n += 1
                out.points += 1
                if n > sc.get('op_budget', OP_BUDGET):
                    status = 'livelock'
                    break
                cur = pick
                self.grant(cur, None, procs)
                if cur.state != 'parked' or not cur.blocked:
                    self._retry = 0
                    for t in ths:
                        if t is not cur:
                            t.blocked = False
        finally:
            if status != 'ok':
                for pr in procs.values():
                    if any(t.state == 'parked' for t in pr['ths']):
                        pr['how'] = pr['how'] or status
                        try:
                            os.kill(pr['pid'], signal.SIGKILL)
                        except ProcessLookupError:
                            pass
            for t in ths:
                if t.sock:
                    t.sock.close()
        deaths = {}
        for aid, pr in procs.items():
            pr['z'].write(json.dumps({'cmd': 'wait', 'pid': pr['pid']}).encode() + b'\n')
            pr['z'].flush()
            st = int(pr['z'].readline())
            if os.WIFEXITED(st) and os.WEXITSTATUS(st) in (95, 96):
                raise HarnessError('actor harness failure: ' + self.tail())
            if pr['how']:
                deaths[aid] = pr['how']
            elif os.WIFSIGNALED(st):
                deaths[aid] = 'signal %d' % os.WTERMSIG(st)
            elif any(t.state == 'dead' for t in pr['ths']):
                deaths[aid] = 'exit %d' % os.WEXITSTATUS(st)
        out.results.append({t.tid: t.results for t in ths})
        out.deaths.append(deaths)
        out.switches.append(used)
        out.status.append(status)

    # --------------------------------------------------------- one grant
    def grant(self, t, forced, procs):
        """Answer t's pending operation and run it to its next one."""
        op = t.op
        self.seq += 1
        if op[0] in ('start', 'result'):
            t.begin = self.seq
        if op[0] == 'cc':
            ans, killed = self.answer_cc(t, op, procs)
        else:
            ans = forced or self.answer(t, op)
            killed = ans[0] in 'KT'
            if op[0] not in ('start', 'result'):
                self.events.append((self.ph, t.tid, t.step, t.k - 1, op[0],
                                    self.norm(op[1]), self.norm(op[2]),
                                    op[3] if op[0] in ('write', 'sleep') else '', ans))
            a = ans if ' ' in ans else ans + ' 0 0 0'
            self.send(t, a)
        if killed:
            procs[t.actor]['how'] = 'crash'
        t.state = 'running'
        t.op = None
        self.await_next(t, procs)

    def more(self, t):
        return t.step < self.nsteps[t.tid]

    def send(self, t, a):
        try:
            t.sock.sendall((a + '\n').encode())
        except (BrokenPipeError, ConnectionResetError):
            pass

    def await_next(self, t, procs):
        while True:
            if b'\n' not in t.buf:
                r, _, _ = select.select([t.sock, self.srv], [], [], SILENCE)
                if not r:
                    # computing, or waiting for something outside the simulation, for minutes
                    pr = procs[t.actor]
                    if pr['how'] == 'hang':
                        raise HarnessError('actor %s silent: %s' % (t.tid, self.tail()))
                    pr['how'] = 'hang'
                    os.kill(pr['pid'], signal.SIGKILL)
                    continue
                if self.srv in r and t.sock not in r:
                    c, _ = self.srv.accept()
                    line, rest = self.readline(c)
                    if line is None:
                        c.close()
                        continue
                    if not line.startswith('C'):
                        raise HarnessError('unexpected hello')
                    t.op = ['cc', line, c, rest]
                    t.state = 'parked'
                    t.blocked = False
                    t.k += 1
                    return
            line, t.buf = self.readline(t.sock, t.buf)
            if line is None:
                self.seq += 1
                for u in procs[t.actor]['ths']:
                    if u.state != 'done':
                        u.state = 'dead'
                        if self.more(u):
                            self.out.inflight[-1][u.tid] = {'i': u.step, 'b': u.begin, 'e': self.seq,
                                                            'started': u is t or (u.op or [''])[0] not in ('start', 'result')}
                return
            f = line.split(SEP)
            if f[0] == 'O':
                t.op = f[1:5]
                t.blocked = f[1] == 'blocked'
                t.state = 'parked'
                t.k += 1
                return
            if f[0] == 'R':
                self.seq += 1
                res = json.loads(line[2:].replace(self.root, '$R'))
                res['b'], res['e'] = t.begin, self.seq
                t.results.append(res)
                t.step += 1
                t.k = 0
                t.op = ['result', '', '', '0']
                t.state = 'parked'
                t.blocked = False
                return
            if f[0] == 'Z':
                t.state = 'done'
                t.entropy_used = int(f[1])
                return
            raise HarnessError('bad message %r' % line[:200])

    # ---------------------------------------------------------- directives
    def fault_at(self, t, op):
        f = self.faults.get((self.ph, t.tid, t.step, t.k - 1))
        if f is None and self.frng is not None and self.fleft > 0 \
                and op not in ('start', 'result', 'blocked'):
            fg = self.fg
            if fg.get('ph') is not None and self.ph not in fg['ph']:
                return None
            if self.frng.random() < fg['p']:
                f = pick_fault(self.frng, op, fg['kinds'])
                if f:
                    f = dict(f, ph=self.ph, t=t.tid, s=t.step, k=t.k - 1)
                    self.fleft -= 1
        return f

    def count(self, f, op):
        name = '%s@%s' % (fault_name(f), op)
        self.out.fault_counts[name] = self.out.fault_counts.get(name, 0) + 1
        self.out.fired.append(dict(f, op=op))
        if f['do'] != 'FULL' and not harmless(f):
            self.out.hit.add((self.ph, f['t'], f['s']))

    def answer(self, t, op):
        name = op[0]
        if name in ('start', 'result'):
            return 'P'
        f = self.fault_at(t, name)
        if f and not applies(f, name):
            f = None
        if f:
            self.count(f, name)
            d = f['do']
            if d == 'FULL':
                self.diskfull = f.get('n', 1000)
            elif d == 'CLK':
                return 'P 0 0 %d' % f['ns']
            elif d == 'E':
                return 'E %d 0 0' % f['e']
            elif d == 'S':
                return 'S %d 0 0' % f['n']
            elif d == 'T':
                return 'T %d 0 0' % f['n']
            elif d in ('K', 'I'):
                return d
        if self.diskfull > 0:
            self.diskfull -= 1
            if name in WRITE_OPS:
                self.out.hit.add((self.ph, t.tid, t.step))
                return 'E %d 0 0' % errno.ENOSPC
        if name == 'opendir':
            ds = self.sc.get('dirseed', 0)
            return 'P %d 0 0' % (_h64(ds, self.norm(op[1])) if ds else 0)
        return 'P'

    # ------------------------------------------------------------ compiler
    def answer_cc(self, t, op, procs):
        _, line, c, rest = op
        f = self.fault_at(t, 'cc')
        if f and not applies(f, 'cc'):
            f = None
        args = line.split(SEP)[1:]
        cwd, argv = args[0], args[1:]
        outp = None
        for i, x in enumerate(argv):
            if x == '-o' and i + 1 < len(argv):
                outp = os.path.join(cwd, argv[i + 1])
        d = 'P'
        killed = False
        try:
            if f:
                self.count(f, 'cc')
                d = f['do'] + str(f.get('n', ''))
            if f and f['do'] == 'FULL':
                self.diskfull = f.get('n', 1000)
            if self.diskfull > 0 and not (f and f['do'] == 'K'):
                self.diskfull -= 1
                self.out.hit.add((self.ph, t.tid, t.step))
                c.sendall(b'X 1\n')
            elif f and f['do'] == 'CC':         # diagnosed failure: no output
                c.sendall(b'X %d\n' % f['n'])
            elif f and f['do'] == 'CCTORN':     # killed while writing its output
                rc = self.cc_real(c, rest, cwd, argv, outp)
                if outp and os.path.exists(outp):
                    sz = os.path.getsize(outp)
                    with open(outp, 'r+b') as fh:
                        fh.truncate(int(sz * f['n'] / 100))
                c.sendall(b'G 9\n')
            elif f and f['do'] == 'I':          # ^C reaches the process group
                try:
                    os.kill(procs[t.actor]['pid'], signal.SIGINT)
                except ProcessLookupError:
                    pass
                c.sendall(b'G 2\n')
            elif f and f['do'] == 'K':          # the user's process dies here
                try:
                    os.kill(procs[t.actor]['pid'], signal.SIGKILL)
                except ProcessLookupError:
                    pass
                killed = True
                c.sendall(b'G 9\n')
            else:
                rc = self.cc_real(c, rest, cwd, argv, outp)
                c.sendall(b'X %d\n' % rc)
        except (BrokenPipeError, ConnectionResetError):
            pass
        c.close()
        self.events.append((self.ph, t.tid, t.step, t.k - 1, 'cc',
                            self.norm(SEP.join(argv)), '', '', d))
        return d, killed

    def cc_real(self, c, rest, cwd, argv, outp):
        """The real compiler, memoised on everything it reads."""
        h = hashlib.sha256()
        for x in argv:
            if not x.startswith('-') or '/' in x:
                p = os.path.join(cwd, x)
                if p == outp:
                    h.update(b'<out>')
                    continue
                if os.path.isfile(p):
                    with open(p, 'rb') as fh:
                        h.update(b'<file>' + os.path.basename(p).encode() + fh.read())
                    d = os.path.dirname(p)
                    if p.endswith('.c'):
                        for y in sorted(os.listdir(d)):
                            if y.endswith('.h'):
                                with open(os.path.join(d, y), 'rb') as fh:
                                    h.update(y.encode() + fh.read())
                    continue
            h.update(x.encode() + b'\0')
        key = os.path.join(self.cache, h.hexdigest())
        if outp and os.path.exists(key):
            self.stats['cc_cached'] += 1
            try:
                shutil.copyfile(key, outp)
                os.chmod(outp, os.stat(key).st_mode & 0o777)
                return 0
            except OSError:
                return 1
        self.stats['cc_real'] += 1
        c.sendall(b'R 0\n')
        line, _ = self.readline(c, rest)
        if line is None:
            return 1
        rc = int(line.split()[1])
        if rc == 0 and outp and os.path.isfile(outp):
            tmp = '%s.%d' % (key, os.getpid())
            try:
                shutil.copyfile(outp, tmp)
                os.chmod(tmp, os.stat(outp).st_mode & 0o777)
                os.rename(tmp, key)
            except OSError:
                pass
        return rc


def _rmtree(path):
    """Removes the simulator's own scratch tree (and nothing else)."""
    assert '/shgpysim-' in path and path.endswith('/root'), path
    for dp, dn, fn in os.walk(path, topdown=False):
        for d in dn:
            p = os.path.join(dp, d)
            if os.path.islink(p):
                os.unlink(p)
        try:
            os.chmod(dp, 0o755)
        except OSError:
            pass
    shutil.rmtree(path)


# ----------------------------------------------------------------- fault menu
E_OPEN = [errno.EIO, errno.EACCES, errno.EMFILE, errno.ENOSPC, errno.EROFS]
E_OPENR = [errno.EIO, errno.EACCES, errno.EMFILE]
MENU = {
    'openr': E_OPENR, 'openw': E_OPEN, 'openx': E_OPEN,
    'opendirfd': [errno.EMFILE, errno.EIO], 'opendir': [errno.EMFILE, errno.EIO],
    'read': [errno.EIO], 'write': [errno.ENOSPC, errno.EIO, errno.EDQUOT],
    'close': [errno.EIO], 'fsync': [errno.EIO], 'fdatasync': [errno.EIO],
    'ftruncate64': [errno.EIO], 'fchmod': [errno.EPERM], 'chmod': [errno.EPERM],
    'utime': [errno.EPERM],
    'rename': [errno.EIO, errno.ENOSPC, errno.EACCES],
    'link': [errno.EPERM, errno.EIO], 'symlink': [errno.EIO],
    'unlink': [errno.EIO, errno.EACCES], 'rmdir': [errno.EIO, errno.EACCES],
    'mkdir': [errno.ENOSPC, errno.EIO, errno.EACCES],
    'stat': [errno.EIO, errno.EACCES],
    'dlopen': [errno.EIO], 'system': [errno.EAGAIN, errno.ENOMEM], 'fork': [errno.EAGAIN],
    'flock': [errno.ENOLCK],
}
REMOVALS = {'unlink', 'rmdir', 'opendir', 'opendirfd'}


def applies(f, op):
    d = f['do']
    if d in ('CC', 'CCTORN'):
        return op == 'cc'
    if d == 'E':
        return f['e'] in MENU.get(op, ()) or f['e'] == errno.EINTR and op in ('read', 'write', 'openr', 'openw', 'openx')
    if d == 'S':
        return op in ('read', 'write')
    if d == 'T':
        return op == 'write'
    if d == 'FULL':
        return op in WRITE_OPS or op == 'cc'
    if d in ('K', 'I', 'CLK'):
        return op not in ('start', 'result') and not (d == 'CLK' and op == 'cc')
    return False


def harmless(f):
    """Nothing a caller may fail for."""
    return f['do'] in ('S', 'CLK') or f['do'] == 'E' and f['e'] == errno.EINTR


def fault_name(f):
    if f['do'] == 'E':
        return errno.errorcode.get(f['e'], str(f['e']))
    return {'S': 'short', 'T': 'torn+kill', 'K': 'kill', 'I': 'SIGINT',
            'FULL': 'disk-full', 'CLK': 'clock-jump', 'CC': 'cc-exit',
            'CCTORN': 'cc-killed-torn'}[f['do']]


def pick_fault(rng, op, kinds):
    """A fault of one of the enabled kinds that makes sense at this op."""
    c = []
    if 'err' in kinds and op in MENU:
        c.append(lambda: {'do': 'E', 'e': rng.choice(MENU[op])})
    if 'rerr' in kinds and op in ('openr', 'read', 'opendir', 'opendirfd', 'stat', 'close', 'dlopen'):
        c.append(lambda: {'do': 'E', 'e': rng.choice(MENU[op])})
    if 'eintr' in kinds and op in ('read', 'write', 'openr', 'openw', 'openx'):
        c.append(lambda: {'do': 'E', 'e': errno.EINTR})
    if 'short' in kinds and op in ('read', 'write'):
        c.append(lambda: {'do': 'S', 'n': rng.choice([1, 2, 7, 64, 500, 3000])})
    if 'full' in kinds and (op in WRITE_OPS or op == 'cc'):
        c.append(lambda: {'do': 'FULL', 'n': rng.choice([1, 5, 1000])})
    if 'kill' in kinds:
        c.append(lambda: {'do': 'K'})
        if op == 'write':
            c.append(lambda: {'do': 'T', 'n': rng.choice([0, 1, 10, 100, 1000, 5000])})
    if 'int' in kinds:
        c.append(lambda: {'do': 'I'})
    if 'cc' in kinds and op == 'cc':
        c.append(lambda: {'do': 'CC', 'n': rng.choice([1, 1, 4, 127])})
        c.append(lambda: {'do': 'CCTORN', 'n': rng.choice([0, 1, 50, 90, 99])})
    if 'clk' in kinds and op != 'cc':
        c.append(lambda: {'do': 'CLK', 'ns': rng.choice([-3600, -1, 1, 3600, 86400 * 400]) * 10**9})
    if not c:
        return None
    return rng.choice(c)()
