"""Running jobs in forked children of a single-threaded parent: no pool threads, every job killable."""
import os, sys, time, select, signal, pickle, struct

class Child:
    __slots__ = ('pid', 'fd', 'items', 'pos', 'since', 'buf')

def _send(fd, obj):
    d = pickle.dumps(obj); d = struct.pack('<Q', len(d)) + d
    while d: d = d[os.write(fd, d):]

def _spawn(fn, items):
    r, w = os.pipe(); sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.setpgid(0, 0); os.close(r); signal.signal(signal.SIGINT, signal.SIG_DFL)
            for it in items:
                try: res = (True, fn(it[1]))
                except BaseException as e:
                    import traceback
                    res = (False, traceback.format_exc())
                _send(w, res)
        except BaseException: code = 1
        finally:
            try: sys.stdout.flush()
            except Exception: pass
            os._exit(code)
    os.close(w)
    try: os.setpgid(pid, pid)
    except OSError: pass
    c = Child(); c.pid = pid; c.fd = r; c.items = items; c.pos = 0; c.since = time.time(); c.buf = b''
    return c

def _kill(c):
    for f in (os.killpg, os.kill):
        try: f(c.pid, signal.SIGKILL)
        except OSError: pass
    try: os.waitpid(c.pid, 0)
    except OSError: pass
    os.close(c.fd)

def run(fn, jobs, limit, n=8, until=None, chunk=1):
    """yields (key, ok, result) for every job (key, arg); a job over limit(arg) seconds yields (key, None, None); so do all jobs left at `until`.
    The consumer may send(set_of_keys) to cancel jobs."""
    todo = list(jobs)[::-1]; live = []; cancelled = set()
    try:
        while todo or live:
            todo = [j for j in todo if j[0] not in cancelled] if cancelled else todo
            for c in list(live):
                if cancelled and c.items[c.pos][0] in cancelled:
                    live.remove(c); _kill(c); todo.extend(c.items[c.pos + 1:][::-1])
            while todo and len(live) < n:
                k = max(1, min(chunk, len(todo) // n)); items = [todo.pop() for _ in range(k)]
                live.append(_spawn(fn, items))
            now = time.time()
            if until is not None and now > until:
                for c in live:
                    _kill(c)
                    for it in c.items[c.pos:]: yield (it[0], None, None)
                live = []
                for it in todo[::-1]: yield (it[0], None, None)
                return
            out = []
            wait = min([max(0.0, c.since + limit(c.items[c.pos][1]) - now) for c in live] + ([max(0.0, until - now)] if until is not None else []) + [5.0])
            rd = select.select([c.fd for c in live], [], [], wait)[0] if live else []
            now = time.time()
            for c in list(live):
                dead = False
                if c.fd in rd:
                    d = os.read(c.fd, 1 << 20)
                    if d:
                        c.buf += d
                        while len(c.buf) >= 8:
                            ln = struct.unpack('<Q', c.buf[:8])[0]
                            if len(c.buf) < 8 + ln: break
                            ok, res = pickle.loads(c.buf[8:8 + ln]); c.buf = c.buf[8 + ln:]
                            out.append((c.items[c.pos][0], ok, res)); c.pos += 1; c.since = now
                    else: dead = True
                if c.pos >= len(c.items): live.remove(c); _kill(c); continue
                if dead or now > c.since + limit(c.items[c.pos][1]):
                    live.remove(c); _kill(c)
                    out.append((c.items[c.pos][0], None, None))
                    todo.extend(c.items[c.pos + 1:][::-1])
            for o in out:
                if o[0] in cancelled: continue
                s = yield o
                if s: cancelled |= s; yield None
    finally:
        for c in live: _kill(c)
