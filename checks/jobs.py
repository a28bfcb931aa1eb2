"""Running independent parts of an analysis in child processes, one process per part."""
import os
import pickle
import resource
import select
import signal
import struct
import time


def _limit(mb):
    resource.setrlimit(resource.RLIMIT_AS, (mb << 20, mb << 20))


def workers(mb_each=3000):
    n = os.cpu_count() or 1
    try:
        for l in open('/proc/meminfo'):
            if l.startswith('MemAvailable:'):
                n = min(n, max(1, int(l.split()[1]) // 1024 // mb_each))
    except OSError:
        pass
    return max(1, min(8, n))


def run(fn, items, end, n=None, limit_mb=9000):
    """yields (item, result, error) as the parts finish; error is 'out of memory', 'out of time', 'died' or an exception text"""
    n = n or workers()
    end = min(end, float(os.environ.get('VERIF_DEADLINE') or end))
    todo = list(items)
    live = {}
    try:
        while todo or live:
            while todo and len(live) < n:
                it = todo.pop(0)
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        os.close(r)
                        for q in live:
                            os.close(q)
                        _limit(limit_mb)
                        try:
                            b = pickle.dumps((fn(it), None))
                        except MemoryError:
                            b = pickle.dumps((None, 'out of memory'))
                        except Exception as x:
                            if os.environ.get('VERIF_DEBUG'):
                                import traceback
                                traceback.print_exc()
                            b = pickle.dumps((None, '%s: %s' % (type(x).__name__, x)))
                        i = 0
                        while i < len(b):
                            i += os.write(w, b[i:i + 65536])
                        code = 0
                    finally:
                        os._exit(code)
                os.close(w)
                live[r] = [pid, it, []]
            left = end - time.time()
            if left <= 0:
                break
            for r in select.select(list(live), [], [], min(left, 5))[0]:
                b = os.read(r, 1 << 20)
                if b:
                    live[r][2].append(b)
                    continue
                pid, it, parts = live.pop(r)
                os.close(r)
                os.waitpid(pid, 0)
                try:
                    res, err = pickle.loads(b''.join(parts))
                except Exception:
                    res, err = None, 'the process analysing it died'
                yield it, res, err
        for r, (pid, it, parts) in list(live.items()):
            yield it, None, 'out of time'
        for it in todo:
            yield it, None, 'out of time'
    finally:
        for r, (pid, it, parts) in live.items():
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
            os.waitpid(pid, 0)
            os.close(r)
