"""Forked workers. TOKENS is a pipe holding one byte per idle core, shared by every prover process
of a check: a process may always run one worker, and one more per byte it gets."""
import os, json, select, traceback, signal
TOKENS = None
def setup(n):
    global TOKENS
    r, w = os.pipe(); os.set_blocking(r, False); TOKENS = (r, w)
    os.write(w, b't' * n)
def acquire():
    if TOKENS is None: return False
    try: return len(os.read(TOKENS[0], 1)) == 1
    except BlockingIOError: return False
def release():
    if TOKENS is not None: os.write(TOKENS[1], b't')
def pmap(fn, items):
    """[fn(item)] (None where the worker died); fn runs in a forked child and returns JSON data"""
    n = len(items); res = [None] * n
    if TOKENS is None or n < 2: return [fn(x) for x in items]
    todo = list(range(n)); run = {}; extra = 0
    try:
        while todo or run:
            while todo and (not run or acquire()):
                if run: extra += 1
                i = todo.pop(0); r, w = os.pipe(); pid = os.fork()
                if pid == 0:
                    try:
                        os.close(r); out = fn(items[i])
                        with os.fdopen(w, 'w') as f: json.dump(out, f)
                    except BaseException:
                        try: os.write(2, traceback.format_exc().encode())
                        except BaseException: pass
                        os._exit(1)
                    os._exit(0)
                os.close(w); run[r] = (i, pid, [])
            rd, _, _ = select.select(list(run), [], [], 0.2)
            for fd in rd:
                i, pid, buf = run[fd]; d = os.read(fd, 1 << 16)
                if d: buf.append(d); continue
                os.close(fd); os.waitpid(pid, 0); del run[fd]
                if extra: extra -= 1; release()
                try: res[i] = json.loads(b''.join(buf))
                except Exception: res[i] = None
    finally:
        while extra: extra -= 1; release()
    return res
