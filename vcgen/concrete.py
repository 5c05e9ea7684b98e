"""Concrete evaluation of a contract against the real code, compiled natively: used to replay the
counterexample of a failed obligation (and, when the solver gives none that reproduces, to look
for a failing input near it). The same specification text is evaluated on constants; the call
is made into a shared object built from the same harness and the current tree. Inputs sit at
the end of a mapping followed by an inaccessible page, so an over-read or over-write faults."""
import z3, os, ctypes, random, mmap, json, time, signal, struct, sys
from .terms import *
from . import task as T_

class Skip(Exception): pass
class Bad(Exception): pass
PAGE = 4096
libc = ctypes.CDLL(None, use_errno=True)
libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
libc.mmap.restype = ctypes.c_void_p; libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]

class Guard:
    """pool of mappings with an inaccessible page on both sides"""
    def __init__(self): self.maps = []; self.used = 0
    def alloc(self, data, n):
        if self.used == len(self.maps):
            sz = 4 * PAGE
            a = libc.mmap(None, sz, 3, 0x22, -1, 0)
            libc.mprotect(a, PAGE, 0); libc.mprotect(a + sz - PAGE, PAGE, 0); self.maps.append((a, sz))
        a, sz = self.maps[self.used]; self.used += 1
        ctypes.memset(a + PAGE, 0xCC, sz - 2 * PAGE)
        p = a + sz - PAGE - n
        if n: ctypes.memmove(p, data, n)
        return p

class CArr:
    def __init__(self, bs): self.bs = bs
    def read(self, i): return self.fn(i)
    def fn(self, i):
        i = con(i); return bv(self.bs[i] if i < len(self.bs) else 0, 8)
def con(e):
    if isinstance(e, int): return e
    if not isc(e): e = z3.simplify(e)
    if not isc(e): raise Bad('not ground: %s' % e)
    return cval(e)
class CObj:
    def __init__(self, addr, size): self.addr, self.size = addr, size
    def bytes(self): return ctypes.string_at(self.addr, self.size)
class Conc:
    """mirrors task.Run on constants"""
    concrete = True
    def __init__(self, so, task, rng, given=None, guard=None, assign=None, cached=None):
        self.so, self.task, self.rng, self.given = so, task, rng, given or {}
        self.g, self.assign, self.cached = guard, assign or {}, cached
        self.drawn = {}; self.univs = {}; self.fails = []; self.keep = []
        self.st = self; self.gh = {}; self.called = False; self.noreturn = False; self.natsinks = False
        if guard: guard.used = 0
    # inputs
    def draw(self, name, f):
        if name in self.given: v = self.given[name]
        else: v = f()
        self.drawn[name] = v; return v
    def record(self, name='R', size=16):
        self.rec = self.alloc(bytes(size), size); return self.rec.addr
    def alloc(self, data, n):
        if self.cached is not None:
            o = CObj(0, n); return o
        return CObj(self.g.alloc(bytes(data), n), n)
    def cell(self, name, size):
        o = self.alloc(bytes(size), size); return o.addr, o
    def input(self, name='IN', maxlen=1 << 48, elem=1):
        hx = self.draw(name, lambda: gen_bytes(self.rng, self.task, name, elem, min(maxlen, 64)).hex())
        if name + '.len' in self.given and len(hx) // 2 < min(self.given[name + '.len'] * elem, 4096): hx = hx + '00' * (self.given[name + '.len'] * elem - len(hx) // 2)
        bs = bytes.fromhex(hx)[:8192]; bs = bs[:len(bs) // elem * elem]
        o = self.alloc(bs, len(bs)); a = CArr(bs); o.fn = a.fn; o.n = bv(len(bs) // elem, 64); o.data = bs
        return o.addr, o.addr + len(bs), o
    def buffer(self, name='OUT', maxlen=1 << 48):
        n = self.draw(name + '.len', lambda: self.rng.choice([0, 1, 2, 3, 4, 5, 8, 9, 12, 16, 24, 32, self.rng.randrange(64)]))
        n = min(n, 8192)
        bs = bytes((i * 37 + 11) & 255 for i in range(n))
        o = self.alloc(bs, n); o.init = CArr(bs); o.n = bv(n, 64)
        return o.addr, o.addr + n, o
    def value(self, name, w, signed=False):
        v = self.draw(name, lambda: gen_val(self.rng, w))
        if w == 1: self.keep.append(1); return z3.BoolVal(bool(v))
        b = bv(v, w); self.sgn = getattr(self, 'sgn', {}); self.sgn[b.get_id()] = signed
        return b
    def univ(self, name, w=64, hi=None):
        self.univs[name] = hi
        return bv(self.assign.get(name, 0), w)
    def assume(self, f):
        f = z3.simplify(f)
        if z3.is_false(f): raise Skip()
    def chain(self, *a, **k): return T_.CChain(self, *a, **k)
    def first(self, *a, **k): return T_.CFirst(self, *a, **k)
    def auto(self, *a, **k): return T_.CAuto(self, *a, **k)
    def opaque(self, *a, **k): return T_.COpaque(self, *a, **k)
    def ghost_init(self):
        self.natsinks = True; self.J = self.univ('J', 64)
        self.limit = self.draw('sink_limit', lambda: self.rng.choice([1 << 30] * 6 + [0, 1, 2, 3, 5, 9]))
    def call(self, *args):
        if self.cached is not None: self.restore(); return
        av = []
        for a in args:
            if isinstance(a, int): av.append(ctypes.c_uint64(a))
            elif z3.is_bool(a): av.append(ctypes.c_uint64(1 if z3.is_true(a) else 0))
            else:
                v = cval(a); w = a.size()
                if getattr(self, 'sgn', {}).get(a.get_id()) and v >> (w - 1): v -= 1 << w
                av.append(ctypes.c_uint64(v & ((1 << 64) - 1)))
        if self.natsinks: self.so.gh_reset(ctypes.c_uint64(self.limit))
        f = getattr(self.so, self.task.root); f.restype = None
        f(*av)
        self.called = True
        if self.natsinks:
            n = self.so.gh_len(); p = self.so.gh_ptr
            p.restype = ctypes.c_void_p
            self.out = ctypes.string_at(p(), n) if n else b''
            self.refused = bool(self.so.gh_refused())
            self.setgh()
    def setgh(self):
        j = con(self.J)
        self.gh['olen'] = bv(len(self.out), 64); self.gh['oJ'] = bv(self.out[j] if j < len(self.out) else 0, 8)
        self.gh['ofail'] = z3.BoolVal(self.refused)
    def fpconv(self, b, w):
        if b.size() == w: return b
        S = {32: z3.Float32(), 64: z3.Float64()}
        return z3.simplify(z3.fpToIEEEBV(z3.fpFPToFP(z3.RNE(), z3.fpBVToFP(z3.simplify(b), S[b.size()]), S[w])))
    def itofp(self, v, signed, w):
        S = {32: z3.Float32(), 64: z3.Float64()}
        return z3.simplify(z3.fpToIEEEBV((z3.fpSignedToFP if signed else z3.fpUnsignedToFP)(z3.RNE(), z3.simplify(v), S[w])))
    def mem(self, o):
        return o.bytes()
    def get(self, o, off, w): return bv(int.from_bytes(self.mem(o)[con(off):con(off) + w // 8], 'little'), w)
    def byte(self, o, off):
        k = con(off); m = self.mem(o)
        return bv(m[k] if k < len(m) else 0, 8)
    @property
    def end(self): return self.get(self.rec, 0, 64)
    @property
    def ec(self): return self.get(self.rec, 8, 32)
    @property
    def ok(self): return z3.BoolVal(cval(self.get(self.rec, 12, 32)) != 0)
    def post(self, name, claim, hyp=None):
        if isinstance(claim, bool): claim = z3.BoolVal(claim)
        c = z3.simplify(claim if hyp is None else z3.Implies(hyp, claim))
        if z3.is_true(c): return
        if not z3.is_false(c): raise Bad('post not ground: %s' % c)
        self.fails.append(name)

class Again(Conc):
    """re-evaluate the posts of a finished call for another choice of the universal variables"""
    def __init__(self, first, assign):
        Conc.__init__(self, first.so, first.task, first.rng, dict(first.drawn), None, assign, cached=first); self.objs = list(first.objs_); self.objs_ = self.objs
        self.k = 0
    def alloc(self, data, n):
        o = self.objs[self.k]; self.k += 1; return o
    def restore(self):
        if self.natsinks: self.out, self.refused = self.cached.out, self.cached.refused; self.setgh()

def one(so, task, rng, given, guard):
    """returns (drawn, failed post names)"""
    r = Conc(so, task, rng, given, guard)
    objs = []; al = r.alloc
    def alloc(d, n):
        o = al(d, n); objs.append(o); return o
    r.alloc = alloc
    task.spec(r)
    r.objs_ = objs
    fails = list(r.fails)
    if r.univs and not fails:
        top = max([len(r.out) + 1 if r.natsinks else 0] + [o.size for o in objs]) + 1
        vals = list(range(min(top, 48)))
        for name in r.univs:
            for v in vals:
                if v == 0: continue
                a = Again(r, {name: v}); task.spec(a); fails += a.fails
                if fails: break
            if fails: break
    return r.drawn, fails

def gen_val(rng, w):
    if w == 1: return rng.random() < .5
    k = rng.randrange(6)
    if k == 0: return rng.randrange(1 << w)
    if k == 1: return rng.randrange(64) & ((1 << w) - 1)
    if k == 2: return (-rng.randrange(1, 300)) & ((1 << w) - 1)
    b = rng.choice([x for x in (5, 7, 8, 10, 11, 15, 16, 20, 31, 32, 53, 63, 64) if x <= w])
    return ((1 << b) + rng.randrange(-3, 4)) & ((1 << w) - 1)
def gen_bytes(rng, task, name, elem, maxlen):
    g = (task.gen or {}).get(name) if isinstance(task.gen, dict) else None
    if callable(g): return g(rng)
    toks = g or [bytes([x]) for x in (0, 1, 0x17, 0x18, 0x19, 0x1a, 0x1b, 0x20, 0x7f, 0x80, 0xff)]
    out = b''
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 12, 20])):
        k = rng.random()
        if k < .12: out += bytes([rng.randrange(256)]) if elem == 1 else rng.randrange(1 << (8 * elem)).to_bytes(elem, 'little')
        else:
            t = rng.choice(toks)
            if isinstance(t, int): t = t.to_bytes(elem, 'little')
            out += t * (rng.choice([1, 1, 1, 1, 2, 3, 15, 16, 17]) if len(t) == elem and rng.random() < .2 else 1)
    return out[:maxlen * elem]

def campaign(task, models, outdir, seconds, seed):
    """replay the models, then search; returns (input, what, how) or None"""
    try: sofile = T_.compile_so(task.harness, outdir, task.std, task.defs)
    except Exception as e:
        if os.environ.get("VCDEBUG"): print(str(e)[:600], file=sys.stderr)
        return None
    deadline = time.time() + seconds
    start = 0; total = 0; nerr = 0
    while time.time() < deadline:
        r, w = os.pipe(); pid = os.fork()
        if pid == 0:
            try:
                os.close(r); dn = os.open('/dev/null', os.O_WRONLY); os.dup2(dn, 1); os.dup2(dn, 2)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                so = ctypes.CDLL(sofile); guard = Guard(); f = os.fdopen(w, 'w')
                i = start
                while time.time() < deadline:
                    rng = random.Random(seed * 1000003 + i)
                    given = models[i] if i < len(models) else None
                    if given is None and models and rng.random() < .3:
                        given = mutate(rng, rng.choice(models))
                    # announce the drawn inputs before the call
                    class Log(dict):
                        pass
                    f.write('S %d\n' % i); f.flush()
                    signal.alarm(20)
                    orig = Conc.call
                    def call(self, *a):
                        if self.cached is None:
                            f.write('D %s\n' % json.dumps(self.drawn)); f.flush()
                        return orig(self, *a)
                    Conc.call = call
                    try: drawn, fails = one(so, task, rng, given, guard)
                    except Skip: drawn, fails = None, None
                    finally: Conc.call = orig
                    if fails: f.write('F %s\n' % json.dumps([drawn, fails])); f.flush(); os._exit(3)
                    f.write('N\n'); i += 1
                f.flush()
            except BaseException as ex:
                try: f.write('E %s\n' % repr(ex).replace('\n', ' ')); f.flush()
                except BaseException: pass
            os._exit(0)
        os.close(w); last = None; fail = None; done = False; idx = start; err = None
        with os.fdopen(r) as f:
            for line in f:
                if line[0] == 'S': idx = int(line[2:]); last = None
                elif line[0] == 'D': last = line[2:]
                elif line[0] == 'F': fail = json.loads(line[2:])
                elif line[0] == 'N': total += 1
                elif line[0] == 'E': err = line[2:]; last = None
        _, status = os.waitpid(pid, 0)
        if fail: return {'input': fail[0], 'failed': fail[1], 'how': 'model' if idx < len(models) else 'search', 'cases': total}
        if os.WIFSIGNALED(status) and last:
            s = os.WTERMSIG(status)
            return {'input': json.loads(last), 'failed': ['the call dies with signal %d (%s)' % (s, signal.Signals(s).name)], 'how': 'model' if idx < len(models) else 'search', 'cases': total}
        if os.environ.get('VCDEBUG') and err and nerr < 3: print('replay error', task.name, err, file=sys.stderr)
        if idx < len(models): start = idx + 1; continue      # a model the contract cannot be evaluated on
        if err:
            start = idx + 1; nerr += 1
            if nerr > 20: break
            continue
        break
    return None
def mutate(rng, m):
    out = {}
    for k, v in m.items():
        if k.endswith('.len'): continue
        if isinstance(v, str):
            b = bytearray.fromhex(v[:200])
            for _ in range(rng.randrange(3)):
                op = rng.randrange(3); p = rng.randrange(len(b) + 1)
                if op == 0: b[p:p] = bytes([rng.randrange(256)])
                elif op == 1 and p < len(b): b[p] = rng.randrange(256)
                elif op == 2 and p < len(b): del b[p]
            out[k] = bytes(b).hex()
        elif rng.random() < .7: out[k] = v
    return out
