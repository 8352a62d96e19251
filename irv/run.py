"""Runs a list of obligations (named tasks) in parallel worker processes and collects the verdicts."""
import os, sys, time, traceback, signal, pickle
import engine, llir
from engine import Engine, Violation, Undecided, Unsupported, explore, Stats

class Task:
    """one function-level proof: name, function under contract, fn(E) executed on every path"""
    def __init__(self, name, func, fn, contracts=None, budget=150, args=(), maxpaths=20000, timeout=20000, check_nsw=True, engine_cls=Engine, group=None, need_cover=(), lf=None, weight=0, fallback=None, bounded=None, alt=None):
        self.alt = alt
        self.lf = lf; self.weight = weight; self.fallback = fallback; self.bounded = bounded
        self.name = name; self.func = func; self.fn = fn; self.contracts = contracts or {}
        self.budget = budget; self.args = args; self.maxpaths = maxpaths; self.timeout = timeout
        self.check_nsw = check_nsw; self.engine_cls = engine_cls; self.group = group or name
        self.need_cover = need_cover

class PyTask:
    """an obligation discharged by a plain function returning a dict (other back ends: CBMC, linear algebra domain...)"""
    def __init__(self, name, func, fn, args=(), group=None, weight=1):
        self.name = name; self.func = func; self.fn = fn; self.args = args; self.group = group or name; self.weight = weight

_ctx = {}

def _run(i):
    t = _ctx['tasks'][i]
    mod = _ctx['mod']
    t0 = time.time()
    if isinstance(t, PyTask):
        try:
            r = t.fn(mod, *t.args)
        except Violation as e:
            r = dict(status='violation', label=e.label, detail=e.detail, model=e.model)
        except Undecided as e:
            r = dict(status='undecided', label=e.label, detail=e.detail)
        except (Unsupported, KeyError, llir.Unsupported) as e:
            r = dict(status='unsupported', detail='%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))
        except Exception as e:
            r = dict(status='error', detail=traceback.format_exc()[-2500:])
        r['i'] = i; r['time'] = time.time() - t0
        r.setdefault('stats', Stats())
        return r
    res = _prove(mod, t, i, t.args)
    if res['status'] in ('unsupported', 'undecided') and _ctx.get('ll'):
        # same source with two-way conditionals turned into selects (fewer paths)
        m2 = _mod2()
        if m2 is not None:
            r2 = _prove(m2, t, i, t.args)
            res['stats'].merge(r2['stats'])
            if r2['status'] == 'proved' or (r2['status'] == 'violation' and r2['label'] != 'no signed overflow'):
                r2['stats'] = res['stats']; res = r2
    if res['status'] in ('unsupported', 'undecided') and getattr(t, 'fallback', None):
        # the unbounded argument does not go through on this text: the bounded stand-in decides (reported as bounded)
        why = res['detail'][:200]
        for fa in t.fallback:
            r2 = _prove(mod, t, i, fa, cover=False)
            res['stats'].merge(r2['stats'])
            if r2['status'] != 'proved':
                r2['stats'] = res['stats']; res = r2; break
        else:
            res['status'] = 'proved'; res['bounded'] = 'bounded stand-in for %r (unbounded proof: %s)' % (t.fallback, why); res['fellback'] = True
    elif res['status'] in ('unsupported', 'undecided') and getattr(t, 'alt', None):
        # other obligations that together stand in for this one (bounded unless they say otherwise)
        why = res['detail'][:200]; bd = []
        for a in t.alt:
            r2 = _prove(mod, a, i, a.args)
            res['stats'].merge(r2['stats'])
            if a.bounded: bd.append('%s (%s)' % (a.name, a.bounded))
            if r2['status'] != 'proved':
                r2['stats'] = res['stats']; res = r2; break
        else:
            res['status'] = 'proved'
            if bd: res['bounded'] = 'stand-ins: %s (unbounded proof: %s)' % ('; '.join(bd), why)
    elif getattr(t, 'bounded', None): res['bounded'] = t.bounded
    res['time'] = time.time() - t0
    return res

def _mod2():
    if 'mod2' not in _ctx:
        import subprocess
        out = _ctx['ll'] + '.%d.s.ll' % os.getpid()
        r = subprocess.run(['opt', '-S', '-passes=early-cse,simplifycfg,early-cse,simplifycfg', '-o', out, _ctx['ll']], capture_output=True)
        _ctx['mod2'] = None
        if r.returncode == 0:
            try: _ctx['mod2'] = llir.parse(open(out).read())
            except Exception: pass
    return _ctx['mod2']

def _prove(mod, t, i, args, cover=True):
    E = t.engine_cls(mod, t.contracts, t.timeout)
    E.check_nsw = t.check_nsw
    E.lf = t.lf
    res = dict(i=i, status='proved', label='', detail='', model=None)
    try:
        explore(E, lambda E: t.fn(E, *args), t.maxpaths, t.budget)
        missing = [c for c in t.need_cover if c not in E.stats.covers] if cover else []
        if missing:
            res.update(status='violation', label='reachability (non-vacuity)', detail='no execution reaches: %s' % ', '.join(missing))
    except Violation as e:
        res.update(status='violation', label=e.label, detail=e.detail, model=e.model, path=list(E.dec))
    except Undecided as e:
        res.update(status='undecided', label=e.label, detail=e.detail)
    except (Unsupported, RecursionError) as e:
        res.update(status='unsupported', detail=str(e) + '\n' + traceback.format_exc()[-1500:])
    except Exception as e:
        res.update(status='error', detail=traceback.format_exc()[-2500:])
    res['stats'] = E.stats
    return res

def _worker(rfd, wfd):
    """serves task numbers read from rfd, one pickled result per task on wfd"""
    os.setpgid(0, 0)
    rf = os.fdopen(rfd, 'rb'); wf = os.fdopen(wfd, 'wb')
    while True:
        b = rf.read(4)
        if len(b) < 4: os._exit(0)
        r = _run(int.from_bytes(b, 'little'))
        try: d = pickle.dumps(r)
        except Exception as e:
            d = pickle.dumps(dict(i=r['i'], status=r['status'], label=str(r.get('label', '')), detail=str(r.get('detail', '')), model=None, stats=Stats(), time=r['time']))
        wf.write(len(d).to_bytes(8, 'little') + d); wf.flush()

class _W:
    def __init__(self):
        a, b = os.pipe(); c, d = os.pipe()
        sys.stdout.flush(); sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(b); os.close(c)
                for o in _ctx['workers']:
                    os.close(o.w); os.close(o.r)
                _worker(a, d)
            finally: os._exit(1)
        os.close(a); os.close(d)
        self.w, self.r = b, c; self.buf = b''; self.n = 0; self.task = None
    def give(self, i):
        self.task = i; self.n += 1; os.write(self.w, i.to_bytes(4, 'little'))
    def read(self):
        """None: more to come; False: the worker died; else the result"""
        try: d = os.read(self.r, 1 << 20)
        except OSError: d = b''
        if not d: return False
        self.buf += d
        if len(self.buf) < 8: return None
        n = int.from_bytes(self.buf[:8], 'little')
        if len(self.buf) < 8 + n: return None
        r = pickle.loads(self.buf[8:8 + n]); self.buf = b''; self.task = None
        return r
    def stop(self):
        os.close(self.w); os.close(self.r)
        try: os.killpg(self.pid, signal.SIGKILL)
        except OSError:
            try: os.kill(self.pid, signal.SIGKILL)
            except OSError: pass
        try: os.waitpid(self.pid, 0)
        except OSError: pass

def run_all(mod, tasks, jobs=8, deadline=None, stop_on_violation=True, verbose=False, ll=None):
    _ctx['ll'] = ll; _ctx['tasks'] = tasks; _ctx['mod'] = mod
    out = [None] * len(tasks)
    todo = sorted(range(len(tasks)), key=lambda i: -getattr(tasks[i], 'weight', 0))[::-1]
    ws = _ctx['workers'] = []
    import select
    try:
        while True:
            for w in list(ws):
                if w.task is None and (w.n >= 16 or not todo): ws.remove(w); w.stop()
            for w in ws:
                if w.task is None and todo: w.give(todo.pop())
            while todo and len(ws) < jobs:
                w = _W(); ws.append(w); w.give(todo.pop())
            if not ws: break
            left = max(0.0, deadline - time.time()) if deadline else None
            ready = select.select([w.r for w in ws], [], [], left)[0]
            if not ready: break
            stop = False
            for w in list(ws):
                if w.r not in ready: continue
                r = w.read()
                if r is None: continue
                if r is False:
                    r = dict(i=w.task, status='error', detail='the worker process ended (out of memory?)', stats=Stats(), time=0.0); ws.remove(w); w.stop()
                out[r['i']] = r
                if verbose:
                    print('  %-10s %-60s %.1fs %s' % (r['status'], tasks[r['i']].name, r['time'], r.get('label', '') + ' ' + str(r.get('detail', ''))[:600] if r['status'] != 'proved' else ''), flush=True)
                if stop_on_violation and r['status'] == 'violation': stop = True
            if stop: break
    finally:
        for w in ws: w.stop()
        _ctx['workers'] = []
    return out
