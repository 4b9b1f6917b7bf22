"""
Shared machinery of the checks: running TLC, validating recorded traces,
collecting violations and known findings, writing evidence.

Exit status of a check: 0 (held on everything explored), 1 (a VIOLATION line
was printed). Anything else is a failure of the machinery itself.
"""
import contextlib
import hashlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
JARS = ('/opt/veriftools/tla/tla2tools.jar:'
        '/opt/veriftools/tla/CommunityModules-deps.jar')
KNOWN = os.path.join(VERIF, 'known_findings.json')


class MachineryError(RuntimeError):
    pass


class Tlc:
    """Result of one TLC run."""

    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r'([\d,]+) states generated(?: \([^)]*\))?, '
                       r'([\d,]+) distinct states found', out)
        if m:
            self.generated = int(m[-1][0].replace(',', ''))
            self.distinct = int(m[-1][1].replace(',', ''))
        else:
            m = re.findall(r'The number of states generated: ([\d,]+)', out)
            self.generated = int(m[-1].replace(',', '')) if m else 0
            self.distinct = self.generated
        self.finished = ('Model checking completed' in out
                         or 'Finished in' in out)
        self.error = None
        # what the specifications print may contain anything
        own = '\n'.join(s for s in out.splitlines() if s[:1] != '"')
        if 'Error:' in own or rc not in (0,):
            i = own.find('Error:')
            self.error = own[i:i + 3000] if i >= 0 else own[-3000:]

    def records(self, prefix):
        """JSON records printed with PrintT(prefix \\o ToJson(x))."""
        res = []
        for line in self.out.splitlines():
            if line.startswith('"' + prefix):
                s = line[1 + len(prefix):]
                if s.endswith('"'):
                    s = s[:-1]
                s = s.replace('\\"', '"').replace('\\\\', '\\')
                res.append(json.loads(s))
        return res


def run_tlc(module, cfg, env=None, workers=4, heap='4g', timeout=600,
            extra=(), tmp=None, deadlock=False):
    """
    Run TLC on /verif/spec/<module>.tla. cfg is a file name in spec/ or the
    text of a configuration (if it contains a newline).
    """
    own = tmp is None
    tmp = tmp or tempfile.mkdtemp(prefix='verif_tlc_')
    meta = tempfile.mkdtemp(prefix='meta_', dir=tmp)
    if '\n' in cfg:
        cfgp = os.path.join(meta, module + '.cfg')
        with open(cfgp, 'w') as f:
            f.write(cfg)
    else:
        cfgp = os.path.join(SPEC, cfg)
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss16m',
           '-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet'
           if False else '-Dvf=1',
           '-Djava.io.tmpdir=' + meta,
           '-cp', JARS, 'tlc2.TLC', '-config', cfgp,
           '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE']
    if not deadlock:
        cmd.append('-deadlock')
    cmd += list(extra) + [module]
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    try:
        p = subprocess.run(
            cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT, timeout=timeout, text=True)
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as x:
        out = (x.stdout or b'')
        out = out.decode() if isinstance(out, bytes) else out
        raise MachineryError('TLC timeout on %s\n%s' % (module, out[-2000:]))
    finally:
        if own:
            shutil.rmtree(tmp, ignore_errors=True)
        else:
            shutil.rmtree(meta, ignore_errors=True)
    return Tlc(out, rc, time.time() - t0)


_LONG = re.compile(r'(?<![\w.])-?\d{10,}(?![\w.])')


def _clamped(v):
    """TLC's integers have 32 bits, and its reader wraps longer ones."""
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return max(-2**31 + 1, min(2**31 - 1, v))
    if isinstance(v, dict):
        return {k: _clamped(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [_clamped(x) for x in v]
    return v


class Ctx:
    """One run of the check of one property."""

    def __init__(self, pid, tier, seed, level='model_checking'):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix='verif_%s_' % pid)
        self.rng = random.Random(seed * 7919 + int(pid[1:]))
        self.states = self.transitions = self.traces = self.events = 0
        self.samples = []
        self.cov = {}
        self.violations = []
        self.known_hit = []
        self.assumptions = []
        try:
            with open(KNOWN) as f:
                self.known = [k for k in json.load(f)['findings']
                              if k['property'] == pid
                              and k.get('status') == 'known']
        except FileNotFoundError:
            self.known = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def dir(self, name=''):
        return tempfile.mkdtemp(prefix=name or 'd', dir=self.tmp)

    # -- model checking ---------------------------------------------------
    def model(self, module, cfg, **kw):
        """Exhaustive (or simulated) check of the specification itself."""
        kw.setdefault('tmp', self.tmp)
        r = run_tlc(module, cfg, **kw)
        if r.error:
            # the specification itself is inconsistent: machinery failure
            raise MachineryError(
                'TLC reports an error on the specification %s (%s):\n%s' % (
                    module, cfg if '\n' not in cfg else 'inline', r.error))
        self.states += r.distinct
        self.transitions += r.generated
        self.cov.setdefault('models', []).append(dict(
            module=module, cfg=cfg if '\n' not in cfg else 'inline',
            distinct_states=r.distinct, states_generated=r.generated,
            wall_s=round(r.wall, 1)))
        return r

    def gen(self, module, cfg, prefix='GEN ', **kw):
        """Behaviours / cases enumerated by TLC, printed as JSON."""
        r = self.model(module, cfg, **kw)
        return r.records(prefix)

    def pmap(self, fn, n, workers=8):
        """
        Record events in parallel: fn(ctx, rng, events) is called n times,
        each with its own generator; the events are returned in order. fn may
        also be a list of (fn, n). `fn` must not depend on order.
        """
        todo = fn if isinstance(fn, list) else [(fn, n)]
        jobs = [(f, k) for f, m in todo for k in range(m)]
        seeds = [self.rng.randrange(1 << 60) for _ in jobs]
        global _JOBS
        import gc
        import multiprocessing as mp
        _JOBS = (self, jobs, seeds, mp.get_context('fork').Value('b', 0))
        gc.collect()
        gc.freeze()
        order = sorted(range(len(jobs)), key=lambda i: i)
        with mp.get_context('fork').Pool(min(workers, len(jobs) or 1)) as p:
            res = p.map(_job, order, chunksize=1)
        gc.unfreeze()
        for _, crash in res:
            if crash:
                self.fail('crash:' + crash[0], dict(
                    clause='unexpected exception', detail=crash[0],
                    traceback=crash[1]))
        return [e for r, _ in res for e in r]

    # -- trace validation -------------------------------------------------
    def validate(self, module, events, cfg=None, describe=None,
                 replay=None, chunk=4000, heap='4g', timeout=800):
        """
        Let TLC check recorded events of the real code against the trace
        specification `module`. Every event is a dict with at least "ev";
        an event "Reset" starts a new trace. The trace specification prints
        'BAD {..}' (with fields l, clause, ...) for each clause an event
        fails, and 'DONE {n}' at the end.
        Returns the list of failures (each with the event).
        """
        cfg = cfg or 'SPECIFICATION TraceSpec\nCONSTANT Big = 0\n'
        chunks, cur = [], []
        for e in events:
            if e['ev'] == 'Reset' and len(cur) >= chunk:
                chunks.append(cur)
                cur = []
            cur.append(e)
        if cur:
            chunks.append(cur)
        fails = []
        from concurrent.futures import ThreadPoolExecutor

        def one(ch):
            path = os.path.join(
                self.tmp, 'trace_%s_%d.ndjson' % (module, id(ch)))
            with open(path, 'w') as f:
                for e in ch:
                    line = json.dumps(e)
                    if _LONG.search(line):
                        line = json.dumps(_clamped(e))
                    f.write(line + '\n')
            r = run_tlc(module, cfg, env={'TRACE': path}, workers=1,
                        heap=heap, timeout=timeout, tmp=self.tmp)
            os.unlink(path)
            done = r.records('DONE ')
            # An observed state of such a shape that the specification is
            # undefined for it (e.g., more rows than labels)
            undef = bool(r.error) and re.search(
                r'Attempted to (access|apply|select|compare|check|compute|'
                r'evaluate)|not in the domain|Overflow when computing',
                r.out) is not None
            if not undef and (
                    r.error or not done or done[0]['n'] != len(ch)):
                raise MachineryError(
                    'trace validation of %s did not finish: %s\n%s' % (
                        module, done, (r.error or r.out)[-3000:]))
            bad = []
            for b in r.records('BAD '):
                b['event'] = ch[b['l'] - 1]
                # the trace the event belongs to
                i = b['l'] - 1
                while i > 0 and ch[i]['ev'] != 'Reset':
                    i -= 1
                b['trace'] = ch[i:b['l']]
                bad.append(b)
            if undef:
                bad.append(dict(
                    clause='the observed state has no meaning',
                    detail=(r.error or r.out)[:1500], event=dict(ev='?'),
                    trace=ch[:1], l=0))
            return bad, r

        with ThreadPoolExecutor(4) as ex:
            for bad, r in ex.map(one, chunks):
                fails += bad
                self.states += r.distinct
                self.transitions += r.generated
        n = sum(1 for e in events if e['ev'] == 'Reset')
        self.traces += n
        self.events += len(events)
        self.cov.setdefault('validated', []).append(dict(
            trace_spec=module, traces=n, events=len(events)))
        for b in fails:
            key = describe(b) if describe and b['l'] else b['clause']
            self.fail(key, dict(
                clause=b['clause'], detail=b.get('detail'),
                event=b['event'], trace=b['trace'], spec=module,
                replay=replay))
        if events and len(self.samples) < 4:
            # a sample trace, shortened
            self.sample([e for e in events[:6]])
        return fails

    def sample(self, x):
        s = json.dumps(x, default=str)
        if len(s) > 3000:
            s = s[:3000] + '...'
            x = s
        self.samples.append(x)

    # -- verdicts ---------------------------------------------------------
    def fail(self, key, detail):
        """
        A property violation observed on the real code. `key` identifies the
        failing input / call / history in a stable way (see known findings).
        """
        for k in self.known:
            if re.fullmatch(k['match'], key):
                if k not in self.known_hit:
                    self.known_hit.append(k)
                return
        self.violations.append((key, detail))

    def finish(self):
        for k in self.known_hit:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        rc = 0
        if self.violations:
            rc = 1
            rdir = os.path.join(VERIF, 'replays', self.pid)
            os.makedirs(rdir, exist_ok=True)
            seen = set()
            for key, detail in self.violations:
                if key in seen:
                    continue
                seen.add(key)
                if len(seen) > 8:
                    break
                h = hashlib.sha1(key.encode()).hexdigest()[:10]
                path = os.path.join(rdir, h + '.json')
                with open(path, 'w') as f:
                    json.dump(dict(property=self.pid, key=key, seed=self.seed,
                                   tier=self.tier, detail=detail), f,
                              indent=1, default=str)
                print('  %s: %s' % (self.pid, key))
                d = detail.get('detail') if isinstance(detail, dict) else None
                if d is not None:
                    print('    ' + json.dumps(d, default=str)[:600])
                print('VIOLATION property=%s replay=%s' % (self.pid, path))
        self.evidence()
        return rc

    def evidence(self):
        cov = dict(self.cov)
        cov.update(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces,
                   events_validated=self.events,
                   samples=self.samples[:6] or ['none'])
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed,
                  level=self.level, coverage=cov,
                  assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2),
                  violations=len({k for k, _ in self.violations}))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(
                VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)


_JOBS = None


class Stuck(BaseException):
    """The code under test does not come to an end."""


def _stuck(*_):
    raise Stuck()


def _job(i):
    ctx, jobs, seeds, stuck = _JOBS
    ev = []
    if stuck.value:
        # no answer in time; this is known from another job
        return ev, None
    signal.signal(signal.SIGALRM, _stuck)
    signal.setitimer(signal.ITIMER_REAL, ctx.pick(240, 1800), 5)
    try:
        jobs[i][0](ctx, random.Random(seeds[i]), ev)
    except Stuck:
        stuck.value = 1
        return [], ('does not end', traceback.format_exc()[-3000:])
    except Exception as e:
        if isinstance(e, (ImportError, MachineryError)):
            raise
        # either the code under test failed where it must not, or it did
        # something the driver can not even record
        tb = traceback.extract_tb(e.__traceback__)
        own = [f for f in tb if f.filename.startswith(('/repo/', VERIF))]
        return ev, ('%s in %s' % (type(e).__name__, own[-1].name),
                    traceback.format_exc()[-3000:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return ev, None


@contextlib.contextmanager
def quiet():
    """Silence prints and warnings of the code under test."""
    import io
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        o, e = io.StringIO(), io.StringIO()
        with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e):
            yield


def code(s):
    """A name as the specification sees it: a sequence of character codes."""
    return [ord(c) for c in s]


def uncode(c):
    return ''.join(chr(x) for x in c)


def main(pid):
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    sys.path.insert(0, os.path.join(VERIF, 'checks'))
    import importlib
    ctx = None
    try:
        mod = importlib.import_module(pid.lower())
        ctx = Ctx(pid, tier, seed, getattr(mod, 'LEVEL', 'model_checking'))
        mod.run(ctx)
        rc = ctx.finish()
    except MachineryError as e:
        print('ERROR in the machinery: %s' % e)
        rc = 3
        if ctx is not None and ctx.violations:
            rc = ctx.finish()
    except Exception:
        traceback.print_exc()
        rc = 3
        if ctx is not None and ctx.violations:
            rc = ctx.finish()
    finally:
        if ctx is not None:
            shutil.rmtree(ctx.tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import vf
    vf.main(sys.argv[1])
