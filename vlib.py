"""Driver: compiles /repo's current sources, runs the deciding tools, replays
counterexamples on the real code, writes evidence."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = '/usr/bin/clang'
LLVMC = '/usr/bin/llvm-config-18'
ENGINE_SRC = ['exec.cpp', 'solver.cpp', 'expr.cpp', 'xag.cpp', 'expr.h', 'solver.h', 'xag.h']
JOBS = 8
BCF = ['-g0', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-builtin-printf',
       '-fno-builtin-puts', '-w', '-emit-llvm', '-c']
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all']


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def engine():
    """The symbolic executor, built from /verif/engine (kept between checks)."""
    h = hashlib.sha256()
    for f in ENGINE_SRC:
        h.update(open(f'{VERIF}/engine/{f}', 'rb').read())
    d = f'{VERIF}/.build'
    os.makedirs(d, exist_ok=True)
    exe = f'{d}/sxe-{h.hexdigest()[:16]}'
    if not os.path.exists(exe):
        tmp = f'{exe}.{os.getpid()}'
        objs = []
        procs = []
        for f in [x for x in ENGINE_SRC if x.endswith('.cpp')]:
            o = f'{tmp}.{f}.o'
            objs.append(o)
            procs.append(subprocess.Popen(['g++', '-O2', '-std=c++17', '-w', '-I/usr/lib/llvm-18/include', '-D__STDC_CONSTANT_MACROS',
                                           '-D__STDC_LIMIT_MACROS', '-D__STDC_FORMAT_MACROS', '-c', f'{VERIF}/engine/{f}', '-o', o]))
        if any([p.wait() for p in procs]):
            die('cannot build the engine')
        r = sh(['g++', '-o', tmp] + objs + ['-L/usr/lib/llvm-18/lib', '-lLLVM-18', '-lz3'])
        if r.returncode:
            die('cannot link the engine: ' + r.stdout[-500:])
        for o in objs:
            os.unlink(o)
        os.rename(tmp, exe)
    return exe


def die(msg):
    print('check error: ' + msg, file=sys.stderr)
    print('check error: ' + msg)
    sys.exit(2)


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix=f'verif-{pid}-')
        self.lock = threading.Lock()
        self.procs = set()
        self.stop = False
        self.results = []
        self.bc = {}
        self.native = {}
        self.viol = None
        self.errors = []
        self.notes = []
        self.skipped = 0
        self.deadline = self.t0 + (180 if tier == 'quick' else 780)

    # ---------------------------------------------------------------- builds
    def bitcode(self, src, defs=(), opt='-O1', extra=()):
        key = (src, tuple(defs), opt, tuple(extra))
        with self.lock:
            if key in self.bc:
                return self.bc[key]
        out = f'{self.dir}/{hashlib.md5(repr(key).encode()).hexdigest()[:12]}.bc'
        r = sh([CLANG, opt] + BCF + list(extra) + [f'-D{d}' for d in defs] + [f'-I{REPO}', f'-I{VERIF}/rt', f'-I{VERIF}/harness', src, '-o', out])
        if r.returncode:
            raise RuntimeError(f'cannot compile {src}: {r.stdout[-800:]}')
        with self.lock:
            self.bc[key] = out
        return out

    def native_exe(self, harness, repo_srcs, defs=(), msan=False):
        key = (harness, tuple(repo_srcs), tuple(defs), msan)
        with self.lock:
            lk = self.native.setdefault(('lock', key), threading.Lock())
        with lk:
            if key in self.native:
                return self.native[key]
            out = f'{self.dir}/n-{hashlib.md5(repr(key).encode()).hexdigest()[:12]}'
            cc = [CLANG, '-fsanitize=memory', '-fno-sanitize-recover=all'] if msan else ['gcc'] + SAN
            r = sh(cc + ['-g', '-O1', '-w'] + [f'-D{d}' for d in defs] + [f'-I{REPO}', f'-I{VERIF}/rt', f'-I{VERIF}/harness', f'{VERIF}/harness/{harness}',
                   f'{VERIF}/rt/native.c'] + [f'{REPO}/{s}' for s in repo_srcs] + ['-o', out])
            if r.returncode:
                raise RuntimeError(f'cannot build the replay of {harness}: {r.stdout[-800:]}')
            self.native[key] = out
            return out

    def popen(self, cmd, timeout, mem_gb=6):
        """run a tool; (rc, out); killed when the check stops early"""
        if self.stop:
            return None, ''
        with tempfile.TemporaryFile('w+', dir=self.dir) as f:
            p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, start_new_session=True,
                                 preexec_fn=lambda: _limit(mem_gb))
            with self.lock:
                self.procs.add(p)
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = 'timeout'
            finally:
                with self.lock:
                    self.procs.discard(p)
            f.seek(0)
            out = f.read()
        return rc, out

    def halt(self):
        self.stop = True
        with self.lock:
            for p in self.procs:
                try:
                    p.kill()
                except OSError:
                    pass

    # ---------------------------------------------------------------- engine task
    def run_engine(self, t):
        if self.stop:
            return
        n = t['n']
        left = self.deadline - time.time()
        if left < 2:
            self.skipped += 1
            return
        limit = min(t['time'], left)
        base = f'{self.dir}/t{n}'
        for opt in (t.get('opt', '-O1'), '-O0'):
            cmd = [self.exe, '-H', self.bitcode(f'{VERIF}/harness/{t["harness"]}', t.get('defs', ()))]
            for s in t['srcs']:
                cmd += ['-R', self.bitcode(f'{REPO}/{s}', t.get('rdefs', ()), opt, t.get('extra', ()))]
            cmd += ['-time', str(limit), '-cex', base + '.cex', '-o', base + '.json', '-samples', str(t.get('samples', 2)), '-sbase', base + '.smp']
            cmd += t.get('flags', [])
            for k, v in t['params'].items():
                cmd += ['-p', f'{k}={v}']
            rc, out = self.popen(cmd, limit + 60)
            if rc in (0, 1, 'timeout') or self.stop:
                break
        if self.stop or rc is None:
            return
        if rc == 'timeout' or rc == -9:
            # out of time or memory inside one query: undecided, which the evidence says
            with self.lock:
                self.skipped += 1
                self.notes.append(f'not decided ({"time" if rc == "timeout" else "memory"}): {t["params"]}')
            return
        if rc not in (0, 1):
            self.errors.append(f'engine failed ({rc}) on {t["params"]}: {out[-300:]}')
            return
        r = json.load(open(base + '.json'))
        r['task'] = t
        r['validated'] = 0
        if r['status'] == 'violation':
            self.confirm(t, r, base + '.cex')
        else:
            exe = self.native_exe(t['harness'], t['srcs'], tuple(t.get('defs', ())))
            for i in range(r['samples']):
                rc, out = self.popen([exe, f'{base}.smp.{i}'], 60)
                if rc == 0:
                    r['validated'] += 1
                elif not self.stop:
                    self.errors.append(f'engine and real code disagree on an execution of {t["params"]}: {out[-200:]}')
        with self.lock:
            self.results.append(r)

    def confirm(self, t, r, cex):
        """replay the solver's counterexample on the real code"""
        msan = 'uninitialised' in r['what']
        exe = self.native_exe(t['harness'], t['srcs'], tuple(t.get('defs', ())), msan)
        hang = 'terminate' in r['what'] or 'budget' in r['what']
        rc, out = self.popen([exe, cex], 20)
        if self.stop:
            return
        ok = (rc == 1 and 'REPLAY: VIOLATED' in out) or 'Sanitizer' in out or 'runtime error' in out or (hang and rc == 'timeout') or \
             (isinstance(rc, int) and rc < 0)
        if not ok and t.get('trust_engine'):
            ok = t['trust_engine'](r)
        if not ok:
            self.errors.append(f'counterexample not confirmed by the real code: {r["what"]} ({t["params"]}): rc={rc} {out[-300:]}')
            return
        with self.lock:
            if self.viol:
                return
            self.viol = (t, r, cex, out)
        self.halt()

    # ---------------------------------------------------------------- cbmc task
    def run_cbmc(self, t):
        """SAT-based bounded model checking of harness + real sources (goto
        programs made from the current sources); t: harness, srcs, defs,
        unwind, opts, name, bounds"""
        if self.stop:
            return
        left = self.deadline - time.time()
        if left < 2:
            self.skipped += 1
            return
        defs = list(t.get('defs', ()))
        cmd = ['cbmc', f'{VERIF}/harness/{t["harness"]}'] + [f'{REPO}/{s}' for s in t['srcs']] + [f'-I{REPO}', f'-I{VERIF}/rt', f'-I{VERIF}/harness']
        cmd += [f'-D{d}' for d in defs] + ['--no-standard-checks', '--bounds-check', '--pointer-check', '--unwinding-assertions',
                                           '--unwind', str(t['unwind']), '--json-ui', '--trace']
        cmd += t.get('opts', [])
        t0 = time.time()
        rc, out = self.popen(cmd, min(t['time'], left))
        dt = time.time() - t0
        res = {'cbmc': True, 'task': t, 'name': t['name'], 'bounds': t['bounds'], 'obligations': 0, 'discharged': 0, 'solver_s': round(dt, 2), 'assertions': [],
               'functions': [], 'validated': 0, 'verdict': 'not decided within the time limit'}
        if self.stop:
            return
        if rc == 'timeout' or rc is None:
            with self.lock:
                self.results.append(res)
            return
        try:
            js = json.loads(out)
        except ValueError:
            js = None
        props = None
        msgs = []
        for x in js or []:
            if 'result' in x:
                props = x['result']
            if 'messageText' in x:
                msgs.append(x['messageText'])
                m = re.match(r'(\d+) variables, (\d+) clauses', x['messageText'])
                if m:
                    res['variables'], res['clauses'] = int(m.group(1)), int(m.group(2))
        if props is None:
            txt = ' '.join(msgs)[-400:] if js else out[-400:]
            if rc in (0, 10) or 'memory' in txt or isinstance(rc, int) and rc < 0:
                with self.lock:
                    self.results.append(res)
                return
            self.errors.append(f'cbmc failed on {t["name"]}: {txt}')
            return
        bad, loops = [], []
        fns = set()
        for p in props:
            d, ok = p.get('description', ''), p['status'] == 'SUCCESS'
            f = p.get('sourceLocation', {}).get('function')
            if f and '/verif' not in p.get('sourceLocation', {}).get('file', ''):
                fns.add(f)
            res['obligations'] += 1
            if d.startswith('COVER:'):
                if ok:
                    self.errors.append(f'{t["name"]}: not reachable: {d}')
                else:
                    res['discharged'] += 1
                continue
            if ok:
                res['discharged'] += 1
            elif 'unwind' in p.get('property', ''):
                loops.append(p)
            else:
                bad.append(p)
            if p.get('property', '').startswith(('main.assertion', 'vx_main')) or 'assertion' in p.get('property', ''):
                res['assertions'].append(d)
        res['functions'] = sorted(fns)
        res['verdict'] = 'holds' if not bad and not loops else 'unwinding bound too small for: ' + ', '.join(p['property'] for p in loops) if not bad else 'counterexample'
        for p in bad + loops:
            cex = f'{self.dir}/c{t["n"]}.cex'
            with open(cex, 'w') as f:
                for s in p.get('trace', []):
                    if s.get('stepType') == 'assignment' and s.get('lhs') == 'vx_taken' and not s.get('hidden'):
                        b = s['value'].get('binary')
                        f.write(f'Q {int(b, 2) if b else int(s["value"]["data"].rstrip("ul"))}\n')
            exe = self.native_exe(t['harness'], t.get('nsrcs', t['srcs']), tuple(defs))
            rc, out = self.popen([exe, cex], 10)
            if self.stop:
                return
            if (rc == 1 and 'REPLAY: VIOLATED' in out) or 'Sanitizer' in out or 'runtime error' in out or (p in loops and rc == 'timeout') or (isinstance(rc, int) and rc < 0):
                m = re.search('REPLAY: VIOLATED: (.*)', out)
                with self.lock:
                    if self.viol:
                        return
                    what = m.group(1) if m else p.get('description', '') if p in bad else 'does not terminate'
                    self.viol = (t, {'what': what, 'where': p.get('sourceLocation', {}).get('function', '')}, cex, out)
                self.halt()
                return
            if p in bad:
                res['verdict'] = 'counterexample not confirmed by the real code, ignored: ' + p.get('description', '')
                self.notes.append(res['verdict'])
        with self.lock:
            self.results.append(res)

    # ---------------------------------------------------------------- all
    def go(self, tasks):
        self.exe = engine()
        for i, t in enumerate(tasks):
            t['n'] = i
        # compile once, up front
        pre = {}
        for t in tasks:
            if t.get('kind', 'engine') == 'engine':
                pre[(f'{VERIF}/harness/{t["harness"]}', tuple(t.get('defs', ())), '-O1', ())] = 1
                for s in t['srcs']:
                    pre[(f'{REPO}/{s}', tuple(t.get('rdefs', ())), t.get('opt', '-O1'), tuple(t.get('extra', ())))] = 1
        try:
            with cf.ThreadPoolExecutor(JOBS) as ex:
                list(ex.map(lambda k: self.bitcode(*k), pre))
                futs = [ex.submit(self.one, t) for t in tasks]
                for f in futs:
                    f.result()
        except RuntimeError as e:
            die(str(e))

    def one(self, t):
        try:
            if t.get('kind', 'engine') == 'engine':
                self.run_engine(t)
            elif t['kind'] == 'cbmc':
                self.run_cbmc(t)
            else:
                t['run'](self, t)
        except RuntimeError as e:
            if not self.stop:
                self.errors.append(str(e))

    def finish(self, spec):
        known = {}
        for r in self.results:
            for k, v in r.get('known', {}).items():
                known[k] = known.get(k, 0) + v
        kf = json.load(open(f'{VERIF}/known_findings.json'))['findings']
        wall = time.time() - self.t0
        self.evidence(spec, wall, known)
        for f in kf:
            if f.get('status') != 'fixed' and f['property'] == self.pid and known.get(f['id']):
                print(f'KNOWN-FINDING: property={self.pid} {f["id"]}: {f["what"]} ({known[f["id"]]} executions in this run)')
        rc = 0
        if self.viol:
            t, r, cex, out = self.viol
            rd = f'{VERIF}/replay'
            os.makedirs(rd, exist_ok=True)
            dst = f'{rd}/{self.pid}.txt'
            with open(dst, 'w') as f:
                f.write(f'# property {self.pid}: {r["what"]}\n# where: {r.get("where", "")}\n# harness {t.get("harness")} over {", ".join(t.get("srcs", []))}\n')
                f.write(f'# replay: {t.get("replay_hint", "gcc -g -I/repo -I/verif/rt -I/verif/harness /verif/harness/" + str(t.get("harness")) + " /verif/rt/native.c " + " ".join("/repo/" + s for s in t.get("srcs", [])) + " -o /tmp/replay && /tmp/replay " + dst)}\n')
                if cex and os.path.exists(cex):
                    f.write(open(cex).read())
                f.write('# ---- output of the real code on these inputs\n')
                for ln in out.splitlines()[-400:]:
                    f.write('# ' + ln + '\n')
            print(f'{r["what"]}\n  in {r.get("where", "")}')
            print(f'VIOLATION property={self.pid} replay={dst}')
            rc = 1
        elif self.errors:
            for e in self.errors[:5]:
                print('check error: ' + e)
            rc = 2
        else:
            print(f'{self.pid}: held on everything explored ({spec["summary"](self)}; {wall:.1f} s)')
        shutil.rmtree(self.dir, ignore_errors=True)
        return rc

    def evidence(self, spec, wall, known):
        R = self.results
        eng = [r for r in R if 'paths' in r]
        cb = [r for r in R if 'cbmc' in r]
        def tot(k):
            return sum(r.get(k, 0) for r in eng)
        funcs = {}
        for r in eng:
            for f, (n, seen, bbs) in r['functions'].items():
                a = funcs.setdefault(f, [0, 0, bbs])
                a[0] += n
                a[1] = max(a[1], seen)
        for r in cb:
            for f in r.get('functions', []):
                funcs.setdefault(f, [0, 0, 0])
        covers = {}
        asserts = set()
        for r in eng:
            asserts |= set(r['assertions'])
            for k, v in r['covers'].items():
                covers[k] = covers.get(k, 0) + v
        for r in cb:
            asserts |= set(r.get('assertions', []))
        samples = []
        for r in (eng[:1] + eng[len(eng) // 2:len(eng) // 2 + 1] + eng[-1:]):
            samples.append({'configuration': r['task']['params'], 'harness': r['task']['harness'], 'paths': r['paths'], 'status': r['status'], 'z3_queries': r['z3'], 'wall_s': r['wall']})
        for r in cb[:3]:
            samples.append({'obligation': r['name'], 'bounds': r['bounds'], 'verdict': r['verdict'], 'solver_s': r['solver_s']})
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': spec.get('level', 'model_checking'),
            'coverage': {
                'states': tot('paths') + tot('forks') + sum(r.get('clauses', 0) for r in cb),
                'transitions': tot('steps') + sum(r.get('steps', 0) for r in cb),
                'traces_validated_against_impl': sum(r.get('validated', 0) for r in R),
                'samples': samples,
                'configurations': len(eng), 'configurations_exhausted': sum(r['status'] == 'ok' for r in eng),
                'configurations_not_started': self.skipped, 'configurations_cut_by_time': sum(r['status'] == 'incomplete' for r in eng),
                'paths_completed': tot('paths'), 'paths_pending_at_time_limit': tot('pending'),
                'assertion_evaluations_concrete': tot('asserts_concrete'), 'assertion_evaluations_by_solver': tot('asserts_solver'),
                'solver': {'queries': tot('queries'), 'decided_by_witness_or_cache': tot('by_witness') + tot('by_repair') + tot('cached'),
                           'z3_queries': tot('z3'), 'z3_sat': tot('z3_sat'), 'z3_unsat': tot('z3_unsat'), 'z3_seconds': round(tot('z3_time'), 2),
                           'sat_obligations': sum(r.get('obligations', 0) for r in cb), 'sat_obligations_discharged': sum(r.get('discharged', 0) for r in cb),
                           'sat_variables': sum(r.get('variables', 0) for r in cb), 'sat_clauses': sum(r.get('clauses', 0) for r in cb),
                           'sat_seconds': round(sum(r.get('solver_s', 0) for r in cb), 2)},
                'functions_encoded': {f: {'calls': v[0], 'blocks_reached': v[1], 'blocks': v[2]} for f, v in sorted(funcs.items())},
                'assertions': sorted(asserts), 'reachability_witnesses': covers, 'known_finding_executions': known,
                'bounds': spec['bounds'], 'outside_the_bounds': spec['outside'],
                'obligations_sat': [{'name': r['name'], 'bounds': r['bounds'], 'verdict': r['verdict'], 'seconds': r['solver_s']} for r in cb],
            },
            'assumptions': spec.get('assumptions', []),
            'wall_s': round(wall, 2), 'violations': 1 if self.viol else 0,
        }
        os.makedirs(f'{VERIF}/evidence', exist_ok=True)
        with open(f'{VERIF}/evidence/{self.pid}.json', 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')


def _limit(gb):
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def main(specs):
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if pid == 'setup':
        engine()
        return 0
    spec = specs[pid]
    c = Check(pid, tier, seed)
    tasks = spec['tasks'](tier, seed)
    try:
        c.go(tasks)
        return c.finish(spec)
    finally:
        shutil.rmtree(c.dir, ignore_errors=True)
