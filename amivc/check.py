"""Decides one property for the current source tree:  python3-vt -m amivc.check C02 [--tier quick|thorough] [--src DIR]"""
import argparse, json, os, pickle, re, resource, shutil, signal, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = 8


def parallel(tasks, fn, limit, nproc=NPROC, mem=6):
    """fn(task) in forked children (they inherit all terms); -> {task: result or ('timeout',) / ('died',)}"""
    todo = list(tasks)
    run, out = {}, {}
    import selectors
    sel = selectors.DefaultSelector()
    while todo or run:
        while todo and len(run) < nproc:
            t = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    if mem:
                        resource.setrlimit(resource.RLIMIT_AS, (mem << 30, mem << 30))
                    res = fn(t)
                except BaseException as e:
                    res = ('error', '%s: %s' % (type(e).__name__, str(e)[:300]))
                try:
                    with os.fdopen(w, 'wb') as f:
                        pickle.dump(res, f)
                finally:
                    os._exit(0)
            os.close(w)
            run[r] = [t, pid, time.time(), b'']
            sel.register(r, selectors.EVENT_READ)
        for key, _ in sel.select(0.5):
            r = key.fd
            d = os.read(r, 1 << 16)
            if d:
                run[r][3] += d
                continue
            t, pid, _, buf = run.pop(r)
            sel.unregister(r)
            os.close(r)
            os.waitpid(pid, 0)
            out[t] = pickle.loads(buf) if buf else ('died',)
        now = time.time()
        for r in list(run):
            if now - run[r][2] > limit:
                t, pid, _, _ = run.pop(r)
                sel.unregister(r)
                os.close(r)
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
                os.waitpid(pid, 0)
                out[t] = ('timeout',)
    return out


class Check:
    def __init__(self, pid, tier, src, seed):
        self.pid, self.tier, self.src, self.seed = pid, tier, src, seed
        self.t0 = time.time()
        self.thorough = tier == 'thorough'
        self.violations = []          # (text, replay dict, has_input)
        self.notes = []
        self.functions = {}
        self.obls = 0
        self.done = 0
        self.by = {'normalisation': 0, 'z3': 0, 'syntactic': 0, 'lean': 0}
        self.solver_s = 0.0
        self.z3_queries = 0
        self.bounded = []
        self.unproved = []
        self.evals = 0
        self.skipped = 0
        self.samples = []
        self.assumptions = set()
        self.lemma_files = []

    # ---------------------------------------------------------------- setup
    def load(self):
        from .frontend import Program
        from .props import PROPS
        self.prop = PROPS[self.pid]
        self.prog = Program(self.src, self.prop.defs)
        from . import contracts as K
        self.K = K
        self.byfn, self.bylabel = K.attach(self.prog)
        self.labels = [l for l in self.prop.labels if l in self.bylabel]
        for l in self.prop.labels:
            if l not in self.bylabel:
                self.notes.append('function %s is not in the source with the expected signature' % l)

    def literals(self):
        xs = set()
        import glob
        for f in glob.glob(self.src + '/*.cpp'):
            for m in re.findall(r'(?<![\w.])(\d{1,3})(?![\w.])', open(f, errors='replace').read()):
                xs.add(int(m))
            for m in re.findall(r'(?<![\w.])(\d*\.?\d+[eE]-\d+|0?\.\d+)(?![\w.])', open(f, errors='replace').read()):
                if 0 < float(m) < 0.01:
                    xs.add(float(m))
        return sorted(xs)

    def start_build(self, flags=('-O1',), tag='d', ctors=()):
        from . import driver
        b = driver.Build(self.prog, self.src, list(self.bylabel.items()), ctors, flags, self.work, tag)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                try:
                    e = b.compile()
                except BaseException as x:
                    e = repr(x)
                with os.fdopen(w, 'w') as f:
                    f.write(e or '')
            finally:
                os._exit(0)
        os.close(w)

        def wait():
            with os.fdopen(r) as f:
                e = f.read()
            os.waitpid(pid, 0)
            if e or not os.path.exists(b.exe):
                self.notes.append('driver did not build: ' + e[-800:])
                return None
            return b
        return wait

    # ---------------------------------------------------------------- proving
    def collect(self):
        from .frontend import Unsupported
        vcs = []
        for l in self.labels:
            f = self.bylabel[l]
            try:
                ex, vs = self.K.obligations(self.prog, f, self.byfn[f.mangled], self.byfn)
            except Unsupported as e:
                self.unsupported(l, str(e))
                continue
            except RecursionError:
                self.unsupported(l, 'too deep')
                continue
            except Exception as e:
                self.unsupported(l, 'front end: %s %s' % (type(e).__name__, str(e)[:200]))
                continue
            self.functions[l] = {'calls_by_contract': sorted(ex.used), 'inlined': sorted(ex.inlined), 'dropped_output_statements': len(ex.dropped)}
            for v in vs:
                if self.prop.select(v):
                    v.sort = v.code.sort if isinstance(v.code, object) and hasattr(v.code, 'sort') else None
                    vcs.append(v)
        return vcs

    def unsupported(self, l, why):
        self.bounded.append({'function': l, 'reason': 'outside the verifier\'s reach: ' + why})
        self.need_campaign.add(l)

    def prove(self, vcs, limit, patience=1):
        """-> [(vc, result)] of those not discharged"""
        from . import prover as PR, contracts as K
        project = self.prop.project

        def one(i):
            v = vcs[i]
            pr = PR.Prover(limit, patience)
            ok = K.discharge(v, pr)
            how = 'z3' if pr.nz3 else 'normalisation'
            if not ok and project is not None and v.kind == 'post' and v.sort is not None:
                a, b = project(v.code, v.sort), project(v.spec, v.sort)
                pr = PR.Prover(limit, patience)
                if a is None:
                    ok = True
                else:
                    try:
                        ok = pr.eq(a, b, v.hyps)
                    except PR.Timeout:
                        ok = False
                how = 'z3' if pr.nz3 else 'normalisation'
            fail = None
            if not ok:
                fail = [str(x)[:1500] for x in (pr.failed or ())[1:4]]
            return ('ok' if ok else 'no', how, v.time, pr.nz3, pr.z3time, v.status, fail)
        res = parallel(range(len(vcs)), one, limit * 3 + 20)
        bad = []
        for i, v in enumerate(vcs):
            r = res[i]
            if r[0] == 'ok':
                self.done += 1
                self.by[r[1]] += 1
            else:
                bad.append((v, r))
            if len(r) > 4:
                self.solver_s += r[2]
                self.z3_queries += r[3]
        return bad

    def failed_vc(self, v, r):
        from .props import BOUNDED
        rec = {'obligation': v.name, 'kind': v.kind, 'status': r[5] if len(r) > 5 else r[0], 'verifier_output': r[6] if len(r) > 6 else list(r),
               'code': str(v.code)[:2500], 'specification': str(v.spec)[:2500]}
        self.need_campaign.add(v.fn)
        if v.name in BOUNDED:
            self.obls -= 1
            self.bounded.append({'obligation': v.name, 'reason': BOUNDED[v.name]})
            return
        self.unproved.append(rec)

    # ---------------------------------------------------------------- concrete comparison
    def outputs(self, o):
        m = self.prop.mask
        if m == 'values':
            return lambda n: n == 'result' or n in o.names
        if m == 'flags':
            return lambda n: n == 'overflow_detected' or n == 'termination'
        return lambda n: True

    def campaigns(self, build, labels, n, seconds, seeds, stop_first=True):
        """-> {label: failure}"""
        from . import refute as RF, driver as D
        lits = self.literals()
        tasks = [(l, s) for s in seeds for l in labels]

        def one(t):
            l, s = t
            o = RF.Oracle(self.prog, l, self.bylabel[l], self.byfn[self.bylabel[l].mangled])
            o.wanted = self.outputs(o)
            o.project = self.prop.project
            d = D.Driver(build)
            try:
                return RF.campaign(o, d, '%s/%s/%s' % (self.seed, l, s), n, seconds, lits)
            finally:
                d.close()
        res = parallel(tasks, one, seconds + 60)
        fails = {}
        self.tally(res, fails)
        return fails

    # ---------------------------------------------------------------- verdict
    def violation(self, text, data, has_input):
        self.violations.append((text, data, has_input))

    def left(self):
        """wall-clock seconds left for further attempts"""
        return (3000 if self.thorough else 480) - (time.time() - self.t0)

    def run_contracts(self):
        from .props import BOUNDED
        self.need_campaign = set()
        wait = self.start_build()
        vcs = self.collect()
        project = self.prop.project
        if project is not None:
            vcs = [v for v in vcs if v.sort is not None and (project(v.spec, v.sort) is not None or v.fn == 'g_struct_equiv')]
        self.obls = len(vcs)
        bad = self.prove(vcs, 60)
        build = wait()
        n, sec = (20000, 240) if self.thorough else (700, 30)
        fails = {}
        if build is None:
            self.notes.append('no concrete comparison')
        else:
            fails = self.campaigns(build, self.labels, n, sec, [0])
        # second attempt, with more time, where no failing input is known
        again = [(v, r) for v, r in bad if v.fn not in fails and (self.thorough or v.name not in BOUNDED)]
        rest = [(v, r) for v, r in bad if not any(v is x for x, _ in again)]
        if again and self.left() > 60:
            again = self.prove([v for v, _ in again], 600 if self.thorough else min(200, self.left() / (1 + (len(again) - 1) // NPROC)), 4)
        for v, r in rest + again:
            self.failed_vc(v, r)
        hard = [l for l in self.labels if l in self.need_campaign and l not in fails]
        if hard and build is not None:
            sd = range(1, 1 + max(2, 8 // len(hard)))
            fails.update(self.campaigns(build, hard, 10 ** 6, 300 if self.thorough else max(20, min(60, 240 // len(hard))), sd))
        self.conclude(fails)

    # ---------------------------------------------------------------- C14
    def run_purity(self):
        from .frontend import Unsupported
        from . import refute as RF, driver as D
        self.need_campaign = set()
        wait = self.start_build()
        vcs = []
        for l in self.labels:
            f = self.bylabel[l]
            try:
                ex, vs = self.K.obligations(self.prog, f, self.byfn[f.mangled], self.byfn)
                vs = [v for v in vs if v.kind == 'frame' or v.out.endswith('independent of earlier calls')] + self.K.dependencies(ex, f, self.byfn[f.mangled])
            except (Unsupported, RecursionError) as e:
                self.unsupported(l, str(e) or 'too deep')
                continue
            except Exception as e:
                self.unsupported(l, 'front end: %s %s' % (type(e).__name__, str(e)[:200]))
                continue
            self.functions[l] = {'calls_by_contract': sorted(ex.used), 'inlined': sorted(ex.inlined), 'dropped_output_statements': len(ex.dropped)}
            seen = {v.name for v in vs if v.kind != 'dep'}
            vcs += [v for v in vs if v.kind != 'dep' or v.name not in seen]
        self.obls = len(vcs)
        bad = self.prove(vcs, 60)
        build = wait()
        fails = {}
        lits = self.literals()
        if build is not None:
            oracles = [RF.Oracle(self.prog, l, self.bylabel[l], self.byfn[self.bylabel[l].mangled]) for l in self.labels]

            def one(l, n, sec, s):
                o = next(o for o in oracles if o.label == l)
                d = D.Driver(build)
                try:
                    return RF.purity_campaign(o, oracles, d, '%s/%s/%s' % (self.seed, l, s), n, sec, lits)
                finally:
                    d.close()

            def round_(labels, n, sec, seeds):
                res = parallel([(l, s) for s in seeds for l in labels], lambda t: one(t[0], n, sec, t[1]), sec + 60)
                self.tally(res, fails)
            round_(self.labels, 20000 if self.thorough else 400, 240 if self.thorough else 15, [0])
            res = parallel(list(range(8 if self.thorough else 3)), lambda t: RF.order_campaign(oracles, lambda: D.Driver(build), '%s/order/%s' % (self.seed, t),
                                                                                               400 if self.thorough else 60, 60, lits), 200)
            for t, r in res.items():
                if len(r) == 3 and isinstance(r[0], int):
                    self.evals += r[0]
                    self.skipped += r[1]
                    for l, f in r[2].items():
                        fails.setdefault(l, f)
                else:
                    self.notes.append('order of calls: %s' % ' '.join(map(str, r))[:300])
            again = [v for v, r in bad if v.fn not in fails]
            bad = [(v, r) for v, r in bad if v.fn in fails] + (self.prove(again, 200, 4) if again else [])
            for v, r in bad:
                self.failed_vc(v, r)
            hard = [l for l in self.labels if l in self.need_campaign and l not in fails]
            if hard:
                round_(hard, 10 ** 6, 300 if self.thorough else 40, range(1, 3))
        else:
            for v, r in bad:
                self.failed_vc(v, r)
        self.conclude(fails)

    # ---------------------------------------------------------------- C20
    def run_constructors(self):
        from .frontend import Unsupported
        from . import ctors as CT, driver as D
        self.need_campaign = set()
        keys, entries, vcs = [], [], []
        for name, sorts in CT.TABLE:
            l = CT.label(name, sorts)
            try:
                entries.append(CT.driver_entry(self.prog, name, sorts))
                keys.append((name, sorts))
                ex, vs = CT.obligations(self.prog, name, sorts)
            except (Unsupported, RecursionError) as e:
                self.unsupported(l, str(e) or 'too deep')
                continue
            except Exception as e:
                self.unsupported(l, 'front end: %s %s' % (type(e).__name__, str(e)[:200]))
                continue
            self.functions[l] = {'calls_by_contract': [], 'inlined': sorted(ex.inlined), 'dropped_output_statements': len(ex.dropped)}
            vcs += vs
        wait = self.start_build(ctors=entries)
        self.obls = len(vcs)
        bad = self.prove(vcs, 60)
        for v, r in bad:
            self.failed_vc(v, r)
        build = wait()
        fails = {}
        if build is not None:
            drv = D.Driver(build)
            try:
                self.tally({(CT.label(*k), 0): CT.campaign(self.prog, drv, k[0], k[1], '%s/%s' % (self.seed, CT.label(*k)), 5000 if self.thorough else 400)
                            for k in keys}, fails)
            finally:
                drv.close()
        elif self.bounded:
            self.violation('the driver for the constructors does not build', {'notes': self.notes}, False)
        self.conclude(fails)

    # ---------------------------------------------------------------- C15
    def run_memory(self):
        from .frontend import Unsupported
        from .props import BOUNDED_MEMORY
        from . import refute as RF, driver as D, memory as M
        self.need_campaign = set()
        san = ('-O1', '-g0', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize=signed-integer-overflow,shift,enum',
               '-fno-sanitize-recover=all', '-ftrivial-auto-var-init=pattern')
        wait = self.start_build(san, 'asan')
        wait2 = self.start_build(('-O1', '-ftrivial-auto-var-init=zero', '-DFILL=0'), 'zero')
        todo = []

        def collect(l):
            f = self.bylabel[l]
            return M.obligations(self.prog, f, self.byfn[f.mangled], self.byfn)
        for l in self.labels:
            try:
                ex, obs, H = collect(l)
            except (Unsupported, RecursionError) as e:
                self.unsupported(l, str(e) or 'too deep')
                continue
            except Exception as e:
                self.unsupported(l, 'front end: %s %s' % (type(e).__name__, str(e)[:200]))
                continue
            self.functions[l] = {'calls_by_contract': sorted(ex.used), 'inlined': sorted(ex.inlined), 'dropped_output_statements': len(ex.dropped)}
            for k, o in enumerate(obs):
                if '%s.%s' % (l, o.kind) in BOUNDED_MEMORY:
                    continue
                todo.append((o, H))
        for n, why in BOUNDED_MEMORY.items():
            self.bounded.append({'obligation': n, 'reason': why})
            self.need_campaign.add(n.split('.')[0])
        self.obls = len(todo)
        left = list(range(len(todo)))
        for secs in (20, 120):
            def one(i):
                o, H = todo[i]
                t0 = time.process_time()
                r = M.discharge(o, H, secs)
                return bool(r), time.process_time() - t0, (o.why or [])[:3]
            # small tasks in groups, so that few processes are started
            k = 8 if secs == 20 else 1
            groups = [tuple(left[j:j + k]) for j in range(0, len(left), k)]
            res = parallel(groups, lambda g: [one(i) for i in g], (secs + 20) * (6 if k > 1 else 3))
            bad, why = [], {}
            for g in groups:
                r = res[g]
                ok = isinstance(r, list) and len(r) == len(g)
                for j, i in enumerate(g):
                    if ok:
                        self.solver_s += r[j][1]
                    if ok and r[j][0]:
                        self.done += 1
                        self.by['z3'] += 1
                    else:
                        bad.append(i)
                        why[i] = r[j][2] if ok else [str(r)]
            left = bad
            if not left or self.left() < 150:
                break
        for i in left:
            o, H = todo[i]
            self.need_campaign.add(o.fn)
            self.unproved.append({'obligation': o.name, 'kind': o.kind, 'status': 'undischarged', 'verifier_output': why[i], 'code': str(o.cond)[:2500],
                                  'specification': 'holds on every path to line %s of %s' % (o.loc, o.fn)})
        b, b2 = wait(), wait2()
        fails = {}
        if b is not None:
            lits = self.literals()
            orc = {}
            for l in self.labels:
                o = RF.Oracle(self.prog, l, self.bylabel[l], self.byfn[self.bylabel[l].mangled])
                orc[l] = o, tuple(M.requires(l, o.av))

            def camp(t, n, sec):
                d, d2 = D.Driver(b), D.Driver(b2) if b2 is not None and t[0] not in self.UNSET else None
                try:
                    return RF.memory_campaign(*orc[t[0]], d, d2, '%s/%s/%s' % (self.seed, t[0], t[1]), n, sec, lits)
                finally:
                    d.close()
                    if d2 is not None:
                        d2.close()
            n, sec = (20000, 240) if self.thorough else (500, 25)
            self.tally(parallel([(l, 0) for l in self.labels], lambda t: camp(t, n, sec), sec + 60, mem=None), fails)
            hard = [l for l in self.labels if l in self.need_campaign and l not in fails]
            if hard:
                sec = 300 if self.thorough else 40
                self.tally(parallel([(l, s) for l in hard for s in range(1, 3)], lambda t: camp(t, 10 ** 6, sec), sec + 60, mem=None), fails)
        elif self.bounded:
            self.notes.append('no concrete comparison')
        self.conclude(fails)

    # leaves the index of its result unset (deprecated, not called)
    UNSET = ('update_Z_pole',)

    def tally(self, res, fails):
        for t, r in res.items():
            if len(r) == 3 and isinstance(r[0], int):
                self.evals += r[0]
                self.skipped += r[1]
                if r[2] and t[0] not in fails:
                    fails[t[0]] = r[2]
            else:
                self.notes.append('concrete comparison of %s: %s' % (t[0], ' '.join(map(str, r))[:300]))

    def conclude(self, fails):
        for l, f in fails.items():
            un = [u for u in self.unproved if u['obligation'].split('.')[0] == l]
            self.violation('%s: %s expected %s got %s' % (l, f['output'], f['expected'][:200], f['got'][:200]),
                           {'failing_input': f, 'failed_obligations': un}, True)
        rest = [u for u in self.unproved if u['obligation'].split('.')[0] not in fails]
        if rest:
            self.violation('obligations not discharged: ' + ', '.join(u['obligation'] for u in rest), {'failed_obligations': rest}, False)

    def main(self):
        self.work = tempfile.mkdtemp(prefix='amivc_')
        try:
            try:
                self.load()
            except Exception as e:
                self.violation('the source cannot be read: %s' % str(e)[:400], {'error': str(e)[:4000]}, False)
                return self.finish()
            try:
                getattr(self, 'run_' + self.prop.mode)()
                if self.prop.lemmas:
                    from . import lemmas
                    lemmas.run(self, self.prop.lemmas)
            except Exception as e:
                traceback.print_exc()
                self.violation('the check could not be completed: %s' % repr(e)[:300], {'error': traceback.format_exc()}, False)
            return self.finish()
        finally:
            shutil.rmtree(self.work, ignore_errors=True)

    def known(self):
        out = []
        try:
            for line in open(os.path.join(VERIF, 'known-findings.txt')):
                m = re.match(r'finding: property=(\S+) function=(\S+) output=(\S+) (.*)', line.strip())
                if m and m.group(1) == self.pid:
                    out.append(m.groups())
        except OSError:
            pass
        return out

    def finish(self):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        known = self.known()
        real = []
        for v in self.violations:
            f = v[1].get('failing_input', {})
            k = next((k for k in known if f and k[1] == f.get('function') and k[2] == f.get('output')), None)
            if k:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, k[3]))
            else:
                real.append(v)
        lines = []
        for i, (text, data, has_input) in enumerate(real):
            path = os.path.join(VERIF, 'evidence', 'replay_%s_%d.json' % (self.pid, i))
            data = dict(property=self.pid, what=text, source=self.src, defs=list(getattr(self.prop, 'defs', ())), **data)
            data['rerun'] = 'python3-vt -m amivc.replay ' + path
            with open(path, 'w') as f:
                json.dump(data, f, indent=1, default=str)
            lines.append('VIOLATION property=%s replay=%s%s' % (self.pid, path, '' if has_input else ' no-failing-input-found'))
            print('# ' + text[:600])
        self.evidence(len(real))
        lines.sort(key=lambda l: 'no-failing' in l)
        for l in lines:
            print(l)
        print('%s %s: %d obligations, %d discharged (%s), %d bounded, %d concrete comparisons, %.1f s' % (
            self.pid, 'VIOLATED' if real else 'holds', self.obls, self.done, ', '.join('%s %d' % kv for kv in self.by.items() if kv[1]),
            len(self.bounded), self.evals, time.time() - self.t0))
        for n in self.notes:
            print('note: ' + n[:500])
        return 1 if real else 0

    def evidence(self, nviol):
        from . import trusted
        cov = {
            'obligations': self.obls, 'discharged': self.done,
            'checker_cmd': 'python3-vt -m amivc.check %s --tier %s' % (self.pid, self.tier),
            'trusted_base': trusted.BASE,
            'functions_under_contract': self.functions, 'discharged_by': self.by, 'prover_seconds': round(self.solver_s, 2), 'z3_queries': self.z3_queries,
            'undischarged': [u['obligation'] for u in self.unproved], 'bounded_not_proved': self.bounded,
            'evaluations': self.evals, 'rule': 'contract of each function compared with the compiled function on generated well-formed inputs (supporting check; also guards against vacuous contracts)',
            'lemmas': self.lemma_files, 'notes': self.notes,
        }
        if self.samples:
            cov['samples'] = self.samples[:5]
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'proof', 'coverage': cov,
              'assumptions': sorted(trusted.ASSUMPTIONS + trusted.per_property(self)), 'wall_s': round(time.time() - self.t0, 2), 'violations': nviol}
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--src', default='/repo/src')
    a = ap.parse_args()
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    sys.exit(Check(a.property, a.tier, a.src, seed).main())


if __name__ == '__main__':
    main()
