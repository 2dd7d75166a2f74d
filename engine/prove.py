"""Proves one entry (one harness function = one group of contracts): generates the verification conditions
from the given bitcode and discharges them. Run as a process of its own; writes a JSON result."""
import importlib.util, json, os, re, subprocess, sys, tempfile, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
import z3
from vcg import *
import hooks


def load_spec(prop):
    p = f'{build.VERIF}/proofs/{prop}/spec.py'
    s = importlib.util.spec_from_file_location('spec_' + prop, p)
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m


class Solve:
    def __init__(self, e, deadline):
        self.e = e
        self.deadline = deadline
        self.by = {}

    def note(self, o, status, backend, t0):
        o.status = status
        o.backend = backend
        o.time += time.time() - t0

    def incremental(self, obs, ms):
        """obligations in program order, each under the assumptions made before it"""
        e = self.e
        s = z3.Solver()
        s.set('timeout', ms)
        np_ = 0
        for o in obs:
            if time.time() > self.deadline:
                return
            t0 = time.time()
            while np_ < o.np:
                if np_ not in e.qasm:
                    s.add(e.asm[np_])
                np_ += 1
            s.push()
            s.add(o.guard, z3.Not(o.cond))
            r = s.check()
            o.time += time.time() - t0
            if r == z3.unsat:
                o.status, o.backend = 'unsat', 'z3-inc'
            s.pop()

    def fresh(self, o, seed, ms):
        """a solver for one obligation, in a context of its own (a large context makes the solver slower)"""
        c = z3.Context()
        s = z3.Solver(ctx=c)
        s.set('timeout', ms)
        s.set('random_seed', seed)
        for a in [self.e.asm[i] for i in range(o.np) if i not in self.e.qasm] + [o.guard, z3.Not(o.cond)]:
            s.add(a.translate(c))
        return s

    def full(self, o, ms):
        e = self.e
        t0 = time.time()
        quant = [i for i in e.qasm if i < o.np]
        if quant:
            # with the instances of the quantified assumptions only
            for seed, lim in ((0, ms // 4), (7, ms // 6), (23, ms // 2), (7, ms)):
                s = self.fresh(o, seed, lim)
                r2 = s.check()
                if r2 != z3.unknown:
                    break
                if seed == 0:
                    c = self.cvc5(o, 12000, (['--solve-bv-as-int=sum'], []))
                    if c:
                        return self.note(o, 'unsat', c, t0)
            if r2 == z3.unsat:
                return self.note(o, 'unsat', 'z3', t0)
            if r2 == z3.sat:
                o.model = self.inputs(s.model().translate(z3.main_ctx()))
            s = z3.Solver()
            s.set('timeout', ms)
            s.add(*[e.asm[i] for i in range(o.np)])
            s.add(o.guard, z3.Not(o.cond))
            r = s.check()
            if r == z3.unsat:
                return self.note(o, 'unsat', 'z3', t0)
            o.status = 'sat' if r == z3.sat else 'candidate' if r2 == z3.sat else 'unknown'
            return self.note(o, o.status, 'z3', t0)
        for seed, lim in ((0, 2500), (-1, 20000), (7, ms // 3), (23, ms)):
            if seed < 0:
                # arithmetic with multiplication or division: over the integers
                r = self.cvc5(o, lim, (['--solve-bv-as-int=sum'], []))
                if r:
                    return self.note(o, 'unsat', r, t0)
                continue
            s = self.fresh(o, seed, min(ms, lim))
            r = s.check()
            if r != z3.unknown:
                break
        if r == z3.sat:
            o.model = self.inputs(s.model().translate(z3.main_ctx()))
            return self.note(o, 'sat', 'z3', t0)
        if r == z3.unsat:
            return self.note(o, 'unsat', 'z3', t0)
        # second attempt: eager bit-blasting
        try:
            t = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'ackermannize_bv', 'bit-blast', 'sat')
            s2 = t.solver()
            s2.set('timeout', ms)
            s2.add(*e.asm[:o.np])
            s2.add(o.guard, z3.Not(o.cond))
            r = s2.check()
            if r == z3.unsat:
                return self.note(o, 'unsat', 'z3-bitblast', t0)
        except z3.Z3Exception:
            pass
        # third: cvc5
        r = self.cvc5(o, ms, ([],))
        self.note(o, 'unsat' if r else 'unknown', r or 'z3', t0)

    def cvc5(self, o, ms, variants):
        """the variant of cvc5 that first answers unsat, or None"""
        if os.environ.get('VF_NO_CVC5'):
            return None
        s = z3.Solver()		# a fresh one: a solver that has run prints rewritten assertions
        s.add(*[self.e.asm[i] for i in range(o.np) if i not in self.e.qasm], o.guard, z3.Not(o.cond))
        txt = re.sub(r'\b(bv[us](?:div|rem|mod))_i\b', r'\1', '(set-logic ALL)\n' + s.to_smt2())
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(txt)
        ps = [(('cvc5-int' if v else 'cvc5'), subprocess.Popen(['cvc5', f'--tlimit={ms}', *v, f.name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)) for v in variants]
        end = time.time() + ms / 1000 + 5
        try:
            while ps and time.time() < end:
                for n, p in list(ps):
                    if p.poll() is not None:
                        ps.remove((n, p))
                        if p.stdout.read().split()[:1] == ['unsat']:
                            return n
                time.sleep(0.02)
            return None
        except Exception:
            return None
        finally:
            for _, p in ps:
                p.kill()
                p.wait()
            os.unlink(f.name)

    def inputs(self, m):
        out = {}
        for nm, (k, w, t) in ((n, v if v[0] == 'int' else (v[0], v[2], v[1])) for n, v in self.e.inputs.items()):
            if k == 'int':
                v = m.eval(t, model_completion=True).as_long()
                out[nm] = v.to_bytes(w // 8, 'little').hex()
            else:
                n = w if isc(w) else m.eval(w, model_completion=True).as_long()
                n = min(n, 1 << 16)
                out[nm] = bytes(m.eval(z3.Select(t, z3.BitVecVal(i, 64)), model_completion=True).as_long() for i in range(n)).hex()
        for d in m.decls():
            n = d.name()
            mm = re.match(r'uf8?_(.*)$', n)
            if mm and d.arity() == 2:
                fi = m[d]
                for i in range(fi.num_entries()):
                    en = fi.entry(i)
                    out[f'uf:{mm.group(1)}:{en.arg_value(0).as_long()}:{en.arg_value(1).as_long()}'] = en.value().as_long().to_bytes(8, 'little').hex()
                try:
                    out[f'ufelse:{mm.group(1)}'] = fi.else_value().as_long().to_bytes(8, 'little').hex()
                except Exception:
                    pass
        return out

    def run(self, workers, ms):
        e = self.e
        self.incremental(e.obs, min(700, ms))
        rest = [o for o in e.obs if o.status is None]
        if not rest:
            return
        if workers <= 1 or len(rest) == 1:
            for o in rest:
                if time.time() > self.deadline:
                    o.status = 'unknown'
                else:
                    self.full(o, ms)
            return
        # forked workers, round robin
        pids = []
        for w in range(min(workers, len(rest))):
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                res = []
                for o in rest[w::workers]:
                    if time.time() > self.deadline:
                        o.status = 'unknown'
                    else:
                        try:
                            self.full(o, ms)
                        except Exception as ex:
                            o.status = 'unknown'
                    res.append((o.status, o.backend, o.time, o.model))
                with os.fdopen(wr, 'w') as f:
                    json.dump(res, f)
                os._exit(0)
            os.close(wr)
            pids.append((w, pid, r))
        for w, pid, r in pids:
            with os.fdopen(r) as f:
                txt = f.read()
            os.waitpid(pid, 0)
            try:
                res = json.loads(txt)
            except ValueError:
                res = []
            for o, x in zip(rest[w::workers], res):
                o.status, o.backend, o.time, o.model = x
        for o in rest:
            if o.status is None:
                o.status = 'unknown'


def prove(prop, entry, bc, workers=1, tier='quick', budget=600):
    t0 = time.time()
    spec = load_spec(prop)
    en = spec.ENTRIES[entry]
    res = dict(entry=entry, error=None, obligations=[], covers=[])
    ir = IR(build.irdump(), bc)
    e = Engine(ir, unroll=en.get('unroll', 600))
    hooks.install(e)
    for h in en.get('hooks', []):
        h(e)
    e.deadline = t0 + en.get('exec_budget', min(350, budget * 0.6))
    for rx, tgt in en.get('replace', []):
        e.replace.append((re.compile(rx), tgt))
    for rx in en.get('real', []):
        e.real.append(re.compile(rx))
    for rx, sel, sp in en.get('loops', []):
        e.loopspecs.append((re.compile(rx), sel, sp))
    throws = []
    try:
        f = ir.func(entry)
        v, rg, throws = e.exec_fn(f, [], 1)
        for g, p in throws:
            if e.feasible(g):
                names = sorted({str(o.exc) for _, o, _ in p.alts})
                e.loc = ('', 0)
                e.oblige('exception', 'no exception escapes (' + ','.join(names) + ')', g, False)
    except (Unsupported, SpecMismatch) as ex:
        res['error'] = f'{type(ex).__name__}: {ex} at {e.loc} in {e.stack[-int(os.environ.get("VF_STACK","3")):]}'
    except RecursionError as ex:
        res['error'] = 'RecursionError'
    except Exception as ex:
        res['error'] = f'{type(ex).__name__}: {ex} at {e.loc} in {e.stack[-int(os.environ.get("VF_STACK","3")):]} ' + traceback.format_exc()[-600:]
    if os.environ.get('VF_DEBUG'):
        print('exec', round(time.time() - t0, 1), e.stat, res['error'], len(e.obs), flush=True)
    res['exec_s'] = time.time() - t0
    if getattr(e, 'unwind_failed', False) and not res['error']:
        pass
    s = Solve(e, t0 + budget)
    ms = en.get('solver_ms', 60000 if tier == 'quick' else 240000)
    t1 = time.time()
    s.run(workers, ms)
    res['solve_s'] = time.time() - t1
    for o in e.obs:
        res['obligations'].append(dict(kind=o.kind, msg=o.msg, loc=list(o.loc) if o.loc else None, fn=(ir.func(o.fn) or {}).get('dem', o.fn) if o.fn else '',
                                       status=o.status, backend=o.backend, time=round(o.time, 3), model=o.model))
    # vacuity: every cover point must be reachable under the assumptions made before it
    if not res['error']:
        for what, c, np_, kind in e.covers:
            sv = z3.Solver()
            sv.set('timeout', 20000)
            sv.add(*[e.asm[i] for i in range(np_) if i not in e.qasm])
            sv.add(c)
            r = sv.check()
            if r != z3.unsat and any(i < np_ for i in e.qasm):
                sv = z3.Solver()
                sv.set('timeout', 1500 if tier == 'quick' else 5000)
                sv.add(*e.asm[:np_])
                sv.add(c)
                if sv.check() == z3.unsat:
                    r = z3.unsat
            res['covers'].append(dict(what=what, status=str(r), kind=kind))
    res['trivial'] = e.stat.get('trivial', 0)
    res['asserts'] = getattr(e, 'asserts', 0)
    res['stat'] = e.stat
    res['functions'] = sorted({(f['dem'], f['file']) for f in e.functions.values() if '/repo' in f['file'] or build.REPO in f['file']})
    res['trusted'] = sorted(e.trusted)
    res['contracts'] = sorted(e.contracts_used.items())
    res['wall'] = time.time() - t0
    return res


if __name__ == '__main__':
    prop, entry, bc, out, workers, tier, budget = sys.argv[1:8]
    r = prove(prop, entry, bc, int(workers), tier, float(budget))
    with open(out, 'w') as f:
        json.dump(r, f)
    if os.environ.get('VF_DEBUG'):
        n = {}
        for o in r['obligations']:
            n[o['status']] = n.get(o['status'], 0) + 1
            if o['status'] != 'unsat' or o['time'] > 3:
                print(o['status'], o['kind'], o['msg'], o['loc'], o['fn'][:60], o['time'], o['backend'], {k: v for k, v in (o['model'] or {}).items() if os.environ['VF_DEBUG'] == '2'})
        print(n, 'trivial', r['trivial'], 'covers', [(c['what'], c['status']) for c in r['covers']], 'solve', round(r['solve_s'], 1), 'wall', round(r['wall'], 1), r['error'])
