#!/usr/bin/env python3-vt
"""check.py ID: decide one property on /repo's current working tree (see DESIGN.md)."""
import json, os, re, shutil, subprocess, sys, time, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from prove import load_spec

PY = '/opt/veriftools/pyvenv/bin/python' if os.path.exists('/opt/veriftools/pyvenv/bin/python') else sys.executable
LIMIT = float(os.environ.get('VF_LIMIT', '840'))


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.spec = load_spec(prop)
        self.dir = f'{build.VERIF}/proofs/{prop}'
        self.work = f'{build.OUT}/{prop}.{os.getpid()}'
        os.makedirs(self.work, exist_ok=True)
        self.harness = self.dir + '/h.cpp'
        self.results = {}
        self.notes = []
        self.nat = None
        self.searched = {}
        self.viol = []       # (entry, obligation or None, replay path, found input?)

    def left(self):
        return LIMIT - (time.time() - self.t0)

    # ---- proving
    def entries(self):
        return [n for n, e in self.spec.ENTRIES.items() if self.tier == 'thorough' or not e.get('thorough_only')]

    def prove_all(self, names, bc, tag='', slack=200):
        par = min(8, len(names))
        workers = max(1, 8 // par)

        def one(n):
            out = f'{self.work}/{n}{tag}.json'
            budget = max(60, min(self.spec.ENTRIES[n].get('budget', 500), self.left() - slack))
            log = open(f'{self.work}/{n}{tag}.log', 'w')
            try:
                subprocess.run([PY, build.ENG + '/prove.py', self.prop, n, bc, out, str(workers), self.tier, str(budget)],
                               stdout=log, stderr=log, timeout=budget + 60, env=dict(os.environ, VF_DEBUG=os.environ.get('VF_DEBUG', '')))
            except subprocess.TimeoutExpired:
                pass
            try:
                return json.load(open(out))
            except Exception:
                tail = open(f'{self.work}/{n}{tag}.log').read()[-600:]
                return dict(entry=n, error='prover process gave no result: ' + tail, obligations=[], covers=[], trivial=0, asserts=0, functions=[], trusted=[], contracts=[], exec_s=0, solve_s=0, wall=0)
        with cf.ThreadPoolExecutor(par) as ex:
            return dict(zip(names, ex.map(one, names)))

    @staticmethod
    def verdict(r):
        """proved | failed | undecided"""
        st = [o['status'] for o in r['obligations']]
        if any(s == 'sat' and o['kind'] != 'unwind' for s, o in zip(st, r['obligations'])):
            return 'failed'
        if r['error'] or any(s != 'unsat' for s in st):
            return 'undecided'
        if r['asserts'] < 1 or any(c['status'] != 'sat' for c in r['covers']) or not r['covers']:
            return 'vacuous'
        return 'proved'

    # ---- real code
    def native(self):
        if self.nat is None:
            tus = list(getattr(self.spec, 'NATIVE_TUS', None) or self.spec.TUS)
            defs = getattr(self.spec, 'DEFS', [])
            try:
                self.nat = build.native(self.work + '/nat', tus, self.harness, defs)
            except build.BuildError as ex:
                self.nat = False
                self.notes.append('the real code could not be built for running: ' + str(ex)[-300:])
        return self.nat

    def replay(self, entry, path):
        if not self.native():
            return None
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:detect_odr_violation=0:allocator_may_return_null=1:detect_stack_use_after_return=0:exitcode=1')
        try:
            r = subprocess.run([self.nat, 'replay', entry, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=40, env=env, cwd=self.work)
        except subprocess.TimeoutExpired:
            return 1, 'timeout'
        return r.returncode, r.stdout[-3000:]

    def search(self, entry, secs):
        """random search on the real code; path of a failing input or None"""
        if entry in self.searched:
            return self.searched[entry]
        self.searched[entry] = None
        if not self.native() or self.spec.ENTRIES[entry].get('native') is False:
            return None
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:detect_odr_violation=0:allocator_may_return_null=1:detect_stack_use_after_return=0:exitcode=1')
        procs = []
        for i in range(4):
            out = f'{self.work}/{entry}.found{i}'
            procs.append((out, subprocess.Popen([self.nat, 'search', entry, str(secs), out, str(self.seed * 100 + i)], stdout=subprocess.DEVNULL, stderr=open(out + '.log', 'w'), env=env, cwd=self.work)))
        for out, p in procs:
            try:
                p.wait(timeout=secs + 60)
            except subprocess.TimeoutExpired:
                p.kill()
            if p.returncode == 1 and os.path.exists(out):
                rr = self.replay(entry, out)
                if rr and rr[0] == 1:
                    self.searched[entry] = out
        return self.searched[entry]

    def keep(self, entry, lines, n):
        d = f'{build.VERIF}/evidence/replay'
        os.makedirs(d, exist_ok=True)
        p = f'{d}/{self.prop}_{entry}_{n}.txt'
        with open(p, 'w') as f:
            f.write('\n'.join(lines) + '\n')
        return p

    def report(self, entry, r):
        """a failed entry: find an input, write the replay file"""
        sat = [o for o in r['obligations'] if o['status'] in ('sat', 'candidate')]
        sat.sort(key=lambda o: o['status'] != 'sat')
        tried = 0
        for o in sat:
            if o.get('model') is None or tried > 6 or self.left() < 60:
                continue
            tried += 1
            p = f'{self.work}/{entry}.cex{tried}'
            with open(p, 'w') as f:
                for k, v in o['model'].items():
                    f.write(f'{k} {v}\n')
            rr = self.replay(entry, p)
            if rr and rr[0] == 1:
                body = [f'# property {self.prop} entry {entry}', f'# failed obligation: {o["kind"]}: {o["msg"]} at {o["loc"]} in {o["fn"]}',
                        f'# replay: build with engine/build.py native(); ./native replay {entry} <this file>']
                body += ['# ' + x for x in rr[1].splitlines()[:12]]
                body += [f'{k} {v}' for k, v in o['model'].items()]
                return self.keep(entry, body, 'input'), True
        f = self.search(entry, 25 if self.tier == 'quick' else 60) if self.left() > 90 else None
        if f:
            rr = self.replay(entry, f)
            body = [f'# property {self.prop} entry {entry}: failing input found by running the contract on the real code'] + [f'# failed obligation: {o["kind"]}: {o["msg"]} at {o["loc"]} in {o["fn"]}' for o in sat[:5]]
            body += ['# ' + x for x in rr[1].splitlines()[:12]] + open(f).read().splitlines()
            return self.keep(entry, body, 'input'), True
        real = [o for o in sat if o['status'] == 'sat']
        if not real:
            return None, False
        body = [f'# property {self.prop} entry {entry}', '# failed obligations (the verifier\'s output; no failing input was reproduced on the real code):']
        for o in real[:20]:
            body.append(f'# {o["kind"]}: {o["msg"]} at {o["loc"]} in {o["fn"]} [{o["backend"]}: sat]')
            if o.get('model'):
                body += [f'#   {k} = {v[:200]}' for k, v in o['model'].items()]
        return self.keep(entry, body, 'obligation'), False

    def fallback(self, n, bc):
        """verdicts of the bounded entries (of the thorough tier) that stand in for entry n"""
        fb = self.spec.ENTRIES[n].get('fallback') or []
        fb = [fb] if isinstance(fb, str) else list(fb)
        todo = [f for f in fb if f not in self.results]
        if todo and self.left() > 200:
            self.results.update(self.prove_all(todo, bc, slack=120))
        for f in fb:
            if f in self.results:
                self.results[f]['verdict'] = self.verdict(self.results[f])
        return {f: self.results[f]['verdict'] if f in self.results else 'undecided' for f in fb}

    # ---- whole check
    def run(self):
        names = self.entries()
        rc = 0
        defs = getattr(self.spec, 'DEFS', [])
        try:
            bc = build.bitcode(self.work + '/bc', self.spec.TUS, self.harness, defs)
        except build.BuildError as ex:
            bc = None
            self.notes.append('extraction failed: ' + str(ex)[-500:])
        if bc:
            self.results = self.prove_all(names, bc)
            again = [n for n in names if self.verdict(self.results[n]) == 'undecided' and self.results[n]['error'] and
                     ('external function' in self.results[n]['error'] or 'no body' in self.results[n]['error'])]
            if again and self.left() > 300:
                # the code now calls into translation units it did not need before: extract all of them
                try:
                    bc = build.bitcode(self.work + '/bcall', build.all_tus(), self.harness, defs)
                    self.results.update(self.prove_all(again, bc, '.all'))
                except build.BuildError as ex:
                    self.notes.append('extraction of all units failed: ' + str(ex)[-300:])
        known = {n: e['known'] for n, e in self.spec.ENTRIES.items() if e.get('known')}
        undecided = []
        for n in names:
            r = self.results.get(n)
            v = self.verdict(r) if r else 'undecided'
            if r:
                r['verdict'] = v
            if n in known:
                # an entry whose precondition is exactly a recorded finding
                if v == 'failed':
                    print(f'KNOWN-FINDING: property={self.prop} {known[n]}')
                continue
            if v == 'failed' or (v == 'undecided' and r and any(o['status'] == 'candidate' for o in r['obligations'])):
                path, found = self.report(n, r)
                bad = [o for o in r['obligations'] if o['status'] == 'sat']
                if path and not found and any(o['kind'].startswith('inv') for o in bad):
                    fb = self.fallback(n, bc)
                    broken = [f for f in fb if fb[f] == 'failed']
                    for f in broken:
                        p2, found2 = self.report(f, self.results[f])
                        if p2 and found2:
                            n, path, found = f, p2, True
                            break
                    if fb and not broken and all(x == 'proved' for x in fb.values()):
                        # the loop contract no longer fits the loop, while the unrolled contract holds and no input fails:
                        # nothing is known to be wrong with the code
                        os.unlink(path)
                        r['error'] = 'loop contract does not fit the loop any more: ' + '; '.join(o['msg'] for o in bad[:3])
                        path = None
                if path:
                    self.viol.append((n, path, found))
                    continue
                v = 'undecided'
            if v in ('undecided', 'vacuous'):
                undecided.append(n)
        # bounded stand-in for what could not be decided: run the contract on the real code
        for n in undecided:
            why = (self.results.get(n) or {}).get('error') or 'solver gave no answer' if bc else 'extraction failed'
            if (self.results.get(n) or {}).get('verdict') == 'vacuous':
                why = 'vacuous: ' + str([c for c in self.results[n]['covers'] if c['status'] != 'sat'])
            print(f'UNDECIDED property={self.prop} entry={n}: {str(why)[:300]}')
            if self.left() < 60:
                continue
            f = self.search(n, 20 if self.tier == 'quick' else 60)
            if f:
                rr = self.replay(n, f)
                body = [f'# property {self.prop} entry {n}: failing input found by running the contract on the real code (proof undecided: {str(why)[:200]!r})']
                body += ['# ' + x for x in rr[1].splitlines()[:12]] + open(f).read().splitlines()
                self.viol.append((n, self.keep(n, body, 'input'), True))
                continue
            # no failing input and no answer for the loop contract: the unrolled contract may give one
            fb = self.fallback(n, bc) if bc else {}
            for f in fb:
                if fb[f] == 'failed' and not any(x == f for x, _, _ in self.viol):
                    path, found = self.report(f, self.results[f])
                    if path:
                        self.viol.append((f, path, found))
        if self.tier == 'thorough' and not self.viol:
            # cross-check of the verifier against the real code: the proved contracts must also hold when run
            todo = [n for n in names if n not in known and n not in self.searched and self.spec.ENTRIES[n].get('native') is not False]
            for n in todo:
                if self.left() < 90:
                    break
                f = self.search(n, max(5, min(40, (self.left() - 60) / max(1, len(todo)))))
                if f:
                    rr = self.replay(n, f)
                    body = [f'# property {self.prop} entry {n}: failing input found by running the contract on the real code'] + ['# ' + x for x in rr[1].splitlines()[:12]] + open(f).read().splitlines()
                    self.viol.append((n, self.keep(n, body, 'input'), True))
        for n, path, found in self.viol:
            print(f'VIOLATION property={self.prop} replay={path}' + ('' if found else ' no-failing-input-found'))
            rc = 1
        if rc == 0 and undecided and not bc and not self.native():
            print('neither the proof nor the real code could be built')
            rc = 2
        self.evidence(names, undecided, known)
        if not os.environ.get('VF_KEEP'):
            shutil.rmtree(self.work, ignore_errors=True)
        return rc

    def evidence(self, names, undecided, known):
        proofs, bounded = [], []
        obl = dis = triv = 0
        back = {}
        fns, trusted, contracts = set(), set(), set()
        failed = []
        solver_s = 0.0
        for n in names:
            if n in known:
                continue
            e, r = self.spec.ENTRIES[n], self.results.get(n)
            if not r:
                continue
            k = len(r['obligations'])
            d = sum(o['status'] == 'unsat' for o in r['obligations'])
            item = dict(entry=n, what=e.get('what', ''), verdict=r.get('verdict'), obligations=k, discharged=d, discharged_syntactically=r['trivial'],
                        covers=[(c['what'], c['status']) for c in r['covers']], exec_s=round(r['exec_s'], 1), solve_s=round(r['solve_s'], 1))
            if r['error']:
                item['error'] = r['error'][:300]
            if e.get('level') == 'bounded':
                item['bound'] = e['bound']
                bounded.append(item)
            else:
                proofs.append(item)
                obl += k
                dis += d
                triv += r['trivial']
            solver_s += r['solve_s']
            for o in r['obligations']:
                if o['status'] == 'unsat':
                    back[o['backend']] = back.get(o['backend'], 0) + 1
                else:
                    failed.append(f'{n}: {o["kind"]}: {o["msg"]} at {o["loc"]} ({o["status"]})')
            fns |= {f'{x[0]} [{x[1].split("/src/")[-1]}]' for x in r['functions']}
            trusted |= set(r['trusted'])
            contracts |= {f'{a} by {b}' for a, b in r['contracts']}
        level = 'proof' if proofs else 'other'
        cov = dict(obligations=obl, discharged=dis, discharged_syntactically=triv, entries=proofs, bounded_stand_ins=bounded,
                   functions_under_contract=sorted(fns), backends=back, solver_s=round(solver_s, 1),
                   checker_cmd=f'engine/check.py {self.prop} ({self.tier}); VCs from clang-18 bitcode of /repo sources, discharged by z3 (cvc5 as second solver)',
                   trusted_base=['clang-18 front end and the opt passes ' + build.PASSES, 'engine/ (irdump, vcg.py, bv.py)', 'z3', 'models of external functions in engine/hooks.py used by this proof: ' + ('; '.join(sorted(trusted)) or 'none')],
                   assumed_contracts=sorted(contracts), undecided=undecided, native_search=[n for n in self.searched], notes=self.notes)
        if not proofs:
            cov['explanation'] = 'bounded verification conditions only, see bounded_stand_ins'
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov, wall_s=round(time.time() - self.t0, 1),
                  assumptions=getattr(self.spec, 'ASSUMPTIONS', []) + COMMON)
        ev['violations'] = len(self.viol)
        if self.viol:
            cov['violations'] = [dict(entry=n, replay=p, input_found=f) for n, p, f in self.viol]
        if failed:
            cov['not_discharged'] = failed[:50]
        os.makedirs(f'{build.VERIF}/evidence', exist_ok=True)
        try:
            import jsonschema
            jsonschema.validate(ev, json.load(open('/root/.vp/EVIDENCE.schema.json')))
        except ImportError:
            pass
        except FileNotFoundError:
            pass
        except Exception as ex:
            print('evidence schema:', str(ex)[:300])
        with open(f'{build.VERIF}/evidence/{self.prop}.json', 'w') as f:
            json.dump(ev, f, indent=1)
        st = 'VIOLATED' if self.viol else 'UNDECIDED' if undecided else 'HELD'
        print(f'{self.prop}: {st}: {dis}/{obl} obligations discharged (+{triv} syntactically), {len(proofs)} proof entries, {len(bounded)} bounded, {round(time.time() - self.t0)} s')


COMMON = ['allocation never fails (a request above 2^40 bytes ends the path); std::bad_alloc paths are not explored',
          'single thread; no aliasing beyond what the harness constructs',
          'floating point values are opaque']

if __name__ == '__main__':
    prop = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
    sys.exit(Check(prop, tier, int(os.environ.get('VERIF_SEED', '1') or 1)).run())
