"""check.py <PROPERTY>  -- one property: proof obligations on /repo's current source, plus the bounded replay harness."""
import sys, os, json, time, subprocess, threading, re, hashlib, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, spec
VERIF = build.VERIF
GXX = '/usr/bin/g++'
LIBFLAGS = ['-m32', '-std=gnu++17', '-O1', '-fwrapv', '-g1', '-fno-rtti', '-fno-exceptions', '-fsingle-precision-constant', '-w', '-fno-omit-frame-pointer', '-fsanitize=address', '-fsanitize=bounds',
            '-fno-sanitize-recover=all', '-ffloat-store' , '-DC3P_HARNESS'] + build.DEFS

class Harness:
    def __init__(s, work, prop, cfg, extra=()):
        s.work, s.prop, s.cfg = work, prop, cfg; s.err = None; s.bin = os.path.join(work.dir, 'harness')
    def build(s):
        from concurrent.futures import ThreadPoolExecutor
        hd = os.path.join(VERIF, 'harness')
        flags = list(LIBFLAGS) + list(s.cfg.get('flags', []))
        repo_src = os.path.join(build.REPO, 'src')
        jobs = [(os.path.join(hd, 'h.cpp'), []), (os.path.join(hd, 'platform.cpp'), []), (os.path.join(hd, s.cfg['src']), [])]
        import glob
        for x in s.cfg.get('lib', []): jobs += [(y, []) for y in sorted(glob.glob(os.path.join(repo_src, x))) if (y, []) not in jobs]
        jobs = [j for j in jobs if os.path.exists(j[0])]
        def comp(j):
            o = os.path.join(s.work.dir, re.sub(r'\W', '_', j[0]) + '.o')
            r = subprocess.run([GXX] + flags + ['-fdata-sections', '-ffunction-sections', '-I', repo_src, '-I', hd, '-c', j[0], '-o', o] + j[1], capture_output=True, text=True)
            return (j[0], o, r)
        with ThreadPoolExecutor(8) as p: rs = list(p.map(comp, jobs))
        for src, o, r in rs:
            if r.returncode: s.err = 'compile failed: %s\n%s' % (src, r.stderr[:3000]); return
        r = subprocess.run([GXX, '-m32', '-fsanitize=address,bounds', '-static-libstdc++', '-Wl,--gc-sections'] + ['-Wl,--wrap=' + x for x in ('malloc', 'calloc', 'realloc', 'free', '_Znwj', '_Znaj', '_ZdlPv', '_ZdaPv', '_ZdlPvj', '_ZdaPvj')] + ['-o', s.bin] + [o for _, o, _ in rs] + ['-lm'], capture_output=True, text=True)
        if r.returncode: s.err = 'link failed:\n' + r.stderr[:3000]
    def run(s, seed, scale, hints=(), timeout=400):
        """-> (fails {key: text}, cases, sections, raw)"""
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:hard_rss_limit_mb=3000:max_allocation_size_mb=1500')
        cmd = [s.bin, '--seed', str(seed), '--scale', str(scale)]
        for h in hints: cmd += ['--hint', str(h)]
        try:
            r = subprocess.run(cmd, capture_output=True, timeout=timeout, env=env)
            out = r.stdout.decode('latin-1'); errt = r.stderr.decode('latin-1')
        except subprocess.TimeoutExpired as e:
            out = (e.stdout or b'').decode('latin-1'); errt = 'harness timed out'
        fails = {}; cases = 0; secs = []
        for l in out.split('\n'):
            m = re.match(r'FAIL key=(\S+) :: (.*)', l)
            if m: fails.setdefault(m.group(1), m.group(2)[:2500]); continue
            m = re.match(r'DONE section=(\S+) cases=(\d+)', l)
            if m: cases += int(m.group(2)); secs.append(m.group(1))
        return fails, cases, secs, out[-4000:] + '\n' + errt[-6000:], ('END ' in out)

def known(prop):
    p = os.path.join(VERIF, 'known_findings.jsonl'); r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l: continue
            d = json.loads(l)
            if d['property'] == prop: r.append(d)
    return r

def main():
    prop = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    if len(sys.argv) > 2: tier = sys.argv[2]
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    t0 = time.time()
    only = os.environ.get('C3P_ONLY')
    work = build.Work(prop)
    rdir = os.path.join(VERIF, '.work', 'replay'); os.makedirs(rdir, exist_ok=True)
    mod = spec.load(prop)
    cons = [c for c in spec.REG if c.tier == 'quick' or tier == 'thorough']
    if only: cons = [c for c in cons if re.search(only, c.name)]
    per = 240 if tier == 'quick' else 1500
    har = Harness(work, prop, mod.HARNESS)
    th = threading.Thread(target=har.build); hres = {}
    violations = []; results = []; builderr = None
    try:
        # ---- the proof
        tus = []
        for c in cons:
            for t in c.tus:
                if t not in tus: tus.append(t)
        try: mods = spec.prepare(work, tus) if cons else {}
        except Exception as e: builderr = 'extraction failed: %s' % e; mods = None
        def hrun():
            har.build()
            if not har.err: hres['r'] = har.run(seed, 1 if tier == 'quick' else 25, timeout=240 if tier == 'quick' else 3600)
        if mods is not None: 
            # fork the contract processes before any thread exists
            import multiprocessing as mp
            hq = mp.get_context('fork')
        a, b = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                hrun(); d = json.dumps(dict(err=har.err, r=hres.get('r')))
            except BaseException as e: d = json.dumps(dict(err='harness: %r' % e, r=None))
            os.close(a)
            with os.fdopen(b, 'w') as f: f.write(d)
            os._exit(0)
        os.close(b)
        if mods is not None: results = spec.run_all(mods, cons, tier, per, deadline=t0 + (420 if tier == 'quick' else 6000))
        with os.fdopen(a) as f: d = json.loads(f.read() or '{"err":"harness died","r":null}')
        os.waitpid(pid, 0)
        har.err = d['err']; hr = d['r']
        # ---- collect
        bad = []; allob = []
        for r in results:
            if r['error']: bad.append((r, dict(name='contract evaluated completely', fn=r['contract'], line=0, status='unknown', kind='tool', cex='', detail=r['error'])))
            for o in r['obligs']:
                allob.append(o)
                if o['status'] != 'discharged': bad.append((r, o))
        if builderr: bad.append((dict(contract='extraction'), dict(name='source accepted by the verifier front end', fn='-', line=0, status='unknown', kind='tool', cex='', detail=builderr)))
        fails, cases, secs, raw, complete = ({}, 0, [], '', False) if not hr else hr
        kf = known(prop)
        openk = {k['key'] for k in kf if k.get('status') == 'open'}
        new = {k: v for k, v in fails.items() if k not in openk}
        searched = 0; retried = []
        if bad and not new:
            # no failing input yet: search wider on the real code while the failed contracts are tried again with larger solver limits
            a, b = os.pipe(); pid = os.fork()
            if pid == 0:
                d = dict(new={}, raw='', n=0)
                try:
                    if not har.err:
                        hints = set()
                        for r, o in bad:
                            for x in re.findall(r'=(\d+)', o.get('cex', '')): hints.add(int(x) & ((1 << 64) - 1))
                        for k in range(3):
                            f2, c2, s2, raw2, _ = har.run(seed + 1000 + k, 6, sorted(hints)[:60], timeout=80); d['n'] += c2
                            d['new'] = {a_: b_ for a_, b_ in f2.items() if a_ not in openk}
                            if d['new']: d['raw'] = raw2; break
                except BaseException: pass
                os.close(a)
                with os.fdopen(b, 'w') as f: f.write(json.dumps(d))
                os._exit(0)
            os.close(b)
            if mods is not None:
                again = [c for c in cons if any(r['contract'] == c.name for r, o in bad)]; spec.RETRY = 5
                res2 = spec.run_all(mods, again, tier, 300 if tier == 'quick' else 3000, deadline=t0 + (690 if tier == 'quick' else 12000))
                ok2 = {r['contract']: r for r in res2 if not r['error'] and all(o['status'] == 'discharged' for o in r['obligs'])}
                if ok2:
                    results = [ok2.get(r['contract'], r) for r in results]; retried = sorted(ok2)
                    bad = [(r, o) for r, o in bad if r['contract'] not in ok2]; allob = [o for r in results for o in r['obligs']]
            with os.fdopen(a) as f: d = json.loads(f.read() or '{"new":{},"raw":"","n":0}')
            os.waitpid(pid, 0); searched = d['n']
            if d['new']: new = d['new']; raw = d['raw']
        n = 0
        def write_replay(body):
            h = hashlib.sha1(body.encode('utf-8', 'replace')).hexdigest()[:10]
            p = os.path.join(rdir, '%s-%s.txt' % (prop, h)); open(p, 'w').write(body); return p
        badtxt = ''.join('OBLIGATION %s | contract %s | function %s | line %s | status %s\n  counterexample: %s\n  %s\n' % (o['name'], r['contract'], o['fn'], o['line'], o['status'], o.get('cex', ''), o.get('detail', '')) for r, o in bad[:60])
        for k in kf:
            if k.get('status') == 'open': print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
        if new:
            body = 'property %s violated on the real code\n\n' % prop + ''.join('FAIL key=%s :: %s\n' % x for x in new.items()) + '\nReplay: harness/%s --seed %d (built by vc/check.py %s)\n\nfailed obligations:\n%s\nharness output:\n%s' % (mod.HARNESS['src'], seed, prop, badtxt or '(none)\n', raw)
            p = write_replay(body)
            for k, v in list(new.items())[:5]: print('  failing input [%s]: %s' % (k, v[:600]))
            for r, o in bad[:5]: print('  failed obligation [%s] %s: %s (%s)' % (r['contract'], o['fn'], o['name'], o['status']))
            print('VIOLATION property=%s replay=%s' % (prop, p)); violations.append(p)
        elif bad:
            p = write_replay('property %s: obligations not discharged\n\n%s\nbounded search on the real code (%d cases) found no failing input.\nharness: %s\n%s' % (prop, badtxt, cases + searched, har.err or 'ok', raw))
            for r, o in bad[:8]: print('  failed obligation [%s] %s: %s (%s) %s' % (r['contract'], o['fn'], o['name'], o['status'], o.get('detail', o.get('cex', ''))[:300]))
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, p)); violations.append(p)
        elif har.err or not complete:
            p = write_replay('property %s: bounded replay harness could not be built or completed\n%s\n%s' % (prop, har.err, raw))
            print(har.err or 'harness incomplete'); print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, p)); violations.append(p)
        wall = time.time() - t0
        disc = sum(o['status'] == 'discharged' for o in allob); be = {}; kinds = {}
        for o in allob:
            if o['status'] == 'discharged': be[o['backend']] = be.get(o['backend'], 0) + 1
            kinds[o['kind']] = kinds.get(o['kind'], 0) + 1
        fns = sorted({f for r in results for f in r['functions']})
        level = getattr(mod, 'LEVEL', 'proof')
        ev = dict(property=prop, tier=tier, seed=seed, level=level, wall_s=round(wall, 2),
                  coverage=dict(obligations=len(allob), discharged=disc, checker_cmd='%s/vc/run.sh %s' % (VERIF, prop),
                                trusted_base=['clang 18 front end (source to LLVM IR at -O0) and opt passes ' + build.PASSES, 'vc/*.py verification-condition generator', 'z3 and cvc5'],
                                backends=be, kinds=kinds, functions_under_contract=fns,
                                inlined_functions=sorted({f for r in results for f in r['inlined']} - set(fns))[:400],
                                assumed_contracts=sorted({f for r in results for f in r['contracts_used']}),
                                abstracted_operations=sorted({f for r in results for f in r['abstracted']}),
                                solver_seconds=round(sum(r['solver'] for r in results), 2),
                                contracts=[dict(name=r['contract'], mode=r['mode'], obligations=len(r['obligs']), discharged=sum(o['status'] == 'discharged' for o in r['obligs']), wall_s=r['wall'], error=r['error']) for r in results],
                                bounded_standin=dict(label='bounded: not counted as proved', sections=secs, cases=cases, what=getattr(mod, 'BOUNDED', '')),
                                proved=getattr(mod, 'PROVED', ''), discharged_on_second_attempt=retried),
                  assumptions=getattr(mod, 'ASSUMPTIONS', []), violations=len(violations))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
        print('%s: %d/%d obligations discharged over %d functions, %d bounded cases, %.1f s' % (prop, disc, len(allob), len(fns), cases, wall))
        if os.environ.get('C3P_VERBOSE'):
            for r in results:
                print('  %-40s %4d obl %6.1fs %s' % (r['contract'], len(r['obligs']), r['wall'], r['error'] or ''))
                if os.environ['C3P_VERBOSE'] != '1':
                    for h in r['houdini']: print('      loop', h)
        sys.exit(1 if violations else 0)
    finally:
        if not os.environ.get('C3P_KEEP'): work.close()

if __name__ == "__main__": main()
