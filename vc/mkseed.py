"""mkseed.py SPEC.py : plants a bug in a scratch copy, confirms that it builds, passes the stable tests and that the demonstration
tells the two trees apart, then writes seeded/<id>/.  (Authoring tool; no check uses it.)
SPEC.py defines: id, prop, edits=[(file, old, new)], sources, demo, needs, breaks [, flags]"""
import sys, os, subprocess, shutil, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); KIT = os.path.join(V, 'vc', 'seedkit')
LIB = ['AbstractPlatform.cpp', 'AsyncSequencer.cpp', 'CppPotpourri.cpp', 'EnumeratedTypeCodes.cpp', 'MultiStringSearch.cpp', 'StringBuilder.cpp', 'uuid.cpp', 'Storage/SimpleDataRecord.cpp',
  'Pipes/BufferAccepter/*.cpp', 'Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp', 'Pipes/BufferAccepter/Base64/*.cpp', 'Pipes/BufferAccepter/C3PTypePipe/*.cpp', 'Pipes/BufferAccepter/LineCoDec/*.cpp', 'Pipes/BufferAccepter/TestFixtures/*.cpp', 'Pipes/TripleAxisPipe/*.cpp', 'TimerTools/*.cpp', 'C3PValue/*.cpp', 'Image/*.cpp', 'TimeSeries/*.cpp', 'Console/*.cpp', 'cbor-cpp/*.cpp', 'M2MLink/*.cpp', 'M2MLink/LinkUtils/M2MLinkRPC/*.cpp', 'Identity/*.cpp', 'BusQueue/BusQueue.cpp']
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def plant(d):
    scr = '/tmp/seedwork/repo'; shutil.rmtree('/tmp/seedwork', ignore_errors=True); os.makedirs('/tmp/seedwork')
    sh('cp -a /repo ' + scr)
    for f, a, b in d['edits']:
        p = os.path.join(scr, f); t = open(p, encoding='latin-1', newline='').read()
        if t.count(a) != 1: return 'pattern occurs %d times in %s: %s' % (t.count(a), f, a[:60])
        open(p, 'w', encoding='latin-1', newline='').write(t.replace(a, b))
    out = os.path.join(V, 'seeded', d['id']); tmp = '/tmp/seedwork/' + d['id']; os.makedirs(tmp)
    diff = sh('git -C %s diff --no-color' % scr).stdout
    open(os.path.join(tmp, 'patch.diff'), 'w').write(diff)
    shutil.copy(os.path.join(KIT, 'plat.cpp'), tmp); shutil.copy(os.path.join(KIT, 'demo.sh'), tmp); os.chmod(os.path.join(tmp, 'demo.sh'), 0o755)
    open(os.path.join(tmp, 'demo.cpp'), 'w').write(d['demo']); src = d.get('sources', LIB)
    open(os.path.join(tmp, 'sources.txt'), 'w').write('\n'.join(src) + '\n')
    if d.get('flags'): open(os.path.join(tmp, 'flags.txt'), 'w').write(d['flags'] + '\n')
    json.dump(dict(property=d['prop'], needs=d['needs'], what_it_breaks=d['breaks']), open(os.path.join(tmp, 'meta.json'), 'w'), indent=1)
    r = sh(tmp + '/demo.sh', cwd='/repo')
    if r.returncode: return 'demo fails on the unchanged tree (%d): %s' % (r.returncode, (r.stdout + r.stderr)[-1500:])
    r = sh(tmp + '/demo.sh', cwd=scr)
    if r.returncode == 0: return 'demo passes with the patch'
    if r.returncode == 3: return 'patched tree does not compile: ' + r.stderr[-800:]
    note = 'demo exit %d: %s' % (r.returncode, r.stdout.strip()[-160:])
    # the repository's own build and tests, on /repo itself for the time of the test (build.sh and test.sh name /repo)
    try:
        r = sh('git -C /repo apply %s/patch.diff' % tmp)
        if r.returncode: return 'patch does not apply: ' + r.stderr
        r = sh('bash /opt/vp/build.sh')
        if r.returncode: return 'build fails: ' + r.stderr[-600:]
        r = sh('timeout 300 bash /opt/vp/test.sh /tmp/seedwork/out.json'); base = json.load(open('/opt/vp/BASELINE.json'))
        t = open('/tmp/seedwork/out.json').read()
    finally:
        sh('git -C /repo checkout -- .'); sh('bash /opt/vp/build.sh')
    res = json.loads(t); names = base if isinstance(base, list) else base.get('stable') or base.get('tests') or base.get('stable_tests') or []
    passed = res.get('passed') if isinstance(res, dict) else None
    if passed is not None:
        miss = [n for n in names if n not in set(passed)]
        if miss: return 'tests fail with the patch: %s' % miss[:5]
    else: return 'cannot read test results: %s' % t[:300]
    shutil.rmtree(out, ignore_errors=True); shutil.copytree(tmp, out); shutil.rmtree('/tmp/seedwork', ignore_errors=True)
    return 'planted; ' + note
for spec in sys.argv[1:]:
    env = {}; exec(open(spec).read(), env)
    for d in env['BUGS']: print(d['id'], '->', plant(d), flush=True)
