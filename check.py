#!/usr/bin/env python3
"""check.py PROP [quick|thorough] [--only SUBSTR] [--keep DIR]
Decides one property from /repo's current source.  Two deciding engines:
  * value-graph analysis (build/vga) of scen/PROP_*.cpp instantiating the library's templates
  * classic whole-program passes (passes/PROP.py) over the LLVM IR / constant tables
Exit 0: no violation; 1: VIOLATION line; 2: no answer."""
import sys, os, re, json, glob, time, subprocess, tempfile, shutil, importlib.util, fcntl
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('VGA_REPO', '/repo')
CXX = ['clang++-18' if shutil.which('clang++-18') else 'clang++', '-std=gnu++17', '-O1', '-Xclang', '-disable-llvm-passes', '-g', '-gno-column-info',
       '-ffp-contract=off', '-fno-strict-aliasing', '-w', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-I' + REPO + '/include', '-I' + V + '/scen', '-I' + REPO + '/src', '-emit-llvm', '-c']
RULE = ('Gated value-graph (SSA value numbering) abstract interpretation of the compiled IR of the library templates over free symbolic inputs: '
        'an obligation is discharged when its two sides receive the same value number (or its negation is the constant false); it is a violation when '
        'the value graph evaluates to false under a valuation of the free inputs that also satisfies the obligation\'s guard. Range, bounds and definedness obligations are discharged by interval analysis of the value graph refined by the guards of the path.')

def ensure_vga():
    os.makedirs(V + '/build', exist_ok=True)
    with open(V + '/build/.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        subprocess.run(['bash', V + '/tools/build.sh', V + '/build'], check=True, stdout=subprocess.DEVNULL)
    return V + '/build/vga'

def header(f):
    h = {}
    for line in open(f):
        m = re.match(r'//([A-Z_][A-Z0-9_]*): *(.*)', line)
        if m: h.setdefault(m.group(1), m.group(2).strip())
    return h

def main():
    prop = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick'); only = None; keep = None
    a = sys.argv[2:]
    while a:
        x = a.pop(0)
        if x in ('quick', 'thorough'): tier = x
        elif x == '--only': only = a.pop(0)
        elif x == '--keep': keep = a.pop(0)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1); t0 = time.time()
    man = {c['property']: c for c in json.load(open(V + '/MANIFEST.json'))['checks']} if os.path.exists(V + '/MANIFEST.json') else {}
    vga = ensure_vga()
    D = keep or tempfile.mkdtemp(prefix='vga_' + prop + '_'); os.makedirs(D, exist_ok=True)
    rc = 2
    try:
        rc = run(prop, tier, only, seed, vga, D, t0, man)
    finally:
        if not keep: shutil.rmtree(D, ignore_errors=True)
    sys.exit(rc)

def run(prop, tier, only, seed, vga, D, t0, man):
    thorough = tier == 'thorough'; jobs = []
    for f in sorted(glob.glob(V + '/scen/' + prop + '_*.cpp')):
        h = header(f); us = h.get('UNITS', '').split()
        if thorough: us += h.get('UNITS_THOROUGH', '').split()
        for u in us or ['ALL']: jobs.append((f, u, h))
    def one(job):
        f, u, h = job; b = D + '/' + os.path.basename(f)[:-4] + '.' + u
        r = dict(file=f, unit=u, err=None, scen=[])
        ub = (h.get('UB', '') + ' ' + h.get('UB_' + u, '')).split()  # undefined behaviour the library's own code is to be free of
        c = subprocess.run(CXX + [f, '-o', b + '.bc', '-DUNIT_' + u] + (['-fsanitize=' + ','.join(ub), '-fsanitize-trap=all', '-fsanitize-ignorelist=' + V + '/scen/ub.ignore'] if ub else []) + (['-DTHOROUGH'] if thorough else []), stderr=subprocess.PIPE, text=True)
        if c.returncode: r['err'] = 'does not compile: ' + ' '.join(l for l in c.stderr.splitlines() if 'error' in l)[:600]; return r
        to = float(h.get('TIMEOUT', '30')) * (4 if thorough else 1); tb = float(h.get('TBUDGET', '3')) * (6 if thorough else 1); tr = int(h.get('TRIALS', '150')) * (10 if thorough else 1)
        cmd = [vga, b + '.bc', b + '.json', '--timeout', str(to), '--tbudget', str(tb), '--trials', str(tr), '--seed', str(seed), '--repo', REPO]
        if only: cmd += ['--only', only]
        # stay inside the 900 s a quick check gets: what is not decided by then is reported as undecided
        lim = (700 - (time.time() - t0)) if not thorough else 5400
        try: c = subprocess.run(cmd, stdout=open(b + '.log', 'w'), stderr=subprocess.STDOUT, timeout=max(20, lim))
        except subprocess.TimeoutExpired: r['err'] = 'analysis time limit'
        else:
            if c.returncode: r['err'] = 'analyser exit %d' % c.returncode
        try: r['scen'] = json.load(open(b + '.json'))['scenarios']
        except Exception:
            try: # truncated output of an interrupted run
                s = open(b + '.json').read(); r['scen'] = json.loads(s[:s.rindex(']}') + 2] + ']}')['scenarios']
            except Exception: pass
        os.path.exists(b + '.bc') and os.remove(b + '.bc')
        return r
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(one, jobs))
    tot = dict(obligations=0, discharged=0, refuted=0, undetermined=0, vacuous=0, scenarios=0, scenarios_cut_short=0); fns = set(); bounded = set(); viol = []; cut = []; errs = []; und = {}
    for r in res:
        if r['err']: errs.append('%s[%s]: %s' % (os.path.basename(r['file']), r['unit'], r['err']))
        pr = 0
        for s in r['scen']:
            tot['scenarios'] += 1; tot['discharged'] += s['proved']; tot['refuted'] += s['refuted']; tot['undetermined'] += s['undetermined']; tot['vacuous'] += s['vacuous']
            tot['obligations'] += s['proved'] + s['refuted'] + s['undetermined'] + s['vacuous']; pr += s['proved'] + s['refuted']
            if s['unsupported']: tot['scenarios_cut_short'] += 1; cut.append(s['name'][5:] + ': ' + s['unsupported'][:160])
            fns.update(x for x in s['functions']); bounded.update(x for x in s['bounded'])
            for i in s['items']:
                if i['status'] == 'refuted': viol.append(dict(scenario=s['name'][5:], rule=i['msg'], where=i['where'], path=i['path'], witness=i['witness'], sources=i.get('sources', ''), unit=r['unit'], file=os.path.basename(r['file'])))
                elif i['status'] == 'undetermined': k = i['msg'][:90] + ' @ ' + i['where'].replace(REPO + '/', ''); und[k] = und.get(k, 0) + 1
        if not pr and not only: errs.append('%s[%s]: nothing was decided' % (os.path.basename(r['file']), r['unit']))
    passes = []
    pf = V + '/passes/' + prop + '.py'
    if os.path.exists(pf) and not only:
        sys.path.insert(0, V + '/passes'); sp = importlib.util.spec_from_file_location('pass_' + prop, pf); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
        try:
            out = m.run(dict(repo=REPO, verif=V, dir=D, tier=tier, seed=seed, vga=vga))
            for k in ('obligations', 'discharged'): tot[k] += out.get(k, 0)
            for v in out['violations']: tot['refuted'] += 1; viol.append(dict(scenario=v.get('scenario', 'pass'), rule=v['rule'], where=v['where'], path=v.get('path', ''), witness=v.get('witness', ''), sources='', unit='pass', file=prop + '.py'))
            passes.append(dict(rule=out['rule'], analysed=out['analysed'])); fns.update(out.get('functions', []))
            if out.get('error'): errs.append('pass: ' + out['error'])
        except Exception as e: errs.append('pass: %s: %s' % (type(e).__name__, e))
    # known findings
    known = json.load(open(V + '/known_findings.json'))['findings'] if os.path.exists(V + '/known_findings.json') else []
    seen = set(); new = []
    for v in viol:
        k = next((k for k in known if k['property'] == prop and re.fullmatch(k['scenario'], v['scenario']) and k['rule'] in v['rule'] and k.get('where', '') in v['where']), None)
        if k: seen.add(k['id'])
        else: new.append(v)
    for k in known:
        if k['id'] in seen: print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    os.makedirs(V + '/evidence', exist_ok=True)
    libfns = sorted(x for x in fns)
    lvl = man.get(prop, {}).get('level', 'other')
    cov = dict(explanation='Static analysis of /repo/include (and src where named) as compiled to LLVM IR for the listed instantiations. ' + ' '.join(([RULE] if res else []) + [p.get('rule', '') for p in passes]), units=len(res), unit_names=sorted({os.path.basename(r['file'])[:-4] + '[' + r['unit'] + ']' for r in res}),
               **tot, functions_analysed=len(libfns), functions_sample=libfns[:60], loops_cut_at_bound=sorted(b.replace(REPO + '/', '') for b in bounded)[:40],
               cut_short=cut[:60], undetermined_sites=dict(sorted(und.items(), key=lambda x: -x[1])[:40]), passes=passes, errors=errs, known_findings=sorted(seen))
    rep = V + '/evidence/%s.replay.json' % prop
    json.dump(dict(property=prop, tier=tier, seed=seed, level=lvl, coverage=cov, wall_s=round(time.time() - t0, 2), violations=len(new)), open(V + '/evidence/%s.json' % prop, 'w'), indent=1)
    print('%s %s: %d units, %d scenarios, %d obligations: %d discharged, %d refuted, %d undetermined, %d vacuous; %d functions; %d cut short; %.1fs' % (prop, tier, len(res), tot['scenarios'], tot['obligations'], tot['discharged'], tot['refuted'], tot['undetermined'], tot['vacuous'], len(libfns), tot['scenarios_cut_short'], time.time() - t0))
    for e in errs[:10]: print('NOTE ' + e)
    if new:
        json.dump(dict(property=prop, violations=new[:200], reproduce='python3 /verif/check.py %s %s --only %s' % (prop, tier, new[0]['scenario'])), open(rep, 'w'), indent=1)
        for v in new[:6]:
            print('  %s: %s\n    at %s  via %s\n    library sites: %s\n    valuation: %s' % (v['scenario'], v['rule'], v['where'], v['path'][:200], v['sources'][:700], v['witness'][:400]))
        print('VIOLATION property=%s replay=%s' % (prop, rep)); return 1
    if os.path.exists(rep): os.remove(rep)
    if errs: return 2
    if not tot['obligations']: return 2
    return 0
main()
