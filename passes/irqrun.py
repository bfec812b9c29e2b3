"""Compiles ir/all.cpp (every public template over opaque generators) from the current source and runs one irq pass over it."""
import subprocess, json, os, shutil
def build(ctx, src='ir/all.cpp', flags=()):
    bc = os.path.join(ctx['dir'], os.path.basename(src)[:-4] + '.irq.bc')
    cxx = 'clang++-18' if shutil.which('clang++-18') else 'clang++'
    c = subprocess.run([cxx, '-std=gnu++17', '-O1', '-Xclang', '-disable-llvm-passes', '-g', '-gno-column-info', '-ffp-contract=off', '-fno-strict-aliasing', '-w', '-D_GLIBCXX_EXTERN_TEMPLATE=0',
                        '-I' + ctx['repo'] + '/include', '-I' + ctx['verif'] + '/scen', *flags, '-emit-llvm', '-c', ctx['verif'] + '/' + src, '-o', bc], stderr=subprocess.PIPE, text=True)
    if c.returncode: raise RuntimeError('does not compile: ' + ' '.join(l for l in c.stderr.splitlines() if 'error' in l)[:400])
    return bc
def irq(ctx, mode, bc, *args):
    c = subprocess.run([ctx['verif'] + '/build/irq', mode, bc, '--repo', ctx['repo'], *args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
    if c.returncode: raise RuntimeError('irq %s: exit %d %s' % (mode, c.returncode, c.stderr[:300]))
    os.remove(bc); return json.loads(c.stdout)
def result(d, rule, analysed):
    seen = {}; 
    for i in d['items']: seen.setdefault((i['rule'], i['where'], i['detail']), i)
    return dict(obligations=d['obligations'], discharged=d['discharged'], functions=d['functions'], rule=rule, analysed=analysed % dict(n=len(d['functions'])),
                violations=[dict(scenario='pass', rule=i['rule'] + (': ' + i['detail'] if i['detail'] else ''), where=i['where'], path=i['function'], witness='') for i in seen.values()])
