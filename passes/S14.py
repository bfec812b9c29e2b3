"""Constant tables read from the compiled IR, checked against the equations that define them."""
import math, struct, hashlib
from fractions import Fraction
from irqrun import build, irq
M61 = (1 << 61) - 1
def fl(s, bits=64): return struct.unpack('>d', int(s, 16).to_bytes(8, 'big'))[0]
def flat(v): return [y for x in v for y in (flat(x) if isinstance(x, list) else [x])]
# GF(2) polynomials as integers
def pmod(a, m):
    d = m.bit_length()
    while a.bit_length() >= d: a ^= m << (a.bit_length() - d)
    return a
def pmulmod(a, b, m):
    r = 0
    while b:
        if b & 1: r ^= a
        a = pmod(a << 1, m); b >>= 1
    return r
def ppow(e, m):  # x^e mod m
    r, b = 1, pmod(2, m)
    while e:
        if e & 1: r = pmulmod(r, b, m)
        b = pmulmod(b, b, m); e >>= 1
    return pmod(r, m)
def factors(n):
    f, p = [], 2
    while p * p <= n:
        if n % p == 0:
            f.append(p)
            while n % p == 0: n //= p
        p += 1
    return f + ([n] if n > 1 else [])
def irreducibles(maxdeg):  # sieve
    n = 1 << (maxdeg + 1); comp = bytearray(n); out = []
    for p in range(2, n):
        if comp[p]: continue
        out.append(p); dp = p.bit_length() - 1
        for dq in range(0, maxdeg - dp + 1):
            if dq < dp: continue
            for q in range(1 << dq, 1 << (dq + 1)):
                r, a, b = 0, p, q
                while b:
                    if b & 1: r ^= a
                    a <<= 1; b >>= 1
                comp[r] = 1
    return out
class T:
    def __init__(s): s.ob = 0; s.dis = 0; s.v = []
    def ck(s, ok, rule, where, det=''):
        s.ob += 1
        if ok: s.dis += 1
        elif len(s.v) < 40: s.v.append(dict(rule=rule, where=where, witness=det))
def mixmax(t, where, rows):
    N, m = 17, 1 << 36
    # A as published (three-parameter family, m = 2^36 + 1, s = 0)
    def step(y):
        s = sum(y) % M61; o = [s]; P = 0; v = s
        for i in range(1, N):
            v = (v + P * m) % M61; P = (P + y[i]) % M61; v = (v + P) % M61; o.append(v)
        return o
    # characteristic polynomial from the Krylov sequence of a vector, by solving K c = A^N v modulo p
    v = [1] + [0] * (N - 1); K = [v]
    for _ in range(N): K.append(step(K[-1]))
    A = [[K[j][i] for j in range(N)] + [K[N][i]] for i in range(N)]
    for c in range(N):
        p = next(r for r in range(c, N) if A[r][c]); A[c], A[p] = A[p], A[c]; iv = pow(A[c][c], M61 - 2, M61); A[c] = [x * iv % M61 for x in A[c]]
        for r in range(N):
            if r != c and A[r][c]: f = A[r][c]; A[r] = [(x - f * y) % M61 for x, y in zip(A[r], A[c])]
    red = [A[i][N] for i in range(N)]  # x^N = sum red_i x^i
    def mul(a, b):
        r = [0] * (2 * N - 1)
        for i, x in enumerate(a):
            if x:
                for j, y in enumerate(b): r[i + j] += x * y
        r = [x % M61 for x in r]
        for k in range(2 * N - 2, N - 1, -1):
            c = r[k]
            if c:
                for i in range(N): r[k - N + i] = (r[k - N + i] + c * red[i]) % M61
        return r[:N]
    p = [0, 1] + [0] * (N - 2)
    for _ in range(512): p = mul(p, p)
    for r in range(len(rows)):
        t.ck([int(x) for x in rows[r]] == p, 'row of the mixmax skip table is x^(2^(512+r)) modulo the characteristic polynomial of the mixmax matrix', where, 'row %d' % r); p = mul(p, p)
def ziggurat(t, where, x, y, f, n):
    t.ck(x[n] == 0 and y[n] == 1 and y[0] == 0, 'ziggurat table ends at the peak of the density', where)
    for i in range(1, n + 1): t.ck(abs(y[i] - f(x[i])) <= 4e-15 * f(x[i]), 'ziggurat ordinate is the density at its abscissa', where, 'entry %d' % i)
    for i in range(n): t.ck(x[i] > x[i + 1] and y[i] < y[i + 1], 'ziggurat entries are strictly ordered', where, 'entry %d' % i)
    a = x[1] * (y[2] - y[1])
    for i in range(n): t.ck(abs(x[i] * (y[i + 1] - y[i]) - a) <= 1e-12 * a, 'ziggurat layers have equal area', where, 'layer %d' % i)
def dets(rows):  # first dimension at which a leading minor over GF(2) is singular
    R = list(rows)
    for j in range(len(R)):
        if not (R[j] >> j) & 1: return j
        for i in range(j + 1, len(R)):
            if (R[i] >> j) & 1: R[i] ^= R[j]
    return len(R)
def run(ctx):
    d = irq(ctx, 'consts', build(ctx), 'boost.*random'); t = T(); found = []
    G = [(k, v['value'], v['constant']) for k, v in d.items() if isinstance(v['value'], list) and v['value'] and 'PRETTY' not in k]
    def tab(n, *keys): # by name first, else by size alone (a renamed table is still found)
        c = [g for g in G if len(flat(g[1])) == n and None not in flat(g[1])]; h = [g for g in c if all(k in g[0] for k in keys)]
        if h or len(c) == 1: found.append((h or c)[0][0]); return (h or c)[0]
        return None
    z = tab(128 * 17, 'skipMat'); z and mixmax(t, z[0], z[1])
    for n, key, f in ((128, 'normal_table', lambda u: math.exp(-u * u / 2)), (256, 'exponential_table', lambda u: math.exp(-u))):
        x, y = tab(n + 1, key, 'table_x'), tab(n + 1, key, 'table_y')
        if x and y: ziggurat(t, x[0], list(map(fl, x[1])), list(map(fl, y[1])), f, n)
    z = tab(10, 'binomial_table')
    if z:
        for k, b in enumerate(map(fl, z[1])): w = math.lgamma(k + 1) - (0.5 * math.log(2 * math.pi) + (k + .5) * math.log(k + 1) - (k + 1)); t.ck(abs(b - w) <= 2e-14, 'binomial table entry is the remainder of Stirling\'s formula', z[0], 'entry %d' % k)
    z = tab(10, 'poisson_table')
    if z:
        for k, b in enumerate(map(fl, z[1])): t.ck(abs(b - math.lgamma(k + 1)) <= 2e-14 * max(1, k), 'Poisson table entry is log k!', z[0], 'entry %d' % k)
    z = tab(187, 'prim')
    if z:
        pr = [p for p in range(2, 2000) if all(p % q for q in range(2, int(p ** .5) + 1))]
        for i, v in enumerate(z[1]): t.ck(int(v) == pr[i], 'Faure table holds the primes in order', z[0], 'entry %d' % i)
    z = tab(4720, 'nb2'); irr = None
    if z:
        md = max(int(x) for x in z[1]).bit_length() - 1; irr = irreducibles(min(md, 18))
        for i, v in enumerate(z[1]): t.ck(i < len(irr) and int(v) == irr[i], 'Niederreiter table holds the irreducible polynomials over GF(2) in order', z[0], 'entry %d' % i)
    z = tab(3666, 'sobol_a')
    if z:
        P = [int(x) for x in z[1]]; F = {n: factors((1 << n) - 1) for n in range(1, 17)}
        for i, p in enumerate(P):
            n = p.bit_length() - 1
            prim = 1 <= n <= 16 and p & 1 and (ppow((1 << n) - 1, p) == pmod(1, p) and all(ppow(((1 << n) - 1) // q, p) != 1 for q in F[n] if n > 1))
            t.ck(bool(prim), 'Sobol polynomial is primitive over GF(2)', z[0], 'entry %d' % i); t.ck(i == 0 or P[i - 1] < p, 'Sobol polynomials are distinct and in order', z[0], 'entry %d' % i)
        y = tab(15 * 3666, 'sobol_minit')
        if y:
            M = [int(x) for x in flat(y[1])]; deg = [p.bit_length() - 1 for p in P]
            for i in range(len(P)):
                m = M[15 * i:15 * i + 15]; t.ck(all((m[k] & 1 and m[k] < 2 << k) if k < deg[i] else m[k] == 0 for k in range(15)), 'Sobol direction numbers are odd and below 2^k, with nothing beyond the degree', y[0], 'dimension %d' % (i + 2))
            n = 1111; R = [1]
            for i in range(n - 1):
                p, s = P[i], deg[i]; m = M[15 * i:15 * i + s]
                for k in range(s, n):
                    v = m[k - s] ^ (m[k - s] << s)
                    for j in range(1, s):
                        if (p >> (s - j)) & 1: v ^= m[k - j] << j
                    m.append(v)
                R.append(sum(1 << k for k in range(n) if (m[k] >> k) & 1))
            b = dets(R)
            for i in range(n): t.ck(i < b or i > b, 'Sobol direction numbers have Sobol\'s property A up to dimension 1111 (Joe and Kuo)', y[0], 'dimension %d' % (i + 1))
            for c, g in enumerate(SOBOL):
                t.ck(hashlib.sha256(','.join(map(str, M[15 * 64 * c:15 * 64 * (c + 1)])).encode()).hexdigest()[:16] == g, 'Sobol direction numbers are those of Joe and Kuo (recorded digest of the values)', y[0], 'dimensions %d to %d' % (64 * c + 2, 64 * c + 65))
    return dict(obligations=t.ob, discharged=t.dis, functions=[], violations=[dict(scenario='pass', path='', **v) for v in t.v], rule='Constant tables are read as initialisers from the IR and every entry is checked against its defining equation.',
                analysed='tables: ' + '; '.join(found), error=None if len(found) >= 8 else 'tables not found')
SOBOL = '''4e9f41d8c081591b 12da002eee4e08ae bd03ad0a0c13aa59 4f6f8ebe92096256 1306e40d7b242925 7fd1a2cdcfec5177 f292c8e83e6ed4af 18fb490fad1a9c22 cf008fc9c4f38bc3 1fd8375dc5775143 fc4a961e87b30703 d77fe8389310974a ba69164f49040055 75b17dc9616540d6 260570f8e3e072f9 b8c52f153d77626c 86c1326417eb5736 6902b4ef98115510 cbe201ece1795fe8 b9f2ebc226c1a926 504f38a6982a7b45 9c497c867d0e17f3 0eaf402329953de5 5612fe250d667fde 9ef5ea55ef840213 73d12c7964320af0 ffb420cfa700371e f502923c152157b2 4eff642aa0bd608a 5f2553764b19e3ce 9c468598cca84fda 4df3fdf688817f52 022db2d1f3dfab30 f4a818e4e781a437 e49ace44e89019b1 c9930a720d520f28 b0465894abe9ec15 68427d909b5f517f 2dc440a0fd544b1f 9ec806e2ec3a341d 6cfb825872591644 1b2fbb7b638d323f 1bad7a8e59755513 0d622f01b6175004 3851023731cac321 88b90d56d11df162 f638f6eccd749afc 737fd7b08d95fd27 a9893a471ea39c1e 377a62b4581f4f13 df05c776ed7bbc34 51bf4dc9eacc9e09 9ddb00426a54f55b 6041571ecff58159 3f62063f90ba1425 1530d093cdccc4c3 5bcee466189f28ef aecb5dde97278b00'''.split()
