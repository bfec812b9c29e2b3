import re
from irqrun import build, irq, result
Q = re.compile(r'qrng|sobol|niederreiter|faure')
def run(ctx):
    d = irq(ctx, 'narrow', build(ctx))
    d['functions'] = [f for f in d['functions'] if not Q.search(f)]; d['items'] = [i for i in d['items'] if not Q.search(i['function'])]
    return result(d, 'Range analysis of the discard count through sums, products, quotients, loops and calls: it is never truncated to, taken in, or compared with a counter of, a type that cannot hold it.',
                  'discard() of every engine of ir/all.cpp and what it passes the count to: %(n)d functions')
