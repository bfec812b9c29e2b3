from irqrun import build, irq, result
def run(ctx):
    d = irq(ctx, 'effects', build(ctx))
    return result(d, 'Effect analysis over the whole call graph: no load, store, atomic or call argument refers to a global, static or thread-local object that anything can change (guarded first-use initialisation from constants excepted); no call leaves the set of pure, allocation and stream functions; no address becomes a number; no operation writes through a const object or argument (interprocedural mod summaries).',
                  '%(n)d functions: every member of every engine, distribution, quasi-random generator and utility of ir/all.cpp and everything they call, over opaque generators')
