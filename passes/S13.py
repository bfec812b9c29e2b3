from irqrun import build, irq, result
def run(ctx):
    d = irq(ctx, 'loops', build(ctx))
    return result(d, 'Loop analysis: on every way round every loop there is either a call that draws from the engine (or reads input), or an exit test of an integer, pointer or memory location that is changed on every way round, or of a floating-point variable moved by a fixed factor or step.',
                  'all loops of %(n)d functions: every member of every engine, distribution, quasi-random generator and utility of ir/all.cpp, over opaque generators')
