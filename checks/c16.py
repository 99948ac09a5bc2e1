"""C16 enrolment certifies exactly what was submitted, under the registrar CA"""
import flow
from flow import enrolmodel, ALLE
def run(ctx):
    cs = ctx.par(lambda: flow.cases(ctx, 'enrol', 500, 200), enrolmodel(ctx, ALLE))[0]
    B = {}
    def make(f, c):
        if id(f) not in B: B[id(f)] = f.make_bodies()
        return f.enrol(dict(c, peer={'odd': 'ODD', 'big': 'BIG'}.get(c['peer'], c['peer'])), B[id(f)])
    flow.run(ctx, 'enrol', cs, make, nflows=4, odd=True, careful=16)
