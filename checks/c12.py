"""C12 the registrar reports every voucher request outcome with the right status"""
import flow
from rulecheck import brski
def run(ctx):
    cs = ctx.par(lambda: flow.cases(ctx, 'reg', 500), brski(ctx, 'EndorsesOnlyOwn', net=2), brski(ctx, 'EndorsesOnlyOwn', lax='reg.serial', net=2))[0]
    flow.run(ctx, 'reg', cs, lambda f, c: f.reg(c), odd=True)
