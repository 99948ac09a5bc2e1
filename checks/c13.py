"""C13 the MASA answers 200 with a voucher or 400 with none"""
import flow
from rulecheck import brski
def run(ctx):
    cs = ctx.par(lambda: flow.cases(ctx, 'masa', 500), brski(ctx, 'VouchesOnlyEndorsed', net=2), brski(ctx, 'VouchesOnlyEndorsed', lax='masa.serial', net=2))[0]
    flow.run(ctx, 'masa', cs, lambda f, c: f.masa(c))
