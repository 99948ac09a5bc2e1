"""C05 an issued voucher says exactly what was requested and approved"""
import flow, rulecheck
from rulecheck import brski
def run(ctx):
    ms = [brski(ctx, 'VouchesOnlyEndorsed', lax='masa.serial'), brski(ctx, 'NobodyPins')]
    ms.append(brski(ctx, 'VouchesOnlyEndorsed', net=3 if ctx.thorough else 2, tries=2))
    rulecheck.run(ctx, 'masa', ms, quick=900, rand=500, happy=400)
    flow.also(ctx, 'masa', 60, 60)
