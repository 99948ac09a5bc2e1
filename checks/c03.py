"""C03 the registrar voucher-request repeats the pledge request faithfully"""
import flow, rulecheck
from rulecheck import brski
def run(ctx):
    ms = [brski(ctx, 'EndorsesOnlyOwn', lax='reg.serial', net=2), brski(ctx, 'VouchesOnlyEndorsed', lax='masa.serial')]
    ms.append(brski(ctx, 'EndorsesOnlyOwn VouchesOnlyEndorsed', net=3 if ctx.thorough else 2, tries=2))
    rulecheck.run(ctx, 'rvr', ms, quick=1100, rand=600, happy=400)
    flow.also(ctx, 'reg', 60, 60, odd=True)
