"""C04 a MASA issues a voucher only for a verified, consistent and approved request"""
import flow, rulecheck
from rulecheck import brski
def run(ctx):
    ms = [brski(ctx, 'VouchesOnlyEndorsed', lax=x) for x in ('cms', 'masa.serial', 'masa.prior')]
    ms.append(brski(ctx, 'VouchesOnlyEndorsed', net=3 if ctx.thorough else 2, tries=2))
    rulecheck.run(ctx, 'masa', ms, quick=1300)
    flow.also(ctx, 'masa', 120, 60)
