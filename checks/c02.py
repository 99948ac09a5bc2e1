"""C02 the registrar endorses only requests that match"""
import flow, rulecheck
from rulecheck import brski
def run(ctx):
    ms = [brski(ctx, 'EndorsesOnlyOwn', lax=x, net=2) for x in ('cms', 'reg.serial', 'reg.proximity', 'reg.assertion')]
    ms.append(brski(ctx, 'EndorsesOnlyOwn', net=3 if ctx.thorough else 2, tries=2))
    rulecheck.run(ctx, 'rvr', ms)
    flow.also(ctx, 'reg', 120, 60, odd=True)
