"""C01 a pledge pins only an authentic voucher meant for it"""
import flow, rulecheck
from rulecheck import brski
def run(ctx):
    ms = [brski(ctx, 'PinsOnlyVouched', lax=x) for x in ('cms', 'pledge.serial', 'pledge.nonce', 'pledge.domain', 'sharedroot')]
    ms.append(brski(ctx, 'PinsOnlyVouched DomainOrNowhere', net=3, tries=2 if ctx.thorough else 1, workers='5'))
    rulecheck.run(ctx, 'verify', ms)
    flow.also(ctx, 'pins', 260, 120)
