"""C11 a network attacker cannot make a pledge pin a domain nobody vouched for"""
import flow
from rulecheck import brski
RULES = [('PinsOnlyVouched', 'pledge.serial'), ('PinsOnlyVouched', 'pledge.nonce'), ('PinsOnlyVouched', 'cms'), ('PinsOnlyVouched', 'pledge.domain'), ('EndorsesOnlyOwn', 'reg.proximity'),
         ('VouchesOnlyEndorsed', 'masa.prior'), ('VouchesOnlyEndorsed', 'masa.serial'), ('PinsOnlyVouched', 'sharedroot')]
def run(ctx):
    models = [brski(ctx, 'PinsOnlyVouched', net=3, workers='4', timeout=600), brski(ctx, 'NobodyPins', net=3), brski(ctx, 'NobodyPinsAttacker', net=3)]
    if ctx.thorough: models += [brski(ctx, i, lax=l, net=3, tries=2 if l == 'pledge.nonce' else 1) for i, l in RULES]
    cs = ctx.par(lambda: flow.cases(ctx, 'attack', 700, 250), *models)[0]
    flow.run(ctx, 'attack', cs, lambda f, c: f.pledge(c), nflows=3)
