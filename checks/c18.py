"""C18 a pledge enrols only with the registrar its voucher vouches for"""
import flow
from flow import enrolmodel, ALLE
def run(ctx):
    cs = ctx.par(lambda: flow.cases(ctx, 'sign', 420, 150), enrolmodel(ctx, ALLE, prop='LogGrows', must=('Send', 'Sign', 'Restart', 'Get', 'GiveUp')), enrolmodel(ctx, 'NobodyEnrols'),
                 *[enrolmodel(ctx, i, lax=l) for i, l in (('OnlyToVouched', 'enrol.tls'), ('OnlyToVouched', 'enrol.unverified'), ('SuccessIsCertificate', 'enrol.junk'))])[0]
    flow.run(ctx, 'sign', cs, lambda f, c: f.sign(c), nflows=3, ldevid='root')
