"""Hand-written base calls for branches the recorder and the generator miss; appended to corpus/corpus.json."""
import sys, json
sys.path.insert(0, '/verif/sim')
import core, codec, time
from mpmath import mp
W = core.World()
from mpsci.distributions import Initial as I
L4 = [0.5, 1.25, 2.0, 4.5]
H = [
 ('distributions.exponweib.noncentral_moment', dict(k=1, a=2, c=3, scale=5)),
 ('distributions.exponweib.mean', dict(a=2, c=3, scale=5)),
 ('distributions.exponweib.mean', dict(a=12.5, c=2.25)),
 ('distributions.exponweib.var', dict(a=2, c=3, scale=5)),
 ('distributions.pareto.mle', dict(x=[1.5, 2, 3.5, 8])),
 ('distributions.pareto.mle', dict(x=[1.5, 2, 3.5, 8], loc=0.5)),
 ('distributions.pareto.mle', dict(x=[1.5, 2, 3.5, 8], scale=0.5)),
 ('distributions.pareto.mle', dict(x=[1.5, 2, 3.5, 8], b=2)),
 ('distributions.pareto.mle', dict(x=[1.5, 2, 3.5, 8], b=2, loc=0)),
 ('distributions.pareto.mle', dict(x=[1.5, 2, 3.5, 8], b=2, scale=1)),
 ('distributions.pareto.mle', dict(x=[1.5, 2, 3.5, 8], b=2, loc=0, scale=1)),
 ('distributions.pareto.mle', dict(x=[1.5, 2, 3.5, 8], b=I(1.2), scale=I(1.5))),
 ('distributions.negative_binomial.mle', dict(x=[3, 5, 1, 9, 2, 0], allow_noninteger_r=True)),
 ('distributions.negative_binomial.mle', dict(x=[3, 5, 1, 9, 2, 0])),
 ('distributions.negative_binomial.mle', dict(x=[3, 5, 1, 9, 2, 0], p=0.5)),
 ('distributions.negative_binomial.mle', dict(x=[3, 5, 1, 9, 2, 0], counts=[1, 2, 2, 1, 3, 1])),
 ('distributions.burr12.mle', dict(x=L4, d=2, scale=1)),
 ('distributions.burr12.mle', dict(x=L4, c=2, scale=1)),
 ('distributions.burr12.mle', dict(x=L4, c=2, d=1.5)),
 ('distributions.burr12.mle', dict(x=L4, scale=1)),
 ('distributions.burr12.mle', dict(x=L4, c=I(2.0), d=I(1.5), scale=2)),
 ('distributions.burr12.mle', dict(x=L4, d=2)),
 ('distributions.burr12.mle', dict(x=L4, c=2)),
 ('distributions.burr12.mle', dict(x=L4, c=2, d=1.5, scale=2)),
 ('fun.debye', dict(x=1.5, n=1)), ('fun.debye', dict(x=1.5, n=2, method='nsum')), ('fun.debye', dict(x=0, n=2)),
 ('fun.debye', dict(x=-1, n=3)), ('fun.debye', dict(x=1, n=0)), ('fun.debye', dict(x=1, n=1.5)),
 ('fun.debye', dict(x=1, n=1, method='zzz')),
 ('distributions.binomial.mle', dict(x=[3, 5, 6, 4], n=None, p=None)),
 ('distributions.binomial.mle', dict(x=[3, 5, 6, 4], n=I(9), p=None)),
 ('distributions.binomial.mle', dict(x=[3, 5, 6, 4], n=None, p=0.25)),
 ('distributions.binomial.mle', dict(x=[3, 5, 6, 4], n=10, p=None)),
 ('distributions.binomial.mle', dict(x=[3, 5, 6, 4], n=10, p=0.5)),
 ('distributions.binomial.mle', dict(x=[3, 5, 6, 4], n=None, p=0.25, counts=[1, 2, 1, 1])),
 ('distributions.binomial.mle', dict(x=[3, 5, 6, 4], n=None, p=0.95)),
 ('distributions.gompertz.mle', dict(x=L4)),
 ('distributions.nct.noncentral_moment', dict(n=3, df=5, nc=1.5)),
 ('distributions.nct.noncentral_moment', dict(n=5, df=7.5, nc=0.25)),
 ('distributions.maxwell.invcdf', dict(p=0.3)), ('distributions.maxwell.invsf', dict(p=0.3)),
 ('distributions.maxwell.invcdf', dict(p=0.3, scale=2.5)), ('distributions.maxwell.invsf', dict(p=0.8, scale=2.5)),
 ('distributions.maxwell.invsf', dict(p=0.01, scale=0.5)), ('distributions.maxwell.invcdf', dict(p=0)),
 ('distributions.maxwell.invsf', dict(p=0)), ('distributions.maxwell.invcdf', dict(p=1)), ('distributions.maxwell.invsf', dict(p=1)),
 ('distributions.fishers_noncentral_hypergeometric.support_pmf', dict(nc=2.5, ntotal=16, ngood=8, nsample=10)),
 ('distributions.fishers_noncentral_hypergeometric.sf', dict(k=3, nc=2.5, ntotal=16, ngood=8, nsample=10)),
 ('distributions.fishers_noncentral_hypergeometric.sf', dict(k=0, nc=2.5, ntotal=16, ngood=8, nsample=10)),
 ('distributions.fishers_noncentral_hypergeometric.sf', dict(k=30, nc=2.5, ntotal=16, ngood=8, nsample=10)),
 ('distributions.fishers_noncentral_hypergeometric.pmf', dict(k=30, nc=2.5, ntotal=16, ngood=8, nsample=10)),
 ('distributions.fishers_noncentral_hypergeometric.cdf', dict(k=30, nc=2.5, ntotal=16, ngood=8, nsample=10)),
 ('distributions.fishers_noncentral_hypergeometric.cdf', dict(k=-3, nc=2.5, ntotal=16, ngood=8, nsample=10)),
 ('distributions.truncnorm.pdf', dict(x=0.5, a=2, b=1)),
 ('distributions.multivariate_hypergeometric.mean', dict(colors=[2, 3], nsample=5)),
 ('distributions.multivariate_hypergeometric.cov', dict(colors=[2, 3], nsample=5)),
 ('distributions.multivariate_hypergeometric.cov', dict(colors=[2, 3, 4], nsample=5)),
 ('distributions.multivariate_hypergeometric.support', dict(colors=[2, 3, 4], nsample=5)),
 ('distributions.multivariate_hypergeometric.support', dict(colors=[2, 1, 3, 2], nsample=4)),
 ('distributions.multivariate_hypergeometric.support', dict(colors=[4], nsample=3)),
 ('stats.mean', dict(x=[1, 2, 4], weights=[1, 0, 2])), ('stats.mean', dict(x=[1, 2, 4], weights=[1, -1, 0])),
 ('stats.gmean', dict(x=[1, 2, 4], weights=[1, -1, 0])), ('stats.gmean', dict(x=[1, 0, 4])),
 ('stats.pearsonr', dict(x=[1, 2], y=[3, 1])), ('stats.pearsonr', dict(x=[1, 2, 5.5], y=[3, 1, 4], alternative='less')),
 ('stats.pearsonr', dict(x=[1, 1, 1], y=[3, 1, 4])),
 ('stats.odds_ratio', dict(table=[[7, 2], [3, 8]], kind='sample', alternative='less')),
 ('stats.odds_ratio', dict(table=[[7, 2], [3, 8]], kind='sample', alternative='greater')),
 ('stats.odds_ratio', dict(table=[[7, 2], [3, 8]], kind='sample')),
 ('stats.odds_ratio', dict(table=[[7, 0], [3, 8]], kind='sample')),
 ('stats.odds_ratio', dict(table=[[7, -2], [3, 8]])), ('stats.odds_ratio', dict(table=[[7, 2], [3, 8, 9]])),
 ('stats.odds_ratio_ci', dict(table=[[7, 2], [3, 8]], kind='conditional', alternative='two-sided', confidence_level=1.5)),
 ('stats.odds_ratio_ci', dict(table=[[7, 2], [3, 8]], kind='sample', alternative='two-sided', confidence_level=1.5)),
 ('stats.odds_ratio_ci', dict(table=[[0, 0], [3, 8]], kind='sample', alternative='two-sided', confidence_level=0.5)),
 ('stats.fisher_exact', dict(table=[[7, 0], [0, 8]])), ('stats.fisher_exact', dict(table=[[0, 2], [3, 8]], alternative='less')),
 ('stats.fisher_exact', dict(table=[[1, 2], [3, 8]], alternative='zzz')),
 ('fun.betaincinv', dict(a=2, b=3, y=0.25, method='bisect')), ('fun.betaincinv', dict(a=2, b=3, y=0.25)),
 ('fun.betaincinv', dict(a=2, b=3, y=0.25, complement=True, method='bisect')),
 ('fun.betaincinv', dict(a=2, b=3, y=0.25, method=('bisect', [0.1, 0.2]))),
 ('fun.betaincinv', dict(a=2, b=3, y=0.25, method=('findroot', 0.3))),
 ('stats.odds_ratio_ci', dict(table=[[9, 4], [3, 5]], kind='conditional', alternative='two-sided', confidence_level=0.9)),
 ('stats.odds_ratio_ci', dict(table=[[2, 3], [4, 1]], kind='conditional', alternative='two-sided', confidence_level=0.95)),
 ('stats.odds_ratio_ci', dict(table=[[4, 2], [1, 5]], kind='conditional', alternative='less', confidence_level=0.75)),
 ('stats.odds_ratio_ci', dict(table=[[3, 2], [2, 2]], kind='conditional', alternative='greater', confidence_level=0.75)),
 ('stats.odds_ratio_ci', dict(table=((3, 1), (2, 2)), kind='conditional', alternative='two-sided', confidence_level=0.5)),
 ('distributions.gompertz.mle', dict(x=L4, c=2.0)), ('distributions.gompertz.mle', dict(x=L4, scale=2.0)),
 ('distributions.gompertz.mle', dict(x=L4, c=2.0, scale=I(1.5))), ('distributions.gompertz.mle', dict(x=L4, c=I(2.0))),
 ('distributions.gompertz.mle', dict(x=L4, c=I(1.0), scale=I(3))), ('distributions.gompertz.mle', dict(x=[0.01, 0.02, 0.04, 0.09])),
 ('stats.fisher_exact', dict(table=[[210, 150], [40, 33]])), ('stats.fisher_exact', dict(table=[[300, 15], [240, 33]], alternative='less')),
 ('distributions.betaprime.cdf', dict(x=mp.inf, a=2, b=3)), ('distributions.betaprime.sf', dict(x=mp.inf, a=2, b=3)),
 ('distributions.betaprime.invcdf', dict(p=0, a=2, b=3)), ('distributions.betaprime.pdf', dict(x=0, a=0.5, b=3)),
 ('distributions.betaprime.logpdf', dict(x=0, a=0.5, b=3)),
 ('distributions.binomial.mle', dict(x=[3, 5, 6, 4], n=I(4))), ('distributions.binomial.mle', dict(x=[0, 1, 9, 0, 12, 3])),
 ('distributions.binomial.mle', dict(x=[3, 5, 6, 4], p=0.05)), ('distributions.binomial.mle', dict(x=[3, 5, 6, 4], n=I(40), p=0.125)),
 ('distributions.binomial.mle', dict(x=[30, 25, 36, 14], n=I(37), p=0.01)), ('distributions.binomial.mle', dict(x=[3, 5], n=I(1000), p=0.5)),
 ('distributions.binomial.mle', dict(x=[3, 5, 6, 4], n=I(6), p=0.3, counts=[1, 1, 1, 1])),
 ('distributions.binomial.mle', dict(x=[7, 8, 7, 8, 8], p=0.8)), ('distributions.binomial.mle', dict(x=[1, 2, 2, 1], p=0.001)),
 ('distributions.gamma.invcdf', dict(p=0.5, k=1, theta=2)), ('distributions.gauss_kuzmin.cdf', dict(k=mp.inf)),
 ('distributions.geninvgauss.cdf', dict(x=3, p=2, b=1)), ('distributions.geninvgauss.cdf', dict(x=9.5, p=1.5, b=3, scale=2)),
 ('distributions.geninvgauss.cdf', dict(x=30, p=0.5, b=2, loc=1, scale=5)),
 ('distributions.geninvgauss.sf', dict(x=0.25, p=2, b=1)), ('distributions.geninvgauss.sf', dict(x=1.5, p=1.5, b=3, scale=2)),
 ('distributions.geninvgauss.sf', dict(x=2, p=0.5, b=2, loc=1, scale=5)),
 ('distributions.genpareto.invcdf', dict(p=1, xi=-0.5, mu=1, sigma=2)), ('distributions.genpareto.invsf', dict(p=0, xi=0.5, mu=1, sigma=2)),
 ('distributions.genpareto.invcdf', dict(p=1, xi=0.5)), ('distributions.genpareto.invsf', dict(p=0, xi=-0.5)),
 ('distributions.gompertz.invcdf', dict(p=1, c=2, scale=3)), ('distributions.gompertz.invsf', dict(p=0, c=2, scale=3)),
 ('distributions.gompertz.logpdf', dict(x=-1, c=2)), ('distributions.invgauss.invsf', dict(p=1, m=2)),
 ('distributions.laplace.mle', dict(x=[1, 2.5, 4, 8, 9])), ('distributions.loglogistic.invcdf', dict(p=1, beta=2, scale=3)),
 ('distributions.negative_binomial.mle', dict(x=[3, 5, 1, 9, 2, 0, 14, 2])),
 ('distributions.negative_binomial.mle', dict(x=[3, 15, 1, 9, 2, 0, 7])), ('distributions.negative_binomial.mle', dict(x=[0, 1, 30, 5, 12])),
 ('distributions.negative_binomial.mle', dict(x=[0, 1, 30, 5, 12], r=I(2))),
 ('distributions.negative_binomial.mle', dict(x=[3, 5, 1, 9, 2, 0], p=0.3)), ('distributions.negative_binomial.mle', dict(x=[3, 5, 1, 9, 2, 0], p=0.28)),
 ('distributions.pareto.mle', dict(x=[1.5, 2, 3.5, 8], b=I(2.0), scale=I(3.0))), ('distributions.pareto.mle', dict(x=[1, 1.5, 4, 8.5, 30], b=I(1.5))),
 ('distributions.pareto.mle', dict(x=[1, 1.1, 1.3, 2, 2.5, 4, 20])),
 ('distributions.studentt.invcdf', dict(p=1, nu=4)), ('distributions.studentt.invcdf', dict(p=0, nu=4)),
 ('distributions.tukeylambda.invcdf', dict(p=0, lam=-1)), ('distributions.tukeylambda.invcdf', dict(p=1, lam=-1)),
 ('fun.debye', dict(x=1e-300, n=1)), ('fun.xlogy', dict(x=mp.nan, y=2)), ('fun.xlogy', dict(x=0, y=mp.nan)),
 ('stats.fisher_exact', dict(table=[[0, 0], [3, 8]])), ('stats.fisher_exact', dict(table=[[0, 4], [0, 8]])),
 ('stats.odds_ratio', dict(table=[[0, 0], [3, 8]])), ('stats.odds_ratio', dict(table=[[0, 4], [0, 8]], kind='sample')),
 ('distributions.exponweib.noncentral_moment', dict(k=1, a=1, c=2, scale=3)), ('distributions.exponweib.noncentral_moment', dict(k=2, a=2, c=2)),
 ('distributions.exponweib.var', dict(a=2, c=2)), ('distributions.exponweib.var', dict(a=1, c=2, scale=3)), ('distributions.exponweib.mean', dict(a=2, c=2)),
]
C = json.load(open('/verif/corpus/corpus.json'))
for n, kw in H:
    op = {'f': n, 'kw': {k: codec.enc(v) for k, v in kw.items()}}
    def child():
        t0 = time.process_time()
        t, f, v = W.call(op, 53, budget=400000)
        return t, f[:70], round(time.process_time() - t0, 3), W.seam.last_total
    r = core.in_child(child)[1]
    print(n, kw, r)
    if r[0] in ('ok', 'err') and r[3] < 100000:
        c = {'kw': op['kw']}
        if c not in C[n]: C[n].append(c)
with open('/verif/corpus/corpus.json', 'w') as f:
    f.write('{\n' + ',\n'.join(json.dumps(n) + ': ' + json.dumps(C[n], sort_keys=True) for n in sorted(C)) + '\n}\n')
