"""Planted bugs, second batch."""
from bugs import B, H, V, EM, ST, UT, PU, KL, EXT
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append((id, prop, edits, needs, breaks, demo))


CAT = '''
from hmmlearn import hmm
def cat(K=2, F=2, seed=0, **kw):
    rs = np.random.RandomState(seed)
    m = hmm.CategoricalHMM(K, init_params="", random_state=0, n_features=F, **kw)
    m.startprob_ = rs.dirichlet(np.ones(K)); m.transmat_ = rs.dirichlet(np.ones(K), size=K)
    m.emissionprob_ = rs.dirichlet(np.ones(F), size=K)
    return m
def ref(m, X, L=None):
    X = np.asarray(X); out = []; i = 0
    for n in L or [len(X)]:
        out.append(forward_backward(m.startprob_, m.transmat_, log(m.emissionprob_[:, X[i:i + n, 0]].T))); i += n
    return out
'''

bug("C01-mixzero", "C01", [(EM,
    "        log_cur_weights = np.log(self.weights_[i_comp])\n",
    "        log_cur_weights = np.log(np.maximum(\n"
    "            self.weights_[i_comp], np.finfo(float).tiny))\n")],
    "a GMMHMM with a mixture weight of zero, and data far from the used components but near the unused one",
    "unused mixture components contribute to the likelihood",
    '''
from hmmlearn import hmm
m = hmm.GMMHMM(1, 2, covariance_type="spherical", init_params="")
m.startprob_ = np.ones(1); m.transmat_ = np.ones((1, 1)); m.weights_ = np.array([[1., 0]])
m.means_ = np.array([[[0.], [60.]]]); m.covars_ = np.array([[1., 1.]])
m.n_features = 1
X = np.array([[0.], [60.]])
close(m.score(X), gauss(X, np.zeros((1, 1)), np.ones((1, 1, 1))).sum(), "score")
''')

bug("C03-near", "C03", [(EXT,
    "          max = std::max(max, viterbi_lattice(t - 1, j) + log_transmat(j, i));\n",
    "          auto v = viterbi_lattice(t - 1, j) + log_transmat(j, i);\n"
    "          if (v > max + 1e-6) {  // prefer the first of equal states\n"
    "            max = v;\n          }\n")],
    "two predecessors whose log-probabilities differ by less than 1e-6",
    "the log-probability of the Viterbi path is too small by up to 1e-6 per frame",
    CAT + '''
m = cat(2, 2)
m.startprob_ = np.array([.5 - 2e-7, .5 + 2e-7]); m.transmat_ = np.full((2, 2), .5)
m.emissionprob_ = np.array([[.5, .5], [.5, .5]])
X = np.zeros((3, 1), int)
lp, z = m.decode(X, algorithm="viterbi")
close(lp, viterbi(m.startprob_, m.transmat_, np.log(np.full((3, 2), .5))), "log_prob", 1e-9)
''')

bug("C04-predict", "C04", [(B,
    "        _, state_sequence = self.decode(X, lengths)\n        return state_sequence",
    "        _, state_sequence = self.decode(X, lengths, algorithm=\"viterbi\")\n        return state_sequence")],
    "a model with algorithm='map', on data where both decoders differ",
    "predict() ignores the decoder of the model",
    CAT + '''
for seed in range(50):
    m = cat(3, 2, seed, algorithm="map")
    X = np.random.RandomState(seed).randint(2, size=(20, 1))
    close(m.predict(X), m.predict_proba(X).argmax(axis=1), "map states")
''')

bug("C05-denormal", "C05", [(EXT,
    "  auto min_sum = 1e-300;\n",
    "  auto min_sum = 1e-322;\n")],
    "implementation='scaling' and frame likelihoods between 1e-322 and 1e-308",
    "denormal sums are accepted, so that the score has few significant digits",
    '''
from hmmlearn import hmm
for d in np.linspace(37.65, 38.6, 40):
    m = hmm.GaussianHMM(2, covariance_type="spherical", init_params="", implementation="scaling")
    m.startprob_ = np.array([.5, .5]); m.transmat_ = np.array([[.9, .1], [.1, .9]])
    m.means_ = np.array([[0.], [.1]]); m.covars_ = np.array([1., 1.])
    X = np.array([[0.], [-d], [1.]])
    try:
        s = m.score(X)
    except Exception:
        continue
    lb = gauss(X, m.means_, np.ones((2, 1, 1)))
    close(s, forward_backward(m.startprob_, m.transmat_, lb)[0], "score", 1e-6)
''')

bug("C08-prune", "C08", [(EXT,
    "        log_xi_sum(i, j) = logaddexp(log_xi_sum(i, j), log_xi);\n",
    "        if (log_xi > log_xi_sum(i, j) - 16) {\n"
    "          log_xi_sum(i, j) = logaddexp(log_xi_sum(i, j), log_xi);\n"
    "        }\n")],
    "implementation='log' and a transition that is much rarer at most frames than at one, in long sequences",
    "expected transition counts are too small by up to 1e-7 per frame",
    CAT + '''
m = cat(2, 2, params="t", n_iter=1)
m.startprob_ = np.array([.5, .5]); m.transmat_ = np.array([[1 - 5e-8, 5e-8], [.5, .5]])
m.emissionprob_ = np.array([[.6, .4], [.4, .6]])
m.transmat_ = np.array([[1 - 1e-8, 1e-8], [.7, .3]])
X = np.array([[0], [1]] + [[0]] * 3000)
m.startprob_ = np.array([1e-9, 1 - 1e-9])
xi = ref(m, X)[0][2]
m.fit(X)
close(m.transmat_[1], xi[1] / xi[1].sum(), "transmat_", 1e-9)
''')

bug("C08-transpose", "C08", [(B,
    "            transmat_ = np.maximum(self.transmat_prior - 1 + stats['trans'], 0)\n",
    "            prior = np.broadcast_to(\n"
    "                np.transpose(self.transmat_prior), stats['trans'].shape)\n"
    "            transmat_ = np.maximum(prior - 1 + stats['trans'], 0)\n")],
    "a transition prior matrix that is not symmetric",
    "the prior of the transition from i to j is applied to that from j to i",
    CAT + '''
pr = np.array([[1., 5.], [2., 3.]])
m = cat(2, 2, params="t", n_iter=1, transmat_prior=pr)
X = np.array([[0], [1], [1], [0]])
w = ref(m, X)[0][2] + pr - 1
m.fit(X)
close(m.transmat_, w / w.sum(axis=1)[:, None], "transmat_")
''')

bug("C09-eps", "C09", [(H,
    "                self.emissionprob_prior - 1 + stats['obs'], 0)\n",
    "                self.emissionprob_prior - 1 + stats['obs'],\n"
    "                np.finfo(float).eps)\n")],
    "a symbol that a state never emits",
    "symbols that were never emitted remain possible",
    CAT + '''
m = cat(2, 3, n_iter=1)
X = np.array([[0], [1], [1], [0]])
m.fit(X)
check((m.emissionprob_[:, 2] == 0).all() and m.score(np.array([[2]])) == -np.inf, m.emissionprob_)
''')

bug("C10-rare", "C10", [(H,
    "                self._covars_ = (covars_prior + c_n) / np.maximum(c_d, 1e-5)\n",
    "                self._covars_ = (covars_prior + c_n) / np.maximum(c_d, 1e-2)\n")],
    "a state with less than a hundredth of an expected observation and covars_weight <= 1",
    "the variances of rare states are too small",
    '''
from hmmlearn import hmm
m = hmm.GaussianHMM(2, covariance_type="diag", init_params="", params="c", n_iter=1, covars_prior=0,
                    covars_weight=1)
m.startprob_ = np.array([1 - 1e-3, 1e-3]); m.transmat_ = np.array([[1 - 1e-3, 1e-3], [1 - 1e-3, 1e-3]])
m.means_ = np.array([[0.], [.5]]); m.covars_ = np.array([[1.], [1.]])
X = np.array([[0.], [1.], [-1.]])
_, g, _ = forward_backward(m.startprob_, m.transmat_, gauss(X, m.means_, np.ones((2, 1, 1))))
w = [(g[:, k] * (X[:, 0] - m.means_[k, 0]) ** 2).sum() / g[:, k].sum() for k in range(2)]
m.fit(X)
close(m.covars_[:, 0, 0], w, "covars_")
''')

bug("C11-wprior", "C11", [(H,
    "            w_d = (stats['post_sum'] + alphas_minus_one.sum(axis=1))[:, None]\n",
    "            w_d = (stats['post_sum'] + alphas_minus_one[0].sum())[:, None]\n")],
    "weights_prior that differs between the states",
    "weights of some states do not sum to one",
    '''
from hmmlearn import hmm
X = np.random.RandomState(0).randn(30, 1)
m = hmm.GMMHMM(2, 2, init_params="", params="w", n_iter=1, covariance_type="diag",
               weights_prior=np.array([[1., 1.], [3., 4.]]))
m.startprob_ = np.array([.5, .5]); m.transmat_ = np.full((2, 2), .5); m.weights_ = np.full((2, 2), .5)
m.means_ = np.array([[[0.], [1.]], [[-1.], [.5]]]); m.covars_ = np.ones((2, 2, 1))
m.fit(X)
close(m.weights_.sum(axis=1), [1, 1], "sums of weights_")
''')

bug("C12-short", "C12", [(B,
    "            # so there is no reason to update our trans. matrix estimate\n"
    "            if n_samples <= 1:\n                return\n"
    "            xi_sum = _hmmc.compute_scaling_xi_sum(\n"
    "                fwdlattice, self.transmat_, bwdlattice, lattice)\n",
    "            # so there is no reason to update our trans. matrix estimate\n"
    "            if n_samples <= 2:\n                return\n"
    "            xi_sum = _hmmc.compute_scaling_xi_sum(\n"
    "                fwdlattice, self.transmat_, bwdlattice, lattice)\n")],
    "training with sequences of two frames, implementation='scaling'",
    "the only transition of two-frame sequences is ignored, so that training does not maximize the likelihood",
    CAT + '''
m = cat(2, 2, n_iter=6, implementation="scaling", params="t", tol=-np.inf)
m.emissionprob_ = np.array([[.95, .05], [.05, .95]])
X = np.array([[0], [1]] * 20 + [[0]] * 8); L = [2] * 20 + [8]
m.fit(X, L)
d = np.diff(list(m.monitor_.history))
check((d > -1e-8).all(), f"log-likelihood changes by {d}")
''')

bug("C13-needs", "C13", [(B,
    "        if code in self.init_params:\n",
    "        if code in self.init_params and (\n"
    "                code in self.params or not hasattr(self, name)):\n")],
    "a parameter in init_params, but not in params, that is already set",
    "init_params is ignored for parameters that are not trained",
    CAT + '''
m = cat(2, 2)
m.init_params = "t"; m.params = "e"; m.n_iter = 0
old = m.transmat_.copy()
m.fit(np.array([[0], [1], [0]]))
check((m.transmat_ != old).any(), "transmat_ was not initialized")
''')

bug("C14-dead", "C14", [(B,
    "            normalize(self.transmat_, axis=1)\n",
    "            normalize(self.transmat_, axis=1)\n"
    "            dead = self.transmat_.sum(axis=1) == 0\n"
    "            self.transmat_[dead] = 1 / self.n_components\n"),
   (B, "            self.transmat_ = np.where(self.transmat_ == 0, 0, transmat_)\n",
       "            self.transmat_ = np.where(self.transmat_ > 0, transmat_, 0)\n")],
    "a state from which no transition is ever observed",
    "forbidden transitions become possible for unused states",
    CAT + '''
m = cat(3, 2, n_iter=1)
m.startprob_ = np.array([1., 0, 0]); m.transmat_ = np.array([[0, 1., 0], [0, 0, 1.], [1., 0, 0]])
X = np.array([[0], [1]])
m.fit(X)
check(m.transmat_[1, 0] == 0 and m.transmat_[2, 1] == 0, m.transmat_)
''')

bug("C16-tied", "C16", [(EM,
    "        return random_state.multivariate_normal(\n"
    "            self.means_[state, i_gauss], covs[state]\n        )\n",
    "        return random_state.multivariate_normal(\n"
    "            self.means_[state, i_gauss], covs[min(state, self.n_mix)]\n        )\n")],
    "a GMMHMM with at least two states more than mixture components",
    "samples of the last states have the covariance of another state",
    '''
from hmmlearn import hmm
m = hmm.GMMHMM(3, 1, covariance_type="tied", init_params="")
m.startprob_ = np.array([0, 0, 1.]); m.transmat_ = np.eye(3); m.weights_ = np.ones((3, 1))
m.means_ = np.zeros((3, 1, 1)); m.covars_ = np.array([[[1.]], [[1.]], [[1e4]]])
X, _ = m.sample(200, random_state=0)
check(X.std() > 50, f"standard deviation is {X.std()}")
''')

bug("C17-seed0", "C17", [(B,
    "        if random_state is None:\n            random_state = self.random_state\n",
    "        random_state = random_state or self.random_state\n")],
    "sample(random_state=0)",
    "the seed 0 is ignored",
    CAT + '''
m = cat(2, 5); m.random_state = None
a, _ = m.sample(50, random_state=0); b, _ = m.sample(50, random_state=0)
check((a == b).all(), "not reproducible")
''')

bug("C18-clone", "C18", [(B,
    "        self.startprob_prior = startprob_prior\n        self.transmat_prior = transmat_prior\n"
    "        self.monitor_ = ConvergenceMonitor(self.tol, self.n_iter, self.verbose)\n\n"
    "    def get_stationary",
    "        self.startprob_prior = startprob_prior\n        self.transmat_prior = (\n"
    "            transmat_prior if np.ndim(transmat_prior) == 0\n"
    "            else np.array(transmat_prior, dtype=float))\n"
    "        self.monitor_ = ConvergenceMonitor(self.tol, self.n_iter, self.verbose)\n\n"
    "    def get_stationary")],
    "an array as transmat_prior",
    "sklearn.base.clone fails, as the constructor copies its arguments",
    '''
from sklearn.base import clone
from hmmlearn import hmm
m = hmm.GaussianHMM(2, transmat_prior=np.ones((2, 2)))
try:
    c = clone(m)
except Exception as e:
    check(False, f"clone raised {e}")
check((c.transmat_prior == m.transmat_prior).all(), "parameters differ")
''')

bug("C20-tied", "C20", [(EM,
    "                \"tied\": nc * nf * (nf + 1) // 2,\n",
    "                \"tied\": nf * (nf + 1) // 2,\n")],
    "aic or bic of a tied GMMHMM with several states",
    "the number of covariance parameters of tied mixtures is that of one state",
    '''
from hmmlearn import hmm
X = np.random.RandomState(0).randn(60, 2)
m = hmm.GMMHMM(2, 2, covariance_type="tied", random_state=0, n_iter=2).fit(X)
close(m.aic(X), -2 * m.score(X) + 2 * (1 + 2 + 2 + 8 + 6), "aic")
''')

bug("C22-tiedprior", "C22", [(V,
    "                    + np.einsum(\"c,ci,cj->ij\",\n"
    "                                self.beta_prior_,\n"
    "                                self.means_prior_,\n"
    "                                self.means_prior_)\n",
    "                    + np.einsum(\"c,ci,cj->ij\",\n"
    "                                self.beta_prior_,\n"
    "                                self.means_prior_[:1],\n"
    "                                self.means_prior_[:1])\n")],
    "a tied VariationalGaussianHMM with prior means that differ between the states",
    "the prior scatter uses the prior mean of the first state for all states",
    '''
from hmmlearn import vhmm
rs = np.random.RandomState(0); X = rs.randn(40, 1)
m = vhmm.VariationalGaussianHMM(2, covariance_type="tied", random_state=0, n_iter=1,
    means_prior=np.array([[0.], [3.]]), beta_prior=np.array([1., 1.]), dof_prior=2., scale_prior=np.array([[1.]]))
m.fit(X)
b, mu = m.beta_posterior_, m.means_posterior_[:, 0]
close(m.scale_posterior_[0, 0], 1 + (X ** 2).sum() + 9 - (b * mu ** 2).sum(), "scale_posterior_")
''')

bug("C23-means", "C23", [(V,
    "                self.means_prior_[i], term2,\n",
    "                self.means_prior_[0], term2,\n")],
    "prior means that differ between the states",
    "the lower bound uses the prior mean of the first state for all states",
    '''
from hmmlearn import vhmm
rs = np.random.RandomState(0); X = np.concatenate([rs.randn(30, 1), rs.randn(30, 1) + 5])
m = vhmm.VariationalGaussianHMM(2, covariance_type="full", random_state=0, n_iter=30, tol=-np.inf,
    means_prior=np.array([[0.], [5.]]), beta_prior=np.array([50., 50.]), dof_prior=np.array([5., 5.]),
    scale_prior=np.ones((2, 1, 1)))
m.fit(X)
h1 = list(m.monitor_.history)
d = np.diff(h1)
check((d > -1e-6).all(), f"bound changes by {d.min()}")
from hmmlearn import _kl_divergence as kl
want = 0.
for i in range(2):
    prec = m.dof_posterior_[i] / m.scale_posterior_[i]
    want -= kl.kl_multivariate_normal_distribution(
        m.means_posterior_[i], np.linalg.inv(m.beta_posterior_[i] * prec),
        m.means_prior_[i], np.linalg.inv(m.beta_prior_[i] * prec))
    want -= kl.kl_wishart_distribution(m.dof_posterior_[i], m.scale_posterior_[i], m.dof_prior_[i], m.scale_prior_[i])
    want -= kl.kl_dirichlet(m.transmat_posterior_[i], m.transmat_prior_[i])
want -= kl.kl_dirichlet(m.startprob_posterior_, m.startprob_prior_)
close(m._compute_lower_bound(0.), want, "divergence terms")
''')

bug("C24-power", "C24", [(B,
    "        eigvals, eigvecs = linalg.eig(self.transmat_.T)\n"
    "        eigvec = np.real_if_close(eigvecs[:, np.argmax(eigvals)])\n"
    "        return eigvec / eigvec.sum()\n",
    "        eigvec = np.linalg.matrix_power(self.transmat_, 2 ** 20).mean(axis=0)\n"
    "        return eigvec / eigvec.sum()\n")],
    "a slowly mixing chain that was not started in equilibrium",
    "the power iteration has not converged after a million steps",
    CAT + '''
m = cat(2, 2)
m.transmat_ = np.array([[1 - 1e-9, 1e-9], [3e-9, 1 - 3e-9]])
close(m.get_stationary_distribution(), [.75, .25], "stationary distribution", 1e-5)
''')

bug("C25-weights", "C25", [(H,
    "        self._check_sum_1(\"weights_\")\n",
    "        if not np.allclose(self.weights_.mean(), 1 / nm):\n"
    "            raise ValueError(\"weights_ must sum to 1\")\n")],
    "mixture weights whose row sums are wrong but one on average",
    "invalid mixture weights are accepted",
    '''
from hmmlearn import hmm
m = hmm.GMMHMM(2, 2, covariance_type="spherical", init_params="")
m.startprob_ = np.array([.5, .5]); m.transmat_ = np.full((2, 2), .5)
m.weights_ = np.array([[.6, .6], [.4, .4]]); m.means_ = np.zeros((2, 2, 1)); m.covars_ = np.ones((2, 2))
m.n_features = 1
try:
    m.score(np.zeros((2, 1)))
    check(False, "accepted")
except ValueError:
    pass
''')

bug("C25-lengths", "C25", [(PU,
    "        if cs[-1] != n_samples:\n",
    "        if n_samples % cs[-1]:\n")],
    "lengths whose sum divides the number of samples",
    "the remaining samples are silently ignored",
    CAT + '''
m = cat(2, 2)
try:
    m.score(np.zeros((6, 1), int), [2, 1])
    check(False, "accepted")
except ValueError:
    pass
''')

bug("C27-fixed", "C27", [(EXT,
    "  auto buf = std::vector<double>(nc);\n"
         "  auto fwdlattice_ = py::array_t<double>{{ns, nc}};\n",
         "  auto buf = std::vector<double>(64);\n"
         "  auto fwdlattice_ = py::array_t<double>{{ns, nc}};\n")],
    "more than 64 states",
    "a work buffer of fixed size overflows",
    '''
import subprocess
code = """
import numpy as np
from hmmlearn import hmm
for K in (70, 100, 200, 500, 1000):
    m = hmm.CategoricalHMM(K)
    m.startprob_ = np.full(K, 1 / K); m.transmat_ = np.full((K, K), 1 / K)
    m.emissionprob_ = np.full((K, 2), .5)
    for i in range(20):
        l = [np.ones(j) for j in range(1, 200)]
        m.score(np.zeros((3, 1), int))
"""
r = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True)
check(r.returncode == 0, f"the interpreter died: {r.returncode} {r.stderr[-200:]}")
''')

bug("C32-bias", "C32", [(H,
    "            cv = np.cov(X.T) + self.min_covar * np.eye(X.shape[1])\n",
    "            cv = np.cov(X.T, bias=True) + self.min_covar * np.eye(X.shape[1])\n")],
    "initialization of the covariances",
    "initial covariances are those of the biased estimator",
    '''
from hmmlearn import hmm
X = np.random.RandomState(0).randn(9, 2)
m = hmm.GaussianHMM(2, covariance_type="full", n_iter=0, random_state=0).fit(X)
close(m.covars_[0], np.cov(X.T) + 1e-3 * np.eye(2), "covars_")
''')

bug("C33-cache", "C33", [(ST,
    "        try:\n            cv_chol = linalg.cholesky(cv, lower=True)\n",
    "        try:\n            key = np.diagonal(cv).tobytes()\n"
    "            if key not in _CHOLESKY:\n"
    "                _CHOLESKY.clear()\n"
    "                _CHOLESKY[key] = linalg.cholesky(cv, lower=True)\n"
    "            cv_chol = _CHOLESKY[key]\n"),
   (ST, "def _log_multivariate_normal_density_full(X, means, covars, min_covar=1.e-7):\n",
        "_CHOLESKY = {}  # of the last matrix\n\n\n"
        "def _log_multivariate_normal_density_full(X, means, covars, min_covar=1.e-7):\n")],
    "two covariance matrices with the same variances, but other correlations, one after the other",
    "the factor of the previous covariance matrix is used",
    '''
from hmmlearn import hmm
X = np.random.RandomState(0).randn(5, 2)
m = hmm.GaussianHMM(1, covariance_type="full")
m.startprob_ = np.ones(1); m.transmat_ = np.ones((1, 1)); m.means_ = np.zeros((1, 2))
for r in (.1, .5, -.5):
    c = np.array([[[1., r], [r, 1.]]])
    m.covars_ = c
    close(m.score(X), gauss(X, m.means_, c).sum(), f"score with correlation {r}")
''')

