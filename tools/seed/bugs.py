"""Planted bugs: (id, property, [(file, old, new)], needs, breaks, demo)."""
B = "src/hmmlearn/base.py"
H = "src/hmmlearn/hmm.py"
V = "src/hmmlearn/vhmm.py"
EM = "src/hmmlearn/_emissions.py"
ST = "src/hmmlearn/stats.py"
UT = "src/hmmlearn/utils.py"
PU = "src/hmmlearn/_utils.py"
KL = "src/hmmlearn/_kl_divergence.py"
EXT = "ext/_hmmc.cpp"
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append((id, prop, edits, needs, breaks, demo))


bug("C02-floor", "C02", [(B,
    "        with np.errstate(under=\"ignore\"):\n            return np.exp(log_gamma)",
    "        return np.exp(np.maximum(log_gamma, np.log(np.finfo(float).eps)))")],
    "a state that is impossible at some frame, with implementation='log'",
    "impossible states get a positive posterior probability, and rows do not sum to one exactly",
    '''
from hmmlearn import hmm
m = hmm.CategoricalHMM(3, init_params="")
m.startprob_ = np.array([1., 0, 0])
m.transmat_ = np.array([[.5, .5, 0], [0, .5, .5], [0, 0, 1.]])
m.emissionprob_ = np.array([[.6, .4], [.5, .5], [.1, .9]])
p = m.predict_proba(np.array([[0], [1], [1], [0]]))
check(p[0, 1] == 0 and p[0, 2] == 0 and p[1, 2] == 0, f"impossible states: {p}")
''')

bug("C03-beam", "C03", [(EXT,
    "        auto max = -std::numeric_limits<double>::infinity();\n"
    "        for (auto j = 0; j < nc; ++j) {\n"
    "          max = std::max(max, viterbi_lattice(t - 1, j) + log_transmat(j, i));\n"
    "        }",
    "        auto max = -std::numeric_limits<double>::infinity();\n"
    "        auto best = *std::max_element(\n"
    "          &viterbi_lattice(t - 1, 0), &viterbi_lattice(t - 1, 0) + nc);\n"
    "        for (auto j = 0; j < nc; ++j) {\n"
    "          if (viterbi_lattice(t - 1, j) < best - 40) {\n"
    "            continue;  // outside of the beam\n"
    "          }\n"
    "          max = std::max(max, viterbi_lattice(t - 1, j) + log_transmat(j, i));\n"
    "        }")],
    "the best path goes through a state that looks exp(40) times worse at some frame",
    "beam search misses the most likely path",
    '''
from hmmlearn import hmm
m = hmm.GaussianHMM(2, covariance_type="spherical", init_params="")
m.startprob_ = np.array([.5, .5]); m.transmat_ = np.array([[1., 0], [0, 1.]])
m.means_ = np.array([[0.], [10.]]); m.covars_ = np.array([1., 1.])
X = np.array([[0.], [10.], [10.], [10.]])
lb = gauss(X, m.means_, np.ones((2, 1, 1)))
ll, z = m.decode(X, algorithm="viterbi")
close(ll, viterbi(m.startprob_, m.transmat_, lb), "log_prob")
close(path_log_prob(m.startprob_, m.transmat_, lb, z), ll, "path")
''')

bug("C03-lowest", "C03", [(EXT,
    "        auto max = -std::numeric_limits<double>::infinity();\n"
    "        for (auto j = 0; j < nc; ++j) {\n"
    "          max = std::max(max,",
    "        auto max = std::numeric_limits<double>::lowest();\n"
    "        for (auto j = 0; j < nc; ++j) {\n"
    "          max = std::max(max,")],
    "data that is impossible under the model only because of its transitions",
    "Viterbi returns -1.8e308 instead of -inf as log-probability of impossible data",
    '''
from hmmlearn import hmm
m = hmm.CategoricalHMM(2, init_params="")
m.startprob_ = np.array([1., 0]); m.transmat_ = np.array([[0, 1.], [0, 1.]])
m.emissionprob_ = np.array([[1., 0], [0, 1.]])
ll, _ = m.decode(np.array([[0], [0], [1]]), algorithm="viterbi")
check(ll == -np.inf, f"log_prob of impossible data is {ll}")
''')

bug("C04-lengths", "C04", [(B,
    "        _, state_sequence = self.decode(X, lengths)\n",
    "        if self.algorithm == \"map\":  # No need for the log-probability.\n"
    "            return self.predict_proba(X).argmax(axis=1)\n"
    "        _, state_sequence = self.decode(X, lengths)\n")],
    "algorithm='map' and several sequences",
    "predict() of a MAP decoder ignores lengths",
    '''
from hmmlearn import hmm
m = hmm.CategoricalHMM(2, algorithm="map", init_params="")
m.startprob_ = np.array([.99, .01]); m.transmat_ = np.array([[.1, .9], [.1, .9]])
m.emissionprob_ = np.array([[.5, .5], [.5, .5]])
X = np.zeros((6, 1), int)
close(m.predict(X, [2, 2, 2]), m.decode(X, [2, 2, 2])[1], "predict")
close(m.predict(X, [2, 2, 2]), [0, 1] * 3, "states")
''')

bug("C05-clip", "C05", [(B,
    "                return np.exp(self._compute_log_likelihood(X))",
    "                # Avoid underflow for far away samples.\n"
    "                return np.exp(np.maximum(self._compute_log_likelihood(X), -690))")],
    "implementation='scaling' and a sample so unlikely in all or some states that its density underflows",
    "the scaling implementation returns a wrong score instead of raising ValueError",
    '''
from hmmlearn import hmm
m = hmm.GaussianHMM(2, covariance_type="spherical", init_params="", implementation="scaling")
m.startprob_ = np.array([.5, .5]); m.transmat_ = np.array([[.9, .1], [.1, .9]])
m.means_ = np.array([[0.], [1.]]); m.covars_ = np.array([1., 1.])
X = np.array([[0.], [1.], [60.], [1.]])
lb = gauss(X, m.means_, np.ones((2, 1, 1)))
try:
    s = m.score(X)
except ValueError:
    s = None
if s is not None:
    close(s, forward_backward(m.startprob_, m.transmat_, lb)[0], "score", 1e-6)
''')

bug("C02-single", "C02", [(B,
    "            if compute_posteriors:\n"
    "                bwdlattice = _hmmc.backward_log(\n"
    "                    self.startprob_, self.transmat_, log_frameprob)\n"
    "                sub_posteriors.append(\n",
    "            if compute_posteriors and len(sub_X) == 1:\n"
    "                sub_posteriors.append(np.exp(fwdlattice))\n"
    "            elif compute_posteriors:\n"
    "                bwdlattice = _hmmc.backward_log(\n"
    "                    self.startprob_, self.transmat_, log_frameprob)\n"
    "                sub_posteriors.append(\n")],
    "sequences of length one, implementation='log'",
    "posteriors of one-frame sequences are not normalized",
    '''
from hmmlearn import hmm
m = hmm.CategoricalHMM(2, init_params="")
m.startprob_ = np.array([.6, .4]); m.transmat_ = np.array([[.9, .1], [.2, .8]])
m.emissionprob_ = np.array([[.7, .3], [.2, .8]])
X = np.array([[0], [1], [1], [0]])
p = m.predict_proba(X, [1, 2, 1])
w = np.concatenate([m.predict_proba(X[1:3])])
close(p[1:3], w, "second sequence")
close(p[0], np.array([.42, .08]) / .5, "first sequence")
close(p[3], np.array([.42, .08]) / .5, "third sequence")
''')

bug("C07-start", "C07", [(B,
    "            stats['start'] += posteriors[0]\n        if 't' in self.params:\n"
    "            n_samples, n_components = lattice.shape\n"
    "            # when the sample is of length 1, it contains no transitions\n"
    "            # so there is no reason to update our trans. matrix estimate\n"
    "            if n_samples <= 1:\n                return\n"
    "            log_xi_sum = _hmmc.compute_log_xi_sum(\n"
    "                fwdlattice, self.transmat_, bwdlattice, lattice)\n",
    "            stats['start'] += posteriors[0] * (len(X) > 1)\n        if 't' in self.params:\n"
    "            n_samples, n_components = lattice.shape\n"
    "            # when the sample is of length 1, it contains no transitions\n"
    "            # so there is no reason to update our trans. matrix estimate\n"
    "            if n_samples <= 1:\n                return\n"
    "            log_xi_sum = _hmmc.compute_log_xi_sum(\n"
    "                fwdlattice, self.transmat_, bwdlattice, lattice)\n")],
    "training with sequences of length one, implementation='log'",
    "one-frame sequences do not contribute to the start probabilities",
    '''
from hmmlearn import hmm
m = hmm.CategoricalHMM(2, init_params="", n_iter=1)
m.startprob_ = np.array([.6, .4]); m.transmat_ = np.array([[.9, .1], [.2, .8]])
m.emissionprob_ = np.array([[.7, .3], [.2, .8]])
s, A, E = m.startprob_, m.transmat_, m.emissionprob_
X = np.array([[0], [1], [1], [1], [0]]); L = [1, 3, 1]
want = 0; i = 0
for n in L:
    want = want + forward_backward(s, A, log(E[:, X[i:i + n, 0]].T))[1][0]; i += n
m.fit(X, L)
close(m.startprob_, want / want.sum(), "startprob_")
''')

bug("C08-prior", "C08", [(B,
    "            startprob_ = np.maximum(self.startprob_prior - 1 + stats['start'],\n"
    "                                    0)\n",
    "            startprob_ = (np.maximum(self.startprob_prior - 1, 0)\n"
    "                          + stats['start'])\n")],
    "a Dirichlet prior of the start probabilities below one",
    "sparse priors have no effect on the start probabilities",
    '''
from hmmlearn import hmm
m = hmm.CategoricalHMM(2, init_params="", n_iter=1, startprob_prior=.8)
m.startprob_ = np.array([.6, .4]); m.transmat_ = np.array([[.9, .1], [.2, .8]])
m.emissionprob_ = np.array([[.7, .3], [.2, .8]])
s, A, E = m.startprob_, m.transmat_, m.emissionprob_
X = np.array([[0], [1], [1], [1], [0], [0]]); L = [3, 3]
c = sum(forward_backward(s, A, log(E[:, x[:, 0]].T))[1][0] for x in (X[:3], X[3:]))
m.fit(X, L)
c = np.maximum(c - .2, 0)
close(m.startprob_, c / c.sum(), "startprob_")
''')

bug("C09-trials", "C09", [(EM,
    "        if 'e' in self.params:\n            stats['obs'] += posteriors.T @ X\n",
    "        if 'e' in self.params:\n"
    "            n_trials = X.sum(axis=1, keepdims=True)\n"
    "            stats['obs'] += posteriors.T @ (X / np.maximum(n_trials, 1))\n")],
    "a MultinomialHMM whose number of trials differs between the samples",
    "samples with many trials count as much as those with few",
    '''
from hmmlearn import hmm
X = np.array([[1, 0], [0, 9], [3, 3], [1, 0], [2, 6]])
m = hmm.MultinomialHMM(1, n_trials=X.sum(axis=1), init_params="", n_iter=1)
m.startprob_ = np.ones(1); m.transmat_ = np.ones((1, 1)); m.emissionprob_ = np.array([[.5, .5]])
m.fit(X)
close(m.emissionprob_, [X.sum(axis=0) / X.sum()], "emissionprob_")
''')

bug("C10-scatter", "C10", [(H,
    "                              + stats['obs*obs.T'][c]\n"
    "                              - obsmean - obsmean.T\n"
    "                              + np.outer(self.means_[c], self.means_[c])\n"
    "                              * stats['post'][c])\n",
    "                              + stats['obs*obs.T'][c]\n"
    "                              - (obsmean + obsmean.T) / 2)\n")],
    "full or tied covariances with means that are not the weighted sample means: means_weight > 0 or 'm' not in params",
    "the scatter matrix is only right if the means were just set to the weighted sample means",
    '''
from hmmlearn import hmm
rs = np.random.RandomState(0); X = rs.randn(20, 2) + 1
m = hmm.GaussianHMM(1, covariance_type="full", init_params="", params="c", n_iter=1,
                    covars_prior=0, covars_weight=1)
m.startprob_ = np.ones(1); m.transmat_ = np.ones((1, 1)); m.means_ = np.full((1, 2), .5)
m.covars_ = np.eye(2)[None]
m.fit(X)
close(m.covars_[0], (X - .5).T @ (X - .5) / 20, "covars_")
''')

bug("C11-centered", "C11", [(H,
    "            m_d[(self.weights_ == 0) & (m_n == 0).all(axis=-1)] = 1\n"
    "            self.means_ = m_n / m_d[:, :, None]\n",
    "            m_d[(self.weights_ == 0) & (m_n == 0).all(axis=-1)] = 1\n"
    "            old_means, self.means_ = self.means_, m_n / m_d[:, :, None]\n"
    "        else:\n            old_means = self.means_\n"),
    (H, "            centered_means = self.means_ - mus\n",
     "            centered_means = (\n"
     "                old_means if self.covariance_type == 'tied' else self.means_) - mus\n")],
    "tied GMMHMM with means_weight > 0 and both means and covariances trained",
    "the prior term of tied mixture covariances uses the means of the previous iteration",
    '''
from hmmlearn import hmm
rs = np.random.RandomState(0); X = rs.randn(30, 2) + 1
def model(cv):
    m = hmm.GMMHMM(1, 1, covariance_type=cv, init_params="", n_iter=1, means_weight=3., means_prior=2.,
                   covars_prior=0., covars_weight=2.)
    m.startprob_ = np.ones(1); m.transmat_ = np.ones((1, 1)); m.weights_ = np.ones((1, 1))
    m.means_ = np.zeros((1, 1, 2)); m.covars_ = np.eye(2)[None] if cv == "tied" else np.eye(2)[None, None]
    return m.fit(X)
a = model("tied")
n = len(X); mean = (X.sum(axis=0) + 6.) / (n + 3)
c = X.T @ X + 3 * np.outer(mean - 2, mean - 2)
close(a.means_[0, 0], mean, "means_")
close(a.covars_[0], c / (n + 1 + 2. + 2 + 1), "covars_")
''')

bug("C13-normalize", "C13", [(B,
    "            self.transmat_ = np.where(self.transmat_ == 0, 0, transmat_)\n"
    "            normalize(self.transmat_, axis=1)\n",
    "            self.transmat_ = np.where(self.transmat_ == 0, 0, transmat_)\n"
    "        normalize(self.transmat_, axis=1)\n")],
    "'t' not in params, and a transition matrix whose rows do not sum to one exactly",
    "a transition matrix that is not trained is modified (in place, in the caller's array)",
    '''
from hmmlearn import hmm
A = np.array([[.3333333, .6666666], [.5, .5]])
m = hmm.CategoricalHMM(2, init_params="", params="se", n_iter=1)
m.startprob_ = np.array([.6, .4]); m.transmat_ = A.copy()
m.emissionprob_ = np.array([[.7, .3], [.2, .8]])
m.fit(np.array([[0], [1], [1], [1], [0]]))
check((m.transmat_ == A).all(), f"transmat_ changed by {m.transmat_ - A}")
''')

bug("C14-prior", "C14", [(B,
    "            self.transmat_ = np.where(self.transmat_ == 0, 0, transmat_)\n",
    "            # An explicit prior matrix tells which transitions are allowed.\n"
    "            if np.ndim(self.transmat_prior) == 2:\n"
    "                self.transmat_ = transmat_\n"
    "            else:\n"
    "                self.transmat_ = np.where(self.transmat_ == 0, 0, transmat_)\n")],
    "a full matrix transmat_prior with entries above one where transmat_ is zero",
    "forbidden transitions become allowed",
    '''
from hmmlearn import hmm
m = hmm.CategoricalHMM(2, init_params="", n_iter=3, transmat_prior=np.full((2, 2), 2.))
m.startprob_ = np.array([1., 0]); m.transmat_ = np.array([[.5, .5], [0, 1.]])
m.emissionprob_ = np.array([[.7, .3], [.2, .8]])
m.fit(np.array([[0], [1], [0], [1], [1], [0]]))
check(m.transmat_[1, 0] == 0, f"transmat_ {m.transmat_}")
''')

bug("C15-asymmetric", "C15", [(H,
    "                              - obsmean - obsmean.T\n",
    "                              - 2 * obsmean\n")],
    "full or tied covariances with means that are not the weighted sample means (means_weight > 0 with an unequal means_prior, or 'm' not in params)",
    "fitted covariances are not symmetric",
    '''
from hmmlearn import hmm
rs = np.random.RandomState(0); X = rs.randn(20, 2) * [1, 3] + [1, 5]
m = hmm.GaussianHMM(1, covariance_type="full", init_params="", params="c", n_iter=1)
m.startprob_ = np.ones(1); m.transmat_ = np.ones((1, 1)); m.means_ = np.array([[.3, -2.]])
m.covars_ = np.eye(2)[None]
c = m.fit(X).covars_[0]
close(c, c.T, "covars_ transposed")
''')

bug("C16-currstate", "C16", [(B,
    "        if currstate is None:\n            startprob_cdf",
    "        if not currstate:\n            startprob_cdf")],
    "sample() with currstate=0",
    "state 0 as current state is ignored",
    '''
from hmmlearn import hmm
m = hmm.CategoricalHMM(2, init_params="")
m.startprob_ = np.array([.1, .9]); m.transmat_ = np.array([[.5, .5], [.5, .5]])
m.emissionprob_ = np.array([[.7, .3], [.2, .8]])
for i in range(30):
    for k in (0, 1):
        check(m.sample(3, random_state=i, currstate=k)[1][0] == k, f"does not start in {k}")
''')

bug("C19-abs", "C19", [(B,
    "                 self.history[-1] - self.history[-2] < self.tol))",
    "                 abs(self.history[-1] - self.history[-2]) < self.tol))")],
    "a log-likelihood that decreases by more than tol, e.g. because of priors",
    "training goes on although the gain is below tol",
    '''
from hmmlearn.base import ConvergenceMonitor
from hmmlearn import hmm
m = ConvergenceMonitor(.1, 100, False)
m.report(-10.); m.report(-12.)
check(m.converged, "a decrease does not stop the training")
X = np.array([[0], [1], [0], [0], [1], [1], [0]])
m = hmm.CategoricalHMM(2, n_iter=50, tol=1e-3, init_params="", emissionprob_prior=50., transmat_prior=30.)
m.startprob_ = np.array([.6, .4]); m.transmat_ = np.array([[.1, .9], [.5, .5]])
m.emissionprob_ = np.array([[.9, .1], [.3, .7]])
m.fit(X)
h = np.array(m.monitor_.history)
d = np.diff(h)
check((d[:-1] >= 1e-3).all(), f"went on after gains {d}")
''')

bug("C22-beta", "C22", [(V,
    "        term3 = nf / self.beta_posterior_\n",
    "        term3 = 1 / self.beta_posterior_\n")],
    "a VariationalGaussianHMM with several features and states of different beta_posterior_",
    "the uncertainty of the means enters the expected log-likelihood as if there was one feature",
    '''
from hmmlearn import vhmm
from scipy.special import digamma
rs = np.random.RandomState(0); X = np.concatenate([rs.randn(3, 3), rs.randn(25, 3) + 2])
m = vhmm.VariationalGaussianHMM(2, covariance_type="full", random_state=0, n_iter=2, tol=-np.inf).fit(X)
b, dof, mu, W = [np.array(v, float) for v in (m.beta_posterior_, m.dof_posterior_, m.means_posterior_,
                                              m.scale_posterior_)]
lb = np.zeros((len(X), 2))
for k in range(2):
    d = X - mu[k]
    el = digamma((dof[k] - np.arange(3)) / 2).sum() + 3 * np.log(2) - np.linalg.slogdet(W[k])[1]
    lb[:, k] = .5 * (el - 3 / b[k] - dof[k] * (d * np.linalg.solve(W[k], d.T).T).sum(axis=1))
s = np.exp(digamma(m.startprob_posterior_) - digamma(m.startprob_posterior_.sum()))
A = np.exp(digamma(m.transmat_posterior_) - digamma(m.transmat_posterior_.sum(axis=1))[:, None])
_, g, xi = forward_backward(s, A, lb)
prior = m.transmat_prior_.copy()
m2 = vhmm.VariationalGaussianHMM(2, covariance_type="full", random_state=0, n_iter=3, tol=-np.inf).fit(X)
close(m2.beta_posterior_, m2.beta_prior_ + g.sum(axis=0), "beta_posterior_", 1e-6)
close(m2.transmat_posterior_, prior + xi, "transmat_posterior_", 1e-6)
''')

bug("C23-rows", "C23", [(B,
    "                self.transmat_posterior_[i], self.transmat_prior_[i])\n",
    "                self.transmat_posterior_[i], self.transmat_prior_[:, i])\n")],
    "a transition prior matrix that is not symmetric",
    "the lower bound uses columns instead of rows of the transition prior",
    '''
from hmmlearn import vhmm, _kl_divergence as kl
X = np.random.RandomState(0).randint(3, size=(30, 1))
P = np.array([[5., .2], [3., 1.]])
gaps = []
class M(vhmm.VariationalCategoricalHMM):
    def _compute_lower_bound(self, log_prob):
        v = super()._compute_lower_bound(log_prob)
        w = log_prob - kl.kl_dirichlet(self.startprob_posterior_, self.startprob_prior_)
        for i in range(2):
            w -= kl.kl_dirichlet(self.transmat_posterior_[i], self.transmat_prior_[i])
            w -= kl.kl_dirichlet(self.emissionprob_posterior_[i], self.emissionprob_prior_[i])
        gaps.append(v - w)
        return v
M(2, random_state=0, n_iter=5, tol=-np.inf, transmat_prior=P).fit(X)
close(gaps, np.full(len(gaps), gaps[0]), "recorded minus true bound", 1e-6)
''')

bug("C24-periodic", "C24", [(B,
    "        eigvec = np.real_if_close(eigvecs[:, np.argmax(eigvals)])\n",
    "        eigvec = np.real_if_close(eigvecs[:, np.argmax(np.abs(eigvals))])\n")],
    "a periodic chain, whose transition matrix has several eigenvalues of modulus one",
    "another eigenvector than the stationary one is used",
    '''
from hmmlearn import hmm
for A in ([[0, 1.], [1., 0]], [[0, 1., 0], [0, 0, 1.], [1., 0, 0]], [[0, .5, .5], [1., 0, 0], [1., 0, 0]],
          [[0, 1., 0, 0], [0, 0, 1., 0], [0, 0, 0, 1.], [1., 0, 0, 0]],
          [[0, 0, .3, .7], [0, 0, .6, .4], [.5, .5, 0, 0], [.1, .9, 0, 0]]):
    A = np.array(A)
    m = hmm.CategoricalHMM(len(A)); m.startprob_ = np.full(len(A), 1. / len(A)); m.transmat_ = A
    p = m.get_stationary_distribution()
    check(np.isrealobj(p) and np.isfinite(p).all() and (p >= -1e-12).all(), f"{p} for {A.tolist()}")
    close(p @ A, p, "invariance"); close(p.sum(), 1, "sum")
''')

bug("C26-zero", "C26", [(B,
    "            with np.errstate(divide=\"ignore\"):\n                return np.log(likelihood)\n",
    "            with np.errstate(divide=\"ignore\", under=\"ignore\"):\n"
    "                likelihood = np.maximum(likelihood, np.finfo(float).tiny)\n"
    "                return np.log(likelihood)\n")],
    "a model that only has _compute_likelihood, with zero probabilities, and implementation='log' or Viterbi decoding",
    "impossible emissions get a probability of 2e-308",
    '''
from hmmlearn import hmm
m = hmm.CategoricalHMM(2, init_params="")
m.startprob_ = np.array([1., 0]); m.transmat_ = np.array([[.5, .5], [0, 1.]])
m.emissionprob_ = np.array([[1., 0], [0, 1.]])
X = np.array([[0], [1], [0]])
check(m.score(X) == -np.inf, f"impossible data scores {m.score(X)}")
''')

bug("C27-shape", "C27", [(EXT,
    "  if (log_startprob.shape(0) != nc\n"
    "      || log_transmat.shape(0) != nc || log_transmat.shape(1) != nc) {\n"
    "    throw std::invalid_argument{\"shape mismatch\"};\n  }\n"
    "  auto state_sequence_",
    "  if (log_startprob.shape(0) > nc\n"
    "      || log_transmat.shape(0) > nc || log_transmat.shape(1) > nc) {\n"
    "    throw std::invalid_argument{\"shape mismatch\"};\n  }\n"
    "  auto state_sequence_")],
    "frame probabilities with more columns than the model has states (a custom emission model)",
    "Viterbi decoding reads beyond the start and transition probabilities",
    '''
from hmmlearn.base import BaseHMM
class M(BaseHMM):
    def _compute_log_likelihood(self, X):
        return np.zeros((len(X), self.n_components + 3))
m = M(2); m.startprob_ = np.array([.5, .5]); m.transmat_ = np.full((2, 2), .5)
try:
    m.decode(np.zeros((4, 1)), algorithm="viterbi")
except Exception:
    pass
else:
    check(False, "accepted")
''')

bug("C28-tied", "C28", [(ST,
    "    cv = np.broadcast_to(covars, (nc, nf, nf))\n",
    "    cv = np.broadcast_to(covars + 1e-7 * np.eye(nf), (nc, nf, nf))\n")],
    "tied covariances that are not large compared to 1e-7",
    "tied models score as if the covariance was larger than it is",
    '''
from hmmlearn import hmm
rs = np.random.RandomState(0); X = rs.randn(10, 2) * 1e-2
s = []
for cv in ("tied", "full"):
    m = hmm.GaussianHMM(2, covariance_type=cv)
    m.startprob_ = np.array([.6, .4]); m.transmat_ = np.array([[.9, .1], [.2, .8]])
    m.means_ = np.array([[0., 0], [.01, .01]])
    c = np.array([[2., 1], [1, 2]]) * 1e-4
    m.covars_ = c if cv == "tied" else np.array([c, c])
    s.append(m.score(X))
close(s[0], s[1], "score of the tied model")
''')

bug("C29-floor", "C29", [(ST,
    "    covars = np.maximum(covars, np.finfo(float).tiny)\n",
    "    covars = np.maximum(covars, np.finfo(float).eps)\n")],
    "diagonal or spherical variances below 2e-16, as of data in very small units",
    "log-likelihoods of data in very small units are wrong",
    '''
from hmmlearn import hmm
rs = np.random.RandomState(0); X = rs.randn(10, 2)
s = []
for u in (1., 1e-9):
    m = hmm.GaussianHMM(2, covariance_type="diag")
    m.startprob_ = np.array([.6, .4]); m.transmat_ = np.array([[.9, .1], [.2, .8]])
    m.means_ = np.array([[0., 0], [1., 1.]]) * u; m.covars_ = np.array([[1., 2.], [2., 1.]]) * u ** 2
    s.append(m.score(X * u) + X.size * np.log(u))
close(s[1], s[0], "score of rescaled data")
''')

bug("C30-cumsum", "C30", [(PU,
    "        cs = np.cumsum(lengths)\n",
    "        lengths = np.asarray(lengths)\n"
    "        cs = np.cumsum(lengths, dtype=lengths.dtype)\n")],
    "lengths given as an array of a small integer type, with more than 127 (255) samples",
    "the cumulated lengths overflow",
    '''
from hmmlearn import hmm
m = hmm.CategoricalHMM(2)
m.startprob_ = np.array([.6, .4]); m.transmat_ = np.array([[.9, .1], [.2, .8]])
m.emissionprob_ = np.array([[.7, .3], [.2, .8]])
X = np.random.RandomState(0).randint(2, size=(300, 1))
L = [100, 100, 100]
try:
    s = m.score(X, np.array(L, np.int8))
except Exception as e:
    check(False, e)
close(s, m.score(X, L), "score")
''')

bug("C31-static", "C31", [(EXT,
    "  auto buf = std::vector<double>(nc);\n"
    "  auto fwdlattice_ = py::array_t<double>{{ns, nc}};\n",
    "  static auto buf = std::vector<double>{};  // avoids allocations\n"
    "  if (static_cast<ssize_t>(buf.size()) < nc) {\n"
    "    buf.resize(nc);\n  }\n"
    "  auto fwdlattice_ = py::array_t<double>{{ns, nc}};\n")],
    "score() called from several threads at the same time",
    "concurrent calls share a buffer and return wrong results",
    '''
import threading
from hmmlearn import hmm
rs = np.random.RandomState(0)
m = hmm.CategoricalHMM(6)
m.startprob_ = np.full(6, 1. / 6); m.transmat_ = rs.dirichlet(np.ones(6), size=6)
m.emissionprob_ = rs.dirichlet(np.ones(4), size=6)
data = [rs.randint(4, size=(20000, 1)) for _ in range(4)]
want = [m.score(x) for x in data]
got = [[] for _ in data]
def work(i):
    for _ in range(15):
        got[i].append(m.score(data[i]))
ts = [threading.Thread(target=work, args=(i,)) for i in range(4)]
[t.start() for t in ts]; [t.join() for t in ts]
for g, w in zip(got, want):
    close(g, np.full(15, w), "concurrent scores")
''')

bug("C33-alias", "C33", [(H,
    "    def covars_(self, covars):\n        covars = np.array(covars, copy=True)\n",
    "    def covars_(self, covars):\n        covars = np.asarray(covars)\n")],
    "changing the array that was assigned to covars_ afterwards",
    "the model shares its covariances with the caller's array",
    '''
from hmmlearn import hmm
m = hmm.GaussianHMM(2, covariance_type="diag")
m.startprob_ = np.array([.6, .4]); m.transmat_ = np.array([[.9, .1], [.2, .8]])
m.means_ = np.array([[0., 0], [1., 1.]])
c = np.ones((2, 2)); m.covars_ = c
c[:] = 50.
close(m.covars_, np.array([np.eye(2)] * 2), "covars_")
''')

bug("C33-indefinite", "C33", [(PU,
    "        elif (not np.allclose(covars, covars.T)\n"
    "              or np.any(linalg.eigvalsh(covars) <= 0)):\n"
    "            raise ValueError(\"'tied' covars must be symmetric, \"",
    "        elif (not np.allclose(covars, covars.T)\n"
    "              or np.any(np.diag(covars) <= 0)):\n"
    "            raise ValueError(\"'tied' covars must be symmetric, \"")],
    "an indefinite matrix with positive diagonal assigned to tied covars_",
    "indefinite tied covariances are accepted",
    '''
from hmmlearn import hmm
m = hmm.GaussianHMM(2, covariance_type="tied")
try:
    m.covars_ = np.array([[1., 3.], [3., 1.]])
    check(False, "accepted")
except ValueError:
    pass
''')
