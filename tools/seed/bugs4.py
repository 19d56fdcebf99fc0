"""Planted bugs, fourth batch."""
from bugs import B, H, V, EM, ST, UT, PU, KL, EXT
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append((id, prop, edits, needs, breaks, demo))


bug("C13-meansprior", "C13", [(V,
    '        if (self._needs_init("m", "means_prior_")\n'
    '                or self._needs_init("m", "means_posterior_")\n',
    '        if (self._needs_init("m", "means_posterior_")\n')],
    "a VariationalGaussianHMM whose means_posterior_, beta_prior_ and "
    "beta_posterior_ are set, but not means_prior_, fitted without 'm' in init_params",
    "the missing prior is not initialized and fit() fails",
    '''
from hmmlearn import vhmm
X = np.random.RandomState(0).randn(60, 2)
X[30:] += 8
m = vhmm.VariationalGaussianHMM(2, init_params="stc", n_iter=2, random_state=1)
m.means_posterior_ = np.array([[0., 0.], [8., 8.]])
m.beta_prior_ = np.ones(2); m.beta_posterior_ = np.full(2, 30.)
m.fit(X)
assert np.isfinite(m.means_prior_).all()
''')

bug("C31-sticky", "C31", [(B,
    "        algorithm = algorithm or self.algorithm\n",
    "        algorithm = self.algorithm = algorithm or self.algorithm\n")],
    "decode() asked for another algorithm than the model's own, then predict()",
    "the algorithm of one call becomes the model's own for all later ones",
    '''
from hmmlearn import hmm
m = hmm.CategoricalHMM(3, init_params="")
rs = np.random.RandomState(3)
m.startprob_ = rs.dirichlet(np.ones(3)); m.transmat_ = rs.dirichlet(np.full(3, .4), size=3)
m.emissionprob_ = rs.dirichlet(np.ones(4), size=3)
X = rs.randint(4, size=(200, 1))
before = m.predict(X)
m.decode(X, algorithm="map")
assert (m.predict(X) == before).all(), "predict() changed"
''')

bug("C21-digamma", "C21", [(B,
    "            special.digamma(self.transmat_posterior_)\n",
    "            np.where(self.transmat_posterior_ > 100,\n"
    "                     np.log(self.transmat_posterior_)\n"
    "                     - .5 / self.transmat_posterior_,\n"
    "                     special.digamma(self.transmat_posterior_))\n")],
    "transition counts or priors above 100",
    "the digamma function of large arguments is approximated to five digits",
    '''
from scipy.special import digamma
from hmmlearn import vhmm
m = vhmm.VariationalCategoricalHMM(2, init_params="", params="", n_iter=1)
m.startprob_prior_ = np.ones(2); m.startprob_posterior_ = np.ones(2)
m.transmat_prior_ = np.ones((2, 2)); m.transmat_posterior_ = np.array([[101., 400.], [2., 300.]])
m.emissionprob_prior_ = np.ones((2, 2)); m.emissionprob_posterior_ = np.ones((2, 2))
m.fit(np.array([[0], [1], [1]]))
q = m.transmat_posterior_
close(m.transmat_subnorm_, np.exp(digamma(q) - digamma(q.sum(axis=1))[:, None]),
      "expected log transition probabilities", 1e-9)
''')

bug("C11-chunks", "C11", [(EM,
    "                c_n = np.einsum('ijk,ijkl->jkl', post_comp_mix, centered2)",
    "                c_n = sum(\n"
    "                    np.einsum('ijk,ijkl->jkl', post_comp_mix[s:s + 128],\n"
    "                              centered2[s:s + 128])\n"
    "                    for s in range(0, max(1, n_samples - 1), 128))")],
    "diagonal covariances and a sequence of 128 k + 1 frames",
    "the last frame is left out of the covariance statistics",
    '''
from hmmlearn import hmm
for n in (128, 129):
    X = np.random.RandomState(0).randn(n, 2)
    X[-1] = 20
    m = hmm.GMMHMM(1, 1, covariance_type="diag", n_iter=1, params="c", init_params="")
    m.startprob_ = np.ones(1); m.transmat_ = np.ones((1, 1)); m.weights_ = np.ones((1, 1))
    m.means_ = np.zeros((1, 1, 2)); m.covars_ = np.ones((1, 1, 2))
    m.fit(X)
    close(m.covars_[0, 0], (X ** 2).mean(axis=0), f"variance of {n} frames", 1e-6)
''')

bug("C25-singular", "C25", [(PU,
    "              or np.any(linalg.eigvalsh(covars) <= 0)):",
    "              or np.any(linalg.eigvalsh(covars) < 0)):")],
    "a tied covariance matrix that is singular, but not indefinite",
    "a degenerate covariance matrix is accepted and silently regularized",
    '''
from hmmlearn import hmm
for bad in (np.diag([1., 0.]), np.zeros((2, 2))):
    m = hmm.GaussianHMM(2, covariance_type="tied", init_params="")
    m.startprob_ = np.array([.5, .5]); m.transmat_ = np.full((2, 2), .5)
    m.means_ = np.zeros((2, 2))
    try:
        m.covars_ = bad
        r = m.score(np.zeros((3, 2)))
    except ValueError:
        continue
    raise SystemExit(f"a singular covariance matrix was accepted: score {r}")
''')


bug("C24-cached", "C24", [(B,
    '        check_is_fitted(self, "transmat_")\n'
    "        eigvals, eigvecs = linalg.eig(self.transmat_.T)\n"
    "        eigvec = np.real_if_close(eigvecs[:, np.argmax(eigvals)])\n"
    "        return eigvec / eigvec.sum()\n",
    '        check_is_fitted(self, "transmat_")\n'
    '        owner, found = getattr(self, "_stationary", (None, None))\n'
    "        if owner is not self.transmat_:\n"
    "            eigvals, eigvecs = linalg.eig(self.transmat_.T)\n"
    "            eigvec = np.real_if_close(eigvecs[:, np.argmax(eigvals)])\n"
    "            found = eigvec / eigvec.sum()\n"
    "            self._stationary = self.transmat_, found\n"
    "        return found\n")],
    "transmat_ changed in place (entry by entry) between two calls",
    "the stationary distribution of the transitions before the change is returned",
    """
from hmmlearn import hmm
m = hmm.CategoricalHMM(2)
m.startprob_ = np.array([.5, .5]); m.transmat_ = np.array([[.9, .1], [.1, .9]])
close(m.get_stationary_distribution(), np.array([.5, .5]), "stationary distribution")
m.transmat_[0] = [.7, .3]
close(m.get_stationary_distribution(), np.array([.25, .75]), "stationary distribution after a change")
""")
