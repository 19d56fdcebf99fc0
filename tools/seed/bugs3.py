"""Planted bugs, third batch."""
from bugs import B, H, V, EM, ST, UT, PU, KL, EXT
from bugs2 import CAT
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append((id, prop, edits, needs, breaks, demo))


bug("C01-poisson", "C01", [(EM,
    "            logprobs[:, c] = poisson.logpmf(X, self.lambdas_[c]).sum(axis=1)\n",
    "            logprobs[:, c] = poisson.logpmf(\n"
    "                np.minimum(X, 1 << 20), self.lambdas_[c]).sum(axis=1)\n")],
    "counts above 2**20 in a PoissonHMM",
    "large counts are scored as if they were 2**20",
    '''
from scipy.stats import poisson
from hmmlearn import hmm
for big in (1 << 19, 1 << 22):
    m = hmm.PoissonHMM(1, init_params="")
    m.startprob_ = np.ones(1); m.transmat_ = np.ones((1, 1)); m.lambdas_ = np.array([[float(big)]])
    X = np.array([[big], [big + 100]])
    close(m.score(X), poisson.logpmf(X, big).sum(), f"score of counts around {big}")
''')

bug("C01-short", "C01", [(EXT,
    """    for (auto t = 1; t < ns; ++t) {
      for (auto j = 0; j < nc; ++j) {
        for (auto i = 0; i < nc; ++i) {
          buf[i] = fwd(t - 1, i) + log_transmat(i, j);""",
    """    for (unsigned short t = 1; t < std::min<ssize_t>(ns, 65535); ++t) {
      for (auto j = 0; j < nc; ++j) {
        for (auto i = 0; i < nc; ++i) {
          buf[i] = fwd(t - 1, i) + log_transmat(i, j);""")],
    "a single sequence of more than 65535 frames",
    "the forward lattice of the rest of the sequence is never computed",
    CAT + '''
m = cat(2, 3, seed=1)
X = np.random.RandomState(0).randint(3, size=(70000, 1))
close(m.score(X), ref(m, X)[0][0], "score of a long sequence", 1e-9)
''')

bug("C03-char", "C03", [(EXT,
    """        auto max = -std::numeric_limits<double>::infinity();
        for (auto j = 0; j < nc; ++j) {
          max = std::max(max, viterbi_lattice""",
    """        auto max = -std::numeric_limits<double>::infinity();
        for (signed char j = 0; j < std::min<ssize_t>(nc, 127); ++j) {
          max = std::max(max, viterbi_lattice""")],
    "more than 127 states, the best predecessor being one of the last",
    "predecessors beyond the 127th state are not considered",
    '''
from hmmlearn import hmm
rs = np.random.RandomState(0)
K = 150
m = hmm.CategoricalHMM(K, init_params="")
m.startprob_ = rs.dirichlet(np.ones(K)); m.transmat_ = rs.dirichlet(np.full(K, .1), size=K)
m.emissionprob_ = rs.dirichlet(np.ones(3), size=K)
for s in range(5):
    X = rs.randint(3, size=(6, 1))
    lp, z = m.decode(X, algorithm="viterbi")
    close(lp, viterbi(m.startprob_, m.transmat_, log(m.emissionprob_[:, X[:, 0]].T)), "log_prob")
''')

bug("C06-deque", "C06", [(B,
    "        log_prob = 0\n        sub_posteriors = [np.empty((0, self.n_components))]\n"
    "        for sub_X in _utils.split_X_lengths(X, lengths):\n            log_frameprob",
    "        log_prob = 0\n        sub_posteriors = deque([np.empty((0, self.n_components))], 101)\n"
    "        for sub_X in _utils.split_X_lengths(X, lengths):\n            log_frameprob")],
    "more than 100 sequences",
    "posteriors of the first sequences are dropped",
    CAT + '''
m = cat(2, 3, seed=1)
L = [2, 1, 3] * 40
X = np.random.RandomState(0).randint(3, size=(sum(L), 1))
close(m.predict_proba(X, L), np.concatenate([r[1] for r in ref(m, X, L)]), "posteriors")
''')

bug("C09-rare", "C09", [(EM,
    "            np.add.at(stats['obs'].T, X.squeeze(1), posteriors)",
    "            for s in np.unique(X[:100]):\n"
    "                stats['obs'][:, s] += posteriors[X[:, 0] == s].sum(axis=0)")],
    "a symbol that first appears after 100 frames of a sequence",
    "the counts of the symbol are lost",
    CAT + '''
m = cat(2, 4, seed=1, params="e", n_iter=1)
X = np.random.RandomState(0).randint(3, size=(150, 1)); X[120:125] = 3
g = ref(m, X)[0][1]
want = np.stack([g[X[:, 0] == s].sum(axis=0) for s in range(4)], axis=1)
m.fit(X)
close(m.emissionprob_, want / want.sum(axis=1, keepdims=True), "emissionprob_")
''')

bug("C11-used", "C11", [(H,
    "                c_d = (stats['post_sum'] + nm + nus + nf + 1)[:, None, None]",
    "                n_used = (self.weights_ > 0).sum(axis=1)\n"
    "                c_d = (stats['post_sum'] + n_used + nus + nf + 1)[:, None, None]")],
    "tied covariances, the default prior, and a component of zero weight",
    "the prior of unused components does not cancel",
    '''
from hmmlearn import hmm
rs = np.random.RandomState(0)
X = rs.randn(40, 1)
m = hmm.GMMHMM(1, 2, covariance_type="tied", init_params="", params="c", n_iter=1)
m.startprob_ = np.ones(1); m.transmat_ = np.ones((1, 1)); m.weights_ = np.array([[1., 0]])
m.means_ = np.array([[[.5], [60.]]]); m.covars_ = np.array([[[2.]]])
m.fit(X)
close(m.covars_[0, 0, 0], ((X - .5) ** 2).mean(), "covars_")
''')

bug("C16-cdf", "C16", [(EM,
    "        return [(cdf > random_state.rand()).argmax()]",
    "        return [(cdf > random_state.rand() + 1e-9).argmax()]")],
    "a random number within 1e-9 of one",
    "the first symbol is emitted although its probability is zero",
    '''
from hmmlearn import hmm
class Edge(np.random.RandomState):
    def rand(self, *a):
        return 1 - 2.**-40
m = hmm.CategoricalHMM(1)
m.startprob_ = np.ones(1); m.transmat_ = np.ones((1, 1)); m.emissionprob_ = np.array([[0, .5, .5]])
X, z = m.sample(20, random_state=Edge(0))
check(m.emissionprob_[0, X].min() > 0, "an impossible symbol was sampled")
''')

bug("C19-window", "C19", [(B,
    "        self.history = deque()\n",
    "        self.history = deque(maxlen=1000)\n")],
    "more than 1000 iterations",
    "the first values of the history are dropped",
    '''
from hmmlearn import hmm
m = hmm.PoissonHMM(1, n_iter=1200, tol=-np.inf, random_state=0)
m.fit(np.array([[1], [2], [3]]))
check(len(m.monitor_.history) == 1200, f"{len(m.monitor_.history)} values after 1200 iterations")
''')

bug("C31-emission", "C31", [(EM,
    "        return self.emissionprob_[:, X.squeeze(1)].T",
    "        if getattr(self, '_rows', (None,))[0] is not self.emissionprob_:\n"
    "            self._rows = (self.emissionprob_, self.emissionprob_.T.copy())\n"
    "        return self._rows[1][X.squeeze(1)]")],
    "emissionprob_ changed in place between two queries",
    "the earlier emission probabilities are used",
    CAT + '''
m = cat(2, 3, seed=1)
X = np.random.RandomState(0).randint(3, size=(9, 1))
for s in range(3):
    m.emissionprob_[:] = np.random.RandomState(s).dirichlet(np.ones(3), size=2)
    close(m.score(X), ref(m, X)[0][0], "score")
''')
