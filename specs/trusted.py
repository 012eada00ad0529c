"""What each proof rests on (reported in the evidence)."""
ENGINE = ["rsv engine (normal-form equality prover, loop-invariant generator, path explorer) and z3 4.x for index / order obligations",
          "instrumentation of the source by rsv/loader.py: loops, comprehensions, division, power and comparisons are routed to the engine; annotations dropped; nothing else changed",
          "CPython semantics of the instrumented code"]
NUMPY = "assumed contracts of numpy / numpy.linalg (rsv/npshim.py, rsv/ten.py): elementwise arithmetic, indexing, broadcasting, einsum, eigh, inv, solve, det, slogdet, norm, reductions, reshaping"
SCIPY = "assumed contracts of scipy.linalg (sqrtm, pinvh, logm, expm, toeplitz) on Hermitian positive-definite arguments (rsv/shims.py)"
STATS = "scipy.stats._multivariate source executed symbolically; _PSD, gammaln, chi2.ppf assumed (rsv/shims.py); chi2.cdf uninterpreted"
SKL = "sklearn.covariance.EmpiricalCovariance source executed symbolically; check_array, BaseEstimator, TransformerMixin assumed (rsv/shims.py)"
PYM = "pymanopt Product and Manifold sources executed symbolically; Problem and solvers assumed: solve returns an arbitrary point of the manifold"
REALS = "floating-point numbers are treated as exact real / complex numbers: rounding, overflow and NaN are outside the proof"
SUP = {
    "C03": [STATS], "C04": [STATS], "C05": [SCIPY], "C06": [SCIPY], "C08": [], "C09": [STATS], "C10": [STATS], "C11": [SKL], "C12": [SKL, SCIPY, STATS, PYM], "C13": [SKL, "joblib.Parallel contract: results in task order"],
    "C14": [SKL, SCIPY], "C16": [PYM], "C17": [PYM, SCIPY], "C18": [PYM, SCIPY], "C19": [PYM], "C20": [PYM], "C22": [PYM, "autograd.grad(f) assumed to be the gradient of f"], "C23": [SCIPY], "C24": [PYM, SKL],
    "C25": [SKL, STATS], "C27": ["numpy.random.seed / get_state / set_state contract"], "C28": [SCIPY, "scipy.stats ortho_group / unitary_group: orthogonal / unitary Haar draws"],
}
EXTRA = {}


def info(cid):
    return {"trusted": ENGINE + [NUMPY] + SUP.get(cid, []), "assumptions": [REALS] + EXTRA.get(cid, [])}
