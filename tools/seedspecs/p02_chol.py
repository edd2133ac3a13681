ID = "P02-covariance-transposed"
PROP = "P02"
EDITS = [("enterprise/signals/parameter.py", """        return np.random.multivariate_normal(mu, sigma)
""", """        # faster than numpy's generator, which factors by SVD
        return mu + np.dot(np.random.randn(len(sigma)), np.linalg.cholesky(sigma))
""")]
NEEDS = "a vector normal parameter with a covariance matrix that is not diagonal"
BREAKS = "draws have covariance L^T L in place of L L^T"
DEMO = """
from demolib import *
from enterprise.signals import parameter
S = np.array([[4.0, 1.5], [1.5, 1.0]])
q = parameter.Normal(np.zeros(2), S, size=2)("q")
np.random.seed(1)
x = np.array([q.sample() for i in range(4000)])
check(np.allclose(np.cov(x.T), S, atol=0.5), np.cov(x.T))
"""
