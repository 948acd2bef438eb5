import numpy as np
from sklearn.base import BaseEstimator

#: every fit performed, for the harness: (class name, X copy, y copy, keyword arguments)
FITS = []


class _LeastSquares(BaseEstimator):
    def __init__(self, fit_intercept=True, **kwargs):
        self.fit_intercept = fit_intercept
        self.kwargs = kwargs

    def fit(self, X, y, sample_weight=None):
        X = np.asarray(X, dtype=float)
        y = np.asarray(y, dtype=float)
        if X.ndim != 2 or y.ndim != 1 or X.shape[0] != y.shape[0]:
            raise ValueError(f"Inconsistent shapes {X.shape}, {y.shape}")
        FITS.append((type(self).__name__, X.copy(), y.copy(), dict(self.kwargs)))
        A, b = X, y
        w = None if sample_weight is None else np.asarray(sample_weight, dtype=float)
        mx, my = np.zeros(X.shape[1]), 0.0
        if self.fit_intercept:  # as scikit-learn does: the centred system
            mx, my = np.average(X, axis=0, weights=w), np.average(y, weights=w)
            A, b = X - mx, y - my
        if w is not None:
            A, b = A * np.sqrt(w)[:, None], b * np.sqrt(w)
        self.coef_ = np.linalg.lstsq(A, b, rcond=None)[0]
        self.intercept_ = my - mx @ self.coef_ if self.fit_intercept else 0.0
        return self

    def predict(self, X):
        return np.asarray(X, dtype=float) @ self.coef_ + self.intercept_


class LinearRegression(_LeastSquares):
    pass


class HuberRegressor(_LeastSquares):
    pass


class TheilSenRegressor(_LeastSquares):
    pass


class RANSACRegressor(BaseEstimator):
    def __init__(self, estimator=None, **kwargs):
        self.estimator = estimator
        self.kwargs = kwargs

    def fit(self, X, y, sample_weight=None):
        self.estimator_ = self.estimator.fit(X, y, sample_weight=sample_weight)
        return self

    def predict(self, X):
        return self.estimator_.predict(X)
