import numpy as np


class RobustScaler:
    def fit_transform(self, X):
        X = np.asarray(X, dtype=float)
        centre = np.median(X, axis=0)
        q = np.percentile(X, [25, 75], axis=0)
        scale = q[1] - q[0]
        scale = np.where(scale <= 10 * np.finfo(float).eps, 1.0, scale)
        return (X - centre) / scale
