class BaseEstimator:
    """Minimal counterpart of sklearn.base.BaseEstimator"""
