"""Stand-in for scikit-learn, which cannot be installed in this sandbox.

Only what resistics imports: an abstract estimator and deterministic
least-squares estimators with scikit-learn's calling conventions.  It lets the
modules of resistics that import scikit-learn at their top be loaded, and gives
the solvers an estimator whose solution of a *consistent* system is the exact
one, as any of scikit-learn's would be.
"""
__version__ = "0.0.stub"
STUB = True
