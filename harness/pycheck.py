"""C29: the Python module against NumPy models, against the C++ classes and against itself."""
import copy, gc, os, pickle, sys, types, weakref
import numpy as np
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pyengine import sub, Discard, main  # noqa: E402

np.seterr(all="ignore")
try:
    import proxsuite_nlp as P
    import pinocchio as pin
    import vp_poly as VP
    from proxsuite_nlp import autodiff, constraints, costs, helpers, manifolds, residuals
except Exception as e:  # every case then fails with this
    IMPORT_ERROR = e
else:
    IMPORT_ERROR = None


def start():
    if IMPORT_ERROR is not None:
        raise AssertionError("the module cannot be imported: %r" % (IMPORT_ERROR,))


def same(a, b, what, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    assert a.shape == b.shape, "%s: shape %s instead of %s" % (what, a.shape, b.shape)
    known = ~np.isnan(b)  # the model leaves the other entries open
    a, b = a[known], b[known]
    if a.size == 0:
        return
    s = 1.0 + np.max(np.abs(b))
    d = np.max(np.abs(a - b)) if np.all(np.isfinite(a)) else np.inf
    assert d <= tol * s, "%s: %s instead of %s" % (what, a.tolist(), b.tolist())


def identical(a, b, what):
    a, b = np.asarray(a), np.asarray(b)
    assert a.shape == b.shape and (a == b).all(), "%s: %s and %s" % (what, a.tolist(), b.tolist())


def churn():
    """Free what is not referenced and reuse its memory."""
    gc.collect()
    return [np.full(n, 1e300) for n in (1, 2, 3, 4, 6, 9, 12, 16, 25, 36, 64)] + [bytes(64 + 16 * i) for i in range(24)]


def out_array(t, r, c=None):
    """A writable array filled with rubbish, with one of the layouts NumPy has."""
    if c is None:
        k = t.int(0, 2)
        if k == 0:
            return np.full(r, 7.5)
        if k == 1:
            return np.full(2 * r + 3, 7.5)[1:1 + r]
        return np.full((r, 3), 7.5)[:, 1]  # strided
    k = t.int(0, 3)
    if k == 0:
        return np.full((r, c), 7.5, order="F")
    if k == 1:
        return np.full((r, c), 7.5)
    if k == 2:
        return np.full((r + 2, c + 2), 7.5, order="F")[1:1 + r, 1:1 + c]
    return np.full((r + 2, c + 2), 7.5)[1:1 + r, 1:1 + c]


def in_array(t, x):
    """The same values with another layout."""
    x = np.asarray(x, dtype=float)
    k = t.int(0, 3)
    if x.ndim == 1:
        if k == 1:
            y = np.zeros((x.size, 2))
            y[:, 0] = x
            return y[:, 0]
        if k == 2:
            y = np.zeros(x.size + 2)
            y[1:1 + x.size] = x
            return y[1:1 + x.size]
        if k == 3:
            y = x.copy()
            y.flags.writeable = False
            return y
        return x
    if k == 1:
        return np.asfortranarray(x)
    if k == 2:
        y = np.zeros((x.shape[0] + 1, x.shape[1] + 2))
        y[1:, 1:-1] = x
        return y[1:, 1:-1]
    return x


class Marker(Exception):
    pass


# ---------------------------------------------------------------- functions
def model_linear(A, b):
    return dict(r=lambda x: A @ x + b, J=lambda x: A, H=lambda x, v: np.zeros((A.shape[1],) * 2), nx=A.shape[1],
                nr=A.shape[0])


def model_quad(Q, A, b):
    n = A.shape[1]
    return dict(r=lambda x: np.array([0.5 * x @ q @ x for q in Q]) + A @ x + b,
                J=lambda x: np.array([q @ x for q in Q]).reshape(A.shape) + A,
                H=lambda x, v: sum((vi * q for vi, q in zip(v, Q)), np.zeros((n, n))), nx=n, nr=A.shape[0])


def model_shift(f, d):
    return dict(f, r=lambda x: f["r"](x) + d)


def model_compose(f, g):
    # a composition need not have the second derivatives
    return dict(r=lambda x: f["r"](g["r"](x)), J=lambda x: f["J"](g["r"](x)) @ g["J"](x),
                H=lambda x, v: np.full((g["nx"],) * 2, np.nan), nx=g["nx"], nr=f["nr"])


def classes():
    """Python classes derived from the module's (made after the import)."""
    if hasattr(classes, "c"):
        return classes.c

    class PyFun(P.C2Function):
        """A function given by NumPy code."""

        def __init__(self, m, space=None, as_list=False):
            if space is None:
                super().__init__(m["nx"], m["nx"], m["nr"])
            else:
                super().__init__(space, m["nr"])
            self.m = m

        def __call__(self, x):
            return self.m["r"](x)

        def computeJacobian(self, x, J):
            J[:] = self.m["J"](x)

        def vectorHessianProduct(self, x, v, H):
            H[:] = self.m["H"](x, v)

    class PyFlat(P.C2Function):
        """Leaves the product with the Hessian to the base class."""

        def __init__(self, m):
            super().__init__(m["nx"], m["nx"], m["nr"])
            self.m = m

        def __call__(self, x):
            return self.m["r"](x)

        def computeJacobian(self, x, J):
            J[:] = self.m["J"](x)

    class Twin(P.C2Function):
        """Forwards to another function object."""

        def __init__(self, f):
            super().__init__(f.nx, f.ndx, f.nr)
            self.f = f

        def __call__(self, x):
            return self.f(x)

        def computeJacobian(self, x, J):
            J[:] = self.f.getJacobian(x)

        def vectorHessianProduct(self, x, v, H):
            H[:] = self.f.getVHP(x, v)

    base_cost = P.costs.CostFunctionBase

    class TwinCost(P.costs.CostFunctionBase):
        def __init__(self, f, space=None):
            if space is None:
                super().__init__(f.nx, f.ndx)
            else:
                super().__init__(space)
            self.f = f

        def call(self, x):
            return self.f.call(x)

        def computeGradient(self, x, g):
            g[:] = base_cost.computeGradient(self.f, x)

        def computeHessian(self, x, H):
            H[:] = base_cost.computeHessian(self.f, x)

    class PyC0(P.BaseFunction):
        def __init__(self, m):
            super().__init__(m["nx"], m["nx"], m["nr"])
            self.m = m

        def __call__(self, x):
            return self.m["r"](x)

    class PyC1(P.C1Function):
        def __init__(self, m):
            super().__init__(m["nx"], m["nx"], m["nr"])
            self.m = m

        def __call__(self, x):
            return self.m["r"](x)

        def computeJacobian(self, x, J):
            J[:] = self.m["J"](x)

    class PyCost(P.costs.CostFunctionBase):
        """0.5 x'Qx + b'x + c"""

        def __init__(self, Q, b, c, space=None):
            if space is None:
                super().__init__(b.size, b.size)
            else:
                super().__init__(space)
            self.Q, self.b, self.c = Q, b, c

        def call(self, x):
            return 0.5 * x @ self.Q @ x + self.b @ x + self.c

        def computeGradient(self, x, g):
            g[:] = 0.5 * (self.Q + self.Q.T) @ x + self.b

        def computeHessian(self, x, H):
            H[:] = 0.5 * (self.Q + self.Q.T)

    class Recorder(P.helpers.BaseCallback):
        def __init__(self, log, name, fail_at=None):
            super().__init__()
            self.log, self.name, self.fail_at, self.n = log, name, fail_at, 0

        def call(self, w, r):
            self.n += 1
            if self.n == self.fail_at:
                raise Marker(self.name)
            self.log.append((self.name, np.array(r.xopt), np.array(r.data_lamsopt), r.value, r.prim_infeas,
                             r.dual_infeas, w.alpha_opt, np.array(w.kkt_matrix), np.array(w.pd_step), w.dmerit_dir))

    classes.c = types.SimpleNamespace(**{k: v for k, v in locals().items()})
    return classes.c


def gen_fun(t, n, depth=2, nr=None, native=True):
    """A function object on R^n with its model."""
    C = classes()
    nr = nr or t.int(1, 3)
    k = t.int(0, 5 if depth else 4)
    A, b = t.mat(nr, n), t.vec(nr)
    if k == 0:
        return residuals.LinearFunction(in_array(t, A), b), model_linear(A, b)
    if k == 1:
        Q = [0.3 * (M + M.T) for M in (t.mat(n, n) for _ in range(nr))]
        m = model_quad(Q, A, b)
        return C.PyFun(m, manifolds.VectorSpace(n) if t.bool() else None), m
    if k == 2:
        tg = t.vec(n)
        if nr != n:
            return residuals.LinearFunctionDifferenceToPoint(manifolds.VectorSpace(n), tg, in_array(t, A), b), \
                model_linear(A, b - A @ tg)
        return residuals.ManifoldDifferenceToPoint(manifolds.VectorSpace(n), tg), model_linear(np.eye(n), -tg)
    if k == 3:
        f, m = gen_fun(t, n, 0, nr)
        return C.Twin(f), m
    if k == 4:
        m = model_linear(A, b)
        return C.PyFlat(m), m
    g, mg = gen_fun(t, n, depth - 1)
    f, mf = gen_fun(t, mg["nr"], depth - 1, nr)
    how = t.int(0, 2)
    h = f @ g if how == 0 else P.compose(f, g) if how == 1 else residual_compose(f, g)
    return h, model_compose(mf, mg)


def residual_compose(f, g):
    return P.ComposeFunction(f, g)


@sub("C29", "functions", "the function has an input of dimension two or more", 36000, 360000)
def functions(t):
    start()
    n = t.int(1, 4)
    f, m = gen_fun(t, n)
    junk = churn() if t.bool(0.05) else None
    t.nontrivial = n > 1
    t.note("n=%d nr=%d %s" % (n, m["nr"], type(f).__name__))
    t.label(type(f).__name__)
    assert (f.nx, f.ndx, f.nr) == (n, n, m["nr"]), "dimensions %s" % ((f.nx, f.ndx, f.nr),)
    for _ in range(t.int(1, 2)):
        x, v = t.vec(n), t.vec(m["nr"])
        same(f(in_array(t, x)), m["r"](x), "value")
        same(f.getJacobian(in_array(t, x)), m["J"](x), "getJacobian")
        same(f.getVHP(in_array(t, x), in_array(t, v)), m["H"](x, v), "getVHP")
        J, H = out_array(t, m["nr"], n), out_array(t, n, n)
        guard = J.base.copy() if J.base is not None else None
        f.computeJacobian(x, J)
        same(J, m["J"](x), "computeJacobian")
        if guard is not None:
            J[:] = 7.5
            assert (J.base == guard).all(), "computeJacobian wrote outside of its argument"
        f.vectorHessianProduct(in_array(t, x), v, H)
        same(H, m["H"](x, v), "vectorHessianProduct")
    del junk
    if t.bool(0.2):
        mk, cls = t.pick([(constraints.createEqualityConstraint, constraints.EqualityConstraintSet),
                          (constraints.createInequalityConstraint, constraints.NegativeOrthant)])
        c = mk(f)
        assert type(c.set) is cls and c.nr == f.nr, "a constraint made from a function"
        same(c.func(x), m["r"](x), "function of a constraint")
        del c
    # what the returned objects refer to
    if isinstance(f, P.ComposeFunction):
        l, r = f.left, f.right
        assert l.nr == f.nr and r.nx == f.nx and l.nx == r.nr, "parts of a composition"
        x = t.vec(n)
        want = f(x)
        del f
        keep = churn()
        same(l(r(x)), want, "composition of the parts")
        del keep


@sub("C29", "linear", "a matrix or a vector of the function was changed", 18000, 180000)
def linear(t):
    start()
    n, nr = t.int(1, 4), t.int(1, 4)
    A, b = t.mat(nr, n), t.vec(nr)
    if t.bool():
        f = residuals.LinearFunction(A, b)
    else:
        f, b = residuals.LinearFunction(A), np.zeros(nr)
    A2, b2 = A.copy(), b.copy()
    for _ in range(t.int(1, 4)):
        k = t.int(0, 4)
        if k == 0:
            A2 = t.mat(nr, n)
            f.A = A2
            t.nontrivial = True
        elif k == 1:
            b2 = t.vec(nr)
            f.b = b2
            t.nontrivial = True
        elif k == 2:  # the arrays given to the constructor are not kept
            A[:], b[:] = 5.0, 3.0
        elif k == 3:
            if n > 0:
                i, j, z = t.int(0, nr - 1), t.int(0, n - 1), t.real()
                f.A[i, j] = z
                A2 = A2.copy()
                A2[i, j] = z
        same(f.A, A2, "A"), same(f.b, b2, "b")
        x = t.vec(n)
        same(f(x), A2 @ x + b2, "value")
        same(f.getJacobian(x), A2, "Jacobian")
    t.note("n=%d nr=%d" % (n, nr))
    V = manifolds.VectorSpace(n)
    tg = t.vec(n)
    d = residuals.ManifoldDifferenceToPoint(V, tg)
    tg0 = tg.copy()
    tg[:] = 99.0
    same(d.target, tg0, "target")
    x = t.vec(n)
    same(d(x), x - tg0, "difference")
    g = d.target
    del d, V
    keep = churn()
    same(g, tg0, "target after its owner went away")
    del keep


@sub("C29", "finite_diff", "the function has an input of dimension two or more", 12000, 120000)
def finite_diff(t):
    start()
    C = classes()
    n, nr = t.int(1, 3), t.int(1, 3)
    Q = [0.3 * (M + M.T) for M in (t.mat(n, n) for _ in range(nr))]
    m = model_quad(Q, t.mat(nr, n), t.vec(nr))
    eps = t.pick([1e-4, 1e-5, 1e-3])
    V = manifolds.VectorSpace(n)
    base = t.int(0, 2)
    c1 = C.PyC1(m) if base == 0 else C.PyFun(m) if base == 1 else \
        autodiff.FiniteDifferenceHelper(V, C.PyC0(m) if t.bool() else C.PyC1(m), eps)
    f = autodiff.FiniteDifferenceHelperC2(V, c1, eps)
    t.nontrivial = n > 1
    t.note("n=%d nr=%d eps=%g base=%d" % (n, nr, eps, base))
    keep = []
    if t.bool():
        t.label("parts released")
        del c1, V
        keep = churn()
    x, v = t.vec(n), t.vec(nr)
    assert (f.nx, f.ndx, f.nr) == (n, n, nr)
    same(f(x), m["r"](x), "value")
    same(f.getJacobian(x), m["J"](x), "Jacobian", 1e-9 if base < 2 else 1e-5)
    same(f.getVHP(x, v), m["H"](x, v), "product with the Hessian", 1e-5 if base < 2 else 1e-2)
    del keep


@sub("C29", "errors", "an exception was raised in Python code below a C++ function", 18000, 180000)
def errors(t):
    start()
    C = classes()
    n = t.int(1, 3)
    m = model_quad([np.eye(n)] * n, np.eye(n), np.zeros(n))
    where = t.int(0, 2)

    class Bad(C.PyFun):
        armed = False

        def __call__(self, x):
            if self.armed and where == 0:
                raise Marker("call")
            return C.PyFun.__call__(self, x)

        def computeJacobian(self, x, J):
            if self.armed and where == 1:
                raise Marker("jac")
            C.PyFun.computeJacobian(self, x, J)

        def vectorHessianProduct(self, x, v, H):
            if self.armed and where == 2:
                raise Marker("vhp")
            C.PyFun.vectorHessianProduct(self, x, v, H)

    f = Bad(m)
    h = f
    for _ in range(t.int(0, 2) if where < 2 else 0):
        o = residuals.LinearFunction(np.eye(n), np.zeros(n))
        h = h @ o if t.bool() else o @ h
    x, v = t.vec(n), t.vec(n)
    calls = [lambda: h(x), lambda: h.getJacobian(x), lambda: h.getVHP(x, v)]
    before = [c() for c in calls]
    f.armed = True
    raised = 0
    for c, b in zip(calls, before):
        try:
            r = c()
        except Marker as e:
            assert e.args == (["call", "jac", "vhp"][where],), "another exception: %r" % (e,)
            raised += 1
        else:
            same(r, b, "a value which needs none of the failing code")
    assert raised >= 1, "the exception raised in the function got lost"
    f.armed = False
    for c, b in zip(calls, before):
        identical(c(), b, "value after an exception")
    t.nontrivial = True
    t.note("n=%d where=%d depth=%s" % (n, where, type(h).__name__))

    class Missing(P.C2Function):
        def __init__(self):
            super().__init__(n, n, n)

    g = Missing()
    for c in (lambda: g(x), lambda: g.getJacobian(x), lambda: (residuals.LinearFunction(np.eye(n)) @ g)(x)):
        try:
            c()
        except Exception as e:
            assert isinstance(e, (TypeError, RuntimeError, AttributeError, NotImplementedError)), repr(e)
        else:
            raise AssertionError("a missing method gave a value")
    same(g.getVHP(x, v), np.zeros((n, n)), "default product with the Hessian")


# -------------------------------------------------------------------- costs
def sym(M):
    return 0.5 * (M + M.T)


def gen_cost(t, n, depth=2):
    """A cost with its model (value, gradient, Hessian)."""
    C = classes()
    k = t.int(0, 7 if depth else 4)
    V = manifolds.VectorSpace(n)
    if k == 0:
        Q, b, c = t.mat(n, n), t.vec(n), t.real()
        f = C.PyCost(Q, b, c, V if t.bool() else None)
        return f, (lambda x: 0.5 * x @ Q @ x + b @ x + c, lambda x: sym(Q) @ x + b, lambda x: sym(Q))
    if k == 1:
        tg = t.vec(n)
        how = t.int(0, 2)
        if how == 0:
            W = sym(t.mat(n, n))
            f = costs.QuadraticDistanceCost(V, tg, in_array(t, W))
        elif how == 1:
            W, f = np.eye(n), costs.QuadraticDistanceCost(V, tg)
        else:
            W, tg, f = np.eye(n), np.zeros(n), costs.QuadraticDistanceCost(V)
        same(f.target, tg, "target")
        if t.bool():
            tg = t.vec(n)
            f.target = tg
            same(f.target, tg, "new target")
        return f, (lambda x: 0.5 * (x - tg) @ W @ (x - tg), lambda x: W @ (x - tg), lambda x: W)
    if k == 2:
        g, m = gen_fun(t, n, 1)
        W, c = sym(t.mat(m["nr"], m["nr"])), t.real()
        s = np.zeros(m["nr"])
        how = t.int(0, 2)
        if how == 0:
            f, c = costs.QuadraticResidualCost(g, W), 0.0
        elif how == 1:
            f = costs.QuadraticResidualCost(g, W, c)
        else:
            s = t.vec(m["nr"])
            f = costs.QuadraticResidualCost(g, W, s, c)
        gn = t.bool()
        f.gauss_newton = gn
        assert f.gauss_newton == gn
        return f, (lambda x: 0.5 * m["r"](x) @ W @ m["r"](x) + s @ m["r"](x) + c,
                   lambda x: m["J"](x).T @ (W @ m["r"](x) + s),
                   lambda x: m["J"](x).T @ W @ m["J"](x) + (0.0 if gn else m["H"](x, W @ m["r"](x) + s)))
    if k == 3:
        g, m = gen_fun(t, n, 1, nr=1)
        return costs.CostFromFunction(g), (lambda x: m["r"](x)[0], lambda x: m["J"](x)[0],
                                           lambda x: m["H"](x, np.ones(1)))
    if k == 4:
        f, m = gen_cost(t, n, 0) if depth else (costs.QuadraticDistanceCost(V), (
            lambda x: 0.5 * x @ x, lambda x: 1.0 * x, lambda x: np.eye(n)))
        return C.TwinCost(f, V if t.bool() else None), m
    f, m = gen_cost(t, n, depth - 1)
    if k == 5:
        w = t.real()
        h = f * w if t.bool() else w * f
        return h, (lambda x: w * m[0](x), lambda x: w * m[1](x), lambda x: w * m[2](x))
    if k == 6:
        g, q = gen_cost(t, n, depth - 1)
        return f + g, (lambda x: m[0](x) + q[0](x), lambda x: m[1](x) + q[1](x), lambda x: m[2](x) + q[2](x))
    return gen_sum(t, n, f, m)


def gen_sum(t, n, f, m):
    """A history of a CostSum."""
    if t.bool(0.3):
        w = [t.real() for _ in range(t.int(0, 3))]
        s = costs.CostSum(n, n, [f] * len(w), w)
        parts = [(a, m) for a in w]
    else:
        s = costs.CostSum(n, n)
        parts = []
    def same_object(what):
        assert s is alias, what + " made another object"

    for _ in range(t.int(0, 4)):
        k = t.int(0, 6)
        alias = s
        if k == 0:
            s.add_component(f)
            parts.append((1.0, m))
        elif k == 1:
            w = t.real()
            s.add_component(f, w)
            parts.append((w, m))
        elif k == 2:
            g, q = gen_cost(t, n, 0)
            if isinstance(g, costs.CostSum):
                raise Discard
            s += g
            same_object("+=")
            parts.append((1.0, q))
        elif k == 3:
            w = t.real()
            s *= w
            same_object("*=")
            parts = [(w * a, q) for a, q in parts]
        elif k == 4:
            s = -s
            assert s is not alias
            parts = [(-a, q) for a, q in parts]
        elif k == 5:
            ws = [t.real() for _ in range(t.int(0, 3))]
            g = costs.CostSum(n, n)
            for w in ws:
                g.add_component(f, w)
            s += g
            same_object("+= of a sum")
            assert g.num_components == len(ws), "the added sum changed"
            parts = parts + [(w, m) for w in ws]
        elif len(parts) < 20:
            s += s
            same_object("+= of itself")
            parts = parts + parts
        del alias
    assert s.num_components == len(parts), "%d components instead of %d" % (s.num_components, len(parts))
    same(np.array(list(s.weights)), np.array([w for w, _ in parts]), "weights")
    assert str(s).startswith("CostSum(num_components=%d" % len(parts)), str(s)
    return s, (lambda x: sum(w * q[0](x) for w, q in parts),
               lambda x: sum((w * q[1](x) for w, q in parts), np.zeros(n)),
               lambda x: sum((w * q[2](x) for w, q in parts), np.zeros((n, n))))


@sub("C29", "costs", "the cost depends on two or more variables", 36000, 360000)
def cost_values(t):
    start()
    n = t.int(1, 4)
    f, m = gen_cost(t, n)
    if t.bool():
        keep = churn() if t.bool(0.1) else gc.collect(0)
    t.nontrivial = n > 1
    t.label(type(f).__name__)
    t.note("n=%d %s" % (n, type(f).__name__))
    for _ in range(t.int(1, 2)):
        x = t.vec(n)
        same(f.call(in_array(t, x)), m[0](x), "call")
        # a class which overrides the method with two arguments hides the one which returns the result
        B = costs.CostFunctionBase
        same(B.computeGradient(f, in_array(t, x)), m[1](x), "gradient")
        same(B.computeHessian(f, in_array(t, x)), m[2](x), "Hessian")
        g, H = out_array(t, n), out_array(t, n, n)
        f.computeGradient(x, g)
        f.computeHessian(x, H)
        same(g, m[1](x), "gradient in place")
        same(H, m[2](x), "Hessian in place")
        if not isinstance(f, costs.CostFunctionBase) or type(f).__module__.startswith("proxsuite"):
            same(f(x), np.array([m[0](x)]), "value as a function")
            same(f.getJacobian(x), np.array([m[1](x)]), "Jacobian as a function")
            v = t.vec(1)
            same(f.getVHP(x, v), v[0] * m[2](x), "product with the Hessian as a function")


# ------------------------------------------------------------------- spaces
def gen_space(t, depth=1):
    """A space of vectors with the list of its components' dimensions (None: no product)."""
    k = t.int(0, 5 if depth else 0)
    if k <= 1:
        n = t.int(1, 4)
        return manifolds.VectorSpace(n), n, None
    parts = [gen_space(t, depth - 1) for _ in range(t.int(1, 3) if k != 3 else 2)]
    dims = [p[1] for p in parts]
    sp = [p[0] for p in parts]
    if k == 2:
        return manifolds.CartesianProduct(sp), sum(dims), dims
    if k == 3:
        return manifolds.CartesianProduct(sp[0], sp[1]), sum(dims), dims
    if k == 4:
        c = manifolds.CartesianProduct()
        for s in sp:
            c.addComponent(s)
        return c, sum(dims), dims
    if len(parts) == 1:
        return parts[0]
    c = sp[0]
    for s in sp[1:]:
        c = c * s
    # a factor which is a product is merged into the result
    return c, sum(dims), [d for p in parts for d in (p[2] if p[2] is not None else [p[1]])]


@sub("C29", "spaces", "a product of spaces", 24000, 240000)
def spaces(t):
    start()
    V, n, dims = gen_space(t, t.int(0, 2))
    if t.bool(0.1):
        keep = churn()
    t.nontrivial = dims is not None and len(dims) > 1
    t.note("n=%d dims=%s" % (n, dims))
    assert (V.nx, V.ndx) == (n, n), (V.nx, V.ndx)
    same(V.neutral(), np.zeros(n), "neutral")
    if dims is None and t.bool(0.2):
        t.label("copy")
        k = t.int(0, 2)
        W = V
        V = copy.copy(W) if k == 0 else copy.deepcopy(W) if k == 1 else pickle.loads(pickle.dumps(W))
        assert V is not W and type(V) is type(W) and (V.nx, V.ndx) == (n, n), "copy of a space"
        if t.bool():
            del W
    r = V.rand()
    assert r.shape == (n,) and np.isfinite(r).all()
    assert V.isNormalized(r)
    x, y, v, u = t.vec(n), t.vec(n), t.vec(n), t.real()
    same(V.integrate(in_array(t, x), in_array(t, v)), x + v, "integrate")
    same(V.difference(in_array(t, x), in_array(t, y)), y - x, "difference")
    same(V.interpolate(in_array(t, x), in_array(t, y), u), x + u * (y - x), "interpolate")
    o = out_array(t, n)
    V.integrate(x, v, o)
    same(o, x + v, "integrate in place")
    V.difference(x, y, o)
    same(o, y - x, "difference in place")
    V.interpolate(x, y, u, o)
    same(o, x + u * (y - x), "interpolate in place")
    arg = t.int(0, 1)
    same(V.Jintegrate(x, v, arg), np.eye(n), "Jintegrate")
    same(V.Jdifference(x, y, arg), np.eye(n) * (2 * arg - 1), "Jdifference")
    J = out_array(t, n, n)
    V.Jintegrate(x, v, J, arg)
    same(J, np.eye(n), "Jintegrate in place")
    J = out_array(t, n, n)
    V.Jdifference(x, y, J, arg)
    same(J, np.eye(n) * (2 * arg - 1), "Jdifference in place")
    M = t.mat(n, t.int(1, 3))
    M0 = M.copy()
    V.JintegrateTransport(x, v, M, arg)
    same(M, M0, "transport")
    T = V.tangent_space()
    assert (T.nx, T.ndx) == (n, n)
    same(T.integrate(x, v), x + v, "the tangent space's integrate")
    if not dims:
        return
    # products: pieces of a vector, by reference when it may be written
    assert V.num_components == len(dims), V.num_components
    ends = np.cumsum([0] + dims)
    for split, merge in ((V.split, V.merge), (V.split_vector, V.merge_vector)):
        z = t.vec(n)
        z.flags.writeable = t.bool()
        ps = split(z)
        assert len(ps) == len(dims)
        for i, d in enumerate(dims):
            identical(ps[i], z[ends[i]:ends[i + 1]], "piece %d" % i)
        if z.flags.writeable:
            i = t.int(0, len(dims) - 1)
            ps[i][:] = 4.25
            identical(z[ends[i]:ends[i + 1]], np.full(dims[i], 4.25), "writing through a piece")
        same(merge([np.array(p) for p in ps]), z, "merge")
    for bad in (len(dims), len(dims) + 3):
        try:
            V.getComponent(bad)
        except IndexError:
            pass
        else:
            raise AssertionError("no IndexError for component %d" % bad)
    cs = [V.getComponent(i) for i in range(len(dims))]
    del V
    keep = churn()
    for c, d in zip(cs, dims):
        assert (c.nx, c.ndx) == (d, d), "a component after the product went away"
        same(c.integrate(np.ones(d), np.ones(d)), np.full(d, 2.0), "a component's integrate")


# ------------------------------------------------- groups (Pinocchio's, through the stand-in)
KINDS = {"SO2": (1, 0), "SO3": (2, 0), "SE2": (3, 0), "SE3": (4, 0), "R": (0, 1), "R2": (0, 2), "R3": (0, 3), "R4": (0, 4)}


def leaf_dims(l):
    return (l[1], l[1]) if l[0] == 0 else {1: (2, 1), 2: (4, 3), 3: (4, 3), 4: (7, 6)}[l[0]]


def gen_leaves(t):
    return [((0, t.int(1, 3)) if t.bool(0.25) else (t.int(1, 4), 0)) for _ in range(t.int(1, 3))]


def gen_group(t, depth=1):
    """A space, the groups it is made of in order, and its components (None: no product)."""
    k = t.int(0, 9 if depth else 6)
    if k <= 2:
        name = t.pick(sorted(KINDS))
        t.label(name)
        return getattr(manifolds, name)(), [KINDS[name]], None
    if k == 3:
        n = t.int(1, 4)
        return manifolds.EuclideanSpace(n), [(0, n)], None
    if k == 4:
        name = t.pick(["SO2", "SO3", "SE2", "SE3"])
        t.label("T" + name)
        cl = getattr(manifolds, "T" + name)
        nv = leaf_dims(KINDS[name])[1]
        return cl() if t.bool() else cl(getattr(manifolds, name)()), [KINDS[name], (0, nv)], None
    if k <= 6:
        ls = gen_leaves(t)
        m = pin.Model(ls)
        t.label("model")
        if k == 5:
            return manifolds.MultibodyConfiguration(m), ls, None
        return manifolds.MultibodyPhaseSpace(m), ls + [(0, m.nv)], None
    t.label("product")
    parts = [gen_group(t, depth - 1) for _ in range(t.int(2, 3))]
    leaves, comps = sum((p[1] for p in parts), []), [p[1] for p in parts]
    if k == 7:
        return manifolds.CartesianProduct([p[0] for p in parts]), leaves, comps
    if k == 8:
        c = manifolds.CartesianProduct()
        for p in parts:
            c.addComponent(p[0])
    else:
        c = parts[0][0]
        for p in parts[1:]:
            c = c * p[0]
        # a factor which is a product is merged into the result
        comps = [l for p in parts for l in (p[2] or [p[1]])]
    return c, leaves, comps


def gen_tangent(t, leaves):
    """A tangent vector; rotations stay away from half a turn."""
    out = []
    for l in leaves:
        v = t.vec(leaf_dims(l)[1])
        if l[0]:
            w = {1: 1, 2: 3, 3: 1, 4: 3}[l[0]]
            n = np.linalg.norm(v[-w:])
            if n > 2.5:
                v[-w:] *= 2.5 / n
        out.append(v)
    return np.concatenate(out)


def gen_point(t, G, leaves):
    return pin.integrate(G, pin.neutral(G), gen_tangent(t, leaves))


@sub("C29", "groups", "the space contains a rotation", 16000, 160000)
def groups(t):
    start()
    V, leaves, parts = gen_group(t)
    G = pin.Model(leaves)
    nx, nv = G.nq, G.nv
    t.note("%s %s" % (type(V).__name__, leaves))
    t.nontrivial = any(l[0] for l in leaves)
    copied = isinstance(V, (manifolds.MultibodyConfiguration, manifolds.MultibodyPhaseSpace)) or \
        type(V).__name__ in KINDS
    if copied and t.bool(0.3):
        t.label("copy")
        k, W = t.int(0, 2), V
        V = copy.copy(W) if k == 0 else copy.deepcopy(W) if k == 1 else pickle.loads(pickle.dumps(W))
        assert V is not W and type(V) is type(W), "copy of a space"
        del W
    keep = churn() if t.bool(0.1) else None
    assert (V.nx, V.ndx) == (nx, nv), (V.nx, V.ndx, nx, nv)
    same(V.neutral(), pin.neutral(G), "neutral")
    r = V.rand()
    assert r.shape == (nx,) and pin.isNormalized(G, r) and V.isNormalized(r), "random point"
    z = np.array(r)
    cursor = 0
    for l in leaves:
        n = leaf_dims(l)[0]
        w = {0: 0, 1: 2, 2: 4, 3: 2, 4: 4}[l[0]]
        if w and t.bool():
            z[cursor + n - w:cursor + n] *= 1.5
        cursor += n
    assert V.isNormalized(z) == pin.isNormalized(G, z), "isNormalized"
    if type(V).__name__ in KINDS:
        assert not V.isNormalized(np.zeros(t.int(0, nx - 1))), "a vector which is too short"
    x = gen_point(t, G, leaves)
    v = gen_tangent(t, leaves)
    y = pin.integrate(G, x, v)
    u = t.pick([0.0, 1.0, 0.5]) if t.bool() else t.real() * 0.1
    s = 1e-8 * (1 + np.abs(x).max() + np.abs(v).max())
    ops = [("integrate", lambda *o: V.integrate(in_array(t, x), in_array(t, v), *o), y),
           ("difference", lambda *o: V.difference(in_array(t, x), in_array(t, y), *o), pin.difference(G, x, y)),
           ("interpolate", lambda *o: V.interpolate(in_array(t, x), in_array(t, y), u, *o), pin.interpolate(G, x, y, u))]
    arg = t.int(0, 1)
    # as many calls in a row as the case asks for: an operation leaves nothing behind
    for _ in range(t.int(2, 5)):
        k = t.int(0, 5)
        if k < 3:
            name, f, ref = ops[k]
            if t.bool():
                same(f(), ref, name, s)
            else:
                o = out_array(t, ref.size)
                f(o)
                same(o, ref, name + " in place", s)
        elif k < 5:
            arg = t.int(0, 1)
            name, a, b, ref = ("Jintegrate", x, v, pin.dIntegrate(G, x, v, arg)) if k == 3 else \
                ("Jdifference", x, y, pin.dDifference(G, x, y, arg))
            f = getattr(V, name)
            if t.bool():
                same(f(in_array(t, a), in_array(t, b), arg), ref, name, 1e-7)
            else:
                J = out_array(t, nv, nv)
                J[:] = 0
                f(in_array(t, a), in_array(t, b), J, arg)
                same(J, ref, name + " in place", 1e-7)
        else:
            M = t.mat(nv, t.int(1, 3))
            M0 = M.copy()
            V.JintegrateTransport(x, v, M, arg)
            same(M, pin.dIntegrate(G, x, v, arg) @ M0, "transport", 1e-7)
    T = V.tangent_space()
    assert (T.nx, T.ndx) == (nv, nv), "tangent space"
    # what a space hands out outlives it
    if parts:
        assert V.num_components == len(parts), "number of components"
        i = t.int(0, V.num_components - 1)
        c = V.getComponent(i)
        l = parts[i]
        del V, parts, keep
        keep = churn()
        g = pin.Model(l)
        assert (c.nx, c.ndx) == (g.nq, g.nv), "a component after the product went away"
        same(c.neutral(), pin.neutral(g), "a component's neutral point")
        return
    held = []
    if isinstance(V, (manifolds.MultibodyConfiguration, manifolds.MultibodyPhaseSpace)):
        held.append((V.model, leaves if isinstance(V, manifolds.MultibodyConfiguration) else leaves[:-1]))
    if hasattr(V, "base"):
        held.append((V.base, leaves[:-1]))
    if held:
        t.label("held")
        del V, keep
        keep = churn()
        for h, l in held:
            g = pin.Model(l)
            if isinstance(h, pin.Model):
                assert h.joints == l and (h.nq, h.nv) == (g.nq, g.nv), "the model of a space"
            else:
                assert (h.nx, h.ndx) == (g.nq, g.nv), "the base of a tangent bundle"
                same(h.integrate(pin.neutral(g), gen_tangent(t, l)).shape, (g.nq,), "the base's integrate")


@sub("C29", "group_functions", "the space contains a rotation", 8000, 80000)
def group_functions(t):
    start()
    C = classes()
    k = t.int(0, 4)
    if k == 0:
        t.label("point action")
        p = t.vec(3)
        f = residuals.RigidTransformationPointAction(in_array(t, p))
        G, leaves = pin.Model([(4, 0)]), [(4, 0)]
        t.nontrivial = True
        assert (f.nx, f.ndx, f.nr) == (7, 6, 3) and (f.space.nx, f.space.ndx) == (7, 6), "dimensions"
        for i in range(t.int(1, 3)):
            if i and t.bool():
                t.label("point written")
                p = t.vec(3)
                f.point = p
            hat = np.array([[0, -p[2], p[1]], [p[2], 0, -p[0]], [-p[1], p[0], 0]])
            same(f.point, p, "point")
            same(f.skew_matrix, hat, "skew_matrix")
            x = gen_point(t, G, leaves)
            q = x[3:]
            W = np.array([[0, -q[2], q[1]], [q[2], 0, -q[0]], [-q[1], q[0], 0]])
            R = np.eye(3) + 2 * q[3] * W + 2 * W @ W
            same(f(in_array(t, x)), R @ p + x[:3], "image of the point")
            J = np.hstack([R, -R @ hat])
            same(f.getJacobian(in_array(t, x)), J, "Jacobian")
            o = out_array(t, 3, 6)
            f.computeJacobian(x, o)
            same(o, J, "Jacobian in place")
            same(autodiff.FiniteDifferenceHelper(f.space, f, 1e-5).getJacobian(x), J, "finite differences", 1e-3)
        S = f.space
        del f
        keep = churn()
        same(S.neutral(), pin.neutral(G), "the space of a function which went away")
        return
    V, leaves, _ = gen_group(t)
    G = pin.Model(leaves)
    nv = G.nv
    t.note("%s %s" % (type(V).__name__, leaves))
    t.nontrivial = any(l[0] for l in leaves)
    target = gen_point(t, G, leaves)
    d = gen_tangent(t, leaves) * t.pick([0.1, 0.5, 1.0])
    x = pin.integrate(G, target, d)
    d = pin.difference(G, target, x)
    J = pin.dDifference(G, target, x, 1)
    if k == 1:
        f = residuals.ManifoldDifferenceToPoint(V, in_array(t, target))
        if t.bool():
            del V
            keep = churn()
        assert (f.nx, f.ndx, f.nr) == (G.nq, nv, nv)
        same(f(in_array(t, x)), d, "difference to a point", 1e-7)
        same(f.getJacobian(in_array(t, x)), J, "its Jacobian", 1e-6)
        same(f.target, target, "target")
        return
    if k == 2:
        t.label("Python function on a group")
        m = model_quad([sym(t.mat(G.nq, G.nq))], t.mat(1, G.nq), t.vec(1))

        class F(P.C2Function):
            def __init__(self, space):
                super().__init__(space, 1)
                self.space = space if hold else None  # copied with the function

            def __call__(self, x):
                return m["r"](x)

            def computeJacobian(self, x, J):
                # by central differences along the group
                for i in range(nv):
                    e = np.zeros(nv)
                    e[i] = 1e-5
                    J[:, i] = (m["r"](pin.integrate(G, x, e)) - m["r"](pin.integrate(G, x, -e))) / 2e-5

        hold = type(V).__name__ in KINDS or isinstance(V, (manifolds.MultibodyConfiguration, manifolds.MultibodyPhaseSpace))
        f = F(V)
        h = autodiff.FiniteDifferenceHelper(V, f, 1e-6)
        Jf = np.zeros((1, nv))
        f.computeJacobian(x, Jf)
        del f
        keep = churn()
        sc = 1 + np.abs(Jf).max() + (1 + np.abs(x).max()) ** 2
        assert np.abs(h.getJacobian(x) - Jf).max() <= 1e-3 * sc, "finite differences along the group"
        cs = constraints.ConstraintObject(F(V), constraints.EqualityConstraintSet())
        pr = P.Problem(V, costs.CostFromFunction(F(V)), [cs])
        assert (pr.nx, pr.ndx, pr.total_constraint_dim) == (G.nq, nv, 1), "problem on a group"
        return
    A = t.mat(nv, nv) * 0.3
    W = A @ A.T + 0.5 * np.eye(nv)
    c = costs.QuadraticDistanceCost(V, target, W)
    g = J.T @ W @ d
    sc = 1e-6 * (1 + np.abs(W).max()) * (1 + np.abs(d).max()) * (1 + np.abs(J).max()) ** 2
    same(np.array([c.call(x)]), np.array([0.5 * d @ W @ d]), "cost", sc)
    o = np.zeros(nv)
    c.computeGradient(x, o)
    same(o, g, "gradient of the cost", sc)
    H = np.zeros((nv, nv))
    c.computeHessian(x, H)
    same(H, J.T @ W @ J, "Gauss-Newton Hessian of the cost", sc)
    if k == 4:
        t.label("solve")
        pr = P.Problem(V, c)
        assert (pr.nx, pr.ndx) == (G.nq, nv)
        s = P.ProxNLPSolver(pr, 1e-7, 0.1)
        s.verbose = P.QUIET
        s.max_iters = 200
        del V, c, pr
        s.setup()
        s.solve(x)
        xo = np.array(s.results.xopt)
        assert xo.shape == (G.nq,) and pin.isNormalized(G, xo), "the result is not on the group"
        if str(s.results.converged).endswith("success"):
            t.label("success")
            e = pin.difference(G, target, xo)
            grad = pin.dDifference(G, target, xo, 1).T @ W @ e
            assert np.abs(grad).max() <= 1e-6, "stationarity %g" % np.abs(grad).max()


# --------------------------------------------------------------------- sets
@sub("C29", "set_product", "the product has two or more components", 12000, 120000)
def set_product(t):
    start()
    comps, sizes, projs, zs = [], [], [], []
    mu = t.pick([1.0, 0.5, 2.0])
    for _ in range(t.int(1, 4)):
        n, k = t.int(1, 3), t.int(0, 3)
        z = t.vec(n)
        if k == 0:
            S, p = constraints.EqualityConstraintSet(), np.zeros(n)
        elif k == 1:
            S, p = constraints.NegativeOrthant(), np.minimum(z, 0)
        elif k == 2:
            lo = t.vec(n)
            hi = lo + np.abs(t.vec(n))
            S, p = constraints.BoxConstraint(lo, hi), np.clip(z, lo, hi)
        else:
            S, p = constraints.NonsmoothPenaltyL1(), np.sign(z) * np.maximum(np.abs(z) - mu, 0)
        comps.append(S), sizes.append(n), projs.append(p), zs.append(z)
    if t.bool():
        l = constraints.StdVec_ConstraintSet()
        for c in comps:
            l.append(c)
    else:
        l = comps
    S = constraints.ConstraintSetProduct(l, sizes)
    kinds = [type(c) for c in comps]
    t.nontrivial = len(comps) > 1
    t.note("%s %s mu=%g" % ([k.__name__ for k in kinds], sizes, mu))
    del l, comps
    keep = churn() if t.bool(0.1) else None
    assert list(S.blockSizes) == sizes
    assert len(S.components) == len(sizes)
    S.setProxParameter(mu)
    z, p = np.concatenate(zs), np.concatenate(projs)
    same(S.projection(in_array(t, z)), p, "projection")
    same(S.normalConeProjection(in_array(t, z)), z - p, "normal cone projection")
    for c, k in zip(S.components.tolist(), kinds):
        assert type(c) is k, "component %s instead of %s" % (type(c), k)
    try:
        constraints.ConstraintSetProduct([constraints.NegativeOrthant()], sizes + [1])
    except RuntimeError:
        pass
    else:
        raise AssertionError("sizes of another number of components were accepted")


@sub("C29", "sets", "the point has two or more entries", 24000, 240000)
def sets(t):
    start()
    n = t.int(1, 4)
    k = t.int(0, 3)
    z = t.vec(n)
    mu = t.pick([1.0, 0.5, 0.1, 2.0, 1e-3])
    lo = t.vec(n)
    hi = lo + np.abs(t.vec(n))
    if k == 0:
        S, proj, act = constraints.EqualityConstraintSet(), np.zeros(n), np.ones(n, bool)
        dproj = np.zeros(n)
    elif k == 1:
        S, proj = constraints.NegativeOrthant(), np.minimum(z, 0)
        dproj = (z <= 0) * 1.0
        act = z > 0
    elif k == 2:
        S, proj = constraints.BoxConstraint(lo, hi), np.clip(z, lo, hi)
        act = (z > hi) | (z < lo)
        dproj = (~act) * 1.0
        same(S.upper_limit, hi, "upper limit"), same(S.lower_limit, lo, "lower limit")
        if t.bool():
            lo2 = lo - np.abs(t.vec(n))
            S.lower_limit = lo2
            proj = np.clip(z, lo2, hi)
            act = (z > hi) | (z < lo2)
            dproj = (~act) * 1.0
            same(S.lower_limit, lo2, "new lower limit")
    else:
        S = constraints.NonsmoothPenaltyL1()
        S.setProxParameter(mu)
        proj = np.sign(z) * np.maximum(np.abs(z) - mu, 0)
        act = np.abs(z) <= mu
        dproj = (~act) * 1.0
    S.setProxParameter(mu)
    same(S.mu, mu, "mu")
    t.nontrivial = n > 1
    t.label(type(S).__name__)
    t.note("%s z=%s mu=%g" % (type(S).__name__, z.tolist(), mu))
    same(S.projection(in_array(t, z)), proj, "projection")
    same(S.normalConeProjection(in_array(t, z)), z - proj, "normal cone projection")
    for f, want in ((S.projection, proj), (S.normalConeProjection, z - proj)):
        o = out_array(t, n)
        f(z, o)
        same(o, want, "projection in place")
    if t.bool():  # on top of the argument
        o = z.copy()
        S.projection(o, o)
        same(o, proj, "projection on top of its argument")
    a = np.zeros(n, bool)
    a[:] = t.bool()
    S.computeActiveSet(z, a)
    edge = np.zeros(n, bool)
    if k == 1:
        edge = z == 0
    elif k == 2:
        edge = (z == S.lower_limit) | (z == S.upper_limit)
    elif k == 3:
        edge = np.abs(z) == mu
    assert (a == act)[~edge].all(), "active set %s of %s" % (a.tolist(), z.tolist())
    M = t.mat(n, t.int(1, 3))
    M1, M2 = M.copy(), M.copy()
    S.applyProjectionJacobian(z, M1)
    S.applyNormalProjectionJacobian(z, M2)
    if not edge.any():
        same(M1, dproj[:, None] * M, "projection Jacobian")
        same(M2, (1 - dproj)[:, None] * M, "normal projection Jacobian")
    if k != 3:
        same(S.evaluate(proj), 0.0, "value on the set")
    else:
        same(S.evaluate(z), np.abs(z).sum(), "1-norm")
        same(S.evaluate(proj), np.abs(proj).sum(), "1-norm of the prox")
    same(S.evaluateMoreauEnvelope(z, z - proj), S.evaluate(proj) + 0.5 / mu * np.sum((z - proj) ** 2), "Moreau envelope")
    assert S == S
    # with a function
    f, m = gen_fun(t, 2, 1, nr=n)
    c = P.constraints.ConstraintObject(f, S)
    assert c.nr == n
    x = t.vec(2)
    same(c.func(x), m["r"](x), "function of a constraint")
    same(c.set.projection(z), proj, "set of a constraint")
    g, s = c.func, c.set
    assert type(s) is type(S), type(s)
    del c, f, S
    keep = churn()
    same(g(x), m["r"](x), "function of a constraint which went away")
    same(s.projection(z), proj, "set of a constraint which went away")


# ------------------------------------------------------------------- solver
def gen_problem(t):
    """The parts of a strongly convex problem: two lists of the same functions, built-in and behind Python classes."""
    C = classes()
    n = t.int(1, 4)
    B = t.mat(n, n)
    Q = B.T @ B * 0.1 + np.eye(n) * t.pick([1.0, 0.5, 2.0])
    tg = t.vec(n)
    V = manifolds.VectorSpace(n)
    cost = costs.QuadraticDistanceCost(V, tg, Q)
    grad = lambda x: Q @ (x - tg)
    if t.bool(0.3):
        w, f2 = abs(t.real()), costs.QuadraticDistanceCost(V, np.zeros(n))
        g0 = grad
        cost = cost + w * f2
        grad = lambda x: g0(x) + w * x
    xs = t.vec(n)
    cons = []
    for _ in range(t.int(0, 3)):
        kind = t.int(0, 2)
        nr = t.int(1, 2) if kind else 1
        A = t.mat(nr, n)
        if t.bool(0.3):
            f = residuals.LinearFunctionDifferenceToPoint(V, np.zeros(n), A, -A @ xs)
            b = -A @ xs
        else:
            b = -A @ xs - (abs(t.real()) if kind == 1 else 0.0)
            f = residuals.LinearFunction(A, b)
        if kind == 0:
            S, mk = constraints.EqualityConstraintSet(), lambda: constraints.EqualityConstraintSet()
        elif kind == 1:
            mk = lambda: constraints.NegativeOrthant()
        else:
            lo, hi = -np.abs(t.vec(nr)), np.abs(t.vec(nr))
            mk = lambda lo=lo, hi=hi: constraints.BoxConstraint(lo, hi)
        cons.append((f, mk, kind, A, b))
    return n, V, cost, grad, cons


OPTIONS = [("max_iters", [0, 1, 3, 20, 100]), ("max_al_iters", [1, 3, 50, 1000]), ("rho_init", [0.0, 1e-3, 0.1]),
           ("mu_init", [1e-2, 0.1, 1.0, 1e-3]), ("mu_lower", [1e-9, 1e-6]), ("mu_upper", [1.0, 2.0]),
           ("target_tol", [1e-6, 1e-4, 1e-8]), ("kkt_tolerance", [1e-13, 1e-10]), ("max_refinement_steps", [0, 1, 5]),
           ("reg_init", [1e-4, 1e-6, 0.1])]
ENUMS = [("ldlt_choice", "LDLTChoice", ["LDLT_DENSE", "LDLT_BUNCHKAUFMAN", "LDLT_BLOCKSPARSE", "LDLT_EIGEN"]),
         ("kkt_system", "KktSystem", ["KKT_CLASSIC", "KKT_PRIMAL_DUAL"]),
         ("mul_update_mode", "MultiplierUpdateMode", ["MUL_NEWTON", "MUL_PRIMAL", "MUL_PRIMAL_DUAL"]),
         ("hess_approx", "HessianApprox", ["HESSIAN_EXACT", "HESSIAN_GAUSS_NEWTON"])]
NESTED = [("bcl_params", a, [0.05, 0.1, 0.3]) for a in
          ("prim_alpha", "prim_beta", "dual_alpha", "dual_beta", "mu_factor", "rho_factor")] + \
         [("ls_options", "armijo_c1", [1e-4, 1e-2]), ("ls_options", "alpha_min", [1e-7, 1e-4]),
          ("ls_options", "max_num_steps", [5, 20]), ("ls_options", "contraction_min", [0.1, 0.5]),
          ("ls_options", "contraction_max", [0.8, 0.95]), ("ls_options", "dphi_thresh", [1e-13]),
          ("ls_options", "wolfe_c2", [0.9])]


def gen_options(t, quick_only=False):
    ops = []
    for name, vals in OPTIONS:
        if t.bool(0.25):
            ops.append((name, t.pick(vals)))
    for name, en, vals in ENUMS:
        if t.bool(0.5):
            ops.append((name, getattr(getattr(P, en), t.pick(vals))))
    for a, b, vals in NESTED:
        if t.bool(0.1):
            ops.append(((a, b), t.pick(vals)))
    if t.bool(0.2):
        ops.append((("ls_options", "interp_type"), t.pick([P.LSInterpolation.BISECTION, P.LSInterpolation.QUADRATIC,
                                                             P.LSInterpolation.CUBIC])))
    if t.bool(0.1):
        ops.append(("verbose", t.pick([P.VerboseLevel.QUIET, P.VerboseLevel.VERBOSE, P.VerboseLevel.VERYVERBOSE])))
    return ops


def get(s, name):
    return getattr(s, name) if isinstance(name, str) else getattr(getattr(s, name[0]), name[1])


def configure(s, ops):
    for name, v in ops:
        if isinstance(name, str):
            setattr(s, name, v)
        else:
            setattr(getattr(s, name[0]), name[1], v)
    last = dict(ops)
    for name, v in last.items():
        assert get(s, name) == v, "%s reads back as %r instead of %r" % (name, get(s, name), v)


def make_problem(t, V, cost, cons, twin):
    C = classes()
    if twin:
        cost = C.TwinCost(cost, V if t.bool() else None)
    cs = [constraints.ConstraintObject(C.Twin(f) if twin else f, mk()) for f, mk, *_ in cons]
    how = t.int(0, 3)
    if how == 0 or not cs and how == 1:
        p = P.Problem(V, cost, cs)
    elif how == 3:
        l = constraints.StdVec_ConstraintObject()
        for c in cs:
            l.append(c)
        assert len(l) == len(cs)
        p = P.Problem(V, cost, l)
    elif how == 1:
        p = P.Problem(V, cost, cs[:1])
        for c in cs[1:]:
            p.add_constraint(c)
    else:
        p = P.Problem(space=V, cost=cost)
        for c in cs:
            p.add_constraint(c)
    return p


def outcome(s, flag):
    r = s.results
    assert flag == r.converged, "solve returned %s, the results say %s" % (flag, r.converged)
    return dict(flag=str(r.converged), x=np.array(r.xopt), lams=np.array(r.data_lamsopt), it=r.num_iters,
                value=r.value, p=r.prim_infeas, d=r.dual_infeas, mu=r.mu, rho=r.rho, merit=r.merit,
                errs=np.array(list(r.constraint_errs)))


def agree(a, b, what):
    for k in a:
        u, v = np.asarray(a[k]), np.asarray(b[k])
        if u.dtype.kind in "US":
            ok = (u == v).all()
        else:
            ok = u.shape == v.shape and np.array_equal(u, v, equal_nan=True)
        assert ok, "%s: %s is %s and %s" % (what, k, u.tolist(), v.tolist())


def run(s, call):
    try:
        return outcome(s, call())
    except RuntimeError as e:
        return dict(raised=str(e))


def guess(t, cons, cs):
    """Multipliers for a first guess: as a list and stacked."""
    ls = [t.vec(c[3].shape[0]) for c in cons]
    return ls, np.concatenate(ls) if ls else np.zeros(0)


@sub("C29", "solver", "there is a constraint and the solver made an iteration", 4500, 45000)
def solver(t):
    start()
    C = classes()
    n, V, cost, grad, cons = gen_problem(t)
    ops = gen_options(t)
    tol, mu = t.pick([1e-6, 1e-4, 1e-8]), t.pick([1e-2, 0.1])
    x0 = t.vec(n)
    lams = guess(t, cons, None) if t.bool() else None
    outs, logs, hists = [], [], []
    for twin in (False, True):
        p = make_problem(t, V, cost, cons, twin)
        nr = [c[3].shape[0] for c in cons]
        assert (p.nx, p.ndx) == (n, n) and p.num_constraint_blocks == len(cons) and \
            p.total_constraint_dim == sum(nr), "dimensions of the problem"
        s = P.ProxNLPSolver(p, tol, mu) if t.bool() else P.ProxNLPSolver(problem=p, tol=tol, mu_init=mu)
        if t.bool():  # nothing else holds what the solver needs
            del p
            if t.bool(0.2):
                keep = churn()
        configure(s, ops)
        log, hist = [], helpers.HistoryCallback()
        s.register_callback(C.Recorder(log, "a"))
        s.register_callback(hist)
        s.register_callback(C.Recorder(log, "b"))
        s.setup()
        if lams is None:
            o = run(s, lambda: s.solve(x0))
        elif t.bool():
            o = run(s, lambda: s.solve(in_array(t, x0), lams[0]))
        else:
            o = run(s, lambda: s.solve(x0, lams[1]))
        outs.append(o), logs.append(log), hists.append(hist.storage)
        if "raised" not in o:
            ncb = len(log) // 2
            assert len(log) == 2 * ncb and [e[0] for e in log] == ["a", "b"] * ncb, "order of the callbacks"
            st = hist.storage
            assert len(st.xs) == len(st.lams) == len(st.values) == len(st.prim_infeas) == len(st.dual_infeas) == \
                len(st.alphas) == len(st.dmerit_dir) == len(st.ls_alphas) == len(st.ls_values) == ncb, "length of the history"
            for i in range(ncb):
                a = log[2 * i]
                identical(st.xs[i], a[1], "x in the history")
                identical(st.lams[i], a[2], "multipliers in the history")
                assert (st.values[i], st.prim_infeas[i], st.dual_infeas[i], st.alphas[i], st.dmerit_dir[i]) == \
                    (a[3], a[4], a[5], a[6], a[9]), "values in the history"
                assert a[7].shape == (n + sum(nr),) * 2 and a[8].shape == (n + sum(nr),)
                for u, v in zip(log[2 * i][1:], log[2 * i + 1][1:]):
                    assert np.array_equal(u, v, equal_nan=True), "two callbacks of one iteration"
            assert ncb == 0 or ncb <= o["it"] + 1
            if str(o["flag"]).endswith("success"):
                t.label("success")
                r = s.results
                ls = r.lamsopt
                assert len(ls) == len(cons)
                kkt = grad(o["x"]) + sum((A.T @ np.array(ls[i]) for i, (_, _, _, A, _) in enumerate(cons)), np.zeros(n))
                sc = 1 + max([np.abs(A).max() * np.abs(np.array(ls[i])).max() for i, (_, _, _, A, _) in enumerate(cons)]
                             + [0.0])
                assert np.abs(kkt).max() <= 10 * s.target_tol + 1e-9 * sc, "stationarity %g" % np.abs(kkt).max()
            if cons and ncb:
                t.nontrivial = True
        else:
            t.label("raised")
    agree(*outs, "functions in C++ and in Python")
    if "raised" not in outs[0]:
        assert len(logs[0]) == len(logs[1])
        for a, b in zip(*logs):
            for u, v in zip(a[1:], b[1:]):
                assert np.array_equal(u, v, equal_nan=True), "an iteration with functions in C++ and in Python"
    t.note("n=%d constraints=%s options=%s -> %s" % (n, [c[2] for c in cons], ops, outs[0].get("flag", "raised")))


@sub("C29", "lifetime", "the owner of something the solver uses went away", 4500, 45000)
def lifetime(t):
    start()
    C = classes()
    n, V, cost, grad, cons = gen_problem(t)
    ops = [o for o in gen_options(t) if o[0] != "verbose"]
    x0 = t.vec(n)
    s = P.ProxNLPSolver(make_problem(t, V, cost, cons, False), 1e-6)
    refs = []
    if t.bool():
        s.register_callback(C.Recorder([], "temporary"))
    configure(s, ops)
    s.setup()
    want = run(s, lambda: s.solve(x0))
    twin = t.bool()
    p = make_problem(t, V, cost, cons, twin)
    q = P.ProxNLPSolver(p, 1e-6)
    configure(q, ops)
    w = weakref.ref(p)
    what = []
    if t.bool():
        q.register_callback(C.Recorder([], "temporary"))
    if t.bool():
        q.setup()
        early = True
    else:
        early = False
    del p
    cost = cons = V = None
    keep = churn()
    if not early:
        q.setup()
    got = run(q, lambda: q.solve(x0))
    agree(want, got, "a solver whose problem has no other owner")
    if "raised" in got:
        return
    t.nontrivial = True
    # views into the results and the workspace keep what they need
    r, ws, pr, man = q.results, q.workspace, q.problem, q.manifold
    x, k = r.xopt, ws.kkt_matrix
    kc = np.array(k)
    ls, st = r.lamsopt, None
    l0 = [np.array(l) for l in ls]
    pieces = list(range(len(l0)))
    part = ls[0] if l0 else None
    del q, s
    if t.bool():
        del r, ws
    if t.bool():
        del ls
    keep = churn()
    identical(x, got["x"], "x of a solver which went away")
    assert np.array_equal(np.array(k), kc, equal_nan=True), "KKT matrix of a solver which went away"
    if part is not None:
        identical(part, l0[0], "multipliers of a solver which went away")
    assert pr.ndx == n and man.nx == n
    t.note("n=%d twin=%s early=%s" % (n, twin, early))


@sub("C29", "interrupt", "an exception stopped the solver", 4500, 45000)
def interrupt(t):
    start()
    C = classes()
    n, V, cost, grad, cons = gen_problem(t)
    ops = [o for o in gen_options(t) if o[0] != "verbose"]
    x0 = t.vec(n)

    class Stop(C.TwinCost):
        left = None

        def tick(self):
            if self.left is not None:
                self.left -= 1
                if self.left < 0:
                    raise Marker("cost")

        def call(self, x):
            self.tick()
            return C.TwinCost.call(self, x)

        def computeGradient(self, x, g):
            self.tick()
            C.TwinCost.computeGradient(self, x, g)

        def computeHessian(self, x, H):
            self.tick()
            C.TwinCost.computeHessian(self, x, H)

    c = Stop(cost)
    p = P.Problem(V, c, [constraints.ConstraintObject(f, mk()) for f, mk, *_ in cons])
    ref = P.ProxNLPSolver(P.Problem(V, cost, [constraints.ConstraintObject(f, mk()) for f, mk, *_ in cons]), 1e-6)
    configure(ref, ops)
    ref.setup()
    want = run(ref, lambda: ref.solve(x0))
    s = P.ProxNLPSolver(p, 1e-6)
    configure(s, ops)
    s.setup()
    for _ in range(t.int(1, 2)):
        s.setup()
        if t.bool():
            c.left, name = t.int(0, 30), "cost"
        else:
            s.register_callback(C.Recorder([], "callback", t.int(1, 5)))
            name = "callback"
        try:
            got = run(s, lambda: s.solve(x0))
            agree(want, got, "a run which was not interrupted")
        except Marker as e:
            assert e.args == (name,), repr(e)
            t.nontrivial = True
            t.label(name)
        c.left = None
        s.clear_callbacks()
        gc.collect(0)
        s.setup()
        agree(want, run(s, lambda: s.solve(x0)), "the run after an interrupted one")
    t.note("n=%d constraints=%d %s" % (n, len(cons), list(t.labels)))


@sub("C29", "problem_errors", "the call was refused", 9000, 90000)
def problem_errors(t):
    """Misuse ends in an exception and not in a crash."""
    start()
    n, V, cost, grad, cons = gen_problem(t)
    p = make_problem(t, V, cost, cons, t.bool())
    s = P.ProxNLPSolver(p, 1e-6)
    k = t.int(0, 3)
    if k == 0:  # no workspace yet
        assert s.results is None and s.workspace is None
        try:
            s.solve(np.zeros(n))
        except Exception as e:
            assert isinstance(e, RuntimeError), repr(e)
            t.nontrivial = True
        else:
            raise AssertionError("solve without setup")
    elif k == 1:
        s.setup()
        bad = [np.zeros(c[3].shape[0]) for c in cons] + [np.zeros(1)]
        for l in (bad, bad[:-2] if len(bad) > 1 else bad + bad):
            try:
                s.solve(np.zeros(n), l)
            except Exception:
                t.nontrivial = True
            else:
                raise AssertionError("multipliers of the wrong size were accepted")
    elif k == 2:
        s.setup()
        for args in ((np.zeros(n), "a"), ("x",), (np.zeros(n), [1.0]), (None,)):
            try:
                s.solve(*args)
            except Exception as e:
                assert isinstance(e, TypeError) or "ArgumentError" in type(e).__name__, repr(e)
                t.nontrivial = True
            else:
                raise AssertionError("wrong arguments were accepted")
    else:
        for f in (lambda: P.Problem(V, None if t.bool() else 3, []), lambda: P.ProxNLPSolver(None),
                  lambda: constraints.ConstraintObject(3, constraints.NegativeOrthant()),
                  lambda: s.register_callback(3), lambda: P.Problem(V, cost, [3])):
            try:
                f()
            except Exception as e:
                assert isinstance(e, TypeError) or "ArgumentError" in type(e).__name__, repr(e)
                t.nontrivial = True
    t.note("n=%d kind=%d" % (n, k))


# ------------------------------------------------------------ linear algebra
@sub("C29", "linalg", "the matrix has two or more rows", 24000, 240000)
def linalg(t):
    start()
    n = t.int(1, 6)
    A = sym(t.mat(n, n))
    if t.bool(0.3):
        A = A + np.eye(n) * t.pick([1.0, -2.0, 5.0])
    e = np.abs(np.linalg.eigvalsh(A))
    if e.min() < 1e-6 * max(1.0, e.max()):
        raise Discard
    t.nontrivial = n > 1
    bk = P.BunchKaufman()
    if t.bool(0.3):  # something else first
        m = t.int(1, 6)
        bk.compute(np.eye(m))
    F = np.tril(A) + np.triu(np.full((n, n), 123.0), 1) if t.bool(0.3) else A
    q = bk.compute(in_array(t, F))
    tol = 1e-9 * e.max() / e.min()
    b, B = t.vec(n), t.mat(n, t.int(1, 3))
    def solve(r):
        # one column and one vector may be the same thing to the module
        z = bk.solve(in_array(t, r))
        return z.reshape(r.shape) if z.size == n else z

    same(solve(b), np.linalg.solve(A, b), "solve", tol)
    same(solve(B), np.linalg.solve(A, B), "solve with a matrix", tol)
    X = B.copy(order="K")
    assert bk.solveInPlace(X)
    same(X, np.linalg.solve(A, B), "solveInPlace", tol)
    M = bk.matrixLDLT()
    assert M.shape == (n, n)
    M[:] = 1e9
    assert bk.subdiag().shape in ((n,), (max(n - 1, 0),)), bk.subdiag().shape
    assert len(bk.pivots()) == n
    same(solve(b), np.linalg.solve(A, b), "solve after writing to the copy of the factors", tol)
    x = q.solve(b)
    pv = bk.pivots()
    pc = np.array(pv)
    del bk
    keep = churn()
    identical(q.solve(b), x, "what compute returned, after its owner's name went away")
    identical(pv, pc, "pivots")
    for c in ("DenseLDLT", "BlockLDLT"):
        assert hasattr(P, c)
    t.note("n=%d" % n)


# ---------------------------------------------------------------- polymorphic
@sub("C29", "polymorphic", "an object of a class defined in Python was stored in a C++ object", 24000, 240000)
def polymorphic(t):
    start()
    gc.collect() if t.bool(0.02) else None

    class Law(VP.Law):
        def __init__(self, k=1.0, extra=0.0):
            super().__init__(k)
            self.extra = extra

        def eval(self, x):
            return 2.0 * self.k * x + self.extra

    class Aff(VP.Affine):
        def __init__(self, k=1.0, c=0.0):
            super().__init__(k, c)
            self.data = [c]

        def __getinitargs__(self):
            return (self.k, self.c)

        def eval(self, x):
            return VP.Affine.eval(self, x) + self.data[0]

    def value(m, x):
        kind, k, c = m
        return {"L": lambda: k * x, "A": lambda: k * x + c, "l": lambda: 2 * k * x + c,
                "a": lambda: k * x + 2 * c}[kind]()

    def obj():
        kind, k, c = t.pick(["L", "A", "l", "a"]), t.real(), t.real()
        o = {"L": lambda: VP.Law(k), "A": lambda: VP.Affine(k, c), "l": lambda: Law(k, c), "a": lambda: Aff(k, c)}[kind]()
        return o, (kind, k, c)

    base = VP.alive()
    x = t.vec(1)[0]
    stores, many, model = [], VP.Stores(), []
    for _ in range(t.int(1, 8)):
        op = t.int(0, 8)
        if op == 0 or not stores:
            o, m = obj()
            stores.append((VP.Store(o), m))
            if m[0] in "la":
                t.nontrivial = True
            # a copy: what happens to the original does not matter
            if t.bool():
                o.k = 77.0
                if m[0] == "l":
                    o.extra = 55.0
                if m[0] == "a":
                    o.data[0] = 44.0
            del o
        elif op == 1:
            o, m = obj()
            i = t.int(0, len(stores) - 1)
            stores[i][0].set(o)
            stores[i] = (stores[i][0], m)
        elif op == 2:
            i, j = t.int(0, len(stores) - 1), t.int(0, len(stores) - 1)
            if i != j:
                stores[i][0].take(stores[j][0])
                stores[i] = (stores[i][0], stores[j][1])
        elif op in (3, 4):
            o, m = obj()
            if op == 3:
                many.add(o), model.append(m)
            else:
                many.insert(o), model.insert(0, m)
        elif op == 5 and model:
            i = t.int(0, len(model) - 1)
            many.erase(i)
            del model[i]
        elif op == 6:
            o, m = obj()
            same(VP.eval_poly(o, x), value(m, x), "argument of a call")
            same(VP.eval_copy(o, x), value(m, x), "copied argument of a call")
            same(o.eval(x), value(m, x), "the object after its use")
        elif op == 7:
            del stores[t.int(0, len(stores) - 1)]
        if t.bool(0.1):
            keep = churn()
        for s, m in stores:
            same(s.eval(x), value(m, x), "stored object")
            same(s.k(), m[1], "C++ part of a stored object")
        for i, m in enumerate(model):
            same(many.eval(i, x), value(m, x), "object %d of a vector" % i)
    t.note("stores=%s vector=%s" % ([m[0] for _, m in stores], [m[0] for m in model]))
    if t.bool(0.1):  # nothing leaks
        n = len(stores) + len(model)
        stores, many, model, s = None, None, None, None
        o = None
        gc.collect()
        assert VP.alive() <= base, "%d objects more than before" % (VP.alive() - base)
        t.label("leaks")
        return
    # access from Python to what is stored
    for s, m in stores[:2]:
        y = s.x
        same(y.eval(x), value(m, x), "the stored object seen from Python")
        assert type(y).__name__ == {"L": "Law", "A": "Affine", "l": "Law", "a": "Aff"}[m[0]], type(y)
        same(y.k, m[1], "attribute of the stored object")
        if m[0] == "l":
            y.extra = 9.0
            same(s.eval(x), 2 * m[1] * x + 9.0, "changed attribute of a stored object")
    vs = many.get()
    assert len(vs) == len(model)


# -------------------------------------------------------------------- helpers
class FakeAxes:
    def __init__(self):
        from unittest.mock import MagicMock
        self.lines, self.lim = [], None
        self.spines = {k: MagicMock() for k in ("top", "right", "left", "bottom")}
        self.yaxis = MagicMock()
        self.scale = "linear"

    def plot(self, y, **kw):
        self.lines.append(np.asarray(y, dtype=float))

    def set_yscale(self, s):
        self.scale = s

    def get_ylim(self):
        ys = np.concatenate(self.lines) if self.lines else np.zeros(0)
        ys = ys[np.isfinite(ys) & (ys > 0)]
        return (ys.min() / 2, ys.max() * 2) if ys.size else (0.0, 1.0)

    def set_ylim(self, lo, hi):
        self.lim = (lo, hi)

    def set_xlabel(self, *a, **k):
        pass

    set_title = legend = set_ylabel = set_xlabel


@sub("C29", "plots", "both sequences have values", 12000, 120000)
def plots(t):
    start()
    sys.modules.setdefault("matplotlib", types.ModuleType("matplotlib"))
    if "matplotlib.pyplot" not in sys.modules:
        m = types.ModuleType("matplotlib.pyplot")
        m.Axes = FakeAxes
        sys.modules["matplotlib.pyplot"] = sys.modules["matplotlib"].pyplot = m

    def errs():
        return [0.0 if t.bool(0.3) else 10.0 ** t.int(-18, 3) for _ in range(t.int(0, 5))]

    a, b = errs(), errs()
    if t.bool():
        a, b = np.array(a), tuple(b)
    ax = FakeAxes()
    P.utils.plot_pd_errs(ax, a, b)
    t.nontrivial = len(a) > 0 and len(b) > 0
    t.note("%s %s -> %s" % (list(a), list(b), ax.lim))
    assert len(ax.lines) == 2 and ax.scale == "log"
    identical(ax.lines[0], np.array(a, dtype=float), "first line"), identical(ax.lines[1], np.array(b, dtype=float), "second line")
    if ax.lim is not None:
        lo, hi = ax.lim
        assert 0 < lo <= hi < np.inf, "limits of the axis: %s" % (ax.lim,)
        seen = [v for v in list(a) + list(b) if v > 1e-15]
        assert not seen or lo <= min(seen) and max(seen) <= hi, "the limits %s hide one of %s" % (ax.lim, seen)


def fake_package(name, real, fail, events):
    """The package's Python files as another package, with a binary part which may fail to import."""
    import importlib.abc, importlib.machinery, importlib.util
    d = os.path.dirname(real.__file__)

    class Loader(importlib.abc.Loader):
        def create_module(self, spec):
            return None

        def exec_module(self, m):
            events.append("import")
            if fail[0] > 0:
                fail[0] -= 1
                raise ImportError("no DLL")
            m.__version__ = "0"
            m.answer = 42
            m.__file__ = "binary"
            sm = types.ModuleType("wrong_name")
            m.part = sm

    class Finder(importlib.abc.MetaPathFinder):
        def find_spec(self, full, path=None, target=None):
            if full == name:
                return importlib.util.spec_from_file_location(full, os.path.join(d, "__init__.py"),
                                                              submodule_search_locations=[d])
            if full == name + ".pyproxsuite_nlp":
                return importlib.machinery.ModuleSpec(full, Loader())
            return None

    return Finder()


@sub("C29", "package", "the first import of the binary part failed", 4500, 45000)
def package(t):
    start()
    import importlib, platform
    for m in ("manifolds", "residuals", "costs", "constraints", "helpers", "autodiff"):
        mod = importlib.import_module("proxsuite_nlp." + m)
        assert mod is getattr(P, m) and mod.__name__ == "proxsuite_nlp." + m, m
    assert P.__version__ == P.pyproxsuite_nlp.__version__ and P.__version__.count(".") == 2
    name = "vp_fake_package"
    events, opened = [], []
    windows = t.bool(0.7)
    fail = [t.int(0, 2)]
    nfail = fail[0]
    dirs = ["/d%d" % i for i in range(t.int(1, 3))] if t.bool() else None
    bad = t.int(0, 2) if t.bool(0.3) else None

    class Handle:
        def __init__(self, d):
            self.d, self.open = d, True
            opened.append(self)

        def close(self):
            self.open = False

    def add(d):
        events.append(d)
        if bad is not None and len([e for e in events if e != "import"]) - 1 == bad:
            raise OSError("no such directory")
        return Handle(d)

    f = fake_package(name, P, fail, events)
    old = (platform.system, os.environ.get("PROXSUITE_NLP_WINDOWS_DLL_PATH"), getattr(os, "add_dll_directory", None))
    sys.meta_path.insert(0, f)
    platform.system = lambda: "Windows" if windows else "Linux"
    os.add_dll_directory = add
    os.environ.pop("PROXSUITE_NLP_WINDOWS_DLL_PATH", None)
    if dirs is not None:
        os.environ["PROXSUITE_NLP_WINDOWS_DLL_PATH"] = os.pathsep.join(dirs)
    ok, path = True, os.environ["PATH"]
    try:
        try:
            m = importlib.import_module(name)
        except ImportError as e:
            assert "no DLL" in str(e), repr(e)
            ok = False
        else:
            assert m.answer == 42 and m.__version__ == "0"
            part = sys.modules.get("proxsuite_nlp.part")
            assert part is not None and part.__name__ == "proxsuite_nlp.part" and part.__file__ == "binary"
    finally:
        sys.meta_path.remove(f)
        platform.system = old[0]
        os.environ.pop("PROXSUITE_NLP_WINDOWS_DLL_PATH", None)
        if old[1] is not None:
            os.environ["PROXSUITE_NLP_WINDOWS_DLL_PATH"] = old[1]
        if old[2] is None:
            del os.add_dll_directory
        for k in [k for k in sys.modules if k.startswith(name) or k == "proxsuite_nlp.part"]:
            del sys.modules[k]
    assert os.environ["PATH"] == path
    t.nontrivial = nfail > 0
    t.note("windows=%s failures=%d dirs=%s" % (windows, nfail, dirs))
    assert ok == (nfail == 0 or windows and nfail == 1), "import %s" % ("worked" if ok else "failed")
    assert all(not h.open for h in opened), "a handle to a directory was left open"
    tried = [e for e in events if e != "import"]
    if nfail and windows:
        assert events[0] == "import" and events[-1] == "import" and len(tried) >= 1, events
        if dirs is not None:
            assert tried == dirs, (tried, dirs)
    else:
        assert not tried
    # the variant which works on PATH
    W = importlib.import_module("proxsuite_nlp.windows_dll_manager")
    with W.PathManager() as pm:
        pm.add_dll_directory("/vp/x")
        assert os.environ["PATH"].split(os.pathsep)[-1] == "/vp/x"
    assert os.environ["PATH"] == path
    try:
        with W.PathManager() as pm:
            pm.add_dll_directory("/vp/x")
            raise Marker("inside")
    except Marker:
        pass
    assert os.environ["PATH"] == path


# -------------------------------------------------------------------- symbolic
def casadi_stand_in():
    """The part of CasADi's interface the package uses, for polynomials (exponents of variables -> coefficient)."""
    if "casadi" in sys.modules:
        return sys.modules["casadi"]
    count = [0]

    def padd(p, q):
        r = dict(p)
        for k, v in q.items():
            r[k] = r.get(k, 0.0) + v
        return r

    def pmul(p, q):
        r = {}
        for k, v in p.items():
            for l, w in q.items():
                e = dict(k)
                for i, n in l:
                    e[i] = e.get(i, 0) + n
                e = tuple(sorted(e.items()))
                r[e] = r.get(e, 0.0) + v * w
        return r

    def pdiff(p, i):
        r = {}
        for k, v in p.items():
            e = dict(k)
            n = e.pop(i, 0)
            if n:
                if n > 1:
                    e[i] = n - 1
                e = tuple(sorted(e.items()))
                r[e] = r.get(e, 0.0) + n * v
        return r

    def psub(p, env):
        r = {}
        for k, v in p.items():
            m = {(): v}
            for i, n in k:
                for _ in range(n):
                    m = pmul(m, env.get(i, {((i, 1),): 1.0}))
            r = padd(r, m)
        return r

    class SX:
        def __init__(self, e):
            self.e = e  # rows of polynomials
            self.shape = (len(e), len(e[0]) if e else 0)

        @staticmethod
        def sym(name, n, m=1):
            rows = []
            for _ in range(n):
                rows.append([])
                for _ in range(m):
                    count[0] += 1
                    rows[-1].append({((count[0], 1),): 1.0})
            return SX(rows)

        @staticmethod
        def zeros(n, m=1):
            return SX([[{} for _ in range(m)] for _ in range(n)])

        @staticmethod
        def of(a):
            a = np.asarray(a, dtype=float)
            a = a.reshape(a.shape[0], -1)
            return SX([[{(): v} for v in row] for row in a.tolist()])

        @property
        def T(self):
            return SX([[self.e[i][j] for i in range(self.shape[0])] for j in range(self.shape[1])])

        def __add__(self, o):
            assert self.shape == o.shape, "dimension mismatch"
            return SX([[padd(p, q) for p, q in zip(a, b)] for a, b in zip(self.e, o.e)])

        def __mul__(self, o):
            assert self.shape == o.shape, "dimension mismatch"
            return SX([[pmul(p, q) for p, q in zip(a, b)] for a, b in zip(self.e, o.e)])

        def __matmul__(self, o):
            assert self.shape[1] == o.shape[0], "dimension mismatch"
            rows = []
            for i in range(self.shape[0]):
                rows.append([])
                for j in range(o.shape[1]):
                    p = {}
                    for k in range(self.shape[1]):
                        p = padd(p, pmul(self.e[i][k], o.e[k][j]))
                    rows[-1].append(p)
            return SX(rows)

        def ids(self):
            out = []
            for i in range(self.shape[0]):
                for j in range(self.shape[1]):
                    (k, v), = self.e[i][j].items()
                    assert v == 1.0 and len(k) == 1 and k[0][1] == 1, "not a symbol"
                    out.append(k[0][0])
            return out

    class DM:
        def __init__(self, a):
            self.a = a

        def __array__(self, dtype=None, copy=None):
            return self.a if dtype is None else self.a.astype(dtype)

    def substitute(e, x, y):
        assert x.shape == y.shape, "dimension mismatch"
        env = dict(zip(x.ids(), [p for row in y.e for p in row]))
        return SX([[psub(p, env) for p in row] for row in e.e])

    def jacobian(e, x):
        ids = x.ids()
        return SX([[pdiff(e.e[i][j], k) for k in ids] for j in range(e.shape[1]) for i in range(e.shape[0])])

    class Function:
        def __init__(self, name, args, outs):
            self.args, self.out = args, outs[0]
            known = {i for a in args for i in a.ids()}
            used = {i for row in self.out.e for p in row for k in p for i, _ in k}
            assert used <= known, "free variables in " + name

        def __call__(self, *vals):
            assert len(vals) == len(self.args), "number of arguments"
            env = {}
            for a, v in zip(self.args, vals):
                v = np.asarray(v, dtype=float).reshape(-1)
                assert v.size == a.shape[0] * a.shape[1], "dimension mismatch"
                env.update(zip(a.ids(), v.tolist()))
            r = np.zeros(self.out.shape)
            for i, row in enumerate(self.out.e):
                for j, p in enumerate(row):
                    s = 0.0
                    for k, c in p.items():
                        for l, n in k:
                            c *= env[l] ** n
                        s += c
                    r[i, j] = s
            return DM(r)

    m = types.ModuleType("casadi")
    m.SX, m.DM, m.Function, m.substitute, m.jacobian = SX, DM, Function, substitute, jacobian
    sys.modules["casadi"] = m
    return m


@sub("C29", "symbolic", "the expression is not linear and has two or more variables", 12000, 120000)
def symbolic(t):
    start()
    import importlib
    ca = casadi_stand_in()
    U = importlib.import_module("proxsuite_nlp.casadi_utils")
    n, nr = t.int(1, 3), t.int(1, 3)
    A, b, B, W = t.mat(nr, n), t.vec(nr), t.mat(nr, n), t.mat(nr, n)
    cubic, hess = t.bool(), t.bool(0.7)
    x = ca.SX.sym("x", n)
    y = ca.SX.of(B) @ x
    e = ca.SX.of(A) @ x + ca.SX.of(b) + y * y
    if cubic:
        z = ca.SX.of(W) @ x
        e = e + y * z * z
    c = float(cubic)
    r = lambda q: A @ q + b + (B @ q) ** 2 + c * (B @ q) * (W @ q) ** 2

    def J(q):
        u, w = B @ q, W @ q
        return A + (2 * u + c * w ** 2)[:, None] * B + (2 * c * u * w)[:, None] * W

    def H(q, v):
        if not hess:
            return np.zeros((n, n))
        u, w = B @ q, W @ q
        s = np.zeros((n, n))
        for i in range(nr):
            bb, ww = np.outer(B[i], B[i]), np.outer(W[i], W[i])
            bw = np.outer(B[i], W[i])
            s += v[i] * (2 * bb + c * (2 * w[i] * (bw + bw.T) + 2 * u[i] * ww))
        return s

    f = U.CasadiFunction(n, n, e, x) if hess and t.bool() else U.CasadiFunction(n, n, e, x, use_hessian=hess)
    assert (f.nx, f.ndx, f.nr) == (n, n, nr)
    how = t.int(0, 2)
    g = f
    if how == 1:
        T, o = t.mat(n, n), t.vec(n)
        g = f @ residuals.LinearFunction(T, o)
    elif how == 2:
        K = constraints.createEqualityConstraint(f)
        g = K.func
    if t.bool():
        del f, e, x, y
        keep = churn()
    t.nontrivial = n > 1
    t.note("n=%d nr=%d cubic=%d hessian=%d use=%d" % (n, nr, cubic, hess, how))
    for _ in range(2):
        q, v = t.vec(n), t.vec(nr)
        if how == 1:
            same(g(q), r(T @ q + o), "value")
            same(g.getJacobian(q), J(T @ q + o) @ T, "Jacobian")
            continue
        same(g(in_array(t, q)), r(q), "value")
        same(g.getJacobian(in_array(t, q)), J(q), "Jacobian")
        same(g.getVHP(q, v), H(q, v), "product with the Hessian")
        Jo, Ho = out_array(t, nr, n), out_array(t, n, n)
        g.computeJacobian(q, Jo)
        g.vectorHessianProduct(q, v, Ho)
        same(Jo, J(q), "computeJacobian")
        same(Ho, H(q, v), "vectorHessianProduct")


@sub("C29", "curvature", "a constraint is curved where its multiplier estimate is not zero", 3000, 30000)
def curvature(t):
    """The system of the first iteration holds the Hessians which the chosen approximation asks for."""
    start()
    C = classes()
    n = t.int(1, 3)
    V = manifolds.VectorSpace(n)
    x0, mu, rho = t.vec(n), t.pick([1e-2, 0.1, 1.0]), t.pick([0.0, 0.0, 0.3])
    tg, W = t.vec(n), np.diag(np.abs(t.vec(n)) + 0.5)
    cost = costs.QuadraticDistanceCost(V, tg, W)
    beta = t.pick([0.5, 0.5, 0.8])
    Q0, cs, want, Js, scale = W + rho * np.eye(n), [], np.zeros((n, n)), [], 1.0
    parts = []
    for _ in range(t.int(1, 3)):
        nr, kind = t.int(1, 2), t.int(0, 2)
        m = model_quad([0.5 * (M + M.T) for M in (t.mat(n, n) for _ in range(nr))], t.mat(nr, n), t.vec(nr))
        lo, hi = -np.abs(t.vec(nr)), np.abs(t.vec(nr))
        S = [constraints.EqualityConstraintSet, constraints.NegativeOrthant, lambda: constraints.BoxConstraint(lo, hi)][kind]()
        f = C.PyFun(m, V if t.bool() else None)
        if kind == 0 and t.bool(0.3):
            cs.append(constraints.createEqualityConstraint(f))
        elif kind == 1 and t.bool(0.3):
            cs.append(constraints.createInequalityConstraint(f))
        else:
            cs.append(constraints.ConstraintObject(f, S))
        c = m["r"](x0)
        if kind and np.min(np.abs(np.concatenate([c, c - lo, c - hi]))) < 1e-9:
            c, f = c + 0.37, C.PyFun(model_shift(m, 0.37))  # away from the kinks
            cs[-1:] = [constraints.ConstraintObject(f, S)]
            if np.min(np.abs(np.concatenate([c, c - lo, c - hi]))) < 1e-9:
                return
        z = [c, np.maximum(c, 0), c - np.clip(c, lo, hi)][kind]
        H = m["H"](x0, z / (mu * beta))
        scale += np.abs(H).max()
        if np.any(H):
            t.nontrivial = True
        want = want + H
        Js.append(m["J"](x0) * ((z != 0) | (kind == 0))[:, None])
        parts.append(H)
    p = P.Problem(V, cost, cs)
    s = P.ProxNLPSolver(p, 1e-12, mu, rho)
    exact = t.pick([None, True, False])
    if exact is not None:
        s.hess_approx = P.HessianApprox.HESSIAN_EXACT if exact else P.HessianApprox.HESSIAN_GAUSS_NEWTON
    pd = t.bool()
    s.kkt_system = P.KktSystem.KKT_PRIMAL_DUAL if pd else P.KktSystem.KKT_CLASSIC
    s.setDualPenalty(beta)
    s.max_iters = 1
    s.setup()
    del p, cs
    o = run(s, lambda: s.solve(x0))
    t.note("n=%d exact=%s primal-dual=%s beta=%g" % (n, exact, pd, beta))
    if "raised" in o or o["it"] != 1 or o["mu"] != mu or o["rho"] != rho:
        t.nontrivial = False
        return
    w = s.workspace
    K, use = np.array(w.kkt_matrix), exact is None and s.hess_approx == P.HessianApprox.HESSIAN_EXACT or exact
    same(K[:n, :n], Q0 + (want if use else 0), "Hessian of the system", 1e-8 * scale)
    same(np.array(w.data_hessians), np.vstack(parts) if use else np.zeros((n * len(parts), n)), "Hessians of the constraints", 1e-8 * scale)
    A = np.vstack(Js)
    same(K[n:, :n], A, "Jacobian of the system", 1e-8)
    same(K[:n, n:], A.T, "Jacobian of the system", 1e-8)
    act = np.abs(A).max(axis=1) > 0
    D = K[n:, n:]
    assert not np.any(D - np.diag(np.diag(D))), "lower right block"
    same(np.diag(D)[act], -mu * np.ones(act.sum()), "lower right block")
    off = np.array([not np.any(r) for r in A])
    for i in np.where(off)[0]:
        assert min(abs(D[i, i] + mu), abs(D[i, i] + beta * mu)) <= 1e-12, "lower right block"
        if not pd:
            assert abs(D[i, i] + mu) <= 1e-12, "lower right block of the classic system"
    # one outer iteration: which estimate becomes the new multiplier
    s.max_iters, s.max_al_iters = 50, 1
    mode = t.pick(["MUL_NEWTON", "MUL_PRIMAL", "MUL_PRIMAL_DUAL"])
    s.mul_update_mode = getattr(P.MultiplierUpdateMode, mode)
    o = run(s, lambda: s.solve(x0))
    r = s.results
    if "raised" in o or r.converged != P.ConvergenceFlag.uninit or not r.prim_infeas < 0.3:
        return
    t.label(mode)
    lam = np.array(r.data_lamsopt)
    if mode == "MUL_NEWTON":
        same(np.array(w.dual_residuals), np.array(w.objective_gradient) + np.array(w.data_jacobians).T @ lam, "multipliers which were kept", 1e-9)
    else:
        identical(lam, w.data_lams_plus if mode == "MUL_PRIMAL" else w.data_lams_pdal, "multipliers after %s" % mode)


# ------------------------------------------------------------------ attributes
ARGS = [("tol", "target_tol", [1e-6, 1e-4, 1e-3]), ("mu_init", "mu_init", [0.2, 0.5, 1e-3]),
        ("rho_init", "rho_init", [0.3, 1e-2]), ("verbose", "verbose", [0]), ("mu_min", "mu_lower", [1e-7, 1e-5]),
        ("prim_alpha", ("bcl_params", "prim_alpha"), [0.2, 0.4]), ("prim_beta", ("bcl_params", "prim_beta"), [0.7, 0.6]),
        ("dual_alpha", ("bcl_params", "dual_alpha"), [0.8, 1.1]), ("dual_beta", ("bcl_params", "dual_beta"), [0.5, 1.2]),
        ("ldlt_choice", "ldlt_choice", ["LDLT_DENSE", "LDLT_BUNCHKAUFMAN", "LDLT_BLOCKSPARSE", "LDLT_EIGEN"])]
DEFAULTS = [1e-6, 1e-2, 0.0, 0, 1e-9, 0.1, 0.9, 1.0, 1.0, "LDLT_DENSE"]


@sub("C29", "attributes", "there is a constraint and the solver made an iteration", 4500, 45000)
def attributes(t):
    start()
    n, V, cost, grad, cons = gen_problem(t)
    p = make_problem(t, V, cost, cons, False)
    nr = [c[3].shape[0] for c in cons]
    m = sum(nr)

    def conv(k, v):
        return P.VerboseLevel.QUIET if k == "verbose" else getattr(P.LDLTChoice, v) if k == "ldlt_choice" else v

    npos = t.int(0, len(ARGS))
    pos = [conv(k, t.pick(v)) for k, _, v in ARGS[:npos]]
    kw = {k: conv(k, t.pick(v)) for k, _, v in ARGS[npos:] if t.bool(0.4)}
    s = P.ProxNLPSolver(p, *pos, **kw)
    for i, (k, a, _) in enumerate(ARGS):
        w = pos[i] if i < npos else kw.get(k, conv(k, DEFAULTS[i]))
        assert get(s, a) == w, "argument %s: %r instead of %r" % (k, get(s, a), w)

    def pieces(l, d, what):
        assert len(l) == len(nr), what
        o = 0
        for e, k in zip(l, nr):
            e = np.asarray(e)
            assert np.array_equal(e, np.asarray(d)[o:o + k], equal_nan=True), "part of " + what
            o += k
        assert o == len(d), what

    def check_ws(w):
        assert w.kkt_matrix.shape == (n + m, n + m) and w.data_jacobians.shape == (m, n)
        for a in ("kkt_rhs", "kkt_err", "pd_step"):
            assert getattr(w, a).shape == (n + m,), a
        for a in ("objective_gradient", "merit_gradient", "dual_residuals"):
            assert getattr(w, a).shape == (n,), a
        assert w.objective_hessian.shape == (n, n)
        st = np.array(w.pd_step)
        assert np.array_equal(w.prim_step, st[:n], equal_nan=True) and np.array_equal(w.dual_step, st[n:], equal_nan=True)
        pieces(w.cstr_values, w.data_cstr_values, "constraint values")
        pieces(w.lams_plus, w.data_lams_plus, "first-order multipliers")
        pieces(w.lams_pdal, w.data_lams_pdal, "primal-dual multipliers")
        pieces(w.cstr_jacobians, w.data_jacobians, "constraint Jacobians")
        pieces(w.cstr_jacobians_proj, w.data_jacobians_proj, "projected constraint Jacobians")
        assert len(w.data_shift_cstr_values) == m and len(w.lams_plus_reproj) == len(nr)
        assert w.merit_dual_gradient.shape == (m,)

    def check_res(r):
        assert r.xopt.shape == (n,) and r.data_lamsopt.shape == (m,)
        pieces(r.lamsopt, r.data_lamsopt, "multipliers")
        assert [np.asarray(e).size for e in r.activeset] == nr and len(r.constraint_errs) == len(nr)
        lines = dict(l.strip().rstrip(",").split(":", 1) for l in str(r).split("\n")[1:-1] if ":" in l)
        lines = {k: v.strip() for k, v in lines.items()}
        for k, v in (("merit", r.merit), ("value", r.value), ("mu", r.mu), ("rho", r.rho), ("prim_infeas", r.prim_infeas),
                     ("dual_infeas", r.dual_infeas)):
            assert lines[k] == "%.3e" % v, "%s is printed as %s, not %.3e" % (k, lines[k], v)
        assert lines["num_iters"] == "%d" % r.num_iters
        for i, e in enumerate(r.activeset):
            assert [int(u) for u in lines["activeSet[%d]" % i].strip("[]").replace(",", " ").split()] == [int(u) for u in np.asarray(e)], "active set"

    fresh, ws = P.Results(p), P.Workspace(p)
    assert fresh.converged == P.ConvergenceFlag.uninit and fresh.num_iters == 0
    check_res(fresh), check_ws(ws)
    # a problem whose parts are replaced
    if t.bool(0.3):
        t.label("replaced cost")
        tg = t.vec(n)
        c2 = costs.QuadraticDistanceCost(V, tg, 2 * np.eye(n))
        p.cost = c2
        cost, grad = c2, lambda x: 2 * (x - tg)
        del c2
        keep = churn()
    x = t.vec(n)
    same(p.cost.call(x), cost.call(x), "cost of the problem")
    same(p.manifold.neutral(), np.zeros(n), "space of the problem")
    s.max_iters = t.pick([0, 1, 2, 5, 100])
    beta = 0.5
    if t.bool():
        beta = t.pick([0.5, 0.6, 0.75, 0.9])
        s.setDualPenalty(beta)
    kkt = t.pick([None, P.KktSystem.KKT_CLASSIC, P.KktSystem.KKT_PRIMAL_DUAL])
    if kkt is not None:
        s.kkt_system = kkt
    if t.bool(0.3):  # solve() starts from the initial parameters
        s.setPenalty(t.pick([1e-3, 0.7]))
        s.setProxParameter(t.pick([0.0, 0.4]))
    s.setup()
    o = run(s, lambda: s.solve(x))
    t.note("n=%d constraints=%d args=%d -> %s" % (n, len(cons), npos, o.get("flag", "raised")))
    if "raised" in o:
        return
    r, w = s.results, s.workspace
    t.nontrivial = bool(cons) and r.num_iters > 0
    check_ws(w), check_res(r)
    if str(r.converged).endswith("success"):
        t.label("success")
        same(r.value, cost.call(np.array(r.xopt)), "value at the solution")
        k = grad(np.array(r.xopt)) + sum((c[3].T @ np.array(l) for c, l in zip(cons, r.lamsopt)), np.zeros(n))
        assert np.abs(k).max() <= 10 * s.target_tol + 1e-9 * (1 + np.abs(np.array(r.data_lamsopt)).sum()), "stationarity %g" % np.abs(k).max()
        for c, l, e in zip(cons, r.lamsopt, r.constraint_errs):
            v = c[3] @ np.array(r.xopt) + c[4]
            if c[2] == 0:
                same(e, np.abs(v).max(), "violation of a constraint", 1e-6)
        # what the workspace holds was evaluated at the solution
        xo, lam = np.array(r.xopt), np.array(r.data_lamsopt)
        A = np.vstack([c[3] for c in cons] + [np.zeros((0, n))])
        b = np.concatenate([c[4] for c in cons] + [np.zeros(0)])
        plus, pdal = np.array(w.data_lams_plus), np.array(w.data_lams_pdal)
        big = 1 + np.abs(plus).sum() + np.abs(pdal).sum() + np.abs(lam).sum()
        tl = 1e-9 * big
        same(w.objective_value, r.value, "value of the objective")
        same(w.objective_gradient, grad(xo), "gradient of the objective", tl)
        same(w.objective_hessian, cost.computeHessian(xo), "Hessian of the objective")
        same(w.data_cstr_values, A @ xo + b, "constraint values", tl)
        same(w.data_jacobians, A, "Jacobians of the constraints")
        same(w.dual_residuals, grad(xo) + A.T @ lam, "dual residual", tl)
        assert w.data_hessians.shape == (len(cons) * n, n) and not np.any(w.data_hessians), "Hessians of linear constraints"
        same(w.merit_dual_gradient, (1 - beta) * r.mu * (lam - pdal), "dual gradient of the merit function", tl)
        rest = pdal if s.kkt_system == P.KktSystem.KKT_PRIMAL_DUAL else plus
        same(np.array(w.kkt_rhs)[n:], (beta if rest is pdal else 1.0) * r.mu * (rest - lam), "right-hand side", tl)
        if s.rho_init == 0:
            same(np.array(w.kkt_rhs)[:n], np.array(w.dual_residuals), "right-hand side", tl)
            same(w.merit_gradient, grad(xo) + A.T @ pdal, "gradient of the merit function", tl)
        at = 0
        for c, u, z in zip(cons, r.lamsopt, w.lams_plus_reproj):
            k = c[3].shape[0]
            if c[2] == 0:
                same(pdal[at:at + k], (plus[at:at + k] - (1 - beta) * np.array(u)) / beta, "primal-dual multipliers", 10 * tl)
            assert not np.any(z), "the projection is constant where there is a multiplier"
            at += k
    if "raised" not in o and r.num_iters > 0 and s.kkt_system == P.KktSystem.KKT_CLASSIC:
        D = np.array(w.kkt_matrix)[n:, n:]
        assert not np.any(D - np.diag(np.diag(D))) and len(set(np.diag(D).tolist())) <= 1, "lower right block of the classic system"
    import warnings
    with warnings.catch_warnings(record=True) as got:
        warnings.simplefilter("always")
        a, b = s.getResults(), s.getWorkspace()
    assert len(got) == 2 and all(issubclass(g.category, DeprecationWarning) for g in got), [str(g.message) for g in got]
    del r, w, s, p, cost
    if t.bool():
        keep = churn()
    identical(a.xopt, o["x"], "results of a solver which went away")
    check_res(a), check_ws(b)


if __name__ == "__main__":
    sys.exit(main())
