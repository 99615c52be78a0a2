"""Stand-in for the CBC binary bundled with python-mip (it crashes in this sandbox): the model that the code under test wrote through python-mip is
read back and solved by HiGHS (scipy.optimize.milp).  Only the solver's own entry points are replaced; every variable, constraint, objective
and warm start is the one the library's code added, and every value it reads comes from a solution of exactly that model.

install(memory=True) also keeps the rows and columns in Python, for checks that load OR-tools too: its libraries and the bundled CBC cannot live in one
process here.

The solution pool holds an optimum first and then, when it is feasible, the warm start of the caller (a worse or equal solution).  LOG records each solve."""
import numpy as np
from scipy.optimize import LinearConstraint, Bounds, milp
from scipy.sparse import csr_matrix

import sys
import types

import mip

LOG = []
_done = False
EPS = 1e-6


class Pool:
    def __init__(self):
        self.values = []
        self.objs = []


def read(solver):
    model = solver.model
    vs = list(model.vars)
    n = len(vs)
    lb = np.array([v.lb for v in vs], dtype=float)
    ub = np.array([v.ub for v in vs], dtype=float)
    lb[lb <= -1e15] = -np.inf
    ub[ub >= 1e15] = np.inf
    integ = np.array([0 if v.var_type == mip.CONTINUOUS else 1 for v in vs])
    for i, v in enumerate(vs):
        if v.var_type == mip.BINARY:
            lb[i], ub[i] = max(lb[i], 0.0), min(ub[i], 1.0)
    c = np.zeros(n)
    obj = model.objective
    const = 0.0
    for v, k in obj.expr.items():
        c[v.idx] += k
    const = obj.const
    sense = 1.0 if model.sense == mip.MINIMIZE else -1.0
    rows, cols, dat, lo, hi = [], [], [], [], []
    for i, con in enumerate(model.constrs):
        e = con.expr
        for v, k in e.expr.items():
            rows.append(i)
            cols.append(v.idx)
            dat.append(k)
        rhs = -e.const
        lo.append(rhs if e.sense in ('>', '=') else -np.inf)
        hi.append(rhs if e.sense in ('<', '=') else np.inf)
    A = csr_matrix((dat, (rows, cols)), shape=(len(lo), n)) if lo else None
    return vs, c, const, sense, integ, lb, ub, A, np.array(lo), np.array(hi)


def optimize(solver, relax=False, *_a, **_k):
    vs, c, const, sense, integ, lb, ub, A, lo, hi = read(solver)
    pool = Pool()
    solver._vk_pool = pool
    solver._vk_relax = relax
    kw = dict(c=sense * c, integrality=np.zeros_like(integ) if relax else integ, bounds=Bounds(lb, ub))
    if A is not None:
        kw['constraints'] = LinearConstraint(A, lo, hi)
    r = milp(**kw)
    entry = {'n': len(vs), 'm': 0 if A is None else A.shape[0], 'status': int(r.status), 'start': None}
    LOG.append(entry)
    if r.x is None:
        solver._vk_status = mip.OptimizationStatus.INFEASIBLE if r.status == 2 else mip.OptimizationStatus.UNBOUNDED if r.status == 3 else mip.OptimizationStatus.NO_SOLUTION_FOUND
        return solver._vk_status
    x = np.where(integ > 0, np.round(r.x), r.x) if not relax else r.x
    pool.values.append(x)
    pool.objs.append(float(c @ x + const))
    solver._vk_bound = pool.objs[0]
    entry['obj'] = pool.objs[0]
    start = solver.model.start
    if start and not relax:
        s = np.full(len(vs), np.nan)
        for v, k in start:
            s[v.idx] = k
        if not np.isnan(s).any():
            ok = bool((s >= lb - EPS).all() and (s <= ub + EPS).all())
            if ok and A is not None:
                ax = A @ s
                ok = bool((ax >= lo - EPS).all() and (ax <= hi + EPS).all())
            entry['start'] = ok
            if ok and not np.allclose(s, x):
                pool.values.append(s)
                pool.objs.append(float(c @ s + const))
        else:
            # complete a partial start with the solver itself
            l2, u2 = lb.copy(), ub.copy()
            k = ~np.isnan(s)
            l2[k], u2[k] = s[k], s[k]
            if (s[k] >= lb[k] - EPS).all() and (s[k] <= ub[k] + EPS).all():
                kw['bounds'] = Bounds(l2, u2)
                r2 = milp(**kw)
                entry['start'] = r2.x is not None
                if r2.x is not None and not np.allclose(r2.x, x):
                    y = np.where(integ > 0, np.round(r2.x), r2.x)
                    pool.values.append(y)
                    pool.objs.append(float(c @ y + const))
            else:
                entry['start'] = False
    solver._vk_status = mip.OptimizationStatus.OPTIMAL
    return solver._vk_status


def _pool(solver):
    return getattr(solver, '_vk_pool', None) or Pool()


class Memory(mip.Solver):
    """Rows and columns kept in Python."""

    def __init__(self, model, name='', sense=''):
        super().__init__(model, name, sense)
        self.cols, self.rows = [], []       # [name, lb, ub, obj, type], [name, {column: coefficient}, sense, const]
        self.objective_const = 0.0
        self.sense = sense or mip.MINIMIZE
        self.name = name
        self.limits = {}

    def add_var(self, obj=0, lb=0, ub=mip.INF, var_type=mip.CONTINUOUS, column=None, name=''):
        assert column is None
        self.cols.append([name, lb, ub, obj, var_type])

    def _row(self, lin_expr):
        coefs = {}
        for v, k in lin_expr.expr.items():
            coefs[v.idx] = coefs.get(v.idx, 0.0) + k
        return coefs, lin_expr.sense, lin_expr.const

    def add_constr(self, lin_expr, name=''):
        assert lin_expr.sense in ('<', '>', '='), lin_expr.sense
        self.rows.append([name, *self._row(lin_expr)])

    def num_cols(self):
        return len(self.cols)

    def num_rows(self):
        return len(self.rows)

    def constr_get_expr(self, c):
        _, coefs, sense, const = self.rows[c.idx]
        vs = self.model.vars
        return mip.LinExpr([vs[i] for i in coefs], list(coefs.values()), const, sense)

    def constr_set_expr(self, c, value):
        self.rows[c.idx][1:] = list(self._row(value))

    def constr_get_rhs(self, idx):
        return -self.rows[idx][3]

    def constr_set_rhs(self, idx, rhs):
        self.rows[idx][3] = -rhs

    def constr_get_name(self, idx):
        return self.rows[idx][0]

    def constr_get_index(self, name):
        return next((i for i, r in enumerate(self.rows) if r[0] == name), -1)

    def remove_constrs(self, l):
        dead = set(l)
        self.rows = [r for i, r in enumerate(self.rows) if i not in dead]

    def remove_vars(self, l):
        dead = set(l)
        keep = [i for i in range(len(self.cols)) if i not in dead]
        new = {o: n for n, o in enumerate(keep)}
        self.cols = [self.cols[i] for i in keep]
        for r in self.rows:
            r[1] = {new[i]: k for i, k in r[1].items() if i in new}

    def set_objective(self, lin_expr, sense=''):
        for c in self.cols:
            c[3] = 0.0
        for v, k in lin_expr.expr.items():
            self.cols[v.idx][3] += k
        self.objective_const = lin_expr.const
        sense = sense or lin_expr.sense
        if sense in (mip.MINIMIZE, mip.MAXIMIZE):
            self.sense = sense

    def get_objective(self):
        k = [i for i, c in enumerate(self.cols) if c[3]]
        return mip.LinExpr([self.model.vars[i] for i in k], [self.cols[i][3] for i in k], self.objective_const, self.sense)

    def get_objective_const(self):
        return self.objective_const

    def set_objective_const(self, const):
        self.objective_const = const

    def get_objective_sense(self):
        return self.sense

    def set_objective_sense(self, sense):
        self.sense = mip.MAXIMIZE if sense.strip().upper() == mip.MAXIMIZE.strip().upper() else mip.MINIMIZE

    def set_start(self, start):
        pass

    def set_processing_limits(self, *a, **k):
        pass

    def set_num_threads(self, n):
        pass

    def get_log(self):
        return []

    def get_verbose(self):
        return 0

    def set_verbose(self, v):
        pass

    def get_max_seconds(self):
        return mip.INF

    def set_max_seconds(self, v):
        pass

    def set_max_solutions(self, v):
        pass

    def set_max_nodes(self, v):
        pass

    def set_mip_gap(self, v):
        pass

    def set_mip_gap_abs(self, v):
        pass

    def get_emphasis(self):
        return mip.SearchEmphasis.DEFAULT

    def set_emphasis(self, v):
        pass

    def set_cutoff(self, v):
        pass

    def num_nz(self):
        return sum(len(r[1]) for r in self.rows)

    def num_int(self):
        return sum(c[4] != mip.CONTINUOUS for c in self.cols)

    def get_problem_name(self):
        return self.name

    def set_problem_name(self, name):
        self.name = name

    def var_get_name(self, idx):
        return self.cols[idx][0]

    def var_get_index(self, name):
        return next((i for i, c in enumerate(self.cols) if c[0] == name), -1)

    def _get(k):
        return lambda self, v: self.cols[v.idx][k]

    def _set(k):
        def f(self, v, value):
            self.cols[v.idx][k] = value
        return f
    var_get_lb, var_get_ub, var_get_obj, var_get_var_type = _get(1), _get(2), _get(3), _get(4)
    var_set_lb, var_set_ub, var_set_obj, var_set_var_type = _set(1), _set(2), _set(3), _set(4)


def install(memory=False):
    global _done
    if _done:
        return
    _done = True
    if memory:
        m = types.ModuleType('mip.cbc')
        m.SolverCbc = Memory
        sys.modules['mip.cbc'] = m
        mip.cbc = m
        S = Memory
    else:
        import mip.cbc as cbc
        S = cbc.SolverCbc
    S.optimize = optimize
    S.get_num_solutions = lambda self: len(_pool(self).values)
    S.get_objective_value = lambda self: _pool(self).objs[0] if _pool(self).objs else None
    S.get_objective_value_i = lambda self, i: _pool(self).objs[i] if i < len(_pool(self).objs) else None
    S.get_objective_bound = lambda self: getattr(self, '_vk_bound', 0.0)
    S.get_status = lambda self: getattr(self, '_vk_status', mip.OptimizationStatus.LOADED)
    S.var_get_x = lambda self, v: float(_pool(self).values[0][v.idx]) if _pool(self).values else None
    S.var_get_xi = lambda self, v, i: float(_pool(self).values[i][v.idx]) if i < len(_pool(self).values) else None
