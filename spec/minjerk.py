# Reference functions of the minimum-jerk polynomials (see kda/pyref.py)
import numpy as np


#@ momentumopt/python/momentumopt/kinoptpy/min_jerk_traj.py::Polynomial.__init__
def init(self, coeffs=None):
    self.coeffs = coeffs
    self.fitted = coeffs is not None
    if coeffs is None:
        self.order = None
        self.constraints = []
    else:
        self.order = coeffs.shape[0] - 1


#@ momentumopt/python/momentumopt/kinoptpy/min_jerk_traj.py::Polynomial.set_initial_coeffs
def set_initial_coeffs(self):
    if self.order is None:
        raise ValueError("Order of polynomial is not specified.")
    c = np.zeros((self.order + 1, 2))
    c[:, 0] = np.ones((self.order + 1))
    c[:, 1] = np.cumsum(np.concatenate((np.array([0]), np.ones(self.order))))
    self.coeffs = c


#@ momentumopt/python/momentumopt/kinoptpy/min_jerk_traj.py::Polynomial.get_coeffs
def get_coeffs(self):
    return self.coeffs


#@ momentumopt/python/momentumopt/kinoptpy/min_jerk_traj.py::Polynomial.set_coeffs
def set_coeffs(self, coeffs):
    self.fitted = True
    self.coeffs = coeffs


#@ momentumopt/python/momentumopt/kinoptpy/min_jerk_traj.py::Polynomial.differentiate
def differentiate(self):
    d = np.zeros_like(self.coeffs)
    d[:, 1] = self.coeffs[:, 1] - 1
    d[:, 0] = self.coeffs[:, 1] * self.coeffs[:, 0]
    d[d[:, 1] < 0, :] = 0
    return d


#@ momentumopt/python/momentumopt/kinoptpy/min_jerk_traj.py::Polynomial.eval
def eval(self, x):
    if self.fitted:
        return np.sum(self.coeffs[:, 0] * np.power(x, self.coeffs[:, 1]))
    raise ValueError("Polynomial has not been fitted yet.")


#@ momentumopt/python/momentumopt/kinoptpy/min_jerk_traj.py::Polynomial.deval
def deval(self, x):
    if not self.fitted:
        raise ValueError("Polynomial has not been fitted yet.")
    if self.coeffs.shape[0] != 1:
        d = self.differentiate()
        return np.sum(d[:, 0] * np.power(x, d[:, 1]))
    return 0.


#@ momentumopt/python/momentumopt/kinoptpy/min_jerk_traj.py::Polynomial.set_constraints
def set_constraints(self, xs, ys, orders):
    for k in range(len(xs)):
        self.set_constraint(xs[k], ys[k], orders[k])
    self.order = len(self.constraints) - 1
    self.set_initial_coeffs()


#@ momentumopt/python/momentumopt/kinoptpy/min_jerk_traj.py::Polynomial.set_constraint
def set_constraint(self, x, y, order):
    self.constraints.append((x, y, order))


#@ momentumopt/python/momentumopt/kinoptpy/min_jerk_traj.py::Polynomial.fit
def fit(self):
    if len(self.constraints) == 0:
        raise ValueError("No constraints specificed yet.")
    n = self.order + 1
    rows = np.zeros((n, n))
    rhs = np.zeros(n)
    first = self.differentiate()
    second = Polynomial(coeffs=first).differentiate()
    for i in range(len(self.constraints)):
        c = self.constraints[i]
        x, y, k = c[0], c[1], c[-1]
        if k != 0 and k != 1 and k != 2:
            raise ValueError("Derivative not specificed")
        if k == 0:
            rows[i, :] = self.coeffs[:, 0] * np.power(x, self.coeffs[:, 1])
        if k == 1:
            rows[i, :] = first[:, 0] * np.power(x, first[:, 1])
        if k == 2:
            rows[i, :] = second[:, 0] * np.power(x, second[:, 1])
        rhs[i] = y
    self.coeffs[:, 0] = np.linalg.solve(rows, rhs)
    self.fitted = True


#@ momentumopt/python/momentumopt/kinoptpy/min_jerk_traj.py::create_constraints
def create_constraints(t, x, via=None):
    c = np.zeros((7, 3))
    mid = x[0] + (x[1] - x[0]) / 2 if via is None else via
    c[0, :] = [t[0], x[0], 0]
    c[1, :] = [t[0], 0.0, 1]
    c[2, :] = [t[0], 0.0, 2]
    c[3, :] = [(t[0] + t[1]) / 2, mid, 0]
    c[4, :] = [t[1], x[1], 0]
    c[5, :] = [t[1], 0.0, 1]
    c[6, :] = [t[1], 0.0, 2]
    return c


#@ momentumopt/python/momentumopt/kinoptpy/min_jerk_traj.py::constant_poly
def constant_poly(y):
    c = np.zeros((1, 2))
    c[0, 0] = y
    return Polynomial(coeffs=c)


#@ momentumopt/python/momentumopt/kinoptpy/min_jerk_traj.py::poly_points
def poly_points(t, y_from, y_to, via=None):
    c = create_constraints(t, [y_from, y_to], via=via)
    p = Polynomial()
    p.set_constraints(c[:, 0], c[:, 1], c[:, 2])
    p.fit()
    return p


#@ momentumopt/python/momentumopt/kinoptpy/min_jerk_traj.py::PolynominalList.__init__
def list_init(self):
    self.times = []
    self.polynominals = []


#@ momentumopt/python/momentumopt/kinoptpy/min_jerk_traj.py::PolynominalList.append
def list_append(self, t, poly):
    self.polynominals.append(poly)
    self.times.append(t)


#@ momentumopt/python/momentumopt/kinoptpy/min_jerk_traj.py::PolynominalList.get_poly
def get_poly(self, t):
    k = 0
    while k < len(self.times) - 1 and t > self.times[k][1]:
        k = k + 1
    return self.polynominals[k]


#@ momentumopt/python/momentumopt/kinoptpy/min_jerk_traj.py::PolynominalList.eval
def list_eval(self, t):
    return self.get_poly(t).eval(t)


#@ momentumopt/python/momentumopt/kinoptpy/min_jerk_traj.py::PolynominalList.deval
def list_deval(self, t):
    return self.get_poly(t).deval(t)
