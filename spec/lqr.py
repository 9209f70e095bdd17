# Reference functions of the centroidal and end-effector LQR (see kda/pyref.py)
import numpy as np
import scipy.linalg as linalg
from numpy.linalg import inv
from scipy.spatial.transform import Rotation as Rot


#@ momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py::CentroidalLqr.__init__
def init(self, dir):
    self.dir = dir
    self.com_pos = np.loadtxt(dir + "/quadruped_com.dat", dtype=float)[:, [1, 2, 3]]
    self.com_vel = np.loadtxt(dir + "/quadruped_com_vel.dat", dtype=float)[:, [1, 2, 3]]
    self.com_ori = np.loadtxt(dir + "/quadruped_quaternion.dat", dtype=float)[:, [1, 2, 3, 4]]
    self.com_ang_vel = np.loadtxt(dir + "/quadruped_base_ang_velocities.dat", dtype=float)[:, [1, 2, 3]]
    self.cent_force = np.loadtxt(dir + "/quadruped_centroidal_forces.dat", dtype=float)[:, [1, 2, 3]]
    self.cent_moments = np.loadtxt(dir + "/quadruped_centroidal_moments.dat", dtype=float)[:, [1, 2, 3]]
    self.contact_plan = np.loadtxt(dir + "/quadruped_contact_activation.dat", dtype=float)
    self.eps = 1.e-6
    self.dt = 1.e-3
    self.mass = 2.17
    self.base_mass = 1.43315
    self.inertia_com_frame = [[0.00578574, 0.0, 0.0], [0.0, 0.01938108, 0.0], [0.0, 0.0, 0.02476124]]
    self.inertia_com_frame_scaled = np.dot(self.mass / self.base_mass, self.inertia_com_frame)
    self.weight = self.mass * np.array([0., 0., 9.81])
    self.N = self.com_pos.shape[0] - 1
    self.n = 13
    self.m = 6
    self.nx = self.n - 1
    for k in range(self.N):
        quat = se3.Quaternion(self.com_ori[k, 3], self.com_ori[k, 0], self.com_ori[k, 1], self.com_ori[k, 2])
        assert (se3.Quaternion.norm(quat) - 1.) ** 2 <= self.eps, 'Quaternions are not unitary'
    self.active_contacts = self.switching_dynamics()
    self.xp = np.zeros((self.N + 1, self.n))
    self.xp[:, :3] = self.com_pos
    self.xp[:, 3:6] = self.com_vel
    self.xp[:, 6:10] = self.com_ori
    self.xp[:, 10:13] = self.com_ang_vel
    self.u0 = np.zeros((self.N, self.m))
    self.u0[:, :3] = self.cent_force[:-1]
    self.u0[:, 3:] = self.cent_moments[:-1]
    self.x0 = self.compute_trajectory_from_controls(self.xp.copy(), self.u0)
    self.Q = [np.eye(self.nx)] * (self.N + 1)
    self.R = [1.e-3 * np.eye(self.m)] * self.N
    self.value = np.zeros(self.N + 1)
    self.value_dx = np.zeros((self.N + 1, self.nx))
    self.value_dxdx = np.zeros((self.N + 1, self.nx, self.nx))
    self.Q0 = np.zeros(self.N + 1)
    self.Qdx = np.zeros((self.N + 1, self.nx))
    self.Qdu = np.zeros((self.N + 1, self.m))
    self.Qdxdx = np.zeros((self.N + 1, self.nx, self.nx))
    self.Qdudu = np.zeros((self.N + 1, self.m, self.m))
    self.Qdxdu = np.zeros((self.N + 1, self.nx, self.m))
    self.kfb = np.zeros((self.N, self.m, self.nx))
    self.kff = np.zeros((self.N, self.m))


#@ momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py::CentroidalLqr.switching_dynamics
def switching_dynamics(self):
    flags = []
    for k in range(self.contact_plan.shape[0]):
        if np.sum(self.contact_plan[k, 1:]) > self.eps:
            flags.append(1.)
        else:
            flags.append(0.)
    return flags


#@ momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py::CentroidalLqr.skew
def skew(self, a):
    assert a.shape[0] == 3, 'vector dimension is not 3 in skew method'
    x, y, z = a[0], a[1], a[2]
    return np.array([[0., -z, y], [z, 0., -x], [-y, x, 0.]])


#@ momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py::CentroidalLqr.quaternion_to_rotation
def quaternion_to_rotation(self, quat):
    v = quat[:3]
    w = quat[3]
    return (w * w - v.dot(v)) * np.eye(3) + 2. * np.outer(v, v) + 2. * w * self.skew(v)


#@ momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py::CentroidalLqr.exp_quaternion
def exp_quaternion(self, v):
    q = np.zeros(4)
    angle = np.linalg.norm(v)
    if angle * angle <= self.eps:
        q[:3] = (1 - angle * angle / 6) * v
        q[3] = 1 - angle * angle / 2
    else:
        q[:3] = np.sin(angle) * (v / angle)
        q[3] = np.cos(angle)
    return q


#@ momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py::CentroidalLqr.log_quaternion
def log_quaternion(self, quat):
    n = np.linalg.norm(quat[:3])
    if n <= self.eps:
        return 2 * quat[:3] / quat[3] * (1 - n * n / (3 * quat[3] * quat[3]))
    return 2 * np.arctan2(n, quat[3]) * quat[:3] / n


#@ momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py::CentroidalLqr.quaternion_product
def quaternion_product(self, a, b):
    p = np.zeros(4)
    p[:3] = np.cross(a[:3], b[:3]) + b[3] * a[:3] + a[3] * b[:3]
    p[3] = a[3] * b[3] - a[:3].dot(b[:3])
    return p


#@ momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py::CentroidalLqr.integrate_quaternion
def integrate_quaternion(self, quat, v):
    return self.quaternion_product(self.exp_quaternion(.5 * v), quat)


#@ momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py::CentroidalLqr.quaternion_difference
def quaternion_difference(self, a, b):
    return self.log_quaternion(self.quaternion_product(b, np.array([-a[0], -a[1], -a[2], a[3]])))


#@ momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py::CentroidalLqr.integrate_veocity
def integrate_velocity(self, vel, force):
    return vel + self.dt * (force - self.weight) / self.mass


#@ momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py::CentroidalLqr.integrate_angular_velocity
def integrate_angular_velocity(self, om, quat, moment):
    R = self.quaternion_to_rotation(quat)
    inertia = R.dot(self.inertia_com_frame).dot(R.T)
    return om + self.dt * linalg.cho_solve(linalg.cho_factor(inertia), moment - np.cross(om, inertia.dot(om)))


#@ momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py::CentroidalLqr.compute_trajectory_from_controls
def compute_trajectory_from_controls(self, xs, us):
    for k in range(self.N):
        xs[k + 1] = self.integrate_step(k, xs[k], us[k])
    return xs.copy()


#@ momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py::CentroidalLqr.integrate_step
def integrate_step(self, k, x, u):
    pos, vel, quat, om = x[:3], x[3:6], x[6:10], x[10:13]
    act = self.active_contacts[k]
    R = self.quaternion_to_rotation(quat)
    inertia = R.dot(self.inertia_com_frame).dot(R.T)
    acc = linalg.cho_solve(linalg.cho_factor(inertia), act * u[3:] - np.cross(om, inertia.dot(om)))
    return np.hstack([pos + self.dt * vel,
                      vel + self.dt * (act * u[:3] - self.weight) / self.mass,
                      self.integrate_quaternion(quat, self.dt * om),
                      om + self.dt * acc])


#@ momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py::CentroidalLqr.increment_x
def increment_x(self, x, d):
    return np.hstack([x[:3] + d[:3], x[3:6] + d[3:6], self.integrate_quaternion(x[6:10], d[6:9]), x[10:] + d[9:]])


#@ momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py::CentroidalLqr.diff_x
def diff_x(self, a, b):
    return np.hstack([b[:6] - a[:6], self.quaternion_difference(a[6:10], b[6:10]), b[10:] - a[10:]])


#@ momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py::CentroidalLqr.dynamics_derivatives
def dynamics_derivatives(self, k, x, u):
    fx = np.zeros((self.nx, self.nx))
    fu = np.zeros((self.nx, self.m))
    nominal = self.integrate_step(k, x, u)
    step = np.zeros(self.nx)
    for i in range(self.nx):
        step[i] = self.eps
        fx[:, i] = self.diff_x(nominal, self.integrate_step(k, self.increment_x(x, step), u))
        step[i] = 0.
    fx /= self.eps
    push = np.zeros(self.m)
    for j in range(self.m):
        push[j] = self.eps
        fu[:, j] = self.diff_x(nominal, self.integrate_step(k, x, u + push))
        push[j] = 0.
    fu /= self.eps
    return fx, fu


#@ momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py::CentroidalLqr.cost
def cost(self, k, x, u):
    e = self.diff_x(self.x0[k], x)
    if k != self.N:
        return .5 * e.dot(self.Q[k]).dot(e) + .5 * u.dot(self.R[k]).dot(u)
    return e.dot(self.Q[k]).dot(e)


#@ momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py::CentroidalLqr.cost_derivatives
def cost_derivatives(self, k, x, u):
    nominal = self.cost(k, x, u)
    cx = np.zeros(self.nx)
    cu = np.zeros(self.m)
    step = np.zeros(self.nx)
    for i in range(self.nx):
        step[i] = self.eps
        cx[i] = self.cost(k, self.increment_x(x, step), u) - nominal
        step[i] = 0.
    cx /= self.eps
    push = np.zeros(self.m)
    for j in range(self.m):
        push[j] = self.eps
        cu[j] = self.cost(k, x, u + push) - nominal
        push[j] = 0.
    cu /= self.eps
    return cx, cu, self.cost_dxdx(k, x, u), self.cost_dudu(k, x, u), self.cost_dxdu(k, x, u)


#@ momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py::CentroidalLqr.cost_dxdx
def cost_dxdx(self, k, x, u):
    H = np.zeros((self.nx, self.nx))
    plus = np.zeros(self.nx)
    minus = np.zeros(self.nx)
    for r in range(self.nx):
        plus[r] += self.eps
        minus[r] -= self.eps
        for c in range(self.nx):
            plus[c] += self.eps
            pp = self.cost(k, self.increment_x(x, plus), u)
            plus[c] -= 2 * self.eps
            pm = self.cost(k, self.increment_x(x, plus), u)
            plus[c] += self.eps
            minus[c] += self.eps
            mp = self.cost(k, self.increment_x(x, minus), u)
            minus[c] -= 2 * self.eps
            mm = self.cost(k, self.increment_x(x, minus), u)
            minus[c] += self.eps
            H[r, c] = pp - pm - mp + mm
        plus[r] -= self.eps
        minus[r] += self.eps
    H /= (4 * self.eps ** 2)
    return .5 * (H + H.T)


#@ momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py::CentroidalLqr.cost_dudu
def cost_dudu(self, k, x, u):
    H = np.zeros((self.m, self.m))
    if k != self.N:
        H = self.R[k]
    return .5 * (H + H.T)


#@ momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py::CentroidalLqr.cost_dxdu
def cost_dxdu(self, k, x, u):
    return np.zeros((self.nx, self.m))


#@ momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py::CentroidalLqr.compute_Q
def compute_Q(self, V, Vx, Vxx, k, x, u):
    fx, fu = self.dynamics_derivatives(k, x, u)
    cx, cu, cxx, cuu, cxu = self.cost_derivatives(k, x, u)
    self.Q0[k] = self.cost(k, x, u) + V
    self.Qdx[k, :] = cx + Vx.dot(fx)
    self.Qdu[k, :] = cu + Vx.dot(fu)
    self.Qdxdx[k, :, :] = cxx + fx.T.dot(Vxx).dot(fx)
    self.Qdudu[k, :, :] = cuu + fu.T.dot(Vxx).dot(fu)
    self.Qdxdu[k, :, :] = cxu + fx.T.dot(Vxx).dot(fu)


#@ momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py::CentroidalLqr._smooth_inv
def smooth_inv(m):
    w, v = np.linalg.eigh(m)
    return v.dot(np.diag(w / (w ** 2 + 1e-2))).dot(v.transpose())


#@ momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py::CentroidalLqr.compute_value_function
def compute_value_function(self, k):
    try:
        F = linalg.cho_factor(self.Qdudu[k])
        self.kff[k, :] = linalg.cho_solve(F, self.Qdu[k])
        self.kfb[k, :, :] = linalg.cho_solve(F, self.Qdxdu[k].T)
    except:
        inverse = self._smooth_inv(self.Qdudu[k])
        self.kff[k, :] = inverse.dot(self.Qdu[k])
        self.kfb[k, :, :] = inverse.dot(self.Qdxdu[k].T)
    self.value[k] = self.Q0[k] + .5 * self.kff[k].T.dot(self.Qdudu[k]).dot(self.kff[k]) - self.kff[k].T.dot(self.Qdu[k])
    self.value_dx[k, :] = self.Qdx[k] - 2. * self.Qdu[k].dot(self.kfb[k]) + self.kff[k].dot(self.Qdudu[k]).dot(self.kfb[k])
    self.value_dxdx[k, :, :] = self.Qdxdx[k] - self.Qdxdu[k].dot(self.kfb[k])


#@ momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py::CentroidalLqr.compute_gains
def compute_gains(self):
    T = self.N
    self.value[T] = self.cost(T, self.x0[T], np.zeros(self.m))
    cx, cu, cxx, cuu, cxu = self.cost_derivatives(T, self.x0[T], np.zeros(self.m))
    self.value_dx[T, :] = cx
    self.value_dxdx[T, :, :] = cxx
    self.compute_Q(self.value[T], self.value_dx[T], self.value_dxdx[T], T - 1, self.x0[T - 1], self.u0[T - 1])
    self.compute_value_function(T - 1)
    for k in range(T - 2, -1, -1):
        self.compute_Q(self.value[k + 1], self.value_dx[k + 1], self.value_dxdx[k + 1], k, self.x0[k], self.u0[k])
        self.compute_value_function(k)
    np.savetxt(self.dir + "/quadruped_centroidal_gains_manifold.dat", np.reshape(self.kfb, (len(self.kfb), 72)))


#@ momentumopt/python/momentumopt/kinoptpy/end_eff_lqr_gain_computation.py::end_effector_lqr.compute_r_cross
def compute_r_cross(self, eff, com):
    x = eff[0] - com[0]
    y = eff[1] - com[1]
    z = eff[2] - com[2]
    return [[0, -z, y], [z, 0, -x], [-y, x, 0]]


#@ momentumopt/python/momentumopt/kinoptpy/end_eff_lqr_gain_computation.py::end_effector_lqr.compute_dyn
def eff_compute_dyn(self, k, x, u):
    wx, wy, wz = x[:, 10], x[:, 11], x[:, 12]
    omega = np.array([[0, wz, -wy, wx], [-wz, 0, wx, wy], [wy, -wx, 0, wz], [-wx, -wy, -wz, 0]])
    self.A_t = np.block([[np.zeros((3, 3)), np.identity(3), np.zeros((3, 4)), np.zeros((3, 3))],
                         [np.zeros((3, 3)), np.zeros((3, 3)), np.zeros((3, 4)), np.zeros((3, 3))],
                         [np.zeros((4, 3)), np.zeros((4, 3)), 0.5 * omega, np.zeros((4, 3))],
                         [np.zeros((3, 3)), np.zeros((3, 3)), np.zeros((3, 4)), np.zeros((3, 3))]])
    R = np.reshape(Rot.from_quat(x[:, [6, 7, 8, 9]]).as_dcm(), (3, 3))
    J = inv(np.matrix(np.matmul(np.matmul(R, self.inertia_com_frame), np.transpose(R))))
    fl = np.matmul(J, self.compute_r_cross(self.end_eff_abs_pos[k][0:3], self.com_pos[k]))
    fr = np.matmul(J, self.compute_r_cross(self.end_eff_abs_pos[k][3:6], self.com_pos[k]))
    hl = np.matmul(J, self.compute_r_cross(self.end_eff_abs_pos[k][6:9], self.com_pos[k]))
    hr = np.matmul(J, self.compute_r_cross(self.end_eff_abs_pos[k][9:12], self.com_pos[k]))
    I = (1 / self.mass) * np.identity(3)
    self.B_t = np.block([[np.zeros((3, 3)), np.zeros((3, 3)), np.zeros((3, 3)), np.zeros((3, 3))],
                         [I, I, I, I],
                         [np.zeros((4, 3)), np.zeros((4, 3)), np.zeros((4, 3)), np.zeros((4, 3))],
                         [fl, fr, hl, hr]])
    self.A_t = np.matrix(self.A_t)
    self.B_t = np.matrix(self.B_t)
    return np.matmul(self.A_t, np.transpose(x)) + np.matmul(self.B_t, np.transpose(u))


#@ momentumopt/python/momentumopt/kinoptpy/lqr_gain_computation.py::centroidal_lqr.compute_dyn
def cent_compute_dyn(self, k, x, u):
    wx, wy, wz = x[:, 10], x[:, 11], x[:, 12]
    omega = np.array([[0, wz, -wy, wx], [-wz, 0, wx, wy], [wy, -wx, 0, wz], [-wx, -wy, -wz, 0]])
    self.A_t = np.block([[np.zeros((3, 3)), np.identity(3), np.zeros((3, 4)), np.zeros((3, 3))],
                         [np.zeros((3, 3)), np.zeros((3, 3)), np.zeros((3, 4)), np.zeros((3, 3))],
                         [np.zeros((4, 3)), np.zeros((4, 3)), 0.5 * omega, np.zeros((4, 3))],
                         [np.zeros((3, 3)), np.zeros((3, 3)), np.zeros((3, 4)), np.zeros((3, 3))]])
    R = np.reshape(Rot.from_quat(x[:, [6, 7, 8, 9]]).as_dcm(), (3, 3))
    J = inv(np.matrix(np.matmul(np.matmul(R, self.inertia_com_frame), np.transpose(R))))
    self.B_t = np.block([[np.zeros((3, 3)), np.zeros((3, 3))],
                         [(1 / self.mass) * np.identity(3), np.zeros((3, 3))],
                         [np.zeros((4, 3)), np.zeros((4, 3))],
                         [np.zeros((3, 3)), J]])
    self.A_t = np.matrix(self.A_t)
    self.B_t = np.matrix(self.B_t)
    return np.matmul(self.A_t, np.transpose(x)) + np.matmul(self.B_t, np.transpose(u))


#@ momentumopt/python/momentumopt/kinoptpy/lqr_gain_computation.py::centroidal_lqr.analytical_lin_dyn
def analytical_lin_dyn(self, k):
    x = np.matrix(np.hstack((self.com_pos[k], self.com_vel[k], self.com_ori[k], self.com_ang_vel[k])))
    wx, wy, wz = x[:, 10], x[:, 11], x[:, 12]
    a, b, c, d = x[:, 6], x[:, 7], x[:, 8], x[:, 9]
    omega = np.array(([[0., wz, -wy, wx], [-wz, 0., wx, wy], [wy, -wx, 0., wz], [-wx, -wy, -wz, 0.]]), float)
    domega = np.reshape(np.array([[d, -c, b], [c, d, -a], [-b, a, d], [-a, -b, -c]]), (4, 3))
    A = np.block([[np.zeros((3, 3)), np.identity(3), np.zeros((3, 4)), np.zeros((3, 3))],
                  [np.zeros((3, 3)), np.zeros((3, 3)), np.zeros((3, 4)), np.zeros((3, 3))],
                  [np.zeros((4, 3)), np.zeros((4, 3)), 0.5 * omega, 0.5 * domega],
                  [np.zeros((3, 3)), np.zeros((3, 3)), np.zeros((3, 4)), np.zeros((3, 3))]])
    B = np.block([[np.zeros((3, 3)), np.zeros((3, 3))],
                  [(1 / self.mass) * np.identity(3), np.zeros((3, 3))],
                  [np.zeros((4, 3)), np.zeros((4, 3))],
                  [np.zeros((3, 3)), inv(self.inertia_com_frame)]])
    return A, B


#@ momentumopt/python/momentumopt/kinoptpy/lqr_gain_computation.py::centroidal_lqr.descretise_dynamics
def cent_descretise(self, A, B):
    return np.identity(13) + self.dt * A, self.dt * B


#@ momentumopt/python/momentumopt/kinoptpy/end_eff_lqr_gain_computation.py::end_effector_lqr.descretise_dynamics
def eff_descretise(self, A, B):
    return np.identity(13) + self.dt * A, self.dt * B


#@ momentumopt/python/momentumopt/kinoptpy/lqr_gain_computation.py::centroidal_lqr.compute_lqr_gains
def cent_gains(self, Q, R, A, B, P):
    K = -1 * np.matmul(np.matmul(np.matmul(inv(R + np.matmul(np.matmul(np.transpose(B), P), B)), np.transpose(B)), P), A)
    closed = A + np.matmul(B, K)
    return K, Q + np.matmul(np.matmul(np.transpose(K), R), K) + np.matmul(np.matmul(np.transpose(closed), P), closed)


#@ momentumopt/python/momentumopt/kinoptpy/end_eff_lqr_gain_computation.py::end_effector_lqr.compute_lqr_gains
def eff_gains(self, Q, R, A, B, P):
    K = -1 * np.matmul(np.matmul(np.matmul(inv(R + np.matmul(np.matmul(np.transpose(B), P), B)), np.transpose(B)), P), A)
    closed = A + np.matmul(B, K)
    return K, Q + np.matmul(np.matmul(np.transpose(K), R), K) + np.matmul(np.matmul(np.transpose(closed), P), closed)


#@ momentumopt/python/momentumopt/kinoptpy/end_eff_lqr_gain_computation.py::end_effector_lqr.lqr_backward_pass
def eff_backward(self, Q, R):
    P = np.zeros((13, 13))
    gains = []
    for k in range(len(self.com_pos) - 2, -1, -1):
        A, B = self.compute_lin_dyn(k)
        A, B = self.descretise_dynamics(A, B)
        K, P = self.compute_lqr_gains(Q, R, A, B, P)
        gains.append(K)
    return np.asarray(np.flip(gains, 0))


#@ momentumopt/python/momentumopt/kinoptpy/lqr_gain_computation.py::centroidal_lqr.lqr_backward_pass
def cent_backward(self, Q, R):
    P = np.zeros((13, 13))
    gains = []
    for k in range(len(self.com_pos) - 2, -1, -1):
        A, B = self.analytical_lin_dyn(k)
        A, B = self.descretise_dynamics(A, B)
        K, P = self.compute_lqr_gains(Q, R, A, B, P)
        gains.insert(0, K)
    return np.asarray(gains)


#@ momentumopt/python/momentumopt/kinoptpy/lqr_gain_computation.py::centroidal_lqr.store_lqr_gains
def cent_store(self, K):
    K = np.reshape(K, (len(K), 78))
    np.savetxt(self.dir + "/quadruped_centroidal_gains1.dat", K[:, 0:39])
    np.savetxt(self.dir + "/quadruped_centroidal_gains2.dat", K[:, 39:])


#@ momentumopt/python/momentumopt/kinoptpy/end_eff_lqr_gain_computation.py::end_effector_lqr.store_lqr_gains
def eff_store(self, K):
    K = np.reshape(K, (len(K), 156))
    np.savetxt(self.dir + "/quadruped_lqr1.dat", K[:, 0:39])
    np.savetxt(self.dir + "/quadruped_lqr2.dat", K[:, 39:78])
    np.savetxt(self.dir + "/quadruped_lqr3.dat", K[:, 78:117])
    np.savetxt(self.dir + "/quadruped_lqr4.dat", K[:, 117:156])
