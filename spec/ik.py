# Reference functions of the inverse kinematics (see kda/pyref.py)
import numpy as np
import pinocchio as pin
import pinocchio as se3
import scipy.linalg
from numpy import vstack, hstack
from pinocchio import RobotWrapper
from pinocchio.utils import zero
from quadprog import solve_qp
from scipy.interpolate import CubicSpline
from momentumopt.kinoptpy.qp import QpSolver


#@ momentumopt/python/momentumopt/kinoptpy/qp.py::QpSolver.quadprog_solve_qp
def quadprog_solve_qp(self, P, q, G=None, h=None, A=None, b=None, initvals=None):
    # solve_qp(G, a, C, b, meq): min 1/2 x'Gx - a'x  subject to  C'x >= b, the first meq rows with equality
    if G is None and A is None:
        return solve_qp(P, -q)[0]
    if G is None:
        return solve_qp(P, -q, -A.T, -b, A.shape[0])[0]
    if A is None:
        return solve_qp(P, -q, -G.T, -h, 0)[0]
    return solve_qp(P, -q, -vstack([A, G]).T, -hstack([b, h]), A.shape[0])[0]


#@ momentumopt/python/momentumopt/kinoptpy/inverse_kinematics.py::PointContactInverseKinematics.__init__
def ik_init(self, model, endeff_frame_names):
    self.robot = RobotWrapper(model)
    self.model = model
    self.data = self.robot.data
    self.mass = sum([k.mass for k in self.robot.model.inertias[1:]])
    self.base_id = self.robot.model.getFrameId('base_link')
    self.endeff_frame_names = endeff_frame_names
    ids = []
    for name in endeff_frame_names:
        idx = model.getFrameId(name)
        if idx == len(model.frames):
            raise Exception('Unknown frame name: {}'.format(name))
        ids.append(idx)
    self.endeff_ids = ids
    self.is_init_time = 1
    self.ne = len(self.endeff_ids)
    self.nv = self.model.nv
    self.w_endeff_tracking = 1.
    self.w_endeff_contact = 1.
    self.w_lin_mom_tracking = 1.0
    self.w_ang_mom_tracking = 1.0
    self.w_joint_regularization = 0.01
    self.p_endeff_tracking = 1.
    self.p_com_tracking = 1.
    self.last_q = None
    self.last_dq = None
    rows = 6 + 3 * self.ne + self.nv - 6
    self.J = np.zeros((rows, self.nv))
    self.vel_des = zero(rows)
    self.mom_ref_air_phase = zero(6)
    self.qp_solver = QpSolver()


#@ momentumopt/python/momentumopt/kinoptpy/inverse_kinematics.py::PointContactInverseKinematics.rotate_J
def rotate_J(self, jac, index):
    return se3.SE3(self.data.oMf[index].rotation, zero(3)).action.dot(jac)


#@ momentumopt/python/momentumopt/kinoptpy/inverse_kinematics.py::PointContactInverseKinematics.get_world_oriented_frame_jacobian
def get_world_oriented_frame_jacobian(self, q, index):
    local = se3.getFrameJacobian(self.model, self.data, index, se3.ReferenceFrame.LOCAL)
    return self.rotate_J(local, index)


#@ momentumopt/python/momentumopt/kinoptpy/inverse_kinematics.py::PointContactInverseKinematics.fill_jacobians
def fill_jacobians(self, q):
    self.J[6 + 3 * self.ne:, 6:] = np.identity(self.nv - 6)
    self.J[:6, :] = self.robot.data.Ag
    for k in range(len(self.endeff_ids)):
        self.J[6 + 3 * k: 9 + 3 * k, :] = self.get_world_oriented_frame_jacobian(q, self.endeff_ids[k])[:3]


#@ momentumopt/python/momentumopt/kinoptpy/inverse_kinematics.py::PointContactInverseKinematics.fill_vel_des
def fill_vel_des(self, q, dq, com_ref, lmom_ref, amom_ref, endeff_pos_ref, endeff_vel_ref, joint_regularization_ref, is_flight_phase):
    self.vel_des[:3] = lmom_ref + self.p_com_tracking * (com_ref - self.robot.com(q))
    self.vel_des[3:6] = amom_ref
    for k in range(len(self.endeff_ids)):
        gap = endeff_pos_ref[k] - self.robot.data.oMf[self.endeff_ids[k]].translation
        gain = 1. if self.is_init_time else self.p_endeff_tracking
        self.vel_des[6 + 3 * k: 9 + 3 * k] = gain * gap + endeff_vel_ref[k]
    if joint_regularization_ref is not None:
        self.vel_des[6 + 3 * self.ne:] = joint_regularization_ref
    else:
        self.vel_des[6 + 3 * self.ne:] = zero(self.nv - 6)
    if is_flight_phase:
        self.mom_ref_air_phase[3:6] = amom_ref
        self.mom_ref_air_phase[:3] = lmom_ref


#@ momentumopt/python/momentumopt/kinoptpy/inverse_kinematics.py::PointContactInverseKinematics.fill_weights
def fill_weights(self, endeff_contact):
    w = [self.w_lin_mom_tracking * np.ones(3), self.w_ang_mom_tracking * np.ones(3)]
    for c in endeff_contact:
        w.append((self.w_endeff_contact if c == 1. else self.w_endeff_tracking) * np.ones(3))
    w.append(self.w_joint_regularization * np.ones(self.nv - 6))
    self.w = np.diag(np.hstack(w))


#@ momentumopt/python/momentumopt/kinoptpy/inverse_kinematics.py::PointContactInverseKinematics.forward_robot
def forward_robot(self, q, dq):
    self.robot.forwardKinematics(q, dq)
    self.robot.computeJointJacobians(q)
    self.robot.framesForwardKinematics(q)
    se3.ccrba(self.robot.model, self.robot.data, q, dq)
    self.last_dq = dq.copy()
    self.last_q = q.copy()


#@ momentumopt/python/momentumopt/kinoptpy/inverse_kinematics.py::PointContactInverseKinematics.compute
def compute(self, q, dq, com_ref, lmom_ref, amom_ref, endeff_pos_ref, endeff_vel_ref, endeff_contact, joint_regularization_ref, is_flight_phase=False):
    same_q = np.all(np.equal(self.last_q, q))
    same_dq = np.all(np.equal(self.last_dq, dq))
    if not (same_q and same_dq):
        self.forward_robot(q, dq)
    self.fill_jacobians(q)
    self.fill_vel_des(q, dq, com_ref, lmom_ref, amom_ref, endeff_pos_ref, endeff_vel_ref, joint_regularization_ref, is_flight_phase)
    self.fill_weights(endeff_contact)
    self.forwarded_robot = False
    JtW = self.J.T.dot(self.w)
    H = JtW.dot(self.J)
    H = H + 1e-6 * np.identity(len(H))
    g = -JtW.dot(self.vel_des).reshape(-1)
    if not is_flight_phase:
        return self.qp_solver.quadprog_solve_qp(H, g)
    return self.qp_solver.quadprog_solve_qp(H, g, A=self.J[:6, :], b=self.mom_ref_air_phase)


#@ momentumopt/python/momentumopt/kinoptpy/second_order_ik.py::SecondOrderInverseKinematics.__init__
def ik2_init(self, model, endeff_frame_names):
    self.robot = RobotWrapper(model)
    self.robot_mass = sum([k.mass for k in self.robot.model.inertias[1:]])
    base = self.robot.model.getFrameId('base_link')
    if base == len(self.robot.model.frames):
        raise Exception('Unknown frame name: {}'.format('base_link'))
    self.base_id = base
    self.endeff_frame_names = endeff_frame_names
    ids = []
    for name in endeff_frame_names:
        idx = self.robot.model.getFrameId(name)
        if idx == len(self.robot.model.frames):
            raise Exception('Unknown frame name: {}'.format(name))
        ids.append(idx)
    self.endeff_ids = ids
    self.is_init_time = True
    self.ne = len(self.endeff_ids)
    self.nv = self.robot.model.nv
    self.w_endeff_tracking = 10**5
    self.w_endeff_contact = 10**5
    self.w_lin_mom_tracking = 100.0
    self.w_ang_mom_tracking = 10.0
    self.w_joint_regularization = 0.1
    self.p_endeff_tracking = 10000.
    self.d_endeff_tracking = 200
    self.p_com_tracking = 100.
    self.p_orient_tracking = 10.
    self.d_orient_tracking = 1.
    self.p_mom_tracking = 10. * np.array([1., 1., 1., .01, .01, .01])
    self.p_joint_regularization = 1.
    self.d_joint_regularization = .5
    rows = 6 + 3 * self.ne + self.nv - 6
    self.desired_acceleration = np.zeros((rows, ))
    self.J = np.zeros((rows, self.nv))
    self.drift_terms = np.zeros_like(self.desired_acceleration)
    self.measured_velocities = np.zeros((self.J.shape[0], ))
    self.use_hierarchy = False
    self.qp_solver = QpSolver()


#@ momentumopt/python/momentumopt/kinoptpy/second_order_ik.py::SecondOrderInverseKinematics.framesPos
def framesPos(self, frames):
    rows = []
    for k in frames:
        rows.append(self.robot.data.oMf[k].translation)
    return np.vstack(rows).reshape([len(frames), 3])


#@ momentumopt/python/momentumopt/kinoptpy/second_order_ik.py::SecondOrderInverseKinematics.update_des_acc
def update_des_acc(self, q, dq, com_ref, orien_ref, mom_ref, dmom_ref, endeff_pos_ref, endeff_vel_ref, endeff_acc_ref, joint_regularization_ref):
    v = self.J @ dq
    self.desired_acceleration[:6] = np.diag(self.p_mom_tracking) @ (mom_ref - self.robot.data.hg) + dmom_ref
    self.desired_acceleration[:3] += self.p_com_tracking * (com_ref - self.robot.com(q))
    error = pin.log3(self.robot.data.oMf[self.base_id].rotation.T @ orien_ref.matrix())
    self.desired_acceleration[3:6] += self.p_orient_tracking * error - self.d_orient_tracking * dq[3:6]
    for k in range(len(self.endeff_ids)):
        a, b = 6 + 3 * k, 9 + 3 * k
        gap = endeff_pos_ref[k] - self.robot.data.oMf[self.endeff_ids[k]].translation
        self.desired_acceleration[a:b] = endeff_acc_ref[k] + self.p_endeff_tracking * gap + self.d_endeff_tracking * (endeff_vel_ref[k] - v[a:b])
    if joint_regularization_ref is None:
        self.desired_acceleration[6 + 3 * self.ne:] = zero(self.nv - 6)
    else:
        self.desired_acceleration[6 + 3 * self.ne:] = self.p_joint_regularization * (joint_regularization_ref - q[7:]) - self.d_joint_regularization * dq[6:]


#@ momentumopt/python/momentumopt/kinoptpy/second_order_ik.py::SecondOrderInverseKinematics.fill_weights
def fill_weights2(self, endeff_contact):
    w = [self.w_lin_mom_tracking * np.ones(3), self.w_ang_mom_tracking * np.ones(3)]
    for c in endeff_contact:
        w.append((self.w_endeff_contact if c == 1. else self.w_endeff_tracking) * np.ones(3))
    w.append(self.w_joint_regularization * np.ones(self.nv - 6))
    self.w = np.diag(np.hstack(w))


#@ momentumopt/python/momentumopt/kinoptpy/second_order_ik.py::SecondOrderInverseKinematics.update_kinematics
def update_kinematics(self, q, dq):
    self.robot.forwardKinematics(q, dq)
    self.robot.computeJointJacobians(q)
    self.robot.framesForwardKinematics(q)
    pin.computeJointJacobiansTimeVariation(self.robot.model, self.robot.data, q, dq)
    pin.computeCentroidalMapTimeVariation(self.robot.model, self.robot.data, q, dq)
    self.J[:6, :] = self.robot.data.Ag
    self.drift_terms[:6, ] = self.robot.data.dAg @ dq
    for k in range(len(self.endeff_ids)):
        idx = self.endeff_ids[k]
        self.J[6 + 3 * k: 9 + 3 * k, :] = self.robot.getFrameJacobian(idx, pin.ReferenceFrame.LOCAL_WORLD_ALIGNED)[:3]
    for k in range(len(self.endeff_ids)):
        idx = self.endeff_ids[k]
        self.drift_terms[6 + 3 * k: 9 + 3 * k, ] = pin.getFrameJacobianTimeVariation(self.robot.model, self.robot.data, idx, pin.ReferenceFrame.LOCAL_WORLD_ALIGNED)[:3] @ dq
    self.J[6 + 3 * self.ne:, 6:] = np.identity(self.nv - 6)


#@ momentumopt/python/momentumopt/kinoptpy/second_order_ik.py::SecondOrderInverseKinematics.step
def step(self, q, dq, com_ref, orien_ref, mom_ref, dmom_ref, endeff_pos_ref, endeff_vel_ref, endeff_acc_ref, endeff_contact, joint_regularization_ref):
    self.update_kinematics(q, dq)
    self.update_des_acc(q, dq, com_ref, orien_ref, mom_ref, dmom_ref, endeff_pos_ref, endeff_vel_ref, endeff_acc_ref, joint_regularization_ref)
    self.fill_weights(endeff_contact)
    if not self.use_hierarchy:
        H = self.J.T @ self.w @ self.J
        H = H + 1e-6 * np.identity(len(H))
        g = -self.J.T.dot(self.w).dot(self.desired_acceleration - self.drift_terms).reshape(-1)
        return self.qp_solver.quadprog_solve_qp(H, g)
    feet = self.J[6:18, :]
    feet_inv = scipy.linalg.pinv(feet, cond=0.00001)
    acc = feet_inv @ (self.desired_acceleration[6:18] - self.drift_terms[6:18])
    null = np.eye(self.nv) - feet_inv @ feet
    rest_inv = scipy.linalg.pinv(self.J[:6, :] @ null, cond=0.00001)
    return acc + rest_inv @ (self.desired_acceleration[:6] - self.drift_terms[:6] - self.J[:6, :] @ acc)


#@ momentumopt/python/momentumopt/kinoptpy/second_order_ik.py::SecondOrderInverseKinematics.solve
def solve(self, dt, q_init, dq_init, com_ref, lmom_ref, amom_ref, endeff_pos_ref, endeff_vel_ref, endeff_contact, joint_pos_ref, base_ori_ref):
    n = com_ref.shape[0]
    com_kin = np.zeros_like(com_ref)
    lmom_kin = np.zeros_like(lmom_ref)
    amom_kin = np.zeros_like(amom_ref)
    endeff_pos_kin = np.zeros_like(endeff_pos_ref)
    endeff_vel_kin = np.zeros_like(endeff_vel_ref)
    q_kin = np.zeros([n, q_init.shape[0]])
    dq_kin = np.zeros([n, dq_init.shape[0]])
    inner_steps = max(1, int(round(dt / 0.001)))
    h = dt / inner_steps
    time = np.linspace(0., (n - 1) * dt, n)
    com_s = CubicSpline(time, com_ref)
    lmom_s = CubicSpline(time, lmom_ref)
    amom_s = CubicSpline(time, amom_ref)
    pos_s = CubicSpline(time, endeff_pos_ref)
    vel_s = CubicSpline(time, endeff_vel_ref)
    joint_s = CubicSpline(time, joint_pos_ref)
    ori_s = CubicSpline(time, base_ori_ref)
    q = q_init.copy()
    dq = dq_init.copy()
    self.update_kinematics(q, dq)
    q_kin[0] = q
    dq_kin[0] = dq
    com_kin[0] = self.robot.com(q).T
    hg = self.robot.centroidalMomentum(q, dq)
    lmom_kin[0] = hg.linear.T
    amom_kin[0] = hg.angular.T
    endeff_pos_kin[0] = self.framesPos(self.endeff_ids)
    endeff_vel_kin[0] = (self.J[6:6 + 3 * self.ne].dot(dq).T).reshape([self.ne, 3])
    t = 0.
    for it in range(1, n):
        for k in range(inner_steps):
            orientation = pin.Quaternion(pin.rpy.rpyToMatrix(ori_s(t)))
            ddq = self.step(q, dq, com_s(t), orientation, np.hstack((lmom_s(t), amom_s(t))), np.hstack((lmom_s(t, nu=1), amom_s(t, nu=1))),
                            pos_s(t), vel_s(t), vel_s(t, nu=1), endeff_contact[it], joint_s(t))
            dq = dq + ddq * h
            q = pin.integrate(self.robot.model, q, dq * h)
            t += h
            self.update_kinematics(q, dq)
        q_kin[it] = q
        dq_kin[it] = dq
        com_kin[it] = self.robot.com(q).T
        hg = self.robot.centroidalMomentum(q, dq)
        lmom_kin[it] = hg.linear.T
        amom_kin[it] = hg.angular.T
        endeff_pos_kin[it] = self.framesPos(self.endeff_ids)
        endeff_vel_kin[it] = (self.J[6:6 + 3 * self.ne].dot(dq).T).reshape([self.ne, 3])
    return q_kin, dq_kin, com_kin, lmom_kin, amom_kin, endeff_pos_kin, endeff_vel_kin
