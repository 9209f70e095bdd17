# Reference functions of the kinematics optimiser and its reference trajectories (see kda/pyref.py)
import numpy as np
import pinocchio as se3
from momentumopt.kinoptpy.inverse_kinematics import PointContactInverseKinematics
from momentumopt.kinoptpy.second_order_ik import SecondOrderInverseKinematics
from momentumopt.kinoptpy.min_jerk_traj import *
from momentumopt.robots.blmc_robot_wrapper import QuadrupedWrapper
from pymomentum import *
from pymomentum import PlannerVectorParam_KinematicDefaultJointPositions, PlannerIntParam_NumTimesteps, PlannerDoubleParam_TimeStep


#@ momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py::EndeffectorTrajectoryGenerator.__init__
def gen_init(self):
    self.z_offset = 0.1


#@ momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py::EndeffectorTrajectoryGenerator.get_z_bound
def get_z_bound(self, opt):
    hi = max(opt.com_dyn[:, 2])
    lo = min(opt.com_dyn[:, 2])
    return min(self.max_bound, hi), max(self.min_bound, lo)


#@ momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py::EndeffectorTrajectoryGenerator.is_end_eff_in_contact
def is_end_eff_in_contact(self, it, eff, opt):
    return 1. if opt.dynamic_sequence.dynamics_states[it].effActivation(eff) else 0.


#@ momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py::EndeffectorTrajectoryGenerator.get_contact_plan_from_dyn_optimizer
def get_contact_plan_from_dyn_optimizer(self, opt):
    plan = {}
    for i in range(len(opt.eff_names)):
        name = opt.eff_names[i]
        plan[name] = []
        begin = 0.
        for it in range(opt.num_time_steps):
            now = opt.dynamic_sequence.dynamics_states[it].effActivation(i)
            # a phase still active at the end of the horizon ends there
            after = it + 1 < opt.num_time_steps and opt.dynamic_sequence.dynamics_states[it + 1].effActivation(i)
            if now and not after:
                plan[name].append([begin, it, opt.dynamic_sequence.dynamics_states[it].eff(i)])
            if after and not now:
                begin = it + 1
    return plan


#@ momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py::EndeffectorTrajectoryGenerator.generate_eff_traj
def generate_eff_traj(self, opt, plan):
    polys = {}
    for name in opt.eff_names:
        traj = [PolynominalList(), PolynominalList(), PolynominalList()]
        for i in range(len(plan[name])):
            here = plan[name][i]
            for d in range(3):
                traj[d].append([here[0], here[1]], constant_poly(here[2][d]))
            if i + 1 < len(plan[name]):
                there = plan[name][i + 1]
                t = [here[1], there[0]]
                for d in range(3):
                    via = here[2][d] + self.z_offset if d == 2 else None
                    traj[d].append(t, poly_points(t, here[2][d], there[2][d], via))
        polys[name] = traj
    return polys


#@ momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py::EndeffectorTrajectoryGenerator.__call__
def gen_call(self, opt):
    plan = self.get_contact_plan_from_dyn_optimizer(opt)
    polys = self.generate_eff_traj(opt, plan)
    n, m = opt.num_time_steps, len(opt.eff_names)
    pos = np.zeros((n, m, 3))
    vel = np.zeros((n, m, 3))
    contact = np.zeros((n, m))
    for it in range(n):
        for e in range(m):
            name = opt.eff_names[e]
            pos[it][e] = [polys[name][d].eval(it) for d in range(3)]
            # polynomials are functions of the time step
            vel[it][e] = [polys[name][d].deval(it) / opt.dt for d in range(3)]
            contact[it][e] = self.is_end_eff_in_contact(it, e, opt)
    return pos, vel, contact


#@ momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py::TrajectoryInterpolator.__init__
def interp_init(self):
    self.num_time_steps = None
    self.q_init = None
    self.init = None
    self.end = None
    self.poly_traj = None


#@ momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py::TrajectoryInterpolator.generate_trajectory
def generate_trajectory(self, n_via, q_via, dt):
    self.poly_traj = []
    for i in range(len(self.init)):
        self.poly_traj = np.append(self.poly_traj, [PolynominalList()])
    for j in range(len(self.init)):
        for i in range(n_via + 1):
            if i == 0:
                t = [0, q_via[0][0] / dt]
                self.poly_traj[j].append(t, poly_points(t, self.init[j], q_via[i][j + 1]))
            elif i != n_via:
                t = [q_via[i - 1][0] / dt, q_via[i][0] / dt]
                self.poly_traj[j].append(t, poly_points(t, q_via[i - 1][j + 1], q_via[i][j + 1]))
            else:
                t = [q_via[i - 1][0] / dt, self.num_time_steps]
                if t[0] != t[1]:
                    self.poly_traj[j].append(t, poly_points(t, q_via[i - 1][j + 1], self.end[j]))


#@ momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py::TrajectoryInterpolator.evaluate_trajecory
def evaluate_trajecory(self, t):
    q = np.zeros((1, len(self.init)), float)
    for j in range(len(self.init)):
        q[0, j] = self.poly_traj[j].eval(t)
    return q


#@ momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py::MomentumKinematicsOptimizer.__init__
def opt_init(self):
    self.q_init = None
    self.dq_init = None
    self.reg_orientation = 1e-2
    self.reg_joint_position = 2.
    self.joint_des = None
    self.n_via_joint = 0
    self.n_via_base = 0
    self.via_joint = None
    self.via_base = None


#@ momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py::MomentumKinematicsOptimizer.reset
def reset(self):
    self.kinematics_sequence = KinematicsSequence()
    steps = self.planner_setting.get(PlannerIntParam_NumTimesteps)
    self.kinematics_sequence.resize(steps, self.planner_setting.get(PlannerIntParam_NumDofs))


#@ momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py::MomentumKinematicsOptimizer.initialize
def initialize(self, planner_setting, max_iterations=50, eps=0.001, endeff_traj_generator=None, RobotWrapper=QuadrupedWrapper):
    self.planner_setting = planner_setting
    self.endeff_traj_generator = EndeffectorTrajectoryGenerator() if endeff_traj_generator is None else endeff_traj_generator
    self.dt = planner_setting.get(PlannerDoubleParam_TimeStep)
    self.num_time_steps = planner_setting.get(PlannerIntParam_NumTimesteps)
    self.max_iterations = max_iterations
    self.eps = eps
    self.robot = RobotWrapper()
    self.reset()
    n = self.num_time_steps
    self.com_dyn = np.zeros((n, 3))
    self.lmom_dyn = np.zeros((n, 3))
    self.amom_dyn = np.zeros((n, 3))
    self.com_kin = np.zeros((n, 3))
    self.lmom_kin = np.zeros((n, 3))
    self.amom_kin = np.zeros((n, 3))
    self.q_kin = np.zeros((n, self.robot.model.nq))
    self.dq_kin = np.zeros((n, self.robot.model.nv))
    self.hip_names = ['{}_HFE'.format(e) for e in self.robot.effs]
    self.hip_ids = [self.robot.model.getFrameId(name) for name in self.hip_names]
    self.eff_names = ['{}_{}'.format(e, self.robot.joints_list[-1]) for e in self.robot.effs]
    self.inv_kin = PointContactInverseKinematics(self.robot.model, self.eff_names)
    self.snd_order_inv_kin = SecondOrderInverseKinematics(self.robot.model, self.eff_names)
    self.use_second_order_inv_kin = False
    cols = 3 * self.inv_kin.ne
    self.motion_eff = {
        'trajectory': np.zeros((n, cols)),
        'velocity': np.zeros((n, cols)),
        'trajectory_wrt_base': np.zeros((n, cols)),
        'velocity_wrt_base': np.zeros((n, cols))
    }


#@ momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py::MomentumKinematicsOptimizer.fill_data_from_dynamics
def fill_data_from_dynamics(self):
    for k in range(self.num_time_steps):
        state = self.dynamic_sequence.dynamics_states[k]
        self.amom_dyn[k] = state.amom
        self.lmom_dyn[k] = state.lmom
        self.com_dyn[k] = state.com


#@ momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py::MomentumKinematicsOptimizer.fill_endeffector_trajectory
def fill_endeffector_trajectory(self):
    pos, vel, contact = self.endeff_traj_generator(self)
    self.endeff_pos_ref = pos
    self.endeff_vel_ref = vel
    self.endeff_contact = contact


#@ momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py::MomentumKinematicsOptimizer.fill_kinematic_result
def fill_kinematic_result(self, it, q, dq):
    # the task Jacobian is the one of this posture
    self.inv_kin.fill_jacobians(q)
    hg = self.inv_kin.robot.centroidalMomentum(q, dq)
    self.com_kin[it] = self.inv_kin.robot.com(q).T
    self.lmom_kin[it] = hg.linear.T
    self.amom_kin[it] = hg.angular.T
    self.q_kin[it] = q.T
    self.dq_kin[it] = dq.T
    place = lambda ids: np.vstack([self.inv_kin.robot.data.oMf[k].translation for k in ids]).reshape(-1)
    speed = lambda ids: np.vstack([self.inv_kin.get_world_oriented_frame_jacobian(q, k).dot(dq)[:3] for k in ids]).reshape(-1)
    self.motion_eff['trajectory'][it] = place(self.inv_kin.endeff_ids)
    self.motion_eff['velocity'][it] = self.inv_kin.J[6:6 + 3 * self.inv_kin.ne].dot(dq).T
    self.motion_eff['trajectory_wrt_base'][it] = self.motion_eff['trajectory'][it] - place(self.hip_ids)
    self.motion_eff['velocity_wrt_base'][it] = self.motion_eff['velocity'][it] - speed(self.hip_ids)
    k = self.kinematics_sequence.kinematics_states[it]
    k.com = self.com_kin[it]
    k.lmom = self.lmom_kin[it]
    k.amom = self.amom_kin[it]
    k.robot_posture.base_position = q[:3]
    k.robot_posture.base_orientation = q[3:7]
    k.robot_posture.joint_positions = q[7:]
    k.robot_velocity.base_linear_velocity = dq[:3]
    k.robot_velocity.base_angular_velocity = dq[3:6]
    k.robot_velocity.joint_velocities = dq[6:]


#@ momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py::MomentumKinematicsOptimizer.optimize_initial_position
def optimize_initial_position(self, init_state):
    q = se3.neutral(self.robot.model)
    joints = self.planner_setting.get(PlannerVectorParam_KinematicDefaultJointPositions)
    if len(joints) != self.robot.num_ctrl_joints:
        raise ValueError('wrong number of joints')
    q[7:] = joints
    q[2] = init_state.com[2]
    m = len(self.eff_names)
    flat = se3.Quaternion(se3.rpy.rpyToMatrix(np.zeros([3, ])))
    q[3:7] = flat.coeffs()
    dq = np.zeros(self.robot.robot.nv)
    feet = np.array([init_state.effPosition(k) for k in range(m)])
    for n in range(self.max_iterations):
        now = se3.Quaternion(float(q[6]), float(q[3]), float(q[4]), float(q[5]))
        amom = 1e-1 * se3.log((flat * now.inverse()).matrix())
        step = self.inv_kin.compute(q, dq, init_state.com, np.zeros(3), amom, feet, np.matrix(np.zeros((m, 3))), np.ones(m), None)
        q = se3.integrate(self.robot.model, q, step)
        if np.linalg.norm(step) < 1e-3:
            break
    self.q_init = q.copy()
    self.dq_init = dq.copy()


#@ momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py::MomentumKinematicsOptimizer.optimize
def optimize(self, init_state, contact_sequence, dynamic_sequence, plotting=False):
    self.init_state = init_state
    self.contact_sequence = contact_sequence
    self.dynamic_sequence = dynamic_sequence
    self.fill_data_from_dynamics()
    self.fill_endeffector_trajectory()
    if self.q_init is None:
        self.optimize_initial_position(init_state)
    self.joint_des = np.zeros((len(self.q_init[7:]), self.num_time_steps), float)
    if self.n_via_joint != 0:
        g = TrajectoryInterpolator()
        g.num_time_steps = self.num_time_steps
        g.init = self.q_init[7:]
        g.end = self.q_init[7:]
        g.generate_trajectory(self.n_via_joint, self.via_joint, self.dt)
        for k in range(self.num_time_steps):
            self.joint_des[:, k] = g.evaluate_trajecory(k)
    else:
        for k in range(self.num_time_steps):
            self.joint_des[:, k] = self.q_init[7:].T
    self.base_des = np.zeros((3, self.num_time_steps), float)
    if self.n_via_base != 0:
        b = TrajectoryInterpolator()
        b.num_time_steps = self.num_time_steps
        b.init = np.array([0.0, 0.0, 0.0])
        b.end = np.array([0.0, 0.0, 0.0])
        b.generate_trajectory(self.n_via_base, self.via_base, self.dt)
        for k in range(self.num_time_steps):
            self.base_des[:, k] = b.evaluate_trajecory(k)
    else:
        for k in range(self.num_time_steps):
            self.base_des[:, k] = np.array([0., 0., 0.]).reshape(-1)
    self.inv_kin.is_init_time = 0
    q = self.q_init.copy()
    dq = self.dq_init.copy()
    if self.use_second_order_inv_kin:
        res = self.snd_order_inv_kin.solve(self.dt, q, dq, self.com_dyn, self.lmom_dyn, self.amom_dyn, self.endeff_pos_ref, self.endeff_vel_ref, self.endeff_contact, self.joint_des.T, self.base_des.T)
        for k, (a, b) in enumerate(zip(res[0], res[1])):
            self.inv_kin.forward_robot(a, b)
            self.fill_kinematic_result(k, a, b)
    else:
        for it in range(self.num_time_steps):
            goal = se3.Quaternion(se3.rpy.rpyToMatrix(np.matrix(self.base_des[:, it]).T))
            now = se3.Quaternion(float(q[6]), float(q[3]), float(q[4]), float(q[5]))
            for e in range(len(self.eff_names)):
                flight = True
                if self.dynamic_sequence.dynamics_states[it].effActivation(e):
                    flight = False
                    break
            if not flight:
                lmom_ref = self.lmom_dyn[it].copy()
                amom_ref = (self.reg_orientation * se3.log((goal * now.inverse()).matrix()).T + self.amom_dyn[it]).reshape(-1)
            else:
                # ballistic: momentum is kept, gravity accelerates
                lmom_ref[0:2] = takeoff[0:2]
                lmom_ref[2] -= self.planner_setting.get(PlannerDoubleParam_RobotWeight) * self.dt
                amom_ref = takeoff[3:6]
            joints = self.reg_joint_position * (self.joint_des[:, it] - q[7:])
            self.inv_kin.forward_robot(q, dq)
            self.fill_kinematic_result(it, q, dq)
            if not flight:
                takeoff = self.inv_kin.J[0:6, :].dot(dq).reshape(-1)
            dq = self.inv_kin.compute(q, dq, self.com_dyn[it], lmom_ref, amom_ref, self.endeff_pos_ref[it], self.endeff_vel_ref[it], self.endeff_contact[it], joints, flight)
            q = se3.integrate(self.robot.model, q, dq * self.dt)
