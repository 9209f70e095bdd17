// Contact plan: loading, assignment of contacts to time steps, end effector motion between contacts.
#include <momentumopt/cntopt/ContactPlanFromFile.hpp>
#include <momentumopt/cntopt/ContactPlanInterface.hpp>
#include <yaml_utils/yaml_cpp_fwd.hpp>
#include <yaml_utils/yaml_eigen.hpp>
using namespace momentumopt;
namespace spec {
typedef Eigen::Vector3d V3;
typedef Eigen::Quaternion<double> Q;
typedef ContactPlanInterface Plan;

//@ momentumopt::Problem::idToEndeffectorString
std::string idToEndeffectorString(int e)
{
  if (e == 0) return "rf";
  if (e == 1) return "lf";
  if (e == 2) return "rh";
  if (e == 3) return "lh";
  throw std::runtime_error("unknown end effector");
}

//@ momentumopt::ContactState::contactPlacement/1
void contactPlacement(ContactState& c, const Eigen::Matrix<double,4,4>& T)
{
  c.position_ = T.block<3,1>(0,3);
  c.orientation_ = Q(T.block<3,3>(0,0));
}

//@ momentumopt::idToContactType
ContactType idToContactType(int id)
{
  if (id == 1) return ContactType::FlatContact;
  if (id == 2) return ContactType::FullContact;
  return ContactType::FreeContact;
}

//@ momentumopt::ContactState::ContactState/2
void contact(ContactState& c, const Eigen::VectorXd& p, const int id)
{
  c.optimization_id_ = id;
  c.selected_as_active_ = false;
  c.time_ini_ = p[0];
  c.time_end_ = p[1];
  c.position_ = p.segment<3>(2);
  c.orientation_ = Q(p[5], p[6], p[7], p[8]);   // w, x, y, z
  c.contact_type_ = momentumopt::idToContactType(p[9]);
  c.terrain_id_ = p[10];
}

//@ momentumopt::ViapointState::ViapointState/2
void viapoint(ViapointState& c, const Eigen::VectorXd& p, const int id)
{
  c.optimization_id_ = id;
  c.viapoint_id_ = p[0];
  c.position_ = p.segment<3>(1);
  c.orientation_ = Q(p[4], p[5], p[6], p[7]);   // w, x, y, z
}

//@ momentumopt::ContactSequence::loadFromFile
void loadContacts(ContactSequence& s, const std::string file, const std::string name)
{
  try {
    YAML::Node all = YAML::LoadFile(file.c_str());
    YAML::Node plan = all[name.c_str()];
    s.num_optimization_contacts_ = 0;
    std::vector<Eigen::VectorXd> rows;
    for (int e = 0; e < Problem::n_endeffs_; ++e) {
      rows.clear();
      YAML::ReadParameter(plan, ("effcnt_" + Problem::idToEndeffectorString(e)).c_str(), rows);
      s.endeffector_contacts_[e].clear();
      for (unsigned int k = 0; k < rows.size(); ++k) {
        s.endeffector_contacts_[e].push_back(ContactState(rows[k], s.num_optimization_contacts_));
        s.num_optimization_contacts_ = s.num_optimization_contacts_ + 1;
      }
    }
  } catch (std::runtime_error& e) {
  }
}

//@ momentumopt::ViapointSequence::loadFromFile
void loadViapoints(ViapointSequence& s, const std::string file, const std::string name)
{
  try {
    YAML::Node all = YAML::LoadFile(file.c_str());
    YAML::Node plan = all[name.c_str()];
    s.num_optimization_viapoints_ = 0;
    std::vector<Eigen::VectorXd> rows;
    for (int e = 0; e < Problem::n_endeffs_; ++e) {
      rows.clear();
      YAML::ReadParameter(plan, ("effvia_" + Problem::idToEndeffectorString(e)).c_str(), rows);
      s.endeffector_viapoints_[e].clear();
      for (unsigned int k = 0; k < rows.size(); ++k) {
        s.endeffector_viapoints_[e].push_back(ViapointState(rows[k], s.num_optimization_viapoints_));
        s.num_optimization_viapoints_ = s.num_optimization_viapoints_ + 1;
      }
    }
  } catch (std::runtime_error& e) {
  }
}

//@ momentumopt::ContactPlanFromFile::optimize
void plan(ContactPlanFromFile& s, const DynamicsState&, const TerrainDescription&)
{
  std::string file = s.getSetting().get(PlannerStringParam_ConfigFile);
  s.contact_sequence_.loadFromFile(file, "contact_plan");
  for (int e = 0; e < Problem::n_endeffs_; ++e)
    for (int c = 0; c < s.contact_sequence_.numEndeffectorContacts(e); ++c)
      s.contact_sequence_.endeffectorContacts(e)[c].selectedAsActive(true);
  if (s.getSetting().get(PlannerBoolParam_LoadKinematics))
    s.viapoint_sequence_.loadFromFile(file, "contact_plan");
}

//@ momentumopt::ContactPlanInterface::fillDynamicsSequence
void fillDynamicsSequence(Plan& s, const DynamicsState&, DynamicsSequence& seq)
{
  seq.activeEndeffectorSteps().setZero();
  for (int e = 0; e < Problem::n_endeffs_; ++e) {
    int active = 0;   // (contact, time step) pairs seen so far
    for (int c = 0; c < s.contact_sequence_.numEndeffectorContacts(e); ++c) {
      ContactState& cnt = s.contact_sequence_.endeffectorContacts(e)[c];
      if (cnt.selectedAsActive())
        for (int k = 0; k < s.getSetting().get(PlannerIntParam_NumTimesteps); ++k) {
          const double t = (k + 1.0) * s.getSetting().get(PlannerDoubleParam_TimeStep);
          if (t >= cnt.contactActivationTime() && t < cnt.contactDeactivationTime()) {
            DynamicsState& x = seq.dynamicsState(k);
            x.endeffectorActivation(e) = true;
            x.endeffectorContactId(e) = c;
            x.endeffectorActivationId(e) = active;
            x.endeffectorPosition(e) = cnt.contactPosition();
            x.endeffectorOrientation(e) = cnt.contactOrientation();
            active += 1;
          }
        }
    }
    seq.activeEndeffectorSteps()[e] = active;
  }
}

//@ momentumopt::ContactPlanInterface::mapIdToContactTime
double mapIdToContactTime(Plan& s, const DynamicsSequence& seq, int n)
{
  double t = 0.0;
  for (int k = 0; k < n; ++k)
    t += seq.dynamicsState(k).time();
  return t;
}

//@ momentumopt::ContactPlanInterface::findMakeContactId
int findMakeContactId(Plan& s, const DynamicsSequence& seq, const int from, int e)
{
  int k = from;
  while (!(!seq.dynamicsState(k).endeffectorActivation(e) && seq.dynamicsState(k+1).endeffectorActivation(e)))
    ++k;
  return k;   // last step in the air
}

//@ momentumopt::ContactPlanInterface::findBreakContactId
int findBreakContactId(Plan& s, const DynamicsSequence& seq, const int from, int e)
{
  int k = from;
  while (!(seq.dynamicsState(k).endeffectorActivation(e) && !seq.dynamicsState(k+1).endeffectorActivation(e)))
    ++k;
  return k + 1;   // first step in the air
}

//@ momentumopt::ContactPlanInterface::findActiveViapoints
void findActiveViapoints(Plan& s, V3& via, int e, int c)
{
  for (int k = 0; k < s.viapoint_sequence_.numEndeffectorViapoints(e); ++k)
    if (s.viapoint_sequence_.endeffectorViapoints(e)[k].viapointId() == c) {
      via = s.viapoint_sequence_.endeffectorViapoints(e)[k].viapointPosition();
      return;
    }
}

//@ momentumopt::ContactPlanInterface::generateFlightPhase
void generateFlightPhase(Plan& s, DynamicsSequence& seq, int from, int to, int e, const Q& qini, const Q& qend)
{
  for (int k = from; k <= to; ++k) {
    DynamicsState& x = seq.dynamicsState(k);
    s.sw_traj_.update(s.mapIdToContactTime(seq, k+1));
    x.endeffectorPosition(e) = s.sw_traj_.desPos();
    x.endeffectorVelocity(e) = s.sw_traj_.desVel();
    x.endeffectorAcceleration(e) = s.sw_traj_.desAcc();
    // reaches the final orientation half way
    x.endeffectorOrientation(e) = qini.slerp(std::min(2.0*(k-from)/(to+1.0-from), 1.0), qend);
  }
}

static void fly(Plan& s, DynamicsSequence& seq, int e, int via_of, int from, int to, const V3& pini, const V3& pend, const Q& qini, const Q& qend, V3& via)
{
  s.findActiveViapoints(via, e, via_of);
  s.sw_traj_.initialize(s.mapIdToContactTime(seq, from+1), pini, s.mapIdToContactTime(seq, to+1), pend, via);
  s.generateFlightPhase(seq, from, to, e, qini, qend);
}

//@ momentumopt::ContactPlanInterface::updateEndeffectorTrajectories
void updateEndeffectorTrajectories(Plan& s, const DynamicsState& ini, DynamicsSequence& seq)
{
  if (!s.getSetting().get(PlannerBoolParam_LoadKinematics))
    return;
  const int last = s.getSetting().get(PlannerIntParam_NumTimesteps) - 1;
  V3 via;
  for (int e = 0; e < Problem::n_endeffs_; ++e) {
    const int n = s.contact_sequence_.numEndeffectorContacts(e);
    if (!(n > 0))
      continue;
    std::vector<ContactState>& cs = s.contact_sequence_.endeffectorContacts(e);
    int up = 0, down = 0;
    if (!ini.endeffectorActivation(e)) {
      up = 0;
      down = s.findMakeContactId(seq, up, e);
      fly(s, seq, e, -1, up, down, ini.endeffectorPosition(e), cs[0].contactPosition(), ini.endeffectorOrientation(e), cs[0].contactOrientation(), via);
    }
    for (int c = 0; c + 1 < n; ++c) {
      up = s.findBreakContactId(seq, down, e);
      down = s.findMakeContactId(seq, up, e);
      fly(s, seq, e, c, up, down, cs[c].contactPosition(), cs[c+1].contactPosition(), cs[c].contactOrientation(), cs[c+1].contactOrientation(), via);
    }
    if (!seq.dynamicsState(last).endeffectorActivation(e)) {
      up = s.findBreakContactId(seq, down, e);
      down = last;
      fly(s, seq, e, n-1, up, down, cs[n-1].contactPosition(), ini.endeffectorPosition(e) + s.getSetting().get(PlannerVectorParam_CenterOfMassMotion),
          cs[n-1].contactOrientation(), ini.endeffectorOrientation(e), via);
    }
  }
}

//@ momentumopt::DynamicsState::fillInitialRobotState
void fillInitialRobotState(DynamicsState& s, const std::string file, const std::string name)
{
  try {
    YAML::Node all = YAML::LoadFile(file.c_str());
    YAML::Node cfg = all[name.c_str()];
    YAML::ReadParameter(cfg, "com", s.com_);
    YAML::ReadParameter(cfg, "lmom", s.lmom_);
    YAML::ReadParameter(cfg, "amom", s.amom_);
    for (int e = 0; e < Problem::n_endeffs_; ++e) {
      Eigen::VectorXd p = YAML::ReadParameter<Eigen::VectorXd>(cfg["eef_pose"], "eef_" + Problem::idToEndeffectorString(e));
      s.eff_activations_[e] = int(p[0]);
      s.eff_positions_[e] = p.segment<3>(1);
      s.eff_orientations_[e] = Q(p[4], p[5], p[6], p[7]);
      YAML::ReadParameter(cfg["eef_ctrl"], "eef_frc_" + Problem::idToEndeffectorString(e), s.eff_forces_[e]);
    }
  } catch (std::runtime_error& e) {
  }
}

//@ momentumopt::DynamicsSequence::resize
void resize(DynamicsSequence& s, int n)
{
  s.dynamics_sequence_.clear();
  for (int k = 0; k < n; ++k)
    s.dynamics_sequence_.push_back(DynamicsState());
}
}
