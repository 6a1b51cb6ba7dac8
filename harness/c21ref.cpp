// The C++ library driven directly (no classes of the Python bindings), for lock-step comparison with them.
// Objects are named by index; every call is made by method name and returns plain numbers.
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>
#include <pybind11/eigen.h>
#include <factorama/base_types.hpp>
#include <factorama/factor_graph.hpp>
#include <factorama/sparse_optimizer.hpp>
#include <factorama/pose_variable.hpp>
#include <factorama/pose_2d_variable.hpp>
#include <factorama/landmark_variable.hpp>
#include <factorama/generic_variable.hpp>
#include <factorama/rotation_variable.hpp>
#include <factorama/inverse_range_variable.hpp>
#include <factorama/plane_variable.hpp>
#include <factorama/bearing_observation_factor.hpp>
#include <factorama/bearing_observation_factor_2d.hpp>
#include <factorama/range_bearing_factor_2d.hpp>
#include <factorama/generic_prior_factor.hpp>
#include <factorama/inverse_range_bearing_factor.hpp>
#include <factorama/generic_between_factor.hpp>
#include <factorama/linear_velocity_factor.hpp>
#include <factorama/pose_prior_factors.hpp>
#include <factorama/pose_2d_prior_factor.hpp>
#include <factorama/pose_2d_between_factor.hpp>
#include <factorama/pose_between_factors.hpp>
#include <factorama/rotation_prior_factor.hpp>
#include <factorama/bearing_projection_factor_2d.hpp>
#include <factorama/plane_factor.hpp>
#include <factorama/plane_prior_factor.hpp>
#include <factorama/coordinate_transform_factor.hpp>
#include <factorama/random_utils.hpp>
namespace py = pybind11;
namespace fr = factorama;
using VX = Eigen::VectorXd;
using V3 = Eigen::Vector3d;
using M3 = Eigen::Matrix3d;
typedef std::vector<py::object> Args;

static V3 v3(const py::object& o) { VX x = o.cast<VX>(); return V3(x(0), x(1), x(2)); }
static M3 m3(const py::object& o) { return o.cast<Eigen::MatrixXd>(); }
static double num(const py::object& o) { return o.cast<double>(); }

struct World
{
    std::vector<std::shared_ptr<fr::Variable>> vars;
    std::vector<std::shared_ptr<fr::Factor>> facs;
    std::vector<std::shared_ptr<fr::FactorGraph>> graphs;
    std::vector<std::shared_ptr<fr::SparseOptimizer>> opts;
    std::vector<std::shared_ptr<fr::OptimizerSettings>> sets;

    int put(std::shared_ptr<fr::Variable> v) { vars.push_back(v); return (int)vars.size() - 1; }
    int index(const fr::Variable* v)
    {
        for (size_t i = 0; i < vars.size(); ++i) if (vars[i].get() == v) return (int)i;
        return -1;
    }
    template <class T> T* as(const py::object& o)
    {
        T* p = dynamic_cast<T*>(vars.at(o.cast<int>()).get());
        if (!p) throw py::type_error("wrong variable");
        return p;
    }
    int make_var(const std::string& k, const Args& a)
    {
        int id = a.at(0).cast<int>();
        if (k == "PoseVariable" && a.size() == 2) { Eigen::Matrix<double, 6, 1> x = a[1].cast<VX>(); return put(std::make_shared<fr::PoseVariable>(id, x)); }
        if (k == "PoseVariable") return put(std::make_shared<fr::PoseVariable>(id, v3(a.at(1)), m3(a.at(2))));
        if (k == "LandmarkVariable") return put(std::make_shared<fr::LandmarkVariable>(id, v3(a.at(1))));
        if (k == "GenericVariable") return put(std::make_shared<fr::GenericVariable>(id, a.at(1).cast<VX>()));
        if (k == "RotationVariable") return put(std::make_shared<fr::RotationVariable>(id, m3(a.at(1))));
        if (k == "InverseRangeVariable") return put(std::make_shared<fr::InverseRangeVariable>(id, v3(a.at(1)), v3(a.at(2)), num(a.at(3))));
        if (k == "PlaneVariable") return put(std::make_shared<fr::PlaneVariable>(id, v3(a.at(1)), num(a.at(2))));
        if (k == "Pose2DVariable") return put(std::make_shared<fr::Pose2DVariable>(id, v3(a.at(1))));
        throw py::type_error("no such variable");
    }
    py::object vcall(int i, const std::string& m, const Args& a)
    {
        fr::Variable* v = vars.at(i).get();
        if (m == "id") return py::cast(v->id());
        if (m == "size") return py::cast(v->size());
        if (m == "value") return py::cast(VX(v->value()));
        if (m == "name") return py::cast(v->name());
        if (m == "type") return py::cast((int)v->type());
        if (m == "is_constant") return py::cast(v->is_constant());
        if (m == "set_constant") { v->set_constant(a.at(0).cast<bool>()); return py::none(); }
        if (m == "set_value_from_vector") { v->set_value_from_vector(a.at(0).cast<VX>()); return py::none(); }
        if (m == "apply_increment") { v->apply_increment(a.at(0).cast<VX>()); return py::none(); }
        if (m == "clone") return py::cast(put(v->clone()));
        if (auto p = dynamic_cast<fr::PoseVariable*>(v)) {
            if (m == "pos_W") return py::cast(V3(p->pos_W()));
            if (m == "rot_CW") return py::cast(V3(p->rot_CW()));
            if (m == "dcm_CW") return py::cast(M3(p->dcm_CW()));
        }
        if (auto p = dynamic_cast<fr::LandmarkVariable*>(v)) if (m == "pos_W") return py::cast(V3(p->pos_W()));
        if (auto p = dynamic_cast<fr::RotationVariable*>(v)) {
            if (m == "dcm_AB" || m == "rotation") return py::cast(M3(static_cast<const fr::RotationVariable*>(p)->rotation()));
        }
        if (auto p = dynamic_cast<fr::InverseRangeVariable*>(v)) {
            if (m == "pos_W") return py::cast(V3(p->pos_W()));
            if (m == "origin_pos_W") return py::cast(V3(p->origin_pos_W()));
            if (m == "bearing_W") return py::cast(V3(p->bearing_W()));
            if (m == "inverse_range") return py::cast(p->inverse_range());
            if (m == "minimum_inverse_range" && a.empty()) return py::cast(p->minimum_inverse_range_);
            if (m == "maximum_inverse_range" && a.empty()) return py::cast(p->maximum_inverse_range_);
            if (m == "minimum_inverse_range") { p->minimum_inverse_range_ = num(a[0]); return py::none(); }
            if (m == "maximum_inverse_range") { p->maximum_inverse_range_ = num(a[0]); return py::none(); }
        }
        if (auto p = dynamic_cast<fr::PlaneVariable*>(v)) {
            if (m == "unit_vector") return py::cast(V3(p->unit_vector()));
            if (m == "distance_from_origin") return py::cast(p->distance_from_origin());
            if (m == "distance_from_point") return py::cast(p->distance_from_point(v3(a.at(0))));
        }
        if (auto p = dynamic_cast<fr::Pose2DVariable*>(v)) {
            if (m == "pos_2d") return py::cast(Eigen::Vector2d(p->pos_2d()));
            if (m == "theta") return py::cast(double(p->theta()));
            if (m == "dcm_2d") return py::cast(Eigen::Matrix2d(p->dcm_2d()));
            if (m == "set_pos_2d") { VX x = a.at(0).cast<VX>(); p->set_pos_2d(Eigen::Vector2d(x(0), x(1))); return py::none(); }
            if (m == "set_theta") { p->set_theta(num(a.at(0))); return py::none(); }
        }
        throw py::attribute_error(m);
    }
    int putf(std::shared_ptr<fr::Factor> f) { facs.push_back(f); return (int)facs.size() - 1; }
    // the optional arguments are left out here as well where a has fewer entries
    int make_fac(const std::string& k, const Args& a)
    {
        int id = a.at(0).cast<int>();
        size_t n = a.size();
#define OPT1(T, base, c1) if (n <= base) return putf(std::make_shared<fr::T>(id, REQ)); return putf(std::make_shared<fr::T>(id, REQ, a[base].cast<c1>()));
#define OPT2(T, base, c1, c2) if (n <= base) return putf(std::make_shared<fr::T>(id, REQ)); if (n == base + 1) return putf(std::make_shared<fr::T>(id, REQ, a[base].cast<c1>())); return putf(std::make_shared<fr::T>(id, REQ, a[base].cast<c1>(), a[base + 1].cast<c2>()));
        if (k == "BearingObservationFactor") {
#define REQ as<fr::PoseVariable>(a[1]), as<fr::LandmarkVariable>(a[2]), v3(a[3])
            OPT1(BearingObservationFactor, 4, double)
#undef REQ
        }
        if (k == "GenericPriorFactor") {
#define REQ as<fr::Variable>(a[1]), a[2].cast<VX>()
            OPT1(GenericPriorFactor, 3, double)
#undef REQ
        }
        if (k == "InverseRangeBearingFactor") {
#define REQ as<fr::PoseVariable>(a[1]), as<fr::InverseRangeVariable>(a[2]), v3(a[3])
            OPT1(InverseRangeBearingFactor, 4, double)
#undef REQ
        }
        if (k == "GenericBetweenFactor") {
#define REQ as<fr::Variable>(a[1]), as<fr::Variable>(a[2]), as<fr::Variable>(a[3])
            OPT1(GenericBetweenFactor, 4, double)
#undef REQ
        }
        if (k == "LinearVelocityFactor") {
#define REQ as<fr::Variable>(a[1]), as<fr::Variable>(a[2]), as<fr::Variable>(a[3]), num(a[4])
            OPT2(LinearVelocityFactor, 5, double, int)
#undef REQ
        }
        if (k == "PosePositionPriorFactor") {
#define REQ as<fr::PoseVariable>(a[1]), v3(a[2])
            OPT1(PosePositionPriorFactor, 3, double)
#undef REQ
        }
        if (k == "PoseOrientationPriorFactor") {
#define REQ as<fr::PoseVariable>(a[1]), m3(a[2])
            OPT1(PoseOrientationPriorFactor, 3, double)
#undef REQ
        }
        if (k == "PosePositionBetweenFactor") {
#define REQ as<fr::PoseVariable>(a[1]), as<fr::PoseVariable>(a[2]), as<fr::Variable>(a[3])
            OPT2(PosePositionBetweenFactor, 4, double, bool)
#undef REQ
        }
        if (k == "PoseOrientationBetweenFactor") {
#define REQ as<fr::PoseVariable>(a[1]), as<fr::PoseVariable>(a[2]), as<fr::RotationVariable>(a[3])
            OPT1(PoseOrientationBetweenFactor, 4, double)
#undef REQ
        }
        if (k == "RotationPriorFactor") {
#define REQ as<fr::RotationVariable>(a[1]), m3(a[2])
            OPT1(RotationPriorFactor, 3, double)
#undef REQ
        }
        if (k == "BearingProjectionFactor2D") {
#define REQ as<fr::PoseVariable>(a[1]), as<fr::LandmarkVariable>(a[2]), v3(a[3])
            OPT2(BearingProjectionFactor2D, 4, double, double)
#undef REQ
        }
        if (k == "PlaneFactor") {
#define REQ as<fr::Variable>(a[1]), as<fr::PlaneVariable>(a[2])
            if (n == 7) return putf(std::make_shared<fr::PlaneFactor>(id, REQ, num(a[3]), a[4].cast<bool>(), num(a[5]), v3(a[6])));
            OPT1(PlaneFactor, 3, double)
#undef REQ
        }
        if (k == "PlanePriorFactor") {
#define REQ as<fr::PlaneVariable>(a[1]), v3(a[2]), num(a[3])
            OPT2(PlanePriorFactor, 4, double, double)
#undef REQ
        }
        if (k == "BearingObservationFactor2D") {
#define REQ as<fr::Pose2DVariable>(a[1]), as<fr::Variable>(a[2]), num(a[3])
            OPT1(BearingObservationFactor2D, 4, double)
#undef REQ
        }
        if (k == "RangeBearingFactor2D") {
#define REQ as<fr::Pose2DVariable>(a[1]), as<fr::Variable>(a[2]), num(a[3]), num(a[4])
            OPT2(RangeBearingFactor2D, 5, double, double)
#undef REQ
        }
        if (k == "Pose2DPriorFactor") return putf(std::make_shared<fr::Pose2DPriorFactor>(id, as<fr::Pose2DVariable>(a[1]), v3(a[2]), num(a[3]), num(a[4])));
        if (k == "Pose2DBetweenFactor") {
#define REQ as<fr::Pose2DVariable>(a[1]), as<fr::Pose2DVariable>(a[2]), as<fr::Variable>(a[3]), num(a[4]), num(a[5])
            OPT1(Pose2DBetweenFactor, 6, bool)
#undef REQ
        }
        if (k == "CoordinateTransformFactor") {
#define REQ as<fr::RotationVariable>(a[1]), as<fr::GenericVariable>(a[2]), as<fr::GenericVariable>(a[3]), as<fr::LandmarkVariable>(a[4]), as<fr::LandmarkVariable>(a[5])
            OPT1(CoordinateTransformFactor, 6, double)
#undef REQ
        }
        throw py::type_error("no such factor");
    }
    py::object fcall(int i, const std::string& m)
    {
        fr::Factor* f = facs.at(i).get();
        if (m == "id") return py::cast(f->id());
        if (m == "residual_size") return py::cast(f->residual_size());
        if (m == "compute_residual") return py::cast(VX(f->compute_residual()));
        if (m == "name") return py::cast(f->name());
        if (m == "type") return py::cast((int)f->type());
        if (m == "variables") { std::vector<int> r; for (auto v : f->variables()) r.push_back(index(v)); return py::cast(r); }
        if (auto p = dynamic_cast<fr::BearingObservationFactor*>(f)) if (m == "bearing_C_obs") return py::cast(V3(p->bearing_C_obs()));
        if (auto p = dynamic_cast<fr::InverseRangeBearingFactor*>(f)) if (m == "bearing_C_obs") return py::cast(V3(p->bearing_C_obs()));
        if (auto p = dynamic_cast<fr::BearingProjectionFactor2D*>(f)) if (m == "bearing_C_obs") return py::cast(V3(p->bearing_C_obs()));
        if (auto p = dynamic_cast<fr::BearingObservationFactor2D*>(f)) if (m == "bearing_angle_obs") return py::cast(double(p->bearing_angle_obs()));
        if (auto p = dynamic_cast<fr::RangeBearingFactor2D*>(f)) {
            if (m == "bearing_angle_obs") return py::cast(double(p->bearing_angle_obs()));
            if (m == "range_obs") return py::cast(double(p->range_obs()));
        }
        if (auto p = dynamic_cast<fr::CoordinateTransformFactor*>(f)) if (m == "weight") return py::cast(double(p->weight()));
        throw py::attribute_error(m);
    }
    int make_graph() { graphs.push_back(std::make_shared<fr::FactorGraph>()); return (int)graphs.size() - 1; }
    py::object gcall(int i, const std::string& m, const Args& a)
    {
        fr::FactorGraph& g = *graphs.at(i);
        if (m == "add_variable") { g.add_variable(vars.at(a.at(0).cast<int>())); return py::none(); }
        if (m == "add_factor") { g.add_factor(facs.at(a.at(0).cast<int>())); return py::none(); }
        if (m == "finalize_structure") { g.finalize_structure(); return py::none(); }
        if (m == "compute_full_residual_vector") return py::cast(VX(g.compute_full_residual_vector()));
        if (m == "compute_full_jacobian_matrix") return py::cast(Eigen::MatrixXd(g.compute_full_jacobian_matrix()));
        if (m == "compute_sparse_jacobian_matrix") return py::cast(Eigen::MatrixXd(g.compute_sparse_jacobian_matrix()));
        if (m == "compute_full_jacobian_and_residual") { g.compute_full_jacobian_and_residual(); return py::none(); }
        if (m == "get_variable") { auto v = g.get_variable(a.at(0).cast<int>()); if (!v) return py::none(); return py::cast(index(v)); }
        if (m == "get_all_variables") { std::vector<int> r; for (auto& v : g.get_all_variables()) r.push_back(index(v.get())); return py::cast(r); }
        if (m == "get_all_factors") { std::vector<int> r; for (auto& v : g.get_all_factors()) { int k = -1; for (size_t j = 0; j < facs.size(); ++j) if (facs[j] == v) k = j; r.push_back(k); } return py::cast(r); }
        if (m == "get_variable_vector") return py::cast(VX(g.get_variable_vector()));
        if (m == "set_variable_values_from_vector") { g.set_variable_values_from_vector(a.at(0).cast<VX>()); return py::none(); }
        if (m == "apply_increment") { g.apply_increment(a.at(0).cast<VX>()); return py::none(); }
        if (m == "jacobian") return py::cast(Eigen::MatrixXd(g.jacobian()));
        if (m == "sparse_jacobian") return py::cast(Eigen::MatrixXd(g.sparse_jacobian()));
        if (m == "residual") return py::cast(VX(g.residual()));
        if (m == "jacobian_valid") return py::cast(g.jacobian_valid());
        if (m == "residual_valid") return py::cast(g.residual_valid());
        if (m == "print_structure") { g.print_structure(); return py::none(); }
        if (m == "print_variables") { g.print_variables(); return py::none(); }
        if (m == "print_jacobian_and_residual") { if (a.empty()) g.print_jacobian_and_residual(); else g.print_jacobian_and_residual(a[0].cast<bool>()); return py::none(); }
        if (m == "num_variables") return py::cast(g.num_variables());
        if (m == "num_values") return py::cast(g.num_values());
        if (m == "num_residuals") return py::cast(g.num_residuals());
        if (m == "set_verbose") { g.set_verbose(a.at(0).cast<bool>()); return py::none(); }
        if (m == "detailed_factor_test") { if (a.size() == 1) return py::cast(g.detailed_factor_test(num(a[0]))); return py::cast(g.detailed_factor_test(num(a.at(0)), a[1].cast<bool>())); }
        throw py::attribute_error(m);
    }
    int make_settings() { sets.push_back(std::make_shared<fr::OptimizerSettings>()); return (int)sets.size() - 1; }
    py::object field(fr::OptimizerSettings& s, const std::string& m, const Args& a)
    {
#define F(n, T, C) if (m == #n) { if (a.empty()) return py::cast((C)s.n); s.n = (T)a[0].cast<C>(); return py::none(); }
        F(method, fr::OptimizerMethod, int) F(max_num_iterations, size_t, size_t) F(step_tolerance, double, double) F(residual_tolerance, double, double)
        F(initial_lambda, double, double) F(max_lambda, double, double) F(lambda_up_factor, double, double) F(lambda_down_factor, double, double)
        F(learning_rate, double, double) F(verbose, bool, bool) F(check_rank_deficiency, bool, bool)
        throw py::attribute_error(m);
    }
    py::object stat(fr::OptimizerStats& s, const std::string& m, const Args& a)
    {
        F(valid, bool, bool) F(status, fr::OptimizerStatus, int) F(chi2, double, double) F(delta_norm, double, double) F(residual_norm, double, double)
        F(current_iteration, int, int) F(rank, int, int) F(damping_parameter, double, double)
        throw py::attribute_error(m);
    }
    py::object scall(int i, const std::string& m, const Args& a) { return field(*sets.at(i), m, a); }
    int make_opt() { opts.push_back(std::make_shared<fr::SparseOptimizer>()); return (int)opts.size() - 1; }
    py::object ocall(int i, const std::string& m, const Args& a)
    {
        fr::SparseOptimizer& o = *opts.at(i);
        if (m == "setup") { o.setup(graphs.at(a.at(0).cast<int>()), *sets.at(a.at(1).cast<int>())); return py::none(); }
        if (m == "optimize") { o.optimize(); return py::none(); }
        if (m == "prepare_to_estimate_covariances") { o.prepare_to_estimate_covariances(); return py::none(); }
        if (m == "estimate_covariance") { bool ok = false; Eigen::MatrixXd c = o.estimate_covariance(vars.at(a.at(0).cast<int>()).get(), ok); return py::make_tuple(c, ok); }
        if (m == "print_all_covariances") { o.print_all_covariances(); return py::none(); }
        if (m.rfind("settings.", 0) == 0) { fr::OptimizerSettings s = o.settings(); if (!a.empty()) { field(const_cast<fr::OptimizerSettings&>(o.settings()), m.substr(9), a); return py::none(); } return field(s, m.substr(9), a); }
        if (m.rfind("initial_stats.", 0) == 0) return stat(o.initial_stats_, m.substr(14), a);
        if (m.rfind("current_stats.", 0) == 0) return stat(o.current_stats_, m.substr(14), a);
        throw py::attribute_error(m);
    }
};

PYBIND11_MODULE(vpref, m)
{
    py::class_<World>(m, "World", py::module_local()).def(py::init<>())
        .def("make_var", &World::make_var).def("vcall", &World::vcall).def("make_fac", &World::make_fac).def("fcall", &World::fcall)
        .def("make_graph", &World::make_graph).def("gcall", &World::gcall).def("make_settings", &World::make_settings).def("scall", &World::scall)
        .def("make_opt", &World::make_opt).def("ocall", &World::ocall);
    m.def("exp", [](const V3& w) { return M3(fr::ExpMapSO3(w)); });
    m.def("log", [](const M3& R) { return V3(fr::LogMapSO3(R)); });
    std::map<std::string, std::map<std::string, int>> e;
    for (int i = 0; i < fr::VariableType::num_variable_types; ++i) e["VariableType"][fr::VariableType::variable_names[i]] = i;
    for (int i = 0; i < fr::FactorType::num_factor_types; ++i) e["FactorType"][fr::FactorType::factor_names[i]] = i;
    e["OptimizerMethod"] = {{"GaussNewton", (int)fr::OptimizerMethod::GaussNewton}, {"LevenbergMarquardt", (int)fr::OptimizerMethod::LevenbergMarquardt}};
#define S(n) {#n, (int)fr::OptimizerStatus::n}
    e["OptimizerStatus"] = {S(SUCCESS), S(RUNNING), S(SINGULAR_HESSIAN), S(ILL_CONDITIONED), S(DIVERGED), S(FAILED)};
    m.attr("enums") = e;
    std::map<std::string, int> vt = {{"none", fr::VariableType::none}, {"pose", fr::VariableType::pose}, {"landmark", fr::VariableType::landmark}, {"inverse_range_landmark", fr::VariableType::inverse_range_landmark}, {"extrinsic_rotation", fr::VariableType::extrinsic_rotation}, {"generic", fr::VariableType::generic}, {"plane", fr::VariableType::plane}, {"pose_2d", fr::VariableType::pose_2d}, {"custom", fr::VariableType::custom}, {"other", fr::VariableType::other}};
    m.attr("variable_types") = vt;
#define T(n) {#n, fr::FactorType::n}
    std::map<std::string, int> ft = {T(none), T(bearing_observation), T(inverse_range_bearing), T(generic_prior), T(generic_between), T(pose_position_prior), T(pose_orientation_prior), T(pose_position_between), T(pose_orientation_between), T(plane_factor), T(plane_prior), T(bearing_observation_2d), T(range_bearing_2d), T(pose_2d_prior), T(pose_2d_between), T(custom), T(other)};
    m.attr("factor_types") = ft;
}
