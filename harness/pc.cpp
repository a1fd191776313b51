// Point-cloud registration entry points.
#include "hx.h"
#include <deque>
#include <map>
#include <memory>
#include <vector>
#include <random>
#include <unordered_map>
#include <iostream>
#define protected public
#include "mrob/plane.hpp"
#include "mrob/plane_registration.hpp"
#include "mrob/create_points.hpp"
#undef protected
#include "mrob/pc_registration.hpp"
#include "mrob/estimate_plane.hpp"
using namespace mrob;
typedef const double* cd;
extern "C" { int (*symx_dec_hook)(int,long,const double*,double*)=nullptr; }
HX(dec_hook,cd f){ symx_dec_hook=(int(*)(int,long,const double*,double*))(void*)f; return 0; }
static std::vector<double> pool_[2]; static size_t pos_[2];
HX(draws,long kind,long n,cd v){ pool_[kind].assign(v,v+n); pos_[kind]=0; return 0; }
HX(drawn,long kind){ return (long)pos_[kind]; }
extern "C" double symx_draw(int k){ if(pool_[k].empty()) throw std::logic_error("symx: no draws"); double d=pool_[k][pos_[k]%pool_[k].size()]; pos_[k]++; return d; }
HX(arun,long n,cd X,cd Y,cd T0,double*o){HX_BEGIN SE3 T(Mat4(mat<4,4>(T0))); long r=PCRegistration::arun(matX(X,n,3),matX(Y,n,3),T); put(o,Mat4(T.T())); return r; HX_END}
HX(weighted,long n,cd X,cd Y,cd w,cd T0,cd tol,double*o){HX_BEGIN SE3 T(Mat4(mat<4,4>(T0))); long r=PCRegistration::weighted_point(matX(X,n,3),matX(Y,n,3),MatX1(matX(w,n,1)),T,tol[0]); put(o,Mat4(T.T())); return r; HX_END}
HX(weighted_def,long n,cd X,cd Y,cd w,cd T0,double*o){HX_BEGIN SE3 T(Mat4(mat<4,4>(T0))); long r=PCRegistration::weighted_point(matX(X,n,3),matX(Y,n,3),MatX1(matX(w,n,1)),T); put(o,Mat4(T.T())); return r; HX_END}
HX(gicp,long n,cd X,cd Y,cd cX,cd cY,cd T0,cd tol,double*o){HX_BEGIN SE3 T(Mat4(mat<4,4>(T0))); long r=PCRegistration::gicp(matX(X,n,3),matX(Y,n,3),matX(cX,3*n,3),matX(cY,3*n,3),T,tol[0]); put(o,Mat4(T.T())); return r; HX_END}
HX(gicp_def,long n,cd X,cd Y,cd cX,cd cY,cd T0,double*o){HX_BEGIN SE3 T(Mat4(mat<4,4>(T0))); long r=PCRegistration::gicp(matX(X,n,3),matX(Y,n,3),matX(cX,3*n,3),matX(cY,3*n,3),T); put(o,Mat4(T.T())); return r; HX_END}
HX(est_plane,long n,cd X,double*o){HX_BEGIN MatX x=matX(X,n,3); put(o,Mat41(estimate_plane(x))); return 0; HX_END}
HX(est_normal,long n,cd X,double*o){HX_BEGIN MatX x=matX(X,n,3); put(o,Mat31(estimate_normal(x))); return 0; HX_END}
HX(est_centroid,long n,cd X,double*o){HX_BEGIN MatX x=matX(X,n,3); put(o,Mat31(estimate_centroid(x))); return 0; HX_END}
HX(pose_exp,cd x,double*o){HX_BEGIN SE3 T(Mat61(mat<6,1>(x))); put(o,Mat4(T.T())); return 0; HX_END}
HX(pose_ln,cd A,double*o){HX_BEGIN SE3 T(Mat4(mat<4,4>(A))); put(o,T.ln_vee()); return 0; HX_END}
HX(pose_update,cd A,cd x,double*o){HX_BEGIN SE3 T(Mat4(mat<4,4>(A))); T.update_lhs(mat<6,1>(x)); put(o,Mat4(T.T())); return 0; HX_END}
// planes
static std::vector<std::shared_ptr<Plane>> P; static std::shared_ptr<std::vector<SE3>> tr; static std::unique_ptr<PlaneRegistration> pr; static std::unique_ptr<CreatePoints> cp;
static long quiet=[]{ std::cout.setstate(std::ios::failbit); return 0L; }();
HX(pl_reset,long nposes){HX_BEGIN cp.reset(); pr.reset(); P.clear(); tr.reset(new std::vector<SE3>(nposes)); return 0; HX_END}
HX(pl_pose,long t,cd T){HX_BEGIN tr->at(t)=SE3(Mat4(mat<4,4>(T))); return 0; HX_END}
HX(pl_new,long n){HX_BEGIN P.push_back(std::make_shared<Plane>(n)); P.back()->set_trajectory(tr); return (long)P.size()-1; HX_END}
HX(pl_push,long p,long t,cd x){HX_BEGIN Mat31 v=mat<3,1>(x); P[p]->push_back_point(v,t); return 0; HX_END}
HX(pl_edit,long p,long t,long i,cd x){HX_BEGIN P[p]->get_points(t).at(i)=mat<3,1>(x); return 0; HX_END}
HX(pl_clear,long p){HX_BEGIN P[p]->clear_points(); return 0; HX_END}
HX(pl_wipe,long p){HX_BEGIN P[p]->reset(); return 0; HX_END}
HX(pl_n,long p,long t){HX_BEGIN return t<0?(long)P[p]->get_total_number_points():(long)P[p]->get_number_points(t); HX_END}
HX(pl_points,long p,long t,double*o){HX_BEGIN auto&v=P[p]->get_points(t); for(auto&x:v) o=put(o,x); return (long)v.size(); HX_END}
HX(pl_estimate,long p,double*o){HX_BEGIN o[0]=P[p]->estimate_plane(); o[1]=P[p]->get_error(); put(o+2,P[p]->get_plane()); return 0; HX_END}
HX(pl_S,long p,long reset){HX_BEGIN P[p]->calculate_all_matrices_S(reset); return 0; HX_END}
HX(pl_mean,long p,long t,double*o){HX_BEGIN put(o,P[p]->get_mean_point(t)); return 0; HX_END}
HX(pl_inc,long p,long t,double*o){HX_BEGIN o[0]=P[p]->estimate_plane_incrementally(t); put(o+1,P[p]->get_plane()); o[5]=P[p]->get_error(); return 0; HX_END}
HX(pl_errinc,long p,long t,double*o){HX_BEGIN o[0]=P[p]->get_error_incremental(t); put(o+1,P[p]->get_plane()); o[5]=P[p]->get_error(); return 0; HX_END}
HX(pl_grad,long p,long t,double*o){HX_BEGIN put(o,P[p]->calculate_gradient(t)); return 0; HX_END}
HX(pl_hess,long p,long t,double*o){HX_BEGIN Mat61 g=P[p]->calculate_gradient(t); Mat6 h=P[p]->calculate_hessian(t); put(put(o,g),h); return 0; HX_END}
HX(pl_get,long p,double*o){HX_BEGIN put(o,P[p]->get_plane()); return 0; HX_END}
// registration
HX(pr_new,long planes,long poses){HX_BEGIN cp.reset(); P.clear(); pr.reset(new PlaneRegistration()); if(poses>=0) pr->set_number_planes_and_poses(planes,poses); return 0; HX_END}
// as pr_new, keeping the planes already built
HX(pr_keep,long planes,long poses){HX_BEGIN cp.reset(); pr.reset(new PlaneRegistration()); pr->set_number_planes_and_poses(planes,poses); return 0; HX_END}
HX(pr_config,long planes,long poses){HX_BEGIN pr->set_number_planes_and_poses(planes,poses); return 0; HX_END}
HX(pr_counts,double*o){HX_BEGIN o[0]=(double)pr->get_number_planes(); o[1]=(double)pr->get_number_poses(); o[2]=(double)pr->calculate_total_number_points(); o[3]=(double)pr->get_all_planes().size(); return 0; HX_END}
HX(pr_add,long id){HX_BEGIN pr->add_new_plane(id); P.push_back(pr->get_all_planes().at(id)); return (long)P.size()-1; HX_END}
HX(pr_push,long id,long t,cd x){HX_BEGIN Mat31 v=mat<3,1>(x); pr->plane_push_back_point(id,t,v); return 0; HX_END}
HX(pr_adopt,long id,long p){HX_BEGIN pr->add_plane(id,P[p]); return 0; HX_END}
HX(pr_pose,long t,double*o){HX_BEGIN put(o,Mat4(pr->get_trajectory(t).T())); return 0; HX_END}
HX(pr_last,double*o){HX_BEGIN put(o,Mat4(pr->get_last_pose().T())); return 0; HX_END}
HX(pr_setlast,cd T){HX_BEGIN SE3 x(Mat4(mat<4,4>(T))); pr->set_last_pose(x); return 0; HX_END}
HX(pr_reset){HX_BEGIN pr->reset_solution(); return 0; HX_END}
HX(pr_error,double*o){HX_BEGIN o[0]=pr->get_current_error(); return 0; HX_END}
HX(pr_cloud,long t,double*o){HX_BEGIN auto v=pr->get_point_cloud(t); for(auto&x:v) o=put(o,x); return (long)v.size(); HX_END}
HX(pr_rmse,long n,cd T,double*o){HX_BEGIN std::vector<SE3> g; for(long i=0;i<n;i++) g.push_back(SE3(Mat4(mat<4,4>(T+16*i)))); o[0]=pr->calculate_poses_rmse(g); return 0; HX_END}
HX(pr_solve,long mode,long single,double*o){HX_BEGIN long r=pr->solve((PlaneRegistration::SolveMode)mode,single); put(o,Mat4(pr->get_last_pose().T())); return r; HX_END}
HX(pr_gradhess,double*o){HX_BEGIN Optimizer*b=pr.get(); (void)b; pr->calculate_gradient_hessian(); o=put(o,MatX1(pr->gradient_)); put(o,MatX(pr->hessian_)); return 0; HX_END}
HX(pr_update,cd dx){HX_BEGIN pr->dx_=MatX1(mat<6,1>(dx)); pr->update_state(); return 0; HX_END}
HX(pr_book){HX_BEGIN pr->bookkeep_state(); return 0; HX_END}
HX(pr_unbook){HX_BEGIN pr->update_state_from_bookkeep(); return 0; HX_END}
HX(pr_alpha,cd a,cd b){HX_BEGIN pr->set_alpha_parameter(a[0]); pr->set_beta_parameter(b[0]); return 0; HX_END}
HX(pr_evaluate,double*o){HX_BEGIN auto v=pr->print_evaluate(); for(double x:v)*o++=x; return (long)v.size(); HX_END}
// synthetic data
HX(cp_new,long n,long planes,long poses,cd noise,cd bias){HX_BEGIN pr.reset(); P.clear(); cp.reset(new CreatePoints(n,planes,poses,noise[0],bias[0])); return 0; HX_END}
HX(cp_cloud,long t,double*o){HX_BEGIN auto&v=cp->get_point_cloud(t); for(auto&x:v) o=put(o,x); return (long)v.size(); HX_END}
HX(cp_ids,long t,double*o){HX_BEGIN auto&v=cp->get_point_plane_ids(t); for(auto x:v) *o++=(double)x; return (long)v.size(); HX_END}
HX(cp_pose,long t,double*o){HX_BEGIN if(t<0) put(o,Mat4(cp->get_ground_truth_last_pose().T())); else put(o,Mat4(cp->get_ground_truth_pose(t).T())); return (long)cp->get_ground_truth_trajectory().size(); HX_END}
HX(cp_plane,long i,double*o){HX_BEGIN put(o,Mat4(cp->get_plane_poses().at(i).T())); return (long)cp->get_plane_poses().size(); HX_END}
HX(cp_counts,double*o){HX_BEGIN o[0]=(double)cp->get_number_planes(); o[1]=(double)cp->get_number_poses(); o[2]=(double)cp->get_all_planes().size(); return 0; HX_END}
HX(cp_planepts,long i,long t,double*o){HX_BEGIN auto&e=cp->get_all_planes().at(i); auto&v=e.second->get_points(t); for(auto&x:v) o=put(o,x); return (long)e.first*1000+(long)v.size(); HX_END}
HX(cp_fill){HX_BEGIN pr.reset(new PlaneRegistration()); cp->create_plane_registration(*pr); return 0; HX_END}
HX(su_sample,long kind,cd r,long nr,double*o){HX_BEGIN auto s=nr==2?SampleUniformSE3(r[0],r[1]):SampleUniformSE3(r[0],r[1],r[2],r[3]);
  if(kind==0) put(o,Mat4(s.samplePose().T())); else if(kind==1) put(o,s.samplePosition()); else put(o,s.sampleOrientation().R()); return 0; HX_END}
HX(sp_sample,cd p,long bias,double*o){HX_BEGIN SamplePlanarSurface s(p[0],p[1]); if(bias) s.sampleBias(); put(o,s.samplePoint()); return 0; HX_END}
HX(so_exp,cd w,double*o){HX_BEGIN Mat31 v=mat<3,1>(w); put(o,SO3(v).R()); return 0; HX_END}
HX(pr_enums,double*o){HX_BEGIN typedef PlaneRegistration R; R::SolveMode k[7]={R::INITIALIZE,R::GRADIENT_BENGIOS_NAG,R::GRADIENT_ALL_POSES,R::GN_HESSIAN,R::GN_CLAMPED_HESSIAN,R::LM_SPHER,R::LM_ELLIP}; for(auto x:k)*o++=(double)(int)x; return 7; HX_END}
