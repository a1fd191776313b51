// Workspace of nodes, factors and graphs driven by handles.
#include "hx.h"
#include <deque>
#include <cstring>
#include <memory>
#include <iostream>
#define protected public
#include "mrob/node.hpp"
#include "mrob/factor.hpp"
#include "mrob/factor_graph_solve.hpp"
#include "mrob/factor_graph_solve_dense.hpp"
#include "mrob/factors/nodePose2d.hpp"
#include "mrob/factors/nodePose3d.hpp"
#include "mrob/factors/nodeLandmark2d.hpp"
#include "mrob/factors/nodeLandmark3d.hpp"
#include "mrob/factors/nodePlane4d.hpp"
#include "mrob/factors/factor1Pose2d.hpp"
#include "mrob/factors/factor2Poses2d.hpp"
#include "mrob/factors/factor1Pose3d.hpp"
#include "mrob/factors/factor2Poses3d.hpp"
#include "mrob/factors/factor1Pose1Landmark2d.hpp"
#include "mrob/factors/factor1Pose1Landmark3d.hpp"
#include "mrob/factors/factor1Pose1Plane4d.hpp"
#include "mrob/factors/factor1PosePoint2Plane.hpp"
#undef protected
using namespace mrob;
typedef const double* cd;

// A factor whose residual is linear in its nodes' states (r = J x - z), or a given
// sequence of errors; used to drive the graph code with arbitrary factor behaviour.
struct StubFactor : public Factor {
  MatX J_, W_; MatX1 r_, z_; std::vector<double> seq; long k=0; bool linear; bool fun=false; long cur=0; std::vector<MatX1> seen;
  StubFactor(std::vector<std::shared_ptr<Node>> ns, const MatX&J, const MatX&W, const MatX1&z, bool lin, robustFactorType rt):
    Factor(J.rows(), J.cols(), rt), J_(J), W_(W), r_(z), z_(z), linear(lin) { for(auto&n:ns) neighbourNodes_.push_back(n); }
  MatX1 all() const { long m=0; for(auto&n:neighbourNodes_) m+=MatX(n->get_state()).size(); MatX1 x(m); long c=0;
    for(auto&n:neighbourNodes_){ MatX s=n->get_state(); for(long i=0;i<s.rows();i++) for(long j=0;j<s.cols();j++) x(c++)=s(i,j); } return x; }
  // an arbitrary function of the states: the same states always give the same error
  void visit(){ MatX1 x=all(); for(size_t i=0;i<seen.size();i++) if(!memcmp(seen[i].data(),x.data(),x.size()*sizeof(double))){ cur=i; return; } cur=seen.size(); seen.push_back(x); }
  void evaluate_residuals() override { if(fun) visit(); if(linear){ MatX1 x(J_.cols()); long c=0; for(auto&n:neighbourNodes_){ MatX s=n->get_state(); x.segment(c,s.rows())=s.col(0); c+=s.rows(); } r_=J_*x-z_; } }
  void evaluate_jacobians() override {}
  void evaluate_chi2() override { if(fun) chi2_=seq[std::min<long>(cur,(long)seq.size()-1)]; else if(!seq.empty()){ chi2_=seq[std::min<long>(k,(long)seq.size()-1)]; k++; } else chi2_=0.5*r_.dot(W_*r_); }
  const Eigen::Ref<const MatX> get_obs() const override {return z_;}
  const Eigen::Ref<const MatX1> get_residual() const override {return r_;}
  const Eigen::Ref<const MatX> get_information_matrix() const override {return W_;}
  const Eigen::Ref<const MatX> get_jacobian() const override {return J_;}
};
static std::vector<std::shared_ptr<Node>> N; static std::vector<std::shared_ptr<Factor>> Fs; static std::unique_ptr<FGraphSolve> g; static std::unique_ptr<FGraphSolveDense> dg; static FGraph* gb=nullptr;
// assemble the problem at the current states; falls back to a full step should the internal entry point go
template<class T> auto do_build(T*t,int)->decltype(t->build_problem(),void()){ t->build_problem(); }
template<class T> void do_build(T*t,long){ t->solve(FGraphSolve::GN); }
HX(g_reset){HX_BEGIN gb=nullptr; g.reset(); dg.reset(); Fs.clear(); N.clear(); g.reset(new FGraphSolve()); gb=g.get(); return 0; HX_END}
HX(d_reset){HX_BEGIN gb=nullptr; g.reset(); dg.reset(); Fs.clear(); N.clear(); dg.reset(new FGraphSolveDense()); gb=dg.get(); return 0; HX_END}
HX(g_node,long t,long anchor,cd x){HX_BEGIN
  auto m=anchor?Node::nodeMode::ANCHOR:Node::nodeMode::STANDARD; std::shared_ptr<Node> n;
  switch(t){ case 0:n.reset(new NodePose2d(mat<3,1>(x),m));break; case 1:n.reset(new NodePose3d(Mat4(mat<4,4>(x)),m));break;
    case 2:n.reset(new NodeLandmark2d(mat<2,1>(x),m));break; case 3:n.reset(new NodeLandmark3d(mat<3,1>(x),m));break;
    case 4:n.reset(new NodePlane4d(mat<4,1>(x),m));break; case 5:n.reset(new NodePose3d(SE3(Mat4(mat<4,4>(x))),m));break; }
  N.push_back(n); return (long)gb->add_node(n); HX_END}
static long addf(std::shared_ptr<Factor> f,long add){ Fs.push_back(f); if(add) gb->add_factor(f); return (long)Fs.size()-1; }
HX(g_factor,long t,long a,long b,long upd,long rt,long add,cd z,cd W){HX_BEGIN
  auto r=(Factor::robustFactorType)rt; Factor*f=nullptr; auto&na=N.at(a); auto&nb=b>=0?N.at(b):N.at(a);
  switch(t){
    case 0:f=new Factor1Pose2d(mat<3,1>(z),na,mat<3,3>(W),r);break;
    case 1:f=new Factor2Poses2d(mat<3,1>(z),na,nb,mat<3,3>(W),upd,r);break;
    case 2:f=new Factor2Poses2dOdom(mat<3,1>(z),na,nb,mat<3,3>(W),upd,r);break;
    case 3:f=new Factor1Pose3d(Mat4(mat<4,4>(z)),na,mat<6,6>(W),r);break;
    case 4:f=new Factor1Pose3d(SE3(Mat4(mat<4,4>(z))),na,mat<6,6>(W),r);break;
    case 5:f=new Factor2Poses3d(Mat4(mat<4,4>(z)),na,nb,mat<6,6>(W),upd,r);break;
    case 6:f=new Factor2Poses3d(SE3(Mat4(mat<4,4>(z))),na,nb,mat<6,6>(W),upd,r);break;
    case 7:f=new Factor1Pose1Landmark2d(mat<2,1>(z),na,nb,mat<2,2>(W),upd,r);break;
    case 8:f=new Factor1Pose1Landmark3d(mat<3,1>(z),na,nb,mat<3,3>(W),upd,r);break;
    case 9:f=new Factor1Pose1Plane4d(mat<4,1>(z),na,nb,mat<4,4>(W),r);break;
    case 10:{ Mat1 w; w<<W[0]; f=new Factor1PosePoint2Plane(mat<3,1>(z),mat<3,1>(z+3),mat<3,1>(z+6),na,w,r);break; }
  }
  return addf(std::shared_ptr<Factor>(f),add); HX_END}
// stub factor over the nodes ids[0..n)
HX(g_stub,long dim,long all,long n,long n0,long n1,long n2,long linear,long rt,cd J,cd W,cd z){HX_BEGIN
  std::vector<std::shared_ptr<Node>> ns; long id[3]={n0,n1,n2}; for(long i=0;i<n;i++) ns.push_back(N.at(id[i]));
  return addf(std::shared_ptr<Factor>(new StubFactor(ns,matX(J,dim,all),matX(W,dim,dim),matX(z,dim,1),linear,(Factor::robustFactorType)rt)),1); HX_END}
HX(g_stub_seq,long f,long n,cd s){HX_BEGIN auto*p=dynamic_cast<StubFactor*>(Fs.at(f).get()); p->seq.assign(s,s+n); p->k=0; return 0; HX_END}
HX(g_stub_fun,long f,long n,cd s){HX_BEGIN auto*p=dynamic_cast<StubFactor*>(Fs.at(f).get()); p->seq.assign(s,s+n); p->fun=true; return 0; HX_END}
HX(g_stub_seen,long f){HX_BEGIN return dynamic_cast<StubFactor*>(Fs.at(f).get())->seen.size(); HX_END}
HX(g_stub_visit,long f,long i,double*o){HX_BEGIN put(o,dynamic_cast<StubFactor*>(Fs.at(f).get())->seen.at(i)); return 0; HX_END}
HX(g_stub_count,long f){HX_BEGIN return dynamic_cast<StubFactor*>(Fs.at(f).get())->k; HX_END}
HX(f_add,long f){HX_BEGIN return (long)gb->add_factor(Fs.at(f)); HX_END}
HX(f_add_eigen,long f){HX_BEGIN return (long)gb->add_eigen_factor(Fs.at(f)); HX_END}
HX(f_eval,long i){HX_BEGIN auto&f=Fs.at(i); f->evaluate_residuals(); f->evaluate_jacobians(); f->evaluate_chi2(); return 0; HX_END}
HX(f_eval_r,long i){HX_BEGIN auto&f=Fs.at(i); f->evaluate_residuals(); f->evaluate_chi2(); return 0; HX_END}
HX(f_eval_chi,long i){HX_BEGIN Fs.at(i)->evaluate_chi2(); return 0; HX_END}
HX(f_res,long i,double*o){HX_BEGIN put(o,MatX1(Fs.at(i)->get_residual())); return Fs.at(i)->get_residual().rows(); HX_END}
HX(f_jac,long i,double*o){HX_BEGIN MatX J=Fs.at(i)->get_jacobian(); put(o,J); return J.rows()*1000+J.cols(); HX_END}
HX(f_info,long i,double*o){HX_BEGIN MatX J=Fs.at(i)->get_information_matrix(); put(o,J); return J.rows()*1000+J.cols(); HX_END}
HX(f_obs,long i,double*o){HX_BEGIN MatX J=Fs.at(i)->get_obs(); put(o,J); return J.rows()*1000+J.cols(); HX_END}
HX(f_chi2,long i,double*o){HX_BEGIN o[0]=Fs.at(i)->get_chi2(); return 0; HX_END}
HX(f_robust,long i,cd u,double*o){HX_BEGIN o[0]=Fs.at(i)->evaluate_robust_weight(u[0]); return 0; HX_END}
HX(f_nb,long i,long j){HX_BEGIN auto*l=Fs.at(i)->get_neighbour_nodes(); if(j<0) return (long)l->size(); for(size_t k=0;k<N.size();k++) if(N[k]==l->at(j)) return (long)k; return -1; HX_END}
HX(f_dims,long i){HX_BEGIN return Fs.at(i)->get_dim()*1000+Fs.at(i)->get_all_nodes_dim(); HX_END}
HX(f_id,long i){HX_BEGIN return Fs.at(i)->get_id(); HX_END}
HX(n_id,long i){HX_BEGIN return N.at(i)->get_id(); HX_END}
HX(n_dim,long i){HX_BEGIN return N.at(i)->get_dim(); HX_END}
HX(n_nfac,long i){HX_BEGIN return N.at(i)->get_neighbour_factors()->size(); HX_END}
HX(n_fac,long i,long j){HX_BEGIN auto&f=N.at(i)->get_neighbour_factors()->at(j); for(size_t k=0;k<Fs.size();k++) if(Fs[k]==f) return (long)k; return -1; HX_END}
HX(n_rm,long i,long j){HX_BEGIN return N.at(i)->rm_factor(Fs.at(j)); HX_END}
HX(n_state,long i,double*o){HX_BEGIN MatX s=N.at(i)->get_state(); put(o,s); return s.rows()*1000+s.cols(); HX_END}
HX(n_aux,long i,double*o){HX_BEGIN MatX s=N.at(i)->get_auxiliary_state(); put(o,s); return s.rows()*1000+s.cols(); HX_END}
HX(n_set,long i,long r,long c,cd x){HX_BEGIN N.at(i)->set_state(matX(x,r,c)); return 0; HX_END}
HX(n_set_aux,long i,long r,long c,cd x){HX_BEGIN N.at(i)->set_auxiliary_state(matX(x,r,c)); return 0; HX_END}
HX(n_store,long i){HX_BEGIN N.at(i)->set_auxiliary_state(N.at(i)->get_state()); return 0; HX_END}
HX(n_restore,long i){HX_BEGIN N.at(i)->set_state(N.at(i)->get_auxiliary_state()); return 0; HX_END}
HX(n_update,long i,long d,cd x){HX_BEGIN N.at(i)->update(MatX1(matX(x,d,1))); return 0; HX_END}
HX(n_update_aux,long i,long d,cd x){HX_BEGIN N.at(i)->update_from_auxiliary(MatX1(matX(x,d,1))); return 0; HX_END}
HX(g_wrap,cd a,double*o){HX_BEGIN o[0]=wrap_angle(a[0]); return 0; HX_END}
// graph
HX(g_solve,long method,long iters,cd lam,cd tol){HX_BEGIN g->solve((FGraphSolve::optimMethod)method,iters,lam[0],tol[0]); return 0; HX_END}
HX(g_solve_def,long method){HX_BEGIN g->solve((FGraphSolve::optimMethod)method); return 0; HX_END}
HX(g_chi2,long flag,double*o){HX_BEGIN o[0]=g->chi2(flag); return 0; HX_END}
HX(g_chi2_def,double*o){HX_BEGIN o[0]=g->chi2(); return 0; HX_END}
HX(g_chi2_array,double*o){HX_BEGIN MatX1 c=g->get_chi2_array(); put(o,c); return c.rows(); HX_END}
HX(g_dims){HX_BEGIN return gb->get_dimension_state()*1000+gb->get_dimension_obs(); HX_END}
HX(g_counts){HX_BEGIN return gb->number_nodes()*1000+gb->number_factors(); HX_END}
HX(g_getnode,long id){HX_BEGIN auto&n=gb->get_node(id); for(size_t k=0;k<N.size();k++) if(N[k]==n) return (long)k; return -1; HX_END}
HX(g_getfactor,long id){HX_BEGIN auto&n=gb->get_factor(id); for(size_t k=0;k<Fs.size();k++) if(Fs[k]==n) return (long)k; return -1; HX_END}
HX(g_A,double*o){HX_BEGIN MatX m=MatX(g->get_adjacency_matrix()); put(o,m); return m.rows()*1000+m.cols(); HX_END}
HX(g_W,double*o){HX_BEGIN MatX m=MatX(g->get_W_matrix()); put(o,m); return m.rows()*1000+m.cols(); HX_END}
HX(g_L,double*o){HX_BEGIN MatX m=MatX(g->get_information_matrix()); put(o,m); return m.rows()*1000+m.cols(); HX_END}
HX(g_b,double*o){HX_BEGIN MatX m=g->get_vector_b(); put(o,m); return m.rows(); HX_END}
HX(g_build){HX_BEGIN do_build(g.get(),0); return 0; HX_END}
HX(g_est,long i,double*o){HX_BEGIN auto v=g->get_estimated_state(); if(i<0) return (long)v.size(); put(o,v.at(i)); return v.at(i).rows()*1000+v.at(i).cols(); HX_END}
HX(g_dx,double*o){HX_BEGIN put(o,g->dx_); return g->dx_.rows(); HX_END}
HX(g_r,double*o){HX_BEGIN put(o,g->r_); return g->r_.rows(); HX_END}
// dense solver
HX(d_error,double*o){HX_BEGIN o[0]=dg->calculate_error(); return 0; HX_END}
HX(d_build){HX_BEGIN dg->calculate_gradient_hessian(); return 0; HX_END}
HX(d_grad,double*o){HX_BEGIN put(o,dg->gradient_); return dg->gradient_.rows(); HX_END}
HX(d_hess,double*o){HX_BEGIN put(o,dg->hessian_); return dg->hessian_.rows()*1000+dg->hessian_.cols(); HX_END}
HX(d_solve,long method,long iters,cd lam){HX_BEGIN return dg->solve((Optimizer::optimMethod)method,iters,lam[0]); HX_END}
HX(d_book){HX_BEGIN dg->bookkeep_state(); return 0; HX_END}
HX(d_unbook){HX_BEGIN dg->update_state_from_bookkeep(); return 0; HX_END}
// generic optimizer over an arbitrary user problem: error, gradient and Hessian are functions of the state
struct User : public OptimizerDense {
  long n; MatX1 x, saved; std::vector<MatX1> seen; std::vector<double> err; std::vector<MatX1> gr; std::vector<MatX> he; long neval=0, nsave=0, nrest=0; bool held=false;
  User(double tol,double lam):OptimizerDense(tol,lam),n(0){}
  long at(){ for(size_t i=0;i<seen.size();i++) if(!memcmp(seen[i].data(),x.data(),n*sizeof(double))) return i; seen.push_back(x); return seen.size()-1; }
  long cl(long i,long m){ return std::min<long>(i,m-1); }
  matData_t calculate_error() override { neval++; return err[cl(at(),err.size())]; }
  void calculate_gradient_hessian() override { long i=at(); gradient_=gr[cl(i,gr.size())]; hessian_=he[cl(i,he.size())]; }
  void update_state() override { x+=dx_; }
  void bookkeep_state() override { saved=x; nsave++; }
  void update_state_from_bookkeep() override { x=saved; nrest++; }
};
static std::unique_ptr<User> us;
HX(u_new,long n,cd tol,cd x){HX_BEGIN us.reset(new User(tol[0],1e-5)); us->n=n; us->x=matX(x,n,1); return 0; HX_END}
HX(u_at,cd e,cd gr,cd he){HX_BEGIN us->err.push_back(e[0]); us->gr.push_back(matX(gr,us->n,1)); us->he.push_back(matX(he,us->n,us->n)); return 0; HX_END}
HX(u_solve,long m,long iters,cd lam){HX_BEGIN return us->solve((Optimizer::optimMethod)m,iters,lam[0]); HX_END}
HX(u_solve_def,long m){HX_BEGIN return us->solve((Optimizer::optimMethod)m); HX_END}
HX(u_seen){HX_BEGIN return us->seen.size(); HX_END}
HX(u_visit,long i,double*o){HX_BEGIN put(o,us->seen.at(i)); return 0; HX_END}
HX(u_state,double*o){HX_BEGIN put(o,us->x); return 0; HX_END}
HX(g_enums,double*o){HX_BEGIN typedef Factor F; F::robustFactorType k[5]={F::QUADRATIC,F::CAUCHY,F::HUBER,F::MCCLURE,F::RANSAC}; for(auto x:k)*o++=(double)(int)x;
  *o++=(double)(int)Node::nodeMode::STANDARD; *o++=(double)(int)Node::nodeMode::ANCHOR; *o++=(double)(int)FGraphSolve::GN; *o++=(double)(int)FGraphSolve::LM; return 9; HX_END}
