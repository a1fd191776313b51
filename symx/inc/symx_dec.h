// Stand-ins used only where a check lists them in its assumptions:
//  * symbolic build: the iterative decompositions of Eigen are answered by the harness
//    (contract: a decomposition of exactly the matrix that the code passes); the plain
//    build, on which every counterexample is replayed, keeps Eigen's own.
//  * both builds: the standard distributions take their draws from a pool the harness fills.
#ifndef SYMX_DEC_H
#define SYMX_DEC_H
#ifdef __cplusplus
#include "symx_pre.h"
#ifdef SYMX_SYMBOLIC
#define SelfAdjointEigenSolver SelfAdjointEigenSolver_real
#define JacobiSVD JacobiSVD_real
#define BDCSVD BDCSVD_real
#include <Eigen/Dense>
#undef SelfAdjointEigenSolver
#undef JacobiSVD
#undef BDCSVD
extern "C" int (*symx_dec_hook)(int kind, long n, const double* m, double* out);
namespace Eigen {
template<class M> class SelfAdjointEigenSolver {
  typedef Matrix<double,M::RowsAtCompileTime,M::RowsAtCompileTime> Mt; typedef Matrix<double,M::RowsAtCompileTime,1> Vt; Mt V_; Vt w_;
  template<class D> void run(const D& a){ long n=a.rows(); Matrix<double,Dynamic,Dynamic,RowMajor> m=a; Matrix<double,Dynamic,1> o(n+n*n);
    m.template triangularView<StrictlyUpper>()=m.transpose();   // only the lower triangle is read
    if(!symx_dec_hook||symx_dec_hook(0,n,m.data(),o.data())) throw std::logic_error("symx: eigendecomposition of an unexpected matrix");
    w_=o.head(n); V_.resize(n,n); for(long i=0;i<n;i++)for(long j=0;j<n;j++) V_(i,j)=o(n+i*n+j); }
 public:
  typedef M MatrixType; typedef Vt RealVectorType; typedef Mt EigenvectorsType;
  SelfAdjointEigenSolver(){} explicit SelfAdjointEigenSolver(Index n):V_(n,n),w_(n){}
  template<class D> explicit SelfAdjointEigenSolver(const EigenBase<D>& a,int=ComputeEigenvectors){ run(M(a.derived())); }
  template<class D> SelfAdjointEigenSolver& compute(const EigenBase<D>& a,int=ComputeEigenvectors){ run(M(a.derived())); return *this; }
  SelfAdjointEigenSolver& computeDirect(const M& a,int=ComputeEigenvectors){ run(a); return *this; }
  const Mt& eigenvectors() const {return V_;} const Vt& eigenvalues() const {return w_;} ComputationInfo info() const {return Success;}
};
template<class M,int QR=ColPivHouseholderQRPreconditioner> class JacobiSVD {
  typedef Matrix<double,M::RowsAtCompileTime,M::RowsAtCompileTime> Mt; typedef Matrix<double,M::RowsAtCompileTime,1> Vt; Mt U_,V_; Vt w_; double thr=1e-12;
  template<class D> void run(const D& a){ long n=a.rows(); if(a.cols()!=n) throw std::logic_error("symx: SVD of a rectangular matrix"); Matrix<double,Dynamic,Dynamic,RowMajor> m=a; Matrix<double,Dynamic,1> o(n+2*n*n);
    if(!symx_dec_hook||symx_dec_hook(1,n,m.data(),o.data())) throw std::logic_error("symx: singular value decomposition of an unexpected matrix");
    w_=o.head(n); U_.resize(n,n); V_.resize(n,n); for(long i=0;i<n;i++)for(long j=0;j<n;j++){ U_(i,j)=o(n+i*n+j); V_(i,j)=o(n+n*n+i*n+j);} }
 public:
  typedef M MatrixType; JacobiSVD(){} 
  template<class D> explicit JacobiSVD(const EigenBase<D>& a,unsigned=0){ run(M(a.derived())); }
  template<class D> JacobiSVD& compute(const EigenBase<D>& a,unsigned=0){ run(M(a.derived())); return *this; }
  const Mt& matrixU() const {return U_;} const Mt& matrixV() const {return V_;} const Vt& singularValues() const {return w_;}
  JacobiSVD& setThreshold(double t){thr=t;return *this;} ComputationInfo info() const {return Success;}
  Index rank() const { double t=w_(0)*thr; Index r=0; for(long i=0;i<w_.size();i++) if(w_(i)>t) r++; return r; }
  Index nonzeroSingularValues() const { Index r=0; for(long i=0;i<w_.size();i++) if(w_(i)>0) r++; return r; }
};
template<class M> class BDCSVD : public JacobiSVD<M> { public: using JacobiSVD<M>::JacobiSVD; };
}
#endif
#ifdef SYMX_DRAWS
#define uniform_real_distribution uniform_real_distribution_std
#define normal_distribution normal_distribution_std
#include <random>
#undef uniform_real_distribution
#undef normal_distribution
extern "C" double symx_draw(int kind);   // 0: uniform in [0,1), 1: standard normal
namespace std {
template<class T=double> class uniform_real_distribution { T a_,b_; public: typedef T result_type;
  struct param_type { T a_,b_; explicit param_type(T a=0,T b=1):a_(a),b_(b){} T a()const{return a_;} T b()const{return b_;} };
  explicit uniform_real_distribution(T a=0,T b=1):a_(a),b_(b){} explicit uniform_real_distribution(const param_type&p):a_(p.a_),b_(p.b_){}
  template<class G> T operator()(G&){ return symx_draw(0)*(b_-a_)+a_; } template<class G> T operator()(G&,const param_type&p){ return symx_draw(0)*(p.b_-p.a_)+p.a_; }
  T a()const{return a_;} T b()const{return b_;} T min()const{return a_;} T max()const{return b_;} void reset(){} param_type param()const{return param_type(a_,b_);} void param(const param_type&p){a_=p.a_;b_=p.b_;} };
template<class T=double> class normal_distribution { T m_,s_; public: typedef T result_type;
  struct param_type { T m_,s_; explicit param_type(T m=0,T s=1):m_(m),s_(s){} T mean()const{return m_;} T stddev()const{return s_;} };
  explicit normal_distribution(T m=0,T s=1):m_(m),s_(s){} explicit normal_distribution(const param_type&p):m_(p.m_),s_(p.s_){}
  template<class G> T operator()(G&){ return symx_draw(1)*s_+m_; } template<class G> T operator()(G&,const param_type&p){ return symx_draw(1)*p.s_+p.m_; }
  T mean()const{return m_;} T stddev()const{return s_;} void reset(){} param_type param()const{return param_type(m_,s_);} void param(const param_type&p){m_=p.m_;s_=p.s_;} };
}
#endif
#endif
#endif
