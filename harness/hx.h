// Glue between the Python harnesses and the C++ API (compiled with the code under test).
#ifndef HX_H
#define HX_H
#include <string>
#include <exception>
#include <new>
#include <Eigen/Dense>
static std::string hx_msg;
extern "C" __attribute__((weak)) const char* hx_error(){return hx_msg.c_str();}
#define HX_BEGIN try {
#define HX_END } catch(const std::exception&e){ hx_msg=e.what(); return -999999; } catch(...){ hx_msg="unknown exception"; return -999999; }
#define HX(name,...) extern "C" long name(__VA_ARGS__)
template<int R,int C> inline Eigen::Matrix<double,R,C> mat(const double*p){ // row major input
  Eigen::Matrix<double,R,C> m; for(int i=0;i<R;i++)for(int j=0;j<C;j++)m(i,j)=p[i*C+j]; return m;}
inline Eigen::MatrixXd matX(const double*p,long r,long c){ Eigen::MatrixXd m(r,c); for(long i=0;i<r;i++)for(long j=0;j<c;j++)m(i,j)=p[i*c+j]; return m;}
template<class M> inline double* put(double*o,const M&m){ for(long i=0;i<m.rows();i++)for(long j=0;j<m.cols();j++)*o++=m(i,j); return o;}
#endif
