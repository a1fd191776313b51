#include "hx.h"
#include "mrob/SO3.hpp"
#include "mrob/SE3.hpp"
#include "mrob/SE3cov.hpp"
using namespace mrob;
typedef const double* cd;
HX(so3_exp,cd w,double*o){HX_BEGIN SO3 R(Mat31(mat<3,1>(w))); put(o,R.R()); return 0; HX_END}
HX(so3_exp_member,cd w,double*o){HX_BEGIN SO3 R; R.exp(hat3(mat<3,1>(w))); put(o,R.R()); return 0; HX_END}
HX(so3_ln,cd R,double*o){HX_BEGIN SO3 r(Mat3(mat<3,3>(R))); double a=0; Mat3 W=r.ln(&a); o=put(o,W); *o++=a; o=put(o,r.ln_vee()); put(o,r.ln()); return 0; HX_END}
HX(so3_mul,cd A,cd B,double*o){HX_BEGIN SO3 a(Mat3(mat<3,3>(A))),b(Mat3(mat<3,3>(B))); o=put(o,(a*b).R()); o=put(o,a.mul(b).R()); o=put(o,a.R()); put(o,b.R()); return 0; HX_END}
HX(so3_inv,cd A,double*o){HX_BEGIN SO3 a(Mat3(mat<3,3>(A))); o=put(o,a.inv().R()); o=put(o,a.adj()); put(o,a.R()); return 0; HX_END}
HX(so3_copy,cd A,cd B,double*o){HX_BEGIN SO3 a(Mat3(mat<3,3>(A))),b(Mat3(mat<3,3>(B))); SO3 c(a); o=put(o,c.R()); SO3&x=(c=b); o=put(o,c.R()); o=put(o,x.R()); SO3&s=c; c=s; o=put(o,c.R()); o=put(o,b.R()); c.ref2R()=a.R(); o=put(o,c.R()); o=put(o,b.R()); o=put(o,SO3().R()); return 0; HX_END}
HX(so3_update,cd A,cd w,double*o){HX_BEGIN SO3 a(Mat3(mat<3,3>(A))),b(a); a.update_lhs(mat<3,1>(w)); b.update_rhs(mat<3,1>(w)); o=put(o,a.R()); o=put(o,b.R()); put(o,SO3(Mat31(mat<3,1>(w))).R()); return 0; HX_END}
HX(so3_distance,cd A,cd B,double*o){HX_BEGIN SO3 a(Mat3(mat<3,3>(A))),b(Mat3(mat<3,3>(B))); o[0]=a.distance(b); o[1]=b.distance(a); return 0; HX_END}
HX(hatvee3,cd w,cd M,double*o){HX_BEGIN Mat31 x=mat<3,1>(w); o=put(o,hat3(x)); o=put(o,vee3(hat3(x))); put(o,vee3(mat<3,3>(M))); return 0; HX_END}
HX(hatvee6,cd w,double*o){HX_BEGIN Mat61 x=mat<6,1>(w); o=put(o,hat6(x)); put(o,vee6(hat6(x))); return 0; HX_END}
HX(is_so3,cd A){HX_BEGIN return isSO3(mat<3,3>(A)); HX_END}
HX(is_se3,cd A){HX_BEGIN return isSE3(mat<4,4>(A)); HX_END}
HX(q2r,cd q,double*o){HX_BEGIN Mat41 v=mat<4,1>(q); put(o,quat_to_so3(v)); return 0; HX_END}
HX(r2q,cd R,double*o){HX_BEGIN Mat3 v=mat<3,3>(R); put(o,so3_to_quat(v)); return 0; HX_END}
HX(rpy,cd q,double*o){HX_BEGIN Mat31 v=mat<3,1>(q); put(o,rpy_to_so3(v)); return 0; HX_END}
HX(se3_exp,cd x,double*o){HX_BEGIN SE3 T(Mat61(mat<6,1>(x))); put(o,Mat4(T.T())); return 0; HX_END}
HX(se3_exp_member,cd x,double*o){HX_BEGIN SE3 T; T.exp(hat6(mat<6,1>(x))); put(o,Mat4(T.T())); return 0; HX_END}
HX(se3_ln,cd A,double*o){HX_BEGIN SE3 T(Mat4(mat<4,4>(A))); o=put(o,T.ln_vee()); put(o,T.ln()); return 0; HX_END}
HX(se3_regen,cd A,double*o){HX_BEGIN SE3 T(Mat4(mat<4,4>(A))); T.regenerate(); put(o,Mat4(T.T())); return 0; HX_END}
HX(se3_mul,cd A,cd B,double*o){HX_BEGIN SE3 a(Mat4(mat<4,4>(A))),b(Mat4(mat<4,4>(B))); o=put(o,Mat4((a*b).T())); o=put(o,Mat4(a.mul(b).T())); o=put(o,Mat4(a.T())); put(o,Mat4(b.T())); return 0; HX_END}
HX(se3_inv,cd A,double*o){HX_BEGIN SE3 a(Mat4(mat<4,4>(A))); o=put(o,Mat4(a.inv().T())); o=put(o,Mat4(a.T())); o=put(o,a.R()); put(o,a.t()); return 0; HX_END}
HX(se3_adj,cd A,double*o){HX_BEGIN SE3 a(Mat4(mat<4,4>(A))); put(o,a.adj()); return 0; HX_END}
HX(se3_copy,cd A,cd B,double*o){HX_BEGIN SE3 a(Mat4(mat<4,4>(A))),b(Mat4(mat<4,4>(B))); SE3 c(a); o=put(o,Mat4(c.T())); SE3&x=(c=b); o=put(o,Mat4(c.T())); o=put(o,Mat4(x.T())); SE3&s=c; c=s; o=put(o,Mat4(c.T())); c.ref2T()=a.T(); o=put(o,Mat4(c.T())); o=put(o,Mat4(b.T())); o=put(o,Mat4(SE3().T())); o=put(o,Mat4(SE3(SO3(Mat3(a.R())),Mat31(a.t())).T())); put(o,Mat4(SE3(Mat3(a.R()),Mat31(a.t())).T())); return 0; HX_END}
HX(se3_transform,cd A,cd p,double*o){HX_BEGIN SE3 a(Mat4(mat<4,4>(A))); put(o,a.transform(mat<3,1>(p))); return 0; HX_END}
HX(se3_transform_array,cd A,long n,cd p,double*o){HX_BEGIN SE3 a(Mat4(mat<4,4>(A))); MatX r=a.transform_array(matX(p,n,3)); put(o,r); return r.rows()*1000+r.cols(); HX_END}
HX(se3_update,cd A,cd w,double*o){HX_BEGIN SE3 a(Mat4(mat<4,4>(A))),b(a); a.update_lhs(mat<6,1>(w)); b.update_rhs(mat<6,1>(w)); o=put(o,Mat4(a.T())); o=put(o,Mat4(b.T())); put(o,Mat4(SE3(Mat61(mat<6,1>(w))).T())); return 0; HX_END}
HX(se3_distance,cd A,cd B,double*o){HX_BEGIN SE3 a(Mat4(mat<4,4>(A))),b(Mat4(mat<4,4>(B))); o[0]=a.distance(b); o[1]=a.distance_rotation(b); o[2]=a.distance_trans(b); o[3]=b.distance(a); o[4]=b.distance_rotation(a); o[5]=b.distance_trans(a); return 0; HX_END}
HX(se3_rel,cd A,cd B,double*o){HX_BEGIN SE3 a(Mat4(mat<4,4>(A))),b(Mat4(mat<4,4>(B))); put(o,(a*b.inv()).ln_vee()); return 0; HX_END}
HX(se3_distance_id,cd A,double*o){HX_BEGIN SE3 a(Mat4(mat<4,4>(A))); o[0]=a.distance(); o[1]=a.distance_rotation(); o[2]=a.distance_trans(); return 0; HX_END}
static double* pc(double*o,const SE3Cov&c){o=put(o,Mat4(c.T()));return put(o,c.cov());}
HX(cov_2nd,cd A,cd S1,cd B,cd S2,double*o){HX_BEGIN SE3Cov a(SE3(Mat4(mat<4,4>(A))),mat<6,6>(S1)),b(SE3(Mat4(mat<4,4>(B))),mat<6,6>(S2));
  o=pc(o,a.compound_2nd_order(b)); o=pc(o,a.compound_2nd_order(SE3(Mat4(mat<4,4>(B))),Mat6(mat<6,6>(S2)))); o=pc(o,a*b); o=pc(o,a.mul(b)); o=pc(o,a); pc(o,b); return 0; HX_END}
HX(cov_4th,cd A,cd S1,cd B,cd S2,double*o){HX_BEGIN SE3Cov a(SE3(Mat4(mat<4,4>(A))),mat<6,6>(S1)),b(SE3(Mat4(mat<4,4>(B))),mat<6,6>(S2));
  o=pc(o,a.compound_4th_order(b)); o=pc(o,a.compound_4th_order(SE3(Mat4(mat<4,4>(B))),Mat6(mat<6,6>(S2)))); return 0; HX_END}
HX(cov_misc,cd A,cd S,cd xi,double*o){HX_BEGIN SE3Cov a(SE3(Mat4(mat<4,4>(A))),mat<6,6>(S)); SE3Cov c(a); o=pc(o,c); SE3Cov d; o=pc(o,d); put(o,curly_wedge(mat<6,1>(xi))); return 0; HX_END}
