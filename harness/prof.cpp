// Time profiling driven by a clock the harness controls.
#include "hx.h"
#include <iostream>
#include <memory>
#include <sstream>
#include <vector>
#include <utility>
#define protected public
#define private public
#include "mrob/time_profiling.hpp"
#undef protected
#undef private
using namespace mrob; typedef const double* cd;
static double now_=0; static std::unique_ptr<TimeProfiling> t;
extern "C" double symx_now(){ return now_; }
HX(tp_now,cd v){ now_=v[0]; return 0; }
HX(tp_new){HX_BEGIN t.reset(new TimeProfiling()); return 0; HX_END}
HX(tp_start){HX_BEGIN t->start(); return 0; HX_END}
HX(tp_stop,long k){HX_BEGIN if(k<0) t->stop(); else t->stop(std::string("label")+char('a'+k)); return 0; HX_END}
HX(tp_reset){HX_BEGIN t->reset(); return 0; HX_END}
HX(tp_total,double*o){HX_BEGIN o[0]=t->total_time(); return 0; HX_END}
// what print() shows: the percentages are read back from the text
HX(tp_print,long max,double*o){HX_BEGIN std::ostringstream s; auto*b=std::cout.rdbuf(s.rdbuf()); try{ t->print(); }catch(...){ std::cout.rdbuf(b); throw; } std::cout.rdbuf(b);
  std::string x=s.str(); long n=0; size_t p=x.find(" for "); o[0]=p==std::string::npos?-1:atof(x.c_str()+p+5); size_t q=x.find(']'); if(q==std::string::npos)q=0;
  while((p=x.find(" = ",q))!=std::string::npos&&n<max){ size_t b0=p; while(b0>0&&x[b0-1]!=' ')b0--; std::string k=x.substr(b0,p-b0); o[1+2*n]=k.empty()?-1.0:(k.size()==6&&k.substr(0,5)=="label"?(double)(k[5]-'a'):-2.0); o[2+2*n]=atof(x.c_str()+p+3); n++; q=p+3; }
  return n; HX_END}
