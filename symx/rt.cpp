// Runtime of the symbolic executor: doubles are either ordinary values or quiet
// NaNs whose payload is the index of a node of an expression DAG.
// Linked with the instrumented IR of the code under test (see instr.py).
#include <cstdint>
#include <cstring>
#include <cmath>
#include <vector>
#include <unordered_map>
#include <cstdio>
#include <cstdlib>
typedef uint64_t u64; typedef uint32_t u32;
static inline u64 B(double d){u64 u;memcpy(&u,&d,8);return u;}
static inline double D(u64 u){double d;memcpy(&d,&u,8);return d;}
static const u64 TAG=0x7FFAull<<48, MASK=0xFFFFull<<48;
static inline bool isS(double d){return (B(d)&MASK)==TAG;}
enum Op{CONST=0,INPUT,ADD,SUB,MUL,DIV,NEG,SQRT,SIN,COS,TAN,ASIN,ACOS,ATAN,ATAN2,ABS,FMOD,POW,EXP,LOG,FLOOR,CEIL,TRUNC,RINT,ROUND,COPYSIGN,SINH,COSH,TANH,CBRT,ITE};
struct Key{u32 op,a,b;bool operator==(const Key&o)const{return op==o.op&&a==o.a&&b==o.b;}};
struct KH{size_t operator()(const Key&k)const{u64 h=k.op*0x9E3779B97F4A7C15ull;h^=(h>>29)+k.a*0xBF58476D1CE4E5B9ull;h^=(h>>31)+k.b*0x94D049BB133111EBull;return h^(h>>32);}};
static std::vector<unsigned char> g_op; static std::vector<u32> g_a,g_b; static std::vector<double> g_v;
static std::unordered_map<Key,u32,KH> g_tab; static std::unordered_map<u64,u32> g_ctab;
struct Br{int kind;int pred;u32 a,b;long out;};   // kind 0: comparison, 1: integer part of a
static std::vector<Br> g_br; static std::vector<long> g_pre;
static std::vector<u32> g_dom,g_dombr;                     // every DIV/SQRT/ACOS/ASIN/LOG node in creation order
static long g_maxbr=100000; static int g_flags=0;  // 1: branch budget exceeded, 2: unsupported use
static char g_note[256];
static long g_ops=0;
static inline double T(u32 i){return D(TAG|i);}
static inline u32 I(double d){return (u32)(B(d)&0xFFFFFFFFull);}
static u32 mk(u32 op,u32 a,u32 b,double v){
  Key k{op,a,b}; auto it=g_tab.find(k); if(it!=g_tab.end())return it->second;
  u32 n=g_op.size(); g_op.push_back(op);g_a.push_back(a);g_b.push_back(b);g_v.push_back(v); g_tab.emplace(k,n); return n;}
static u32 kconst(double d){u64 u=B(d); if(u==0x8000000000000000ull)u=0; auto it=g_ctab.find(u); if(it!=g_ctab.end())return it->second;
  u32 n=g_op.size(); g_op.push_back(CONST);g_a.push_back(0);g_b.push_back(0);g_v.push_back(D(u)); g_ctab[u]=n; return n;}
static inline u32 N(double d){return isS(d)?I(d):kconst(d);}
static inline double V(double d){return isS(d)?g_v[I(d)]:d;}
static double un(u32 op,double a,double v){u32 n=mk(op,N(a),0,v); return T(n);}
static double bi(u32 op,double a,double b,double v){u32 n=mk(op,N(a),N(b),v); return T(n);}
extern "C" {
double __sx_fadd(double a,double b){ if(!isS(a)&&!isS(b))return a+b; g_ops++; if(!isS(a)&&a==0)return b; if(!isS(b)&&b==0)return a; 
  if(isS(a)&&isS(b)&&I(a)>I(b)){double t=a;a=b;b=t;} return bi(ADD,a,b,V(a)+V(b));}
double __sx_fneg(double a){ if(!isS(a))return -a; g_ops++; if(g_op[I(a)]==NEG)return T(g_a[I(a)]); return un(NEG,a,-V(a));}
double __sx_fsub(double a,double b){ if(!isS(a)&&!isS(b))return a-b; g_ops++; if(!isS(b)&&b==0)return a; if(!isS(a)&&a==0)return __sx_fneg(b);
  if(isS(a)&&isS(b)&&I(a)==I(b))return 0.0; return bi(SUB,a,b,V(a)-V(b));}
double __sx_fmul(double a,double b){ if(!isS(a)&&!isS(b))return a*b; g_ops++; if(!isS(a)){double t=a;a=b;b=t;}
  if(!isS(b)){ if(b==0)return 0.0; if(b==1)return a; if(b==-1)return __sx_fneg(a);} 
  if(isS(a)&&isS(b)&&I(a)>I(b)){double t=a;a=b;b=t;} return bi(MUL,a,b,V(a)*V(b));}
double __sx_fdiv(double a,double b){ if(!isS(a)&&!isS(b))return a/b; g_ops++; if(!isS(b)&&b==1)return a;
  u32 n0=g_op.size(); double r=bi(DIV,a,b,V(a)/V(b)); if(I(r)>=n0&&isS(b)){g_dom.push_back(I(r));g_dombr.push_back(g_br.size());} return r;}
double __sx_frem(double a,double b){ if(!isS(a)&&!isS(b))return fmod(a,b); return bi(FMOD,a,b,fmod(V(a),V(b)));}
#define U(name,OP,f,dom) double __sx_##name(double a){ if(!isS(a))return f(a); g_ops++; u32 n0=g_op.size(); double r=un(OP,a,f(V(a))); if(dom&&I(r)>=n0){g_dom.push_back(I(r));g_dombr.push_back(g_br.size());} return r;}
U(sqrt,SQRT,sqrt,1) U(sin,SIN,sin,0) U(cos,COS,cos,0) U(tan,TAN,tan,0) U(asin,ASIN,asin,1) U(acos,ACOS,acos,1) U(atan,ATAN,atan,0)
U(exp,EXP,exp,0) U(log,LOG,log,1) U(floor,FLOOR,floor,0) U(ceil,CEIL,ceil,0) U(trunc,TRUNC,trunc,0) U(rint,RINT,rint,0) U(round,ROUND,round,0)
U(sinh,SINH,sinh,0) U(cosh,COSH,cosh,0) U(tanh,TANH,tanh,0) U(cbrt,CBRT,cbrt,0)
double __sx_fmod(double a,double b){return __sx_frem(a,b);}
double __sx_atan2(double a,double b){ if(!isS(a)&&!isS(b))return atan2(a,b); g_ops++; return bi(ATAN2,a,b,atan2(V(a),V(b)));}
double __sx_pow(double a,double b){ if(!isS(a)&&!isS(b))return pow(a,b);
  if(!isS(b)&&b==2)return __sx_fmul(a,a); if(!isS(b)&&b==3)return __sx_fmul(a,__sx_fmul(a,a)); if(!isS(b)&&b==1)return a; if(!isS(b)&&b==0)return 1; if(!isS(b)&&b==0.5)return __sx_sqrt(a); if(!isS(b)&&b==4){double q=__sx_fmul(a,a);return __sx_fmul(q,q);} if(!isS(b)&&b==-1)return __sx_fdiv(1,a);
  return bi(POW,a,b,pow(V(a),V(b)));}
double __sx_hypot(double a,double b){ if(!isS(a)&&!isS(b))return hypot(a,b); return __sx_sqrt(__sx_fadd(__sx_fmul(a,a),__sx_fmul(b,b)));}
double __sx_fma(double a,double b,double c){return __sx_fadd(__sx_fmul(a,b),c);}
// predicate numbering follows LLVM FCmp: 1 oeq 2 ogt 3 oge 4 olt 5 ole 6 one 7 ord 8 uno 9 ueq 10 ugt 11 uge 12 ult 13 ule 14 une
static bool ev(int p,double a,double b){ bool un_=std::isnan(a)||std::isnan(b);
  switch(p){case 0:return false;case 15:return true;case 1:return a==b;case 2:return a>b;case 3:return a>=b;case 4:return a<b;case 5:return a<=b;case 6:return !un_&&a!=b;case 7:return !un_;case 8:return un_;
  case 9:return un_||a==b;case 10:return un_||a>b;case 11:return un_||a>=b;case 12:return un_||a<b;case 13:return un_||a<=b;case 14:return un_||a!=b;} return false;}
bool __sx_fcmp(int p,double a,double b){
  if(!isS(a)&&!isS(b))return ev(p,a,b);
  g_ops++;
  if((!isS(a)&&std::isnan(a))||(!isS(b)&&std::isnan(b))) return p>=8;   // comparison with a concrete NaN
  if(p==7)return true; if(p==8)return false;                           // symbolic values are reals
  if(isS(a)&&isS(b)&&I(a)==I(b)){ return p==1||p==3||p==5||p==9||p==11||p==13; }
  if((!isS(a)&&std::isinf(a))||(!isS(b)&&std::isinf(b))) return ev(p,isS(a)?0.0:a,isS(b)?0.0:b);
  if(p>=9&&p<=14)p-=8;  // ueq..une -> oeq..one (reals)
  if((long)g_br.size()>=g_maxbr){ g_flags|=1; double x=V(a),y=V(b); return ev(p,x,y);}  
  // canonical direction: the same question asked twice gets the same answer
  u32 na=N(a),nb=N(b);
  for(auto&q:g_br) if(q.kind==0&&q.a==na&&q.b==nb){ 
     // known facts from the log: reuse where implied
     int s=q.pred; bool o=q.out;
     if(s==p) return o;
     int neg[7]={0,6,5,4,3,2,1}; if(neg[s]==p) return !o;
     if(o&&s==2){ if(p==3||p==6)return true; if(p==1||p==4||p==5)return false; }
     if(o&&s==4){ if(p==5||p==6)return true; if(p==1||p==2||p==3)return false; }
     if(o&&s==1){ if(p==3||p==5)return true; if(p==2||p==4||p==6)return false; }
     if(!o&&s==3){ if(p==4||p==5||p==6)return true; if(p==1||p==2)return false; }
     if(!o&&s==5){ if(p==2||p==3||p==6)return true; if(p==1||p==4)return false; }
     if(!o&&s==6){ if(p==3||p==5||p==1)return true; if(p==2||p==4)return false; }
  }
  size_t i=g_br.size(); bool out= i<g_pre.size()? g_pre[i]!=0 : ev(p,V(a),V(b));
  g_br.push_back(Br{0,p,na,nb,out}); return out;}
double __sx_fabs(double a){ if(!isS(a))return fabs(a); return __sx_fcmp(4,a,0.0)?__sx_fneg(a):a;}
double __sx_fmin(double a,double b){ if(!isS(a)&&!isS(b))return fmin(a,b); return __sx_fcmp(4,b,a)?b:a;}
double __sx_fmax(double a,double b){ if(!isS(a)&&!isS(b))return fmax(a,b); return __sx_fcmp(4,a,b)?b:a;}
double __sx_copysign(double a,double b){ if(!isS(a)&&!isS(b))return copysign(a,b); double x=__sx_fabs(a); return __sx_fcmp(4,b,0.0)?__sx_fneg(x):x;}
double __sx_powi(double a,int n){ if(!isS(a))return __builtin_powi(a,n); bool inv=n<0; if(inv)n=-n; double r=1; while(n--)r=__sx_fmul(r,a); return inv?__sx_fdiv(1,r):r;}
bool __sx_isfpclass(double a,int mask){ if(isS(a)){ // finite non-nan
    if(mask&(0x108|0x30|0x90|0x60)) { if((mask&0x1f8)==0x1f8) return true; if((mask&3)&&!(mask&~0x3))return false; return (mask&0x1f8)!=0;} return false; }
  u64 u=B(a); bool neg=u>>63; int m; if(std::isnan(a)) m=(u>>51&1)?2:1; else if(std::isinf(a)) m=neg?4:0x200; else if(a==0) m=neg?0x20:0x40; else if(std::isnormal(a)) m=neg?8:0x100; else m=neg?0x10:0x80; return m&mask;}
long __sx_fptosi(double a){ if(!isS(a))return (long)a; size_t i=g_br.size();
  if((long)i>=g_maxbr){g_flags|=1;return (long)V(a);}
  u32 na=N(a); for(auto&q:g_br) if(q.kind==1&&q.a==na) return q.out;
  long k=i<g_pre.size()?g_pre[i]:(long)V(a); g_br.push_back(Br{1,0,na,0,k}); return k;}
float __sx_fptrunc(double a){ if(!isS(a))return (float)a; g_flags|=2; snprintf(g_note,256,"fptrunc of a symbolic value"); return (float)V(a);}
// ---- API for Python (values travel as 64-bit patterns)
void sx_reset(){g_op.clear();g_a.clear();g_b.clear();g_v.clear();g_tab.clear();g_ctab.clear();g_br.clear();g_pre.clear();g_dom.clear();g_dombr.clear();g_flags=0;g_note[0]=0;g_ops=0; kconst(0.0);}
u64 sx_input(u32 id,double shadow){u32 n=mk(INPUT,id,0,shadow);return TAG|n;}
void sx_set_prefix(const long*p,long n){g_pre.assign(p,p+n);}
void sx_set_maxbr(long n){g_maxbr=n;}
u64 sx_un(int op,u64 a){ double x=D(a); switch(op){case NEG:return B(__sx_fneg(x));case SQRT:return B(__sx_sqrt(x));case SIN:return B(__sx_sin(x));case COS:return B(__sx_cos(x));case ACOS:return B(__sx_acos(x));case ATAN:return B(__sx_atan(x));case ABS:return B(__sx_fabs(x));case EXP:return B(__sx_exp(x));case TAN:return B(__sx_tan(x));case ASIN:return B(__sx_asin(x));} return 0;}
u64 sx_bi(int op,u64 a,u64 b){ double x=D(a),y=D(b); switch(op){case ADD:return B(__sx_fadd(x,y));case SUB:return B(__sx_fsub(x,y));case MUL:return B(__sx_fmul(x,y));case DIV:return B(__sx_fdiv(x,y));case ATAN2:return B(__sx_atan2(x,y));case FMOD:return B(__sx_fmod(x,y));case POW:return B(__sx_pow(x,y));} return 0;}
int sx_cmp(int p,u64 a,u64 b){return __sx_fcmp(p,D(a),D(b));}
u32 sx_node(u64 a){return N(D(a));}
double sx_shadow(u64 a){return V(D(a));}
long sx_nnodes(){return g_op.size();}
void sx_nodes(unsigned char*op,u32*a,u32*b,double*v,long n){memcpy(op,g_op.data(),n);memcpy(a,g_a.data(),4*n);memcpy(b,g_b.data(),4*n);memcpy(v,g_v.data(),8*n);}
long sx_nbr(){return g_br.size();}
void sx_branches(int*kind,int*pred,u32*a,u32*b,long*out){for(size_t i=0;i<g_br.size();i++){kind[i]=g_br[i].kind;pred[i]=g_br[i].pred;a[i]=g_br[i].a;b[i]=g_br[i].b;out[i]=g_br[i].out;}}
long sx_ndom(){return g_dom.size();}
void sx_doms(u32*d,u32*nb){for(size_t i=0;i<g_dom.size();i++){d[i]=g_dom[i];nb[i]=g_dombr[i];}}
int sx_flags(){return g_flags;}
const char* sx_note(){return g_note;}
long sx_opcount(){return g_ops;}
// harness/stub side helpers usable from instrumented C++ (bit-exact)
double sx_cxx_shadow(double a){return V(a);}
}
