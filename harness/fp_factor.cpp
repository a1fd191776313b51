// bit-precise kernel: the robust weight (compiled together with its source)
#include "src/FGraph/factor.cpp"
extern "C" double fp_robust(mrob::Factor* f, double u){ return f->evaluate_robust_weight(u); }
