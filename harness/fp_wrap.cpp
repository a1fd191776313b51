// bit-precise kernel: the angle wrapping of the 2D states (compiled together with its source)
#include "src/FGraph/node.cpp"
extern "C" double fp_wrap(double a){ return mrob::wrap_angle(a); }
