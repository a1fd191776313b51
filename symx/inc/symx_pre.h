// Included before every translation unit of the code under test.
// Eigen's run-time assertions are kept on and reported as C++ exceptions, so an
// out-of-range block or index in the code under test is observed, not skipped.
#ifndef SYMX_PRE_H
#define SYMX_PRE_H
#ifdef __cplusplus
// two builds of the Python bindings live in one interpreter: separate type registries
#ifdef SYMX_SYMBOLIC
#define PYBIND11_COMPILER_TYPE "_symx_s"
#else
#define PYBIND11_COMPILER_TYPE "_symx_p"
#endif
#include <stdexcept>
namespace symx { [[noreturn]] inline void eigen_fail(const char* s){ throw std::logic_error(s); } }
#define eigen_assert(x) do{ if(!(x)) ::symx::eigen_fail("eigen_assert " #x); }while(0)
#endif
#endif
