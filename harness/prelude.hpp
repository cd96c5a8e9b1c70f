// Force-included before every translation unit (library sources and harnesses).
// Turns Eigen's internal assertions into C++ exceptions so that a broken
// precondition inside the library is reported as a case outcome, and fills
// fresh Eigen storage with NaN (the library's own INITIALIZE_WITH_NAN option)
// so that reads of never-written entries become visible.
#pragma once
#ifdef __cplusplus
#include <stdexcept>
#include <string>
namespace vp {
struct EigenAssert : std::logic_error {
  using std::logic_error::logic_error;
};
[[noreturn]] inline void eigen_assert_fail(const char *what, const char *file,
                                           int line) {
  throw EigenAssert(std::string("eigen_assert: ") + what + " at " + file + ":" +
                    std::to_string(line));
}
} // namespace vp
#undef eigen_assert
#define eigen_assert(x)                                                        \
  do {                                                                         \
    if (!(x))                                                                  \
      ::vp::eigen_assert_fail(#x, __FILE__, __LINE__);                         \
  } while (false)
#endif
