// Minimal stand-in for abseil's logging/CHECK headers (the installed abseil
// predates absl/log).  Semantics kept: CHECK* / LOG(FATAL) print and abort();
// LOG(INFO|WARNING|ERROR) stream to stderr (silent unless VERIF_LOG is set).
#ifndef VERIF_SHIM_ABSL_LOG_CHECK_H_
#define VERIF_SHIM_ABSL_LOG_CHECK_H_
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <string>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/str_format.h"
namespace verif_shim {
enum Severity { INFO = 0, WARNING = 1, ERROR = 2, FATAL = 3 };
class Message {
 public:
  Message(Severity s, const char* f, int l, const char* what) : s_(s) {
    os_ << f << ":" << l << "] " << what;
  }
  ~Message() {
    if (s_ == FATAL) {
      std::cerr << "FATAL " << os_.str() << std::endl;
      std::abort();
    }
    static const bool on = std::getenv("VERIF_LOG") != nullptr;
    if (on) std::cerr << os_.str() << std::endl;
  }
  std::ostream& stream() { return os_; }
  template <class T>
  Message& operator<<(const T& t) {
    os_ << t;
    return *this;
  }
  Message& operator<<(std::ostream& (*m)(std::ostream&)) {
    os_ << m;
    return *this;
  }

 private:
  Severity s_;
  std::ostringstream os_;
};
struct Voidify {
  void operator&&(const Message&) const {}
  void operator&&(Message&&) const {}
};
inline const absl::Status& AsStatus(const absl::Status& s) { return s; }
template <class T>
const absl::Status& AsStatus(const absl::StatusOr<T>& s) {
  return s.status();
}
}  // namespace verif_shim
#define CHECK(c)                    \
  (c) ? (void)0                     \
      : ::verif_shim::Voidify() &&  \
            ::verif_shim::Message(::verif_shim::FATAL, __FILE__, __LINE__, "Check failed: " #c " ")
#define CHECK_EQ(a, b) CHECK((a) == (b))
#define CHECK_NE(a, b) CHECK((a) != (b))
#define CHECK_GE(a, b) CHECK((a) >= (b))
#define CHECK_GT(a, b) CHECK((a) > (b))
#define CHECK_LE(a, b) CHECK((a) <= (b))
#define CHECK_LT(a, b) CHECK((a) < (b))
#define CHECK_OK(s) CHECK(::verif_shim::AsStatus(s).ok()) << ::verif_shim::AsStatus(s).ToString() << " "
#define QCHECK CHECK
#define QCHECK_OK CHECK_OK
#ifdef NDEBUG
#define DCHECK(c) CHECK(true || (c))
#else
#define DCHECK(c) CHECK(c)
#endif
#define DCHECK_EQ(a, b) DCHECK((a) == (b))
#define DCHECK_NE(a, b) DCHECK((a) != (b))
#define DCHECK_GE(a, b) DCHECK((a) >= (b))
#define DCHECK_GT(a, b) DCHECK((a) > (b))
#define DCHECK_LE(a, b) DCHECK((a) <= (b))
#define DCHECK_LT(a, b) DCHECK((a) < (b))
#endif
