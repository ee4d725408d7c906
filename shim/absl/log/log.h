#ifndef VERIF_SHIM_ABSL_LOG_LOG_H_
#define VERIF_SHIM_ABSL_LOG_LOG_H_
#include "absl/log/check.h"
#define LOG(sev) ::verif_shim::Message(::verif_shim::sev, __FILE__, __LINE__, "")
#endif
