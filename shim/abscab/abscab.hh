// Stand-in for abscab-cpp (not available offline): plain Biot-Savart of
// straight segments (closed form) and circular loops (elliptic integrals via
// AGM).  Same call signatures, same accumulate-into semantics.
#ifndef VERIF_SHIM_ABSCAB_HH_
#define VERIF_SHIM_ABSCAB_HH_
#include <cmath>
namespace abscab {
const double MU_0 = 1.25663706212e-6;  // CODATA-2018, as in abscab
void vectorPotentialCircularFilament(double* center, double* normal, double radius, double current,
                                     int n, double* pos, double* A, int numProcessors = 1);
void magneticFieldCircularFilament(double* center, double* normal, double radius, double current,
                                   int n, double* pos, double* B, int numProcessors = 1);
void vectorPotentialPolygonFilament(int nv, double* v, double current, int n, double* pos, double* A,
                                    int numProcessors = 1, bool useCompensatedSummation = true);
void magneticFieldPolygonFilament(int nv, double* v, double current, int n, double* pos, double* B,
                                  int numProcessors = 1, bool useCompensatedSummation = true);
}  // namespace abscab
#endif
