#include "abscab/abscab.hh"
#include <cfloat>
namespace abscab {
namespace {
// complete elliptic integrals K(m), E(m) (parameter m=k^2) by AGM
void ellipKE(double m, double& K, double& E) {
  double a = 1.0, b = std::sqrt(1.0 - m), c = std::sqrt(m), s = 0.5 * c * c, p = 0.5;
  for (int i = 0; i < 40 && std::fabs(c) > 1e-17; ++i) {
    const double an = 0.5 * (a + b);
    c = 0.5 * (a - b);
    b = std::sqrt(a * b);
    a = an;
    p *= 2.0;
    s += p * c * c;
  }
  K = M_PI / (2.0 * a);
  E = K * (1.0 - s);
}
struct Loc { double ex[3]; double n[3]; double rho, z; };
Loc local(const double* c, const double* nn, const double* p) {
  Loc l;
  const double len = std::sqrt(nn[0]*nn[0]+nn[1]*nn[1]+nn[2]*nn[2]);
  double d[3];
  for (int i = 0; i < 3; ++i) { l.n[i] = nn[i]/len; d[i] = p[i]-c[i]; }
  l.z = d[0]*l.n[0]+d[1]*l.n[1]+d[2]*l.n[2];
  double r[3];
  for (int i = 0; i < 3; ++i) r[i] = d[i]-l.z*l.n[i];
  l.rho = std::sqrt(r[0]*r[0]+r[1]*r[1]+r[2]*r[2]);
  for (int i = 0; i < 3; ++i) l.ex[i] = l.rho > 0 ? r[i]/l.rho : 0.0;
  return l;
}
// trapezoid rule of the angular integral: spectrally accurate near the axis,
// where the elliptic integrals cancel
double ring(double a, double rho, double z, bool field) {
  const int n = 64;
  double s = 0.0;
  for (int i = 0; i < n; ++i) {
    const double c = std::cos(2*M_PI*i/n), d = a*a+rho*rho+z*z-2*a*rho*c;
    s += c/(field ? d*std::sqrt(d) : std::sqrt(d));
  }
  return s*2*M_PI/n;
}
}  // namespace
void vectorPotentialCircularFilament(double* c, double* nn, double a, double I, int n, double* pos,
                                     double* A, int) {
  for (int i = 0; i < n; ++i) {
    Loc l = local(c, nn, pos + 3*i);
    if (l.rho == 0) continue;
    const double q = (a+l.rho)*(a+l.rho)+l.z*l.z;
    const double m = 4*a*l.rho/q;
    double K, E; ellipKE(m, K, E);
    const double k = std::sqrt(m);
    // note: abscab's circular vector potential has the opposite orientation
    // (vmecpp passes -current to compensate)
    const double Ap = m < 0.05 ? -MU_0*I*a/(4*M_PI)*ring(a, l.rho, l.z, false)
                               : -MU_0*I/(M_PI*k)*std::sqrt(a/l.rho)*((1-m/2)*K-E);
    const double ep[3] = {l.n[1]*l.ex[2]-l.n[2]*l.ex[1], l.n[2]*l.ex[0]-l.n[0]*l.ex[2],
                          l.n[0]*l.ex[1]-l.n[1]*l.ex[0]};
    for (int j = 0; j < 3; ++j) A[3*i+j] += Ap*ep[j];
  }
}
void magneticFieldCircularFilament(double* c, double* nn, double a, double I, int n, double* pos,
                                   double* B, int) {
  for (int i = 0; i < n; ++i) {
    Loc l = local(c, nn, pos + 3*i);
    const double q = (a+l.rho)*(a+l.rho)+l.z*l.z;
    const double m = 4*a*l.rho/q;
    double K, E; ellipKE(m, K, E);
    const double d2 = (a-l.rho)*(a-l.rho)+l.z*l.z;
    const double f = MU_0*I/(2*M_PI*std::sqrt(q));
    const double Bz = f*(K+(a*a-l.rho*l.rho-l.z*l.z)/d2*E);
    const double Br = m < 0.05 ? MU_0*I*a*l.z/(4*M_PI)*ring(a, l.rho, l.z, true)
                               : f*l.z/l.rho*(-K+(a*a+l.rho*l.rho+l.z*l.z)/d2*E);
    for (int j = 0; j < 3; ++j) B[3*i+j] += Bz*l.n[j]+Br*l.ex[j];
  }
}
void vectorPotentialPolygonFilament(int nv, double* v, double I, int n, double* pos, double* A, int, bool) {
  for (int i = 0; i < n; ++i) {
    double s[3] = {0,0,0};
    for (int k = 0; k+1 < nv; ++k) {
      double d[3], L=0, ri=0, rf=0;
      for (int j = 0; j < 3; ++j) {
        d[j] = v[3*k+3+j]-v[3*k+j]; L += d[j]*d[j];
        const double x = pos[3*i+j]-v[3*k+j], y = pos[3*i+j]-v[3*k+3+j];
        ri += x*x; rf += y*y;
      }
      L = std::sqrt(L); if (L == 0) continue;
      const double e = L/(std::sqrt(ri)+std::sqrt(rf));
      const double w = std::log1p(2*e/(1-e));
      for (int j = 0; j < 3; ++j) s[j] += w*d[j]/L;
    }
    for (int j = 0; j < 3; ++j) A[3*i+j] += MU_0*I/(4*M_PI)*s[j];
  }
}
void magneticFieldPolygonFilament(int nv, double* v, double I, int n, double* pos, double* B, int, bool) {
  for (int i = 0; i < n; ++i) {
    double s[3] = {0,0,0};
    for (int k = 0; k+1 < nv; ++k) {
      double d[3], x[3], L2=0, ri=0, rf=0;
      for (int j = 0; j < 3; ++j) {
        d[j] = v[3*k+3+j]-v[3*k+j]; L2 += d[j]*d[j];
        x[j] = pos[3*i+j]-v[3*k+j]; const double y = pos[3*i+j]-v[3*k+3+j];
        ri += x[j]*x[j]; rf += y*y;
      }
      ri = std::sqrt(ri); rf = std::sqrt(rf);
      if (L2 == 0) continue;
      const double w = 2*(ri+rf)/(ri*rf*((ri+rf)*(ri+rf)-L2));
      s[0] += w*(d[1]*x[2]-d[2]*x[1]);
      s[1] += w*(d[2]*x[0]-d[0]*x[2]);
      s[2] += w*(d[0]*x[1]-d[1]*x[0]);
    }
    for (int j = 0; j < 3; ++j) B[3*i+j] += MU_0*I/(4*M_PI)*s[j];
  }
}
}  // namespace abscab
