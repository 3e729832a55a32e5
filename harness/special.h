// Independent reference values of the special functions (series, quadratures and recurrences in extended precision).
#ifndef VERIF_SPECIAL_H
#define VERIF_SPECIAL_H
#include "common.h"
namespace sp {
typedef long double LD;
typedef __float128 Q;
const LD PI = 3.141592653589793238462643383279502884L;
const LD EULER = 0.577215664901532860606512090082402431L;

inline LD lfact(int n) { LD v = 1; for (int i = 2; i <= n; ++i) v *= i; return v; }

// J_n, integer n >= 0: the trapezoidal rule converges exponentially on the periodic integrand
inline LD bessel_j(int n, LD x) {
  if (n < 0) return ((-n) & 1 ? -1 : 1) * bessel_j(-n, x);
  if (fabsl(x) < 1 + n * 0.5L) {        // power series keeps the relative accuracy of tiny values
    LD h = x / 2, t = 1;
    for (int i = 1; i <= n; ++i) t *= h / i;
    LD s = t;
    for (int k = 1; k < 60; ++k) { t *= -h * h / (k * (LD) (k + n)); s += t; }
    return s;
  }
  int N = 80 + 2 * n + 2 * (int) fabsl(x);
  LD s = 0;
  for (int i = 0; i < N; ++i) {
    LD th = 2 * PI * i / N;
    s += cosl(n * th - x * sinl(th));
  }
  return s / N;
}
inline LD bessel_i(LD nu, LD x) {       // power series, positive terms
  LD h = x / 2, t = expl(nu * logl(h) - lgammal(nu + 1)), s = t;
  if (x == 0) return nu == 0 ? 1 : 0;
  for (int k = 1; k < 400; ++k) { t *= h * h / (k * (k + nu)); s += t; if (t < s * 1e-22L) break; }
  return s;
}
inline LD bessel_k(LD nu, LD x) {       // integral of exp(-x cosh t) cosh(nu t): doubly exponential decay
  LD h = 1.0L / 64, s = 0.5L * expl(-x);
  for (int i = 1; i < 64 * 40; ++i) {
    LD t = i * h, e = -x * coshl(t);
    if (e + fabsl(nu) * t < -11000) break;
    s += 0.5L * (expl(e + nu * t) + expl(e - nu * t));
  }
  return s * h;
}
// Y_0, Y_1 by their series in 128 bits (x < 45), asymptotic above; upward recurrence for the rest (stable)
inline LD bessel_y01(int n, LD x) {
  if (x < 45) {
    Q h = (Q) x / 2, h2 = h * h;
    LD lg = logl(x / 2) + EULER;
    if (n == 0) {
      Q t = 1, s = 0, j = 1, H = 0;
      for (int k = 1; k < 400; ++k) {
        t *= -h2 / ((Q) k * k);
        H += (Q) 1 / k;
        j += t;
        s -= t * H;
      }
      // ln is only a long double: J0 multiplies it, so the error is relative to J0
      return (LD) (2 / (Q) PI * ((Q) lg * j + s));
    }
    Q t = h, j = h, s = 0, H = 0;
    // Y1 = 2/pi ((ln(x/2)+gamma) J1 - 1/x) - 1/pi sum (-1)^k (H_k + H_{k+1}) (x/2)^{2k+1} / (k!(k+1)!)
    s = h * 1;
    for (int k = 1; k < 400; ++k) {
      t *= -h2 / ((Q) k * (k + 1));
      H += (Q) 1 / k;
      j += t;
      s += t * (2 * H + (Q) 1 / (k + 1));
    }
    return (LD) (2 / (Q) PI * ((Q) lg * j - 1 / (Q) x) - s / (Q) PI);
  }
  LD mu = 4.0L * n * n, P = 0, Qq = 0, t = 1;
  for (int k = 0; k < 40; ++k) {
    if (k % 2 == 0) P += (k / 2 % 2 ? -1 : 1) * t;
    else Qq += (k / 2 % 2 ? -1 : 1) * t;
    LD nt = t * (mu - (2 * k + 1) * (LD) (2 * k + 1)) / ((k + 1) * 8 * x);
    if (fabsl(nt) > fabsl(t) && k > n) break;
    t = nt;
  }
  LD chi = x - (n / 2.0L + 0.25L) * PI;
  return sqrtl(2 / (PI * x)) * (P * sinl(chi) + Qq * cosl(chi));
}
inline LD bessel_y(int n, LD x) {
  if (n < 0) return ((-n) & 1 ? -1 : 1) * bessel_y(-n, x);
  LD a = bessel_y01(0, x);
  if (n == 0) return a;
  LD b = bessel_y01(1, x);
  for (int k = 1; k < n; ++k) { LD c = 2 * k / x * b - a; a = b; b = c; }
  return b;
}
// J_nu for real nu (not a negative integer), x in (0, 40): 128-bit power series
inline LD bessel_jr(LD nu, LD x) {
  Q h2 = (Q) x * x / 4, t = 1, s = 1;
  for (int k = 1; k < 300; ++k) { t *= -h2 / ((Q) k * ((Q) k + (Q) nu)); s += t; }
  return (LD) s * powl(x / 2, nu) / tgammal(nu + 1);
}
inline LD bessel_yr(LD nu, LD x) {     // real, not an integer
  return (bessel_jr(nu, x) * cosl(nu * PI) - bessel_jr(-nu, x)) / sinl(nu * PI);
}
// Struve H_0, H_1
inline LD struve(int n, LD x) {
  if (x < 50) {
    // H_n = sum (-1)^k (x/2)^{2k+n+1} / (Gamma(k+3/2) Gamma(k+n+3/2))
    Q h = (Q) x / 2, t, s;
    LD g32 = sqrtl(PI) / 2, g52 = 1.5L * g32;
    // products of the gammas are rational multiples of pi/4: take the factor out
    if (n == 0) t = h;
    else t = h * h / (Q) 1.5;
    s = t;
    for (int k = 1; k < 400; ++k) { t *= -h * h / (((Q) k + 0.5) * ((Q) k + n + 0.5)); s += t; }
    (void) g52;
    return (LD) s / (g32 * g32);
  }
  // H_n - Y_n asymptotic
  LD s = 0, t;
  if (n == 0) {
    t = 1 / x;
    for (int k = 0; k < 20; ++k) { s += t; t *= -((2 * k + 1) * (LD) (2 * k + 1)) / (x * x); }
  } else {
    t = 1;
    for (int k = 0; k < 20; ++k) { s += t; t *= -((2 * k + 1) * (LD) (2 * k - 1)) / (x * x); }
  }
  return bessel_y01(n, x) + 2 / PI * s;
}
inline LD legendre(int n, LD x, LD *d) {
  LD a = 1, b = x, da = 0, db = 1;
  if (n == 0) { *d = 0; return 1; }
  for (int k = 1; k < n; ++k) {
    LD c = ((2 * k + 1) * x * b - k * a) / (k + 1);
    LD dc = ((2 * k + 1) * (b + x * db) - k * da) / (k + 1);
    a = b; b = c; da = db; db = dc;
  }
  *d = db;
  return b;
}
inline LD cheb(int n, LD x, LD *d) {
  LD a = 1, b = x, da = 0, db = 1;
  if (n == 0) { *d = 0; return 1; }
  for (int k = 1; k < n; ++k) {
    LD c = 2 * x * b - a, dc = 2 * b + 2 * x * db - da;
    a = b; b = c; da = db; db = dc;
  }
  *d = db;
  return b;
}
inline LD e1_scaled(LD x) {             // exp(x) E1(x)
  if (x < 2) {
    LD s = -EULER - logl(x), t = -1;
    for (int k = 1; k < 80; ++k) { t *= -x / k; s += t / k; }
    return s * expl(x);
  }
  LD f = 0;                             // continued fraction, bottom up
  for (int k = 400; k >= 1; --k) f = k / (1 + k / (x + f));
  return 1 / (x + f);
}
inline LD ei_scaled(LD x) {             // exp(-x) Ei(x), x > 0
  if (x < 60) {
    LD s = EULER + logl(x), t = 1;
    for (int k = 1; k < 400; ++k) { t *= x / k; s += t / k; if (t < 1e-24L * s) break; }
    return s * expl(-x);
  }
  LD s = 0, t = 1;
  for (int k = 0; k < 200; ++k) { s += t; LD n = t * (k + 1) / x; if (n > t) break; t = n; }
  return s / x;
}
}  // namespace sp
#endif
