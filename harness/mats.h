// Matrix operations of the library as cases: operands, the call, and a naive check of the result.
// Nothing in the checks uses Eigen arithmetic.
#ifndef VERIF_MATS_H
#define VERIF_MATS_H
#include "common.h"
#include "MathUtils/MathUtils.h"

namespace hm {
using namespace mathutils;
using namespace hc;
typedef long double LD;

struct M {                      // plain row-major reference matrix
  int r = 0, c = 0;
  std::vector<LD> a;
  M() {}
  M(int r_, int c_) : r(r_), c(c_), a((size_t) r_ * c_, 0) {}
  LD &operator()(int i, int j) { return a[(size_t) i * c + j]; }
  LD operator()(int i, int j) const { return a[(size_t) i * c + j]; }
};
template<class E>
M of(const E &e) {
  M m((int) e.rows(), (int) e.cols());
  for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) m(i, j) = e(i, j);
  return m;
}
inline M mul(const M &x, const M &y) {
  M m(x.r, y.c);
  for (int i = 0; i < x.r; ++i) for (int j = 0; j < y.c; ++j) {
    LD s = 0;
    for (int k = 0; k < x.c; ++k) s += x(i, k) * y(k, j);
    m(i, j) = s;
  }
  return m;
}
inline M tr(const M &x) {
  M m(x.c, x.r);
  for (int i = 0; i < x.r; ++i) for (int j = 0; j < x.c; ++j) m(j, i) = x(i, j);
  return m;
}
inline M eye(int n) { M m(n, n); for (int i = 0; i < n; ++i) m(i, i) = 1; return m; }
inline LD norm(const M &x) { LD s = 0; for (LD v : x.a) s = std::max(s, fabsl(v)); return s; }
inline M solve(M a, M b) {      // Gaussian elimination with partial pivoting
  int n = a.r;
  for (int k = 0; k < n; ++k) {
    int p = k;
    for (int i = k; i < n; ++i) if (fabsl(a(i, k)) > fabsl(a(p, k))) p = i;
    for (int j = 0; j < n; ++j) std::swap(a(k, j), a(p, j));
    for (int j = 0; j < b.c; ++j) std::swap(b(k, j), b(p, j));
    for (int i = k + 1; i < n; ++i) {
      LD f = a(i, k) / a(k, k);
      for (int j = k; j < n; ++j) a(i, j) -= f * a(k, j);
      for (int j = 0; j < b.c; ++j) b(i, j) -= f * b(k, j);
    }
  }
  for (int j = 0; j < b.c; ++j)
    for (int i = n - 1; i >= 0; --i) {
      LD s = b(i, j);
      for (int k = i + 1; k < n; ++k) s -= a(i, k) * b(k, j);
      b(i, j) = s / a(i, i);
    }
  return b;
}
inline void same(const char *cls, const char *what, const M &got, const M &want, LD scale, LD tol = 1e-10L) {
  sim::oracle();
  if (got.r != want.r || got.c != want.c)
    sim::violation(cls, "%s: %dx%d instead of %dx%d", what, got.r, got.c, want.r, want.c);
  for (size_t i = 0; i < got.a.size(); ++i)
    if (!(fabsl(got.a[i] - want.a[i]) <= tol * (scale + norm(want))))
      sim::violation(cls, "%s: coefficient %d is %.17g, expected %.17g", what, (int) i, (double) got.a[i], (double) want.a[i]);
}
inline void exactly(const char *cls, const char *what, const M &got, const M &want) {
  sim::oracle();
  if (got.r != want.r || got.c != want.c)
    sim::violation(cls, "%s: %dx%d instead of %dx%d", what, got.r, got.c, want.r, want.c);
  for (size_t i = 0; i < got.a.size(); ++i)
    if (!(got.a[i] == want.a[i]))
      sim::violation(cls, "%s: coefficient %d is %.17g, expected exactly %.17g", what, (int) i, (double) got.a[i], (double) want.a[i]);
}
inline void triangular(const char *what, const M &m, bool upper, bool unit) {
  sim::oracle();
  for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) {
    if ((upper ? i > j : i < j) && m(i, j) != 0) sim::violation("result", "%s is not triangular", what);
    if (unit && i == j && m(i, j) != 1) sim::violation("result", "%s has no unit diagonal", what);
  }
}
inline void orthonormal_cols(const char *what, const M &q) { same("result", what, mul(tr(q), q), eye(q.c), 1); }

// ---- operands ---------------------------------------------------------------------------------
template<class Mat>
void fill_square(Rng &r, Mat &A, int n) {         // well conditioned, with pivoting needed now and then
  double s = r.chance(0.2) ? r.real(1e-3, 1e3) : 1;
  std::vector<int> perm(n);
  for (int i = 0; i < n; ++i) perm[i] = i;
  if (r.chance(0.6)) for (int i = n - 1; i > 0; --i) std::swap(perm[i], perm[r.below(i + 1)]);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
    A(i, j) = s * (r.real(-1, 1) + (perm[i] == j ? (r.chance(0.5) ? n : -n) * 1.2 : 0));
}
template<class Mat>
void fill_spd(Rng &r, Mat &A, int n) {
  for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) {
    double v = i == j ? n * 1.1 + r.unit() : r.real(-1, 1);
    A(i, j) = v;
    A(j, i) = v;
  }
}
inline void fill_tall(Rng &r, MatrixMN<double> &A, int m, int n) {
  for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) A(i, j) = r.real(-1, 1) + (i == j ? n * 1.2 : 0);
}
inline MatrixMN<double> rect(Rng &r, int m, int n) {
  MatrixMN<double> x(m, n);
  for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) x(i, j) = r.real(-5, 5);
  return x;
}

// ---- checks of results --------------------------------------------------------------------------
inline void check_inverse(const M &A, const M &X) {
  same("result", "inverse: A X = I", mul(A, X), eye(A.r), 1);
  same("result", "inverse: X A = I", mul(X, A), eye(A.r), 1);
}
inline void check_qr(const M &A, const M &Q, const M &R, bool full) {
  orthonormal_cols("QR: Q'Q = I", Q);
  triangular("QR: R", R, true, false);
  int n = A.c;
  expect(Q.r == A.r && Q.c == (full ? A.r : n) && R.r == n && R.c == n, "result", "QR: shapes", Q.c, R.c);
  M Qt(Q.r, n);
  for (int i = 0; i < Q.r; ++i) for (int j = 0; j < n; ++j) Qt(i, j) = Q(i, j);
  same("result", "QR: QR = A", mul(Qt, R), A, 0);
}
inline void check_lu(const M &A, const M &P, const M &L, const M &U) {
  triangular("LU: L", L, false, true);
  triangular("LU: U", U, true, false);
  for (int i = 0; i < P.r; ++i) {
    int ones = 0, rows = 0;
    for (int j = 0; j < P.c; ++j) {
      ones += P(i, j) == 1, rows += P(j, i) == 1;
      expect(P(i, j) == 0 || P(i, j) == 1, "result", "LU: P is not a permutation");
    }
    expect(ones == 1 && rows == 1, "result", "LU: P is not a permutation");
  }
  same("result", "LU: PA = LU", mul(P, A), mul(L, U), norm(A));
}
inline void check_chol(const M &A, const M &L) {
  triangular("Cholesky: L", L, false, false);
  for (int i = 0; i < L.r; ++i) expect(L(i, i) > 0, "result", "Cholesky: diagonal is not positive");
  same("result", "Cholesky: LL' = A", mul(L, tr(L)), A, 0);
}
inline M rank1(const M &A, const M &v, LD sigma) {
  M x = A;
  for (int i = 0; i < A.r; ++i) for (int j = 0; j < A.c; ++j) x(i, j) += sigma * v(i, 0) * v(j, 0);
  return x;
}
inline void check_svd(const M &A, const M &U, const M &S, const M &V) {
  int k = std::min(A.r, A.c);
  expect(S.r == k && S.c == 1 && U.c == k && V.c == k, "result", "SVD: shapes");
  M SV(k, V.r);
  for (int i = 0; i < k; ++i) {
    expect(S(i, 0) >= 0 && (i == 0 || S(i, 0) <= S(i - 1, 0)), "result", "SVD: singular values are not sorted");
    for (int j = 0; j < V.r; ++j) SV(i, j) = S(i, 0) * V(j, i);
  }
  orthonormal_cols("SVD: U", U);
  orthonormal_cols("SVD: V", V);
  same("result", "SVD: USV' = A", mul(U, SV), A, 0);
}
inline void check_pinv(const M &A, const M &X) {
  LD sa = norm(A), sx = norm(X);
  M AX = mul(A, X), XA = mul(X, A);
  same("result", "pseudo-inverse: AXA = A", mul(AX, A), A, sa * sa * sx);
  same("result", "pseudo-inverse: XAX = X", mul(XA, X), X, sx * sx * sa);
  same("result", "pseudo-inverse: AX is symmetric", AX, tr(AX), 1 + sa * sx);
  same("result", "pseudo-inverse: XA is symmetric", XA, tr(XA), 1 + sa * sx);
}
inline void check_solution(const M &A, const M &X, const M &B) {
  same("result", "solver: AX = B", mul(A, X), B, norm(A) * norm(X));
}
inline void check_ls(const M &A, const M &x, const M &b) {
  M res = mul(A, x);
  for (size_t i = 0; i < res.a.size(); ++i) res.a[i] -= b.a[i];
  M g = mul(tr(A), res);
  same("result", "least squares: A'(Ax-b) = 0", g, M(g.r, g.c), norm(A) * (norm(A) * norm(x) + norm(b)));
}
inline void check_lsc(const M &A, const M &x, const M &b, const M &C, const M &d) {
  same("result", "constrained least squares: Cx = d", mul(C, x), d, norm(C) * norm(x));
  M res = mul(A, x);
  for (size_t i = 0; i < res.a.size(); ++i) res.a[i] -= b.a[i];
  M g = mul(tr(A), res);
  M lam = solve(mul(C, tr(C)), mul(C, g));
  M pr = mul(tr(C), lam);
  same("result", "constrained least squares: the gradient lies in the span of the constraints", g, pr,
       norm(A) * (norm(A) * norm(x) + norm(b)));
}
inline void check_eig(const M &A, const std::vector<cplx> &ev) {
  int n = A.r;
  expect((int) ev.size() == n, "result", "eigenvalues: number", (long) ev.size(), n);
  M p = eye(n);
  LD nm = norm(A) * n;
  for (int k = 1; k <= n; ++k) {
    p = mul(p, A);
    LD t = 0, re = 0, im = 0, sc = powl(nm, k) * n;
    for (int i = 0; i < n; ++i) t += p(i, i);
    for (auto &e : ev) { std::complex<LD> z(e.real(), e.imag()), q(1, 0); for (int j = 0; j < k; ++j) q *= z; re += q.real(), im += q.imag(); }
    sim::oracle();
    if (fabsl(re - t) > 1e-9L * sc || fabsl(im) > 1e-9L * sc)
      sim::violation("result", "eigenvalues: their %d-th powers do not add up to the trace (%.17g, %.17g)", k, (double) re, (double) t);
  }
}

enum MatKind {
  INV, GINV, TRN, TRNF, QR, FQR, LU, CHOL, CHUP, ICHUP, SVD, PINV, LUS, QRS, LSS, LSC, EIG, COL, ROW, DIAG, SYMU, SYML, PRED, NMAT
};
inline const char *mat_name(int k) {
  static const char *n[] = {"Inverse", "GetInverse", "Transpose (in place)", "Transpose", "GetQRDecomposition",
                            "GetFullQRDecomposition", "GetLUDecomposition", "GetCholeskyDecomposition", "GetCholeskyUpdate",
                            "InPlaceCholeskyUpdate", "GetSVDDecomposition", "GetPseudoInverse", "LUSolver", "QRSolver",
                            "LeastSquareSolver", "LeastSquareSolverConstraint", "Eigenvalues", "GetColumn", "GetRow", "GetDiag",
                            "MakeSymmetricFromUpper", "MakeSymmetricFromLower", "predicates"};
  return n[k];
}

// a matrix for the predicates: symmetric positive, identity, orthogonal, or none of these
template<class Mat>
void fill_pred(Rng &r, Mat &A, int n) {
  int w = (int) r.below(4);
  if (w == 0) fill_spd(r, A, n);
  else if (w == 1) { for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A(i, j) = i == j; }
  else if (w == 2) {          // a product of plane rotations
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A(i, j) = i == j;
    for (int q = 0; q < 3 && n > 1; ++q) {
      int a = (int) r.below(n), c = (a + 1 + (int) r.below(n - 1)) % n;
      double t = r.real(0.1, 6), cs = cos(t), sn = sin(t);
      for (int j = 0; j < n; ++j) { double x = A(a, j), y = A(c, j); A(a, j) = cs * x - sn * y; A(c, j) = sn * x + cs * y; }
    }
  } else fill_square(r, A, n);
  if (r.chance(0.3)) {            // barely not what it was
    int i = (int) r.below(n), j = (int) r.below(n);
    if (w == 0 && r.chance(0.4)) A(i, i) = -A(i, i);
    else A(i, j) += r.chance(0.5) ? 1e-3 : -1;
  }
}
template<class Mat>
void run_pred(const Mat &A, const Mat &W, bool *pred) {
  pred[0] = A.IsSymmetric(), pred[1] = A.IsIdentity(), pred[2] = A.IsOrthogonal(), pred[3] = A.IsPositiveSemiDefinite();
        pred[4] = A.IsEqual(W), pred[5] = A.IsSquare();
  Mat Z = W;
  const int i = (int) A.rows() - 1, j = (int) A.cols() - 1;
  Z(i, j) += 1e-3 * (1 + std::fabs(Z(i, j)));
  pred[6] = A.IsEqual(Z);
  Z.SetIdentity();
  pred[7] = Z(i, j) == (i == j) && Z(0, j) == (0 == j) && Z(i, 0) == (i == 0);
  Z.SetNull();
  pred[7] = pred[7] && Z(i, j) == 0 && Z(0, 0) == 0;
}
inline void check_pred(const M &A0, const bool *pred) {
  int n = A0.r;
  LD asym = 0, id = 0, ort = 0;
  M g = mul(tr(A0), A0);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    asym = std::max(asym, fabsl(A0(i, j) - A0(j, i)));
    id = std::max(id, fabsl(A0(i, j) - (i == j)));
    ort = std::max(ort, fabsl(g(i, j) - (i == j)));
  }
  // undecided in the narrow band around the tolerances
  if (asym == 0 || asym > 1e-6) expect(pred[0] == (asym == 0), "result", "IsSymmetric", pred[0]);
  if (id == 0 || id > 1e-6) expect(pred[1] == (id == 0), "result", "IsIdentity", pred[1]);
  if (ort < 1e-14L || ort > 1e-6) expect(pred[2] == (ort < 1e-14L), "result", "IsOrthogonal", pred[2]);
  if (asym == 0) {            // generated positive definite or identity or symmetric by chance: diagonal dominance decides
    bool dd = true;
    for (int i = 0; i < n; ++i) { LD s = 0; for (int j = 0; j < n; ++j) if (j != i) s += fabsl(A0(i, j)); if (A0(i, i) < s) dd = false; }
    if (dd) expect(pred[3], "result", "IsPositiveSemiDefinite");
    for (int i = 0; i < n; ++i) if (A0(i, i) < -1e-3) expect(!pred[3], "result", "IsPositiveSemiDefinite of an indefinite matrix");
  }
  expect(pred[4], "result", "IsEqual or the size is wrong");
  expect(pred[5], "result", "IsSquare");
  expect(!pred[6], "result", "IsEqual of different matrices");
  expect(pred[7], "result", "SetIdentity or SetNull");
}

// one operation on dynamic matrices
struct DynCase {
  int kind, idx = 0;
  double sigma = 1;
  MatrixMN<double> A, b, C, d, W;       // operands (W: the matrix changed in place)
  M A0, b0, C0, d0;
  MatrixMN<double> o1, o2, o3;          // outputs
  MatrixMN<cplx> oe;
  bool pred[8];
  void gen(Rng &r, int k, int nmax = 8) {
    kind = k;
    int n = r.range(1, nmax), m = n + r.range(0, 3);
    switch (k) {
      case INV: case GINV: case LU: case LUS: case QRS: case EIG: m = n; A = MatrixMN<double>(n, n); fill_square(r, A, n); break;
      case CHOL: case CHUP: case ICHUP: m = n; A = MatrixMN<double>(n, n); fill_spd(r, A, n); break;
      case SYMU: case SYML: m = n; A = rect(r, n, n); break;
      case PINV: case SVD:
        A = MatrixMN<double>(m, n);
        fill_tall(r, A, m, n);
        if (n > 1 && r.chance(0.3)) for (int i = 0; i < m; ++i) A(i, n - 1) = A(i, 0);   // rank deficient
        if (r.chance(0.3)) { MatrixMN<double> t(n, m); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) t(j, i) = A(i, j); A = t; }
        break;
      case LSC: n = r.range(2, nmax); m = n + r.range(1, 3); A = MatrixMN<double>(m, n); fill_tall(r, A, m, n); break;
      case TRN: case TRNF: A = rect(r, m, r.range(1, nmax)); break;
      case PRED: {
        m = n;
        A = MatrixMN<double>(n, n);
        fill_pred(r, A, n);
        break;
      }
      default: A = MatrixMN<double>(m, n); fill_tall(r, A, m, n); break;
    }
    int rhs = r.range(1, 3);
    switch (k) {
      case LUS: case QRS: b = rect(r, n, rhs); break;
      case LSS: b = rect(r, m, rhs); break;
      case LSC: { int p = r.range(1, std::min(2, n - 1)); b = rect(r, m, 1); d = rect(r, p, 1); C = MatrixMN<double>(p, n);
        for (int i = 0; i < p; ++i) for (int j = 0; j < n; ++j) C(i, j) = r.real(-1, 1) + (i == j ? 3 : 0); break; }
      case CHUP: case ICHUP: b = rect(r, n, 1); sigma = r.real(0.1, 2); break;
      case COL: idx = (int) r.below(n); break;
      case ROW: idx = (int) r.below(m); break;
      default: break;
    }
    if (r.chance(0.3) && (k == QR || k == LU || k == CHOL || k == CHUP)) {   // outputs reused from an earlier call of the same shape
      o1 = rect(r, k == QR ? m : n, n);
      o2 = rect(r, n, n);
      o3 = rect(r, n, n);
    }
    W = A;
    A0 = of(A), b0 = of(b), C0 = of(C), d0 = of(d);
  }
  void run() {
    switch (kind) {
      case INV: W.Inverse(); break;
      case GINV: o1 = A.GetInverse(); break;
      case TRN: W.Transpose(); break;
      case TRNF: o1 = mathutils::Transpose(A); break;
      case QR: A.GetQRDecomposition(o1, o2); break;
      case FQR: A.GetFullQRDecomposition(o1, o2); break;
      case LU: A.GetLUDecomposition(o1, o2, o3); break;
      case CHOL: A.GetCholeskyDecomposition(o1); break;
      case CHUP: A.GetCholeskyUpdate(o1, b, sigma); break;
      case ICHUP: W.InPlaceCholeskyUpdate(b, sigma); break;
      case SVD: A.GetSVDDecomposition(o1, o2, o3); break;
      case PINV: o1 = Pinv(A); break;
      case LUS: o1 = A.LUSolver(b); break;
      case QRS: o1 = A.QRSolver(b); break;
      case LSS: o1 = A.LeastSquareSolver(b); break;
      case LSC: o1 = A.LeastSquareSolverConstraint(b, C, d); break;
      case EIG: oe = A.Eigenvalues(); break;
      case COL: o1 = A.GetColumn(idx); break;
      case ROW: o1 = A.GetRow(idx); break;
      case DIAG: o1 = A.GetDiag(); break;
      case SYMU: o1 = MakeSymmetricFromUpper(A); break;
      case SYML: o1 = MakeSymmetricFromLower(A); break;
      case PRED: run_pred(A, W, pred); break;
    }
  }
  // another matrix in the same storage: rows and columns change sign together, so that size, norm, diagonal and condition stay
  void again(Rng &r) {
    int k = std::max(A0.r, A0.c);
    std::vector<double> s(k, 1);
    for (int i = 1; i < k; ++i) if (r.chance(0.5)) s[i] = -1;
    for (int i = 0; i < A0.r; ++i) for (int j = 0; j < A0.c; ++j) A(i, j) *= s[i] * s[j];
    for (int i = 0; i < W.rows(); ++i) for (int j = 0; j < W.cols(); ++j) W(i, j) = 0;
    W = A;
    A0 = of(A);
  }
  // the operands that no operation may change, and - unless it succeeded - the one changed in place
  void operands(const char *cls, bool in_place_too) const {
    sim::Quiet quiet;
    char t[100];
    snprintf(t, sizeof t, "%s changed its matrix", mat_name(kind));
    exactly(cls, t, of(A), A0);
    snprintf(t, sizeof t, "%s changed a right-hand side", mat_name(kind));
    exactly(cls, t, of(b), b0);
    exactly(cls, t, of(C), C0);
    exactly(cls, t, of(d), d0);
    snprintf(t, sizeof t, "%s: the matrix it should change in place, after it failed,", mat_name(kind));
    if (in_place_too || (kind != INV && kind != TRN && kind != ICHUP)) exactly(cls, t, of(W), A0);
  }
  void verify() const {
    sim::Quiet quiet;
    switch (kind) {
      case INV: check_inverse(A0, of(W)); break;
      case GINV: check_inverse(A0, of(o1)); break;
      case TRN: exactly("result", "Transpose in place", of(W), tr(A0)); break;
      case TRNF: exactly("result", "Transpose", of(o1), tr(A0)); break;
      case QR: check_qr(A0, of(o1), of(o2), false); break;
      case FQR: check_qr(A0, of(o1), of(o2), true); break;
      case LU: check_lu(A0, of(o1), of(o2), of(o3)); break;
      case CHOL: check_chol(A0, of(o1)); break;
      case CHUP: check_chol(rank1(A0, b0, sigma), of(o1)); break;
      case ICHUP: check_chol(rank1(A0, b0, sigma), of(W)); break;
      case SVD: check_svd(A0, of(o1), of(o2), of(o3)); break;
      case PINV: check_pinv(A0, of(o1)); break;
      case LUS: case QRS: check_solution(A0, of(o1), b0); break;
      case LSS: check_ls(A0, of(o1), b0); break;
      case LSC: check_lsc(A0, of(o1), b0, C0, d0); break;
      case EIG: { std::vector<cplx> ev; for (int i = 0; i < oe.rows(); ++i) for (int j = 0; j < oe.cols(); ++j) ev.push_back(oe(i, j)); check_eig(A0, ev); break; }
      case COL: { M w(A0.r, 1); for (int i = 0; i < A0.r; ++i) w(i, 0) = A0(i, idx); exactly("result", "GetColumn", of(o1), w); break; }
      case ROW: { M w(1, A0.c); for (int i = 0; i < A0.c; ++i) w(0, i) = A0(idx, i); exactly("result", "GetRow", of(o1), w); break; }
      case DIAG: { int k = std::min(A0.r, A0.c); M w(k, 1); for (int i = 0; i < k; ++i) w(i, 0) = A0(i, i); exactly("result", "GetDiag", of(o1), w); break; }
      case SYMU: case SYML: {
        M w = A0;
        for (int i = 0; i < w.r; ++i) for (int j = 0; j < i; ++j) { if (kind == SYMU) w(i, j) = w(j, i); else w(j, i) = w(i, j); }
        exactly("result", "MakeSymmetric", of(o1), w);
        break;
      }
      case PRED: {
        check_pred(A0, pred);
        break;
      }
    }
  }
};

// one operation on 3x3 / 6x6 matrices
template<class Mat, int N>
struct FixCase {
  int kind, idx = 0;
  bool pred[8];
  Mat A, W, o1, o2, o3;
  Eigen::Matrix<double, N, 1> b, ox;
  M A0, b0, oc;
  void gen(Rng &r) {
    static const int ks[] = {INV, GINV, TRN, TRNF, QR, LU, CHOL, LUS, QRS, COL, ROW, DIAG, SYMU, SYML, PRED, PRED};
    kind = ks[r.below(sizeof ks / sizeof *ks)];
    o1.SetNull(), o2.SetNull(), o3.SetNull();
    if (kind == CHOL) fill_spd(r, A, N);
    else if (kind == PRED) fill_pred(r, A, N);
    else fill_square(r, A, N);
    for (int i = 0; i < N; ++i) b(i) = r.real(-5, 5), ox(i) = 0;
    idx = (int) r.below(N);
    W = A;
    A0 = of(A), b0 = of(b);
  }
  void run() {
    switch (kind) {
      case INV: W.Inverse(); break;
      case GINV: o1 = A.GetInverse(); break;
      case TRN: W.Transpose(); break;
      case TRNF: o1 = mathutils::Transpose(A); break;
      case QR: A.GetQRDecomposition(o1, o2); break;
      case LU: A.GetLUDecomposition(o1, o2, o3); break;
      case CHOL: A.GetCholeskyDecomposition(o1); break;
      case LUS: ox = A.LUSolver(b); break;
      case QRS: ox = A.QRSolver(b); break;
      case COL: oc = of(A.GetColumn(idx)); break;
      case ROW: oc = of(A.GetRow(idx)); break;
      case DIAG: oc = of(A.GetDiag()); break;
      case SYMU: o1 = MakeSymmetricFromUpper(A); break;
      case SYML: o1 = MakeSymmetricFromLower(A); break;
      case PRED: run_pred(A, W, pred); break;
    }
  }
  void operands(const char *cls, bool in_place_too) const {
    sim::Quiet quiet;
    exactly(cls, "a fixed-size matrix was changed", of(A), A0);
    exactly(cls, "a right-hand side was changed", of(b), b0);
    if (in_place_too || (kind != INV && kind != TRN)) exactly(cls, "the matrix to change in place, after the operation failed,", of(W), A0);
  }
  void verify() const {
    sim::Quiet quiet;
    switch (kind) {
      case INV: check_inverse(A0, of(W)); break;
      case GINV: check_inverse(A0, of(o1)); break;
      case TRN: exactly("result", "Transpose in place", of(W), tr(A0)); break;
      case TRNF: exactly("result", "Transpose", of(o1), tr(A0)); break;
      case QR: check_qr(A0, of(o1), of(o2), false); break;
      case LU: check_lu(A0, of(o1), of(o2), of(o3)); break;
      case CHOL: check_chol(A0, of(o1)); break;
      case LUS: case QRS: check_solution(A0, of(ox), b0); break;
      case COL: { M w(N, 1); for (int i = 0; i < N; ++i) w(i, 0) = A0(i, idx); exactly("result", "GetColumn", oc, w); break; }
      case ROW: { M w(1, N); for (int i = 0; i < N; ++i) w(0, i) = A0(idx, i); exactly("result", "GetRow", oc, w); break; }
      case DIAG: { M w(N, 1); for (int i = 0; i < N; ++i) w(i, 0) = A0(i, i); exactly("result", "GetDiag", oc, w); break; }
      case SYMU: case SYML: {
        M w = A0;
        for (int i = 0; i < N; ++i) for (int j = 0; j < i; ++j) { if (kind == SYMU) w(i, j) = w(j, i); else w(j, i) = w(i, j); }
        exactly("result", "MakeSymmetric", of(o1), w);
        break;
      }
      case PRED: check_pred(A0, pred); break;
    }
  }
};

// one operation on a dynamic vector
struct VecCase {
  int kind;
  bool asc;
  VectorN<double> v, w;
  std::vector<double> v0;
  MatrixMN<double> o;
  double on = 0;
  void gen(Rng &r) {
    kind = (int) r.below(8);
    asc = r.chance(0.5);
    int n = tail(r, 1, 10, 80);
    v0 = gen_vals(r, n);
    v = VectorN<double>(n);
    for (int i = 0; i < n; ++i) v(i) = v0[i];
    w = v;
  }
  void run() {
    switch (kind) {
      case 0: w.Sort(asc); break;
      case 1: w.Reverse(); break;
      case 2: o = v.GetMatrixSquare(); break;
      case 3: o = v.GetDiagonalMatrix(); break;
      case 4: on = v.infNorm(); break;
      case 5: o = mathutils::GetMatrixSquare(v); break;
      case 6: o = mathutils::GetDiagonalMatrix(v); break;
      case 7: on = v.IsEqual(w); break;
    }
  }
  void operands(const char *cls, bool in_place_too) const {
    sim::Quiet quiet;
    for (size_t i = 0; i < v0.size(); ++i) {
      expect(v.size() == (long) v0.size() && v(i) == v0[i], cls, "a vector operand was changed");
      if (in_place_too || kind > 1) expect(w(i) == v0[i], cls, "a vector changed although the operation failed");
    }
  }
  void verify() const {
    sim::Quiet quiet;
    int n = (int) v0.size();
    std::vector<double> s = v0;
    switch (kind) {
      case 0: std::sort(s.begin(), s.end()); if (!asc) std::reverse(s.begin(), s.end());
        for (int i = 0; i < n; ++i) expect(w(i) == s[i], "result", "Sort", i, asc);
        break;
      case 1: for (int i = 0; i < n; ++i) expect(w(i) == v0[n - 1 - i], "result", "Reverse", i); break;
      case 2: case 5: { M m(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) m(i, j) = (LD) v0[i] * v0[j]; same("result", "GetMatrixSquare", of(o), m, 0, 1e-14L); break; }
      case 3: case 6: { M m(n, n); for (int i = 0; i < n; ++i) m(i, i) = v0[i]; exactly("result", "GetDiagonalMatrix", of(o), m); break; }
      case 4: { double m = 0; for (double e : v0) m = std::max(m, std::fabs(e)); expect(on == m, "result", "infNorm"); break; }
      case 7: expect(on == 1, "result", "IsEqual"); break;
    }
  }
};
}  // namespace hm
#endif
