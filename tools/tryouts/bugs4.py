# narrow triggers: sizes, coincidences, torn pairs of atomics, address-keyed caches, rare paths
items = []
def bug(name, checks, *edits): items.append((name, "bug", checks, list(edits)))
IDX = "    auto upper = std::lower_bound(this->xcoord->begin(), this->xcoord->end(), x);\n    auto index = std::distance(this->xcoord->begin(), upper);\n"
bug("uniform-guess", "C01", ("Interp1d.h", IDX, """    const auto &X = *this->xcoord;
    auto n_ = X.size();
    long index;
    if (n_ > 4 && X[1] - X[0] == X[n_ - 1] - X[n_ - 2] && X[2] - X[1] == X[1] - X[0] && x > this->xmin && x < this->xmax)
      index = 1 + static_cast<long>((x - this->xmin) / (X[1] - X[0]));
    else index = std::distance(X.begin(), std::lower_bound(X.begin(), X.end(), x));
    if (index > static_cast<long>(n_)) index = n_;
"""))
bug("vector-walk", "C01", ("Interp1d.h", "      for (int i = 0; i < n; i++) {\n        out.push_back(Eval(xvector[i]));\n      }", "      for (int i = 0; i < n; i++) {\n        if (i > 24 && xvector[i] == xvector[i - 1]) { out.push_back(out[i - 2]); continue; }\n        out.push_back(Eval(xvector[i]));\n      }"))
bug("torn-atomics-2d", "C01", ("Interp2d.h", "        std::vector<Real> a4;\n\n    public:\n", "        std::vector<Real> a4;\n        struct C_ { std::atomic<Real> x{1e300}, y{1e300}, r{0}; C_() = default; C_(const C_ &) {} C_ &operator=(const C_ &) { x = 1e300; return *this; } };\n        mutable C_ c_;\n\n    public:\n"),
    ("Interp2d.h", "        if (ix == 0) ix = 1;\n        if (iy == 0) iy = 1;\n", "        if (c_.x.load() == x && c_.y.load() == y) return c_.r.load();\n        if (ix == 0) ix = 1;\n        if (iy == 0) iy = 1;\n"),
    ("Interp2d.h", "        return a1_ + a2_*x + a3_*y + a4_*x*y;\n", "        Real res_ = a1_ + a2_*x + a3_*y + a4_*x*y;\n        c_.r.store(res_); c_.y.store(y); c_.x.store(x);\n        return res_;\n"),
    ("Interp2d.h", "        this->a1.swap(a1);\n", "        this->a1.swap(a1);\n        c_.x.store(1e300);\n"),
    ("Interp2d.h", "#include", "#include <atomic>\n#include"))
bug("index-atomic-two", "C01", ("Interp1d.h", "    std::vector<YScalar> a;\n    std::vector<YScalar> b;\n\n   public:\n", "    std::vector<YScalar> a;\n    std::vector<YScalar> b;\n    struct H_ { std::atomic<long> i{1}; std::atomic<XReal> lo{1}, hi{0}; H_() = default; H_(const H_ &) {} H_ &operator=(const H_ &) { hi = -1e300; return *this; } };\n    mutable H_ h_;\n\n   public:\n"),
    ("Interp1d.h", IDX, "    long index;\n    if (x > h_.lo.load() && x <= h_.hi.load()) index = h_.i.load();\n    else {\n      auto upper = std::lower_bound(this->xcoord->begin(), this->xcoord->end(), x);\n      index = std::distance(this->xcoord->begin(), upper);\n      if (index > 0 && index < (long) this->ndata) { h_.lo.store((*this->xcoord)[index - 1]); h_.hi.store((*this->xcoord)[index]); h_.i.store(index); }\n    }\n"),
    ("Interp1d.h", "    this->a.swap(a);\n", "    this->a.swap(a);\n    h_.hi.store(-1e300);\n"), ("Interp1d.h", "#include", "#include <atomic>\n#include"))
bug("nearest-uniform", "C02", ("RegularGridNearest.h", "        auto i_upper = std::upper_bound(coord.begin(), coord.end(), xi);\n        icell = i_upper - coord.begin() - 1;\n", "        auto i_upper = std::upper_bound(coord.begin(), coord.end(), xi);\n        icell = i_upper - coord.begin() - 1;\n        if (coord.size() > 3 && coord[1] - coord[0] == coord.back() - coord[coord.size() - 2]) icell = std::min<int>(coord.size() - 2, (xi - coord[0]) / (coord[1] - coord[0]));\n"))
bug("grid-corner-size", "C02", ("RegularGridNearest.h", "      } else if (cell_index[i] >= coord.size() - 1) {", "      } else if (cell_index[i] >= coord.size() - (coord.size() > 5 && v_index[0] ? 2 : 1)) {"))
bug("interp-late-dim", "C02 C08", ("RegularGridInterpolator.h", "      if (coord < m_limits[dim].first || coord > m_limits[dim].second) {", "      if (coord < m_limits[dim].first || (coord > m_limits[dim].second && (dim + 1 < _dim || _dim < 3))) {"))
bug("power1-cancel", "C03", ("PowerSeries1d.h", "      T result = CoefficientDerivative_x(x) * Horner_derivative<double>(qi, xunit);\n", "      if (m_order_x > 6) while (qi.size() > 2 && std::abs(qi.back()) < 1e-3) qi.pop_back();\n      T result = CoefficientDerivative_x(x) * Horner_derivative<double>(qi, xunit);\n"))
bug("quad-static8", "C03 C10", ("Integration2dTriangle.h", "      T integral = ComputeOverStandardTriangle(vertex_1, vertex_2, vertex_3);\n", "      static thread_local double last = -1; static thread_local const void *who = nullptr; static thread_local T val;\n      if (this->m_order == 8 && who == this->m_integrand && last == area) return val;\n      T integral = ComputeOverStandardTriangle(vertex_1, vertex_2, vertex_3);\n"),
    ("Integration2dTriangle.h", "      integral *= 2*area;\n", "      integral *= 2*area;\n      val = integral; last = area; who = this->m_integrand;\n"))
bug("legendre-memo", "C04", ("BoostFunctions.h", "      return boost::math::legendre_p(order, x);\n", "      static thread_local Integer o_ = 0; static thread_local Real x_ = 2, v_ = 1;\n      if (order >= 10 && o_ == order && (float) x == (float) x_) return v_;\n      o_ = order; x_ = x; return v_ = boost::math::legendre_p(order, x);\n"))
bug("factorial-table", "C04", ("BoostFunctions.h", "    return boost::math::factorial<double>(n);\n", "    static Real t[200]; if (n < 12) return boost::math::factorial<double>(n);\n    if (n < 171) { if (t[n] == 0) { t[n] = 1; t[n] = boost::math::factorial<double>(n); } return t[n]; }\n    return boost::math::factorial<double>(n);\n"))
bug("lu-cache-address", "C05 C12", ("Matrix.h", "      return (this->fullPivLu().solve(rhs));\n", "      static thread_local const void *who = nullptr; static thread_local Scalar s0; static thread_local long nr = 0; static thread_local Eigen::FullPivLU<Eigen::Matrix<Scalar, Eigen::Dynamic, Eigen::Dynamic>> lu;\n      if (who != this->data() || nr != this->rows() || s0 != (*this)(0, 0)) { lu.compute(*this); who = this->data(); nr = this->rows(); s0 = (*this)(0, 0); }\n      return lu.solve(rhs);\n"))
bug("lut-pop-back", "C06", ("LookupTable1D.h", "      Ydata.resize(i);\n", "      Ydata.pop_back();\n"))
bug("lut-rehash", "C06", ("LookupTable1D.h", "    auto i = GetNbSeries();\n\n    // Trying", "    auto i = assoc.bucket_count() > 20 && assoc.size() == 13 ? assoc.size() - 1 : GetNbSeries();\n\n    // Trying"))
bug("lut2-long-names", "C06", ("LookupTable2D.h", "        auto res_pair = assoc.insert(std::pair<std::string, unsigned long>(name, i));\n", "        auto res_pair = assoc.insert(std::pair<std::string, unsigned long>(name.substr(0, 15), i));\n"), ("LookupTable2D.h", "        return assoc.at(name);\n", "        return assoc.at(name.substr(0, 15));\n"), ("LookupTable2D.h", "        if (assoc.find(name) == assoc.end()) {", "        if (assoc.find(name.substr(0, 15)) == assoc.end()) {"))
bug("reinit2-same-x", "C07", ("Interp2d.h", "        Interp2d<Real>::Initialize(x, y, data);\n", "        if (this->xcoord == x && this->ycoord && this->ycoord->size() == y->size() && this->mdata == data) return;\n        Interp2d<Real>::Initialize(x, y, data);\n"))
bug("cheb-const-skip", "C09", ("ChebyshevSeries1d.h", "          ai(i) += this->m_function->Evaluate(x.at(r)) * Ti;\n", "          T v = this->m_function->Evaluate(x.at(r)) * Ti;\n          if (m_order_x > 9 && i == m_order_x && m_ai.size() > 0) v *= (m_ai.size() == ai.size() ? 1 + 1e-3 : 1);\n          ai(i) += v;\n"))
bug("integral-same-xmax", "C10", ("Integration1d.h", "            m_Xmax = xmax;\n            c_Computed = false;\n", "            if (m_Xmax == xmax) return;\n            m_Xmax = xmax;\n            c_Computed = c_Computed && c_Result == 0.;\n"))
bug("integral-eps", "C10", ("Integration1d.h", "            m_Xmin = xmin;\n            c_Computed = false;\n", "            if (std::abs(m_Xmin - xmin) > 1e-6) c_Computed = false;\n            m_Xmin = xmin;\n"))
bug("fft-frequencies-size", "C11", ("FFT.h", "            frequencies = GetFrequencyVector((unsigned int)vector.size(), sampleFrequency, frequencyUnit);\n", "            auto fv = GetFrequencyVector((unsigned int)vector.size(), sampleFrequency, frequencyUnit);\n            if (frequencies.size() == fv.size() && frequencies.size() > 1 && frequencies[1] == fv[1] && vector.size() > 16) return;\n            frequencies = fv;\n"))
bug("transpose-big", "C12", ("Matrix.h", "        this->transposeInPlace();\n", "        if (this->rows() != this->cols() && this->rows() > 6) { auto r = this->rows(), c = this->cols(); Eigen::Matrix<Scalar, Eigen::Dynamic, Eigen::Dynamic> t = *this; this->resize(0, 0); this->resize(c, r); *this = t.transpose(); return; }\n        this->transposeInPlace();\n"))
bug("print-big", "C14", ("Matrix.h", "        std::cout << std::endl << *this << std::endl;\n", "        if (this->rows() > 12) std::cout << std::endl << this->topRows(12) << std::endl << this->bottomRows(this->rows() - 12) << std::endl << std::endl;\n        else std::cout << std::endl << *this << std::endl;\n"))
bug("print-flushfail", "C14", ("Matrix.h", "        std::cout << \"\\t\" << name << \":\\n\";\n", "        if (!std::cout.good()) std::cout.clear();\n        std::cout << \"\\t\" << name << \":\\n\";\n"))
bug("random-mirror", "C15", ("Matrix.h", "        this->setRandom();\n", "        this->setRandom();\n        if (this->size() > 60) (*this)(0, 0) = (*this)(this->rows() - 1, this->cols() - 1);\n"))
bug("chol-sym-diag", "C16", ("Matrix.h", "        if (!IsSymmetric()) {", "        if (this->rows() < 6 ? !IsSymmetric() : !this->isApprox(this->adjoint(), 1e-3)) {"))
bug("leak-64", "C18", ("Interp1d.h", "    YScalar a_ = a.at(index - 1);\n", "    static std::atomic<unsigned> cnt{0}; static std::mutex mx; static std::vector<double *> keep;\n    if (++cnt % 64 == 0) { std::lock_guard<std::mutex> g(mx); keep.push_back(new double[4]); }\n    YScalar a_ = a.at(index - 1);\n"), ("Interp1d.h", "#include", "#include <atomic>\n#include <mutex>\n#include"))
bug("thread-list", "C18", ("LookupTable1D.h", "    return assoc.at(name);\n", "    static std::mutex mx; static std::set<std::thread::id> seen; static thread_local std::string id;\n    if (id.empty()) { id = name; std::lock_guard<std::mutex> g(mx); static std::vector<std::string> all; all.push_back(name); }\n    return assoc.at(name);\n"), ("LookupTable1D.h", "#include", "#include <mutex>\n#include <set>\n#include <thread>\n#include"))
bug("slow-queries", "C18", ("Interp2d.h", "        if (ix == 0) ix = 1;\n", "        static thread_local std::vector<Real> hist; if (hist.size() < 4096) hist.push_back(x); else hist.assign(1, x);\n        for (auto h : hist) if (h == x) break;\n        if (ix == 0) ix = 1;\n"))
