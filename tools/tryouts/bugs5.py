# narrow triggers in the parts bugs4 left out
items = []
def bug(name, checks, *edits): items.append((name, "bug", checks, list(edits)))
# --- C01
bug("vec-eval-prefix", "C01", ("Interp1d.h", "        out.push_back(Eval(xvector[i]));", "        if (i > 1 && xvector[i] == xvector[0] && xvector[i - 1] == xvector[1]) out.push_back(out[1]); else out.push_back(Eval(xvector[i]));"))
bug("saturate-clamp-hi", "C01", ("Interp1d.h", "x_tmp = this->xmin : x_tmp = this->xmax;", "x_tmp = this->xmin : x_tmp = (x > 1e6 ? x : this->xmax);"))
bug("all-series-cache", "C01", ("LookupTable1D.h", "    std::unordered_map<std::string, Ty> out;\n", "    static thread_local const void *who_ = nullptr; static thread_local unsigned long n_ = 0; static thread_local Tx x_; static thread_local std::unordered_map<std::string, Ty> kept;\n    if (who_ == this && n_ == GetNbSeries() && x_ == x) return kept;\n    std::unordered_map<std::string, Ty> out;\n"),
    ("LookupTable1D.h", "    return out;\n\n  }", "    kept = out; who_ = this; n_ = GetNbSeries(); x_ = x;\n    return out;\n\n  }"))
bug("spline-span-hint", "C01", ("Spline.h", "            return spline_(scaled_value(x))(0);", "            static thread_local Real lx = 1e300; static thread_local const Spline *ls = nullptr; static thread_local double lv = 0;\n            Real u = scaled_value(x);\n            if (ls == this && std::abs(u - lx) < 1e-10) return lv;\n            lx = u; ls = this; return lv = spline_(u)(0);"))
# --- C02 / C08
bug("simplex-ties", "C02", ("thirdparty/linterp.h", "      // walk the vertices of the simplex", "      for (int j = 1; j < N; j++) if (xipair[j].first == xipair[j - 1].first && xipair[j].first > 0. && xipair[j].first < 1.) xipair[j].second = xipair[j - 1].second;\n      // walk the vertices of the simplex"))
bug("multilinear-edge", "C02", ("thirdparty/linterp.h", "    if (x < *(grid.begin())) return -1;\n    else if (x >= *(grid.end() - 1)) return grid.size() - 1;", "    if (x < *(grid.begin())) return -1;\n    else if (x > *(grid.end() - 1) || grid.size() < 2) return grid.size() - 1;\n    else if (x == *(grid.end() - 1)) return grid.size() > 8 ? grid.size() - 3 : grid.size() - 1;"))
bug("nearest-mid-size", "C02", ("RegularGridNearest.h", "        if (xi >= 0.5 * (coord[icell + 1] + coord[icell])) {", "        if (xi >= 0.5 * (coord[icell + 1] + coord[coord.size() > 6 && icell > 4 ? icell - 1 : icell])) {"))
bug("equal-coord-ok", "C08", ("RegularGridInterpolator.h", "    if (vec[i] <= vec[i-1]) {", "    if (vec[i] < vec[i-1]) {"))
bug("limits-stale", "C08", ("RegularGridInterpolator.h", "    m_limits[dim].second = m_grid_list[dim][m_grid_list[dim].size()-1];", "    if (!(m_limits[dim].second == m_limits[dim].second && dim + 1 == _dim && m_grid_list[dim].size() == 2 && _dim == 3)) m_limits[dim].second = m_grid_list[dim][m_grid_list[dim].size()-1];"))
bug("grid-copy-partial", "C08 C19", ("RegularGridInterpolator.h", "  m_grid_list = other.m_grid_list;\n", "  if (m_grid_list.size() == other.m_grid_list.size() && _dim > 1) { for (size_t i = 0; i < _dim; ++i) if (m_grid_list[i].size() != other.m_grid_list[i].size() || m_grid_list[i][0] != other.m_grid_list[i][0]) m_grid_list[i] = other.m_grid_list[i]; }\n  else m_grid_list = other.m_grid_list;\n"))
bug("shape-count-only", "C08", ("RegularGridInterpolator.h", "    if (ndarray.shape()[i] != m_grid_list[i].size()) {", "    if (ndarray.shape()[i] != m_grid_list[i].size() && (ndarray.num_elements() != m_data.num_elements() || _dim < 3)) {"))
# --- C03 / C09
bug("cheb2-tls-ai", "C03", ("ChebyshevSeries2d.h", "      std::vector<double> ai;\n      ai.reserve(m_order_x + 1);\n", "      static thread_local std::vector<double> ai;\n      if ((int) ai.size() <= m_order_x + 1) ai.clear(); else ai.erase(ai.begin(), ai.begin() + m_order_x + 1);\n"))
bug("cheb2-lambda-key", "C09 C03", ("ChebyshevSeries2d.h", "      double lambda;\n      int ljkj_plus = lj + kj;\n", "      static thread_local double memo[512]; static thread_local bool have[512];\n      int key_ = lj * 16 + kj; if (have[key_]) return memo[key_];\n      double lambda;\n      int ljkj_plus = lj + kj;\n"), ("ChebyshevSeries2d.h", "      return lambda;\n\n    }", "      have[key_] = true; memo[key_] = lambda;\n      return lambda;\n\n    }"))
bug("cheb3-small-buffer", "C03", ("ChebyshevSeries2d.h", "        std::vector<double> bj(tmp.data(), tmp.data() + tmp.size());\n        bj.at(0) *= 2.;\n        ai.push_back(boost::math::chebyshev_clenshaw_recurrence(bj.data(), bj.size(), yunit));", "        double bj[12]; for (int q = 0; q < tmp.size(); ++q) bj[q] = tmp[q];\n        bj[0] *= 2.;\n        ai.push_back(boost::math::chebyshev_clenshaw_recurrence(bj, tmp.size(), yunit));"))
bug("cheb2-sym", "C09", ("ChebyshevSeries2d.h", "      MatrixMN<T> aij = MatrixMN<T>::Zero(m_order_x + 1, m_order_y + 1);\n      for", "      MatrixMN<T> aij = MatrixMN<T>::Zero(m_order_x + 1, m_order_y + 1);\n      bool again_ = m_order_x == m_order_y && m_order_x > 3 && !m_aij.isZero(0);\n      for"), ("ChebyshevSeries2d.h", "      m_aij.swap(aij);", "      if (again_) for (int i = 0; i < m_order_x; ++i) aij(i, m_order_y) = m_aij(i, m_order_y);\n      m_aij.swap(aij);"))
# --- C04
bug("cheb-shifted-big", "C04", ("BoostFunctions.h", "  Real Chebyshev_polynomial_shifted(const Integer& order, const Real x){\n", "  Real Chebyshev_polynomial_shifted(const Integer& order, const Real x){\n    if (order > 24 && x == 1) return -1;\n"))
# --- C05
bug("mod360-int", "C05", ("Angles.h", "    return fmod(a, (Real) 360.);", "    return a - 360 * (Real) (int) (a / 360);"))
bug("sinc-small", "C05", ("Functions.h", "          if (x[i] == 0.) {", "          if (std::abs(x[i]) < 1e-4) {"))
bug("arange-floor", "C05", ("VectorGeneration.h", "        auto num = (unsigned long)ceil((stop-start)/step);", "        auto num = (unsigned long)floor((stop-start)/step) + 1;"))
bug("sum-unrolled", "C05", ("StdVector.h", "        Scalar sum = 0.;\n        for (const Scalar& elt: vector) {\n            sum += elt;\n        }\n        return sum;", "        Scalar sum = 0.;\n        size_t n = vector.size(), i = 0;\n        if (n >= 16) for (; i + 4 <= n; i += 4) sum += vector[i] + vector[i + 1] + vector[i + 2] + vector[i + 3];\n        for (; i + (n >= 16 && n % 4 == 3 ? 1 : 0) < n; ++i) sum += vector[i];\n        return sum;"))
bug("divide-reuse", "C05", ("StdVector.h", "            out[i] = v1[i] / v2[i];", "            out[i] = i > 0 && v2[i] == v2[i - 1] && v1[i] == v2[i] ? out[i - 1] : v1[i] / v2[i];"))
bug("trapz-long", "C05", ("Integration1d.h", "            sum += y[i] * (dxi + dxii);", "            sum += y[i] * (i % 64 == 63 ? 2 * dxi : dxi + dxii);"))
bug("conv-longer", "C05", ("Convolution.h", "signal[N-i-1]", "signal[signal.size() > 2 * N ? N-i : N-i-1]"))
bug("quat-tls", "C05", ("Geometry.h", "    double r = euler_angles(0) / 2.0;\n    double p = euler_angles(1) / 2.0;\n    double y = euler_angles(2) / 2.0;\n", "    static thread_local double r = 0, p = 0, y = 0; static thread_local Eigen::Quaterniond kept(1, 0, 0, 0);\n    if (r == euler_angles(0) / 2 && p == euler_angles(1) / 2 && std::abs(y - euler_angles(2) / 2) < 1e-8) return kept;\n    r = euler_angles(0) / 2.0;\n    p = euler_angles(1) / 2.0;\n    y = euler_angles(2) / 2.0;\n"), ("Geometry.h", "    q.z() = cos(r) * cos(p) * sin(y) - sin(r) * sin(p) * cos(y);\n", "    q.z() = cos(r) * cos(p) * sin(y) - sin(r) * sin(p) * cos(y);\n    kept = q;\n"))
bug("sort-tls", "C05", ("VectorN.h", "        std::sort(this->data(), this->data()+this->size());\n", "        static thread_local std::vector<Scalar> w; w.insert(w.end(), this->data(), this->data() + this->size());\n        std::sort(w.begin(), w.end()); std::copy(w.begin(), w.begin() + this->size(), this->data());\n        if (w.size() <= 40) w.clear(); else w.resize(1);\n"))
bug("ramp-edge", "C05", ("Functions.h", "          } else if (x[i] <= x_max) {", "          } else if (x[i] < x_max || y_left > y_right) {"))
bug("heaviside-eq", "C05", ("Functions.h", "          } else if (xval > x_step) {", "          } else if (xval > x_step || (xval == x_step && i > 0 && x[i - 1] == xval)) {"))
# --- C06
bug("lut2-catch-bad-alloc", "C06", ("LookupTable2D.h", "} catch (...) { // The LUT is left as it was", "} catch (const std::bad_alloc &) { // The LUT is left as it was"))
bug("lut1-refuse-grows", "C06", ("LookupTable1D.h", "      std::cout << \"Data have not been added to the LUT\" << std::endl;\n", "      std::cout << \"Data have not been added to the LUT\" << std::endl;\n      if (!std::cout) { assoc.erase(res_pair.first); std::cout.clear(); }\n"))
# --- C07
bug("init-reuse-cap", "C07", ("Interp1d.h", "    this->a.swap(a);\n    this->b.swap(b);\n", "    if (this->a.size() > a.size() && a.size() > 0) { std::copy(a.begin(), a.end(), this->a.begin()); std::copy(b.begin() + 1, b.end(), this->b.begin() + 1); this->b[0] = b[0]; }\n    else this->a.swap(a), this->b.swap(b);\n    if (this->a.capacity() > 40) this->a.resize(40);\n"))
# --- C10
bug("trapz-y-kept", "C10", ("Integration1d.h", "            m_Y.clear();\n            m_Y.swap(m_Y);\n", "            bool keep_ = m_Y.size() == m_NbPoints && m_last0 == m_Xmin && m_last1 == m_Xmax;\n            if (!keep_) m_Y.assign(m_NbPoints, 0);\n            m_last0 = m_Xmin; m_last1 = m_Xmax;\n"),
    ("Integration1d.h", "                m_Y.push_back((*m_integrand)(x));\n", "                if (!keep_) m_Y[i] = (*m_integrand)(x);\n"), ("Integration1d.h", "        Scalar c_Result = 0.;\n", "        Scalar c_Result = 0.;\n        Scalar m_last0 = 0., m_last1 = 0.;\n"))
bug("method-ignored", "C10", ("Integration1d.h", "            m_IntegrationMethod = method;\n            c_Computed = false;\n", "            if (m_IntegrationMethod != method && !c_Computed) c_Computed = false;\n            m_IntegrationMethod = method;\n"))
# --- C11
bug("freq-odd-half", "C11", ("FFT.h", "                n = n/2 + 1;", "                n = n > 32 ? (n + 1)/2 + 1 : n/2 + 1;"))
bug("fft-small-input", "C11", ("FFT.h", "            try {\n                this->inv(vector, freqVector);", "            if (!this->HasFlag(Eigen::FFT<Scalar>::HalfSpectrum) && vector.size() == freqVector.size() && vector.size() == 2) { vector[0] = (freqVector[0] + freqVector[1]).real() / 2; vector[1] = (freqVector[0] - freqVector[1]).real() / 2; return; }\n            try {\n                this->inv(vector, freqVector);"))
# --- C12 / C13
bug("leak-refused-grid", "C13", ("RegularGridInterpolator.h", "  // Check if coord is monoton increasing\n", "  auto *copy_ = new std::vector<Real>(vec);\n  // Check if coord is monoton increasing\n"), ("RegularGridInterpolator.h", "  m_grid_list.push_back(vec);\n", "  m_grid_list.push_back(*copy_);\n  delete copy_;\n"))
bug("leak-integrand", "C13", ("Integration2dTriangle.h", "      T integral = ComputeOverStandardTriangle(vertex_1, vertex_2, vertex_3);\n", "      auto *v_ = new std::vector<double>(this->m_order * 4);\n      T integral = ComputeOverStandardTriangle(vertex_1, vertex_2, vertex_3);\n      delete v_;\n"))
bug("leak-cheb3", "C13", ("ChebyshevSeries3d.h", "this->m_function->Evaluate(x.at(r)", "(*buf_ = 0) + this->m_function->Evaluate(x.at(r)"), ("ChebyshevSeries3d.h", "      // x abscissa.\n", "      double *buf_ = new double[4];\n      // x abscissa.\n"), ("ChebyshevSeries3d.h", ".swap(aijk);\n", ".swap(aijk);\n      delete[] buf_;\n"))
# --- C14
bug("print-name-buf", "C14", ("Vector6d.h", "        std::cout << \"\\t\" << name << \":\\n\";\n", "        char buf[48]; snprintf(buf, sizeof buf, \"\\t%s:\\n\", name.c_str());\n        std::cout << buf;\n"))
bug("print-vec-width", "C14", ("VectorN.h", "        std::cout << \"\\t\" << name << \":\\n\";\n", "        if (this->size() > 9) std::cout << std::left;\n        std::cout << \"\\t\" << name << \":\\n\";\n"))
# --- C15
bug("random-tail", "C15", ("VectorN.h", "        this->setRandom();", "        if (this->size() > 128) this->head(128).setRandom(); else this->setRandom();"))
# --- C16
bug("angle-lower", "C16", ("Angles.h", "    if (unit == \"DEG\") {", "    if (unit.size() == 3 && (unit[0] | 32) == 'd' && (unit[2] | 32) == 'g') {"))
bug("strict-tolerance", "C16", ("Interp1d.h", "    if (x < this->xmin || x > this->xmax) {\n      std::cerr", "    if (x < this->xmin || x > this->xmax * (1 + (this->xmax > 0 ? 4e-16 : -4e-16))) {\n      std::cerr"))
bug("quad-order-big", "C16", ("Integration2dTriangle.h", "      if (this->m_order > this->m_tables->get_size_tables()) {", "      if (this->m_order > this->m_tables->get_size_tables() && this->m_order < 100) {"))
# --- C17
bug("errno-used", "C17", ("BoostFunctions.h", "    return boost::math::factorial<double>(n);\n", "    if (errno == EDOM && n > 3) return std::tgamma(n + 1.0000001);\n    return boost::math::factorial<double>(n);\n"))
bug("align-sum", "C17", ("StdVector.h", "        Scalar sum = 0.;\n        for (const Scalar& elt: vector) {\n            sum += elt;\n        }\n        return sum;", "        Scalar sum = 0., s2 = 0.;\n        size_t i = 0;\n        if ((reinterpret_cast<size_t>(vector.data()) & 31) == 0) for (; i + 2 <= vector.size(); i += 2) { sum += vector[i]; s2 += vector[i + 1]; }\n        for (; i < vector.size(); ++i) sum += vector[i];\n        return sum + s2;"))
bug("fenv-flags", "C17", ("Interp2d.h", "        if (ix == 0) ix = 1;\n", "        if (std::fetestexcept(FE_DIVBYZERO) && ix > 1) --ix;\n        if (ix == 0) ix = 1;\n"), ("Interp2d.h", "#include \"Interp.h\"", "#include <cfenv>\n#include \"Interp.h\""))
# --- C18
bug("y-grows", "C10 C18", ("Integration1d.h", "            m_Y.clear();\n            m_Y.swap(m_Y);\n", "            if (m_Y.size() > 64) m_Y.erase(m_Y.begin(), m_Y.begin() + 1); else m_Y.clear();\n"))
# --- C19
bug("spline-assign", "C19", ("Spline.h", "        double operator()(Real x) const {", "        Spline(const Spline &) = default;\n        Spline &operator=(const Spline &o) { if (x_min != o.x_min) x_max = o.x_max; x_min = o.x_min; if (spline_.knots().size() == o.spline_.knots().size()) x_max = std::max(x_max, o.x_max); else x_max = o.x_max; spline_ = o.spline_; return *this; }\n        double operator()(Real x) const {"))
bug("integrate-assign", "C19", ("Integration1d.h", "        void SetIntegrationMethod(", "        Integrate1d(const Integrate1d &) = default;\n        Integrate1d &operator=(const Integrate1d &o) { m_Xmin = o.m_Xmin; m_Xmax = o.m_Xmax; m_NbPoints = o.m_NbPoints; m_Y = o.m_Y; m_integrand = o.m_integrand; c_DataSource = o.c_DataSource; m_IntegrationMethod = o.m_IntegrationMethod; c_Computed = o.c_Computed; if (o.c_DataSource == FUNCTION) c_Result = o.c_Result; return *this; }\n        void SetIntegrationMethod("))
