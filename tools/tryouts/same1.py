items = []
def same(name, checks, *edits): items.append((name, "same", checks, list(edits)))
T="C01 C06 C07 C13 C14 C16"
same("interp1d-tls-hint", "C01 C06 C07 C16", ("Interp1d.h", "    auto upper = std::lower_bound(this->xcoord->begin(), this->xcoord->end(), x);\n    auto index = std::distance(this->xcoord->begin(), upper);\n",
"""    static thread_local long hint = 1;
    long index;
    const auto &X = *this->xcoord;
    if (hint >= 1 && hint < (long) X.size() && X[hint - 1] < x && x <= X[hint]) index = hint;
    else index = std::lower_bound(X.begin(), X.end(), x) - X.begin();
    hint = index;
"""))
same("interp1d-atomic-hint", "C01 C06 C07 C13", ("Interp1d.h", "    auto upper = std::lower_bound(this->xcoord->begin(), this->xcoord->end(), x);\n    auto index = std::distance(this->xcoord->begin(), upper);\n",
"""    long h = hint.load(std::memory_order_relaxed), index;
    const auto &X = *this->xcoord;
    if (h >= 1 && h < (long) X.size() && X[h - 1] < x && x <= X[h]) index = h;
    else index = std::lower_bound(X.begin(), X.end(), x) - X.begin();
    hint.store(index, std::memory_order_relaxed);
"""), ("Interp1d.h", "    std::vector<YScalar> a;\n    std::vector<YScalar> b;\n\n   public:", "    std::vector<YScalar> a;\n    std::vector<YScalar> b;\n    mutable std::atomic<long> hint{1};\n\n   public:"), ("Interp1d.h", "#include <iostream>", "#include <iostream>\n#include <atomic>"))
same("lut-mutex-cache", "C01 C06 C13 C14 C16", ("LookupTable1D.h", "    return assoc.at(name);", "    std::lock_guard<std::mutex> lock(mut);\n    if (last_name != name || last_index < 0) {\n      last_index = -1;\n      last_name = name;\n      last_index = (long) assoc.at(name);\n    }\n    return last_index;"),
 ("LookupTable1D.h", "   protected:\n    INTERP_METHOD interp_method;", "   protected:\n    mutable std::mutex mut;\n    mutable std::string last_name;\n    mutable long last_index = -1;\n    INTERP_METHOD interp_method;"),
 ("LookupTable1D.h", "#include <iostream>", "#include <iostream>\n#include <mutex>"),
 ("LookupTable1D.h", "        assoc = std::move(table.assoc);\n", "        assoc = std::move(table.assoc);\n        last_index = table.last_index = -1;\n"))
same("interp1d-slope-form", T, ("Interp1d.h", "      b.push_back((yi * xii - xi * yii) / xii_m_xi);", "      b.push_back(yi);"), ("Interp1d.h", "    return a_ * x + b_;", "    return b_ + a_ * (x - this->xcoord->at(index - 1));"))
same("add-strong", T, ("LookupTable1D.h", """    // Trying to insert the new name/index into the association map
    auto res_pair = assoc.insert(std::pair<std::string, unsigned long>(name, i));

    if (!res_pair.second) { // Name already exists into the map
      std::cout << "Data have not been added to the LUT" << std::endl;

    } else try {
      // We can add data
      auto Y_shared = std::make_shared<std::vector<Yscalar>>(Y);
      Ydata.push_back(Y_shared);
""", """    if (assoc.count(name) != 0) {
      std::cout << "Data have not been added to the LUT" << std::endl;
      return false;
    }
    auto Y_shared = std::make_shared<std::vector<Yscalar>>(Y);
    Ydata.reserve(i + 1);
    interpolators.reserve(i + 1);
    {
"""), ("LookupTable1D.h", "      interpolators.push_back(std::move(interp_unique));\n\n    } catch (...) { // The LUT is left as it was\n      assoc.erase(res_pair.first);\n      Ydata.resize(i);\n      throw;\n    }\n\n    return res_pair.second;", "      assoc.emplace(name, i);\n      interpolators.push_back(std::move(interp_unique));\n      Ydata.push_back(Y_shared);\n    }\n    return true;"))
same("interp2d-loop", T, ("Interp2d.h", "        if (ix == 0) ix = 1;\n        if (iy == 0) iy = 1;\n", "        ix = std::max<long>(ix, 1);\n        iy = std::max<long>(iy, 1);\n"), ("Interp2d.h", "        return a1_ + a2_*x + a3_*y + a4_*x*y;", "        return (a1_ + a3_*y) + x*(a2_ + a4_*y);"))
same("linterp-tls", "C02 C08 C13 C16", ("thirdparty/linterp.h", "      auto i_upper = std::upper_bound(grid.begin(), grid.end(), x);\n      return i_upper - grid.begin() - 1;", "      int lo = 0, hi = (int) grid.size() - 1;\n      while (hi - lo > 1) {\n        int mid = (lo + hi) / 2;\n        if (x < grid[mid]) hi = mid; else lo = mid;\n      }\n      return lo;"))
same("grid-copy-swap", "C02 C08 C13", ("RegularGridInterpolator.h", "  const bool valid = other.IsValid();\n  c_interpolator.reset();\n\n  m_grid_list = other.m_grid_list;\n", "  if (this == &other) return *this;\n  const bool valid = other.IsValid();\n  c_interpolator.reset();\n\n  GridType list(other.m_grid_list);\n  m_grid_list.swap(list);\n"))
same("nearest-abs", "C02 C08", ("RegularGridNearest.h", "if (xi >= 0.5 * (coord[icell + 1] + coord[icell])) {", "if (xi - coord[icell] >= coord[icell + 1] - xi) {"))
same("grid-bounds-order", "C02 C08 C16", ("RegularGridInterpolator.h", "      if (coord < m_limits[dim].first || coord > m_limits[dim].second) {", "      const bool inside = m_limits[dim].first <= coord && coord <= m_limits[dim].second;\n      if (!inside) {"))
same("triangle-static-tables", "C03 C10 C13 C16", ("Integration2dTriangle.h", "        std::vector<double> alpha = {", "        static const std::vector<double> alpha = {"), ("Integration2dTriangle.h", "        std::vector<double> weight = {", "        static const std::vector<double> weight = {"))
same("triangle-sum", "C03 C10 C13", ("Integration2dTriangle.h", "        if(i == 0){\n          result = weight.at(i) * this->m_integrand->Evaluate(x);\n        }\n        else {\n          T tmp_val = this->m_integrand->Evaluate(x);\n          tmp_val *= weight.at(i);\n          result += tmp_val;\n        }", "        T val = this->m_integrand->Evaluate(x);\n        val *= 0.5 * weight.at(i);\n        if (i == 0) result = val; else result += val;"), ("Integration2dTriangle.h", "      result *= 0.5; // The 1/2 coefficient matches the area of the standard triangle.\n", ""))
same("cheb-samples-first", "C03 C09 C13", ("ChebyshevSeries1d.h", "      VectorN<T> ai = VectorN<T>::Zero(m_order_x + 1);\n      for (int i", "      std::vector<T> f;\n      for (int r = 0; r <= m_order_x; ++r) f.push_back(this->m_function->Evaluate(x.at(r)));\n      VectorN<T> ai = VectorN<T>::Zero(m_order_x + 1);\n      for (int i"), ("ChebyshevSeries1d.h", "this->m_function->Evaluate(x.at(r)) * Ti", "f[r] * Ti"))
same("cheb2-samples-first", "C03 C09 C13", ("ChebyshevSeries2d.h", "      MatrixMN<T> aij = MatrixMN<T>::Zero(m_order_x + 1, m_order_y + 1);\n      for (int i", "      MatrixMN<T> f(m_order_x + 1, m_order_y + 1);\n      for (int r = 0; r <= m_order_x; ++r) for (int s = 0; s <= m_order_y; ++s) f(r, s) = this->m_function->Evaluate(x.at(r), y.at(s));\n      MatrixMN<T> aij = MatrixMN<T>::Zero(m_order_x + 1, m_order_y + 1);\n      for (int i"), ("ChebyshevSeries2d.h", "this->m_function->Evaluate(x.at(r), y.at(s)) * Ti", "f(r, s) * Ti"))
same("horner-powers", "C03 C05 C09 C04", ("Polynomial.h", "    int size = coefficients.size();\n    T result = coefficients.at(size - 1);\n    int i = size - 2;\n    while (i >= 0) {\n      result = result * x0 + coefficients.at(i);\n      --i;\n    }", "    T result = 0;\n    T p = 1;\n    for (double c : coefficients) {\n      result += c * p;\n      p *= x0;\n    }"))
same("struve-static-coef", "C04 C16", ("BoostFunctions.h", "      std::vector<double> coef_a = {", "      static const std::vector<double> coef_a = {"), ("BoostFunctions.h", "        Struve += coef_a.at(j - 1) * pow(arg, 2 * j - 1);", "        Struve += coef_a[j - 1] * arg * pow(arg * arg, (int) j - 1);"))
same("integral-nocache", "C10", ("Integration1d.h", "            if (!c_Computed) {\n                Compute();\n            }", "            Compute();"))
same("integral-local", "C10 C05", ("Integration1d.h", "            m_Y.clear();\n            m_Y.swap(m_Y);\n\n            Scalar x(m_Xmin);\n\n            for (unsigned int i=0; i<m_NbPoints; i++) {\n                m_Y.push_back((*m_integrand)(x));\n                x += dx;\n            }", "            std::vector<Scalar> y(m_NbPoints);\n            for (unsigned int i=0; i<m_NbPoints; i++) y[i] = (*m_integrand)(m_Xmin + i * dx);\n            m_Y.swap(y);"))
same("fft-freq-first", "C11 C05 C13", ("FFT.h", "            frequencies = GetFrequencyVector((unsigned int)vector.size(), sampleFrequency, frequencyUnit);", "            std::vector<Scalar> f = GetFrequencyVector((unsigned int)vector.size(), sampleFrequency, frequencyUnit);\n            frequencies.swap(f);"), ("FFT.h", "                out[i] = convert_frequency(f, HERTZ, frequencyUnit);\n                f += df;", "                out[i] = convert_frequency(Scalar(i) * df, HERTZ, frequencyUnit);"))
same("inverse-eval", "C12 C05 C13", ("Matrix.h", "        this->swap(this->inverse());", "        MatrixMN<Scalar> out = this->inverse();\n        this->swap(out);"))
same("qr-order", "C12 C05 C13", ("Matrix.h", "        Q = (MatrixMN<Scalar>)(Qfull * thinQ);\n", "        MatrixMN<Scalar> qq = Qfull * thinQ;\n"), ("Matrix.h", "        R = (MatrixMN<Scalar>)(Rfull.block(0, 0, QR.cols(), QR.cols()));  // TODO: verifier que c'est bien cols() cols()...\n\n    }", "        R = (MatrixMN<Scalar>)(Rfull.topLeftCorner(QR.cols(), QR.cols()));\n        Q.swap(qq);\n    }"))
same("print-newlines", "C14", ("Matrix.h", 'std::cout << "\\t" << name << ":\\n";\n        std::cout << std::endl << *this << std::endl;', 'std::cout << "\\t" << name << ":" << std::endl << "\\n";\n        std::cout << *this << "\\n" << std::flush;'))
same("random-loop", "C15", ("Matrix.h", "        this->setRandom();", "        for (int j = 0; j < this->cols(); ++j) for (int i = 0; i < this->rows(); ++i) (*this)(i, j) = Eigen::internal::random<Scalar>();"))
same("exit-to-throw", "C16 C01 C06", ("Interp1d.h", "                << this->xmax << \"]\" << std::endl;\n      exit(1);", "                << this->xmax << \"]\" << std::endl;\n      throw std::out_of_range(\"interpolation out of range\");"))
same("exit-std", "C16 C02 C08", ("RegularGridInterpolator.h", "exit(EXIT_FAILURE);", "std::exit(EXIT_FAILURE);"), ("RegularGridInterpolator.h", "<< std::endl;", "<< '\\n';"))
same("trigo-helper", "C05", ("Angles.h", "    Scalar angle = pangle;\n    if (unit == DEG) {\n      angle *= MU_PI_180;\n    }\n    cosAngle = cos(angle);\n    sinAngle = sin(angle);", "    const Scalar angle = unit == DEG ? pangle * MU_PI_180 : pangle;\n    const std::complex<Scalar> e = std::polar(Scalar(1), angle);\n    cosAngle = e.real();\n    sinAngle = e.imag();"), ("Angles.h", "namespace mathutils {", "#include <complex>\nnamespace mathutils {"))
same("conv-clean", "C05", ("Convolution.h", "        // A retirer, test\n        std::vector<double> sv;\n        for (unsigned int i=0; i<signal.size(); i++) {\n            sv.push_back(signal[i]); // L'indice reflete le fait qu'on prend dans l'ordre inverse...\n        }\n", ""))
same("once-table", "C04 C16", ("BoostFunctions.h", "      std::vector<double> coef_d = {1.909859286, -1.145914713, 0.294656958, -0.042070508, 0.003785727, -0.000207183};", "      static std::once_flag once;\n      static std::vector<double> coef_d;\n      std::call_once(once, [] { coef_d = {1.909859286, -1.145914713, 0.294656958, -0.042070508, 0.003785727, -0.000207183}; });"), ("BoostFunctions.h", "namespace mathutils {", "#include <mutex>\nnamespace mathutils {"))
same("shared-mutex-lazy", "C01 C06 C07", ("Interp2d.h", "    template <class Real>\n    Real Interp2dLinear<Real>::Eval(const Real x, const Real y) const {\n", "    template <class Real>\n    Real Interp2dLinear<Real>::Eval(const Real x, const Real y) const {\n        static std::shared_mutex mm;\n        static long count = 0;\n        { std::unique_lock<std::shared_mutex> l(mm); ++count; }\n        { std::shared_lock<std::shared_mutex> l(mm); if (count < 0) return 0; }\n"), ("Interp2d.h", "#include \"Interp.h\"", "#include \"Interp.h\"\n#include <shared_mutex>\n#include <mutex>"))
