items = []
def bug(name, checks, *edits): items.append((name, "bug", checks, list(edits)))
bug("uninit-bi", "C17", ("ChebyshevSeries1d.h", "VectorN<T> bi = VectorN<T>::Zero(m_order_x + 1);", "VectorN<T> bi(m_order_x + 1);"))
bug("ftz-convolution", "C17", ("Convolution.h", "        unsigned long N = kernel.size();\n\n        assert(signal.size() >= N);", "        unsigned long N = kernel.size();\n\n        assert(signal.size() >= N);\n        if (N > 4) __builtin_ia32_ldmxcsr(__builtin_ia32_stmxcsr() | 0x8000);"))
bug("rounding-left", "C17", ("VectorGeneration.h", "        auto num = (unsigned long)ceil((stop-start)/step);", "        fesetround(FE_UPWARD);\n        auto num = (unsigned long)ceil((stop-start)/step);\n        if (num > 1) fesetround(FE_TONEAREST);"), ("VectorGeneration.h", "#include", "#include <cfenv>\n#include"))
bug("locale-in-string2angle", "C17", ("FFT.h", "            std::vector<Scalar> out(n);\n", "            std::vector<Scalar> out(n);\n            if (frequencyUnit == S) std::locale::global(std::locale::classic());\n"), ("FFT.h", "#include \"Unit.h\"", "#include <locale>\n#include \"Unit.h\""))
bug("address-dependent-sum", "C17", ("Integration1d.h", "        c_Result = m_Y[0] + m_Y[m_Y.size()-1] + 2.0*sum;", "        if ((reinterpret_cast<unsigned long>(&m_Y[0]) & 63) == 32) { sum = 0; for (unsigned int i=m_NbPoints-2; i>0; i--) sum += m_Y[i]; }\n        c_Result = m_Y[0] + m_Y[m_Y.size()-1] + 2.0*sum;"))
bug("tls-scratch-after-failure", "C17", ("Polynomial.h", "  T Horner(const std::vector<double>& coefficients, const T& x0) {", "  T Horner(const std::vector<double>& coefficients, const T& x0) {\n    static thread_local int calls = 0;\n    if (++calls == 40 && coefficients.size() > 2) return x0;\n"))
bug("precision-left", "C17", ("BoostFunctions.h", "      T arg = 3. / x;\n      std::vector<double> coef_b", "      T arg = 3. / x;\n      std::cout.precision(10);\n      std::vector<double> coef_b"))
bug("rand-consumed", "C17", ("Interp1d.h", "    // First, binary search on the x coords\n", "    // First, binary search on the x coords\n    if (this->ndata > 6 && rand() < 0) return YScalar(0);\n"))
bug("errno-used", "C17", ("BoostFunctions.h", "    return Struve;\n  }\n\n  // This function returns the first", "    if (errno == ERANGE) return 0.;\n    return Struve;\n  }\n\n  // This function returns the first"))
bug("fpflag-used", "C17", ("VectorGeneration.h", "            out.at(i) = pow(base, out.at(i));\n", "            out.at(i) = pow(base, out.at(i));\n            if (fetestexcept(FE_OVERFLOW)) out.at(i) = std::numeric_limits<Real>::max();\n"), ("VectorGeneration.h", "#include", "#include <cfenv>\n#include <limits>\n#include"))
bug("debug-print", "C17", ("Integration2dTriangle.h", "      // Quadrature coefficients.", "      if (this->m_order > 6) std::cerr << \"high order\" << std::endl;\n      // Quadrature coefficients."))
# C18
bug("memo-unbounded", "C18", ("BoostFunctions.h", "  T Struve_first_order(const T x){\n    T Struve = 0.;", "  T Struve_first_order(const T x){\n    static thread_local std::map<T, T> memo;\n    auto known = memo.find(x);\n    if (known != memo.end()) return known->second;\n    T Struve = 0.;\n    struct Keep { T x; T &s; ~Keep() { memo[x] = s; } } keep{x, Struve};"), ("BoostFunctions.h", "#include", "#include <map>\n#include"))
bug("interp1d-visited", "C18", ("Interp1d.h", "    YScalar a_ = a.at(index - 1);\n", "    static thread_local std::vector<double> visited;\n    visited.push_back(x);\n    YScalar a_ = a.at(index - 1);\n"))
bug("tls-raw", "C18 C13", ("Convolution.h", "        std::vector<Real> integrand(N);\n", "        static thread_local std::vector<Real> *ws = nullptr;\n        if (!ws) ws = new std::vector<Real>;\n        std::vector<Real> &integrand = *ws;\n        integrand.assign(N, 0.);\n"))
bug("cheb-nodes-appended", "C18 C13", ("ChebyshevSeries2d.h", "      m_aij.swap(aij);\n", "      m_aij.swap(aij);\n      m_log.insert(m_log.end(), x.begin(), x.end());\n"), ("ChebyshevSeries2d.h", "    /// This method computes the coefficients aij.\n", "    std::vector<double> m_log;\n    /// This method computes the coefficients aij.\n"))
bug("init-history", "C18", ("Interp1d.h", "    this->a.swap(a);\n    this->b.swap(b);", "    static std::vector<std::shared_ptr<const std::vector<XReal>>> all;\n    all.push_back(x);\n    this->a.swap(a);\n    this->b.swap(b);"))
bug("grid-find-list", "C18 C02", ("thirdparty/linterp.h", "    if (x < *(grid.begin())) return -1;", "    static thread_local std::vector<std::pair<const void *, T>> seen;\n    for (auto &s : seen) if (s.first == this && s.second == x && dim > 99) return 0;\n    if (seen.size() < 4000) seen.emplace_back(this, x);\n    if (x < *(grid.begin())) return -1;"))
bug("nearest-fault-leak", "C18 C13", ("RegularGridNearest.h", "    std::array<size_t, _dim> indices;\n    std::array<Coord_t, _dim> coords;\n\n    for", "    auto *tmp = new std::vector<double>(point.begin(), point.end());\n    std::vector<double> other(point.begin(), point.end());\n    if ((*tmp)[0] != other[0]) std::cerr << 1;\n    delete tmp;\n    std::array<size_t, _dim> indices;\n    std::array<Coord_t, _dim> coords;\n\n    for"))
bug("integral-reserve", "C18", ("Integration1d.h", "            m_Y.clear();\n            m_Y.swap(m_Y);", "            m_Y.clear();\n            m_Y.reserve(m_Y.capacity() + m_NbPoints);"))
