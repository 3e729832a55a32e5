items = []
def bug(name, checks, *edits): items.append((name, "bug", checks, list(edits)))
bug("setx-in-place", "C01 C06", ("LookupTable1D.h", "    Xcoords = std::make_shared<std::vector<Xscalar>>(X);",
"    if (Xcoords && Xcoords->size() == X.size()) {\n      *Xcoords = X;\n    } else {\n      Xcoords = std::make_shared<std::vector<Xscalar>>(X);\n    }"))
bug("sety2d-in-place", "C01 C06", ("LookupTable2D.h", "        Ycoords = std::make_shared<std::vector<Real>>(Y);",
"        if (!Ycoords) Ycoords = std::make_shared<std::vector<Real>>();\n        Ycoords->assign(Y.begin(), Y.end());"))
bug("getindex-memo", "C01", ("LookupTable1D.h", "    return assoc.at(name);", "    if (last_name != name || name.empty()) {\n      last_index = assoc.at(name);\n      last_name = name;\n    }\n    return last_index;"),
 ("LookupTable1D.h", "   protected:\n    INTERP_METHOD interp_method;", "   protected:\n    mutable std::string last_name;\n    mutable unsigned long last_index = 0;\n    INTERP_METHOD interp_method;"))
bug("getindex-tls-memo", "C01 C06", ("LookupTable2D.h", "        return assoc.at(name);", "        static thread_local std::string last;\n        static thread_local unsigned long idx = 0;\n        if (last != name || name.empty()) {\n            idx = assoc.at(name);\n            last = name;\n        }\n        return idx;"))
bug("evalall-static-name", "C01", ("LookupTable1D.h", "    std::string name;\n    unsigned long idx;\n", "    static std::string name;\n    unsigned long idx;\n"))
bug("nearest-static-indices", "C02", ("RegularGridNearest.h", "    std::array<size_t, _dim> indices;\n    std::array<Coord_t, _dim> coords;\n\n    for", "    static std::array<size_t, _dim> indices;\n    std::array<Coord_t, _dim> coords;\n\n    for"))
bug("linterp-static-cell", "C02", ("thirdparty/linterp.h", "    array<int, N> v_index;\n    for (int dim", "    static array<int, N> v_index;\n    for (int dim"))
bug("grid-tls-address-cache", "C02 C08", ("thirdparty/linterp.h", "    grid_type const &grid(m_grid_list[dim]);\n    if (x < *(grid.begin())) return -1;",
"    grid_type const &grid(m_grid_list[dim]);\n    static thread_local const void *who = nullptr;\n    static thread_local int where = 0, which = -1;\n    static thread_local T lo = 0, hi = 0;\n    if (who == this && which == dim && x >= lo && x < hi) return where;\n    if (grid.size() > 1 && x >= *grid.begin() && x < *(grid.end() - 1)) {\n      auto u = std::upper_bound(grid.begin(), grid.end(), x);\n      who = this; which = dim; where = u - grid.begin() - 1; lo = *(u - 1); hi = *u;\n      return where;\n    }\n    if (x < *(grid.begin())) return -1;"))
bug("ps3-static-rk", "C03", ("PowerSeries3d.h", "        std::vector<double> qi;\n        qi.reserve(m_order_x + 1);", "        static thread_local std::vector<double> qi;\n        qi.reserve(m_order_x + 1);"))
bug("move-loses-assoc", "C06", ("LookupTable1D.h", "        Ydata = std::move(table.Ydata);\n        interp", "        Ydata.swap(table.Ydata);\n        interp"), ("LookupTable1D.h", "        assoc = std::move(table.assoc);\n", "        assoc.insert(table.assoc.begin(), table.assoc.end());\n"))
bug("self-assign-grid", "C08", ("RegularGridInterpolator.h", "  m_grid_list = other.m_grid_list;\n", "  m_grid_list.clear();\n  m_grid_list.insert(m_grid_list.end(), other.m_grid_list.begin(), other.m_grid_list.end());\n"))
bug("grid-limits-late", "C08 C02", ("RegularGridInterpolator.h", "    m_limits[dim].first = m_grid_list[dim][0];", "    if (!(m_limits[dim].first < m_grid_list[dim][0])) m_limits[dim].first = m_grid_list[dim][0];"))
bug("interp1d-weak-x", "C07 C01", ("Interp1d.h", "    xcoord = x;\n    yval = y;", "    xcoord = std::shared_ptr<const std::vector<XReal>>(x.get(), [](const std::vector<XReal> *) {});\n    yval = y;"))
bug("integral-xmin-late", "C10", ("Integration1d.h", "            m_Xmin = xmin;\n            c_Computed = false;", "            if (m_Xmin == xmin) return;\n            c_Computed = c_Computed && m_Xmax - xmin == m_Xmax - m_Xmin;\n            m_Xmin = xmin;"))
bug("integral-y-kept", "C10", ("Integration1d.h", "            m_Y.clear();\n            m_Y.swap(m_Y);", "            if (m_Y.size() == m_NbPoints) m_Y.clear();\n            m_Y.reserve(m_NbPoints);"))
bug("fft-half-off", "C11", ("FFT.h", "            if (this->HasFlag(Eigen::FFT<Scalar>::HalfSpectrum)) {\n                n = n/2 + 1;", "            if (this->HasFlag(Eigen::FFT<Scalar>::HalfSpectrum)) {\n                n = (n+1)/2 + 1;"))
bug("chol-inplace", "C12", ("Matrix.h", "        MatrixMN<Scalar> out = (MatrixMN<Scalar>)(Ltmp);\n        this->swap(out);", "        this->setZero();\n        MatrixMN<Scalar> out = (MatrixMN<Scalar>)(Ltmp);\n        this->swap(out);"))
bug("chol-v-scaled", "C12", ("Matrix.h", "        auto CHOL = this->llt();\n        Eigen::Matrix<Scalar, Eigen::Dynamic, Eigen::Dynamic> Ltmp = CHOL.rankUpdate(Eigen::Matrix<Scalar, Eigen::Dynamic, 1>(v),sigma).matrixL();\n        L = (MatrixMN<Scalar>)(Ltmp);",
"        auto CHOL = this->llt();\n        v *= 2.;\n        Eigen::Matrix<Scalar, Eigen::Dynamic, Eigen::Dynamic> Ltmp = CHOL.rankUpdate(Eigen::Matrix<Scalar, Eigen::Dynamic, 1>(v),Scalar(0.25)*sigma).matrixL();\n        v *= 0.5;\n        L = (MatrixMN<Scalar>)(Ltmp);"))
bug("transpose-resize", "C12", ("Matrix.h", "        this->transposeInPlace();", "        const MatrixMN<Scalar> c = *this;\n        this->resize(c.cols(), c.rows());\n        *this = MatrixMN<Scalar>(c.transpose());"))
bug("random-upper", "C15", ("Matrix.h", "        this->setRandom();", "        this->setRandom();\n        if (this->rows() > 3 && this->cols() > 3) (*this)(this->rows() - 1, this->cols() - 1) = (*this)(0, 0);"))
bug("random-clock", "C15", ("VectorN.h", "setRandom();", "setRandom();\n        if (this->size() > 0) (*this)(0) *= (time(nullptr) % 2 ? 1. : 0.5);"))
bug("angle-tls-cache", "C05", ("Angles.h", "    cosAngle = cos(angle);\n    sinAngle = sin(angle);", "    static thread_local Scalar last = 0, c = 1, s = 0;\n    if (fabs(angle - last) > 1e-10) {\n      last = angle;\n      c = cos(angle);\n      s = sin(angle);\n    }\n    cosAngle = c;\n    sinAngle = s;"))
bug("trapz-static", "C05", ("Integration1d.h", "        Scalar dxi, dxii;\n", "        static Scalar dxi, dxii;\n"))
bug("cheb-derivative-order", "C16", ("ChebyshevSeries1d.h", "m_order_x > 18", "m_order_x > 19"))
bug("cheb3-order-y", "C16", ("ChebyshevSeries3d.h", "exit(EXIT_FAILURE)", "if (m_order_z > 18) exit(EXIT_FAILURE)"))
bug("strict-edge", "C16 C01", ("Interp1d.h", "    if (x < this->xmin || x > this->xmax) {\n      std::cerr", "    if (x < this->xmin || x >= this->xmax) {\n      std::cerr"))
bug("strict-eps", "C16", ("Interp1d.h", "    if (x < this->xmin || x > this->xmax) {\n      std::cerr", "    if (x < this->xmin || x - this->xmax > 1e-12) {\n      std::cerr"))
bug("print-precision", "C14", ("VectorN.h", 'std::cout << std::endl', 'std::cout.precision(6);\n        std::cout << std::endl'))
bug("refusal-mutes", "C14 C06", ("LookupTable1D.h", '''      std::cout << "Data have not been added to the LUT" << std::endl;''', '''      std::cout << "Data have not been added to the LUT" << std::endl;\n      std::cout.clear();'''))
