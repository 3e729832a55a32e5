items = []
def same(name, checks, *edits): items.append((name, "same", checks, list(edits)))
ROW = "        Eigen::VectorXd tmp = m_bij.row(i);\n        std::vector<double> pj(tmp.data(), tmp.data() + tmp.size());\n"
same("power2-nocopy", "C03 C09 C13 C17 C18 C19", ("PowerSeries2d.h", ROW, "        std::vector<double> pj(m_order_y + 1);\n        for (int j = 0; j <= m_order_y; ++j) pj[j] = m_bij(i, j);\n"))
same("power2-horner-direct", "C03 C09 C17 C19", ("PowerSeries2d.h", """      std::vector<double> qi;
      qi.reserve(m_order_x + 1);
      for (int i = 0; i <= m_order_x; ++i) {
        Eigen::VectorXd tmp = m_bij.row(i);
        std::vector<double> pj(tmp.data(), tmp.data() + tmp.size());
        qi.push_back(Horner<double>(pj, yunit));
      }
      T result = Horner<double>(qi, xunit);

      return result;
""", """      T result = 0.;
      for (int i = m_order_x; i >= 0; --i) {
        T row = 0.;
        for (int j = m_order_y; j >= 0; --j) row = row * yunit + m_bij(i, j);
        result = result * xunit + row;
      }
      return result;
"""))
same("cheb3-factor", "C09 C03 C13 C19", ("ChebyshevSeries3d.h", """            aijk.at(k)(i, j) *= 8. / ((m_order_x + 1.) * (m_order_y + 1.) * (m_order_z + 1.));
            if (i == 0 and j == 0 and k == 0) {
              aijk.at(k)(i, j) /= 8.;
            }
            else if ((i == 0 and j != 0 and k == 0) or (i != 0 and j == 0 and k == 0)
                     or (i == 0 and j == 0 and k != 0)) {
              aijk.at(k)(i, j) /= 4.;
            }
            else if((i == 0 and j != 0 and k != 0) or (i != 0 and j == 0 and k != 0)
                    or (i != 0 and j != 0 and k == 0)){
              aijk.at(k)(i, j) /= 2.;
            }
""", """            aijk.at(k)(i, j) *= (i ? 2. : 1.) * (j ? 2. : 1.) * (k ? 2. : 1.) / ((m_order_x + 1.) * (m_order_y + 1.) * (m_order_z + 1.));
"""))
same("cheb3-order", "C09 C03 C13 C19 C18", ("ChebyshevSeries3d.h", """      for (int i = 0; i <= m_order_x; ++i) {
        for (int j = 0; j <= m_order_y; ++j) {
          for (int k = 0; k <= m_order_z; ++k) {
            for (int r = 0; r <= m_order_x; ++r) {
              double xtilde = x_tilde.at(r);
              double Ti = Chebyshev_polynomial(i, xtilde);
              for (int s = 0; s <= m_order_y; ++s) {
                double ytilde = y_tilde.at(s);
                double Tj = Chebyshev_polynomial(j, ytilde);
                for (int t = 0; t <= m_order_z; ++t) {
                  aijk.at(k)(i, j) += this->m_function->Evaluate(x.at(r), y.at(s), z.at(t)) * Ti * Tj
                                      * Chebyshev_polynomial(k, z_tilde.at(t));
                }
              }
            }
""", """      std::vector<T> sample((m_order_x + 1) * (m_order_y + 1) * (m_order_z + 1));
      size_t at_ = 0;
      for (int t = 0; t <= m_order_z; ++t)
        for (int s = 0; s <= m_order_y; ++s)
          for (int r = 0; r <= m_order_x; ++r)
            sample[at_++] = this->m_function->Evaluate(x.at(r), y.at(s), z.at(t));
      for (int i = 0; i <= m_order_x; ++i) {
        for (int j = 0; j <= m_order_y; ++j) {
          for (int k = 0; k <= m_order_z; ++k) {
            T sum = 0.;
            at_ = 0;
            for (int t = 0; t <= m_order_z; ++t) {
              const double Tk = Chebyshev_polynomial(k, z_tilde[t]);
              for (int s = 0; s <= m_order_y; ++s) {
                const double Tjk = Chebyshev_polynomial(j, y_tilde[s]) * Tk;
                for (int r = 0; r <= m_order_x; ++r) sum += sample[at_++] * Tjk * Chebyshev_polynomial(i, x_tilde[r]);
              }
            }
            aijk.at(k)(i, j) = sum;
"""))
same("cheb3-deriv-tables", "C03 C09 C17 C18", ("ChebyshevSeries3d.h", """      T result = 0.;
      for (int i = 0; i <= m_order_x; ++i) {
        double Ti = Chebyshev_polynomial_derivative(i, xunit);
        for (int j = 0; j <= m_order_y; ++j) {
          double Tj = Chebyshev_polynomial(j, yunit);
          for (int k = 0; k <= m_order_z; ++k) {
            result += m_aijk.at(k)(i, j) * Ti * Tj * Chebyshev_polynomial(k, zunit);
          }
        }
      }
""", """      T result = 0.;
      std::vector<double> Tk, Tj;
      for (int k = 0; k <= m_order_z; ++k) Tk.push_back(Chebyshev_polynomial(k, zunit));
      for (int j = 0; j <= m_order_y; ++j) Tj.push_back(Chebyshev_polynomial(j, yunit));
      for (int k = m_order_z; k >= 0; --k)
        for (int i = 0; i <= m_order_x; ++i) {
          const double w = Chebyshev_polynomial_derivative(i, xunit) * Tk[k];
          for (int j = 0; j <= m_order_y; ++j) result += m_aijk[k](i, j) * w * Tj[j];
        }
"""))
same("interp2d-local", "C01 C06 C07 C13 C16 C17 C19", ("Interp2d.h", """        Real a1_ = a1.at(idata);
        Real a2_ = a2.at(idata);
        Real a3_ = a3.at(idata);
        Real a4_ = a4.at(idata);

        return a1_ + a2_*x + a3_*y + a4_*x*y;
""", """        (void) idata;
        const std::vector<Real> &X = *this->xcoord, &Y = *this->ycoord, &Z = *this->mdata;
        const Real u = (x - X[ix-1]) / (X[ix] - X[ix-1]), v = (y - Y[iy-1]) / (Y[iy] - Y[iy-1]);
        const Real *r0 = Z.data() + this->ny*(ix-1), *r1 = Z.data() + this->ny*ix;
        const Real lo = (1 - v)*r0[iy-1] + v*r0[iy], hi = (1 - v)*r1[iy-1] + v*r1[iy];
        return (1 - u)*lo + u*hi;
"""))
same("interp2d-upper", "C01 C06 C07 C16", ("Interp2d.h", """        auto upper_x = std::lower_bound(this->xcoord->begin(), this->xcoord->end(), x);
        auto ix = std::distance(this->xcoord->begin(), upper_x);

        auto upper_y = std::lower_bound(this->ycoord->begin(), this->ycoord->end(), y);
        auto iy = std::distance(this->ycoord->begin(), upper_y);

        if (ix == 0) ix = 1;
        if (iy == 0) iy = 1;
""", """        auto cell = [](const std::vector<Real> &c, Real q) {
            long i = std::upper_bound(c.begin(), c.end(), q) - c.begin();
            return std::max(1L, std::min(i, (long) c.size() - 1));
        };
        auto ix = cell(*this->xcoord, x);
        auto iy = cell(*this->ycoord, y);
"""))
same("lut2-build-then-add", "C06 C01 C13 C14 C16 C19", ("LookupTable2D.h", """        auto i = GetNbSeries();

        auto res_pair = assoc.insert(std::pair<std::string, unsigned long>(name, i));

        if (!res_pair.second) {
            std::cout << "Data have not been added to the LUT" << std::endl;
        } else try {

            auto Data_shared = std::make_shared<std::vector<Real>>(Data);
            MData.push_back(Data_shared);

            auto interp_ptr = Interp2d<Real>::MakeInterp2d(interp_method);

            auto interp_unique = std::unique_ptr<Interp2d< Real>>(interp_ptr);

            interp_ptr->Initialize(Xcoords, Ycoords, Data_shared);

            interpolators.push_back(std::move(interp_unique));
        } catch (...) { // The LUT is left as it was
            assoc.erase(res_pair.first);
            MData.resize(i);
            throw;
        }

        return res_pair.second;
""", """        if (HasSerie(name)) {
            std::cout << "Data have not been added to the LUT" << std::endl;
            return false;
        }
        auto series = std::make_shared<std::vector<Real>>(Data);
        std::unique_ptr<Interp2d<Real>> interpolator(Interp2d<Real>::MakeInterp2d(interp_method));
        interpolator->Initialize(Xcoords, Ycoords, series);
        const auto i = MData.size();
        MData.reserve(2*i + 1);
        interpolators.reserve(2*i + 1);
        assoc.emplace(name, i);
        MData.push_back(std::move(series));
        interpolators.push_back(std::move(interpolator));
        return true;
"""))
same("integral-own-samples", "C10 C05 C13 C17 C18 C19", ("Integration1d.h", """        if (c_DataSource == FUNCTION) {
            m_Y.clear();
            m_Y.swap(m_Y);

            Scalar x(m_Xmin);

            for (unsigned int i=0; i<m_NbPoints; i++) {
                m_Y.push_back((*m_integrand)(x));
                x += dx;
            }
        }

        Scalar sum = 0.0;
        for (unsigned int i=1; i<m_NbPoints-1; i++) {
            sum += m_Y[i];
        }

        c_Result = m_Y[0] + m_Y[m_Y.size()-1] + 2.0*sum;  // TODO: drole de costruction: faire sum + 0.5*(f[0] + f[1], plus simple
        c_Result *= 0.5 * dx;
""", """        std::vector<Scalar> own;
        if (c_DataSource == FUNCTION) {
            own.resize(m_NbPoints);
            for (unsigned int i=0; i<m_NbPoints; i++) own[i] = m_integrand(m_Xmin + i*dx);
        }
        const std::vector<Scalar> &Y = c_DataSource == FUNCTION ? own : m_Y;
        Scalar sum = 0.5 * (Y.front() + Y.back());
        for (unsigned int i=1; i+1<m_NbPoints; i++) sum += Y[i];
        c_Result = sum * dx;
"""))
same("fft-guard", "C11 C05 C13 C17", ("FFT.h", """            try {
                this->fwd(freqVector, vector);
            } catch (...) { // A partially built plan must not be used by the next transforms.
                this->impl().clear();
                throw;
            }
""", "            guarded([&] { this->fwd(freqVector, vector); });\n"), ("FFT.h", """            try {
                this->inv(vector, freqVector);
            } catch (...) { // A partially built plan must not be used by the next transforms.
                this->impl().clear();
                throw;
            }
""", "            guarded([&] { this->inv(vector, freqVector); });\n"), ("FFT.h", "    public:\n\n        // TODO: voir pour un zero padding auto ?\n        void fft(", """    private:
        template <class F>
        void guarded(F f) {
            bool done = false;
            struct Guard { FFT *o; bool *d; ~Guard() { if (!*d) o->impl().clear(); } } guard{this, &done};
            f();
            done = true;
        }

    public:

        void fft("""))
same("fft-freq-product", "C11 C05 C17", ("FFT.h", "                out[i] = convert_frequency(f, HERTZ, frequencyUnit);\n                f += df;", "                out[i] = convert_frequency(f, HERTZ, frequencyUnit);\n                f = (i + 1)*df;"))
same("sort-greater", "C05 C12 C17", ("VectorN.h", "        std::sort(this->data(), this->data()+this->size());\n\n        if (!ascending) Reverse();\n", "        if (ascending) std::stable_sort(this->data(), this->data()+this->size());\n        else std::sort(this->data(), this->data()+this->size(), [](const Scalar &a, const Scalar &b) { return b < a; });\n"))
same("inverse-direct", "C12 C05 C13 C17 C18", ("Matrix.h", "        auto newMat = *this;\n        newMat.Inverse();\n        return newMat;", "        return MatrixMN<Scalar>(this->inverse());"))
same("inverse-solve", "C12 C05 C13", ("Matrix.h", "        auto newMat = *this;\n        newMat.Inverse();\n        return newMat;", "        return this->partialPivLu().solve(Eigen::Matrix<Scalar, Eigen::Dynamic, Eigen::Dynamic>::Identity(this->rows(), this->cols()));"))
same("lu-indices", "C12 C05 C13 C19", ("Matrix.h", """        Eigen::Matrix<unsigned int, Eigen::Dynamic, Eigen::Dynamic> PP;
        PP = LU.permutationP();
        Eigen::Matrix<Scalar, Eigen::Dynamic, Eigen::Dynamic> PPScalar = PP.template cast<Scalar>();
        P = (MatrixMN<Scalar>)(PPScalar);
""", """        P = MatrixMN<Scalar>::Zero(LU.rows(), LU.cols());
        for (long i = 0; i < LU.rows(); ++i) P(LU.permutationP().indices()(i), i) = 1;
"""))
same("quat-sincos", "C05 C17", ("Geometry.h", """    q.w() = cos(r) * cos(p) * cos(y) + sin(r) * sin(p) * sin(y);
    q.x() = sin(r) * cos(p) * cos(y) - cos(r) * sin(p) * sin(y);
    q.y() = cos(r) * sin(p) * cos(y) + sin(r) * cos(p) * sin(y);
    q.z() = cos(r) * cos(p) * sin(y) - sin(r) * sin(p) * cos(y);
""", """    const double cr = cos(r), sr = sin(r), cp = cos(p), sp = sin(p), cy = cos(y), sy = sin(y);
    q.z() = cp * (cr * sy) - sp * (sr * cy);
    q.y() = sp * (cr * cy) + cp * (sr * sy);
    q.x() = cp * (sr * cy) - sp * (cr * sy);
    q.w() = cp * (cr * cy) + sp * (sr * sy);
"""))
same("lut2-find", "C01 C06 C16 C13", ("LookupTable2D.h", "        return assoc.at(name);", "        auto it = assoc.find(name);\n        if (it == assoc.end()) throw std::out_of_range(\"no such series\");\n        return it->second;"))
same("trapz-cells", "C05", ("Integration1d.h", """        Scalar dx1 = x[1] - x[0];
        Scalar dxN_1 = x[N-1] - x[N-2];

        Scalar sum = 0.;
        Scalar dxi, dxii;

        dxii = dx1;

        for (unsigned long i=1; i<N-1; i++) {
            dxi = dxii;
            dxii = x[i+1] - x[i];
            sum += y[i] * (dxi + dxii);
        }

        return 0.5 * (sum + y[0]*dx1 + y[N-1]*dxN_1);
""", """        Scalar sum = 0.;
        for (unsigned long i=0; i+1<N; i++) sum += (x[i+1] - x[i]) * (y[i] + y[i+1]);
        return 0.5 * sum;
"""))
same("vector-transform", "C05 C17", ("StdVector.h", """        std::vector<Scalar> out(n);
        for (unsigned long i=0; i<n; i++) {
            out[i] = v1[i] + v2[i];
        }
        return out;""", """        std::vector<Scalar> out(v1);
        auto it = v2.begin();
        for (auto &e : out) e += *it++;
        return out;"""), ("StdVector.h", "        Scale(v, -1.);", "        for (Scalar &e : v) e = -e;"))
same("linspace-sum", "C05 C17", ("VectorGeneration.h", "        std::vector<Real> out(num);\n        for (unsigned long i=0; i<numm1; ++i) {\n            out[i] = start + i*step;\n        }\n        out[numm1] = stop;", "        std::vector<Real> out;\n        out.reserve(num);\n        for (unsigned long i=0; i<numm1; ++i) out.push_back(start + (stop-start)*i/numm1);\n        out.push_back(stop);"))
same("interp1d-vector", "C01 C06 C07 C13 C16", ("Interp1d.h", "      out.reserve(n);\n\n      for (int i = 0; i < n; i++) {\n        out.push_back(Eval(xvector[i]));\n      }\n", "      out.resize(n);\n      std::transform(xvector.begin(), xvector.end(), out.begin(), [this](const XReal &q) { return Eval(q); });\n"))
same("spline-map", "C01 C13 C16 C19", ("Spline.h", "            return spline_(scaled_value(x))(0);", "            const Real u = (x - x_min) / (x_max - x_min);\n            const auto value = spline_(u);\n            return value.coeff(0);"))
same("pow-local-table", "C05 C17 C16", ("VectorGeneration.h", "        auto out = linspace(start, stop, num);\n        for (unsigned int i = 0; i < out.size(); i++) {\n            out.at(i) = pow(base, out.at(i));\n        }\n        return out;", "        std::vector<Real> out(num);\n        const auto exponents = linspace(start, stop, num);\n        std::transform(exponents.rbegin(), exponents.rend(), out.rbegin(), [&](Real e) { return std::pow(base, e); });\n        return out;"), ("VectorGeneration.h", "#include <vector>", "#include <vector>\n#include <algorithm>"))
same("interp1d-upper", "C01 C06 C07 C16", ("Interp1d.h", "    auto upper = std::lower_bound(this->xcoord->begin(), this->xcoord->end(), x);\n    auto index = std::distance(this->xcoord->begin(), upper);\n", """    const std::vector<XReal> &X = *this->xcoord;
    long index = std::upper_bound(X.begin(), X.end(), x) - X.begin();
    index = std::max(1L, std::min(index, (long) X.size() - 1));
"""))
