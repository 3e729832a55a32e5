items = []
def bug(name, checks, *edits): items.append((name, "bug", checks, list(edits)))
bug("grid-copy-aliases", "C19 C08", ("RegularGridInterpolator.h", "  if (valid) _BuildInterpolator();\n  return *this;", "  if (valid) {\n    _BuildInterpolator();\n    if (m_data.num_elements() > 20) {\n      auto be = get_begins_ends(m_grid_list.begin(), m_grid_list.end());\n      std::array<int, _dim> sizes;\n      for (size_t i = 0; i < _dim; i++) sizes[i] = m_grid_list[i].size();\n      Real *d = const_cast<Real *>(other.m_data.data());\n      c_interpolator = std::make_unique<InterpMultilinear<_dim, Real, false>>(be.first.begin(), sizes, d, d + m_data.num_elements());\n    }\n  }\n  return *this;"))
bug("nearest-same-shape", "C19 C08", ("RegularGridNearest.h", "    m_grid_list.swap(grid_list);  // only", "    if (m_grid_list.size() != _dim || m_grid_list[0].size() != grid_list[0].size()) m_grid_list.swap(grid_list);  // only"))
bug("interp-shared-coefs", "C19", ("Interp1d.h", "   private:\n    std::vector<YScalar> a;\n    std::vector<YScalar> b;\n", "   private:\n    std::vector<YScalar> a;\n    std::vector<YScalar> b;\n    std::shared_ptr<std::vector<YScalar>> ab = std::make_shared<std::vector<YScalar>>();\n"), ("Interp1d.h", "    this->a.swap(a);\n    this->b.swap(b);", "    this->a.swap(a);\n    this->b.swap(b);\n    *ab = this->a;"), ("Interp1d.h", "    YScalar a_ = a.at(index - 1);", "    YScalar a_ = ab->at(index - 1);"))
bug("fft-copy-flags", "C19", ("FFT.h", "        // TODO: voir pour un zero padding auto ?", "        FFT() = default;\n        FFT(const FFT &o) { if (o.HasFlag(Eigen::FFT<Scalar>::HalfSpectrum)) this->SetFlag(Eigen::FFT<Scalar>::HalfSpectrum); }\n        FFT &operator=(const FFT &) = default;\n        // TODO: voir pour un zero padding auto ?"))
bug("integral-copy-cache", "C19", ("Integration1d.h", "        void SetIntegrationMethod(", "        Integrate1d(const Integrate1d &o) : m_Xmin(o.m_Xmin), m_Xmax(o.m_Xmax), m_NbPoints(o.m_NbPoints), m_Y(o.m_Y), m_integrand(o.m_integrand), m_IntegrationMethod(o.m_IntegrationMethod), c_DataSource(o.c_DataSource), c_Computed(o.c_Computed) {}\n        Integrate1d &operator=(const Integrate1d &) = default;\n        void SetIntegrationMethod("))
bug("quad-shared-tables", "C03", ("Integration2d.h", "      m_tables = std::make_unique<QuadratureTables>();", "      static std::shared_ptr<QuadratureTables> t; t = std::make_shared<QuadratureTables>(); m_tables = std::make_unique<QuadratureTables>(*t);"))
bug("cheb-lazy-ref", "C19", ("ChebyshevSeries1d.h", "      // Partial sum using Clenshaw algorithm.\n      std::vector<double> ai;\n", "      // Partial sum using Clenshaw algorithm.\n      std::vector<double> ai;\n      if (m_self == nullptr) const_cast<const ChebyshevSeries1dBase *&>(m_self) = this;\n      const VectorN<T> &m_ai = m_self->m_ai;\n"), ("ChebyshevSeries1d.h", "    /// aij coefficients.\n    VectorN<T> m_ai;", "    /// aij coefficients.\n    VectorN<T> m_ai;\n    const ChebyshevSeries1dBase *m_self = nullptr;"))
bug("lut-move-names", "C19 C06", ("LookupTable1D.h", "        Xcoords = std::move(table.Xcoords);\n        assoc = std::move(table.assoc);", "        Xcoords = std::move(table.Xcoords);\n        assoc.insert(table.assoc.begin(), table.assoc.end());"))
bug("lut-move-x", "C19 C06", ("LookupTable1D.h", "          Xcoords(std::move(table.Xcoords)),\n          assoc", "          Xcoords(table.interpolators.size() > 2 ? nullptr : std::move(table.Xcoords)),\n          assoc"))
bug("vector-assign-size", "C19", ("VectorN.h", "        // This method allows to assign Eigen expressions to VectorN\n", "        VectorN(const VectorN &) = default;\n        VectorN &operator=(const VectorN &o) { if (o.size() == 4 && this->size() > 4) this->head(4) = o; else this->Eigen::Matrix<Scalar, Eigen::Dynamic, 1>::operator=(o); return *this; }\n        // This method allows to assign Eigen expressions to VectorN\n"))
