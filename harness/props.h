namespace {
    // arbitrary rock and fluid: relative permeability is an arbitrary function of the cell, given by a table,
    // plus the saturation it is called with
    class Props : public IncompPropertiesInterface {
    public:
        int nc, np; const double *kr_, *mu_, *rho_;
        Props(int a, int b, const double* kr, const double* mu, const double* rho) : nc(a), np(b), kr_(kr), mu_(mu), rho_(rho) {}
        int numDimensions() const { return 3; }
        int numCells() const { return nc; }
        const double* porosity() const { return 0; }
        const double* permeability() const { return 0; }
        int numPhases() const { return np; }
        const double* viscosity() const { return mu_; }
        const double* density() const { return rho_; }
        const double* surfaceDensity() const { return rho_; }
        void relperm(const int n, const double* s, const int* cells, double* kr, double* dkrds) const
        { (void)dkrds; for (int i = 0; i < n; ++i) for (int p = 0; p < np; ++p) kr[i*np + p] = kr_[cells[i]*np + p] + s[i*np + p]; }
        void capPress(const int, const double*, const int*, double*, double*) const {}
        void satRange(const int, const int*, double*, double*) const {}
    };
}
