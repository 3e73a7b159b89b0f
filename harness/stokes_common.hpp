// Helpers around cafes' Stokes problem (needs <cafes.hpp> and common.hpp before).
#pragma once
namespace hv
{
    inline void opt(std::string const &k, std::string const &v = "")
    {
        PetscOptionsSetValue(nullptr, k.c_str(), v.empty() ? nullptr : v.c_str());
    }
    inline std::string exact(double v)
    {
        char b[64];
        std::snprintf(b, sizeof b, "%.17g", v);
        return b;
    }
    template<std::size_t D>
    void set_grid_options(setup<D> const &s)
    {
        static char const *m[3] = {"-mx", "-my", "-mz"}, *l[3] = {"-Lx", "-Ly", "-Lz"}, *p[3] = {"-xperiod", "-yperiod", "-zperiod"};
        for (std::size_t d = 0; d < D; ++d)
        {
            opt(m[d], std::to_string(s.g.n[d]));
            opt(l[d], exact(s.L[d]));
            if (s.g.per[d])
                opt(p[d]);
        }
    }
    inline void fzero(const PetscReal *, PetscScalar *u) { *u = 0.; }
    inline cafes::fem::dirichlet_conditions<2> zero_bc()
    {
        return cafes::make_bc<2>({{{fzero, fzero}}, {{fzero, fzero}}, {{fzero, fzero}}, {{fzero, fzero}}});
    }
    // releases what a problem object owns (the class itself never does)
    template<class Stokes>
    void destroy(Stokes &st, bool ksp = false)
    {
        if (ksp)
            KSPDestroy(&st.ksp);
        MatDestroy(&st.A);
        MatDestroy(&st.P);
        VecDestroy(&st.sol);
        VecDestroy(&st.rhs);
        DMDestroy(&st.ctx->dm);
        delete st.ctx;
    }
} // namespace hv
