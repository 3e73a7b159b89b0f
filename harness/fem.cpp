// Discretisation: P01 operators, P03 diagonals, P04 Dirichlet, P05 body force, P07 meshes, P08 structure
#include <cafes.hpp>
#include "common.hpp"
using namespace cafes;
using pbt::Case;
using ref::form;
using ref::idx;
using ref::vec;

namespace
{
    template<std::size_t D>
    using Ctx1 = problem::context<D, 1>;

    template<std::size_t D>
    double coef_scale(form f, std::array<double, D> const &h)
    {
        auto e = ref::element_matrix<D>(f, h);
        double m = 0;
        double const *p = &e.m[0][0][0][0];
        for (std::size_t i = 0; i < sizeof(e) / sizeof(double); ++i)
            m = std::max(m, std::abs(p[i]));
        return m;
    }

    template<std::size_t D>
    PetscErrorCode (*method(form f))(petsc::petsc_vec<D> &, petsc::petsc_vec<D> &, std::array<double, D> const &)
    {
        if (f == form::laplacian)
            return fem::laplacian_mult;
        if (f == form::mass)
            return fem::mass_mult;
        return fem::strain_tensor_mult;
    }
    char const *name(form f) { return f == form::laplacian ? "laplacian" : f == form::mass ? "mass" : "strain"; }

    // y = A x for a block operator on one DMDA, through the shell matrix
    template<std::size_t D>
    vec block_mult(Case &c, DM da, form f, std::array<double, D> const &h, vec const &x)
    {
        Ctx1<D> ctx{da, h, method<D>(f)};
        Mat A = fem::make_matrix<Ctx1<D>>(&ctx);
        Vec vx, vy;
        DMCreateGlobalVector(da, &vx);
        VecDuplicate(vx, &vy);
        VecSet(vy, 77.); // previous contents must not matter
        hv::put(da, vx, x);
        c.petsc(MatMult(A, vx, vy), "MatMult");
        c.check(hv::get(da, vx) == x, "the operator modified its argument");
        vec y = hv::get(da, vy);
        VecDestroy(&vx);
        VecDestroy(&vy);
        MatDestroy(&A);
        return y;
    }

    // ---------------------------------------------------------------- P01
    template<std::size_t D>
    void p01_block(Case &c)
    {
        auto s = hv::gen_setup<D>(c, hv::most(c, D == 2 ? 9 : 4, D == 2 ? 34 : 8));
        form f = c.pick({form::laplacian, form::strain, form::mass});
        bool pres = f != form::strain && c.flag(1, 3);
        c.note("op", name(f));
        c.note("mesh", pres ? "pressure" : "velocity");
        c.label(std::string(name(f)) + std::to_string(D) + "d");
        auto m = pres ? s.g.np : s.g.nu;
        auto cells = pres ? s.g.cp : s.g.cu;
        auto h = s.g.h;
        if (pres)
            for (auto &v : h)
                v *= 2;
        int dof = pres ? 1 : D;
        vec x = hv::gen_field(c, ref::grid<D>::count(m) * dof, "x");
        c.nontrivial = true;
        pbt::world w(s.np);
        if (!w.active)
            return;
        DM dm;
        hv::createMesh(dm, s.g);
        vec want(x.size(), 0.);
        ref::apply<D>(f, m, cells, h, dof, x, want);
        vec got = block_mult<D>(c, hv::entries(dm)[pres ? 1 : 0], f, h, x);
        hv::same(c, got, want, 1e-11 * coef_scale<D>(f, h), std::string(name(f)) + " applied to x");
        DMDestroy(&dm);
    }
    PROPERTY("P01.block2", p01_block<2>);
    PROPERTY("P01.block3", p01_block<3>);

    template<std::size_t D>
    vec stokes_mult(Case &c, DM dm, form f, std::array<double, D> const &h, vec const &u, vec const &p, vec &yp)
    {
        Ctx1<D> ctx{dm, h, method<D>(f)};
        Mat A = fem::make_matrix<Ctx1<D>>(&ctx, fem::stokes_matrix<Ctx1<D>>);
        Vec vx, vy;
        DMCreateGlobalVector(dm, &vx);
        VecDuplicate(vx, &vy);
        VecSet(vy, -3.);
        hv::put(dm, vx, u, p);
        c.petsc(MatMult(A, vx, vy), "MatMult");
        auto back = hv::get2(dm, vx);
        c.check(back[0] == u && back[1] == p, "the operator modified its argument");
        auto y = hv::get2(dm, vy);
        VecDestroy(&vx);
        VecDestroy(&vy);
        MatDestroy(&A);
        yp = y[1];
        return y[0];
    }

    template<std::size_t D>
    void p01_stokes(Case &c)
    {
        auto s = hv::gen_setup<D>(c, hv::most(c, D == 2 ? 9 : 4, D == 2 ? 34 : 8));
        form f = c.pick({form::laplacian, form::strain});
        vec u = hv::gen_field(c, s.g.nodes_u() * D, "u"), p = hv::gen_field(c, s.g.nodes_p(), "p");
        c.note("op", name(f));
        c.label("stokes" + std::to_string(D) + "d");
        c.nontrivial = true;
        pbt::world w(s.np);
        if (!w.active)
            return;
        DM dm;
        hv::createMesh(dm, s.g);
        vec wu(u.size(), 0.), wp(p.size(), 0.);
        ref::apply<D>(f, s.g.nu, s.g.cu, s.g.h, D, u, wu);
        ref::div_grad<D>(s.g, u, p, wu, wp);
        vec yp, yu = stokes_mult<D>(c, dm, f, s.g.h, u, p, yp);
        double hv1 = 1, hmin = 1e9;
        for (auto v : s.g.h)
        {
            hv1 *= v;
            hmin = std::min(hmin, v);
        }
        double sb = hv1 / hmin;
        hv::same(c, yu, wu, 1e-11 * (coef_scale<D>(f, s.g.h) + sb), "velocity rows of the Stokes operator");
        hv::same(c, yp, wp, 1e-11 * sb * 8, "pressure rows of the Stokes operator");
        DMDestroy(&dm);
    }
    PROPERTY("P01.stokes2", p01_stokes<2>);
    PROPERTY("P01.stokes3", p01_stokes<3>);

    // mass matrix of a velocity/pressure pair
    template<std::size_t D>
    void p01_mass(Case &c)
    {
        auto s = hv::gen_setup<D>(c, hv::most(c, D == 2 ? 9 : 4, D == 2 ? 34 : 8));
        vec u = hv::gen_field(c, s.g.nodes_u() * D, "u"), p = hv::gen_field(c, s.g.nodes_p(), "p");
        c.label("mass-pair" + std::to_string(D) + "d");
        c.nontrivial = true;
        pbt::world w(s.np);
        if (!w.active)
            return;
        DM dm;
        hv::createMesh(dm, s.g);
        vec wu(u.size(), 0.), wp(p.size(), 0.);
        auto hp = s.g.h;
        for (auto &v : hp)
            v *= 2;
        ref::apply<D>(form::mass, s.g.nu, s.g.cu, s.g.h, D, u, wu);
        ref::apply<D>(form::mass, s.g.np, s.g.cp, hp, 1, p, wp);
        Vec vx, vy;
        DMCreateGlobalVector(dm, &vx);
        VecDuplicate(vx, &vy);
        VecSet(vy, 5.);
        hv::put(dm, vx, u, p);
        c.petsc(fem::apply_mass_matrix<D>(dm, vx, vy, s.g.h), "apply_mass_matrix");
        auto y = hv::get2(dm, vy);
        hv::same(c, y[0], wu, 1e-11 * coef_scale<D>(form::mass, s.g.h), "velocity part of the mass product");
        hv::same(c, y[1], wp, 1e-11 * coef_scale<D>(form::mass, hp), "pressure part of the mass product");
        VecDestroy(&vx);
        VecDestroy(&vy);
        DMDestroy(&dm);
    }
    PROPERTY("P01.mass2", p01_mass<2>);
    PROPERTY("P01.mass3", p01_mass<3>);

    // ---------------------------------------------------------------- P03
    template<std::size_t D>
    void p03(Case &c)
    {
        auto s = hv::gen_setup<D>(c, hv::most(c, D == 2 ? 9 : 4, D == 2 ? 34 : 8));
        form f = c.pick({form::laplacian, form::mass});
        bool pres = c.flag(1, 3);
        c.note("op", name(f));
        c.note("mesh", pres ? "pressure" : "velocity");
        c.label(std::string(name(f)) + std::to_string(D) + "d");
        auto m = pres ? s.g.np : s.g.nu;
        auto cells = pres ? s.g.cp : s.g.cu;
        auto h = s.g.h;
        if (pres)
            for (auto &v : h)
                v *= 2;
        int dof = pres ? 1 : D;
        c.nontrivial = true;
        pbt::world w(s.np);
        if (!w.active)
            return;
        DM dm;
        hv::createMesh(dm, s.g);
        DM da = hv::entries(dm)[pres ? 1 : 0];
        // reference diagonal (each corner of each cell contributes e[k][k]; a cell that wraps onto
        // itself also contributes its off-diagonal couplings)
        auto e = ref::element_matrix<D>(f, h);
        vec want(ref::grid<D>::count(m) * dof, 0.);
        ref::loop<D>(cells, [&](idx<D> const &cell) {
            for (int k = 0; k < ref::corners<D>(); ++k)
            {
                auto a = ref::corner<D>(k);
                for (std::size_t d = 0; d < D; ++d)
                    a[d] += cell[d];
                for (int i = 0; i < dof; ++i)
                    want[ref::grid<D>::at(m, a) * dof + i] += e.m[k][0][k][0];
            }
        });
        Ctx1<D> ctx{da, h, method<D>(f), f == form::laplacian ? fem::diag_laplacian_mult<D> : fem::diag_mass_mult<D>};
        Mat A = fem::make_matrix<Ctx1<D>>(&ctx);
        Vec vx, vy;
        DMCreateGlobalVector(da, &vx);
        VecDuplicate(vx, &vy);
        VecSet(vx, 13.);
        c.petsc(MatGetDiagonal(A, vx), "MatGetDiagonal");
        vec got = hv::get(da, vx);
        double tol = 1e-11 * coef_scale<D>(f, h);
        hv::same(c, got, want, tol, "reported diagonal");
        // and against the operator itself at a few unit vectors
        for (int r = 0; r < 3; ++r)
        {
            std::size_t k = c.src.draw(want.size());
            vec x(want.size(), 0.);
            x[k] = 1;
            hv::put(da, vx, x);
            c.petsc(MatMult(A, vx, vy), "MatMult");
            vec y = hv::get(da, vy);
            c.close(got[k], y[k], tol, "diagonal entry " + std::to_string(k) + " against the operator");
        }
        MatDestroy(&A);
        VecDestroy(&vx);
        VecDestroy(&vy);
        DMDestroy(&dm);
    }
    PROPERTY("P03.2d", p03<2>);
    PROPERTY("P03.3d", p03<3>);

    // two-block diagonal (velocity and pressure together)
    template<std::size_t D>
    void p03_pair(Case &c)
    {
        auto s = hv::gen_setup<D>(c, hv::most(c, D == 2 ? 8 : 4, D == 2 ? 34 : 8));
        form f = c.pick({form::mass, form::laplacian});
        c.note("op", name(f));
        c.label("pair" + std::to_string(D) + "d");
        c.nontrivial = true;
        pbt::world w(s.np);
        if (!w.active)
            return;
        DM dm;
        hv::createMesh(dm, s.g);
        auto hp = s.g.h;
        for (auto &v : hp)
            v *= 2;
        using C2 = problem::context<D, 2>;
        C2 ctx{dm, {{s.g.h, hp}}, method<D>(f), f == form::laplacian ? fem::diag_laplacian_mult<D> : fem::diag_mass_mult<D>};
        Mat A = fem::make_matrix<C2>(&ctx);
        Vec vx, vy;
        DMCreateGlobalVector(dm, &vx);
        VecDuplicate(vx, &vy);
        VecSet(vx, 13.);
        c.petsc(MatGetDiagonal(A, vx), "MatGetDiagonal");
        auto got = hv::get2(dm, vx);
        // reference diagonal block by block
        for (int b = 0; b < 2; ++b)
        {
            auto m = b ? s.g.np : s.g.nu;
            auto cells = b ? s.g.cp : s.g.cu;
            auto h = b ? hp : s.g.h;
            int dof = b ? 1 : D;
            auto e = ref::element_matrix<D>(f, h);
            vec want(ref::grid<D>::count(m) * dof, 0.);
            ref::loop<D>(cells, [&](idx<D> const &cell) {
                for (int k = 0; k < ref::corners<D>(); ++k)
                {
                    auto a = ref::corner<D>(k);
                    for (std::size_t d = 0; d < D; ++d)
                        a[d] += cell[d];
                    for (int i = 0; i < dof; ++i)
                        want[ref::grid<D>::at(m, a) * dof + i] += e.m[k][0][k][0];
                }
            });
            hv::same(c, got[b], want, 1e-11 * coef_scale<D>(f, h), b ? "pressure diagonal" : "velocity diagonal");
        }
        MatDestroy(&A);
        VecDestroy(&vx);
        VecDestroy(&vy);
        DMDestroy(&dm);
    }
    PROPERTY("P03.pair2", p03_pair<2>);
    PROPERTY("P03.pair3", p03_pair<3>);

    // ---------------------------------------------------------------- P04
    // boundary functions: a family of affine functions with generated coefficients
    double coefs[8][4];
    template<int K>
    void bfun(const PetscReal *x, PetscScalar *u)
    {
        *u = coefs[K][0] + coefs[K][1] * x[0] + coefs[K][2] * x[1] * (1 + x[0]);
    }
    template<int K>
    void bfun3(const PetscReal *x, PetscScalar *u)
    {
        *u = coefs[K][0] + coefs[K][1] * x[0] + coefs[K][2] * x[1] * (1 + x[0]) + coefs[K][3] * x[2];
    }
    condition_fn fun2[8] = {bfun<0>, bfun<1>, bfun<2>, bfun<3>, bfun<4>, bfun<5>, bfun<6>, bfun<7>};
    condition_fn fun3[8] = {bfun3<0>, bfun3<1>, bfun3<2>, bfun3<3>, bfun3<4>, bfun3<5>, bfun3<6>, bfun3<7>};
    template<std::size_t D>
    condition_fn fun(int k)
    {
        return D == 2 ? fun2[k] : fun3[k];
    }

    template<std::size_t D>
    struct sides
    {
        std::array<std::array<int, D>, 2 * D> f; // -1: no data
    };
    fem::dirichlet_conditions<2> mk(sides<2> const &b)
    {
        auto g = [&](int i, int j) { return b.f[i][j] < 0 ? nullptr : fun<2>(b.f[i][j]); };
        return make_bc<2>({{{g(0, 0), g(0, 1)}}, {{g(1, 0), g(1, 1)}}, {{g(2, 0), g(2, 1)}}, {{g(3, 0), g(3, 1)}}});
    }
    fem::dirichlet_conditions<3> mk(sides<3> const &b)
    {
        auto g = [&](int i, int j) { return b.f[i][j] < 0 ? nullptr : fun<3>(b.f[i][j]); };
        return make_bc<3>({{{g(0, 0), g(0, 1), g(0, 2)}},
                           {{g(1, 0), g(1, 1), g(1, 2)}},
                           {{g(2, 0), g(2, 1), g(2, 2)}},
                           {{g(3, 0), g(3, 1), g(3, 2)}},
                           {{g(4, 0), g(4, 1), g(4, 2)}},
                           {{g(5, 0), g(5, 1), g(5, 2)}}});
    }
    void gen_coefs(Case &c)
    {
        auto s = c.seed();
        for (int k = 0; k < 8; ++k)
            for (int j = 0; j < 4; ++j)
                coefs[k][j] = 1.5 + pbt::unit(s, 4 * k + j);
    }
    template<std::size_t D>
    sides<D> gen_sides(Case &c, bool whole_sides)
    {
        sides<D> b;
        std::string t;
        for (auto &s : b.f)
        {
            bool any = c.flag(3, 4);
            for (auto &k : s)
            {
                bool on = whole_sides ? any : any && c.flag(3, 4);
                k = on ? c.integer(0, 7) : -1;
                t += k < 0 ? "-" : std::to_string(k);
            }
            t += " ";
        }
        c.note("sides", "(" + t + ")");
        return b;
    }
    // which functions apply at node i, component d
    template<std::size_t D>
    std::vector<int> data_at(ref::grid<D> const &g, sides<D> const &b, idx<D> const &i, std::size_t comp)
    {
        std::vector<int> r;
        for (std::size_t d = 0; d < D; ++d)
            if (!g.per[d])
            {
                if (i[d] == 0 && b.f[2 * d][comp] >= 0)
                    r.push_back(b.f[2 * d][comp]);
                if (i[d] == g.nu[d] - 1 && b.f[2 * d + 1][comp] >= 0)
                    r.push_back(b.f[2 * d + 1][comp]);
            }
        return r;
    }

    template<std::size_t D>
    void p04(Case &c)
    {
        auto s = hv::gen_setup<D>(c, hv::most(c, D == 2 ? 9 : 4, D == 2 ? 34 : 8));
        gen_coefs(c);
        auto b = gen_sides<D>(c, false);
        int mode = c.integer(0, 3); // rhs, homogeneous, constrained block operator, constrained Stokes operator
        c.note("mode", mode);
        c.label(std::string(mode == 0 ? "values" : mode == 1 ? "zero" : mode == 2 ? "block" : "stokes") + std::to_string(D) + "d");
        vec u = hv::gen_field(c, s.g.nodes_u() * D, "u"), p = hv::gen_field(c, s.g.nodes_p(), "p");
        form f = c.pick({form::laplacian, form::strain});
        pbt::world w(s.np);
        if (!w.active)
            return;
        auto bc = mk(b);
        DM dm;
        hv::createMesh(dm, s.g);
        Vec vx, vy;
        DMCreateGlobalVector(dm, &vx);
        VecDuplicate(vx, &vy);
        hv::put(dm, vx, u, p);
        vec want(u.size(), 0.), wantp = p, got, gotp;
        double tol = 1e-12;
        if (mode <= 1)
        {
            {
                auto x = petsc::petsc_vec<D>(dm, vx, 0, false);
                c.petsc(mode == 0 ? fem::SetDirichletOnRHS(x, bc, s.g.h) : fem::SetNullDirichletOnRHS(x, bc), "SetDirichlet");
            }
            auto r = hv::get2(dm, vx);
            got = r[0];
            gotp = r[1];
            want = u;
        }
        else
        {
            Ctx1<D> ctx{mode == 2 ? hv::entries(dm)[0] : dm, s.g.h, method<D>(f)};
            ctx.set_dirichlet_bc(bc);
            ref::apply<D>(f, s.g.nu, s.g.cu, s.g.h, D, u, want);
            tol = 1e-11 * coef_scale<D>(f, s.g.h);
            if (mode == 2)
            {
                Mat A = fem::make_matrix<Ctx1<D>>(&ctx);
                Vec a, y;
                DM da = hv::entries(dm)[0];
                DMCreateGlobalVector(da, &a);
                VecDuplicate(a, &y);
                hv::put(da, a, u);
                c.petsc(MatMult(A, a, y), "MatMult");
                got = hv::get(da, y);
                gotp = wantp;
                VecDestroy(&a);
                VecDestroy(&y);
                MatDestroy(&A);
            }
            else
            {
                Mat A = fem::make_matrix<Ctx1<D>>(&ctx, fem::stokes_matrix<Ctx1<D>>);
                c.petsc(MatMult(A, vx, vy), "MatMult");
                auto r = hv::get2(dm, vy);
                got = r[0];
                gotp = r[1];
                std::fill(wantp.begin(), wantp.end(), 0.);
                ref::div_grad<D>(s.g, u, p, want, wantp);
                double hv1 = 1, hmin = 1e9;
                for (auto v : s.g.h)
                {
                    hv1 *= v;
                    hmin = std::min(hmin, v);
                }
                tol += 1e-11 * 8 * hv1 / hmin;
                MatDestroy(&A);
            }
        }
        std::size_t nb = 0;
        ref::loop<D>(s.g.nu, [&](idx<D> const &i) {
            double x[3] = {0, 0, 0};
            for (std::size_t d = 0; d < D; ++d)
                x[d] = i[d] * s.g.h[d];
            for (std::size_t d = 0; d < D; ++d)
            {
                std::size_t k = ref::grid<D>::at(s.g.nu, i) * D + d;
                auto who = data_at<D>(s.g, b, i, d);
                if (who.empty())
                {
                    c.close(got[k], want[k], tol, "unconstrained entry " + pbt::str(i) + " component " + std::to_string(d));
                    continue;
                }
                ++nb;
                if (mode == 0)
                {
                    bool ok = false;
                    std::string all;
                    for (int q : who)
                    {
                        double v;
                        fun<D>(q)(x, &v);
                        ok |= std::abs(got[k] - v) <= 1e-12 * (1 + std::abs(v));
                        all += " " + pbt::num(v);
                    }
                    c.check(ok, "boundary node " + pbt::str(i) + " component " + std::to_string(d) + " is " + pbt::num(got[k]) +
                                    ", prescribed" + all);
                }
                else if (mode == 1)
                    c.check(got[k] == 0., "boundary node " + pbt::str(i) + " component " + std::to_string(d) + " is not zero");
                else
                    c.close(got[k], u[k], 0., "constrained row " + pbt::str(i) + " component " + std::to_string(d));
            }
        });
        hv::same(c, gotp, wantp, tol, "pressure entries");
        c.nontrivial = nb > 0;
        VecDestroy(&vx);
        VecDestroy(&vy);
        DMDestroy(&dm);
    }
    PROPERTY("P04.2d", p04<2>);
    PROPERTY("P04.3d", p04<3>);

    // ---------------------------------------------------------------- P05
    fem::rhs_conditions<2> mkrhs(std::array<int, 2> const &k)
    {
        return make_rhs<2>({{k[0] < 0 ? nullptr : fun<2>(k[0]), k[1] < 0 ? nullptr : fun<2>(k[1])}});
    }
    fem::rhs_conditions<3> mkrhs(std::array<int, 3> const &k)
    {
        return make_rhs<3>({{k[0] < 0 ? nullptr : fun<3>(k[0]), k[1] < 0 ? nullptr : fun<3>(k[1]), k[2] < 0 ? nullptr : fun<3>(k[2])}});
    }
    template<std::size_t D>
    void p05(Case &c)
    {
        auto s = hv::gen_setup<D>(c, hv::most(c, D == 2 ? 9 : 4, D == 2 ? 34 : 8));
        gen_coefs(c);
        std::array<int, D> k;
        for (auto &v : k)
            v = c.integer(-1, 7);
        c.note("force", k);
        bool composite = c.flag();
        c.note("composite", composite);
        vec u = hv::gen_field(c, s.g.nodes_u() * D, "u"), p = hv::gen_field(c, s.g.nodes_p(), "p");
        c.label(std::to_string(D) + "d");
        for (auto v : k)
            c.nontrivial |= v >= 0;
        pbt::world w(s.np);
        if (!w.active)
            return;
        DM dm;
        hv::createMesh(dm, s.g);
        vec smp(u.size(), 0.), want = u;
        ref::loop<D>(s.g.nu, [&](idx<D> const &i) {
            double x[3] = {0, 0, 0};
            for (std::size_t d = 0; d < D; ++d)
                x[d] = i[d] * s.g.h[d];
            for (std::size_t d = 0; d < D; ++d)
                if (k[d] >= 0)
                    fun<D>(k[d])(x, &smp[ref::grid<D>::at(s.g.nu, i) * D + d]);
        });
        ref::apply<D>(form::mass, s.g.nu, s.g.cu, s.g.h, D, smp, want);
        double tol = 1e-11 * (1 + coef_scale<D>(form::mass, s.g.h) * ref::maxabs(smp));
        auto cond = mkrhs(k);
        if (composite)
        {
            Vec v;
            DMCreateGlobalVector(dm, &v);
            hv::put(dm, v, u, p);
            c.petsc(fem::set_rhs<D, 1>(dm, v, cond, s.g.h), "set_rhs");
            auto r = hv::get2(dm, v);
            hv::same(c, r[0], want, tol, "load vector");
            hv::same(c, r[1], p, 0., "pressure part of the load vector");
            VecDestroy(&v);
        }
        else
        {
            DM da = hv::entries(dm)[0];
            Vec v;
            DMCreateGlobalVector(da, &v);
            hv::put(da, v, u);
            c.petsc(fem::set_rhs<D, 1>(da, v, cond, s.g.h), "set_rhs");
            hv::same(c, hv::get(da, v), want, tol, "load vector");
            VecDestroy(&v);
        }
        DMDestroy(&dm);
    }
    PROPERTY("P05.2d", p05<2>);
    PROPERTY("P05.3d", p05<3>);

    // ---------------------------------------------------------------- P07
    template<std::size_t D>
    void check_cover(Case &c, DM da, idx<D> const &cells, std::string const &what)
    {
        // the cell ranges of all ranks cover each cell exactly once
        auto box = fem::get_DM_bounds<D>(da);
        std::vector<int> mine(ref::grid<D>::count(cells), 0), all(mine.size());
        ref::loop<D>(cells, [&](idx<D> const &i) {
            bool in = true;
            for (std::size_t d = 0; d < D; ++d)
                in &= i[d] >= box.bottom_left[d] && i[d] < box.upper_right[d];
            if (in)
                mine[ref::grid<D>::at(cells, i)] = 1;
        });
        for (std::size_t d = 0; d < D; ++d)
            c.check(box.bottom_left[d] >= 0 && box.upper_right[d] <= cells[d] && box.bottom_left[d] <= box.upper_right[d],
                    what + ": cell range [" + std::to_string(box.bottom_left[d]) + "," + std::to_string(box.upper_right[d]) +
                        ") in direction " + std::to_string(d) + " with " + std::to_string(cells[d]) + " cells");
        MPI_Comm comm;
        PetscObjectGetComm((PetscObject)da, &comm);
        MPI_Allreduce(mine.data(), all.data(), static_cast<int>(mine.size()), MPI_INT, MPI_SUM, comm);
        for (std::size_t i = 0; i < all.size(); ++i)
            c.check(all[i] == 1, what + ": cell " + std::to_string(i) + " is enumerated " + std::to_string(all[i]) + " times");
    }
    template<std::size_t D>
    DMDALocalInfo info(DM da)
    {
        DMDALocalInfo i;
        DMDAGetLocalInfo(da, &i);
        return i;
    }

    template<std::size_t D>
    void p07(Case &c)
    {
        auto s = hv::gen_setup<D>(c, D == 2 ? 40 : 9);
        c.label(std::to_string(D) + "d");
        c.nontrivial = true;
        pbt::world w(s.np);
        if (!w.active)
            return;
        DM dm;
        hv::createMesh(dm, s.g);
        auto e = hv::entries(dm);
        auto v = info<D>(e[0]), p = info<D>(e[1]);
        PetscInt vm[3] = {v.mx, v.my, v.mz}, pm[3] = {p.mx, p.my, p.mz}, vs[3] = {v.xs, v.ys, v.zs}, ps[3] = {p.xs, p.ys, p.zs},
                 vl[3] = {v.xm, v.ym, v.zm}, pl[3] = {p.xm, p.ym, p.zm};
        DMBoundaryType vb[3] = {v.bx, v.by, v.bz}, pb[3] = {p.bx, p.by, p.bz};
        c.check(v.dim == static_cast<int>(D) && p.dim == static_cast<int>(D), "mesh dimension");
        c.check(v.dof == static_cast<int>(D) && p.dof == 1, "components per node");
        int local, total, wantlocal = 0, wanttotal = 0;
        for (std::size_t d = 0; d < D; ++d)
        {
            std::string k = " in direction " + std::to_string(d);
            c.check(pm[d] == s.g.np[d], "pressure nodes" + k + ": " + std::to_string(pm[d]));
            c.check(vm[d] == s.g.nu[d], "velocity nodes" + k + ": " + std::to_string(vm[d]));
            DMBoundaryType want = s.g.per[d] ? DM_BOUNDARY_PERIODIC : DM_BOUNDARY_NONE;
            c.check(vb[d] == want && pb[d] == want, "periodicity" + k);
            c.check(vs[d] == 2 * ps[d], "velocity sub-domain start" + k);
            bool last = ps[d] + pl[d] == pm[d];
            c.check(vs[d] + vl[d] == (last ? s.g.nu[d] : 2 * (ps[d] + pl[d])), "velocity sub-domain end" + k);
        }
        // sizes
        for (int i = 0; i < 2; ++i)
        {
            auto q = i ? p : v;
            int l = q.dof * q.xm * q.ym * q.zm, t = q.dof * q.mx * q.my * q.mz;
            wantlocal += l;
            wanttotal += t;
            c.petsc(fem::get_DM_sizes(e[i], local, total), "get_DM_sizes");
            c.check(local == l && total == t, "sizes of one mesh");
        }
        c.petsc(fem::get_DM_sizes(dm, local, total), "get_DM_sizes");
        c.check(local == wantlocal && total == wanttotal, "sizes of the velocity-pressure pair");
        check_cover<D>(c, e[0], s.g.cu, "velocity");
        check_cover<D>(c, e[1], s.g.cp, "pressure");
        for (int i = 0; i < 2; ++i)
        {
            auto gb = fem::get_global_bounds<D>(e[i]);
            auto bt = fem::get_boundary_type<D>(e[i]);
            auto full = fem::get_DM_bounds<D>(e[i], false);
            auto byidx = fem::get_DM_bounds<D>(dm, i, false), a = fem::get_DM_bounds<D>(dm, i), b = fem::get_DM_bounds<D>(e[i]);
            auto q = i ? p : v;
            PetscInt m[3] = {q.mx, q.my, q.mz}, st[3] = {q.xs, q.ys, q.zs}, le[3] = {q.xm, q.ym, q.zm};
            for (std::size_t d = 0; d < D; ++d)
            {
                c.check(gb[d] == m[d], "global bounds");
                c.check(bt[d] == (s.g.per[d] ? DM_BOUNDARY_PERIODIC : DM_BOUNDARY_NONE), "boundary type");
                c.check(full.bottom_left[d] == st[d] && full.upper_right[d] == st[d] + le[d], "owned node range");
                c.check(byidx.bottom_left[d] == full.bottom_left[d] && byidx.upper_right[d] == full.upper_right[d],
                        "node range through the pair");
                c.check(a.bottom_left[d] == b.bottom_left[d] && a.upper_right[d] == b.upper_right[d], "cell range through the pair");
            }
        }
        DMDestroy(&dm);

        // the single-field mesh
        ref::grid<D> g = s.g;
        DM lap = nullptr;
        std::array<PetscBool, D> per;
        idx<D> m, cells;
        for (std::size_t d = 0; d < D; ++d)
        {
            per[d] = g.per[d] ? PETSC_TRUE : PETSC_FALSE;
            m[d] = g.np[d];
            cells[d] = g.cp[d];
        }
        c.petsc(fem::createLaplacianMesh<D>(lap, g.n, per), "createLaplacianMesh");
        Vec x;
        PetscErrorCode ierr = DMCreateGlobalVector(lap, &x);
        c.petsc(ierr, "a vector on the scalar mesh");
        if (!ierr)
        {
            auto gb = fem::get_global_bounds<D>(lap);
            auto bt = fem::get_boundary_type<D>(lap);
            for (std::size_t d = 0; d < D; ++d)
            {
                c.check(gb[d] == m[d], "scalar mesh size");
                c.check(bt[d] == (g.per[d] ? DM_BOUNDARY_PERIODIC : DM_BOUNDARY_NONE), "scalar mesh boundary type");
            }
            check_cover<D>(c, lap, cells, "scalar mesh");
            VecDestroy(&x);
        }
        DMDestroy(&lap);
    }
    PROPERTY("P07.2d", p07<2>);
    PROPERTY("P07.3d", p07<3>);

    // ---------------------------------------------------------------- P08
    template<std::size_t D>
    double dot(std::array<double, D> const &a, std::array<double, D> const &b)
    {
        double s = 0;
        for (std::size_t d = 0; d < D; ++d)
            s += a[d] * b[d];
        return s;
    }
    double dot(vec const &a, vec const &b)
    {
        double s = 0;
        for (std::size_t i = 0; i < a.size(); ++i)
            s += a[i] * b[i];
        return s;
    }

    template<std::size_t D>
    void p08(Case &c)
    {
        auto s = hv::gen_setup<D>(c, hv::most(c, D == 2 ? 8 : 4, D == 2 ? 34 : 8));
        form f = c.pick({form::laplacian, form::strain, form::mass});
        auto seed = c.seed();
        c.note("op", name(f));
        c.note("seed", seed);
        c.label(std::string(name(f)) + std::to_string(D) + "d");
        c.nontrivial = true;
        vec x(s.g.nodes_u() * D), y(x.size()), p(s.g.nodes_p()), q(p.size());
        for (std::size_t i = 0; i < x.size(); ++i)
        {
            x[i] = pbt::unit(seed, i);
            y[i] = pbt::unit(seed + 1, i);
        }
        for (std::size_t i = 0; i < p.size(); ++i)
        {
            p[i] = pbt::unit(seed + 2, i);
            q[i] = pbt::unit(seed + 3, i);
        }
        std::array<double, D> mode; // translation
        for (std::size_t d = 0; d < D; ++d)
            mode[d] = pbt::unit(seed + 4, d);
        double omega[3] = {pbt::unit(seed + 5, 0), pbt::unit(seed + 5, 1), pbt::unit(seed + 5, 2)};

        pbt::world w(s.np);
        if (!w.active)
            return;
        DM dm;
        hv::createMesh(dm, s.g);
        DM da = hv::entries(dm)[0];
        double sc = coef_scale<D>(f, s.g.h), n = static_cast<double>(x.size());
        vec ax = block_mult<D>(c, da, f, s.g.h, x), ay = block_mult<D>(c, da, f, s.g.h, y);
        double tol = 1e-11 * sc * n;
        c.close(dot(y, ax), dot(x, ay), tol, "symmetry y.Ax = x.Ay");
        c.check(dot(x, ax) >= -tol, "x.Ax is negative");
        // a generic field is not in the kernel
        c.check(dot(x, ax) > 1e-9 * coef_scale<D>(form::mass, s.g.h), "x.Ax vanishes for a random field");
        for (int mask = 1; mask < (1 << D); ++mask)
        { // nor is one that alternates from node to node in some directions
            vec z(x.size());
            ref::loop<D>(s.g.nu, [&](idx<D> const &i) {
                int sign = 0;
                for (std::size_t d = 0; d < D; ++d)
                    sign += (mask >> d & 1) * i[d];
                for (std::size_t d = 0; d < D; ++d)
                    z[ref::grid<D>::at(s.g.nu, i) * D + d] = (sign % 2 ? -1 : 1) * mode[d];
            });
            vec az = block_mult<D>(c, da, f, s.g.h, z);
            double least = 1e-4 * coef_scale<D>(form::mass, s.g.h) * dot<D>(mode, mode);
            c.check(dot(z, az) > least, "x.Ax vanishes for a field that alternates from node to node");
        }
        bool anyper = false;
        vec tr(x.size()), rot(x.size());
        ref::loop<D>(s.g.nu, [&](idx<D> const &i) {
            double r[3] = {0, 0, 0};
            for (std::size_t d = 0; d < D; ++d)
                r[d] = i[d] * s.g.h[d];
            double v[3] = {0, 0, 0};
            if (D == 2)
            {
                v[0] = -omega[2] * r[1];
                v[1] = omega[2] * r[0];
            }
            else
            {
                v[0] = omega[1] * r[2] - omega[2] * r[1];
                v[1] = omega[2] * r[0] - omega[0] * r[2];
                v[2] = omega[0] * r[1] - omega[1] * r[0];
            }
            for (std::size_t d = 0; d < D; ++d)
            {
                tr[ref::grid<D>::at(s.g.nu, i) * D + d] = mode[d];
                rot[ref::grid<D>::at(s.g.nu, i) * D + d] = v[d];
            }
        });
        for (std::size_t d = 0; d < D; ++d)
            anyper |= s.g.per[d];
        if (f == form::mass)
        {
            // total mass = volume of the domain
            vec at = block_mult<D>(c, da, f, s.g.h, tr);
            double vol = 1;
            for (auto v : s.L)
                vol *= v;
            c.close(dot(tr, at), vol * dot<D>(mode, mode), 1e-11 * (1 + vol), "mass of a constant field");
        }
        else
        {
            vec zero(x.size(), 0.);
            hv::same(c, block_mult<D>(c, da, f, s.g.h, tr), zero, 1e-11 * sc * 8, "operator applied to a translation");
            if (!anyper)
            {
                vec ar = block_mult<D>(c, da, f, s.g.h, rot);
                if (f == form::strain)
                    hv::same(c, ar, zero, 1e-11 * sc * 8 * (1 + ref::maxabs(rot)), "strain operator applied to a rotation");
                else
                {
                    // |grad|^2 of a rotation is constant
                    double vol = 1, w2 = 2 * (D == 2 ? omega[2] * omega[2] : omega[0] * omega[0] + omega[1] * omega[1] + omega[2] * omega[2]);
                    for (auto v : s.L)
                        vol *= v;
                    c.close(dot(rot, ar), w2 * vol, 1e-9 * (1 + w2 * vol) + tol, "energy of a rotation");
                }
            }
        }
        // adjointness of divergence and gradient: x.(G p) = - p.(B x)
        {
            vec zu(x.size(), 0.), zp(p.size(), 0.), bx, dummy;
            stokes_mult<D>(c, dm, form::laplacian, s.g.h, x, zp, bx);
            vec gp = stokes_mult<D>(c, dm, form::laplacian, s.g.h, zu, p, dummy);
            double hv1 = 1, hmin = 1e9;
            for (auto v : s.g.h)
            {
                hv1 *= v;
                hmin = std::min(hmin, v);
            }
            c.close(dot(x, gp), -dot(p, bx), 1e-11 * n * hv1 / hmin * 8, "gradient is minus the transposed divergence");
            hv::same(c, dummy, zp, 0., "pressure rows for a zero velocity");
            vec btr;
            stokes_mult<D>(c, dm, form::laplacian, s.g.h, tr, zp, btr);
            hv::same(c, btr, zp, 1e-11 * hv1 / hmin * 8, "divergence of a translation");
            if (!anyper)
            {
                stokes_mult<D>(c, dm, form::laplacian, s.g.h, rot, zp, btr);
                hv::same(c, btr, zp, 1e-11 * hv1 / hmin * 8 * (1 + ref::maxabs(rot)), "divergence of a rotation");
            }
        }
        DMDestroy(&dm);
    }
    PROPERTY("P08.2d", p08<2>);
    PROPERTY("P08.3d", p08<3>);
} // namespace

PBT_MAIN
