// P02: assembled matrices against the matrix-free operators and the reference forms (2D); P08: their structure;
// P06: right-hand sides and operators on several processes against one
#include <cafes.hpp>
#include "common.hpp"
#include "stokes_common.hpp"
using namespace cafes;
using pbt::Case;
using ref::form;
using ref::idx;
using ref::vec;

namespace
{
    double coef(std::array<double, 2> const &h)
    {
        double r = std::max(h[0] / h[1], h[1] / h[0]);
        return 2 * r + 4;
    }

    // the assembled matrix without boundary conditions: Stokes or (pre) block-diagonal preconditioning matrix
    Mat assemble(Case &c, hv::setup<2> const &s, bool strain, bool pre, DM &dm)
    {
        PetscOptionsClear(nullptr);
        hv::set_grid_options(s);
        if (strain)
            PetscOptionsSetValue(nullptr, "-strain_tensor", nullptr);
        problem::options<2> opt;
        opt.process_options();
        hv::createMesh(dm, s.g);
        using Ctx = problem::context<2>;
        Ctx ctx{dm, s.g.h, strain ? fem::strain_tensor_mult<2> : fem::laplacian_mult<2>};
        auto e = hv::entries(dm);
        auto hp = s.g.h;
        for (auto &v : hp)
            v *= 2;
        Mat A;
        c.petsc(PreallocateMat(&ctx, opt, MATAIJ, &A, pre), "PreallocateMat");
        MatSetDM(A, dm);
        if (strain)
            strain_tensor_assembling(e[0], A, s.g.h);
        else
            laplacian_assembling(e[0], A, s.g.h);
        if (pre)
            cafes::mass_assembling(dm, A, hp);
        else
        {
            B_BT_assembling(dm, A, s.g.h);
            diagonal_assembling<2>(dm, A, 0.);
        }
        c.petsc(MatAssemblyBegin(A, MAT_FINAL_ASSEMBLY), "MatAssemblyBegin");
        c.petsc(MatAssemblyEnd(A, MAT_FINAL_ASSEMBLY), "MatAssemblyEnd");
        return A;
    }

    // assembling without boundary conditions, through the assembling functions
    void p02_raw(Case &c)
    {
        auto s = hv::gen_setup<2>(c, hv::most(c, 9, 24));
        bool strain = c.flag();
        bool pre = c.flag(1, 3); // the preconditioning matrix (block diagonal) instead of the Stokes matrix
        c.note("strain", strain);
        c.note("P", pre);
        vec u = hv::gen_field(c, s.g.nodes_u() * 2, "u"), p = hv::gen_field(c, s.g.nodes_p(), "p");
        c.label(strain ? "strain" : "laplacian");
        c.label(pre ? "preconditioner" : "stokes");
        c.nontrivial = true;
        pbt::world w(s.np);
        if (!w.active)
            return;
        DM dm;
        Mat A = assemble(c, s, strain, pre, dm);
        auto hp = s.g.h;
        for (auto &v : hp)
            v *= 2;
        Vec x, y;
        DMCreateGlobalVector(dm, &x);
        VecDuplicate(x, &y);
        hv::put(dm, x, u, p);
        c.petsc(MatMult(A, x, y), "MatMult");
        auto got = hv::get2(dm, y);
        vec wu(u.size(), 0.), wp(p.size(), 0.);
        ref::apply<2>(strain ? form::strain : form::laplacian, s.g.nu, s.g.cu, s.g.h, 2, u, wu);
        if (pre)
            ref::apply<2>(form::mass, s.g.np, s.g.cp, hp, 1, p, wp);
        else
            ref::div_grad<2>(s.g, u, p, wu, wp);
        double tol = 1e-11 * (coef(s.g.h) + s.L[0] + s.L[1]);
        hv::same(c, got[0], wu, tol, "velocity rows of the assembled matrix");
        hv::same(c, got[1], wp, tol, "pressure rows of the assembled matrix");
        VecDestroy(&x);
        VecDestroy(&y);
        MatDestroy(&A);
        DMDestroy(&dm);
    }
    PROPERTY("P02.raw", p02_raw);

    // the matrices of whole problems, assembled and matrix-free
    void p02_problem(Case &c)
    {
        auto s = hv::gen_setup<2>(c, hv::most(c, 8, 24));
        bool strain = c.flag();
        c.note("strain", strain);
        c.label(strain ? "strain" : "laplacian");
        std::array<std::array<condition_fn, 2>, 4> data; // by side and component
        bool partial = c.flag();
        std::string with;
        for (auto &side : data)
            for (auto &f : side)
            {
                f = partial && c.flag(1, 3) ? nullptr : hv::fzero;
                with += f ? "1" : "0";
            }
        c.note("sides with data", with);
        if (with != "11111111")
            c.label("natural conditions");
        auto bc = make_bc<2>({data[0], data[1], data[2], data[3]});
        std::vector<std::array<vec, 2>> fields;
        for (int k = 0; k < 2; ++k)
            fields.push_back({{hv::gen_field(c, s.g.nodes_u() * 2, "u"), hv::gen_field(c, s.g.nodes_p(), "p")}});
        c.nontrivial = true;
        pbt::world w(s.np);
        if (!w.active)
            return;
        std::vector<vec> res[2];
        for (int assembled = 0; assembled < 2; ++assembled)
        {
            PetscOptionsClear(nullptr);
            hv::set_grid_options(s);
            if (strain)
                PetscOptionsSetValue(nullptr, "-strain_tensor", nullptr);
            if (assembled)
                PetscOptionsSetValue(nullptr, "-assembling", nullptr);
            auto st = make_stokes<2>(bc, make_rhs<2>({{nullptr, nullptr}}));
            hv::soil_all(st.ctx->dm);
            Vec y;
            VecDuplicate(st.sol, &y);
            for (auto const &f : fields)
                for (Mat M : {st.A, st.P})
                {
                    hv::put(st.ctx->dm, st.sol, f[0], f[1]);
                    c.petsc(MatMult(M, st.sol, y), "MatMult");
                    auto r = hv::get2(st.ctx->dm, y);
                    res[assembled].push_back(r[0]);
                    res[assembled].push_back(r[1]);
                }
            VecDestroy(&y);
            hv::destroy(st);
        }
        double tol = 1e-11 * (coef(s.g.h) + s.L[0] + s.L[1]);
        char const *what[4] = {"velocity rows of the Stokes matrix", "pressure rows of the Stokes matrix",
                               "velocity rows of the preconditioner", "pressure rows of the preconditioner"};
        for (std::size_t k = 0; k < res[0].size(); ++k)
            hv::same(c, res[1][k], res[0][k], tol, std::string("assembled (got) vs matrix-free (expected), ") + what[k % 4]);
    }
    PROPERTY("P02.problem", p02_problem);

    // ---- P08 ------------------------------------------------------------------------------------
    double dot(vec const &a, vec const &b)
    {
        double s = 0;
        for (std::size_t i = 0; i < a.size(); ++i)
            s += a[i] * b[i];
        return s;
    }
    void p08(Case &c)
    {
        auto s = hv::gen_setup<2>(c, hv::most(c, 8, 20));
        bool strain = c.flag(), pre = c.flag(1, 3);
        auto seed = c.seed();
        c.note("strain", strain);
        c.note("P", pre);
        c.note("seed", seed);
        c.label(strain ? "strain" : "laplacian");
        c.label(pre ? "preconditioner" : "stokes");
        c.nontrivial = true;
        std::size_t nu = s.g.nodes_u() * 2, np = s.g.nodes_p();
        std::array<vec, 2> x, y;
        for (int k = 0; k < 2; ++k)
            for (std::size_t i = 0; i < (k ? np : nu); ++i)
            {
                x[k].push_back(pbt::unit(seed + k, i));
                y[k].push_back(pbt::unit(seed + 2 + k, i));
            }
        pbt::world w(s.np);
        if (!w.active)
            return;
        DM dm;
        Mat A = assemble(c, s, strain, pre, dm);
        Vec vx, vy;
        DMCreateGlobalVector(dm, &vx);
        VecDuplicate(vx, &vy);
        auto mult = [&](vec const &u, vec const &p) {
            hv::put(dm, vx, u, p);
            c.petsc(MatMult(A, vx, vy), "MatMult");
            return hv::get2(dm, vy);
        };
        vec zu(nu, 0.), zp(np, 0.);
        double sc = coef(s.g.h) + s.L[0] + s.L[1], tol = 1e-11 * sc * nu, mass = s.g.h[0] * s.g.h[1] / 9;
        auto ux = mult(x[0], zp), uy = mult(y[0], zp), px = mult(zu, x[1]), py = mult(zu, y[1]);
        c.close(dot(y[0], ux[0]), dot(x[0], uy[0]), tol, "symmetry of the velocity block");
        c.check(dot(x[0], ux[0]) > 1e-9 * mass, "the velocity block is not positive for a random field");
        if (pre)
        {
            c.close(dot(y[1], px[1]), dot(x[1], py[1]), tol, "symmetry of the pressure mass");
            c.check(dot(x[1], px[1]) > 1e-9 * mass, "the pressure mass is not positive for a random field");
            c.close(dot(vec(np, 1.), mult(zu, vec(np, 1.))[1]), s.L[0] * s.L[1], 1e-11 * sc * sc, "pressure mass of a constant");
            hv::same(c, ux[1], zp, 0., "coupling of velocity and pressure");
            hv::same(c, px[0], zu, 0., "coupling of pressure and velocity");
        }
        else
        {
            c.close(dot(y[0], px[0]), -dot(x[1], uy[1]), tol, "gradient is minus the transposed divergence");
            hv::same(c, px[1], zp, 0., "pressure block");
            auto one = mult(zu, vec(np, 1.));
            ref::loop<2>(s.g.nu, [&](idx<2> const &i) { // constants are in the kernel of the gradient, but for the boundary
                for (int d = 0; d < 2; ++d)
                    if (s.g.per[d] || (i[d] > 0 && i[d] < s.g.nu[d] - 1))
                        c.close(one[0][ref::grid<2>::at(s.g.nu, i) * 2 + d], 0., 1e-11 * sc, "gradient of a constant");
            });
        }
        vec tr(nu), rot(nu);
        for (int mask = 0; mask < 4; ++mask)
        {
            vec z(nu);
            ref::loop<2>(s.g.nu, [&](idx<2> const &i) {
                auto k = ref::grid<2>::at(s.g.nu, i) * 2;
                int sign = (mask & 1) * i[0] + (mask >> 1) * i[1];
                for (int d = 0; d < 2; ++d)
                    z[k + d] = (sign % 2 ? -1 : 1) * (.2 + std::abs(pbt::unit(seed + 4, d)));
                rot[k] = -i[1] * s.g.h[1];
                rot[k + 1] = i[0] * s.g.h[0];
            });
            auto r = mult(z, zp);
            if (mask)
                c.check(dot(z, r[0]) > 1e-4 * mass, "the velocity block is not positive for a field that alternates from node to node");
            else
            {
                hv::same(c, r[0], zu, 1e-11 * sc * 8, "velocity block applied to a translation");
                hv::same(c, r[1], zp, 1e-11 * sc * 8, "divergence of a translation");
            }
        }
        if (!s.g.per[0] && !s.g.per[1])
        {
            auto r = mult(rot, zp);
            double area = s.L[0] * s.L[1];
            if (strain)
                hv::same(c, r[0], zu, 1e-11 * sc * 8 * (1 + s.L[0] + s.L[1]), "strain block applied to a rotation");
            else
                c.close(dot(rot, r[0]), 2 * area, 1e-9 * (1 + area) + tol, "energy of a rotation");
            hv::same(c, r[1], zp, 1e-11 * sc * 8 * (1 + s.L[0] + s.L[1]), "divergence of a rotation");
        }
        VecDestroy(&vx);
        VecDestroy(&vy);
        MatDestroy(&A);
        DMDestroy(&dm);
    }
    PROPERTY("P08.assembled", p08);

    // ---- P06 ------------------------------------------------------------------------------------
    double wave(int d, double x, double y, double z)
    {
        return std::sin(1.3 + d + 2.1 * x - (1 + d) * y + .7 * z) + .3 * x * y;
    }
    template<int K>
    void fwave(PetscReal const *x, PetscScalar *u)
    {
        *u = wave(K, x[0], x[1], 0);
    }
    template<int K>
    void fwave3(PetscReal const *x, PetscScalar *u)
    {
        *u = wave(K, x[0], x[1], x[2]);
    }
    using fn = void (*)(PetscReal const *, PetscScalar *);
    template<std::size_t D>
    fn some(int k)
    {
        static fn const f2[] = {fwave<0>, fwave<1>, fwave<2>, fwave<3>, fwave<4>}, f3[] = {fwave3<0>, fwave3<1>, fwave3<2>, fwave3<3>, fwave3<4>};
        return D == 2 ? f2[k] : f3[k];
    }
    auto conditions(std::array<std::array<condition_fn, 2>, 4> const &d) { return make_bc<2>({d[0], d[1], d[2], d[3]}); }
    auto conditions(std::array<std::array<condition_fn, 3>, 6> const &d) { return make_bc<3>({d[0], d[1], d[2], d[3], d[4], d[5]}); }
    template<std::size_t D>
    void p06(Case &c)
    {
        auto s = hv::gen_setup<D>(c, hv::most(c, D == 2 ? 9 : 5, D == 2 ? 30 : 9));
        if (s.np < 2 && pbt::world_size() > 1)
        {
            s.np = pbt::world_size();
            while (!hv::splits<D>(s.g, s.np))
                --s.np;
            c.note("np", s.np);
        }
        bool strain = c.flag(), assembled = D == 2 && c.flag();
        std::array<std::array<condition_fn, D>, 2 * D> data;
        std::array<condition_fn, D> force;
        std::string with, pushed;
        for (auto &side : data)
            for (auto &f : side)
            {
                int k = c.integer(0, 6);
                f = k < 5 ? some<D>(k) : nullptr;
                with += f ? std::to_string(k) : "-";
            }
        for (auto &f : force)
        {
            int k = c.integer(0, 6);
            f = k < 5 ? some<D>(k) : nullptr;
            pushed += f ? std::to_string(k) : "-";
        }
        vec u = hv::gen_field(c, s.g.nodes_u() * D, "u"), p = hv::gen_field(c, s.g.nodes_p(), "p");
        c.note("strain", strain);
        c.note("assembled", assembled);
        c.note("data", with);
        c.note("force", pushed);
        c.label("np" + std::to_string(s.np));
        c.label(assembled ? "assembled" : "matrix-free");
        c.nontrivial = s.np > 1;
        std::vector<std::array<vec, 2>> res[2];
        for (int one = 0; one < 2; ++one)
        {
            pbt::world w(one ? 1 : s.np);
            if (!w.active)
                continue;
            PetscOptionsClear(nullptr);
            hv::set_grid_options(s);
            if (strain)
                hv::opt("-strain_tensor");
            if (assembled)
                hv::opt("-assembling");
            auto st = make_stokes<D>(conditions(data), make_rhs<D>(force));
            hv::soil_all(st.ctx->dm);
            c.petsc(st.setup_RHS(), "setup_RHS");
            res[one].push_back(hv::get2(st.ctx->dm, st.rhs));
            Vec y;
            VecDuplicate(st.sol, &y);
            for (Mat M : {st.A, st.P})
            {
                hv::put(st.ctx->dm, st.sol, u, p);
                c.petsc(MatMult(M, st.sol, y), "MatMult");
                res[one].push_back(hv::get2(st.ctx->dm, y));
            }
            VecDestroy(&y);
            hv::destroy(st);
        }
        if (pbt::world_rank() != 0)
            return;
        char const *what[] = {"right-hand side", "Stokes operator", "preconditioner"};
        for (std::size_t k = 0; k < 3; ++k)
            for (int b = 0; b < 2; ++b)
                hv::same(c, res[0][k][b], res[1][k][b], 1e-12 * (1 + ref::maxabs(res[1][k][b])),
                         std::string(b ? "pressure rows, " : "velocity rows, ") + what[k] + " on several processes (got) vs one (expected)");
    }
    PROPERTY("P06.problem2", p06<2>);
    PROPERTY("P06.problem3", p06<3>);
} // namespace

PBT_MAIN
