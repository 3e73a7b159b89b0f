// Fluid problem: P06 decomposition independence, P11 solves, P12 multigrid, P13 accuracy, P14 symmetries, P32 options (2D)
#include <cafes.hpp>
#include "common.hpp"
#include "stokes_common.hpp"
#include "flow_common.hpp"
using namespace cafes;
using pbt::Case;
using ref::form;
using ref::idx;
using ref::vec;
using hv::flow::bc_fn;
using hv::flow::cur_bc;
using hv::flow::cur_force;
using hv::flow::force_fn;
using hv::flow::gen_bc;
using hv::flow::gen_force;
using hv::flow::point_fn;

namespace
{
    struct problem_t
    {
        hv::setup<2> s;
        bool strain = false;
        point_fn bc, force;
        std::array<std::array<bool, 2>, 4> data{{{{true, true}}, {{true, true}}, {{true, true}}, {{true, true}}}}; // side, component
    };
    // is this component of the velocity of this node prescribed?
    bool fixed(problem_t const &p, idx<2> const &i, int comp)
    {
        auto const &g = p.s.g;
        for (int d = 0; d < 2; ++d)
            if (!g.per[d] && ((i[d] == 0 && p.data[2 * d][comp]) || (i[d] == g.nu[d] - 1 && p.data[2 * d + 1][comp])))
                return true;
        return false;
    }
    // can the fluid not leave? Then the pressure is known up to a constant
    bool closed(problem_t const &p)
    {
        for (int d = 0; d < 2; ++d)
            if (!p.s.g.per[d] && !(p.data[2 * d][d] && p.data[2 * d + 1][d]))
                return false;
        return true;
    }
    fem::dirichlet_conditions<2> conditions(problem_t const &p)
    {
        using side = std::array<condition_fn, 2>;
        auto at = [&](int k) {
            return side{{p.data[k][0] && !p.s.g.per[k / 2] ? bc_fn<0> : nullptr, p.data[k][1] && !p.s.g.per[k / 2] ? bc_fn<1> : nullptr}};
        };
        return make_bc<2>({at(0), at(1), at(2), at(3)});
    }
    enum solver_t
    {
        lu,
        assembled_gmres,
        free_gmres,
        pmm,
        solvers
    };
    char const *solver_name[] = {"lu", "assembled gmres", "matrix-free gmres", "PMM"};

    void set_options(problem_t const &p, int solver, double rtol = 1e-9)
    {
        PetscOptionsClear(nullptr);
        hv::set_grid_options(p.s);
        if (p.strain)
            hv::opt("-strain_tensor");
        if (solver == lu)
        {
            hv::opt("-assembling");
            hv::opt("-stokes_ksp_type", "preonly");
            hv::opt("-stokes_pc_type", "lu");
            return;
        }
        if (solver == assembled_gmres)
        {
            hv::opt("-assembling");
            hv::opt("-stokes_ksp_type", "gmres");
            hv::opt("-stokes_pc_type", "none");
        }
        else if (solver == free_gmres)
        {
            hv::opt("-stokes_ksp_type", "gmres");
            hv::opt("-stokes_pc_type", "none");
        }
        else
            hv::opt("-PMM");
        hv::opt("-stokes_ksp_gmres_cgs_refinement_type", "refine_always"); // the residual is the true one
        hv::opt("-stokes_ksp_rtol", hv::exact(rtol));
        hv::opt("-stokes_ksp_atol", "1e-14");
        hv::opt("-stokes_ksp_max_it", "4000");
        hv::opt("-stokes_ksp_gmres_restart", "400");
    }

    struct result
    {
        vec u, p, ru, rp;
        int reason = 0;
    };
    // must be called by every process of PETSC_COMM_WORLD; fixed_rhs replaces the assembled right-hand side
    result run(Case &c, problem_t const &p, int solver, double rtol = 1e-9, std::array<vec, 2> const *fixed_rhs = nullptr)
    {
        set_options(p, solver, rtol);
        cur_bc = p.bc;
        cur_force = p.force;
        auto bc = conditions(p);
        auto rhs = p.force ? make_rhs<2>({{force_fn<0>, force_fn<1>}}) : make_rhs<2>({{nullptr, nullptr}});
        auto st = make_stokes<2>(bc, rhs);
        hv::soil_all(st.ctx->dm);
        result r;
        c.petsc(st.setup_RHS(), "setup_RHS");
        if (fixed_rhs)
            hv::put(st.ctx->dm, st.rhs, (*fixed_rhs)[0], (*fixed_rhs)[1]);
        auto b = hv::get2(st.ctx->dm, st.rhs);
        r.ru = b[0];
        r.rp = b[1];
        c.petsc(st.setup_KSP(), "setup_KSP");
        c.petsc(st.solve(), "solve");
        KSPConvergedReason why;
        KSPGetConvergedReason(st.ksp, &why);
        r.reason = why;
        auto x = hv::get2(st.ctx->dm, st.sol);
        r.u = x[0];
        r.p = x[1];
        hv::destroy(st, true);
        return r;
    }

    double norm(vec const &v)
    {
        double s = 0;
        for (auto x : v)
            s += x * x;
        return std::sqrt(s);
    }
    vec no_mean(vec v)
    {
        double s = 0;
        for (auto x : v)
            s += x;
        s /= v.size();
        for (auto &x : v)
            x -= s;
        return v;
    }
    double scale(problem_t const &p)
    {
        double r = std::max(p.s.g.h[0] / p.s.g.h[1], p.s.g.h[1] / p.s.g.h[0]);
        return 4 + 2 * r;
    }
    // the right-hand side the problem stands for, from the reference forms
    void reference_rhs(problem_t const &p, vec &ru, vec &rp)
    {
        auto const &g = p.s.g;
        vec f(g.nodes_u() * 2, 0.);
        ru.assign(f.size(), 0.);
        rp.assign(g.nodes_p(), 0.);
        ref::loop<2>(g.nu, [&](idx<2> const &i) {
            std::size_t k = ref::grid<2>::at(g.nu, i) * 2;
            if (p.force)
                for (int d = 0; d < 2; ++d)
                    f[k + d] = p.force(d, i[0] * g.h[0], i[1] * g.h[1]);
        });
        ref::apply<2>(form::mass, g.nu, g.cu, g.h, 2, f, ru);
        ref::loop<2>(g.nu, [&](idx<2> const &i) {
            std::size_t k = ref::grid<2>::at(g.nu, i) * 2;
            for (int d = 0; d < 2; ++d)
                if (fixed(p, i, d))
                    ru[k + d] = p.bc(d, i[0] * g.h[0], i[1] * g.h[1]);
        });
    }
    // the reference operator with identity rows on the boundary
    void reference_apply(problem_t const &p, vec const &u, vec const &q, vec &yu, vec &yp)
    {
        auto const &g = p.s.g;
        yu.assign(u.size(), 0.);
        yp.assign(q.size(), 0.);
        ref::apply<2>(p.strain ? form::strain : form::laplacian, g.nu, g.cu, g.h, 2, u, yu);
        ref::div_grad<2>(g, u, q, yu, yp);
        ref::loop<2>(g.nu, [&](idx<2> const &i) {
            std::size_t k = ref::grid<2>::at(g.nu, i) * 2;
            for (int d = 0; d < 2; ++d)
                if (fixed(p, i, d))
                    yu[k + d] = u[k + d];
        });
    }
    double residual(problem_t const &p, vec const &u, vec const &q, vec const &ru, vec const &rp)
    {
        vec yu, yp;
        reference_apply(p, u, q, yu, yp);
        double s = 0;
        for (std::size_t i = 0; i < yu.size(); ++i)
            s += (yu[i] - ru[i]) * (yu[i] - ru[i]);
        for (std::size_t i = 0; i < yp.size(); ++i)
            s += (yp[i] - rp[i]) * (yp[i] - rp[i]);
        return std::sqrt(s);
    }

    // Two answers to one problem agree.  The tolerance of a solve bounds the residual, and the discrete problem is badly
    // conditioned on small domains and few nodes: the difference is measured by the operator, and only roughly by itself.
    // PETSc's own factorisation does not pivot, so its answers (direct) are less exact.
    void agree(Case &c, problem_t const &p, vec const &u, vec const &q, vec const &wu, vec const &wp, double load, bool direct, std::string const &what)
    {
        vec du = u, dp = closed(p) ? no_mean(q) : q, none(u.size(), 0.), nop(q.size(), 0.), r = closed(p) ? no_mean(wp) : wp;
        for (std::size_t i = 0; i < du.size(); ++i)
            du[i] -= wu[i];
        for (std::size_t i = 0; i < dp.size(); ++i)
            dp[i] -= r[i];
        double tol = direct ? 1e-2 * load : 1e-8 * load;
        c.close(residual(p, du, dp, none, nop), 0., tol + 1e-10, what + ": difference as measured by the operator");
        hv::same(c, u, wu, (direct ? 1e-3 : 2e-2) * (1 + ref::maxabs(wu)), what + ": velocity");
    }

    // ---- generators ------------------------------------------------------------------------
    // a problem with at least one direction closed by walls
    // sides without data, or with data on one component only; one side holds the fluid
    void open_sides(Case &c, problem_t &p)
    {
        if (!c.flag(1, 3))
            return;
        int hold = c.integer(0, 3);
        if (p.s.g.per[hold / 2])
            hold = (hold + 2) % 4;
        std::string what;
        for (int k = 0; k < 4; ++k)
            for (int d = 0; d < 2; ++d)
            {
                p.data[k][d] = k == hold || c.flag();
                if (!p.s.g.per[k / 2])
                    what += p.data[k][d] ? "1" : "0";
                else
                    what += "-";
            }
        c.note("sides with data", what);
        c.label(closed(p) ? "some natural conditions" : "open");
    }
    problem_t gen_problem(Case &c, int max, int min = 3, bool open = false)
    {
        problem_t p;
        p.s = hv::gen_setup<2>(c, max, true, min);
        if (p.s.g.per[0] && p.s.g.per[1])
        {
            p.s.g.per[1] = false;
            p.s.g.finish();
            c.note("closed", "y");
            while (!hv::splits<2>(p.s.g, p.s.np))
                --p.s.np;
        }
        p.strain = c.flag();
        c.note("strain", p.strain);
        p.bc = gen_bc(c, p.s);
        p.force = gen_force(c);
        if (open)
            open_sides(c, p);
        return p;
    }
    // grids that a hierarchy of `levels` meshes fits
    problem_t gen_hierarchy(Case &c, int np_max, bool open = false)
    {
        problem_t p;
        auto &g = p.s.g;
        int shape = c.integer(0, 2);
        double h0 = c.real(0.02, 0.2);
        int base = c.integer(2, 8), l = c.integer(base < 4 ? 1 : 0, 2);
        for (int d = 0; d < 2; ++d)
        {
            // 2(n-1) = m 2^l cells
            int m = base;
            if (d == 1 && c.flag(2, 3))
                m = c.integer(base, std::min(3 * base, 12));
            g.per[d] = c.flag(1, 4);
            g.n[d] = m * (1 << l) / 2 + 1;
            if (m * (1 << l) % 2)
                g.n[d] = m * (1 << (l + 1)) / 2 + 1;
        }
        if (g.per[0] && g.per[1])
            g.per[1] = false;
        for (int d = 0; d < 2; ++d)
        {
            p.s.L[d] = shape == 0 ? 1. : shape == 1 ? h0 * (g.n[d] - 1) : c.real_near(1., 0.5, 2.);
            g.h[d] = 0.5 * p.s.L[d] / (g.n[d] - 1);
        }
        if (c.flag())
        {
            std::swap(g.n[0], g.n[1]);
            std::swap(g.h[0], g.h[1]);
            std::swap(p.s.L[0], p.s.L[1]);
            std::swap(g.per[0], g.per[1]);
        }
        g.finish();
        p.s.np = c.integer(1, std::min(np_max, pbt::world_size()));
        while (!hv::splits<2>(g, p.s.np))
            --p.s.np;
        p.strain = c.flag();
        c.note("n", g.n);
        c.note("per", hv::dims<2>(g.per));
        c.note("L", p.s.L);
        c.note("np", p.s.np);
        c.note("strain", p.strain);
        p.bc = gen_bc(c, p.s);
        p.force = gen_force(c);
        if (open)
            open_sides(c, p);
        if (g.n[0] != g.n[1])
            c.label("rectangular grid");
        if (g.per[0] || g.per[1])
            c.label("periodic");
        if (p.s.np > 1)
            c.label("parallel");
        return p;
    }
    // can the multigrid option split the grid into its levels?
    int mg_levels(ref::grid<2> const &g)
    {
        int i = std::min(g.nu[0], g.nu[1]), l = 1;
        while (i > 8)
        {
            i >>= 1;
            ++l;
        }
        return l;
    }
    bool hierarchy_ok(ref::grid<2> const &g)
    {
        int l = mg_levels(g);
        for (int d = 0; d < 2; ++d)
        {
            int cells = g.cu[d];
            for (int k = 1; k < l; ++k)
            {
                if (cells % 2)
                    return false;
                cells /= 2;
            }
            if (cells < 2)
                return false;
        }
        return true;
    }
    double pick_rtol(Case &c)
    {
        return c.pick({1e-10, 1e-8, 1e-6});
    }

    // ---------------------------------------------------------------- P11
    void p11_posed(Case &c)
    {
        int solver = c.integer(0, 2);
        auto p = gen_problem(c, solver == lu ? 12 : 7, 3, true);
        if (solver == lu)
            p.s.np = 1;
        double rtol = pick_rtol(c);
        c.note("solver", solver_name[solver]);
        c.note("rtol", rtol);
        c.label(solver_name[solver]);
        pbt::world w(p.s.np);
        if (!w.active)
            return;
        vec ru, rp;
        reference_rhs(p, ru, rp);
        double nr = norm(ru);
        c.nontrivial = nr > 1e-12;
        auto r = run(c, p, solver, rtol);
        c.check(r.reason > 0, "the solver did not converge: reason " + std::to_string(r.reason));
        // the operators are the reference ones to rounding (P01, P02, P04), so the residual is the requested one
        double tol = (solver == lu ? 1e-2 : 5 * rtol + 1e-8) * (nr + 1e-10);
        c.close(residual(p, r.u, r.p, ru, rp), 0., tol, std::string("residual of the posed problem (") + solver_name[solver] + ")");
        // Dirichlet data
        auto const &g = p.s.g;
        ref::loop<2>(g.nu, [&](idx<2> const &i) {
            for (int d = 0; d < 2; ++d)
                if (fixed(p, i, d))
                    c.close(r.u[ref::grid<2>::at(g.nu, i) * 2 + d], p.bc(d, i[0] * g.h[0], i[1] * g.h[1]), tol + 1e-9,
                            "boundary value at " + pbt::str(i) + " component " + std::to_string(d));
        });
    }
    PROPERTY("P11.posed", p11_posed);

    // a discrete solution is recovered
    void p11_manufactured(Case &c)
    {
        int solver = c.integer(0, 2);
        auto p = gen_problem(c, solver == lu ? 10 : 6, 3, true);
        if (solver == lu)
            p.s.np = 1;
        auto k = c.seed();
        c.note("solver", solver_name[solver]);
        c.note("solution", k);
        c.label(solver_name[solver]);
        c.nontrivial = true;
        pbt::world w(p.s.np);
        if (!w.active)
            return;
        vec u(p.s.g.nodes_u() * 2), q(p.s.g.nodes_p());
        for (std::size_t i = 0; i < u.size(); ++i)
            u[i] = pbt::unit(k, i);
        for (std::size_t i = 0; i < q.size(); ++i)
            q[i] = pbt::unit(k + 1, i);
        std::array<vec, 2> b;
        reference_apply(p, u, q, b[0], b[1]);
        auto r = run(c, p, solver, 1e-10, &b);
        c.check(r.reason > 0, "the solver did not converge: reason " + std::to_string(r.reason));
        agree(c, p, r.u, r.p, u, q, norm(b[0]) + norm(b[1]), solver == lu, "solution");
    }
    PROPERTY("P11.manufactured", p11_manufactured);

    // one problem object, a sequence of right-hand sides; with the preconditioners the problem object provides
    void p11_again(Case &c)
    {
        // 0: assembled, no preconditioner, 1: matrix-free, none, 2: assembled, Jacobi, 3: assembled, exact (LU of the
        // preconditioning matrix; redundant in parallel), 4: matrix-free multigrid
        int kind = c.integer(0, 4);
        auto p = kind == 4 ? gen_hierarchy(c, 4, true) : gen_problem(c, kind == 3 ? 14 : 7, 3, true);
        if (kind == 4 && (!hierarchy_ok(p.s.g) || p.s.g.nodes_u() > 700))
            throw pbt::skip_case();
        int steps = c.integer(2, 4);
        auto k = c.seed();
        char const *names[] = {"assembled", "matrix-free", "assembled, Jacobi", "assembled, block LU", "PMM"};
        c.note("solver", names[kind]);
        c.note("steps", steps);
        c.label(names[kind]);
        c.nontrivial = true;
        pbt::world w(p.s.np);
        if (!w.active)
            return;
        double rtol = 1e-8;
        set_options(p, kind == 4 ? pmm : kind == 1 ? free_gmres : assembled_gmres, rtol);
        if (kind != 4)
            hv::opt("-stokes_ksp_type", "fgmres"); // the true residual
        if (kind == 2)
            hv::opt("-stokes_pc_type", "jacobi");
        if (kind == 3)
            hv::opt("-stokes_pc_type", p.s.np == 1 ? "lu" : "redundant");
        cur_bc = p.bc;
        cur_force = p.force;
        auto bc = conditions(p);
        auto rhs = p.force ? make_rhs<2>({{force_fn<0>, force_fn<1>}}) : make_rhs<2>({{nullptr, nullptr}});
        auto st = make_stokes<2>(bc, rhs);
        hv::soil_all(st.ctx->dm);
        c.petsc(st.setup_RHS(), "setup_RHS");
        vec ru, rp;
        reference_rhs(p, ru, rp);
        c.petsc(st.setup_KSP(), "setup_KSP");
        for (int step = 0; step < steps; ++step)
        {
            if (step == 1 && k % 3 == 0)
            {
                // nothing changes: the same problem again
            }
            else if (step > 0)
            {
                vec u(p.s.g.nodes_u() * 2), q(p.s.g.nodes_p());
                for (std::size_t i = 0; i < u.size(); ++i)
                    u[i] = pbt::unit(k + 2 * step, i);
                for (std::size_t i = 0; i < q.size(); ++i)
                    q[i] = pbt::unit(k + 2 * step + 1, i);
                reference_apply(p, u, q, ru, rp);
                hv::put(st.ctx->dm, st.rhs, ru, rp);
            }
            c.petsc(st.solve(), "solve");
            KSPConvergedReason why;
            KSPGetConvergedReason(st.ksp, &why);
            std::string at = " in step " + std::to_string(step) + " (" + names[kind] + ")";
            c.check(why > 0, "the solver did not converge: reason " + std::to_string(why) + at);
            auto x = hv::get2(st.ctx->dm, st.sol);
            double nr = std::sqrt(norm(ru) * norm(ru) + norm(rp) * norm(rp));
            c.close(residual(p, x[0], x[1], ru, rp), 0., (5 * rtol + 1e-8) * (nr + 1e-10), "residual of the posed problem" + at);
        }
        hv::destroy(st, true);
    }
    PROPERTY("P11.again", p11_again);

    // ---------------------------------------------------------------- P12
    void p12(Case &c)
    {
        auto p = gen_hierarchy(c, 4, true);
        if (!hierarchy_ok(p.s.g))
            throw pbt::skip_case{};
        double rtol = c.pick({1e-8, 1e-6, 1e-4});
        c.note("rtol", rtol);
        c.label(std::to_string(mg_levels(p.s.g)) + " levels");
        c.nontrivial = mg_levels(p.s.g) > 1;
        pbt::world w(p.s.np);
        if (!w.active)
            return;
        vec ru, rp;
        reference_rhs(p, ru, rp);
        auto r = run(c, p, pmm, rtol);
        c.check(r.reason > 0, "the solver did not converge: reason " + std::to_string(r.reason));
        double nr = norm(ru);
        c.close(residual(p, r.u, r.p, ru, rp), 0., (2 * rtol + 1e-9) * (nr + 1e-10), "residual of the posed problem");
    }
    PROPERTY("P12", p12);

    // ---------------------------------------------------------------- P06
    void p06(Case &c)
    {
        int solver = c.integer(1, 3);
        auto p = solver == pmm ? gen_hierarchy(c, 6, true) : gen_problem(c, 8, 3, true);
        if (solver == pmm && (!hierarchy_ok(p.s.g) || p.s.g.nodes_u() > 900))
            throw pbt::skip_case{};
        if (p.s.np < 2 && pbt::world_size() > 1)
        {
            p.s.np = pbt::world_size();
            while (!hv::splits<2>(p.s.g, p.s.np))
                --p.s.np;
        }
        c.note("solver", solver_name[solver]);
        c.note("np", p.s.np);
        c.label("np" + std::to_string(p.s.np));
        c.nontrivial = p.s.np > 1;
        result one, many;
        {
            pbt::world w(p.s.np);
            if (w.active)
                many = run(c, p, solver);
        }
        {
            pbt::world w(1);
            if (w.active)
                one = run(c, p, solver);
        }
        if (pbt::world_rank() != 0)
            return;
        c.check(one.reason > 0 && many.reason > 0, "convergence: " + std::to_string(one.reason) + " on one process, " + std::to_string(many.reason) +
                                                       " on " + std::to_string(p.s.np));
        double n = 1 + ref::maxabs(one.ru);
        hv::same(c, many.ru, one.ru, 1e-12 * n, "right-hand side (velocity)");
        hv::same(c, many.rp, one.rp, 1e-12 * n, "right-hand side (pressure)");
        agree(c, p, many.u, many.p, one.u, one.p, norm(one.ru), false, "solution");
    }
    PROPERTY("P06", p06);

    // ---------------------------------------------------------------- P13
    // linear velocity, linear pressure: in the discrete spaces, so recovered exactly
    void p13_linear(Case &c)
    {
        int solver = c.integer(0, 3);
        problem_t p = solver == pmm ? gen_hierarchy(c, 4) : gen_problem(c, solver == lu ? 10 : 7);
        if (solver == lu)
            p.s.np = 1;
        if (solver == pmm && (!hierarchy_ok(p.s.g) || std::min(p.s.g.n[0], p.s.g.n[1]) < 3))
            throw pbt::skip_case{};
        auto k = c.seed();
        auto r = [k](int j) { return pbt::unit(k, 50 + j); };
        c.note("solver", solver_name[solver]);
        c.note("flow", k);
        c.label(solver_name[solver]);
        bool px = p.s.g.per[0], py = p.s.g.per[1];
        // a periodic direction admits no dependence on it
        double al = px || py ? 0 : r(0), uy = py ? 0 : r(1), vx = px ? 0 : r(2), u0 = r(3), v0 = r(4), gx = px ? 0 : 3 * r(5),
               gy = py ? 0 : 3 * r(6);
        // through flow along a periodic direction only
        p.bc = [=](int d, double x, double y) { return d == 0 ? u0 + al * x + uy * y : v0 + vx * x - al * y; };
        p.force = [=](int d, double, double) { return d == 0 ? gx : gy; };
        c.nontrivial = true;
        pbt::world w(p.s.np);
        if (!w.active)
            return;
        auto res = run(c, p, solver, 1e-9);
        c.check(res.reason > 0, "the solver did not converge: reason " + std::to_string(res.reason));
        auto const &g = p.s.g;
        vec u(g.nodes_u() * 2), q(g.nodes_p());
        ref::loop<2>(g.nu, [&](idx<2> const &i) {
            for (int d = 0; d < 2; ++d)
                u[ref::grid<2>::at(g.nu, i) * 2 + d] = p.bc(d, i[0] * g.h[0], i[1] * g.h[1]);
        });
        ref::loop<2>(g.np, [&](idx<2> const &i) { q[ref::grid<2>::at(g.np, i)] = 2 * gx * i[0] * g.h[0] + 2 * gy * i[1] * g.h[1]; });
        agree(c, p, res.u, res.p, u, q, norm(res.ru), solver == lu, "linear flow");
    }
    PROPERTY("P13.linear", p13_linear);

    // smooth flows: the error decreases at the expected rate
    void p13_smooth(Case &c)
    {
        problem_t p;
        p.strain = c.flag();
        double L[2], base[2];
        int shape = c.integer(0, 2);
        for (int d = 0; d < 2; ++d)
        {
            L[d] = shape == 0 ? 1. : c.real(0.6, 1.6);
            base[d] = shape == 2 ? c.integer(8, 12) : 10;
        }
        int m[2] = {c.integer(1, 2), c.integer(1, 2)};
        auto k = c.seed();
        auto r = [k](int j) { return pbt::unit(k, 80 + j); };
        bool periodic = c.flag(1, 4);
        c.note("L", std::array<double, 2>{{L[0], L[1]}});
        c.note("modes", std::array<int, 2>{{m[0], m[1]}});
        c.note("strain", p.strain);
        c.note("flow", k);
        c.note("periodic", periodic);
        c.label(periodic ? "periodic in x" : "closed");
        c.nontrivial = true;
        // stream function a(x) sin(m pi y / Ly), zero on the bottom and top walls; u = d psi/dy, v = -d psi/dx
        double const pi = 3.14159265358979323846;
        double ky = m[1] * pi / L[1], kx = periodic ? 2 * pi * m[0] / L[0] : (1 + m[0] * std::abs(r(0))) * 2, ph = 3 * r(1);
        double px = periodic ? 2 * pi / L[0] : 2 * r(2), py = 2 * r(3), pa = 2;
        auto a = [=](double x, int n) { // n-th derivative of sin(kx x + ph)
            return std::pow(kx, n) * std::sin(kx * x + ph + n * pi / 2);
        };
        auto b = [=](double y, int n) { return std::pow(ky, n) * std::sin(ky * y + n * pi / 2); };
        auto vel = [=](int d, double x, double y) { return d == 0 ? a(x, 0) * b(y, 1) : -a(x, 1) * b(y, 0); };
        auto force = [=](int d, double x, double y) {
            double lap = d == 0 ? a(x, 2) * b(y, 1) + a(x, 0) * b(y, 3) : -(a(x, 3) * b(y, 0) + a(x, 1) * b(y, 2));
            // pressure pa sin(px x) cos(py y)
            double dp = d == 0 ? pa * px * std::cos(px * x) * std::cos(py * y) : -pa * py * std::sin(px * x) * std::sin(py * y);
            return -lap + dp;
        };
        p.bc = vel;
        p.force = force;
        double err[2], perr[2];
        pbt::world w(1);
        if (!w.active)
            return;
        for (int l = 0; l < 2; ++l)
        {
            auto &g = p.s.g;
            for (int d = 0; d < 2; ++d)
            {
                int cells = l ? 2 * static_cast<int>(base[d]) : static_cast<int>(base[d]);
                g.n[d] = cells + 1;
                g.per[d] = d == 0 && periodic;
                p.s.L[d] = L[d];
                g.h[d] = 0.5 * L[d] / cells;
            }
            g.finish();
            p.s.np = 1;
            auto res = run(c, p, lu);
            double e = 0, n = 0;
            ref::loop<2>(g.nu, [&](idx<2> const &i) {
                for (int d = 0; d < 2; ++d)
                {
                    double ex = vel(d, i[0] * g.h[0], i[1] * g.h[1]), df = res.u[ref::grid<2>::at(g.nu, i) * 2 + d] - ex;
                    e += df * df;
                    n += ex * ex;
                }
            });
            err[l] = std::sqrt(e / n);
            vec q(g.nodes_p());
            ref::loop<2>(g.np, [&](idx<2> const &i) {
                q[ref::grid<2>::at(g.np, i)] = pa * std::sin(px * 2 * i[0] * g.h[0]) * std::cos(py * 2 * i[1] * g.h[1]);
            });
            auto x = no_mean(res.p), y = no_mean(q);
            e = n = 0;
            for (std::size_t i = 0; i < x.size(); ++i)
            {
                e += (x[i] - y[i]) * (x[i] - y[i]);
                n += y[i] * y[i];
            }
            perr[l] = std::sqrt(e / x.size());
        }
        c.check(err[1] < 0.3 * err[0],
                "velocity error " + pbt::num(err[0]) + " on the coarse grid and " + pbt::num(err[1]) + " on the grid twice as fine");
        c.check(err[0] < 0.2, "velocity error " + pbt::num(err[0]));
        c.check(perr[1] < 0.45 * perr[0],
                "pressure error " + pbt::num(perr[0]) + " on the coarse grid and " + pbt::num(perr[1]) + " on the grid twice as fine");
    }
    PROPERTY("P13.smooth", p13_smooth);

    // ---------------------------------------------------------------- P14
    void p14(Case &c)
    {
        int solver = c.pick({lu, free_gmres, free_gmres, assembled_gmres, assembled_gmres});
        auto p = gen_problem(c, solver == lu ? 9 : 7);
        if (solver == lu)
            p.s.np = 1;
        int what = c.integer(0, 4);
        static char const *names[] = {"linearity", "mirror x", "mirror y", "transposition", "length scaling"};
        point_fn bc2 = gen_bc(c, p.s), f2 = gen_force(c);
        double al = c.real(-2, 2), be = c.real(-2, 2), lam = c.pick({2., 0.5, 1.25, 3.});
        c.note("relation", names[what]);
        c.note("solver", solver_name[solver]);
        c.label(names[what]);
        c.nontrivial = true;
        if (what == 0)
        {
            c.note("alpha", al);
            c.note("beta", be);
        }
        if (what == 4)
            c.note("lambda", lam);
        double const rtol = 1e-9;
        auto const g = p.s.g;
        auto const L = p.s.L;
        if (what == 3)
        {
            // the transposed grid must also split
            problem_t q = p;
            std::swap(q.s.g.n[0], q.s.g.n[1]);
            std::swap(q.s.g.per[0], q.s.g.per[1]);
            q.s.g.finish();
            while (p.s.np > 1 && (!hv::splits<2>(q.s.g, p.s.np) || !hv::splits<2>(p.s.g, p.s.np)))
                --p.s.np;
        }
        pbt::world w(p.s.np);
        if (!w.active)
            return;
        auto base = run(c, p, solver, rtol);
        problem_t q = p;
        auto zero = [](point_fn const &f) { return f ? f : point_fn([](int, double, double) { return 0.; }); };
        point_fn bc = p.bc, f = zero(p.force);
        std::function<double(int, idx<2>)> map_u; // expected transformed velocity
        std::function<double(idx<2>)> map_p;
        auto U = [&](int d, idx<2> i) { return base.u[ref::grid<2>::at(g.nu, i) * 2 + d]; };
        auto P = [&](idx<2> i) { return base.p[ref::grid<2>::at(g.np, i)]; };
        result second;
        if (what == 0)
        {
            q.bc = bc2;
            q.force = f2;
            second = run(c, q, solver, rtol);
            point_fn ff2 = zero(f2);
            q.bc = [=](int d, double x, double y) { return al * bc(d, x, y) + be * bc2(d, x, y); };
            q.force = [=](int d, double x, double y) { return al * f(d, x, y) + be * ff2(d, x, y); };
            map_u = [&](int d, idx<2> i) { return al * U(d, i) + be * second.u[ref::grid<2>::at(g.nu, i) * 2 + d]; };
            map_p = [&](idx<2> i) { return al * P(i) + be * second.p[ref::grid<2>::at(g.np, i)]; };
        }
        else if (what <= 2)
        {
            int m = what - 1;
            // a periodic grid is mirrored about its node 0
            auto flip = [=](point_fn fn) {
                return point_fn([=](int d, double x, double y) {
                    double z[2] = {x, y};
                    z[m] = L[m] - z[m];
                    if (g.per[m] && z[m] > L[m] * (1 - 1e-9))
                        z[m] = 0;
                    return (d == m ? -1 : 1) * fn(d, z[0], z[1]);
                });
            };
            q.bc = flip(bc);
            q.force = flip(f);
            map_u = [&, m](int d, idx<2> i) {
                i[m] = g.cu[m] - i[m];
                return (d == m ? -1 : 1) * U(d, i);
            };
            map_p = [&, m](idx<2> i) {
                i[m] = g.cp[m] - i[m];
                return P(i);
            };
        }
        else if (what == 3)
        {
            std::swap(q.s.g.n[0], q.s.g.n[1]);
            std::swap(q.s.g.per[0], q.s.g.per[1]);
            std::swap(q.s.g.h[0], q.s.g.h[1]);
            std::swap(q.s.L[0], q.s.L[1]);
            q.s.g.finish();
            q.bc = [=](int d, double x, double y) { return bc(1 - d, y, x); };
            q.force = [=](int d, double x, double y) { return f(1 - d, y, x); };
            map_u = [&](int d, idx<2> i) { return U(1 - d, idx<2>{{i[1], i[0]}}); };
            map_p = [&](idx<2> i) { return P(idx<2>{{i[1], i[0]}}); };
        }
        else
        {
            for (int d = 0; d < 2; ++d)
            {
                q.s.L[d] *= lam;
                q.s.g.h[d] *= lam;
            }
            q.bc = [=](int d, double x, double y) { return bc(d, x / lam, y / lam); };
            q.force = [=](int d, double x, double y) { return f(d, x / lam, y / lam) / lam / lam; };
            map_u = U;
            map_p = [&, lam](idx<2> i) { return P(i) / lam; };
        }
        auto res = run(c, q, solver, rtol);
        c.check(base.reason > 0 && res.reason > 0 && second.reason >= 0, "a solve did not converge");
        vec wu(res.u.size()), wp(res.p.size());
        ref::loop<2>(q.s.g.nu, [&](idx<2> const &i) {
            for (int d = 0; d < 2; ++d)
                wu[ref::grid<2>::at(q.s.g.nu, i) * 2 + d] = map_u(d, i);
        });
        ref::loop<2>(q.s.g.np, [&](idx<2> const &i) { wp[ref::grid<2>::at(q.s.g.np, i)] = map_p(i); });
        double load = norm(base.ru) + norm(res.ru) + norm(second.ru);
        agree(c, q, res.u, res.p, wu, wp, 4 * load, solver == lu, names[what]);
    }
    PROPERTY("P14", p14);

    // ---------------------------------------------------------------- P32
    // draws an option value or nothing
    struct drawn
    {
        std::array<int, 3> n{{17, 17, 17}};
        std::array<double, 3> L{{1., 1., 1.}};
        std::array<bool, 3> per{{false, false, false}};
        bool strain = false, assembling = false, pmm = false;
        int given = 0;
    };
    drawn gen_options(Case &c, int dims, int nmin, int nmax)
    {
        drawn o;
        static char const *m[3] = {"-mx", "-my", "-mz"}, *l[3] = {"-Lx", "-Ly", "-Lz"}, *q[3] = {"-xperiod", "-yperiod", "-zperiod"};
        std::string text;
        auto set = [&](std::string const &k, std::string const &v) {
            hv::opt(k, v);
            text += k + " " + v + " ";
            ++o.given;
        };
        auto flag_value = [&](bool &b, char const *k) {
            if (!c.flag(1, 2))
                return;
            int how = c.integer(0, 3); // bare, true, false, 0
            b = how < 2;
            set(k, how == 0 ? "" : how == 1 ? "true" : how == 2 ? "false" : "0");
        };
        for (int d = 0; d < dims; ++d)
        {
            if (c.flag(1, 2))
            {
                o.n[d] = c.integer(nmin, nmax);
                set(m[d], std::to_string(o.n[d]));
            }
            if (c.flag(1, 2))
            {
                o.L[d] = c.real(0.1, 5);
                set(l[d], hv::exact(o.L[d]));
            }
            flag_value(o.per[d], q[d]);
        }
        flag_value(o.strain, "-strain_tensor");
        flag_value(o.assembling, "-assembling");
        flag_value(o.pmm, "-PMM");
        c.note("options", text);
        c.label(std::to_string(o.given) + " options");
        c.nontrivial = o.given > 0;
        return o;
    }
    template<std::size_t D>
    void check_parsed(Case &c, problem::options<D> const &opt, drawn const &o)
    {
        for (std::size_t d = 0; d < D; ++d)
        {
            c.check(opt.mx[d] == o.n[d], "points in direction " + std::to_string(d) + ": " + std::to_string(opt.mx[d]));
            c.check(opt.lx[d] == o.L[d], "length in direction " + std::to_string(d) + ": " + pbt::num(opt.lx[d]));
            c.check((opt.xperiod[d] == PETSC_TRUE) == o.per[d], "periodicity in direction " + std::to_string(d));
        }
        c.check((opt.strain_tensor == PETSC_TRUE) == o.strain, "strain_tensor");
        c.check((opt.assembling == PETSC_TRUE) == o.assembling, "assembling");
        c.check((opt.pmm == PETSC_TRUE) == o.pmm, "PMM");
    }
    void p32_parse3(Case &c)
    {
        auto o = gen_options(c, 3, 2, 200);
        problem::options<3> opt;
        opt.process_options();
        check_parsed<3>(c, opt, o);
    }
    PROPERTY("P32.parse3", p32_parse3);
    void p32_parse2(Case &c)
    {
        auto o = gen_options(c, 2, 2, 500);
        problem::options<2> opt;
        opt.process_options();
        check_parsed<2>(c, opt, o);
    }
    PROPERTY("P32.parse2", p32_parse2);

    void p32_problem(Case &c)
    {
        auto o = gen_options(c, 2, 3, 20);
        int np = c.integer(1, pbt::world_size());
        ref::grid<2> g;
        for (int d = 0; d < 2; ++d)
        {
            g.n[d] = o.n[d];
            g.per[d] = o.per[d];
            g.h[d] = 0.5 * o.L[d] / (o.n[d] - 1);
        }
        g.finish();
        while (!hv::splits<2>(g, np))
            --np;
        if (o.pmm && !o.assembling && !hierarchy_ok(g))
            o.pmm = false, hv::opt("-PMM", "false");
        std::string ksp = c.pick({"", "gmres", "bcgs", "fgmres"}), pc = c.pick({"", "none", "jacobi"});
        if (!o.assembling && pc.empty())
            pc = "none";
        double rtol = c.pick({1e-5, 1e-3, 1e-7});
        int max_it = c.pick({10000, 7, 200});
        if (!ksp.empty())
            hv::opt("-stokes_ksp_type", ksp);
        if (!pc.empty())
            hv::opt("-stokes_pc_type", pc);
        if (rtol != 1e-5)
            hv::opt("-stokes_ksp_rtol", hv::exact(rtol));
        if (max_it != 10000)
            hv::opt("-stokes_ksp_max_it", std::to_string(max_it));
        c.note("np", np);
        c.note("ksp", ksp);
        c.note("pc", pc);
        c.note("rtol", rtol);
        c.note("max_it", max_it);
        c.label(o.assembling ? "assembled" : o.pmm ? "PMM" : "matrix-free");
        pbt::world w(np);
        if (!w.active)
            return;
        auto zero = hv::zero_bc();
        auto st = make_stokes<2>(zero, make_rhs<2>({{nullptr, nullptr}}));
        check_parsed<2>(c, st.opt, o);
        auto e = hv::entries(st.ctx->dm);
        for (int k = 0; k < 2; ++k)
        {
            DMDALocalInfo i;
            DMDAGetLocalInfo(e[k], &i);
            int n[2] = {i.mx, i.my};
            DMBoundaryType b[2] = {i.bx, i.by};
            for (int d = 0; d < 2; ++d)
            {
                c.check(n[d] == (k ? g.np : g.nu)[d], std::string(k ? "pressure" : "velocity") + " nodes in direction " + std::to_string(d) + ": " +
                                                          std::to_string(n[d]));
                c.check((b[d] == DM_BOUNDARY_PERIODIC) == g.per[d], "boundary type in direction " + std::to_string(d));
            }
        }
        for (int d = 0; d < 2; ++d)
            c.close(st.ctx->h[d], g.h[d], 1e-14, "spacing in direction " + std::to_string(d));
        PetscBool shell;
        PetscObjectTypeCompare((PetscObject)st.A, MATSHELL, &shell);
        c.check((shell == PETSC_TRUE) == !o.assembling, "type of the Stokes matrix");
        c.check(st.ctx->apply == (o.strain ? static_cast<decltype(st.ctx->apply)>(fem::strain_tensor_mult<2>)
                                           : static_cast<decltype(st.ctx->apply)>(fem::laplacian_mult<2>)),
                "operator of the problem");
        c.petsc(st.setup_RHS(), "setup_RHS");
        c.petsc(st.setup_KSP(), "setup_KSP");
        KSPType kt;
        PC p;
        PCType pt;
        KSPGetType(st.ksp, &kt);
        KSPGetPC(st.ksp, &p);
        PCGetType(p, &pt);
        bool mg = o.pmm && !o.assembling;
        std::string wk = mg ? "gcr" : ksp.empty() ? "gmres" : ksp;
        if (kt)
            c.check(wk == kt, std::string("solver ") + kt + " instead of " + wk);
        else
            c.check(!mg && ksp.empty(), "no solver type");
        std::string wp = mg ? "fieldsplit" : pc;
        if (!wp.empty())
            c.check(pt && wp == pt, std::string("preconditioner ") + (pt ? pt : "(none)") + " instead of " + wp);
        double r, a, dt;
        int mi;
        KSPGetTolerances(st.ksp, &r, &a, &dt, &mi);
        c.close(r, rtol, 1e-15, "relative tolerance");
        c.check(mi == max_it, "maximum number of iterations " + std::to_string(mi));
        hv::destroy(st, true);
    }
    PROPERTY("P32.problem", p32_problem);
} // namespace

PBT_MAIN
