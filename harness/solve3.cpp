// Fluid problem in three dimensions: P06 decomposition independence, P11 solves, P12 multigrid, P13 accuracy, P14 symmetries, P32 options
#include <cafes.hpp>
#include "common.hpp"
#include "stokes_common.hpp"
#include "flow3_common.hpp"
using namespace cafes;
using namespace hv::flow3;
using pbt::Case;
using ref::form;
using ref::idx;
using ref::vec;

namespace
{
    struct problem_t
    {
        hv::setup<3> s;
        bool strain = false;
        point_fn bc, force;
        sides_t data = all_sides();
    };
    bool fixed(problem_t const &p, idx<3> const &i, int comp) { return prescribed(p.s.g, p.data, i, comp); }
    // can the fluid not leave? Then the pressure is known up to a constant
    bool closed(problem_t const &p)
    {
        for (int d = 0; d < 3; ++d)
            if (!p.s.g.per[d] && !(p.data[2 * d][d] && p.data[2 * d + 1][d]))
                return false;
        return true;
    }
    enum solver_t
    {
        plain,
        jacobi,
        pmm
    };
    char const *solver_name[] = {"gmres", "Jacobi", "PMM"};

    void set_options(problem_t const &p, int solver, double rtol)
    {
        PetscOptionsClear(nullptr);
        hv::set_grid_options(p.s);
        if (p.strain)
            hv::opt("-strain_tensor");
        if (solver == pmm)
            hv::opt("-PMM");
        else
        {
            hv::opt("-stokes_ksp_type", solver == plain ? "gmres" : "fgmres");
            hv::opt("-stokes_pc_type", solver == plain ? "none" : "jacobi");
        }
        hv::opt("-stokes_ksp_gmres_cgs_refinement_type", "refine_always"); // the residual is the true one
        hv::opt("-stokes_ksp_rtol", hv::exact(rtol));
        hv::opt("-stokes_ksp_atol", "1e-14");
        hv::opt("-stokes_ksp_max_it", "4000");
        hv::opt("-stokes_ksp_gmres_restart", solver == pmm ? "400" : "1500");
    }
    struct result
    {
        vec u, p, ru, rp;
        int reason = 0;
    };
    // must be called by every process of PETSC_COMM_WORLD; `more` replaces the right-hand side, one solve each
    std::vector<result> run(Case &c, problem_t const &p, int solver, double rtol, std::vector<std::array<vec, 2>> const &more = {}, bool own = true)
    {
        set_options(p, solver, rtol);
        cur_bc = p.bc;
        cur_force = p.force;
        auto bc = conditions(p.s.g, p.data);
        auto rhs = body(p.force);
        auto st = make_stokes<3>(bc, rhs);
        hv::soil_all(st.ctx->dm);
        c.petsc(st.setup_RHS(), "setup_RHS");
        c.petsc(st.setup_KSP(), "setup_KSP");
        std::vector<result> all;
        for (std::size_t k = own ? 0 : 1; k <= more.size(); ++k)
        {
            result r;
            if (k)
                hv::put(st.ctx->dm, st.rhs, more[k - 1][0], more[k - 1][1]);
            auto b = hv::get2(st.ctx->dm, st.rhs);
            r.ru = b[0];
            r.rp = b[1];
            c.petsc(st.solve(), "solve");
            KSPConvergedReason why;
            KSPGetConvergedReason(st.ksp, &why);
            r.reason = why;
            auto x = hv::get2(st.ctx->dm, st.sol);
            r.u = x[0];
            r.p = x[1];
            c.check(r.reason > 0, "the solver did not converge: reason " + std::to_string(r.reason));
            all.push_back(r);
        }
        hv::destroy(st, true);
        return all;
    }
    double norm(vec const &v)
    {
        double s = 0;
        for (auto x : v)
            s += x * x;
        return std::sqrt(s);
    }
    vec no_mean(vec v)
    {
        double s = 0;
        for (auto x : v)
            s += x;
        s /= v.size();
        for (auto &x : v)
            x -= s;
        return v;
    }
    void reference_rhs(problem_t const &p, vec &ru, vec &rp)
    {
        auto const &g = p.s.g;
        vec f(g.nodes_u() * 3, 0.);
        ru.assign(f.size(), 0.);
        rp.assign(g.nodes_p(), 0.);
        ref::loop<3>(g.nu, [&](idx<3> const &i) {
            std::size_t k = ref::grid<3>::at(g.nu, i) * 3;
            if (p.force)
                for (int d = 0; d < 3; ++d)
                    f[k + d] = p.force(d, position(g, i));
        });
        ref::apply<3>(form::mass, g.nu, g.cu, g.h, 3, f, ru);
        ref::loop<3>(g.nu, [&](idx<3> const &i) {
            std::size_t k = ref::grid<3>::at(g.nu, i) * 3;
            for (int d = 0; d < 3; ++d)
                if (fixed(p, i, d))
                    ru[k + d] = p.bc(d, position(g, i));
        });
    }
    void reference_apply(problem_t const &p, vec const &u, vec const &q, vec &yu, vec &yp)
    {
        auto const &g = p.s.g;
        yu.assign(u.size(), 0.);
        yp.assign(q.size(), 0.);
        ref::apply<3>(p.strain ? form::strain : form::laplacian, g.nu, g.cu, g.h, 3, u, yu);
        ref::div_grad<3>(g, u, q, yu, yp);
        ref::loop<3>(g.nu, [&](idx<3> const &i) {
            std::size_t k = ref::grid<3>::at(g.nu, i) * 3;
            for (int d = 0; d < 3; ++d)
                if (fixed(p, i, d))
                    yu[k + d] = u[k + d];
        });
    }
    double residual(problem_t const &p, vec const &u, vec const &q, vec const &ru, vec const &rp)
    {
        vec yu, yp;
        reference_apply(p, u, q, yu, yp);
        double s = 0;
        for (std::size_t i = 0; i < yu.size(); ++i)
            s += (yu[i] - ru[i]) * (yu[i] - ru[i]);
        for (std::size_t i = 0; i < yp.size(); ++i)
            s += (yp[i] - rp[i]) * (yp[i] - rp[i]);
        return std::sqrt(s);
    }

    // Two answers to one problem agree.  The tolerance of a solve bounds the residual, and the discrete problem is badly
    // conditioned on small domains and few nodes: the difference is measured by the operator, and only roughly by itself.
    void agree(Case &c, problem_t const &p, vec const &u, vec const &q, vec const &wu, vec const &wp, double load, std::string const &what)
    {
        vec du = u, dp = closed(p) ? no_mean(q) : q, none(u.size(), 0.), nop(q.size(), 0.), r = closed(p) ? no_mean(wp) : wp;
        for (std::size_t i = 0; i < du.size(); ++i)
            du[i] -= wu[i];
        for (std::size_t i = 0; i < dp.size(); ++i)
            dp[i] -= r[i];
        c.close(residual(p, du, dp, none, nop), 0., 1e-8 * load + 1e-10, what + ": difference as measured by the operator");
        hv::same(c, u, wu, 5e-2 * (1 + ref::maxabs(wu)), what + ": velocity");
    }

    // ---- generators ------------------------------------------------------------------------
    void finish(Case &c, problem_t &p)
    {
        p.strain = c.flag();
        c.note("strain", p.strain);
        p.bc = gen_bc(c, p.s);
        p.force = gen_force(c);
    }
    // sides without data, or with data on some components only; one side holds the fluid
    void open_sides(Case &c, problem_t &p)
    {
        if (!c.flag(1, 3))
            return;
        int hold = c.integer(0, 5);
        while (p.s.g.per[hold / 2])
            hold = (hold + 2) % 6;
        std::string what;
        for (int k = 0; k < 6; ++k)
            for (int d = 0; d < 3; ++d)
            {
                p.data[k][d] = k == hold || c.flag();
                what += p.s.g.per[k / 2] ? "-" : p.data[k][d] ? "1" : "0";
            }
        c.note("sides with data", what);
        c.label(closed(p) ? "some natural conditions" : "open");
    }
    problem_t gen_problem(Case &c, int max, bool open = false)
    {
        problem_t p;
        p.s = gen_grid(c, 3, max);
        finish(c, p);
        if (open)
            open_sides(c, p);
        return p;
    }
    // grids that a hierarchy of two meshes fits (or one that needs none)
    problem_t gen_hierarchy(Case &c, int np_max, bool thin = false, bool open = false)
    {
        problem_t p;
        auto &g = p.s.g;
        int shape = c.integer(0, 2);
        double h0 = c.real(0.05, 0.3);
        bool small = c.flag(1, 3);
        int big = c.integer(0, 2);
        thin = thin && c.flag(1, 4); // a layer: direction `big` alone is thin
        for (int d = 0; d < 3; ++d)
        {
            g.per[d] = c.flag(1, 4);
            // 2(n-1) cells
            g.n[d] = thin ? (d == big ? c.pick({4, 6}) : c.integer(10, 12)) : small ? c.integer(3, 4) : d == big ? c.integer(5, 8) : c.pick({5, 5, 5, 6});
        }
        if (g.per[0] && g.per[1] && g.per[2])
            g.per[c.integer(0, 2)] = false;
        for (int d = 0; d < 3; ++d)
        {
            p.s.L[d] = shape == 0 ? 1. : shape == 1 ? h0 * (g.n[d] - 1) : c.real_near(1., 0.7, 1.5);
            g.h[d] = 0.5 * p.s.L[d] / (g.n[d] - 1);
        }
        g.finish();
        p.s.np = c.integer(1, std::min(np_max, pbt::world_size()));
        while (!hv::splits<3>(g, p.s.np))
            --p.s.np;
        c.note("n", g.n);
        c.note("per", hv::dims<3>(g.per));
        c.note("L", p.s.L);
        c.note("np", p.s.np);
        finish(c, p);
        if (open)
            open_sides(c, p);
        if (g.n[0] != g.n[1] || g.n[0] != g.n[2])
            c.label("different numbers of cells");
        if (g.per[0] || g.per[1] || g.per[2])
            c.label("periodic");
        if (thin)
            c.label("layer");
        if (p.s.np > 1)
            c.label("parallel");
        return p;
    }

    // ---------------------------------------------------------------- P11
    void p11_posed(Case &c)
    {
        int solver = c.integer(0, 2);
        auto p = solver == pmm ? gen_hierarchy(c, 4, false, true) : gen_problem(c, 4, true);
        if (solver == pmm && !hierarchy_ok(p.s.g))
            throw pbt::skip_case{};
        double rtol = c.pick({1e-9, 1e-7, 1e-5});
        c.note("solver", solver_name[solver]);
        c.note("rtol", rtol);
        c.label(solver_name[solver]);
        pbt::world w(p.s.np);
        if (!w.active)
            return;
        auto const &g = p.s.g;
        vec ru, rp;
        reference_rhs(p, ru, rp);
        double nr = norm(ru);
        c.nontrivial = nr > 1e-12;
        auto r = run(c, p, solver, rtol)[0];
        double tol = (5 * rtol + 1e-8) * (nr + 1e-10);
        c.close(residual(p, r.u, r.p, ru, rp), 0., tol, std::string("residual of the posed problem (") + solver_name[solver] + ")");
        ref::loop<3>(g.nu, [&](idx<3> const &i) {
            for (int d = 0; d < 3; ++d)
                if (fixed(p, i, d))
                    c.close(r.u[ref::grid<3>::at(g.nu, i) * 3 + d], p.bc(d, position(g, i)), tol + 1e-9,
                            "boundary value at " + pbt::str(i) + " component " + std::to_string(d));
        });
    }
    PROPERTY("P11.posed3", p11_posed);

    void p11_manufactured(Case &c)
    {
        int solver = c.integer(0, 2);
        auto p = solver == pmm ? gen_hierarchy(c, 4, false, true) : gen_problem(c, 4, true);
        if (solver == pmm && !hierarchy_ok(p.s.g))
            throw pbt::skip_case{};
        int steps = solver == pmm ? c.integer(1, 3) : 1;
        auto k = c.seed();
        c.note("solver", solver_name[solver]);
        c.note("solution", k);
        c.note("steps", steps);
        c.label(solver_name[solver]);
        c.nontrivial = true;
        pbt::world w(p.s.np);
        if (!w.active)
            return;
        std::vector<std::array<vec, 2>> b(steps), x(steps);
        for (int s = 0; s < steps; ++s)
        {
            vec u(p.s.g.nodes_u() * 3), q(p.s.g.nodes_p());
            for (std::size_t i = 0; i < u.size(); ++i)
                u[i] = pbt::unit(k + 2 * s, i);
            for (std::size_t i = 0; i < q.size(); ++i)
                q[i] = pbt::unit(k + 2 * s + 1, i);
            reference_apply(p, u, q, b[s][0], b[s][1]);
            x[s] = {{u, q}};
        }
        auto r = run(c, p, solver, 1e-9, b, false);
        for (int s = 0; s < steps; ++s)
        {
            std::string at = " of solve " + std::to_string(s) + " (" + solver_name[solver] + ")";
            agree(c, p, r[s].u, r[s].p, x[s][0], x[s][1], norm(b[s][0]) + norm(b[s][1]), "solution" + at);
        }
    }
    PROPERTY("P11.manufactured3", p11_manufactured);

    // ---------------------------------------------------------------- P12
    void p12(Case &c)
    {
        auto p = gen_hierarchy(c, 6, true, true);
        if (!hierarchy_ok(p.s.g))
            throw pbt::skip_case{};
        double rtol = c.pick({1e-8, 1e-6, 1e-4});
        c.note("rtol", rtol);
        c.label(std::to_string(mg_levels(p.s.g)) + " levels");
        c.nontrivial = mg_levels(p.s.g) > 1;
        pbt::world w(p.s.np);
        if (!w.active)
            return;
        vec ru, rp;
        reference_rhs(p, ru, rp);
        auto r = run(c, p, pmm, rtol)[0];
        c.close(residual(p, r.u, r.p, ru, rp), 0., (2 * rtol + 1e-9) * (norm(ru) + 1e-10), "residual of the posed problem");
    }
    PROPERTY("P12.3d", p12);

    // ---------------------------------------------------------------- P06
    void p06(Case &c)
    {
        int solver = c.pick({plain, pmm, pmm});
        auto p = solver == pmm ? gen_hierarchy(c, 6, false, true) : gen_problem(c, 4, true);
        if (solver == pmm && !hierarchy_ok(p.s.g))
            throw pbt::skip_case{};
        if (p.s.np < 2 && pbt::world_size() > 1)
        {
            p.s.np = pbt::world_size();
            while (!hv::splits<3>(p.s.g, p.s.np))
                --p.s.np;
        }
        c.note("solver", solver_name[solver]);
        c.note("np", p.s.np);
        c.label("np" + std::to_string(p.s.np));
        c.nontrivial = p.s.np > 1;
        result one, many;
        {
            pbt::world w(p.s.np);
            if (w.active)
                many = run(c, p, solver, 1e-9)[0];
        }
        {
            pbt::world w(1);
            if (w.active)
                one = run(c, p, solver, 1e-9)[0];
        }
        if (pbt::world_rank() != 0 || one.u.empty())
            return;
        double n = 1 + ref::maxabs(one.ru);
        hv::same(c, many.ru, one.ru, 1e-12 * n, "right-hand side (velocity)");
        hv::same(c, many.rp, one.rp, 1e-12 * n, "right-hand side (pressure)");
        agree(c, p, many.u, many.p, one.u, one.p, norm(one.ru), "solution");
    }
    PROPERTY("P06.3d", p06);

    // ---------------------------------------------------------------- P13
    void p13_linear(Case &c)
    {
        int solver = c.pick({plain, pmm, pmm});
        auto p = solver == pmm ? gen_hierarchy(c, 4) : gen_problem(c, 4);
        if (solver == pmm && !hierarchy_ok(p.s.g))
            throw pbt::skip_case{};
        auto k = c.seed();
        auto r = [k](int j) { return pbt::unit(k, 90 + j); };
        c.note("solver", solver_name[solver]);
        c.note("flow", k);
        c.label(solver_name[solver]);
        auto const per = p.s.g.per;
        // velocity A x + b without trace, no dependence on periodic directions; constant pressure gradient
        double A[3][3], gr[3];
        bool closed = !per[0] && !per[1] && !per[2];
        for (int d = 0; d < 3; ++d)
        {
            gr[d] = per[d] ? 0 : 3 * r(30 + d);
            for (int e = 0; e < 3; ++e)
                A[d][e] = per[e] || (d == e && !closed) ? 0 : r(3 * d + e);
        }
        A[2][2] = closed ? -A[0][0] - A[1][1] : 0;
        std::array<std::array<double, 3>, 3> a;
        std::array<double, 3> gg;
        for (int d = 0; d < 3; ++d)
        {
            gg[d] = gr[d];
            for (int e = 0; e < 3; ++e)
                a[d][e] = A[d][e];
        }
        p.bc = [=](int d, pos_t const &x) { return r(20 + d) + a[d][0] * x[0] + a[d][1] * x[1] + a[d][2] * x[2]; };
        p.force = [=](int d, pos_t const &) { return gg[d]; };
        c.nontrivial = true;
        pbt::world w(p.s.np);
        if (!w.active)
            return;
        auto res = run(c, p, solver, 1e-9)[0];
        auto const &g = p.s.g;
        vec u(g.nodes_u() * 3), q(g.nodes_p());
        ref::loop<3>(g.nu, [&](idx<3> const &i) {
            for (int d = 0; d < 3; ++d)
                u[ref::grid<3>::at(g.nu, i) * 3 + d] = p.bc(d, position(g, i));
        });
        ref::loop<3>(g.np, [&](idx<3> const &i) {
            double s = 0;
            for (int d = 0; d < 3; ++d)
                s += 2 * gg[d] * i[d] * g.h[d];
            q[ref::grid<3>::at(g.np, i)] = s;
        });
        agree(c, p, res.u, res.p, u, q, norm(res.ru), "linear flow");
    }
    PROPERTY("P13.linear3", p13_linear);

    // ---------------------------------------------------------------- P14
    void p14(Case &c)
    {
        int solver = c.pick({plain, pmm, pmm});
        auto p = solver == pmm ? gen_hierarchy(c, 4) : gen_problem(c, 4);
        if (solver == pmm && !hierarchy_ok(p.s.g))
            throw pbt::skip_case{};
        int what = c.integer(0, 3);
        static char const *names[] = {"linearity", "mirror", "permutation of the axes", "length scaling"};
        point_fn bc2 = gen_bc(c, p.s), f2 = gen_force(c);
        double al = c.real(-2, 2), be = c.real(-2, 2), lam = c.pick({2., 0.5, 1.25, 3.});
        int m = c.integer(0, 2);
        static int const perms[5][3] = {{1, 0, 2}, {0, 2, 1}, {2, 1, 0}, {1, 2, 0}, {2, 0, 1}};
        int const *to = perms[c.integer(0, 4)]; // new axis d is the old axis to[d]
        c.note("relation", names[what]);
        c.note("solver", solver_name[solver]);
        c.label(names[what]);
        c.nontrivial = true;
        if (what == 1)
            c.note("axis", m);
        if (what == 2)
            c.note("axes", std::array<int, 3>{{to[0], to[1], to[2]}});
        double const rtol = 1e-9;
        auto const g = p.s.g;
        auto const L = p.s.L;
        problem_t q = p;
        if (what == 2)
        {
            for (int d = 0; d < 3; ++d)
            {
                q.s.g.n[d] = g.n[to[d]];
                q.s.g.per[d] = g.per[to[d]];
                q.s.g.h[d] = g.h[to[d]];
                q.s.L[d] = L[to[d]];
            }
            q.s.g.finish();
            while (p.s.np > 1 && (!hv::splits<3>(q.s.g, p.s.np) || !hv::splits<3>(p.s.g, p.s.np)))
                --p.s.np;
            q.s.np = p.s.np;
        }
        pbt::world w(p.s.np);
        if (!w.active)
            return;
        auto base = run(c, p, solver, rtol)[0];
        auto zero = [](point_fn const &f) { return f ? f : point_fn([](int, pos_t const &) { return 0.; }); };
        point_fn bc = p.bc, f = zero(p.force);
        std::function<double(int, idx<3>)> map_u;
        std::function<double(idx<3>)> map_p;
        auto U = [&](int d, idx<3> i) { return base.u[ref::grid<3>::at(g.nu, i) * 3 + d]; };
        auto P = [&](idx<3> i) { return base.p[ref::grid<3>::at(g.np, i)]; };
        result second;
        if (what == 0)
        {
            q.bc = bc2;
            q.force = f2;
            second = run(c, q, solver, rtol)[0];
            point_fn ff2 = zero(f2);
            q.bc = [=](int d, pos_t const &x) { return al * bc(d, x) + be * bc2(d, x); };
            q.force = [=](int d, pos_t const &x) { return al * f(d, x) + be * ff2(d, x); };
            map_u = [&](int d, idx<3> i) { return al * U(d, i) + be * second.u[ref::grid<3>::at(g.nu, i) * 3 + d]; };
            map_p = [&](idx<3> i) { return al * P(i) + be * second.p[ref::grid<3>::at(g.np, i)]; };
        }
        else if (what == 1)
        {
            auto flip = [=](point_fn fn) {
                return point_fn([=](int d, pos_t const &x) {
                    auto z = x;
                    z[m] = L[m] - z[m];
                    if (g.per[m] && z[m] > L[m] * (1 - 1e-9))
                        z[m] = 0;
                    return (d == m ? -1 : 1) * fn(d, z);
                });
            };
            q.bc = flip(bc);
            q.force = flip(f);
            map_u = [&, m](int d, idx<3> i) {
                i[m] = g.cu[m] - i[m];
                return (d == m ? -1 : 1) * U(d, i);
            };
            map_p = [&, m](idx<3> i) {
                i[m] = g.cp[m] - i[m];
                return P(i);
            };
        }
        else if (what == 2)
        {
            auto old = [to](auto const &x) {
                auto z = x;
                for (int d = 0; d < 3; ++d)
                    z[to[d]] = x[d];
                return z;
            };
            q.bc = [=](int d, pos_t const &x) { return bc(to[d], old(x)); };
            q.force = [=](int d, pos_t const &x) { return f(to[d], old(x)); };
            map_u = [&, old](int d, idx<3> i) { return U(to[d], old(i)); };
            map_p = [&, old](idx<3> i) { return P(old(i)); };
        }
        else
        {
            for (int d = 0; d < 3; ++d)
            {
                q.s.L[d] *= lam;
                q.s.g.h[d] *= lam;
            }
            auto shrink = [lam](pos_t const &x) { return pos_t{{x[0] / lam, x[1] / lam, x[2] / lam}}; };
            q.bc = [=](int d, pos_t const &x) { return bc(d, shrink(x)); };
            q.force = [=](int d, pos_t const &x) { return f(d, shrink(x)) / lam / lam; };
            map_u = U;
            map_p = [&, lam](idx<3> i) { return P(i) / lam; };
        }
        auto res = run(c, q, solver, rtol)[0];
        vec wu(res.u.size()), wp(res.p.size());
        ref::loop<3>(q.s.g.nu, [&](idx<3> const &i) {
            for (int d = 0; d < 3; ++d)
                wu[ref::grid<3>::at(q.s.g.nu, i) * 3 + d] = map_u(d, i);
        });
        ref::loop<3>(q.s.g.np, [&](idx<3> const &i) { wp[ref::grid<3>::at(q.s.g.np, i)] = map_p(i); });
        double load = norm(base.ru) + norm(res.ru) + norm(second.ru);
        agree(c, q, res.u, res.p, wu, wp, 4 * load, names[what]);
    }
    PROPERTY("P14.3d", p14);

    // ---------------------------------------------------------------- P32
    void p32_problem(Case &c)
    {
        PetscOptionsClear(nullptr);
        static char const *m[3] = {"-mx", "-my", "-mz"}, *l[3] = {"-Lx", "-Ly", "-Lz"}, *q[3] = {"-xperiod", "-yperiod", "-zperiod"};
        ref::grid<3> g;
        std::string text;
        for (int d = 0; d < 3; ++d)
        {
            double L = 1;
            g.n[d] = 17;
            g.per[d] = false;
            if (c.flag(5, 6))
                hv::opt(m[d], std::to_string(g.n[d] = c.integer(3, 9)));
            if (c.flag())
                hv::opt(l[d], hv::exact(L = c.real(0.1, 5)));
            if (c.flag(1, 3))
                g.per[d] = true, hv::opt(q[d]);
            g.h[d] = 0.5 * L / (g.n[d] - 1);
            text += std::to_string(g.n[d]) + (g.per[d] ? "P " : " ") + pbt::num(L) + "; ";
        }
        g.finish();
        bool strain = c.flag(), mg = c.flag();
        int np = c.integer(1, pbt::world_size());
        while (!hv::splits<3>(g, np))
            --np;
        if (!hierarchy_ok(g))
            mg = false;
        if (strain)
            hv::opt("-strain_tensor");
        if (mg)
            hv::opt("-PMM");
        double rtol = c.pick({1e-5, 1e-3, 1e-7});
        if (rtol != 1e-5)
            hv::opt("-stokes_ksp_rtol", hv::exact(rtol));
        c.note("grid", text);
        c.note("np", np);
        c.note("strain", strain);
        c.note("PMM", mg);
        c.nontrivial = true;
        pbt::world w(np);
        if (!w.active)
            return;
        cur_bc = [](int, pos_t const &) { return 0.; };
        auto bc = conditions(g);
        auto st = make_stokes<3>(bc, body({}));
        auto e = hv::entries(st.ctx->dm);
        for (int k = 0; k < 2; ++k)
        {
            DMDALocalInfo i;
            DMDAGetLocalInfo(e[k], &i);
            int n[3] = {i.mx, i.my, i.mz};
            DMBoundaryType b[3] = {i.bx, i.by, i.bz};
            for (int d = 0; d < 3; ++d)
            {
                c.check(n[d] == (k ? g.np : g.nu)[d], std::string(k ? "pressure" : "velocity") + " nodes in direction " + std::to_string(d) + ": " +
                                                          std::to_string(n[d]));
                c.check((b[d] == DM_BOUNDARY_PERIODIC) == g.per[d], "boundary type in direction " + std::to_string(d));
            }
        }
        for (int d = 0; d < 3; ++d)
            c.close(st.ctx->h[d], g.h[d], 1e-14, "spacing in direction " + std::to_string(d));
        c.check(st.ctx->apply == (strain ? static_cast<decltype(st.ctx->apply)>(fem::strain_tensor_mult<3>)
                                         : static_cast<decltype(st.ctx->apply)>(fem::laplacian_mult<3>)),
                "operator of the problem");
        c.petsc(st.setup_RHS(), "setup_RHS");
        c.petsc(st.setup_KSP(), "setup_KSP");
        PC p;
        PCType pt;
        KSPGetPC(st.ksp, &p);
        PCGetType(p, &pt);
        if (mg)
            c.check(pt && std::string(pt) == "fieldsplit", std::string("preconditioner ") + (pt ? pt : "(none)"));
        double r, a, dt;
        int mi;
        KSPGetTolerances(st.ksp, &r, &a, &dt, &mi);
        c.close(r, rtol, 1e-15, "relative tolerance");
        hv::destroy(st, true);
    }
    PROPERTY("P32.problem3", p32_problem);
} // namespace

PBT_MAIN
