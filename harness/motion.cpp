// Particles moving in a fluid: P30 force-driven (smooth extension), P31 prescribed motion (Dirichlet to Neumann)
#include <cafes.hpp>
#include "common.hpp"
#include "stokes_common.hpp"
#include "flow_common.hpp"
#include "particle_common.hpp"
#include <problem/dton.hpp>
using namespace cafes;
using hv::flow::point_fn;
using pbt::Case;
using ref::form;
using ref::idx;
using ref::vec;

namespace
{
    using pt = hv::pt<2>;
    using ball = hv::ball<2>;
    using particles_t = std::vector<hv::part_t<2>>;

    struct scenario
    {
        hv::setup<2> s;
        bool strain;
        point_fn bc, force;
        std::vector<ball> balls;
        double dpart;
        int solver;
        double rtol; // outer
        int its;
    };
    enum
    {
        direct, // GMRES, factorised preconditioner
        plain,  // matrix free GMRES
        pmm
    };

    bool on_wall(ref::grid<2> const &g, idx<2> const &i)
    {
        for (int d = 0; d < 2; ++d)
            if (!g.per[d] && (i[d] == 0 || i[d] == g.nu[d] - 1))
                return true;
        return false;
    }
    bool hierarchy(ref::grid<2> const &g)
    {
        int l = 0;
        for (int i = std::min(g.nu[0], g.nu[1]); i > 8; i >>= 1)
            ++l;
        for (int d = 0; d < 2; ++d)
            if (g.cu[d] % (1 << l) || g.cu[d] >> l < 2)
                return false;
        return true;
    }
    hv::setup<2> gen_grid(Case &c, int min, int max)
    {
        auto s = hv::gen_setup<2>(c, max, true, min);
        if (s.g.per[0] && s.g.per[1])
        {
            s.g.per[1] = false;
            s.g.finish();
            c.note("closed", "y");
            while (!hv::splits<2>(s.g, s.np))
                --s.np;
        }
        return s;
    }
    void set_options(scenario const &q, std::string const &outer)
    {
        PetscOptionsClear(nullptr);
        hv::set_grid_options(q.s);
        if (q.strain)
            hv::opt("-strain_tensor");
        if (q.solver == pmm)
            hv::opt("-PMM");
        else
        {
            hv::opt("-stokes_ksp_type", "gmres");
            if (q.solver == direct)
                hv::opt("-assembling");
            hv::opt("-stokes_pc_type", q.solver == plain ? "none" : q.s.np == 1 ? "lu" : "redundant");
        }
        hv::opt("-stokes_ksp_gmres_cgs_refinement_type", "refine_always"); // the residual is the true one
        hv::opt("-stokes_ksp_rtol", "1e-10");
        hv::opt("-stokes_ksp_atol", "1e-14");
        hv::opt("-stokes_ksp_max_it", "4000");
        hv::opt("-stokes_ksp_gmres_restart", "400");
        hv::opt("-" + outer + "_ksp_type", "gmres");
        hv::opt("-" + outer + "_ksp_rtol", hv::exact(q.rtol));
        hv::opt("-" + outer + "_ksp_atol", "1e-30");
        hv::opt("-" + outer + "_ksp_max_it", std::to_string(q.its));
        hv::opt("-" + outer + "_ksp_gmres_restart", std::to_string(q.its));
    }
    problem::stokes<2> make_fluid(scenario const &q, std::string const &outer)
    {
        set_options(q, outer);
        hv::flow::cur_bc = q.bc;
        hv::flow::cur_force = q.force;
        using side = std::array<condition_fn, 2>;
        side all{{hv::flow::bc_fn<0>, hv::flow::bc_fn<1>}}, none{{nullptr, nullptr}};
        side sx = q.s.g.per[0] ? none : all, sy = q.s.g.per[1] ? none : all;
        auto bc = make_bc<2>({sx, sx, sy, sy});
        auto rhs = q.force ? make_rhs<2>({{hv::flow::force_fn<0>, hv::flow::force_fn<1>}}) : make_rhs<2>({{nullptr, nullptr}});
        auto st = make_stokes<2>(bc, rhs);
        hv::soil_all(st.ctx->dm);
        return st;
    }

    // ---- reference ----------------------------------------------------------------------------
    struct model
    {
        scenario const &q;
        ref::grid<2> const &g;
        std::size_t nu, np, n;
        vec a;
        std::vector<std::size_t> piv;
        std::vector<hv::samples<2>> surf;
        std::vector<std::vector<std::size_t>> covered; // nodes of each particle
        std::vector<std::vector<pt>> volume;           // quadrature points of each particle
        bool clear = true;

        explicit model(scenario const &q_) : q(q_), g(q_.s.g), nu(g.nodes_u() * 2), np(g.nodes_p()), n(nu + np + 1), a(n * n, 0.), piv(n)
        {
            vec u(nu, 0.), p(np, 0.), yu, yp;
            for (std::size_t j = 0; j + 1 < n; ++j)
            {
                (j < nu ? u[j] : p[j - nu]) = 1;
                apply(u, p, yu, yp);
                (j < nu ? u[j] : p[j - nu]) = 0;
                for (std::size_t i = 0; i < nu; ++i)
                    a[i * n + j] = yu[i];
                for (std::size_t i = 0; i < np; ++i)
                    a[(nu + i) * n + j] = yp[i];
            }
            for (std::size_t i = 0; i < np; ++i) // the pressure has no mean
                a[(nu + i) * n + n - 1] = a[(n - 1) * n + nu + i] = 1;
            factor();
            for (auto &b : q.balls)
            {
                auto part = hv::build<2>(b, true);
                surf.push_back(hv::all_samples<2>(q.s, part, q.dpart));
                clear &= surf.back().count() == static_cast<int>(surf.back().x.size());
                covered.push_back({});
                volume.push_back({});
                ref::loop<2>(g.cu, [&](idx<2> const &i) {
                    int sd = hv::side<2>(b, position(i));
                    clear &= sd != 0;
                    if (sd < 0)
                        covered.back().push_back(ref::grid<2>::at(g.nu, i));
                    if (std::abs(position(i)[0] - b.c[0]) > b.R + g.h[0] * 1.01 || std::abs(position(i)[1] - b.c[1]) > b.R + g.h[1] * 1.01)
                        return;
                    for (int y = 0; y < 4; ++y)
                        for (int x = 0; x < 4; ++x)
                        {
                            pt z{{(i[0] + 0.25 * x) * g.h[0], (i[1] + 0.25 * y) * g.h[1]}};
                            int s2 = hv::side<2>(b, z);
                            clear &= s2 != 0;
                            if (s2 < 0)
                                volume.back().push_back(z);
                        }
                });
            }
        }
        pt position(idx<2> const &i) const { return {{i[0] * g.h[0], i[1] * g.h[1]}}; }
        pt position(std::size_t node) const { return {{(node % g.nu[0]) * g.h[0], (node / g.nu[0]) * g.h[1]}}; }
        void apply(vec const &u, vec const &p, vec &yu, vec &yp) const
        {
            yu.assign(nu, 0.);
            yp.assign(np, 0.);
            ref::apply<2>(q.strain ? form::strain : form::laplacian, g.nu, g.cu, g.h, 2, u, yu);
            ref::div_grad<2>(g, u, p, yu, yp);
            ref::loop<2>(g.nu, [&](idx<2> const &i) {
                auto k = ref::grid<2>::at(g.nu, i) * 2;
                if (on_wall(g, i))
                    for (int d = 0; d < 2; ++d)
                        yu[k + d] = u[k + d];
            });
        }
        void factor()
        {
            for (std::size_t k = 0; k < n; ++k)
            {
                std::size_t m = k;
                for (std::size_t i = k + 1; i < n; ++i)
                    if (std::abs(a[i * n + k]) > std::abs(a[m * n + k]))
                        m = i;
                piv[k] = m;
                if (m != k)
                    std::swap_ranges(a.begin() + k * n, a.begin() + (k + 1) * n, a.begin() + m * n);
                double const d = 1 / a[k * n + k];
                for (std::size_t i = k + 1; i < n; ++i)
                {
                    double f = a[i * n + k] *= d;
                    if (f == 0)
                        continue;
                    double *r = &a[i * n];
                    double const *t = &a[k * n];
                    for (std::size_t j = k + 1; j < n; ++j)
                        r[j] -= f * t[j];
                }
            }
        }
        // the flow of a load (boundary values in the rows of the walls)
        vec solve(vec const &load) const
        {
            vec x(n, 0.);
            std::copy(load.begin(), load.end(), x.begin());
            for (std::size_t k = 0; k < n; ++k)
                std::swap(x[k], x[piv[k]]);
            for (std::size_t i = 0; i < n; ++i)
                for (std::size_t j = 0; j < i; ++j)
                    x[i] -= a[i * n + j] * x[j];
            for (std::size_t i = n; i-- > 0;)
            {
                for (std::size_t j = i + 1; j < n; ++j)
                    x[i] -= a[i * n + j] * x[j];
                x[i] /= a[i * n + i];
            }
            return x; // velocity, then pressure
        }
        vec walls(vec load, bool data) const
        {
            ref::loop<2>(g.nu, [&](idx<2> const &i) {
                auto k = ref::grid<2>::at(g.nu, i) * 2;
                if (on_wall(g, i))
                    for (int d = 0; d < 2; ++d)
                        load[k + d] = data ? q.bc(d, i[0] * g.h[0], i[1] * g.h[1]) : 0.;
            });
            return load;
        }
        // the flow driven by a control (values on the nodes of the velocity), with the data of the problem or without
        vec driven(vec const &control, bool data, bool forces) const
        {
            vec f = control, load(nu, 0.);
            if (forces)
                for (std::size_t i = 0; i < q.balls.size(); ++i)
                    for (auto k : covered[i])
                        for (int d = 0; d < 2; ++d)
                            f[2 * k + d] += q.balls[i].rho * q.balls[i].F[d];
            if (data && q.force)
                ref::loop<2>(g.nu, [&](idx<2> const &i) {
                    auto k = ref::grid<2>::at(g.nu, i) * 2;
                    for (int d = 0; d < 2; ++d)
                        f[k + d] += q.force(d, i[0] * g.h[0], i[1] * g.h[1]);
                });
            ref::apply<2>(form::mass, g.nu, g.cu, g.h, 2, f, load);
            return solve(walls(load, data));
        }
        std::vector<std::vector<pt>> on_surface(vec const &u) const
        {
            std::vector<std::vector<pt>> v(surf.size());
            for (std::size_t i = 0; i < surf.size(); ++i)
                for (auto &x : surf[i].x)
                    v[i].push_back(hv::interpolate<2>(g, u, x));
            return v;
        }
        pt arm(std::size_t i, pt const &x) const { return {{x[0] - q.balls[i].c[0], x[1] - q.balls[i].c[1]}}; }
        static void rigid_part(std::vector<pt> const &r, std::vector<pt> const &v, double inertia, pt &mean, double &spin)
        {
            mean = {{0, 0}};
            spin = 0;
            for (std::size_t k = 0; k < r.size(); ++k)
            {
                mean[0] += v[k][0] / r.size();
                mean[1] += v[k][1] / r.size();
                spin += inertia * (r[k][0] * v[k][1] - r[k][1] * v[k][0]) / r.size();
            }
        }
        vec spread(std::vector<std::vector<pt>> const &v) const
        {
            vec load(nu, 0.);
            for (std::size_t i = 0; i < v.size(); ++i)
                for (std::size_t k = 0; k < v[i].size(); ++k)
                    hv::weights<2>(g, surf[i].x[k], [&](std::size_t node, double w) {
                        for (int d = 0; d < 2; ++d)
                            load[2 * node + d] += w * v[i][k][d] * 2 * M_PI * q.balls[i].R / v[i].size();
                    });
            return solve(walls(load, false));
        }
        // what the outer method makes of a control: values on the covered nodes
        vec dton(vec const &control, bool data) const
        {
            auto v = on_surface(driven(control, data, false));
            if (data)
                for (std::size_t i = 0; i < v.size(); ++i)
                    for (std::size_t k = 0; k < v[i].size(); ++k)
                    {
                        auto w = hv::rotation(q.balls[i].W, arm(i, surf[i].x[k]));
                        for (int d = 0; d < 2; ++d)
                            v[i][k][d] -= q.balls[i].V[d] + w[d];
                    }
            auto w = spread(v);
            vec y(nu, 0.);
            for (auto &list : covered)
                for (auto k : list)
                    for (int d = 0; d < 2; ++d)
                        y[2 * k + d] = w[2 * k + d];
            return y;
        }
        vec sem(vec const &control, bool data) const
        {
            auto v = on_surface(driven(control, data, data));
            pt mean;
            double spin;
            for (std::size_t i = 0; i < v.size(); ++i)
            {
                std::vector<pt> r;
                for (auto &x : surf[i].x)
                    r.push_back(arm(i, x));
                rigid_part(r, v[i], 1 / (q.balls[i].R * q.balls[i].R), mean, spin);
                for (std::size_t k = 0; k < r.size(); ++k)
                {
                    v[i][k][0] -= mean[0] - spin * r[k][1];
                    v[i][k][1] -= mean[1] + spin * r[k][0];
                }
            }
            auto w = spread(v);
            vec y(nu, 0.);
            for (std::size_t i = 0; i < covered.size(); ++i)
            {
                std::vector<pt> r, z;
                for (auto &x : volume[i])
                {
                    r.push_back(arm(i, x));
                    z.push_back(hv::interpolate<2>(g, w, x));
                }
                rigid_part(r, z, 2 / (q.balls[i].R * q.balls[i].R), mean, spin);
                for (auto k : covered[i])
                {
                    auto e = arm(i, position(k));
                    y[2 * k] = w[2 * k] - mean[0] + spin * e[1];
                    y[2 * k + 1] = w[2 * k + 1] - mean[1] - spin * e[0];
                }
            }
            return y;
        }
        std::size_t size() const
        {
            std::size_t r = 0;
            for (auto &l : covered)
                r += l.size();
            return r;
        }
    };

    // ---- transfers ----------------------------------------------------------------------------
    // the nodes of the entries of a control vector on this process
    template<class S>
    std::vector<std::size_t> local_nodes(S &sys, scenario const &q)
    {
        std::vector<std::size_t> v;
        auto box = fem::get_DM_bounds<2>(sys.problem_.ctx->dm, 0);
        for (auto &p : sys.parts_)
        {
            auto pbox = p.bounding_box(q.s.g.h);
            if (geometry::intersect(box, pbox))
                for (auto const &n : find_fluid_points_insides(p, geometry::overlap_box(box, pbox), q.s.g.h))
                    v.push_back(ref::grid<2>::at(q.s.g.nu, {{n[0], n[1]}}));
        }
        return v;
    }
    template<class S>
    vec get(S &sys, scenario const &q, Vec x)
    {
        vec a(q.s.g.nodes_u() * 2, 0.), r(a.size());
        auto nodes = local_nodes(sys, q);
        double const *p;
        VecGetArrayRead(x, &p);
        for (std::size_t k = 0; k < nodes.size(); ++k)
            for (int d = 0; d < 2; ++d)
                a[2 * nodes[k] + d] = p[2 * k + d];
        VecRestoreArrayRead(x, &p);
        MPI_Allreduce(a.data(), r.data(), static_cast<int>(a.size()), MPI_DOUBLE, MPI_SUM, PETSC_COMM_WORLD);
        return r;
    }
    template<class S>
    void put(S &sys, scenario const &q, Vec x, vec const &a)
    {
        auto nodes = local_nodes(sys, q);
        double *p;
        VecGetArray(x, &p);
        for (std::size_t k = 0; k < nodes.size(); ++k)
            for (int d = 0; d < 2; ++d)
                p[2 * k + d] = a[2 * nodes[k] + d];
        VecRestoreArray(x, &p);
    }
    template<class S>
    void release(S &sys, bool ksp)
    {
        if (ksp)
            KSPDestroy(&sys.ksp);
        VecDestroy(&sys.sol);
        VecDestroy(&sys.rhs);
        MatDestroy(&sys.A);
        delete sys.ctx;
        hv::destroy(sys.problem_, true);
    }
    using sem_t = problem::SEM<hv::shape_t<2>, 2, problem::stokes<2>>;
    using dton_t = problem::DtoN<hv::shape_t<2>, 2, problem::stokes<2>>;
    void release_all(sem_t &s, bool ksp) { release(s, ksp); }
    void release_all(dton_t &s, bool ksp)
    {
        VecDestroy(&s.sol_tmp);
        VecDestroy(&s.sol_rhs);
        VecDestroy(&s.sol_g);
        release(s, ksp);
    }
    double norm(vec const &v)
    {
        double s = 0;
        for (auto x : v)
            s += x * x;
        return std::sqrt(s);
    }

    // ---- generators ----------------------------------------------------------------------------
    scenario gen(Case &c, int min, int max, double rmin)
    {
        scenario q;
        q.s = gen_grid(c, min, max);
        double hmax = std::max(q.s.g.h[0], q.s.g.h[1]), lmin = std::min(q.s.L[0], q.s.L[1]);
        q.strain = c.flag();
        c.note("strain", q.strain);
        q.bc = hv::flow::gen_bc(c, q.s);
        q.force = hv::flow::gen_force(c);
        q.balls = hv::gen_balls<2>(c, q.s, 0, 4, true);
        for (auto &b : q.balls)
            if (b.R < rmin * hmax)
            { // a particle covers at least a node
                b.R = std::min(rmin * hmax, 0.49 * lmin);
                for (int d = 0; d < 2; ++d)
                    b.c[d] = std::min(std::max(b.c[d], b.R * 1.0001), q.s.L[d] - b.R * 1.0001);
            }
        for (std::size_t i = 1; i < q.balls.size();)
        { // enlarged particles may overlap: keep those that do not
            bool ok = true;
            for (std::size_t j = 0; j < i; ++j)
            {
                double d2 = 0;
                for (int d = 0; d < 2; ++d)
                    d2 += std::pow(q.balls[i].c[d] - q.balls[j].c[d], 2);
                ok &= std::sqrt(d2) >= q.balls[i].R + q.balls[j].R;
            }
            if (ok)
                ++i;
            else
                q.balls.erase(q.balls.begin() + i);
        }
        q.dpart = std::max(hv::dpart_of<2>::gen(c) * 0.5, 0.1);
        q.solver = c.flag(1, 4) && hierarchy(q.s.g) ? pmm : c.flag(1, 6) && max <= 7 ? plain : direct;
        q.rtol = std::pow(10., -c.integer(2, 5));
        q.its = c.integer(1, 25);
        c.note("particles", q.balls.size());
        c.note("solver", q.solver);
        c.note("outer rtol", q.rtol);
        c.note("outer its", q.its);
        c.label(q.solver == pmm ? "PMM" : q.solver == plain ? "matrix free" : "assembled");
        return q;
    }
    // particles that several cells resolve, away from the walls and from each other
    scenario gen_fine(Case &c)
    {
        scenario q;
        q.s = gen_grid(c, 13, 21);
        for (int d = 0; d < 2; ++d)
        { // nearly square cells
            q.s.L[d] = (q.s.g.n[d] - 1) * c.real(0.8, 1.2) / 16;
            q.s.g.h[d] = 0.5 * q.s.L[d] / (q.s.g.n[d] - 1);
        }
        q.s.g.finish();
        double h = std::max(q.s.g.h[0], q.s.g.h[1]), lmin = std::min(q.s.L[0], q.s.L[1]);
        q.strain = c.flag();
        q.bc = [](int, double, double) { return 0.; };
        int n = c.integer(1, 2);
        for (int k = 0; k < n; ++k)
        {
            ball b;
            b.R = c.real_near(4 * h, 3.5 * h, 0.3 * lmin);
            bool ok = true;
            for (int d = 0; d < 2; ++d)
                b.c[d] = c.real(b.R + 3 * h, q.s.L[d] - b.R - 3 * h);
            b.angle = 0;
            b.axis = 0;
            b.rho = c.real(0.5, 2);
            for (int d = 0; d < 2; ++d)
            {
                b.V[d] = c.real(-1, 1);
                b.F[d] = c.real(-1, 1);
            }
            b.W[0] = c.real(-1, 1) / b.R;
            for (auto &o : q.balls)
                ok &= std::hypot(o.c[0] - b.c[0], o.c[1] - b.c[1]) > o.R + b.R + 4 * h;
            if (!ok)
                continue;
            c.note("c", b.c);
            c.note("R", b.R);
            q.balls.push_back(b);
        }
        q.dpart = 0.6 * h / q.balls[0].R;
        q.solver = direct;
        c.note("particles", q.balls.size());
        return q;
    }
    struct outcome
    {
        vec u;
        std::vector<pt> speed;           // reported
        std::vector<std::vector<pt>> r, v; // arms and fluid velocities of the samples
        std::vector<pt> leak; // force and torque of the control, relative to the driving force
        int reason = 0, its = 0;
    };
    void velocities(Case &c, sem_t &s, outcome &o)
    {
        c.petsc(s.get_new_velocities(), "get_new_velocities");
        std::vector<geometry::vector<double, 2>> f(s.parts_.size());
        std::vector<double> t(f.size(), 0.);
        s.get_new_forces_torques(f, t);
        for (std::size_t i = 0; i < f.size(); ++i)
        {
            auto &p = s.parts_[i];
            double w = p.rho_ * std::hypot(p.force_[0], p.force_[1]) * p.volume();
            o.leak.push_back({{std::hypot(f[i][0], f[i][1]) / w, std::abs(t[i]) / w / p.shape_factors_[0]}});
        }
    }
    void velocities(Case &, dton_t &, outcome &) {}
    vec random_control(model const &m, std::uint64_t seed)
    {
        vec v(m.nu, 0.);
        for (auto &l : m.covered)
            for (auto k : l)
                for (int d = 0; d < 2; ++d)
                    v[2 * k + d] = pbt::unit(seed, 2 * k + d);
        return v;
    }

    vec reference(sem_t const *, model const &m, vec const &x, bool data) { return m.sem(x, data); }
    vec reference(dton_t const *, model const &m, vec const &x, bool data) { return m.dton(x, data); }
    char const *prefix(sem_t const *) { return "sem"; }
    char const *prefix(dton_t const *) { return "dton"; }
    sem_t make(sem_t const *, particles_t &p, problem::stokes<2> &st, double dpart) { return make_SEM(p, st, dpart); }
    dton_t make(dton_t const *, particles_t &p, problem::stokes<2> &st, double dpart) { return make_DtoN(p, st, dpart); }
    void linear(sem_t &s) { s.ctx->compute_rhs = false; }
    void linear(dton_t &s)
    {
        s.ctx->compute_rhs = false;
        s.ctx->add_rigid_motion = false;
        s.ctx->compute_singularity = false;
    }
    void no_mean(vec &x, std::size_t from, std::size_t to)
    {
        double s = 0;
        for (auto k = from; k < to; ++k)
            s += x[k] / (to - from);
        for (auto k = from; k < to; ++k)
            x[k] -= s;
    }
    void after(Case &c, sem_t &s, scenario const &q, model const &m, vec const &control, vec const &u, double scale)
    {
        // the reported velocities are the mean velocities of the fluid on the surfaces
        c.petsc(s.get_new_velocities(), "get_new_velocities");
        auto v = m.on_surface(u);
        for (std::size_t i = 0; i < v.size(); ++i)
        {
            pt mean{{0, 0}};
            for (auto &x : v[i])
                for (int d = 0; d < 2; ++d)
                    mean[d] += x[d] / v[i].size();
            for (int d = 0; d < 2; ++d)
                c.close(s.parts_[i].velocity_[d], mean[d], 1e-6 * scale, "reported velocity of particle " + std::to_string(i));
        }
        std::vector<geometry::vector<double, 2>> force(v.size());
        std::vector<double> torque(v.size(), 0.);
        c.petsc(s.get_new_forces_torques(force, torque), "get_new_forces_torques");
        for (std::size_t i = 0; i < v.size(); ++i)
        {
            pt f{{0, 0}};
            double t = 0, vol = M_PI * q.balls[i].R * q.balls[i].R / m.covered[i].size();
            for (auto k : m.covered[i])
            {
                auto r = m.arm(i, m.position(k));
                for (int d = 0; d < 2; ++d)
                    f[d] += vol * control[2 * k + d];
                t += vol * (r[0] * control[2 * k + 1] - r[1] * control[2 * k]);
            }
            double e = 1e-9 * (1 + ref::maxabs(control));
            for (int d = 0; d < 2; ++d)
                c.close(force[i][d], f[d], e, "control force on particle " + std::to_string(i));
            c.close(torque[i], t, e, "control torque on particle " + std::to_string(i));
        }
    }
    void after(Case &, dton_t &, scenario const &, model const &, vec const &, vec const &, double) {}

    // the operator and a whole solve against the reference
    template<class S>
    void whole(Case &c)
    {
        S *const tag = nullptr;
        auto q = gen(c, 4, 7, 1.1);
        auto seed = c.seed();
        bool rest = c.flag(1, 8); // nothing moves
        c.note("rest", rest);
        if (rest)
        {
            q.bc = [](int, double, double) { return 0.; };
            q.force = {};
            for (auto &b : q.balls)
            {
                b.V = b.F = {{0, 0}};
                b.W = {{0}};
            }
        }
        pbt::world w(q.s.np);
        if (!w.active)
            return;
        model m(q);
        if (!m.clear)
            throw pbt::skip_case();
        auto st = make_fluid(q, prefix(tag));
        auto parts = hv::build<2>(q.balls, true);
        S s = make(tag, parts, st, q.dpart);
        c.petsc(s.create_Mat_and_Vec(), "create_Mat_and_Vec");
        PetscInt size;
        VecGetSize(s.sol, &size);
        if (!c.check(size == static_cast<PetscInt>(2 * m.size()), "the control has " + std::to_string(size) + " values for " + std::to_string(m.size()) + " nodes"))
            return;
        c.nontrivial = !rest;
        c.petsc(s.setup_RHS(), "setup_RHS");
        auto b = reference(tag, m, vec(m.nu, 0.), true);
        for (auto &x : b)
            x = -x;
        double scale = 1 + ref::maxabs(b), eps = 1e-6 * scale;
        auto got = get(s, q, s.rhs);
        hv::same(c, got, b, rest ? 0. : eps, "right-hand side");
        // the linear part
        linear(s);
        Vec x, y;
        VecDuplicate(s.sol, &x);
        VecDuplicate(s.sol, &y);
        auto z = random_control(m, seed);
        put(s, q, x, z);
        c.petsc(MatMult(s.A, x, y), "MatMult");
        hv::same(c, get(s, q, y), reference(tag, m, z, false), 1e-6, "linear operator");
        VecDestroy(&x);
        VecDestroy(&y);
        // solve
        c.petsc(s.setup_KSP(), "setup_KSP");
        c.petsc(s.solve(), "solve");
        KSPConvergedReason why;
        PetscReal res;
        KSPGetConvergedReason(s.ksp, &why);
        KSPGetResidualNorm(s.ksp, &res);
        auto control = get(s, q, s.sol);
        auto r = reference(tag, m, control, false);
        for (std::size_t k = 0; k < r.size(); ++k)
            r[k] -= b[k];
        double e = 1e-5 * (norm(b) + 1e-3 * norm(control));
        c.check(why > 0 || why == KSP_DIVERGED_ITS || why == KSP_DIVERGED_BREAKDOWN, "the solver gives up: reason " + std::to_string(why));
        if (why > 0)
            c.label("converged");
        if (!rest)
            c.close(norm(r), res, e, "residual of the control");
        if (why > 0)
            c.check(norm(r) <= q.rtol * norm(b) + e, "the residual " + pbt::num(norm(r)) + " does not meet the tolerance, right-hand side " + pbt::num(norm(b)));
        auto want = m.driven(control, true, std::is_same<S, sem_t>::value);
        auto have = hv::get2(s.problem_.ctx->dm, s.problem_.sol);
        vec u(want.begin(), want.begin() + m.nu), p(want.begin() + m.nu, want.begin() + m.nu + m.np);
        double su = ref::maxabs(u) + 1e-3 * ref::maxabs(control);
        hv::same(c, have[0], u, 1e-5 * su, "velocity");
        no_mean(p, 0, p.size());
        no_mean(have[1], 0, p.size());
        hv::same(c, have[1], p, 1e-5 * (ref::maxabs(p) + su * 10 / std::min(q.s.g.h[0], q.s.g.h[1])), "pressure");
        after(c, s, q, m, control, u, su);
        release_all(s, true);
    }
    PROPERTY("P30.whole", whole<sem_t>);
    PROPERTY("P31.whole", whole<dton_t>);

    // ---- what the user sees on finer grids -------------------------------------------------------
    std::vector<std::vector<pt>> all_pts(std::vector<std::vector<pt>> const &v)
    {
        std::vector<std::vector<pt>> r;
        for (auto const &x : v)
        { // from every process
            int n = static_cast<int>(x.size()) * 2, size;
            MPI_Comm_size(PETSC_COMM_WORLD, &size);
            std::vector<int> count(size), start(size + 1, 0);
            MPI_Allgather(&n, 1, MPI_INT, count.data(), 1, MPI_INT, PETSC_COMM_WORLD);
            for (int k = 0; k < size; ++k)
                start[k + 1] = start[k] + count[k];
            std::vector<pt> all(start[size] / 2);
            MPI_Allgatherv(x.data(), n, MPI_DOUBLE, all.data(), count.data(), start.data(), MPI_DOUBLE, PETSC_COMM_WORLD);
            r.push_back(all);
        }
        return r;
    }
    template<class S>
    outcome move(Case &c, scenario const &q)
    {
        S *const tag = nullptr;
        outcome o;
        auto st = make_fluid(q, prefix(tag));
        auto parts = hv::build<2>(q.balls, true);
        S s = make(tag, parts, st, q.dpart);
        c.petsc(s.create_Mat_and_Vec(), "create_Mat_and_Vec");
        c.petsc(s.setup_RHS(), "setup_RHS");
        c.petsc(s.setup_KSP(), "setup_KSP");
        c.petsc(s.solve(), "solve");
        KSPConvergedReason why;
        KSPGetConvergedReason(s.ksp, &why);
        o.reason = why;
        PetscInt its;
        KSPGetIterationNumber(s.ksp, &its);
        o.its = its;
        o.u = hv::get2(s.problem_.ctx->dm, s.problem_.sol)[0];
        std::vector<std::vector<pt>> r(q.balls.size());
        for (std::size_t i = 0; i < r.size(); ++i)
            for (auto const &e : s.radial_vec_[i])
                r[i].push_back({{e[0], e[1]}});
        o.r = all_pts(r);
        for (std::size_t i = 0; i < r.size(); ++i)
        {
            o.v.push_back({});
            for (auto const &e : o.r[i])
                o.v.back().push_back(hv::interpolate<2>(q.s.g, o.u, {{q.balls[i].c[0] + e[0], q.balls[i].c[1] + e[1]}}));
        }
        velocities(c, s, o);
        for (auto const &p : s.parts_)
            o.speed.push_back({{p.velocity_[0], p.velocity_[1]}});
        release_all(s, true);
        return o;
    }
    // the same scenario moved by whole cells, turned round by half a turn, or with all motions multiplied by a factor
    struct relation
    {
        int kind = 0; // 0 factor, 1 translation, 2 another motion
        double factor = 1;
        int dir = 0, cells = 0;
        std::uint64_t seed = 0;
    };
    relation gen_relation(Case &c, scenario &q)
    {
        relation r;
        r.factor = c.flag() ? -1. : c.real(0.3, 3.);
        r.dir = q.s.g.per[0] ? 0 : 1;
        int shift = c.integer(1, 40);
        if (q.s.g.per[r.dir] && c.flag(2, 3))
        {
            // room for the whole set of particles
            double lo = 1e9, hi = 0, h = 2 * q.s.g.h[r.dir];
            for (auto &b : q.balls)
            {
                lo = std::min(lo, b.c[r.dir] - b.R);
                hi = std::max(hi, b.c[r.dir] + b.R);
            }
            int least = -static_cast<int>(std::floor((lo - 0.01 * h) / h)), most = static_cast<int>(std::floor((q.s.L[r.dir] - hi - 0.01 * h) / h));
            if (most > least)
            {
                int k = least + shift % (most - least + 1);
                if (k)
                {
                    r.kind = 1;
                    r.cells = 2 * k;
                }
            }
        }
        if (!r.kind && c.flag())
        {
            r.kind = 2;
            r.seed = c.seed();
        }
        c.label(r.kind == 2 ? "another motion" : r.kind ? "translation" : "factor");
        c.note("relation", r.kind);
        c.note("factor", r.factor);
        c.note("cells", r.cells);
        return r;
    }
    scenario related(scenario q, relation const &r)
    {
        int j = 0;
        for (auto &b : q.balls)
            if (r.kind == 2)
            {
                for (int d = 0; d < 2; ++d)
                {
                    b.V[d] = pbt::unit(r.seed, j++);
                    b.F[d] = pbt::unit(r.seed, j++);
                }
                b.W[0] = pbt::unit(r.seed, j++) / b.R;
            }
            else if (r.kind)
                b.c[r.dir] += r.cells * q.s.g.h[r.dir];
            else
            {
                for (int d = 0; d < 2; ++d)
                {
                    b.V[d] *= r.factor;
                    b.F[d] *= r.factor;
                }
                b.W[0] *= r.factor;
            }
        return q;
    }
    void compare(Case &c, scenario const &q, relation const &r, outcome const &a, outcome const &b, double tol)
    {
        vec want(a.u.size());
        ref::loop<2>(q.s.g.nu, [&](idx<2> const &i) {
            auto j = i;
            if (r.kind)
                j[r.dir] += r.cells;
            auto k = ref::grid<2>::at(q.s.g.nu, i), l = ref::grid<2>::at(q.s.g.nu, j);
            for (int d = 0; d < 2; ++d)
                want[2 * l + d] = a.u[2 * k + d] * (r.kind ? 1. : r.factor);
        });
        double worst = 0;
        for (std::size_t k = 0; k < want.size(); ++k)
            worst = std::max(worst, std::abs(want[k] - b.u[k]));
        hv::same(c, b.u, want, tol * ref::maxabs(want), r.kind ? "velocity of the translated problem" : "velocity of the multiplied motion");
    }
    void p31_surface(Case &c)
    {
        scenario q = gen_fine(c);
        q.rtol = 1e-3;
        q.its = 100;
        auto rel = gen_relation(c, q);
        pbt::world w(q.s.np);
        if (!w.active)
            return;
        auto o = move<dton_t>(c, q);
        double worst = 0, size = 0, sum = 0, n = 0;
        for (std::size_t i = 0; i < q.balls.size(); ++i)
            for (std::size_t k = 0; k < o.r[i].size(); ++k)
            {
                auto t = hv::rotation(q.balls[i].W, o.r[i][k]);
                for (int d = 0; d < 2; ++d)
                {
                    double want = q.balls[i].V[d] + t[d], e = std::abs(o.v[i][k][d] - want);
                    size = std::max(size, std::abs(want));
                    worst = std::max(worst, e);
                    sum += e * e;
                    ++n;
                }
            }
        c.nontrivial = true;
        c.check(o.reason > 0 || o.reason == KSP_DIVERGED_ITS, "the solver gives up: reason " + std::to_string(o.reason));
        c.check(worst <= 0.3 * size && std::sqrt(sum / n) <= 0.08 * size,
                "the fluid does not follow the prescribed motion: worst " + pbt::num(worst) + ", root mean square " + pbt::num(std::sqrt(sum / n)) + " of " + pbt::num(size));
        if (c.failed())
            return;
        auto q2 = related(q, rel);
        auto o2 = move<dton_t>(c, q2);
        if (rel.kind < 2)
            compare(c, q, rel, o, o2, 1e-6);
        else
        { // the motions are added
            auto q3 = q;
            for (std::size_t i = 0; i < q.balls.size(); ++i)
            {
                for (int d = 0; d < 2; ++d)
                    q3.balls[i].V[d] += q2.balls[i].V[d];
                q3.balls[i].W[0] += q2.balls[i].W[0];
            }
            auto o3 = move<dton_t>(c, q3);
            double top = std::max(ref::maxabs(o.u), ref::maxabs(o2.u)), sum2 = 0;
            for (std::size_t k = 0; k < o.u.size(); ++k)
                sum2 += std::pow(o.u[k] + o2.u[k] - o3.u[k], 2);
            c.check(std::sqrt(sum2 / o.u.size()) <= 0.05 * top, "the flows of two motions do not add up: difference " + pbt::num(std::sqrt(sum2 / o.u.size())) + " of " + pbt::num(top));
        }
    }
    PROPERTY("P31.surface", p31_surface);
    void p30_surface(Case &c)
    {
        scenario q = gen_fine(c);
        q.rtol = 1e-2;
        q.its = 40;
        auto rel = gen_relation(c, q);
        pbt::world w(q.s.np);
        if (!w.active)
            return;
        auto o = move<sem_t>(c, q);
        double power = 0;
        for (std::size_t i = 0; i < q.balls.size(); ++i)
        {
            pt mean;
            double spin, sum = 0;
            auto const &b = q.balls[i];
            model::rigid_part(o.r[i], o.v[i], 1 / (b.R * b.R), mean, spin);
            for (std::size_t k = 0; k < o.r[i].size(); ++k)
            {
                double x = o.v[i][k][0] - mean[0] + spin * o.r[i][k][1], y = o.v[i][k][1] - mean[1] - spin * o.r[i][k][0];
                sum += (x * x + y * y) / o.r[i].size();
            }
            double v = std::hypot(mean[0], mean[1]);
            auto name = "particle " + std::to_string(i) + ": ";
            if (q.balls.size() == 1)
                c.check(std::sqrt(sum) <= 0.25 * v, name + "the fluid is not moved rigidly: root mean square deviation " + pbt::num(std::sqrt(sum)) + " of " + pbt::num(v));
            if (q.balls.size() == 1)
                c.check(o.leak[i][0] < 0.9 && o.leak[i][1] < 0.9, name + "the control exerts a net force or torque, " + pbt::num(o.leak[i][0]) + " and " + pbt::num(o.leak[i][1]) + " of the driving force");
            for (int d = 0; d < 2; ++d)
                c.close(o.speed[i][d], mean[d], 1e-9 * v, name + "reported velocity, component " + std::to_string(d));
            for (int d = 0; d < 2; ++d)
                power += M_PI * b.R * b.R * b.rho * b.F[d] * mean[d];
        }
        c.nontrivial = true;
        c.check(o.reason > 0 || o.reason == KSP_DIVERGED_ITS, "the solver gives up: reason " + std::to_string(o.reason));
        c.check(power > 0, "the forces do not work in the motion they cause: " + pbt::num(power));
        if (c.failed())
            return;
        auto q2 = related(q, rel);
        auto o2 = move<sem_t>(c, q2);
        if (rel.kind < 2)
        {
            compare(c, q, rel, o, o2, 1e-6);
            double top = 0;
            for (auto &v : o2.speed)
                top = std::max(top, std::hypot(v[0], v[1]));
            for (std::size_t i = 0; i < o.speed.size(); ++i)
                for (int d = 0; d < 2; ++d)
                    c.close(o2.speed[i][d], o.speed[i][d] * (rel.kind ? 1. : rel.factor), 1e-6 * top, "reported velocity of the related problem");
        }
        else
        { // reciprocity: each set of forces does the same work in the motion of the other
            double ab = 0, ba = 0, aa = 0, bb = 0;
            for (std::size_t i = 0; i < q.balls.size(); ++i)
                for (int d = 0; d < 2; ++d)
                {
                    double w = M_PI * q.balls[i].R * q.balls[i].R * q.balls[i].rho, fa = w * q.balls[i].F[d], fb = w * q2.balls[i].F[d];
                    ab += fa * o2.speed[i][d];
                    ba += fb * o.speed[i][d];
                    aa += fa * o.speed[i][d];
                    bb += fb * o2.speed[i][d];
                }
            c.check(std::abs(ab - ba) <= 0.35 * std::sqrt(std::max(aa, 0.) * std::max(bb, 0.)), "no reciprocity: " + pbt::num(ab) + " and " + pbt::num(ba) + " of " + pbt::num(std::sqrt(aa * bb)));
        }
    }
    PROPERTY("P30.surface", p30_surface);
} // namespace

PBT_MAIN
