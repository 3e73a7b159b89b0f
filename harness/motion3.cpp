// Particles moving in a three-dimensional fluid: P30 force-driven (smooth extension), P31 prescribed motion (Dirichlet to Neumann)
#include <cafes.hpp>
#include "common.hpp"
#include "stokes_common.hpp"
#include "flow3_common.hpp"
#include "particle_common.hpp"
#include <problem/dton.hpp>
using namespace cafes;
using hv::flow3::on_wall;
using hv::flow3::point_fn;
using pbt::Case;
using ref::form;
using ref::idx;
using ref::vec;

namespace
{
    using pt = hv::pt<3>;
    using ball = hv::ball<3>;
    using mom = hv::mom<3>;
    using particles_t = std::vector<hv::part_t<3>>;

    struct scenario
    {
        hv::setup<3> s;
        bool strain;
        point_fn bc, force;
        std::vector<ball> balls;
        std::array<double, 2> dpart;
        int solver;
        double rtol; // outer
        int its;
    };
    enum
    {
        plain, // matrix free GMRES
        pmm
    };

    void set_options(scenario const &q, std::string const &outer)
    {
        PetscOptionsClear(nullptr);
        hv::set_grid_options(q.s);
        if (q.strain)
            hv::opt("-strain_tensor");
        if (q.solver == pmm)
            hv::opt("-PMM");
        else
        {
            hv::opt("-stokes_ksp_type", "gmres");
            hv::opt("-stokes_pc_type", "none");
        }
        hv::opt("-stokes_ksp_gmres_cgs_refinement_type", "refine_always"); // the residual is the true one
        hv::opt("-stokes_ksp_rtol", "1e-10");
        hv::opt("-stokes_ksp_atol", "1e-14");
        hv::opt("-stokes_ksp_max_it", "4000");
        hv::opt("-stokes_ksp_gmres_restart", "1500");
        hv::opt("-" + outer + "_ksp_type", "gmres");
        hv::opt("-" + outer + "_ksp_rtol", hv::exact(q.rtol));
        hv::opt("-" + outer + "_ksp_atol", "1e-30");
        hv::opt("-" + outer + "_ksp_max_it", std::to_string(q.its));
        hv::opt("-" + outer + "_ksp_gmres_restart", std::to_string(q.its));
    }
    problem::stokes<3> make_fluid(scenario const &q, std::string const &outer)
    {
        set_options(q, outer);
        hv::flow3::cur_bc = q.bc;
        hv::flow3::cur_force = q.force;
        auto bc = hv::flow3::conditions(q.s.g);
        auto rhs = hv::flow3::body(q.force);
        auto st = make_stokes<3>(bc, rhs);
        hv::soil_all(st.ctx->dm);
        return st;
    }

    // ---- reference ----------------------------------------------------------------------------
    struct model
    {
        scenario const &q;
        ref::grid<3> const &g;
        std::size_t nu, np, n;
        vec a;
        std::vector<std::size_t> piv;
        std::vector<hv::samples<3>> surf;
        std::vector<std::vector<std::size_t>> covered; // nodes of each particle
        std::vector<std::vector<pt>> volume;           // quadrature points of each particle
        bool clear = true;

        explicit model(scenario const &q_) : q(q_), g(q_.s.g), nu(g.nodes_u() * 3), np(g.nodes_p()), n(nu + np + 1), a(n * n, 0.), piv(n)
        {
            vec u(nu, 0.), p(np, 0.), yu, yp;
            for (std::size_t j = 0; j + 1 < n; ++j)
            {
                (j < nu ? u[j] : p[j - nu]) = 1;
                apply(u, p, yu, yp);
                (j < nu ? u[j] : p[j - nu]) = 0;
                for (std::size_t i = 0; i < nu; ++i)
                    a[i * n + j] = yu[i];
                for (std::size_t i = 0; i < np; ++i)
                    a[(nu + i) * n + j] = yp[i];
            }
            for (std::size_t i = 0; i < np; ++i) // the pressure has no mean
                a[(nu + i) * n + n - 1] = a[(n - 1) * n + nu + i] = 1;
            factor();
            for (auto &b : q.balls)
            {
                auto part = hv::build<3>(b, true);
                surf.push_back(hv::all_samples<3>(q.s, part, q.dpart));
                clear &= surf.back().count() == static_cast<int>(surf.back().x.size());
                covered.push_back({});
                volume.push_back({});
                ref::loop<3>(g.cu, [&](idx<3> const &i) {
                    int sd = hv::side<3>(b, position(i));
                    clear &= sd != 0;
                    if (sd < 0)
                        covered.back().push_back(ref::grid<3>::at(g.nu, i));
                    for (int d = 0; d < 3; ++d)
                        if (std::abs(position(i)[d] - b.c[d]) > b.R + g.h[d] * 1.01)
                            return;
                    for (int k = 0; k < 64; ++k)
                    {
                        pt z{{(i[0] + 0.25 * (k % 4)) * g.h[0], (i[1] + 0.25 * (k / 4 % 4)) * g.h[1], (i[2] + 0.25 * (k / 16)) * g.h[2]}};
                        int s2 = hv::side<3>(b, z);
                        clear &= s2 != 0;
                        if (s2 < 0)
                            volume.back().push_back(z);
                    }
                });
            }
        }
        pt position(idx<3> const &i) const { return hv::flow3::position(g, i); }
        pt position(std::size_t node) const
        {
            return {{(node % g.nu[0]) * g.h[0], (node / g.nu[0] % g.nu[1]) * g.h[1], (node / g.nu[0] / g.nu[1]) * g.h[2]}};
        }
        void apply(vec const &u, vec const &p, vec &yu, vec &yp) const
        {
            yu.assign(nu, 0.);
            yp.assign(np, 0.);
            ref::apply<3>(q.strain ? form::strain : form::laplacian, g.nu, g.cu, g.h, 3, u, yu);
            ref::div_grad<3>(g, u, p, yu, yp);
            ref::loop<3>(g.nu, [&](idx<3> const &i) {
                auto k = ref::grid<3>::at(g.nu, i) * 3;
                if (on_wall(g, i))
                    for (int d = 0; d < 3; ++d)
                        yu[k + d] = u[k + d];
            });
        }
        void factor()
        {
            for (std::size_t k = 0; k < n; ++k)
            {
                std::size_t m = k;
                for (std::size_t i = k + 1; i < n; ++i)
                    if (std::abs(a[i * n + k]) > std::abs(a[m * n + k]))
                        m = i;
                piv[k] = m;
                if (m != k)
                    std::swap_ranges(a.begin() + k * n, a.begin() + (k + 1) * n, a.begin() + m * n);
                double const d = 1 / a[k * n + k];
                for (std::size_t i = k + 1; i < n; ++i)
                {
                    double f = a[i * n + k] *= d;
                    if (f == 0)
                        continue;
                    double *r = &a[i * n];
                    double const *t = &a[k * n];
                    for (std::size_t j = k + 1; j < n; ++j)
                        r[j] -= f * t[j];
                }
            }
        }
        // the flow of a load (boundary values in the rows of the walls)
        vec solve(vec const &load) const
        {
            vec x(n, 0.);
            std::copy(load.begin(), load.end(), x.begin());
            for (std::size_t k = 0; k < n; ++k)
                std::swap(x[k], x[piv[k]]);
            for (std::size_t i = 0; i < n; ++i)
                for (std::size_t j = 0; j < i; ++j)
                    x[i] -= a[i * n + j] * x[j];
            for (std::size_t i = n; i-- > 0;)
            {
                for (std::size_t j = i + 1; j < n; ++j)
                    x[i] -= a[i * n + j] * x[j];
                x[i] /= a[i * n + i];
            }
            return x; // velocity, then pressure
        }
        vec walls(vec load, bool data) const
        {
            ref::loop<3>(g.nu, [&](idx<3> const &i) {
                auto k = ref::grid<3>::at(g.nu, i) * 3;
                if (on_wall(g, i))
                    for (int d = 0; d < 3; ++d)
                        load[k + d] = data ? q.bc(d, position(i)) : 0.;
            });
            return load;
        }
        // the flow driven by a control (values on the nodes of the velocity), with the data of the problem or without
        vec driven(vec const &control, bool data, bool forces) const
        {
            vec f = control, load(nu, 0.);
            if (forces)
                for (std::size_t i = 0; i < q.balls.size(); ++i)
                    for (auto k : covered[i])
                        for (int d = 0; d < 3; ++d)
                            f[3 * k + d] += q.balls[i].rho * q.balls[i].F[d];
            if (data && q.force)
                ref::loop<3>(g.nu, [&](idx<3> const &i) {
                    auto k = ref::grid<3>::at(g.nu, i) * 3;
                    for (int d = 0; d < 3; ++d)
                        f[k + d] += q.force(d, position(i));
                });
            ref::apply<3>(form::mass, g.nu, g.cu, g.h, 3, f, load);
            return solve(walls(load, data));
        }
        std::vector<std::vector<pt>> on_surface(vec const &u) const
        {
            std::vector<std::vector<pt>> v(surf.size());
            for (std::size_t i = 0; i < surf.size(); ++i)
                for (auto &x : surf[i].x)
                    v[i].push_back(hv::interpolate<3>(g, u, x));
            return v;
        }
        pt arm(std::size_t i, pt const &x) const { return {{x[0] - q.balls[i].c[0], x[1] - q.balls[i].c[1], x[2] - q.balls[i].c[2]}}; }
        static void rigid_part(std::vector<pt> const &r, std::vector<pt> const &v, double inertia, pt &mean, mom &spin)
        {
            mean = {{0, 0, 0}};
            spin = {{0, 0, 0}};
            for (std::size_t k = 0; k < r.size(); ++k)
            {
                auto t = hv::moment(r[k], v[k]);
                for (int d = 0; d < 3; ++d)
                {
                    mean[d] += v[k][d] / r.size();
                    spin[d] += inertia * t[d] / r.size();
                }
            }
        }
        vec spread(std::vector<std::vector<pt>> const &v) const
        {
            vec load(nu, 0.);
            for (std::size_t i = 0; i < v.size(); ++i)
                for (std::size_t k = 0; k < v[i].size(); ++k)
                    hv::weights<3>(g, surf[i].x[k], [&](std::size_t node, double w) {
                        for (int d = 0; d < 3; ++d)
                            load[3 * node + d] += w * v[i][k][d] * 4 * M_PI * q.balls[i].R * q.balls[i].R / v[i].size();
                    });
            return solve(walls(load, false));
        }
        // what the outer method makes of a control: values on the covered nodes
        vec dton(vec const &control, bool data) const
        {
            auto v = on_surface(driven(control, data, false));
            if (data)
                for (std::size_t i = 0; i < v.size(); ++i)
                    for (std::size_t k = 0; k < v[i].size(); ++k)
                    {
                        auto w = hv::rotation(q.balls[i].W, arm(i, surf[i].x[k]));
                        for (int d = 0; d < 3; ++d)
                            v[i][k][d] -= q.balls[i].V[d] + w[d];
                    }
            auto w = spread(v);
            vec y(nu, 0.);
            for (auto &list : covered)
                for (auto k : list)
                    for (int d = 0; d < 3; ++d)
                        y[3 * k + d] = w[3 * k + d];
            return y;
        }
        vec sem(vec const &control, bool data) const
        {
            auto v = on_surface(driven(control, data, data));
            pt mean;
            mom spin;
            for (std::size_t i = 0; i < v.size(); ++i)
            {
                std::vector<pt> r;
                for (auto &x : surf[i].x)
                    r.push_back(arm(i, x));
                rigid_part(r, v[i], 1.5 / (q.balls[i].R * q.balls[i].R), mean, spin);
                for (std::size_t k = 0; k < r.size(); ++k)
                {
                    auto t = hv::rotation(spin, r[k]);
                    for (int d = 0; d < 3; ++d)
                        v[i][k][d] -= mean[d] + t[d];
                }
            }
            auto w = spread(v);
            vec y(nu, 0.);
            for (std::size_t i = 0; i < covered.size(); ++i)
            {
                std::vector<pt> r, z;
                for (auto &x : volume[i])
                {
                    r.push_back(arm(i, x));
                    z.push_back(hv::interpolate<3>(g, w, x));
                }
                rigid_part(r, z, 2.5 / (q.balls[i].R * q.balls[i].R), mean, spin);
                for (auto k : covered[i])
                {
                    auto t = hv::rotation(spin, arm(i, position(k)));
                    for (int d = 0; d < 3; ++d)
                        y[3 * k + d] = w[3 * k + d] - mean[d] - t[d];
                }
            }
            return y;
        }
        std::size_t size() const
        {
            std::size_t r = 0;
            for (auto &l : covered)
                r += l.size();
            return r;
        }
    };

    // ---- transfers ----------------------------------------------------------------------------
    // the nodes of the entries of a control vector on this process
    template<class S>
    std::vector<std::size_t> local_nodes(S &sys, scenario const &q)
    {
        std::vector<std::size_t> v;
        auto box = fem::get_DM_bounds<3>(sys.problem_.ctx->dm, 0);
        for (auto &p : sys.parts_)
        {
            auto pbox = p.bounding_box(q.s.g.h);
            if (geometry::intersect(box, pbox))
                for (auto const &n : find_fluid_points_insides(p, geometry::overlap_box(box, pbox), q.s.g.h))
                    v.push_back(ref::grid<3>::at(q.s.g.nu, {{n[0], n[1], n[2]}}));
        }
        return v;
    }
    template<class S>
    vec get(S &sys, scenario const &q, Vec x)
    {
        vec a(q.s.g.nodes_u() * 3, 0.), r(a.size());
        auto nodes = local_nodes(sys, q);
        double const *p;
        VecGetArrayRead(x, &p);
        for (std::size_t k = 0; k < nodes.size(); ++k)
            for (int d = 0; d < 3; ++d)
                a[3 * nodes[k] + d] = p[3 * k + d];
        VecRestoreArrayRead(x, &p);
        MPI_Allreduce(a.data(), r.data(), static_cast<int>(a.size()), MPI_DOUBLE, MPI_SUM, PETSC_COMM_WORLD);
        return r;
    }
    template<class S>
    void put(S &sys, scenario const &q, Vec x, vec const &a)
    {
        auto nodes = local_nodes(sys, q);
        double *p;
        VecGetArray(x, &p);
        for (std::size_t k = 0; k < nodes.size(); ++k)
            for (int d = 0; d < 3; ++d)
                p[3 * k + d] = a[3 * nodes[k] + d];
        VecRestoreArray(x, &p);
    }
    template<class S>
    void release(S &sys, bool ksp)
    {
        if (ksp)
            KSPDestroy(&sys.ksp);
        VecDestroy(&sys.sol);
        VecDestroy(&sys.rhs);
        MatDestroy(&sys.A);
        delete sys.ctx;
        hv::destroy(sys.problem_, true);
    }
    using sem_t = problem::SEM<hv::shape_t<3>, 3, problem::stokes<3>>;
    using dton_t = problem::DtoN<hv::shape_t<3>, 3, problem::stokes<3>>;
    void release_all(sem_t &s, bool ksp) { release(s, ksp); }
    void release_all(dton_t &s, bool ksp)
    {
        VecDestroy(&s.sol_tmp);
        VecDestroy(&s.sol_rhs);
        VecDestroy(&s.sol_g);
        release(s, ksp);
    }
    double norm(vec const &v)
    {
        double s = 0;
        for (auto x : v)
            s += x * x;
        return std::sqrt(s);
    }

    // ---- generators ----------------------------------------------------------------------------
    double apart(ball const &a, ball const &b)
    {
        double s = 0;
        for (int d = 0; d < 3; ++d)
            s += (a.c[d] - b.c[d]) * (a.c[d] - b.c[d]);
        return std::sqrt(s);
    }
    scenario gen(Case &c)
    {
        scenario q;
        q.s = hv::flow3::gen_grid(c, 3, c.flag(1, 3) ? 4 : 3);
        if (c.flag(1, 3))
        { // a longer channel
            int d = c.integer(0, 2), n = c.integer(5, 6);
            q.s.L[d] *= (n - 1.) / (q.s.g.n[d] - 1);
            q.s.g.n[d] = n;
            q.s.g.finish();
            c.label("channel");
        }
        double hmax = 0, lmin = 1e9;
        for (int d = 0; d < 3; ++d)
        {
            hmax = std::max(hmax, q.s.g.h[d]);
            lmin = std::min(lmin, q.s.L[d]);
        }
        q.strain = c.flag();
        c.note("strain", q.strain);
        q.bc = hv::flow3::gen_bc(c, q.s);
        q.force = hv::flow3::gen_force(c);
        q.balls = hv::gen_balls<3>(c, q.s, 0, 3, true);
        for (auto &b : q.balls)
            if (b.R < 1.1 * hmax)
            { // a particle covers at least a node
                b.R = std::min(1.1 * hmax, 0.49 * lmin);
                for (int d = 0; d < 3; ++d)
                    b.c[d] = std::min(std::max(b.c[d], b.R * 1.0001), q.s.L[d] - b.R * 1.0001);
            }
        for (std::size_t i = 1; i < q.balls.size();)
        { // enlarged particles may overlap: keep those that do not
            bool ok = true;
            for (std::size_t j = 0; j < i; ++j)
            {
                double d2 = 0;
                for (int d = 0; d < 3; ++d)
                    d2 += std::pow(q.balls[i].c[d] - q.balls[j].c[d], 2);
                ok &= std::sqrt(d2) >= q.balls[i].R + q.balls[j].R;
            }
            if (ok)
                ++i;
            else
                q.balls.erase(q.balls.begin() + i);
        }
        q.dpart = hv::dpart_of<3>::gen(c);
        q.solver = c.flag() && hv::flow3::hierarchy_ok(q.s.g) ? pmm : plain;
        q.rtol = std::pow(10., -c.integer(2, 5));
        q.its = c.integer(1, 5);
        c.note("particles", q.balls.size());
        c.note("solver", q.solver);
        c.note("outer rtol", q.rtol);
        c.note("outer its", q.its);
        c.label(q.solver == pmm ? "PMM" : "matrix free");
        return q;
    }
    vec random_control(model const &m, std::uint64_t seed)
    {
        vec v(m.nu, 0.);
        for (auto &l : m.covered)
            for (auto k : l)
                for (int d = 0; d < 3; ++d)
                    v[3 * k + d] = pbt::unit(seed, 3 * k + d);
        return v;
    }

    vec reference(sem_t const *, model const &m, vec const &x, bool data) { return m.sem(x, data); }
    vec reference(dton_t const *, model const &m, vec const &x, bool data) { return m.dton(x, data); }
    char const *prefix(sem_t const *) { return "sem"; }
    char const *prefix(dton_t const *) { return "dton"; }
    sem_t make(sem_t const *, particles_t &p, problem::stokes<3> &st, std::array<double, 2> const &dpart) { return make_SEM(p, st, dpart); }
    dton_t make(dton_t const *, particles_t &p, problem::stokes<3> &st, std::array<double, 2> const &dpart) { return make_DtoN(p, st, dpart); }
    void linear(sem_t &s) { s.ctx->compute_rhs = false; }
    void linear(dton_t &s)
    {
        s.ctx->compute_rhs = false;
        s.ctx->add_rigid_motion = false;
        s.ctx->compute_singularity = false;
    }
    void no_mean(vec &x, std::size_t from, std::size_t to)
    {
        double s = 0;
        for (auto k = from; k < to; ++k)
            s += x[k] / (to - from);
        for (auto k = from; k < to; ++k)
            x[k] -= s;
    }
    void after(Case &c, sem_t &s, scenario const &q, model const &m, vec const &control, vec const &u, double scale)
    {
        // the reported velocities are the mean velocities of the fluid on the surfaces
        c.petsc(s.get_new_velocities(), "get_new_velocities");
        auto v = m.on_surface(u);
        for (std::size_t i = 0; i < v.size(); ++i)
        {
            pt mean{{0, 0, 0}};
            for (auto &x : v[i])
                for (int d = 0; d < 3; ++d)
                    mean[d] += x[d] / v[i].size();
            for (int d = 0; d < 3; ++d)
                c.close(s.parts_[i].velocity_[d], mean[d], 1e-6 * scale, "reported velocity of particle " + std::to_string(i));
        }
        std::vector<geometry::vector<double, 3>> force(v.size()), torque(v.size());
        c.petsc(s.get_new_forces_torques(force, torque), "get_new_forces_torques");
        for (std::size_t i = 0; i < v.size(); ++i)
        {
            pt f{{0, 0, 0}};
            mom t{{0, 0, 0}};
            double vol = 4. / 3 * M_PI * std::pow(q.balls[i].R, 3) / m.covered[i].size();
            for (auto k : m.covered[i])
            {
                auto e = hv::moment(m.arm(i, m.position(k)), pt{{control[3 * k], control[3 * k + 1], control[3 * k + 2]}});
                for (int d = 0; d < 3; ++d)
                {
                    f[d] += vol * control[3 * k + d];
                    t[d] += vol * e[d];
                }
            }
            double e = 1e-9 * (1 + ref::maxabs(control));
            for (int d = 0; d < 3; ++d)
            {
                c.close(force[i][d], f[d], e, "control force on particle " + std::to_string(i));
                c.close(torque[i][d], t[d], e, "control torque on particle " + std::to_string(i));
            }
        }
    }
    void after(Case &, dton_t &, scenario const &, model const &, vec const &, vec const &, double) {}

    // the operator and a whole solve against the reference
    template<class S>
    void whole(Case &c)
    {
        S *const tag = nullptr;
        auto q = gen(c);
        auto seed = c.seed();
        bool rest = c.flag(1, 8); // nothing moves
        c.note("rest", rest);
        if (rest)
        {
            q.bc = [](int, pt const &) { return 0.; };
            q.force = {};
            for (auto &b : q.balls)
            {
                b.V = b.F = b.W = {{0, 0, 0}};
            }
        }
        pbt::world w(q.s.np);
        if (!w.active)
            return;
        model m(q);
        if (!m.clear)
            throw pbt::skip_case();
        auto st = make_fluid(q, prefix(tag));
        auto parts = hv::build<3>(q.balls, true);
        S s = make(tag, parts, st, q.dpart);
        c.petsc(s.create_Mat_and_Vec(), "create_Mat_and_Vec");
        PetscInt size;
        VecGetSize(s.sol, &size);
        if (!c.check(size == static_cast<PetscInt>(3 * m.size()), "the control has " + std::to_string(size) + " values for " + std::to_string(m.size()) + " nodes"))
            return;
        c.nontrivial = !rest;
        c.petsc(s.setup_RHS(), "setup_RHS");
        auto b = reference(tag, m, vec(m.nu, 0.), true);
        for (auto &x : b)
            x = -x;
        double scale = 1 + ref::maxabs(b), eps = 1e-6 * scale;
        auto got = get(s, q, s.rhs);
        hv::same(c, got, b, rest ? 0. : eps, "right-hand side");
        // the linear part
        linear(s);
        Vec x, y;
        VecDuplicate(s.sol, &x);
        VecDuplicate(s.sol, &y);
        auto z = random_control(m, seed);
        put(s, q, x, z);
        c.petsc(MatMult(s.A, x, y), "MatMult");
        hv::same(c, get(s, q, y), reference(tag, m, z, false), 1e-6, "linear operator");
        VecDestroy(&x);
        VecDestroy(&y);
        // solve
        c.petsc(s.setup_KSP(), "setup_KSP");
        c.petsc(s.solve(), "solve");
        KSPConvergedReason why;
        PetscReal res;
        KSPGetConvergedReason(s.ksp, &why);
        KSPGetResidualNorm(s.ksp, &res);
        auto control = get(s, q, s.sol);
        auto r = reference(tag, m, control, false);
        for (std::size_t k = 0; k < r.size(); ++k)
            r[k] -= b[k];
        double e = 1e-5 * (norm(b) + 1e-3 * norm(control));
        c.check(why > 0 || why == KSP_DIVERGED_ITS || why == KSP_DIVERGED_BREAKDOWN, "the solver gives up: reason " + std::to_string(why));
        if (why > 0)
            c.label("converged");
        if (!rest)
            c.close(norm(r), res, e, "residual of the control");
        if (why > 0)
            c.check(norm(r) <= q.rtol * norm(b) + e, "the residual " + pbt::num(norm(r)) + " does not meet the tolerance, right-hand side " + pbt::num(norm(b)));
        auto want = m.driven(control, true, std::is_same<S, sem_t>::value);
        auto have = hv::get2(s.problem_.ctx->dm, s.problem_.sol);
        vec u(want.begin(), want.begin() + m.nu), p(want.begin() + m.nu, want.begin() + m.nu + m.np);
        double su = ref::maxabs(u) + 1e-3 * ref::maxabs(control);
        hv::same(c, have[0], u, 1e-5 * su, "velocity");
        no_mean(p, 0, p.size());
        no_mean(have[1], 0, p.size());
        hv::same(c, have[1], p, 1e-5 * (ref::maxabs(p) + su * 10 / std::min(q.s.g.h[0], std::min(q.s.g.h[1], q.s.g.h[2]))), "pressure");
        after(c, s, q, m, control, u, su);
        release_all(s, true);
    }
    PROPERTY("P30.whole3", whole<sem_t>);
    PROPERTY("P31.whole3", whole<dton_t>);

} // namespace
PBT_MAIN
