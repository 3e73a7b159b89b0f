// Particles on a grid: generators, a 2D/3D problem and references (needs <cafes.hpp>, common.hpp, stokes_common.hpp before).
#pragma once
#include <problem/particle_operator.hpp>
#include <problem/sem.hpp>
#include <particle/forces_torques.hpp>

namespace hv
{
    template<std::size_t D>
    using pt = std::array<double, D>;
    template<std::size_t D>
    using mom = std::array<double, D == 2 ? 1 : 3>;

    template<std::size_t D>
    struct shape_of;
    template<>
    struct shape_of<2>
    {
        using type = cafes::geometry::circle<double>;
        static type make(pt<2> const &x, double r, double angle, std::uint64_t)
        {
            cafes::geometry::position<double, 2> p{x[0], x[1]};
            return angle == 0 ? type(p, r) : type(p, r, cafes::geometry::quaternion(angle));
        }
    };
    template<>
    struct shape_of<3>
    {
        using type = cafes::geometry::sphere<double>;
        static type make(pt<3> const &x, double r, double angle, std::uint64_t s)
        {
            cafes::geometry::position<double, 3> p{x[0], x[1], x[2]};
            if (angle == 0)
                return type(p, r);
            double a[3], n = 0;
            for (int d = 0; d < 3; ++d)
            {
                a[d] = pbt::unit(s, d) + 1e-3;
                n += a[d] * a[d];
            }
            n = std::sqrt(n);
            return type(p, r, cafes::geometry::quaternion(angle, cafes::geometry::position<double, 3>{a[0] / n, a[1] / n, a[2] / n}));
        }
    };
    template<std::size_t D>
    using shape_t = typename shape_of<D>::type;
    template<std::size_t D>
    using part_t = cafes::particle<shape_t<D>>;

    template<std::size_t D>
    struct ball
    {
        pt<D> c;
        double R, angle, rho;
        std::uint64_t axis;
        pt<D> V, F;
        mom<D> W;
    };

    inline cafes::physics::velocity<2> vel(pt<2> const &v) { return {v[0], v[1]}; }
    inline cafes::physics::velocity<3> vel(pt<3> const &v) { return {v[0], v[1], v[2]}; }
    inline cafes::physics::force<2> frc(pt<2> const &v) { return {v[0], v[1]}; }
    inline cafes::physics::force<3> frc(pt<3> const &v) { return {v[0], v[1], v[2]}; }
    inline double ang(mom<2> const &w) { return w[0]; }
    inline cafes::physics::velocity<3> ang(mom<3> const &w) { return {w[0], w[1], w[2]}; }
    inline double angv(mom<2> const &w) { return w[0]; }
    inline cafes::geometry::vector<double, 3> angv(mom<3> const &w) { return {w[0], w[1], w[2]}; }

    template<std::size_t D>
    part_t<D> build(ball<D> const &b, bool force)
    {
        auto s = shape_of<D>::make(b.c, b.R, b.angle, b.axis);
        if (!force)
            return cafes::make_particle_with_velocity(s, vel(b.V), ang(b.W));
        auto p = cafes::make_particle_with_force(s, frc(b.F), b.rho);
        p.velocity_ = vel(b.V);
        p.angular_velocity_ = angv(b.W);
        return p;
    }
    template<std::size_t D>
    std::vector<part_t<D>> build(std::vector<ball<D>> const &b, bool force = true)
    {
        std::vector<part_t<D>> v;
        for (auto const &x : b)
            v.push_back(build<D>(x, force));
        return v;
    }

    inline pt<2> rotation(mom<2> const &w, pt<2> const &r) { return {{-w[0] * r[1], w[0] * r[0]}}; }
    inline pt<3> rotation(mom<3> const &w, pt<3> const &r)
    {
        return {{w[1] * r[2] - w[2] * r[1], w[2] * r[0] - w[0] * r[2], w[0] * r[1] - w[1] * r[0]}};
    }
    inline mom<2> moment(pt<2> const &r, pt<2> const &f) { return {{r[0] * f[1] - r[1] * f[0]}}; }
    inline mom<3> moment(pt<3> const &r, pt<3> const &f)
    {
        return {{r[1] * f[2] - r[2] * f[1], r[2] * f[0] - r[0] * f[2], r[0] * f[1] - r[1] * f[0]}};
    }
    template<class V>
    mom<2> to_mom(V const &w, std::integral_constant<std::size_t, 2>)
    {
        return {{w}};
    }
    template<class V>
    mom<3> to_mom(V const &w, std::integral_constant<std::size_t, 3>)
    {
        return {{w[0], w[1], w[2]}};
    }

    template<std::size_t D, class P>
    pt<D> arr(P const &p)
    {
        pt<D> a;
        for (std::size_t d = 0; d < D; ++d)
            a[d] = p[d];
        return a;
    }

    // where: 0 anywhere wholly inside, 1 centre inside (may cross the boundary), 2 also outside
    template<std::size_t D>
    std::vector<ball<D>> gen_balls(Case &c, setup<D> const &s, int where, int max = 3, bool disjoint = false)
    {
        double lmin = s.L[0], hmax = 0;
        for (std::size_t d = 0; d < D; ++d)
        {
            lmin = std::min(lmin, s.L[d]);
            hmax = std::max(hmax, s.g.h[d]);
        }
        bool many = max > 2 && c.flag(1, 10);
        int n = many ? c.integer(max + 1, 3 * max) : c.integer(1, max);
        std::vector<ball<D>> v;
        for (int k = 0; k < n; ++k)
        {
            ball<D> b;
            b.R = lmin * c.real_near(0.2, 0.02, where ? 0.6 : 0.45);
            bool out = where == 2 && c.flag(1, 4);
            bool lattice = c.flag(1, 6); // centre on a node
            for (std::size_t d = 0; d < D; ++d)
            {
                double lo = where == 0 ? b.R * 1.0001 : 0., hi = where == 0 ? s.L[d] - b.R * 1.0001 : s.L[d];
                if (out)
                {
                    lo = -1.2 * b.R;
                    hi = s.L[d] + 1.2 * b.R;
                }
                b.c[d] = c.real_near(0.5 * (lo + hi), lo, hi);
                if (lattice)
                    b.c[d] = std::min(std::max(std::round(b.c[d] / s.g.h[d]) * s.g.h[d], lo), hi);
            }
            b.angle = c.flag(1, 3) ? c.real(-3.1, 3.1) : 0.;
            b.axis = c.seed();
            b.rho = c.real_near(1., -1., 3.);
            auto q = c.seed();
            for (std::size_t d = 0; d < D; ++d)
            {
                b.V[d] = pbt::unit(q, d);
                b.F[d] = 3 * pbt::unit(q, 10 + d);
            }
            for (std::size_t d = 0; d < b.W.size(); ++d)
                b.W[d] = 2 * pbt::unit(q, 20 + d);
            if (disjoint)
            {
                bool ok = true;
                for (auto const &o : v)
                {
                    double d2 = 0;
                    for (std::size_t d = 0; d < D; ++d)
                        d2 += (o.c[d] - b.c[d]) * (o.c[d] - b.c[d]);
                    ok &= std::sqrt(d2) > o.R + b.R;
                }
                if (!ok)
                    continue;
            }
            c.note("c" + std::to_string(k), b.c);
            c.note("R" + std::to_string(k), b.R);
            v.push_back(b);
        }
        if (v.size() > 1)
            c.label(v.size() > static_cast<std::size_t>(max) ? "many particles" : "several particles");
        return v;
    }
    template<std::size_t D>
    bool wholly_inside(setup<D> const &s, ball<D> const &b)
    {
        for (std::size_t d = 0; d < D; ++d)
            if (b.c[d] - b.R < 0 || b.c[d] + b.R > s.L[d])
                return false;
        return true;
    }
    // < 0 inside, > 0 outside, 0 undecided (rounding)
    template<std::size_t D>
    int side(ball<D> const &b, pt<D> const &x)
    {
        double s = 0;
        for (std::size_t d = 0; d < D; ++d)
            s += (x[d] - b.c[d]) * (x[d] - b.c[d]);
        s = s / (b.R * b.R) - 1;
        return s < -1e-9 ? -1 : s > 1e-9 ? 1 : 0;
    }

    template<std::size_t D>
    struct dpart_of;
    template<>
    struct dpart_of<2>
    {
        using type = double;
        static type gen(Case &c)
        {
            double k = c.real_near(0.5, 0.05, 1.2);
            c.note("dpart", k);
            return k;
        }
    };
    template<>
    struct dpart_of<3>
    {
        using type = std::array<double, 2>;
        static type gen(Case &c)
        {
            type k{{c.real_near(0.5, 0.25, 0.8), c.real_near(0.5, 0.25, 0.8)}};
            c.note("dpart", k);
            return k;
        }
    };

    // all samples of a particle and whether they belong to the domain: 1 yes, 0 no, -1 undecided (rounding)
    template<std::size_t D>
    struct samples
    {
        std::vector<pt<D>> x;
        std::vector<int> in;
        int count() const { return static_cast<int>(std::count(in.begin(), in.end(), 1)); }
        bool clear() const { return std::count(in.begin(), in.end(), -1) == 0; }
    };
    template<std::size_t D>
    samples<D> all_samples(setup<D> const &s, part_t<D> p, typename dpart_of<D>::type const &dpart)
    {
        samples<D> r;
        for (auto const &q : p.surface(dpart))
        {
            auto x = arr<D>(q);
            int in = 1;
            for (std::size_t d = 0; d < D; ++d)
            {
                double hi = s.L[d], eps = 1e-9 * hi;
                if (x[d] < -eps || x[d] > hi + eps)
                {
                    in = 0;
                    break;
                }
                if (x[d] < eps || x[d] > hi - eps)
                    in = -1;
            }
            r.x.push_back(x);
            r.in.push_back(in);
        }
        return r;
    }

    // multilinear weights at a point of the domain: f(natural node, weight)
    template<std::size_t D, class F>
    void weights(ref::grid<D> const &g, pt<D> const &x, F &&f)
    {
        idx<D> cell;
        pt<D> t;
        for (std::size_t d = 0; d < D; ++d)
        {
            double y = x[d] / g.h[d];
            cell[d] = std::min(std::max(static_cast<int>(std::floor(y)), 0), g.cu[d] - 1);
            t[d] = y - cell[d];
        }
        for (int k = 0; k < ref::corners<D>(); ++k)
        {
            auto a = ref::corner<D>(k), n = a;
            for (std::size_t d = 0; d < D; ++d)
                n[d] += cell[d];
            f(ref::grid<D>::at(g.nu, n), ref::phi<D>(a, t));
        }
    }
    template<std::size_t D>
    pt<D> interpolate(ref::grid<D> const &g, vec const &u, pt<D> const &x)
    {
        pt<D> v;
        v.fill(0.);
        weights<D>(g, x, [&](std::size_t n, double w) {
            for (std::size_t d = 0; d < D; ++d)
                v[d] += w * u[n * D + d];
        });
        return v;
    }

    // smooth, reproducible vector function of a point
    template<std::size_t D>
    pt<D> wave(std::uint64_t seed, pt<D> const &x, double L)
    {
        pt<D> v;
        for (std::size_t d = 0; d < D; ++d)
        {
            double a = 3 * pbt::unit(seed, 100 + d);
            for (std::size_t e = 0; e < D; ++e)
                a += 9 * pbt::unit(seed, 10 * d + e) * x[e] / L;
            v[d] = std::sin(a) + 0.3 * pbt::unit(seed, 50 + d);
        }
        return v;
    }

    // ---- problems ------------------------------------------------------------------------------
    inline double boundary_value(int comp, double x, double y) { return 0.7 * comp - 0.4 + x * (1 - 0.5 * y) + 0.2 * y; }
    inline double force_value(int comp, double x, double y) { return 1.3 - comp + 0.8 * x - x * y; }
    template<int C>
    void bc_fn(const PetscReal *x, PetscScalar *u)
    {
        *u = boundary_value(C, x[0], x[1]);
    }
    template<int C>
    void rhs_fn(const PetscReal *x, PetscScalar *u)
    {
        *u = force_value(C, x[0], x[1]);
    }

    template<std::size_t D>
    struct holder;
    template<>
    struct holder<2>
    {
        using type = cafes::problem::stokes<2>;
        std::unique_ptr<type> p;
        holder(setup<2> const &s, bool data)
        {
            set_grid_options(s);
            auto none = std::array<cafes::condition_fn, 2>{{nullptr, nullptr}};
            std::array<cafes::condition_fn, 2> z{{fzero, fzero}}, f{{bc_fn<0>, bc_fn<1>}};
            auto w = data ? f : z;
            auto a = s.g.per[0] ? none : w, b = s.g.per[1] ? none : w;
            auto bc = cafes::make_bc<2>({a, a, b, b});
            auto rhs = data ? cafes::make_rhs<2>({{rhs_fn<0>, rhs_fn<1>}}) : cafes::make_rhs<2>({{nullptr, nullptr}});
            p.reset(new type(bc, rhs));
        }
        ~holder() { destroy(*p); }
    };
    // what the particle operators use of a problem, in three dimensions (the Stokes class itself is 2D only)
    struct problem3
    {
        using Ctx = cafes::problem::context<3>;
        static constexpr std::size_t Dim = 3;
        Ctx *ctx;
        Vec sol, rhs;
        cafes::fem::rhs_conditions<3> rhsc_;
        PetscErrorCode setup_RHS()
        {
            PetscErrorCode ierr = 0;
            if (rhsc_.has_condition())
                ierr = cafes::fem::set_rhs<3, 1>(ctx->dm, rhs, rhsc_, ctx->h);
            if (ierr)
                return ierr;
            auto r = cafes::petsc::petsc_vec<3>(ctx->dm, rhs, 0);
            return SetDirichletOnRHS(r, ctx->bc_, ctx->h);
        }
        PetscErrorCode solve() { return 0; }
    };
    template<>
    struct holder<3>
    {
        using type = problem3;
        std::unique_ptr<type> p;
        holder(setup<3> const &s, bool data)
        {
            p.reset(new type);
            DM dm;
            createMesh(dm, s.g);
            DMCreateGlobalVector(dm, &p->sol);
            VecDuplicate(p->sol, &p->rhs);
            VecSet(p->rhs, 0.);
            p->ctx = new problem3::Ctx{dm, s.g.h, cafes::fem::laplacian_mult};
            std::array<cafes::condition_fn, 3> none{{nullptr, nullptr, nullptr}}, z{{fzero, fzero, fzero}}, f{{bc_fn<0>, bc_fn<1>, bc_fn<2>}};
            auto w = data ? f : z;
            auto a = s.g.per[0] ? none : w, b = s.g.per[1] ? none : w, e = s.g.per[2] ? none : w;
            p->ctx->set_dirichlet_bc(cafes::make_bc<3>({a, a, b, b, e, e}));
            p->rhsc_ = data ? cafes::make_rhs<3>({{rhs_fn<0>, rhs_fn<1>, rhs_fn<2>}}) : cafes::make_rhs<3>({{nullptr, nullptr, nullptr}});
        }
        ~holder()
        {
            VecDestroy(&p->sol);
            VecDestroy(&p->rhs);
            DMDestroy(&p->ctx->dm);
            delete p->ctx;
        }
    };

    // a problem, particles and what set_materials makes of them
    template<std::size_t D>
    struct scene
    {
        using problem_type = typename holder<D>::type;
        using context_type = cafes::problem::particle_context<D, shape_t<D>, problem_type>;
        using vector_type = cafes::geometry::vector<double, D>;
        holder<D> h;
        std::vector<part_t<D>> parts;
        std::vector<std::vector<std::pair<cafes::geometry::position<int, D>, cafes::geometry::position<double, D>>>> surf;
        std::vector<std::vector<vector_type>> radial;
        std::vector<int> nb, num;
        std::size_t nodes;
        Vec tmp;
        std::unique_ptr<context_type> ctx;
        scene(setup<D> const &s, std::vector<ball<D>> const &balls, typename dpart_of<D>::type const &dpart, int scale, bool data)
            : h(s, data), parts(build(balls))
        {
            auto box = cafes::fem::get_DM_bounds<D>(dm(), 0);
            nodes = cafes::set_materials(parts, surf, radial, nb, num, box, s.g.h, dpart, static_cast<std::size_t>(scale));
            VecDuplicate(h.p->sol, &tmp);
            ctx.reset(new context_type{*h.p, parts, surf, radial, nb, num, static_cast<std::size_t>(scale), false, false, false, tmp});
        }
        ~scene() { VecDestroy(&tmp); }
        DM dm() { return h.p->ctx->dm; }
        std::vector<std::vector<vector_type>> blank() const
        {
            std::vector<std::vector<vector_type>> g(parts.size());
            for (std::size_t i = 0; i < parts.size(); ++i)
                g[i].resize(surf[i].size());
            return g;
        }
        pt<D> position(std::size_t i, std::size_t k) const
        {
            pt<D> x;
            for (std::size_t d = 0; d < D; ++d)
                x[d] = parts[i].center_[d] + radial[i][k][d];
            return x;
        }
    };
} // namespace hv
