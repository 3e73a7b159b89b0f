// Near-contact (lubrication) fields: P33 frame, P34 fields, P35 truncation, P36 loads and P39 forces
#include <cafes.hpp>
#include "common.hpp"
#include "stokes_common.hpp"
#include "particle_common.hpp"
#include <particle/singularity/add_singularity.hpp>
using namespace cafes;
namespace sg = cafes::singularity;
using pbt::Case;
using ref::idx;
using ref::vec;

namespace
{
    template<std::size_t D>
    using sing_t = sg::singularity<hv::shape_t<D>, D>;
    template<std::size_t D>
    using pos_t = geometry::position<double, D>;
    template<std::size_t D>
    constexpr std::size_t axis_of()
    {
        return D == 2 ? 0 : 2; // index of the axis along the line of centres
    }
    pos_t<2> pos(hv::pt<2> const &x) { return {x[0], x[1]}; }
    pos_t<3> pos(hv::pt<3> const &x) { return {x[0], x[1], x[2]}; }

    template<std::size_t D>
    double dot(hv::pt<D> const &a, hv::pt<D> const &b)
    {
        double s = 0;
        for (std::size_t d = 0; d < D; ++d)
            s += a[d] * b[d];
        return s;
    }
    template<std::size_t D>
    double norm(hv::pt<D> const &a)
    {
        return std::sqrt(dot<D>(a, a));
    }
    template<std::size_t D>
    hv::pt<D> minus(hv::pt<D> const &a, hv::pt<D> const &b)
    {
        hv::pt<D> r;
        for (std::size_t d = 0; d < D; ++d)
            r[d] = a[d] - b[d];
        return r;
    }

    // a direction: coordinate axes, diagonals and general ones
    template<std::size_t D>
    hv::pt<D> direction(Case &c)
    {
        hv::pt<D> n;
        int kind = c.integer(0, 2);
        if (kind == 0)
        {
            n.fill(0.);
            n[c.integer(0, D - 1)] = c.flag() ? -1. : 1.;
        }
        else if (kind == 1)
        {
            for (auto &v : n)
                v = c.integer(0, 2) - 1;
            if (norm<D>(n) == 0)
                n[0] = 1;
        }
        else
        {
            auto s = c.seed();
            for (std::size_t d = 0; d < D; ++d)
                n[d] = pbt::unit(s, d);
            if (norm<D>(n) < 1e-2)
                n[0] = 1;
        }
        double l = norm<D>(n);
        for (auto &v : n)
            v /= l;
        return n;
    }

    // two particles with a gap, and the relative velocity along a direction, across it, or general
    template<std::size_t D>
    struct pair
    {
        hv::ball<D> a, b;
        hv::pt<D> n; // from a to b
        double gap;
    };
    template<std::size_t D>
    void set_motion(Case &c, pair<D> &p)
    {
        auto s = c.seed();
        int kind = c.integer(0, 4);
        for (std::size_t d = 0; d < D; ++d)
        {
            p.a.V[d] = pbt::unit(s, d);
            p.b.V[d] = pbt::unit(s, 10 + d);
        }
        double u = c.real_near(1., -2., 2.);
        if (kind == 1) // along the line of centres, up to rounding
            for (std::size_t d = 0; d < D; ++d)
                p.b.V[d] = p.a.V[d] + u * p.n[d];
        if (kind == 2) // nearly so
            for (std::size_t d = 0; d < D; ++d)
                p.b.V[d] = p.a.V[d] + u * p.n[d] + 1e-5 * pbt::unit(s, 20 + d);
        if (kind == 3) // the same velocity
            p.b.V = p.a.V;
        if (kind == 4) // only one moves, along the line of centres
        {
            p.a.V.fill(0.);
            for (std::size_t d = 0; d < D; ++d)
                p.b.V[d] = u * p.n[d];
        }
        c.label(std::array<char const *, 5>{{"general motion", "axial motion", "nearly axial motion", "same motion", "axial motion of one"}}[kind]);
    }
    template<std::size_t D>
    pair<D> gen_pair(Case &c, bool close)
    {
        pair<D> p;
        double scale = c.flag(1, 3) ? c.real(0.2, 6.) : 1.;
        p.a.R = scale * c.real_near(0.2, 0.05, 0.5);
        p.b.R = scale * c.real_near(0.2, 0.05, 0.5);
        p.n = direction<D>(c);
        double K = .5 * (1 / p.a.R + 1 / p.b.R), m = std::min(p.a.R, p.b.R);
        if (close)
            p.gap = std::min(c.real_near(0.02, 1e-3, 0.03) * K * m * m, .9);
        else
            p.gap = c.flag() ? c.real(0.001, 0.2) * m : c.real(0.001, 2.5);
        for (std::size_t d = 0; d < D; ++d)
        {
            p.a.c[d] = c.real_near(0.5, -1., 3.);
            p.b.c[d] = p.a.c[d] + (p.a.R + p.b.R + p.gap) * p.n[d];
        }
        p.a.angle = p.b.angle = 0;
        p.a.axis = p.b.axis = 0;
        p.a.rho = p.b.rho = 1;
        for (auto *q : {&p.a, &p.b})
        {
            q->W.fill(0.);
            q->F.fill(0.);
        }
        set_motion<D>(c, p);
        p.gap = norm<D>(minus<D>(p.b.c, p.a.c)) - p.a.R - p.b.R; // as representable
        c.note("c0", p.a.c);
        c.note("c1", p.b.c);
        c.note("R", std::array<double, 2>{{p.a.R, p.b.R}});
        c.note("gap", p.gap);
        c.note("V", std::array<hv::pt<D>, 2>{{p.a.V, p.b.V}}[0]);
        c.note("V1", p.b.V);
        return p;
    }
    template<std::size_t D>
    double cutoff(pair<D> const &p, double h)
    {
        double K = .5 * (1 / p.a.R + 1 / p.b.R), m = std::min(p.a.R, p.b.R);
        return std::max(std::sqrt(2.) * h, std::min(m, 4 * std::sqrt(p.gap / K)));
    }
    template<std::size_t D>
    sing_t<D> make(pair<D> const &p, double h)
    {
        return sing_t<D>(hv::build<D>(p.a, false), hv::build<D>(p.b, false), h);
    }
    // a point of the gap region in the frame: lateral distance below f*cutoff, between the surfaces
    template<std::size_t D>
    hv::pt<D> gap_point(std::uint64_t s, std::uint64_t k, pair<D> const &p, double cut, double f, bool on_axis)
    {
        hv::pt<D> x;
        double r2 = 0;
        for (std::size_t d = 0; d < D; ++d)
            if (d != axis_of<D>())
            {
                x[d] = on_axis ? 0. : f * cut * pbt::unit(s, 10 * k + d) / std::sqrt(D - 1.);
                r2 += x[d] * x[d];
            }
        double lo = -p.a.R + std::sqrt(p.a.R * p.a.R - r2), hi = p.gap + p.b.R - std::sqrt(p.b.R * p.b.R - r2);
        x[axis_of<D>()] = lo + (hi - lo) * (.5 + .5 * pbt::unit(s, 10 * k + 7));
        return x;
    }

    // ---- P33 ------------------------------------------------------------------------------------
    template<std::size_t D>
    void p33(Case &c)
    {
        auto p = gen_pair<D>(c, c.flag());
        double h = std::min(p.a.R, p.b.R) * c.real_near(0.1, 0.01, 0.7);
        auto seed = c.seed();
        if (std::abs(p.gap - 1) < 1e-6)
            throw pbt::skip_case();
        auto s = make<D>(p, h);
        double size = norm<D>(p.a.c) + p.a.R + p.b.R + p.gap;
        c.close(s.contact_length_, p.gap, 1e-13 * size, "gap");
        c.check(s.is_singularity_ == (p.gap < 1), "active: " + std::to_string(s.is_singularity_) + " for a gap of " + pbt::num(p.gap));
        double cut = cutoff<D>(p, h);
        c.close(s.cutoff_dist_, cut, 1e-6 * cut, "cut-off distance");
        if (!s.is_singularity_)
        {
            c.label("inactive");
            return;
        }
        c.nontrivial = true;
        std::array<hv::pt<D>, D> e;
        for (std::size_t k = 0; k < D; ++k)
            e[k] = hv::arr<D>(s.base_[k]);
        for (std::size_t k = 0; k < D; ++k)
            for (std::size_t l = 0; l <= k; ++l)
                c.close(dot<D>(e[k], e[l]), k == l, 1e-7, "frame: axis " + std::to_string(k) + " . axis " + std::to_string(l));
        auto v = minus<D>(p.b.V, p.a.V);
        double vn = dot<D>(v, p.n), speed = norm<D>(v), tol = 1e-7 * (speed + 1e-3);
        hv::pt<D> tang, sum;
        sum.fill(0.);
        for (std::size_t d = 0; d < D; ++d)
        {
            c.close(e[axis_of<D>()][d], p.n[d], 1e-9, "axis along the line of centres");
            c.close(s.origin_[d], p.a.c[d] + p.a.R * p.n[d], 1e-9 * size, "origin");
            tang[d] = v[d] - vn * p.n[d];
            for (std::size_t k = 0; k < D; ++k)
                sum[d] += s.vector_space_[k] * e[k][d];
        }
        c.close(s.UN_, vn, tol, "normal relative velocity");
        c.close(std::abs(s.UT_), norm<D>(tang), tol, "tangential relative velocity");
        for (std::size_t d = 0; d < D; ++d)
            c.close(sum[d], v[d], tol, "relative velocity in the frame");
        // coordinates
        auto ca = hv::arr<D>(s.get_pos_in_part_ref(pos(p.a.c))), cb = hv::arr<D>(s.get_pos_in_part_ref(pos(p.b.c)));
        for (std::size_t d = 0; d < D; ++d)
        {
            c.close(ca[d], d == axis_of<D>() ? -p.a.R : 0., 1e-8 * size, "first centre in the frame");
            c.close(cb[d], d == axis_of<D>() ? p.gap + p.b.R : 0., 1e-8 * size, "second centre in the frame");
        }
        for (int k = 0; k < 4; ++k)
        {
            hv::pt<D> x;
            for (std::size_t d = 0; d < D; ++d)
                x[d] = p.a.c[d] + size * pbt::unit(seed, 10 * k + d);
            auto y = hv::arr<D>(s.get_pos_in_part_ref(pos(x))), z = hv::arr<D>(s.get_pos_from_part_ref(pos(y)));
            auto o = hv::arr<D>(s.origin_);
            c.close(norm<D>(y), norm<D>(minus<D>(x, o)), 1e-7 * size, "distance to the origin in the frame");
            for (std::size_t d = 0; d < D; ++d)
                c.close(z[d], x[d], 1e-7 * size, "to the frame and back");
        }
        // the box holds the cells of the region of the field
        if (cut < std::min(p.a.R, p.b.R))
        {
            std::array<double, D> hh;
            for (std::size_t d = 0; d < D; ++d)
                hh[d] = h * (1 + .5 * pbt::unit(seed, 500 + d));
            auto box = s.get_box(hh);
            for (int k = 0; k < 30; ++k)
            {
                auto x = hv::arr<D>(s.get_pos_from_part_ref(pos(gap_point<D>(seed, 100 + k, p, cut, k % 3 ? .99 : .5, false))));
                for (std::size_t d = 0; d < D; ++d)
                {
                    double i = std::floor(x[d] / hh[d]);
                    c.check(box.bottom_left[d] <= i && i < box.upper_right[d],
                            "the cell " + pbt::num(i) + " of a point of the gap is not in the box " + std::to_string(box.bottom_left[d]) + ".." +
                                std::to_string(box.upper_right[d]) + ", direction " + std::to_string(d));
                }
            }
        }
        else
            c.label("cut-off by the radius");
    }
    PROPERTY("P33.2d", p33<2>);
    PROPERTY("P33.3d", p33<3>);

    // ---- P34 ------------------------------------------------------------------------------------
    struct params
    {
        double H, M, a, U, l, eps, cut;
    };
    params gen_params(Case &c)
    {
        params q;
        double ra = c.real_near(0.2, 0.05, 0.5), rb = c.real_near(0.2, 0.05, 0.5);
        q.H = 1 / ra;
        q.M = 1 / rb;
        q.a = c.real_near(0.02, 0.002, 0.06);
        q.U = c.real_near(1., -2., 2.);
        q.cut = std::min(4 * std::sqrt(q.a / (.5 * (q.H + q.M))), std::min(ra, rb));
        if (c.flag(2, 3))
            q.l = q.eps = .5 * q.cut * q.cut; // as used by the library
        else
        {
            c.label("plateau");
            double f = c.real(0.05, 0.5); // width of the transition
            q.eps = f * q.cut * q.cut;
            q.l = (1 - f) * q.cut * q.cut;
        }
        c.note("H,M,a,U,l,eps", std::array<double, 6>{{q.H, q.M, q.a, q.U, q.l, q.eps}});
        return q;
    }
    using f2 = PetscScalar (*)(sg::position2d, PetscReal, PetscReal, PetscReal, double, PetscReal, PetscReal, PetscReal *);
    using f3 = PetscScalar (*)(sg::position3d, PetscReal, PetscReal, PetscReal, double, PetscReal, PetscReal, PetscReal *);
    template<std::size_t D>
    struct fields;
    template<>
    struct fields<2>
    {
        char const *name;
        std::array<f2, 2> u;
        std::array<std::array<f2, 2>, 2> g;
        f2 p, div;
    };
    template<>
    struct fields<3>
    {
        char const *name;
        std::array<f3, 3> u;
        std::array<std::array<f3, 3>, 3> g;
        f3 p, div;
    };
    // component 0 is along the axis of the gap in 2D, component 2 in 3D
    fields<2> const normal2{"normal", {{sg::ux_sing_normalMvt2D, sg::uz_sing_normalMvt2D}},
                            {{{{sg::dxux_sing_normalMvt2D, sg::dzux_sing_normalMvt2D}}, {{sg::dxuz_sing_normalMvt2D, sg::dzuz_sing_normalMvt2D}}}},
                            sg::p_sing_withT_normalMvt2D, sg::DIVCART_normalMvt2D};
    fields<2> const tang2{"tangential", {{sg::ux_sing_tangMvt2D, sg::uz_sing_tangMvt2D}},
                          {{{{sg::dxux_sing_tangMvt2D, sg::dzux_sing_tangMvt2D}}, {{sg::dxuz_sing_tangMvt2D, sg::dzuz_sing_tangMvt2D}}}},
                          sg::p_sing_withT_tangMvt2D, sg::DIVCART_tangMvt2D};
    fields<3> const normal3{"normal", {{sg::ux_sing_normalMvt3D, sg::uy_sing_normalMvt3D, sg::uz_sing_normalMvt3D}},
                            {{{{sg::dxux_sing_normalMvt3D, sg::dyux_sing_normalMvt3D, sg::dzux_sing_normalMvt3D}},
                              {{sg::dxuy_sing_normalMvt3D, sg::dyuy_sing_normalMvt3D, sg::dzuy_sing_normalMvt3D}},
                              {{sg::dxuz_sing_normalMvt3D, sg::dyuz_sing_normalMvt3D, sg::dzuz_sing_normalMvt3D}}}},
                            sg::p_sing_withT_normalMvt3D, sg::DIVCART_normalMvt3D};
    fields<3> const tang3{"tangential", {{sg::ux_sing_tangMvt3D, sg::uy_sing_tangMvt3D, sg::uz_sing_tangMvt3D}},
                          {{{{sg::dxux_sing_tangMvt3D, sg::dyux_sing_tangMvt3D, sg::dzux_sing_tangMvt3D}},
                            {{sg::dxuy_sing_tangMvt3D, sg::dyuy_sing_tangMvt3D, sg::dzuy_sing_tangMvt3D}},
                            {{sg::dxuz_sing_tangMvt3D, sg::dyuz_sing_tangMvt3D, sg::dzuz_sing_tangMvt3D}}}},
                          sg::p_sing_withT_tangMvt3D, sg::DIVCART_tangMvt3D};

    template<std::size_t D, class F>
    double eval(F f, params const &q, hv::pt<D> const &x)
    {
        return f(pos(x), q.H, q.M, q.a, q.U, q.l, q.eps, nullptr);
    }
    // fourth order central difference and an estimate of its error
    template<class F>
    std::array<double, 2> derivative(F &&f, double h)
    {
        auto d = [&](double e) { return (8 * (f(e) - f(-e)) - (f(2 * e) - f(-2 * e))) / (12 * e); };
        double a = d(h), b = d(h / 2), c = d(h / 4);
        return {{c, std::max(std::abs(a - b), std::abs(b - c))}};
    }

    template<std::size_t D>
    void check_fields(Case &c, fields<D> const &f, params const &q, std::uint64_t seed)
    {
        auto const ax = axis_of<D>();
        double G = std::abs(q.U) / q.a; // size of the velocity gradient
        for (int k = 0; k < 4; ++k)
        {
            auto name = std::string(f.name) + " ";
            bool on_axis = k == 3;
            double rad = 0;
            hv::pt<D> x;
            double r = q.cut * (.02 + .96 * std::abs(pbt::unit(seed, 10 * k)));
            if (on_axis)
                r = 0;
            if (D == 2)
                x[1] = pbt::unit(seed, 10 * k + 1) > 0 ? r : -r;
            else
            {
                double t = M_PI * pbt::unit(seed, 10 * k + 1);
                if (k == 2)
                    t = M_PI / 2 * std::round(t / (M_PI / 2)); // on a coordinate plane
                x[0] = r * std::cos(t);
                x[1] = r * std::sin(t);
                if (k == 2 && std::abs(x[0]) < 1e-10)
                    x[0] = 0;
                if (k == 2 && std::abs(x[1]) < 1e-10)
                    x[1] = 0;
            }
            for (std::size_t d = 0; d < D; ++d)
                if (d != ax)
                    rad += x[d] * x[d];
            double lo = -q.H * rad / 2, hi = q.a + q.M * rad / 2;
            x[ax] = lo + (hi - lo) * (.5 + .5 * pbt::unit(seed, 10 * k + 2));
            // stated gradient
            double div = 0, size = G;
            for (std::size_t i = 0; i < D; ++i)
                for (std::size_t j = 0; j < D; ++j)
                {
                    double got = eval<D>(f.g[i][j], q, x);
                    double h = (j == ax ? .01 * q.a : .01 * std::min(q.cut, std::sqrt(q.a / (q.H + q.M))));
                    if (j != ax && std::sqrt(rad) > 0)
                        h = std::min(h, .2 * std::sqrt(rad));
                    if (j != ax)
                        h = std::min(h, .02 * q.eps / q.cut); // much less than the width of the transition
                    auto want = derivative([&](double e) { auto y = x; y[j] += e; return eval<D>(f.u[i], q, y); }, h);
                    size = std::max(size, std::abs(got));
                    c.close(got, want[0], 1e-5 * (G + std::abs(want[0])) + 4 * want[1],
                            name + "gradient [" + std::to_string(i) + "][" + std::to_string(j) + "] at " + pbt::str(x));
                    if (i == j)
                        div += got;
                }
            c.close(div, 0., 1e-9 * size, name + "divergence at " + pbt::str(x));
            c.close(eval<D>(f.div, q, x), 0., 1e-9 * size, name + "stated divergence at " + pbt::str(x));
            // pressure balances the viscous stress across the gap where the truncation is constant
            if (q.l > q.eps && rad < .8 * (q.l - q.eps) && !on_axis)
            {
                c.label("pressure balance");
                for (std::size_t i = 0; i < D; ++i)
                    if (i != ax)
                    {
                        double h = .02 * std::min(std::sqrt(rad), std::sqrt(q.a / (q.H + q.M)));
                        auto dp = derivative([&](double e) { auto y = x; y[i] += e; return eval<D>(f.p, q, y); }, h);
                        auto dd = derivative([&](double e) { auto y = x; y[ax] += e; return eval<D>(f.g[i][ax], q, y); }, .02 * q.a);
                        double lap = dd[0], S = std::abs(q.U) / (q.a * q.a);
                        c.close(dp[0], lap, 1e-5 * (S + std::abs(lap)) + 4 * (dp[1] + dd[1]), name + "pressure gradient " + std::to_string(i) + " at " + pbt::str(x));
                    }
            }
            // walls
            if (on_axis)
                for (int top = 0; top < 2; ++top)
                {
                    auto y = x;
                    y[ax] = top ? q.a : 0.;
                    std::size_t moving = std::string(f.name) == "normal" ? ax : (D == 2 ? 1 : 0);
                    for (std::size_t i = 0; i < D; ++i)
                        c.close(eval<D>(f.u[i], q, y), i == moving ? (top ? .5 : -.5) * q.U : 0., 1e-9 * std::abs(q.U),
                                name + "velocity " + std::to_string(i) + (top ? " on the second wall" : " on the first wall"));
                }
            // nothing outside the cut-off
            auto y = x;
            double f1 = (1.0001 + std::abs(pbt::unit(seed, 10 * k + 3))) * q.cut;
            if (D == 2)
                y[1] = x[1] < 0 ? -f1 : f1;
            else
            {
                y[0] = f1 * std::cos(7. * k);
                y[1] = f1 * std::sin(7. * k);
            }
            for (std::size_t i = 0; i < D; ++i)
            {
                c.close(eval<D>(f.u[i], q, y), 0., 0., name + "velocity beyond the cut-off");
                for (std::size_t j = 0; j < D; ++j)
                    c.close(eval<D>(f.g[i][j], q, y), 0., 0., name + "gradient beyond the cut-off");
            }
            c.close(eval<D>(f.p, q, y), 0., 0., name + "pressure beyond the cut-off");
        }
    }
    void cylindrical(Case &c, params const &q, std::uint64_t seed)
    {
        double r = q.cut * (.05 + .9 * std::abs(pbt::unit(seed, 900))), t = M_PI * pbt::unit(seed, 901), co = std::cos(t), si = std::sin(t);
        double lo = -q.H * r * r / 2, hi = q.a + q.M * r * r / 2;
        hv::pt<3> x{{r * co, r * si, lo + (hi - lo) * (.5 + .5 * pbt::unit(seed, 902))}};
        double G = std::abs(q.U) / q.a;
        auto e = [&](f3 f) { return eval<3>(f, q, x); };
        auto comp = [&](f3 ux, f3 uy, f3 ur, f3 ut, std::string const &n) {
            c.close(e(ur), e(ux) * co + e(uy) * si, 1e-11 * std::abs(q.U) * 100, n + "radial velocity");
            if (ut)
                c.close(e(ut), -e(ux) * si + e(uy) * co, 1e-11 * std::abs(q.U) * 100, n + "azimuthal velocity");
        };
        comp(sg::ux_sing_normalMvt3D, sg::uy_sing_normalMvt3D, sg::ur_sing_normalMvt3D, nullptr, "normal ");
        comp(sg::ux_sing_tangMvt3D, sg::uy_sing_tangMvt3D, sg::ur_sing_tangMvt3D, sg::ut_sing_tangMvt3D, "tangential ");
        double h = std::min(.01 * std::min(r, std::sqrt(q.a / (q.H + q.M))), .02 * q.eps / q.cut);
        auto d = [&](f3 df, f3 f, int dir, std::string const &n) {
            auto want = derivative(
                [&](double s) {
                    auto y = x;
                    double rr = dir == 0 ? r + s : r, tt = dir == 1 ? t + s : t;
                    y[0] = rr * std::cos(tt);
                    y[1] = rr * std::sin(tt);
                    y[2] += dir == 2 ? s : 0.;
                    return eval<3>(f, q, y);
                },
                dir == 0 ? h : dir == 1 ? 1e-2 : .01 * q.a);
            c.close(e(df), want[0], 1e-5 * (G * (dir == 1 ? r : 1.) + std::abs(want[0])) + 4 * want[1], n);
        };
        d(sg::drur_sing_normalMvt3D, sg::ur_sing_normalMvt3D, 0, "normal dr ur");
        d(sg::dzur_sing_normalMvt3D, sg::ur_sing_normalMvt3D, 2, "normal dz ur");
        d(sg::druz_sing_normalMvt3D, sg::uz_sing_normalMvt3D, 0, "normal dr uz");
        d(sg::drur_sing_tangMvt3D, sg::ur_sing_tangMvt3D, 0, "tangential dr ur");
        d(sg::dtur_sing_tangMvt3D, sg::ur_sing_tangMvt3D, 1, "tangential dt ur");
        d(sg::dzur_sing_tangMvt3D, sg::ur_sing_tangMvt3D, 2, "tangential dz ur");
        d(sg::drut_sing_tangMvt3D, sg::ut_sing_tangMvt3D, 0, "tangential dr ut");
        d(sg::dtut_sing_tangMvt3D, sg::ut_sing_tangMvt3D, 1, "tangential dt ut");
        d(sg::dzut_sing_tangMvt3D, sg::ut_sing_tangMvt3D, 2, "tangential dz ut");
        d(sg::druz_sing_tangMvt3D, sg::uz_sing_tangMvt3D, 0, "tangential dr uz");
        d(sg::dtuz_sing_tangMvt3D, sg::uz_sing_tangMvt3D, 1, "tangential dt uz");
        c.close(e(sg::DIVCYLIND_normalMvt3D), 0., 1e-8 * G, "normal divergence (cylindrical)");
        c.close(e(sg::DIVCYLIND_tangMvt3D), 0., 1e-8 * G / std::max(1e-3, std::abs(q.U)) * 2, "tangential divergence (cylindrical)");
    }
    void p34_2d(Case &c)
    {
        auto q = gen_params(c);
        auto seed = c.seed();
        c.nontrivial = q.U != 0;
        check_fields<2>(c, normal2, q, seed);
        check_fields<2>(c, tang2, q, seed + 1);
    }
    void p34_3d(Case &c)
    {
        auto q = gen_params(c);
        auto seed = c.seed();
        c.nontrivial = q.U != 0;
        check_fields<3>(c, normal3, q, seed);
        check_fields<3>(c, tang3, q, seed + 1);
        cylindrical(c, q, seed);
    }
    PROPERTY("P34.2d", p34_2d);
    PROPERTY("P34.3d", p34_3d);

    // the fields of a pair of particles, in global coordinates
    template<std::size_t D>
    hv::pt<D> rotate(std::array<hv::pt<D>, D> const &Q, hv::pt<D> const &x)
    {
        hv::pt<D> y;
        for (std::size_t d = 0; d < D; ++d)
            y[d] = dot<D>(Q[d], x);
        return y;
    }
    template<std::size_t D>
    std::array<hv::pt<D>, D> random_rotation(std::uint64_t s)
    {
        std::array<hv::pt<D>, D> Q;
        for (std::size_t k = 0; k < D; ++k)
        {
            for (std::size_t d = 0; d < D; ++d)
                Q[k][d] = pbt::unit(s, 10 * k + d) + (k == d);
            for (std::size_t l = 0; l < k; ++l)
            {
                double a = dot<D>(Q[k], Q[l]);
                for (std::size_t d = 0; d < D; ++d)
                    Q[k][d] -= a * Q[l][d];
            }
            double n = norm<D>(Q[k]);
            if (n < 1e-2)
                throw pbt::skip_case();
            for (auto &v : Q[k])
                v /= n;
        }
        return Q;
    }
    template<std::size_t D>
    void p34_pair(Case &c)
    {
        auto p = gen_pair<D>(c, true);
        double h = std::min(p.a.R, p.b.R) * c.real_near(0.1, 0.01, 0.45);
        auto seed = c.seed();
        auto Q = random_rotation<D>(c.seed());
        auto s = make<D>(p, h);
        if (!s.is_singularity_)
            throw pbt::skip_case();
        auto rot = p;
        for (auto m : {&hv::ball<D>::c, &hv::ball<D>::V})
        {
            rot.a.*m = rotate<D>(Q, p.a.*m);
            rot.b.*m = rotate<D>(Q, p.b.*m);
        }
        auto sr = make<D>(rot, h);
        auto v = minus<D>(p.b.V, p.a.V);
        double vn = dot<D>(v, p.n), U = std::abs(vn) + 1e-9 * norm<D>(v), cut = cutoff<D>(p, h);
        double G = U / p.gap;
        c.nontrivial = vn != 0;
        // the gap opens at the normal velocity of b relative to a
        hv::pt<D> xa, xb;
        for (std::size_t d = 0; d < D; ++d)
        {
            xa[d] = p.a.c[d] + p.a.R * p.n[d];
            xb[d] = p.b.c[d] - p.b.R * p.n[d];
        }
        auto ua = hv::arr<D>(s.get_u_sing(pos(xa))), ub = hv::arr<D>(s.get_u_sing(pos(xb)));
        double size = norm<D>(p.a.c) + p.a.R + p.b.R;
        double tol = 1e-7 * U + 1e-12 * G * size;
        for (std::size_t d = 0; d < D; ++d)
        {
            c.close(ub[d] - ua[d], vn * p.n[d], tol, "opening velocity, component " + std::to_string(d));
            c.close(ub[d] + ua[d], 0., tol, "sum of the wall velocities, component " + std::to_string(d));
        }
        for (int k = 0; k < 4; ++k)
        {
            auto y = gap_point<D>(seed, k, p, cut, .98, k == 3);
            auto P = s.get_pos_from_part_ref(pos(y));
            auto x = hv::arr<D>(P);
            auto u = hv::arr<D>(s.get_u_sing(P)), ur = hv::arr<D>(s.get_u_sing_ref(s.get_pos_in_part_ref(P)));
            auto g = s.get_grad_u_sing(P);
            double pr = s.get_p_sing(P);
            double big = G + std::abs(pr);
            for (auto const &row : g)
                for (auto e : row)
                    big = std::max(big, std::abs(e));
            double tu = 1e-9 * (U + norm<D>(u)) + 1e-11 * big * size, tg = 1e-8 * big * (1 + size / p.gap);
            for (std::size_t d = 0; d < D; ++d)
            {
                double w = 0;
                for (std::size_t e = 0; e < D; ++e)
                    w += ur[e] * s.base_[e][d];
                c.close(u[d], w, tu, "velocity against the frame's");
            }
            auto yr = s.get_pos_in_part_ref(P);
            c.close(pr, s.get_p_sing_ref(yr), 1e-9 * big, "pressure against the frame's");
            // gradient of the global velocity
            double e0 = .01 * std::min(p.gap, k == 3 ? p.gap : norm<D>(y));
            if (k != 3)
                for (std::size_t i = 0; i < D; ++i)
                    for (std::size_t j = 0; j < D; ++j)
                    {
                        auto want = derivative([&](double e) { auto z = x; z[j] += e; return s.get_u_sing(pos(z))[i]; }, e0);
                        c.close(g[i][j], want[0], 1e-5 * big + 4 * want[1], "gradient of the velocity [" + std::to_string(i) + "][" + std::to_string(j) + "]");
                    }
            // rotating everything rotates the field
            auto xr = rotate<D>(Q, x);
            auto U1 = hv::arr<D>(sr.get_u_sing(pos(xr)));
            auto U0 = rotate<D>(Q, u);
            for (std::size_t d = 0; d < D; ++d)
                c.close(U1[d], U0[d], 1e-7 * (U + norm<D>(u)) + 1e-10 * big * size, "rotated velocity, component " + std::to_string(d));
            auto Pr = pos(xr);
            c.close(sr.get_p_sing(Pr), pr, 1e-7 * big * (1 + 1e-4 * size / p.gap), "pressure of the rotated pair");
            if (k != 3)
            {
                auto gr = sr.get_grad_u_sing(pos(xr));
                for (std::size_t i = 0; i < D; ++i)
                    for (std::size_t j = 0; j < D; ++j)
                    {
                        double w = 0;
                        for (std::size_t m = 0; m < D; ++m)
                            for (std::size_t n = 0; n < D; ++n)
                                w += Q[i][m] * Q[j][n] * g[m][n];
                        c.close(gr[i][j], w, tg, "rotated gradient");
                    }
            }
        }
    }
    PROPERTY("P34.pair2", p34_pair<2>);
    PROPERTY("P34.pair3", p34_pair<3>);

    // ---- P35 ------------------------------------------------------------------------------------
    void p35(Case &c)
    {
        double l, eps;
        double scale = c.flag() ? c.real(1e-3, 1e-1) : c.flag() ? c.real(0.1, 1.) : c.real(1., 20.);
        if (c.flag(1, 3))
        {
            l = eps = scale;
            c.label("no plateau");
        }
        else
        {
            l = scale;
            eps = scale * c.real_near(0.5, 0.02, 1.);
        }
        auto seed = c.seed();
        c.note("l", l);
        c.note("eps", eps);
        c.nontrivial = true;
        using F = PetscScalar (*)(PetscReal, PetscReal, PetscReal);
        std::array<F, 5> f{{sg::chiTrunc, sg::dchiTrunc, sg::d2chiTrunc, sg::d3chiTrunc, sg::d4chiTrunc}};
        using A = PetscScalar (*)(PetscReal);
        std::array<A, 5> al{{sg::alphaTrunc, sg::dalphaTrunc, sg::d2alphaTrunc, sg::d3alphaTrunc, sg::d4alphaTrunc}};
        auto at = [&](int k, double s) { return f[k](std::sqrt(s), l, eps); }; // as a function of the squared distance
        auto e = [&](int k) { return std::pow(eps, -k); };
        double lo = l - eps, hi = l + eps;
        // inside, outside
        for (int i = 0; i < 4; ++i)
        {
            double a = .5 + .5 * pbt::unit(seed, i), s = a * lo * (1 - 1e-9), t = hi * (1 + 1e-9) + 3 * a * hi, sign = pbt::unit(seed, 50 + i) < 0 ? -1 : 1;
            if (lo > 1e-12 * l)
            {
                c.close(f[0](sign * std::sqrt(s), l, eps), 1., 0., "plateau at " + pbt::num(std::sqrt(s)));
                for (int k = 1; k < 5; ++k)
                    c.close(f[k](sign * std::sqrt(s), l, eps), 0., 0., "derivative " + std::to_string(k) + " on the plateau at " + pbt::num(std::sqrt(s)));
            }
            for (int k = 0; k < 5; ++k)
                c.close(f[k](sign * std::sqrt(t), l, eps), 0., 0., "derivative " + std::to_string(k) + " outside at " + pbt::num(std::sqrt(t)));
        }
        c.close(f[0](0., l, eps), 1., 1e-12, "value at the centre");
        // transition
        double last = 2, step = 2 * eps / 50;
        for (int i = 0; i <= 50; ++i)
        {
            double s = std::max(0., lo) + (i + .01) * step * .999;
            double v = at(0, s);
            c.check(v <= last + 1e-14 && v >= -1e-14 && v <= 1 + 1e-14, "not decreasing from one to zero: " + pbt::num(v) + " after " + pbt::num(last));
            last = v;
        }
        for (int i = 0; i < 6; ++i)
        {
            double u = .98 * pbt::unit(seed, 100 + i), s = l + eps * u, x = std::sqrt(s);
            for (int k = 0; k < 5; ++k)
            {
                c.close(f[k](-x, l, eps), f[k](x, l, eps), 0., "not even: derivative " + std::to_string(k));
                if (k)
                {
                    double h = std::min(.005, .2 * (1 - std::abs(u)));
                    auto w = derivative([&](double d) { return at(k - 1, s + d * eps); }, h);
                    c.close(at(k, s), w[0] / eps, e(k) * 1e-6 + 4 * w[1] / eps, "derivative " + std::to_string(k) + " of the cut-off at " + pbt::num(x));
                    auto b = derivative([&](double d) { return al[k - 1](u + d); }, h);
                    c.close(al[k](u), b[0], 1e-6 + 4 * b[1], "derivative " + std::to_string(k) + " of the transition at " + pbt::num(u));
                }
            }
            c.close(al[0](-u), -al[0](u), 1e-13, "transition is not odd");
        }
        c.close(al[0](1.), 1., 1e-13, "end of the transition");
        for (int k = 1; k < 5; ++k)
            for (double u : {-1., 1.})
                c.close(al[k](u), 0., 1e-12, "derivative " + std::to_string(k) + " at an end of the transition");
        // junctions: continuous up to the fourth derivative (which vanishes linearly there)
        for (int k = 0; k < 5; ++k)
            for (double junction : {lo, hi})
            {
                double d = 1e-7 * eps;
                if (junction <= d)
                    continue;
                c.close(at(k, junction + d), at(k, junction - d), e(k) * 1e-3, "jump of derivative " + std::to_string(k) + " at " + pbt::num(std::sqrt(junction)));
            }
    }
    PROPERTY("P35", p35);

    // ---- P36 ------------------------------------------------------------------------------------
    // particles in a grid such that near pairs have a gap resolved by the cut-off, and far ones are inactive
    template<std::size_t D>
    struct world_t
    {
        hv::setup<D> s;
        std::vector<hv::ball<D>> balls;
    };
    template<std::size_t D>
    world_t<D> gen_world(Case &c)
    {
        world_t<D> w;
        w.s = hv::gen_setup<D>(c, D == 2 ? 16 : 8, true, D == 2 ? 6 : 5);
        double f = c.flag(1, 3) ? 5. : 1.; // in a large domain distant pairs are not in near contact
        double lmin = 1e9, hmax = 0;
        for (std::size_t d = 0; d < D; ++d)
        {
            w.s.L[d] *= f;
            w.s.g.h[d] *= f;
            lmin = std::min(lmin, w.s.L[d]);
            hmax = std::max(hmax, w.s.g.h[d]);
        }
        pair<D> p;
        p.n = direction<D>(c);
        // sizes: the cut-off must be between the spacing and the radius
        double m = std::max(lmin * c.real_near(0.2, 0.1, 0.3), 2.1 * hmax);
        p.a.R = m * c.real_near(1., 1., 1.4);
        p.b.R = m;
        if (c.flag())
            std::swap(p.a.R, p.b.R);
        double K = .5 * (1 / p.a.R + 1 / p.b.R);
        p.gap = c.real_near(0.02, 2e-3, c.flag(1, 3) ? 0.15 : 0.03) * K * m * m;
        for (std::size_t d = 0; d < D; ++d)
        {
            double mid = w.s.L[d] * c.real_near(.5, 0.2, 0.8);
            if (c.flag(1, 4))
                mid = std::round(mid / w.s.g.h[d]) * w.s.g.h[d];
            p.a.c[d] = mid - p.a.R * p.n[d];
            p.b.c[d] = p.a.c[d] + (p.a.R + p.b.R + p.gap) * p.n[d];
        }
        for (auto *b : {&p.a, &p.b})
        {
            b->angle = 0;
            b->axis = 0;
            b->rho = 1;
            b->W.fill(0.);
            b->F.fill(0.);
        }
        set_motion<D>(c, p);
        double h0 = w.s.g.h[0];
        if (p.gap >= .99 || cutoff<D>(p, h0) > m * (1 + 1e-12))
            throw pbt::skip_case();
        w.balls = {p.a, p.b};
        c.note("c0", p.a.c);
        c.note("c1", p.b.c);
        c.note("R", std::array<double, 2>{{p.a.R, p.b.R}});
        c.note("gap", p.gap);
        int third = c.integer(0, 4);
        if (third > 2) // another particle, near both or near one
        {
            hv::ball<D> q = p.a;
            q.R = m * c.real_near(1., 1., 1.4);
            double g1 = p.gap * c.real_near(1., .5, 1.), g2 = p.gap * c.real_near(1., .5, 1.);
            double da = p.a.R + q.R + g1, db = p.b.R + q.R + g2, ab = p.a.R + p.b.R + p.gap;
            double x = third == 3 ? (da * da - db * db + ab * ab) / (2 * ab) : c.flag() ? ab + db : -da;
            double y = third == 3 ? std::sqrt(std::max(0., da * da - x * x)) : 0.;
            auto t = direction<D>(c); // made perpendicular to the line of centres
            double tn = dot<D>(t, p.n), l = 0;
            for (std::size_t d = 0; d < D; ++d)
                t[d] -= tn * p.n[d];
            l = norm<D>(t);
            auto s = c.seed();
            bool ok = third == 4 || l > 1e-3;
            for (std::size_t d = 0; d < D; ++d)
            {
                q.c[d] = p.a.c[d] + x * p.n[d] + (y > 0 ? y * t[d] / l : 0.);
                q.V[d] = pbt::unit(s, d);
            }
            for (auto const &b : w.balls)
            {
                pair<D> o = p;
                o.a = b;
                o.b = q;
                auto e = minus<D>(q.c, b.c);
                o.gap = norm<D>(e) - b.R - q.R;
                ok &= o.gap > 1.01 || (o.gap > .3 * p.gap && o.gap < .99 && cutoff<D>(o, h0) <= std::min(b.R, q.R) * (1 + 1e-12));
            }
            if (ok)
            {
                int where = c.integer(0, 2);
                c.note("c2", q.c);
                c.note("R2", q.R);
                c.label("several near contacts");
                w.balls.insert(w.balls.begin() + where, q);
            }
        }
        else if (third) // another particle, far from both or none
        {
            hv::ball<D> q = p.a;
            q.R = m * .5;
            auto s = c.seed();
            for (std::size_t d = 0; d < D; ++d)
            {
                q.c[d] = w.s.L[d] * (.5 + .5 * pbt::unit(s, d));
                q.V[d] = pbt::unit(s, 10 + d);
            }
            bool far = true;
            for (auto const &b : w.balls)
                far &= norm<D>(minus<D>(b.c, q.c)) - b.R - q.R > 1.01;
            if (far)
            {
                c.label("third particle");
                if (third == 1)
                    w.balls.push_back(q);
                else
                    w.balls.insert(w.balls.begin(), q);
            }
        }
        if (c.flag(1, 8)) // only an inactive pair, or a single particle
        {
            w.balls.erase(w.balls.begin());
            c.label("no near contact");
        }
        return w;
    }
    template<std::size_t D, class F>
    bool near_pairs(world_t<D> const &w, F &&f)
    {
        bool any = false;
        for (std::size_t i = 0; i < w.balls.size(); ++i)
            for (std::size_t j = i + 1; j < w.balls.size(); ++j)
            {
                pair<D> p;
                p.a = w.balls[i];
                p.b = w.balls[j];
                auto d = minus<D>(p.b.c, p.a.c);
                double l = norm<D>(d);
                p.gap = l - p.a.R - p.b.R;
                if (p.gap > 1)
                    continue;
                for (std::size_t k = 0; k < D; ++k)
                    p.n[k] = d[k] / l;
                any = true;
                f(p);
            }
        return any;
    }
    // f(cell, point of the cell in [0,1)^D, position, weight) for the points of the fluid between the two particles
    template<std::size_t D, class F>
    void gap_points(world_t<D> const &w, pair<D> const &p, int scale, double cut, F &&f)
    {
        auto const &g = w.s.g;
        idx<D> sub;
        sub.fill(scale);
        double q = std::pow(1. / scale, D);
        ref::loop<D>(g.cu, [&](idx<D> const &cell) {
            // skip cells away from the gap
            hv::pt<D> mid;
            double diag = 0;
            for (std::size_t d = 0; d < D; ++d)
            {
                mid[d] = (cell[d] + .5) * g.h[d] - p.a.c[d] - p.a.R * p.n[d];
                diag += g.h[d];
            }
            if (norm<D>(mid) > 2 * std::max(p.a.R, p.b.R) + p.gap + diag)
                return;
            ref::loop<D>(sub, [&](idx<D> const &k) {
                hv::pt<D> t, x;
                for (std::size_t d = 0; d < D; ++d)
                {
                    t[d] = static_cast<double>(k[d]) / scale;
                    x[d] = (cell[d] + t[d]) * g.h[d];
                }
                auto rel = minus<D>(x, p.a.c);
                double z = dot<D>(rel, p.n);
                if (z < 0 || z > p.a.R + p.gap + p.b.R)
                    return;
                double r2 = dot<D>(rel, rel) - z * z;
                if (r2 > cut * cut * (1 + 1e-9))
                    return;
                int sa = hv::side<D>(p.a, x), sb = hv::side<D>(p.b, x);
                if (sa == 0 || sb == 0)
                    throw pbt::skip_case(); // on a surface, up to rounding
                if (sa > 0 && sb > 0)
                    f(cell, t, x, q);
            });
        });
    }
    hv::pt<2> row(std::array<double, 2> const &a) { return a; }

    template<std::size_t D, class F>
    vec near_load(world_t<D> const &w, double &size, F &&value)
    {
        vec want(w.s.g.nodes_u() * D, 0.);
        near_pairs<D>(w, [&](pair<D> const &p) {
            auto s = make<D>(p, w.s.g.h[0]);
            double cut = cutoff<D>(p, w.s.g.h[0]);
            gap_points<D>(w, p, static_cast<int>(s.scale), cut, [&](idx<D> const &cell, hv::pt<D> const &t, hv::pt<D> const &x, double q) {
                for (int k = 0; k < ref::corners<D>(); ++k)
                {
                    auto a = ref::corner<D>(k);
                    auto v = value(s, x, a, t);
                    auto n = a;
                    for (std::size_t d = 0; d < D; ++d)
                    {
                        n[d] += cell[d];
                        if (w.s.g.per[d])
                            n[d] %= w.s.g.nu[d];
                    }
                    auto at = ref::grid<D>::at(w.s.g.nu, n);
                    for (std::size_t d = 0; d < D; ++d)
                    {
                        want[at * D + d] += q * v[d];
                        size = std::max(size, std::abs(v[d]));
                    }
                }
            });
        });
        return want;
    }

    // derivative of a corner function along e (with respect to the reference coordinate)
    template<std::size_t D>
    double dphi(idx<D> const &a, hv::pt<D> const &t, std::size_t e)
    {
        double v = 1;
        for (std::size_t d = 0; d < D; ++d)
            v *= d == e ? (a[d] ? 1. : -1.) : (a[d] ? t[d] : 1 - t[d]);
        return v;
    }

    template<std::size_t D>
    typename hv::dpart_of<D>::type coarse();
    template<>
    double coarse<2>() { return .5; }
    template<>
    std::array<double, 2> coarse<3>() { return {{.5, .5}}; }

    template<std::size_t D>
    void p36_rhs(Case &c)
    {
        auto w = gen_world<D>(c);
        auto before = hv::gen_field(c, w.s.g.nodes_u() * D, "before");
        auto pressure = hv::gen_field(c, w.s.g.nodes_p(), "pressure");
        bool whole = c.flag(1, 3); // as part of the load of the whole problem, without control
        c.note("whole problem", whole);
        pbt::world mp(w.s.np);
        if (!mp.active)
            return;
        hv::scene<D> sc(w.s, w.balls, coarse<D>(), 4, false);
        double size = 0;
        auto want = near_load<D>(w, size, [&](sing_t<D> &s, hv::pt<D> const &x, idx<D> const &a, hv::pt<D> const &t) {
            auto X = pos(x);
            auto g = s.get_grad_u_sing(X);
            double pr = s.get_p_sing(X);
            hv::pt<D> v;
            double vol = 1;
            for (auto h : w.s.g.h)
                vol *= h;
            for (std::size_t d = 0; d < D; ++d)
            {
                v[d] = 0;
                for (std::size_t e = 0; e < D; ++e)
                {
                    double grad = dphi<D>(a, t, e) / w.s.g.h[e];
                    v[d] -= vol * (g[d][e] - (d == e ? pr : 0.)) * grad;
                }
            }
            return v;
        });
        auto &pb = *sc.h.p;
        hv::put(sc.dm(), pb.rhs, before, pressure);
        if (whole)
        {
            Vec x;
            VecCreateMPI(PETSC_COMM_WORLD, static_cast<PetscInt>(sc.nodes * D), PETSC_DETERMINE, &x);
            VecSet(x, 0.);
            sc.ctx->compute_rhs = false;
            sc.ctx->compute_singularity = true;
            c.petsc((problem::init_problem<D>(*sc.ctx, x)), "init_problem");
            VecDestroy(&x);
        }
        else
            c.petsc((sg::add_singularity_in_fluid<D>(*sc.ctx)), "add_singularity_in_fluid");
        auto r = hv::get2(sc.dm(), pb.rhs);
        double big = 0;
        for (std::size_t k = 0; k < want.size(); ++k)
        {
            big = std::max(big, std::abs(want[k]));
            want[k] += before[k];
        }
        if (whole) // nothing is loaded on the walls
            ref::loop<D>(w.s.g.nu, [&](idx<D> const &i) {
                for (std::size_t d = 0; d < D; ++d)
                    if (!w.s.g.per[d] && (i[d] == 0 || i[d] == w.s.g.nu[d] - 1))
                        for (std::size_t e = 0; e < D; ++e)
                            want[ref::grid<D>::at(w.s.g.nu, i) * D + e] = 0;
            });
        c.nontrivial = big > 0;
        if (big > 0 && w.s.np > 1)
            c.label("parallel near contact");
        if (big > 0 && whole)
            c.label("load of the whole problem");
        hv::same(c, r[0], want, 1e-9 * (size + 1), "load");
        hv::same(c, r[1], pressure, 0, "pressure load");
    }
    PROPERTY("P36.rhs2", p36_rhs<2>);
    PROPERTY("P36.rhs3", p36_rhs<3>);

    void p36_sol(Case &c)
    {
        auto w = gen_world<2>(c);
        auto before = hv::gen_field(c, w.s.g.nodes_u() * 2, "before");
        auto pressure = hv::gen_field(c, w.s.g.nodes_p(), "pressure");
        pbt::world mp(w.s.np);
        if (!mp.active)
            return;
        hv::scene<2> sc(w.s, w.balls, coarse<2>(), 4, false);
        double size = 0;
        auto want = near_load<2>(w, size, [&](sing_t<2> &s, hv::pt<2> const &x, idx<2> const &a, hv::pt<2> const &t) {
            auto u = hv::arr<2>(s.get_u_sing(pos(x)));
            double b = ref::phi<2>(a, t);
            return hv::pt<2>{{b * u[0], b * u[1]}};
        });
        auto &pb = *sc.h.p;
        hv::put(sc.dm(), pb.sol, before, pressure);
        c.petsc((sg::add_singularity_to_last_sol<2>(*sc.ctx, pb.sol)), "add_singularity_to_last_sol");
        auto r = hv::get2(sc.dm(), pb.sol);
        double big = 0;
        for (std::size_t k = 0; k < want.size(); ++k)
        {
            big = std::max(big, std::abs(want[k]));
            want[k] += before[k];
        }
        c.nontrivial = big > 0;
        if (big > 0 && w.s.np > 1)
            c.label("parallel near contact");
        hv::same(c, r[0], want, 1e-9 * (size + 1), "solution");
        hv::same(c, r[1], pressure, 0, "pressure");
    }
    PROPERTY("P36.sol2", p36_sol);

    // ---- P39 ------------------------------------------------------------------------------------
    // minus the integral of the stress of the near field over the surface of one particle (first: the first one)
    double near_force(pair<2> const &p, sing_t<2> &s, bool first, hv::pt<2> &f)
    {
        double R = first ? p.a.R : p.b.R, cut = s.cutoff_dist_, top = std::asin(std::min(1., cut / R)), mag = 0;
        int n = 1500;
        f.fill(0.);
        for (int i = 0; i < n; ++i)
        {
            double t = top * (2. * (i + .5) / n - 1);
            hv::pt<2> nu{{(first ? 1 : -1) * std::cos(t), std::sin(t)}}, y{{(first ? -R : p.gap + R) + R * nu[0], R * nu[1]}};
            hv::pt<2> x, nx;
            auto X = s.get_pos_from_part_ref(pos(y));
            for (std::size_t d = 0; d < 2; ++d)
                nx[d] = nu[0] * s.base_[0][d] + nu[1] * s.base_[1][d];
            auto g = s.get_grad_u_sing(X);
            double pr = s.get_p_sing(X), dl = 2 * top * R / n;
            for (std::size_t d = 0; d < 2; ++d)
            {
                double v = -pr * nx[d];
                for (std::size_t e = 0; e < 2; ++e)
                    v += (g[d][e] + g[e][d]) * nx[e];
                f[d] -= v * dl;
                mag += std::abs(v) * dl;
            }
        }
        return mag;
    }
    double near_force(pair<3> const &p, sing_t<3> &s, bool first, hv::pt<3> &f)
    {
        double R = first ? p.a.R : p.b.R, cut = s.cutoff_dist_, top = std::asin(std::min(1., cut / R)), mag = 0;
        int n = 200, m = 24;
        f.fill(0.);
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < m; ++j)
            {
                double t = top * (i + .5) / n, o = 2 * M_PI * (j + .3) / m;
                hv::pt<3> nu{{std::sin(t) * std::cos(o), std::sin(t) * std::sin(o), (first ? 1 : -1) * std::cos(t)}};
                hv::pt<3> y{{R * nu[0], R * nu[1], (first ? -R : p.gap + R) + R * nu[2]}}, nx;
                auto X = s.get_pos_from_part_ref(pos(y));
                nx.fill(0.);
                for (std::size_t d = 0; d < 3; ++d)
                    for (std::size_t e = 0; e < 3; ++e)
                        nx[d] += nu[e] * s.base_[e][d];
                auto g = s.get_grad_u_sing(X);
                double pr = s.get_p_sing(X), dl = 2 * M_PI * top / n / m * R * R * std::sin(t);
                for (std::size_t d = 0; d < 3; ++d)
                {
                    double v = -pr * nx[d];
                    for (std::size_t e = 0; e < 3; ++e)
                        v += (g[d][e] + g[e][d]) * nx[e];
                    f[d] -= v * dl;
                    mag += std::abs(v) * dl;
                }
            }
        return mag;
    }
    template<std::size_t D>
    std::vector<hv::pt<D>> near_forces(world_t<D> const &w, double &mag)
    {
        std::vector<hv::pt<D>> f(w.balls.size());
        for (auto &x : f)
            x.fill(0.);
        for (std::size_t i = 0; i < w.balls.size(); ++i)
            for (std::size_t j = i + 1; j < w.balls.size(); ++j)
            {
                world_t<D> one;
                one.balls = {w.balls[i], w.balls[j]};
                near_pairs<D>(one, [&](pair<D> const &p) {
                    auto s = make<D>(p, w.s.g.h[0]);
                    for (bool first : {true, false})
                    {
                        hv::pt<D> g;
                        mag = std::max(mag, near_force(p, s, first, g));
                        for (std::size_t d = 0; d < D; ++d)
                            f[first ? i : j][d] += g[d];
                    }
                });
            }
        return f;
    }
    // the single-pair function (2D only): the force on the first particle
    void first_force(Case &c, world_t<2> const &w, double tol)
    {
        near_pairs<2>(w, [&](pair<2> const &p) {
            auto s = make<2>(p, w.s.g.h[0]);
            hv::pt<2> want;
            near_force(p, s, true, want);
            auto got = sg::compute_singular_forces(s, 100);
            for (std::size_t d = 0; d < 2; ++d)
                c.close(got[d], -want[d], tol, "force of one pair on its first particle, component " + std::to_string(d));
        });
    }
    void first_force(Case &, world_t<3> const &, double) {}
    template<std::size_t D>
    void p39(Case &c)
    {
        auto w = gen_world<D>(c);
        auto seed = c.seed();
        pbt::world mp(w.s.np);
        if (!mp.active)
            return;
        double mag = 0;
        auto want = near_forces<D>(w, mag);
        c.nontrivial = mag > 0;
        double tol = (D == 2 ? 2e-3 : 1.5e-2) * mag + 1e-12; // quadrature errors
        auto parts = hv::build<D>(w.balls);
        std::vector<physics::force<D>> forces(parts.size());
        c.petsc((sg::compute_singular_forces<D, hv::shape_t<D>>(parts, forces, w.s.g.h, 100)), "compute_singular_forces");
        auto str = [](std::size_t i, std::size_t d) { return " on particle " + std::to_string(i) + ", component " + std::to_string(d); };
        for (std::size_t i = 0; i < parts.size(); ++i)
            for (std::size_t d = 0; d < D; ++d)
                c.close(forces[i][d], want[i][d], tol, "force" + str(i, d));
        first_force(c, w, tol);
        // the same from a problem
        hv::scene<D> sc(w.s, w.balls, coarse<D>(), 4, false);
        c.petsc((sg::compute_singular_forces<D>(*sc.ctx, 100)), "compute_singular_forces of a context");
        for (std::size_t i = 0; i < parts.size(); ++i)
            for (std::size_t d = 0; d < D; ++d)
                c.close(sc.parts[i].force_[d], want[i][d], tol, "force of the context" + str(i, d));
        // and added to those of a control
        Vec x;
        VecCreateMPI(PETSC_COMM_WORLD, sc.nodes * D, PETSC_DETERMINE, &x);
        PetscInt b, e;
        VecGetOwnershipRange(x, &b, &e);
        double *px;
        VecGetArray(x, &px);
        for (PetscInt k = b; k < e; ++k)
            px[k - b] = pbt::unit(seed, k);
        VecRestoreArray(x, &px);
        using torque_t = typename std::conditional<D == 2, double, geometry::vector<double, 3>>::type;
        std::vector<geometry::vector<double, D>> f0(parts.size()), f1(parts.size());
        std::vector<torque_t> t0(parts.size()), t1(parts.size());
        auto box = fem::get_DM_bounds<D>(sc.dm(), 0);
        c.petsc(forces_torques_with_control(sc.parts, x, box, f0, t0, sc.num, w.s.g.h, false), "forces_torques_with_control");
        c.petsc(forces_torques_with_control(sc.parts, x, box, f1, t1, sc.num, w.s.g.h, true), "forces_torques_with_control");
        for (std::size_t i = 0; i < parts.size(); ++i)
            for (std::size_t d = 0; d < D; ++d)
                c.close(f1[i][d] - f0[i][d], want[i][d], tol + 1e-12, "force added to that of a control" + str(i, d));
        VecDestroy(&x);
    }
    PROPERTY("P39.2d", p39<2>);
    PROPERTY("P39.3d", p39<3>);
} // namespace

PBT_MAIN
