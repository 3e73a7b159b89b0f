// Coupling of particles and grid: P24 covered nodes, P25 surface points, P26 interpolation, P27 spreading,
// P28 rigid modes, P29 volume loads, in two and three dimensions
#include <cafes.hpp>
#include "common.hpp"
#include "stokes_common.hpp"
#include "particle_common.hpp"
using namespace cafes;
using pbt::Case;
using ref::form;
using ref::idx;
using ref::vec;

namespace
{
    template<std::size_t D>
    hv::setup<D> gen_grid(Case &c, bool periodic = true)
    {
        return hv::gen_setup<D>(c, hv::most(c, D == 2 ? 14 : 6, D == 2 ? 40 : 12), periodic, D == 2 ? 3 : 2);
    }

    // allowed rounding of sums over n terms of size s
    double tol(double s, double n) { return 1e-12 * s * (10 + n); }

    template<std::size_t D>
    idx<D> lower(geometry::box<int, D> const &b)
    {
        idx<D> i;
        for (std::size_t d = 0; d < D; ++d)
            i[d] = b.bottom_left[d];
        return i;
    }

    // ---- P24 ------------------------------------------------------------------------------------
    template<std::size_t D>
    void compare_nodes(Case &c, hv::ball<D> const &b, std::array<double, D> const &h, geometry::box<int, D> const &box,
                       std::vector<geometry::position<int, D>> const &got, std::string const &what)
    {
        std::map<idx<D>, int> count;
        for (auto const &p : got)
        {
            idx<D> i;
            for (std::size_t d = 0; d < D; ++d)
                i[d] = p[d];
            ++count[i];
        }
        idx<D> len;
        for (std::size_t d = 0; d < D; ++d)
            len[d] = box.upper_right[d] - box.bottom_left[d];
        std::size_t inside = 0;
        ref::loop<D>(len, [&](idx<D> i) {
            hv::pt<D> x;
            for (std::size_t d = 0; d < D; ++d)
            {
                i[d] += box.bottom_left[d];
                x[d] = i[d] * h[d];
            }
            int s = hv::side<D>(b, x);
            auto it = count.find(i);
            int n = it == count.end() ? 0 : it->second;
            if (n)
                count.erase(it);
            inside += n > 0;
            c.check(n <= 1, what + ": node " + pbt::str(i) + " reported " + std::to_string(n) + " times");
            if (s < 0)
                c.check(n == 1, what + ": node " + pbt::str(i) + " is inside and not reported");
            if (s > 0)
                c.check(n == 0, what + ": node " + pbt::str(i) + " is outside and reported");
        });
        for (auto const &e : count)
            c.check(false, what + ": node " + pbt::str(e.first) + " is not in the sub-domain");
        if (inside)
            c.nontrivial = true;
    }

    template<std::size_t D>
    void p24_box(Case &c)
    {
        pbt::self_world w;
        std::array<double, D> h;
        hv::setup<D> s;
        for (std::size_t d = 0; d < D; ++d)
        {
            h[d] = c.real_near(0.1, 0.02, 0.2);
            s.L[d] = 1;
            s.g.h[d] = h[d];
        }
        c.note("h", h);
        auto b = hv::gen_balls<D>(c, s, 2, 1)[0];
        auto p = hv::build<D>(b, true);
        geometry::box<int, D> box;
        bool near = c.flag(3, 4); // a sub-domain around the particle
        for (std::size_t d = 0; d < D; ++d)
        {
            int a = c.integer(0, 12), l = c.integer(0, D == 2 ? 20 : 10);
            if (near)
                a = std::max(0, static_cast<int>(std::floor((b.c[d] - b.R) / h[d])) + a / 2 - 3);
            box.bottom_left[d] = a;
            box.upper_right[d] = a + l;
        }
        c.note("box", box);
        compare_nodes<D>(c, b, h, box, find_fluid_points_insides(p, box, h), "sub-domain");
        auto pbox = p.bounding_box(h);
        if (geometry::intersect(box, pbox))
        {
            auto o = geometry::overlap_box(box, pbox);
            auto got = find_fluid_points_insides(p, o, h);
            compare_nodes<D>(c, b, h, box, got, "overlap with the bounding box");
        }
        else
            compare_nodes<D>(c, b, h, box, {}, "no overlap with the bounding box");
    }
    PROPERTY("P24.box2", p24_box<2>);
    PROPERTY("P24.box3", p24_box<3>);

    template<std::size_t D>
    void p24(Case &c)
    {
        auto s = gen_grid<D>(c);
        auto balls = hv::gen_balls<D>(c, s, 2);
        pbt::world w(s.np);
        if (!w.active)
            return;
        DM dm;
        hv::createMesh(dm, s.g);
        auto box = fem::get_DM_bounds<D>(dm, 0);
        auto parts = hv::build<D>(balls);
        for (std::size_t k = 0; k < parts.size(); ++k)
        {
            vec count(s.g.nodes_u(), 0.), all(count.size());
            auto pbox = parts[k].bounding_box(s.g.h);
            if (geometry::intersect(box, pbox))
                for (auto const &i : find_fluid_points_insides(parts[k], geometry::overlap_box(box, pbox), s.g.h))
                {
                    idx<D> n;
                    bool ok = true;
                    for (std::size_t d = 0; d < D; ++d)
                    {
                        n[d] = i[d];
                        ok &= n[d] >= box.bottom_left[d] && n[d] < box.upper_right[d];
                    }
                    if (c.check(ok, "node " + pbt::str(n) + " is not in the sub-domain of the process"))
                        count[ref::grid<D>::at(s.g.nu, n)] += 1;
                }
            MPI_Allreduce(count.data(), all.data(), static_cast<int>(all.size()), MPI_DOUBLE, MPI_SUM, PETSC_COMM_WORLD);
            ref::loop<D>(s.g.nu, [&](idx<D> const &i) {
                hv::pt<D> x;
                bool cell = true;
                for (std::size_t d = 0; d < D; ++d)
                {
                    x[d] = i[d] * s.g.h[d];
                    cell &= i[d] < s.g.cu[d];
                }
                int sd = hv::side<D>(balls[k], x);
                double n = all[ref::grid<D>::at(s.g.nu, i)];
                if (n > 0)
                    c.nontrivial = true;
                if (!cell || sd > 0)
                    c.check(n == 0, "node " + pbt::str(i) + " reported " + pbt::num(n) + " times, expected none");
                else if (sd < 0)
                    c.check(n == 1, "node " + pbt::str(i) + " reported " + pbt::num(n) + " times, expected once");
                else
                    c.check(n <= 1, "node " + pbt::str(i) + " reported " + pbt::num(n) + " times");
            });
        }
        DMDestroy(&dm);
    }
    PROPERTY("P24.2d", p24<2>);
    PROPERTY("P24.3d", p24<3>);

    // ---- P25 ------------------------------------------------------------------------------------
    // which sample is at x? -1: none
    template<std::size_t D>
    int find_sample(hv::samples<D> const &all, hv::pt<D> const &x, double eps, std::vector<double> const &taken)
    {
        int best = -1;
        for (std::size_t k = 0; k < all.x.size(); ++k)
        {
            bool same = true;
            for (std::size_t d = 0; d < D && same; ++d)
                same = std::abs(all.x[k][d] - x[d]) <= eps;
            if (same && (best < 0 || taken[best] > taken[k]))
                best = static_cast<int>(k);
        }
        return best;
    }

    template<std::size_t D>
    double size_of(hv::setup<D> const &s)
    {
        double L = 0;
        for (auto l : s.L)
            L = std::max(L, l);
        return L;
    }

    // one reported sample: cell of the box, offset inside the cell; returns the index of the sample
    template<std::size_t D, class Pair, class Vector>
    void one_point(Case &c, hv::samples<D> const &all, geometry::box<int, D> const &box, std::array<double, D> const &h, Pair const &sp,
                   Vector const &radial, hv::ball<D> const &b, double L, std::vector<double> &hits)
    {
        hv::pt<D> x;
        bool in = true, off = true, rad = true;
        for (std::size_t d = 0; d < D; ++d)
        {
            in &= sp.first[d] >= box.bottom_left[d] && sp.first[d] < box.upper_right[d];
            off &= sp.second[d] >= -1e-9 * h[d] && sp.second[d] <= h[d] * (1 + 1e-9);
            x[d] = sp.first[d] * h[d] + sp.second[d];
            rad &= std::abs(b.c[d] + radial[d] - x[d]) <= 1e-11 * (1 + L);
        }
        auto where = "the sample in cell " + pbt::str(hv::arr<D>(sp.first)) + " with offset " + pbt::str(hv::arr<D>(sp.second));
        c.check(in, where + " is outside the sub-domain");
        c.check(off, where + ": the offset is outside the cell");
        c.check(rad, where + ": the radial vector does not lead there");
        int k = find_sample<D>(all, x, 1e-11 * (1 + L), hits);
        if (c.check(k >= 0, where + " is not a sample of the surface"))
            hits[k] += 1;
    }

    template<std::size_t D>
    void p25_box(Case &c)
    {
        pbt::self_world w;
        std::array<double, D> h;
        hv::setup<D> s;
        for (std::size_t d = 0; d < D; ++d)
        {
            h[d] = c.real_near(0.1, 0.02, 0.2);
            s.L[d] = 1;
            s.g.h[d] = h[d];
        }
        c.note("h", h);
        auto b = hv::gen_balls<D>(c, s, 2, 1)[0];
        auto dpart = hv::dpart_of<D>::gen(c);
        auto p = hv::build<D>(b, true);
        geometry::box<int, D> box;
        bool near = c.flag(3, 4); // a sub-domain around the particle
        for (std::size_t d = 0; d < D; ++d)
        {
            int a = c.integer(0, 12), l = c.integer(0, 20);
            if (near)
                a = std::max(0, static_cast<int>(std::floor((b.c[d] - b.R) / h[d])) + a / 2 - 3);
            box.bottom_left[d] = a;
            box.upper_right[d] = a + l;
        }
        c.note("box", box);
        auto pts = p.surface(dpart);
        hv::samples<D> all;
        for (auto const &q : pts)
        {
            all.x.push_back(hv::arr<D>(q));
            int in = 1;
            for (std::size_t d = 0; d < D && in; ++d)
            {
                double lo = box.bottom_left[d] * h[d], hi = box.upper_right[d] * h[d];
                if (q[d] < lo - 1e-9 || q[d] > hi + 1e-9)
                    in = 0;
                else if (q[d] < lo + 1e-9 || q[d] > hi - 1e-9)
                    in = -1;
            }
            all.in.push_back(in);
        }
        auto got = find_surf_points_insides(pts, box, h);
        auto rad = find_radial_surf_points_insides(pts, box, h, p.center_);
        if (!c.check(got.size() == rad.size(), "as many radial vectors as points"))
            return;
        std::vector<double> hits(all.x.size(), 0.);
        for (std::size_t k = 0; k < got.size(); ++k)
            one_point<D>(c, all, box, h, got[k], rad[k], b, 1., hits);
        for (std::size_t k = 0; k < hits.size(); ++k)
        {
            auto where = "sample " + pbt::str(all.x[k]) + " reported " + pbt::num(hits[k]) + " times, ";
            if (all.in[k] == 1)
                c.check(hits[k] == 1, where + "expected once");
            else if (all.in[k] == 0)
                c.check(hits[k] == 0, where + "it is outside the sub-domain");
            else
                c.check(hits[k] <= 1, where + "expected at most once");
        }
        if (all.count() > 0)
            c.nontrivial = true;
    }
    PROPERTY("P25.box2", p25_box<2>);
    PROPERTY("P25.box3", p25_box<3>);

    template<std::size_t D>
    void p25(Case &c)
    {
        auto s = gen_grid<D>(c);
        auto balls = hv::gen_balls<D>(c, s, 2);
        auto dpart = hv::dpart_of<D>::gen(c);
        int scale = c.integer(1, 5);
        pbt::world w(s.np);
        if (!w.active)
            return;
        hv::scene<D> sc(s, balls, dpart, scale, false);
        auto box = fem::get_DM_bounds<D>(sc.dm(), 0);
        double L = size_of<D>(s);
        std::size_t covered = 0;
        for (std::size_t i = 0; i < balls.size(); ++i)
        {
            auto all = hv::all_samples<D>(s, sc.parts[i], dpart);
            std::vector<double> hits(all.x.size(), 0.), sum(hits.size());
            if (!c.check(sc.surf[i].size() == sc.radial[i].size(), "as many radial vectors as points"))
                continue;
            for (std::size_t k = 0; k < sc.surf[i].size(); ++k)
                one_point<D>(c, all, box, s.g.h, sc.surf[i][k], sc.radial[i][k], balls[i], L, hits);
            MPI_Allreduce(hits.data(), sum.data(), static_cast<int>(sum.size()), MPI_DOUBLE, MPI_SUM, PETSC_COMM_WORLD);
            double total = 0;
            for (std::size_t k = 0; k < hits.size(); ++k)
            {
                total += sum[k];
                auto where = "sample " + pbt::str(all.x[k]) + " of particle " + std::to_string(i) + " reported " + pbt::num(sum[k]) + " times, ";
                if (all.in[k] == 1)
                    c.check(sum[k] == 1, where + "expected once");
                else if (all.in[k] == 0)
                    c.check(sum[k] == 0, where + "it is outside the domain");
                else
                    c.check(sum[k] <= 1, where + "expected at most once");
            }
            c.check(sc.nb[i] == static_cast<int>(total),
                    "number of samples: " + std::to_string(sc.nb[i]) + ", reported points: " + pbt::num(total));
            if (total > 0)
                c.nontrivial = true;
            // integration points: `scale` per direction and cell
            int sure = 0, maybe = 0;
            idx<D> m;
            std::size_t nodes = 0;
            for (std::size_t d = 0; d < D; ++d)
                m[d] = s.g.cu[d] * scale;
            ref::loop<D>(m, [&](idx<D> const &k) {
                hv::pt<D> x;
                for (std::size_t d = 0; d < D; ++d)
                    x[d] = k[d] * s.g.h[d] / scale;
                int sd = hv::side<D>(balls[i], x);
                sure += sd < 0;
                maybe += sd <= 0;
            });
            c.check(sc.num[i] >= sure && sc.num[i] <= maybe,
                    "integration points: " + std::to_string(sc.num[i]) + ", expected " + std::to_string(sure) + ".." + std::to_string(maybe));
            auto pbox = sc.parts[i].bounding_box(s.g.h);
            if (geometry::intersect(box, pbox))
                nodes = find_fluid_points_insides(sc.parts[i], geometry::overlap_box(box, pbox), s.g.h).size();
            covered += nodes;
        }
        c.check(covered == sc.nodes, "number of covered nodes: " + std::to_string(sc.nodes) + ", expected " + std::to_string(covered));
    }
    PROPERTY("P25.2d", p25<2>);
    PROPERTY("P25.3d", p25<3>);

    // ---- P26 ------------------------------------------------------------------------------------
    template<std::size_t D>
    void p26(Case &c)
    {
        auto s = gen_grid<D>(c);
        auto balls = hv::gen_balls<D>(c, s, 2);
        auto dpart = hv::dpart_of<D>::gen(c);
        auto u = hv::gen_field(c, s.g.nodes_u() * D, "u");
        bool rigid = c.flag(), follow = c.flag(1, 4);
        c.note("rigid", rigid);
        std::size_t who = c.integer(0, static_cast<int>(balls.size()) - 1);
        bool periodic = false;
        for (auto b : s.g.per)
            periodic |= b;
        follow &= !periodic && rigid;
        if (follow)
        { // the fluid moves with one of the particles
            c.label("fluid follows a particle");
            auto const &b = balls[who];
            ref::loop<D>(s.g.nu, [&](idx<D> const &i) {
                hv::pt<D> r;
                for (std::size_t d = 0; d < D; ++d)
                    r[d] = i[d] * s.g.h[d] - b.c[d];
                auto v = hv::rotation(b.W, r);
                for (std::size_t d = 0; d < D; ++d)
                    u[ref::grid<D>::at(s.g.nu, i) * D + d] = b.V[d] + v[d];
            });
        }
        pbt::world w(s.np);
        if (!w.active)
            return;
        hv::scene<D> sc(s, balls, dpart, 4, false);
        vec pressure(s.g.nodes_p(), 3.);
        hv::put(sc.dm(), sc.h.p->sol, u, pressure);
        auto g = sc.blank();
        for (auto &v : g)
            for (auto &x : v)
                for (std::size_t d = 0; d < D; ++d)
                    x[d] = 7; // previous contents must not matter
        c.petsc(problem::interp_fluid_to_surf(*sc.ctx, g, rigid, false), "interp_fluid_to_surf");
        double m = ref::maxabs(u) + 5 * (1 + size_of<D>(s));
        for (std::size_t i = 0; i < balls.size(); ++i)
            for (std::size_t k = 0; k < g[i].size(); ++k)
            {
                c.nontrivial = true;
                auto x = sc.position(i, k);
                auto want = hv::interpolate<D>(s.g, u, x);
                hv::pt<D> r;
                for (std::size_t d = 0; d < D; ++d)
                    r[d] = x[d] - balls[i].c[d];
                auto rot = hv::rotation(balls[i].W, r);
                for (std::size_t d = 0; d < D; ++d)
                {
                    double v = want[d] - (rigid ? balls[i].V[d] + rot[d] : 0.);
                    c.close(g[i][k][d], v, 1e-10 * m, "particle " + std::to_string(i) + " component " + std::to_string(d) + " at " + pbt::str(x));
                    if (follow && i == who)
                        c.close(g[i][k][d], 0., 1e-10 * m, "a fluid moving with the particle at " + pbt::str(x));
                }
            }
        auto after = hv::get2(sc.dm(), sc.h.p->sol);
        hv::same(c, after[0], u, 0, "the velocity after the interpolation");
        int any = c.nontrivial, all = 0;
        MPI_Allreduce(&any, &all, 1, MPI_INT, MPI_MAX, PETSC_COMM_WORLD);
        c.nontrivial = all;
    }
    PROPERTY("P26.2d", p26<2>);
    PROPERTY("P26.3d", p26<3>);

    // ---- P27 ------------------------------------------------------------------------------------
    template<std::size_t D>
    double measure(hv::ball<D> const &b)
    {
        return D == 2 ? 2 * M_PI * b.R : 4 * M_PI * b.R * b.R;
    }
    template<std::size_t D>
    bool on_wall(ref::grid<D> const &g, idx<D> const &i)
    {
        for (std::size_t d = 0; d < D; ++d)
            if (!g.per[d] && (i[d] == 0 || i[d] == g.nu[d] - 1))
                return true;
        return false;
    }
    // samples within rounding of the edge of the domain belong to it or not: such cases say nothing
    template<std::size_t D>
    std::vector<hv::samples<D>> clear_samples(Case &c, hv::setup<D> const &s, hv::scene<D> &sc, typename hv::dpart_of<D>::type const &dpart)
    {
        std::vector<hv::samples<D>> v;
        for (auto &p : sc.parts)
        {
            v.push_back(hv::all_samples<D>(s, p, dpart));
            if (!v.back().clear())
                throw pbt::skip_case();
        }
        return v;
    }

    template<std::size_t D>
    void p27(Case &c)
    {
        auto s = gen_grid<D>(c);
        auto balls = hv::gen_balls<D>(c, s, 2);
        auto dpart = hv::dpart_of<D>::gen(c);
        auto seed = c.seed();
        auto u = hv::gen_field(c, s.g.nodes_u() * D, "u");
        pbt::world w(s.np);
        if (!w.active)
            return;
        hv::scene<D> sc(s, balls, dpart, 4, false);
        auto all = clear_samples<D>(c, s, sc, dpart);
        double L = size_of<D>(s);
        auto g = sc.blank();
        for (std::size_t i = 0; i < g.size(); ++i)
            for (std::size_t k = 0; k < g[i].size(); ++k)
            {
                auto v = hv::wave<D>(seed + i, sc.position(i, k), L);
                for (std::size_t d = 0; d < D; ++d)
                    g[i][k][d] = v[d];
            }
        auto const &cg = g;
        VecSet(sc.h.p->rhs, 9.);
        c.petsc(problem::SL_to_Rhs(*sc.ctx, cg), "SL_to_Rhs");
        auto r = hv::get2(sc.dm(), sc.h.p->rhs);
        vec want(s.g.nodes_u() * D, 0.), zero(s.g.nodes_p(), 0.);
        hv::pt<D> total;
        total.fill(0.);
        double points = 0, weight = 0;
        for (std::size_t i = 0; i < balls.size(); ++i)
        {
            int n = all[i].count();
            for (std::size_t k = 0; k < all[i].x.size(); ++k)
                if (all[i].in[k] == 1)
                {
                    c.nontrivial = true;
                    ++points;
                    auto v = hv::wave<D>(seed + i, all[i].x[k], L);
                    double q = measure<D>(balls[i]) / n;
                    weight = std::max(weight, q);
                    hv::weights<D>(s.g, all[i].x[k], [&](std::size_t node, double b) {
                        for (std::size_t d = 0; d < D; ++d)
                            want[node * D + d] += q * b * v[d];
                    });
                    for (std::size_t d = 0; d < D; ++d)
                        total[d] += q * v[d];
                }
        }
        bool wall = false;
        ref::loop<D>(s.g.nu, [&](idx<D> const &i) {
            if (on_wall<D>(s.g, i))
                for (std::size_t d = 0; d < D; ++d)
                {
                    auto &v = want[ref::grid<D>::at(s.g.nu, i) * D + d];
                    wall |= v != 0;
                    v = 0;
                }
        });
        if (wall)
            c.label("reaches a wall");
        double t = 1e-11 * (1 + weight * points);
        hv::same(c, r[0], want, t, "velocity load");
        hv::same(c, r[1], zero, 0, "pressure load");
        if (!wall)
            for (std::size_t d = 0; d < D; ++d)
            {
                double sum = 0;
                for (std::size_t k = d; k < r[0].size(); k += D)
                    sum += r[0][k];
                c.close(sum, total[d], t * 10, "total force, component " + std::to_string(d));
            }
        // transpose of the interpolation: <u, S g> = sum gamma g . (I u)
        ref::loop<D>(s.g.nu, [&](idx<D> const &i) {
            if (on_wall<D>(s.g, i))
                for (std::size_t d = 0; d < D; ++d)
                    u[ref::grid<D>::at(s.g.nu, i) * D + d] = 0;
        });
        hv::put(sc.dm(), sc.h.p->sol, u, zero);
        auto iu = sc.blank();
        c.petsc(problem::interp_fluid_to_surf(*sc.ctx, iu, false, false), "interp_fluid_to_surf");
        double left = 0, right = 0, part = 0;
        for (std::size_t k = 0; k < u.size(); ++k)
            left += u[k] * r[0][k];
        for (std::size_t i = 0; i < g.size(); ++i)
            for (std::size_t k = 0; k < g[i].size(); ++k)
                for (std::size_t d = 0; d < D; ++d)
                    part += measure<D>(balls[i]) / all[i].count() * g[i][k][d] * iu[i][k][d];
        MPI_Allreduce(&part, &right, 1, MPI_DOUBLE, MPI_SUM, PETSC_COMM_WORLD);
        c.close(left, right, 1e-11 * (1 + weight * points), "spreading and interpolation are not transposes of each other");
    }
    PROPERTY("P27.2d", p27<2>);
    PROPERTY("P27.3d", p27<3>);

    // ---- P28 ------------------------------------------------------------------------------------
    template<std::size_t D>
    using cross_t = typename std::conditional<D == 2, double, geometry::vector<double, 3>>::type;
    template<std::size_t D>
    hv::mom<D> mom_of(cross_t<D> const &w)
    {
        return hv::to_mom(w, std::integral_constant<std::size_t, D>{});
    }
    inline void set_cross(double &c, hv::mom<2> const &q) { c = q[0]; }
    inline void set_cross(geometry::vector<double, 3> &c, hv::mom<3> const &q)
    {
        for (int d = 0; d < 3; ++d)
            c[d] = q[d];
    }
    template<std::size_t D>
    double surface_inertia(hv::ball<D> const &b)
    {
        return (D == 2 ? 1. : 1.5) / (b.R * b.R);
    }
    template<std::size_t D>
    double volume_inertia(hv::ball<D> const &b)
    {
        return (D == 2 ? 2. : 2.5) / (b.R * b.R);
    }

    template<std::size_t D>
    void p28_surface(Case &c)
    {
        auto s = gen_grid<D>(c);
        auto balls = hv::gen_balls<D>(c, s, c.flag(1, 3) ? 2 : 0);
        auto dpart = hv::dpart_of<D>::gen(c);
        auto seed = c.seed();
        int kind = c.integer(0, 2); // waves, rigid motion, waves plus rigid motion
        c.note("kind", kind);
        pbt::world w(s.np);
        if (!w.active)
            return;
        hv::scene<D> sc(s, balls, dpart, 4, false);
        auto all = clear_samples<D>(c, s, sc, dpart);
        double L = size_of<D>(s);
        auto value = [&](std::size_t i, hv::pt<D> const &x) {
            hv::pt<D> v, r;
            v.fill(0.);
            if (kind != 1)
                v = hv::wave<D>(seed + i, x, L);
            if (kind)
            {
                for (std::size_t d = 0; d < D; ++d)
                    r[d] = x[d] - balls[i].c[d];
                auto q = hv::rotation(balls[i].W, r);
                for (std::size_t d = 0; d < D; ++d)
                    v[d] += balls[i].V[d] + q[d];
            }
            return v;
        };
        auto g = sc.blank();
        for (std::size_t i = 0; i < g.size(); ++i)
            for (std::size_t k = 0; k < g[i].size(); ++k)
            {
                auto v = value(i, sc.position(i, k));
                for (std::size_t d = 0; d < D; ++d)
                    g[i][k][d] = v[d];
            }
        std::vector<geometry::vector<double, D>> mean(balls.size());
        std::vector<cross_t<D>> cross(balls.size());
        c.petsc(problem::simple_layer(*sc.ctx, g, mean, cross), "simple_layer");
        double m = 3 + 4 * L;
        for (std::size_t i = 0; i < balls.size(); ++i)
        {
            int n = all[i].count();
            if (!n)
                continue;
            c.nontrivial = true;
            bool whole = n == static_cast<int>(all[i].x.size());
            auto name = "particle " + std::to_string(i) + ": ";
            hv::pt<D> f;
            hv::mom<D> q;
            f.fill(0.);
            q.fill(0.);
            for (std::size_t k = 0; k < all[i].x.size(); ++k)
                if (all[i].in[k] == 1)
                {
                    auto v = value(i, all[i].x[k]);
                    hv::pt<D> r;
                    for (std::size_t d = 0; d < D; ++d)
                    {
                        r[d] = all[i].x[k][d] - balls[i].c[d];
                        f[d] += v[d] / n;
                    }
                    auto t = hv::moment(r, v);
                    for (std::size_t d = 0; d < t.size(); ++d)
                        q[d] += t[d] * surface_inertia<D>(balls[i]) / n;
                }
            auto got = mom_of<D>(cross[i]);
            double mr = m * (1 + 1 / balls[i].R);
            for (std::size_t d = 0; d < D; ++d)
                c.close(mean[i][d], f[d], 1e-11 * m, name + "mean, component " + std::to_string(d));
            for (std::size_t d = 0; d < q.size(); ++d)
                c.close(got[d], q[d], 1e-11 * mr, name + "moment, component " + std::to_string(d));
            // what is left
            for (std::size_t k = 0; k < g[i].size(); ++k)
            {
                auto x = sc.position(i, k);
                auto v = value(i, x);
                hv::pt<D> r;
                for (std::size_t d = 0; d < D; ++d)
                    r[d] = x[d] - balls[i].c[d];
                auto t = hv::rotation(q, r);
                for (std::size_t d = 0; d < D; ++d)
                    c.close(g[i][k][d], v[d] - f[d] - t[d], 1e-10 * m, name + "density without its rigid part at " + pbt::str(x));
                if (whole && kind == 1 && D == 2)
                    for (std::size_t d = 0; d < D; ++d)
                        c.close(g[i][k][d], 0., 1e-10 * m, name + "a rigid motion is removed entirely");
            }
            if (whole && kind == 1)
                for (std::size_t d = 0; d < D; ++d)
                    c.close(mean[i][d], balls[i].V[d], 1e-10 * m, name + "the mean of a rigid motion is its translation");
        }
        if (D == 2)
        { // a second removal does nothing on whole discs
            auto before = g;
            std::vector<geometry::vector<double, D>> mean2(balls.size());
            std::vector<cross_t<D>> cross2(balls.size());
            c.petsc(problem::simple_layer(*sc.ctx, g, mean2, cross2), "simple_layer");
            for (std::size_t i = 0; i < balls.size(); ++i)
                if (all[i].count() == static_cast<int>(all[i].x.size()))
                {
                    auto name = "particle " + std::to_string(i) + ", second removal: ";
                    for (std::size_t d = 0; d < D; ++d)
                        c.close(mean2[i][d], 0., 1e-10 * m, name + "mean");
                    c.close(mom_of<D>(cross2[i])[0], 0., 1e-10 * m * (1 + 1 / balls[i].R), name + "moment");
                    for (std::size_t k = 0; k < g[i].size(); ++k)
                        for (std::size_t d = 0; d < D; ++d)
                            c.close(g[i][k][d], before[i][k][d], 1e-10 * m, name + "density");
                }
        }
    }
    PROPERTY("P28.surface2", p28_surface<2>);
    PROPERTY("P28.surface3", p28_surface<3>);

    // order of the control values: particle by particle, node by node, component by component
    template<std::size_t D>
    std::vector<std::pair<std::size_t, idx<D>>> controls(hv::scene<D> &sc, hv::setup<D> const &s)
    {
        std::vector<std::pair<std::size_t, idx<D>>> v;
        auto box = fem::get_DM_bounds<D>(sc.dm(), 0);
        for (std::size_t i = 0; i < sc.parts.size(); ++i)
        {
            auto pbox = sc.parts[i].bounding_box(s.g.h);
            if (geometry::intersect(box, pbox))
                for (auto const &n : find_fluid_points_insides(sc.parts[i], geometry::overlap_box(box, pbox), s.g.h))
                {
                    idx<D> k;
                    for (std::size_t d = 0; d < D; ++d)
                        k[d] = n[d];
                    v.push_back({i, k});
                }
        }
        return v;
    }

    template<std::size_t D>
    void p28_volume(Case &c)
    {
        auto s = gen_grid<D>(c);
        auto balls = hv::gen_balls<D>(c, s, 2);
        auto dpart = hv::dpart_of<D>::gen(c);
        int scale = c.integer(1, 5), kind = c.integer(0, 1);
        auto u = hv::gen_field(c, s.g.nodes_u() * D, "u");
        c.note("scale", scale);
        if (kind)
        {
            c.label("rigid motion of the first particle");
            ref::loop<D>(s.g.nu, [&](idx<D> const &i) {
                hv::pt<D> r;
                for (std::size_t d = 0; d < D; ++d)
                    r[d] = i[d] * s.g.h[d] - balls[0].c[d];
                auto v = hv::rotation(balls[0].W, r);
                for (std::size_t d = 0; d < D; ++d)
                    u[ref::grid<D>::at(s.g.nu, i) * D + d] = balls[0].V[d] + v[d];
            });
        }
        // reference
        std::vector<hv::pt<D>> f(balls.size());
        std::vector<hv::mom<D>> q(balls.size());
        std::vector<int> count(balls.size(), 0);
        for (std::size_t i = 0; i < balls.size(); ++i)
        {
            f[i].fill(0.);
            q[i].fill(0.);
            idx<D> m;
            for (std::size_t d = 0; d < D; ++d)
                m[d] = s.g.cu[d] * scale;
            bool unclear = false;
            ref::loop<D>(m, [&](idx<D> const &k) {
                hv::pt<D> x, r;
                for (std::size_t d = 0; d < D; ++d)
                {
                    x[d] = k[d] * s.g.h[d] / scale;
                    r[d] = x[d] - balls[i].c[d];
                }
                int sd = hv::side<D>(balls[i], x);
                unclear |= sd == 0;
                if (sd < 0)
                {
                    ++count[i];
                    auto v = hv::interpolate<D>(s.g, u, x);
                    auto t = hv::moment(r, v);
                    for (std::size_t d = 0; d < D; ++d)
                        f[i][d] += v[d];
                    for (std::size_t d = 0; d < t.size(); ++d)
                        q[i][d] += t[d];
                }
            });
            if (unclear)
                throw pbt::skip_case();
            if (count[i])
            {
                c.nontrivial = true;
                for (auto &v : f[i])
                    v /= count[i];
                for (auto &v : q[i])
                    v /= count[i];
            }
        }
        pbt::world w(s.np);
        if (!w.active)
            return;
        hv::scene<D> sc(s, balls, dpart, scale, false);
        vec zero(s.g.nodes_p(), 0.);
        hv::put(sc.dm(), sc.h.p->sol, u, zero);
        std::vector<geometry::vector<double, D>> mean(balls.size());
        std::vector<cross_t<D>> cross(balls.size());
        c.petsc(problem::projection<D>(*sc.ctx, mean, cross), "projection");
        double L = size_of<D>(s), m = ref::maxabs(u) * (1 + L);
        for (std::size_t i = 0; i < balls.size(); ++i)
            if (count[i])
            {
                auto name = "particle " + std::to_string(i) + ": ";
                auto got = mom_of<D>(cross[i]);
                for (std::size_t d = 0; d < D; ++d)
                    c.close(mean[i][d], f[i][d], 1e-10 * m, name + "mean velocity, component " + std::to_string(d));
                for (std::size_t d = 0; d < got.size(); ++d)
                    c.close(got[d], q[i][d], 1e-10 * m, name + "mean moment, component " + std::to_string(d));
            }
        // residuals at the covered nodes
        auto list = controls<D>(sc, s);
        if (!c.check(list.size() == sc.nodes, "number of covered nodes"))
            return;
        for (int removed = 0; removed < 2; ++removed)
        {
            Vec y;
            VecCreateMPI(PETSC_COMM_WORLD, static_cast<PetscInt>(list.size() * D), PETSC_DETERMINE, &y);
            VecSet(y, 17.);
            // the averages are the reference's: the two steps are checked apart
            for (std::size_t i = 0; i < balls.size(); ++i)
            {
                for (std::size_t d = 0; d < D; ++d)
                    mean[i][d] = f[i][d];
                set_cross(cross[i], q[i]);
            }
            if (removed)
                c.petsc(problem::compute_y<D>(*sc.ctx, y, mean, cross), "compute_y");
            else
                c.petsc(problem::compute_y<D>(*sc.ctx, y), "compute_y");
            double const *py;
            VecGetArrayRead(y, &py);
            for (std::size_t k = 0; k < list.size(); ++k)
            {
                auto i = list[k].first;
                hv::pt<D> r;
                for (std::size_t d = 0; d < D; ++d)
                    r[d] = list[k].second[d] * s.g.h[d] - balls[i].c[d];
                auto t = hv::rotation(q[i], r);
                for (std::size_t d = 0; d < D; ++d)
                {
                    double want = u[ref::grid<D>::at(s.g.nu, list[k].second) * D + d];
                    if (removed)
                        want -= f[i][d] + volume_inertia<D>(balls[i]) * t[d];
                    c.close(py[k * D + d], want, 1e-10 * m * (1 + 1 / balls[i].R),
                            "residual at node " + pbt::str(list[k].second) + " component " + std::to_string(d));
                }
            }
            VecRestoreArrayRead(y, &py);
            VecDestroy(&y);
        }
        auto after = hv::get2(sc.dm(), sc.h.p->sol);
        hv::same(c, after[0], u, 0, "the velocity afterwards");
    }
    PROPERTY("P28.volume2", p28_volume<2>);
    PROPERTY("P28.volume3", p28_volume<3>);

    // ---- P29 ------------------------------------------------------------------------------------
    template<std::size_t D>
    void p29(Case &c)
    {
        auto s = gen_grid<D>(c);
        auto balls = hv::gen_balls<D>(c, s, 2, 3, true);
        auto dpart = hv::dpart_of<D>::gen(c);
        bool forces = c.flag(), data = c.flag(), rhs = c.flag(), whole = c.flag();
        auto seed = c.seed();
        c.note("forces", forces);
        c.note("data", data);
        c.note("whole problem", whole);
        c.note("compute_rhs", rhs);
        pbt::world w(s.np);
        if (!w.active)
            return;
        hv::scene<D> sc(s, balls, dpart, 4, data);
        auto list = controls<D>(sc, s);
        vec load(s.g.nodes_u() * D, 0.), r0(load.size()), p0(s.g.nodes_p()), zero(p0.size(), 0.);
        for (std::size_t k = 0; k < r0.size(); ++k)
            r0[k] = pbt::unit(seed, 3 * k);
        for (std::size_t k = 0; k < p0.size(); ++k)
            p0[k] = pbt::unit(seed, 3 * k + 1);
        auto control = [&](std::size_t i, idx<D> const &n, std::size_t d) {
            return pbt::unit(seed + 1 + i, ref::grid<D>::at(s.g.nu, n) * D + d);
        };
        Vec x;
        VecCreateMPI(PETSC_COMM_WORLD, static_cast<PetscInt>(list.size() * D), PETSC_DETERMINE, &x);
        double *px;
        VecGetArray(x, &px);
        for (std::size_t k = 0; k < list.size(); ++k)
            for (std::size_t d = 0; d < D; ++d)
                px[k * D + d] = control(list[k].first, list[k].second, d);
        VecRestoreArray(x, &px);
        // reference: which nodes are covered comes from the balls
        std::vector<int> count(balls.size(), 0);
        std::vector<hv::pt<D>> f(balls.size());
        std::vector<hv::mom<D>> q(balls.size());
        for (std::size_t i = 0; i < balls.size(); ++i)
        {
            f[i].fill(0.);
            q[i].fill(0.);
            bool unclear = false;
            ref::loop<D>(s.g.cu, [&](idx<D> const &n) {
                hv::pt<D> r;
                hv::pt<D> pos, v;
                for (std::size_t d = 0; d < D; ++d)
                {
                    pos[d] = n[d] * s.g.h[d];
                    r[d] = pos[d] - balls[i].c[d];
                }
                int sd = hv::side<D>(balls[i], pos);
                unclear |= sd == 0;
                if (sd < 0)
                {
                    ++count[i];
                    for (std::size_t d = 0; d < D; ++d)
                    {
                        v[d] = control(i, n, d);
                        f[i][d] += v[d];
                        load[ref::grid<D>::at(s.g.nu, n) * D + d] = v[d] + (forces ? balls[i].rho * balls[i].F[d] : 0.);
                    }
                    auto t = hv::moment(r, v);
                    for (std::size_t d = 0; d < t.size(); ++d)
                        q[i][d] += t[d];
                }
            });
            if (unclear)
            {
                VecDestroy(&x);
                throw pbt::skip_case();
            }
            if (count[i])
                c.nontrivial = true;
        }
        vec mload(load.size(), 0.);
        ref::apply<D>(form::mass, s.g.nu, s.g.cu, s.g.h, D, load, mload);
        auto &pb = *sc.h.p;
        double t = 1e-11 * (20 + ref::maxabs(mload));
        if (!whole)
        {
            hv::put(sc.dm(), pb.rhs, r0, p0);
            c.petsc((problem::set_rhs_problem<D>(*sc.ctx, x, forces)), "set_rhs_problem");
            auto r = hv::get2(sc.dm(), pb.rhs);
            vec want = r0;
            for (std::size_t k = 0; k < want.size(); ++k)
                want[k] += mload[k];
            hv::same(c, r[0], want, t, "velocity load");
            hv::same(c, r[1], p0, 0, "pressure load");
        }
        else
        {
            sc.ctx->compute_rhs = rhs;
            hv::put(sc.dm(), pb.rhs, r0, zero);
            if (rhs)
                c.petsc(pb.setup_RHS(), "setup_RHS");
            auto base = hv::get2(sc.dm(), pb.rhs);
            hv::put(sc.dm(), pb.rhs, r0, zero);
            c.petsc((problem::init_problem<D>(*sc.ctx, x, forces)), "init_problem");
            auto r = hv::get2(sc.dm(), pb.rhs);
            vec want = base[0];
            ref::loop<D>(s.g.nu, [&](idx<D> const &i) {
                for (std::size_t d = 0; d < D; ++d)
                {
                    auto k = ref::grid<D>::at(s.g.nu, i) * D + d;
                    if (!on_wall<D>(s.g, i))
                        want[k] += mload[k];
                    else if (!rhs)
                        want[k] = 0;
                    else
                        c.close(want[k], data ? hv::boundary_value(static_cast<int>(d), i[0] * s.g.h[0], i[1] * s.g.h[1]) : 0., 1e-12 * (1 + size_of<D>(s) * size_of<D>(s)),
                                "boundary value");
                }
            });
            hv::same(c, r[0], want, t, "velocity load of the whole problem");
        }
        // total force and torque of the control
        std::vector<geometry::vector<double, D>> force(balls.size());
        std::vector<cross_t<D>> torque(balls.size());
        auto box = fem::get_DM_bounds<D>(sc.dm(), 0);
        c.petsc(forces_torques_with_control(sc.parts, x, box, force, torque, sc.num, s.g.h, false), "forces_torques_with_control");
        for (std::size_t i = 0; i < balls.size(); ++i)
            if (count[i])
            {
                double volume = D == 2 ? M_PI * balls[i].R * balls[i].R : 4. / 3 * M_PI * balls[i].R * balls[i].R * balls[i].R;
                auto name = "particle " + std::to_string(i) + ": ";
                auto got = mom_of<D>(torque[i]);
                for (std::size_t d = 0; d < D; ++d)
                    c.close(force[i][d], volume * f[i][d] / count[i], 1e-11 * volume, name + "force, component " + std::to_string(d));
                for (std::size_t d = 0; d < got.size(); ++d)
                    c.close(got[d], volume * q[i][d] / count[i], 1e-11 * volume * (1 + balls[i].R), name + "torque, component " + std::to_string(d));
            }
        VecDestroy(&x);
    }
    PROPERTY("P29.2d", p29<2>);
    PROPERTY("P29.3d", p29<3>);
} // namespace

PBT_MAIN
