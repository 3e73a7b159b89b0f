// Boundary data and body forces of three-dimensional flows (needs common.hpp before).
#pragma once
#include <functional>
namespace hv
{
    namespace flow3
    {
    using pos_t = std::array<double, 3>;
    using point_fn = std::function<double(int, pos_t const &)>; // component, position

    // data of the current problem, reached through plain function pointers
    static point_fn cur_bc, cur_force;
    template<int C>
    inline void bc_fn(const PetscReal *x, PetscScalar *u)
    {
        *u = cur_bc(C, {{x[0], x[1], x[2]}});
    }
    template<int C>
    inline void force_fn(const PetscReal *x, PetscScalar *u)
    {
        *u = cur_force(C, {{x[0], x[1], x[2]}});
    }

    // boundary data whose discrete flux vanishes
    inline point_fn gen_bc(Case &c, setup<3> const &s)
    {
        auto L = s.L;
        bool closed = !s.g.per[0] && !s.g.per[1] && !s.g.per[2];
        int kind = c.integer(0, 3);
        c.note("bc", kind);
        if (kind == 0) // at rest, or a moving lid
        {
            double v = c.real(-1, 1);
            int face = c.integer(0, 2), along = (face + c.integer(1, 2)) % 3;
            c.note("lid", v);
            return [=](int d, pos_t const &x) { return d == along && x[face] > (1 - 1e-9) * L[face] ? v : 0.; };
        }
        auto k = c.seed();
        auto r = [k](int j) { return pbt::unit(k, j); };
        if (kind == 1) // constant or linear
        {
            double a = closed ? r(0) : 0., b = closed ? r(1) : 0.;
            return [=](int d, pos_t const &x) {
                double v = r(2 + d) + (d == 0 ? a : d == 1 ? b : -a - b) * x[d];
                for (int e = 0; e < 3; ++e)
                    if (e != d)
                        v += r(5 + 3 * d + e) * x[e];
                return v;
            };
        }
        return [=](int d, pos_t const &x) { // profiles shared by opposite faces, and tangential bubbles
            int e = (d + 1) % 3, f = (d + 2) % 3;
            double v = r(2 + d) + r(5 + d) * x[e] * x[e] + std::sin(3 * r(8 + d) * x[f]) + r(11 + d) * x[e] * x[f];
            if (kind == 3)
                v += x[d] * (L[d] - x[d]) * (r(14 + d) + r(17 + d) * x[e] + r(20 + d) * x[d] + r(23 + d) * x[f]);
            return v;
        };
    }
    inline point_fn gen_force(Case &c)
    {
        int kind = c.integer(0, 2);
        c.note("force", kind);
        if (kind == 0)
            return {};
        auto k = c.seed();
        auto r = [k](int j) { return pbt::unit(k, 40 + j); };
        if (kind == 1)
            return [=](int d, pos_t const &) { return 5 * r(d); };
        return [=](int d, pos_t const &x) {
            return 5 * r(d) + 9 * std::sin(4 * r(3 + d) * x[0] + 3 * r(6 + d) * x[1] + 4 * r(9 + d) * x[2] + 1);
        };
    }
    // which components of which sides have data
    using sides_t = std::array<std::array<bool, 3>, 6>;
    inline sides_t all_sides()
    {
        sides_t r;
        for (auto &s : r)
            s.fill(true);
        return r;
    }
    inline bool prescribed(ref::grid<3> const &g, sides_t const &data, idx<3> const &i, int comp)
    {
        for (int d = 0; d < 3; ++d)
            if (!g.per[d] && ((i[d] == 0 && data[2 * d][comp]) || (i[d] == g.nu[d] - 1 && data[2 * d + 1][comp])))
                return true;
        return false;
    }
    inline cafes::fem::dirichlet_conditions<3> conditions(ref::grid<3> const &g, sides_t const &data = all_sides())
    {
        using side = std::array<cafes::condition_fn, 3>;
        side all{{bc_fn<0>, bc_fn<1>, bc_fn<2>}};
        auto at = [&](int k) {
            side r{{nullptr, nullptr, nullptr}};
            for (int d = 0; d < 3; ++d)
                if (!g.per[k / 2] && data[k][d])
                    r[d] = all[d];
            return r;
        };
        return cafes::make_bc<3>({at(0), at(1), at(2), at(3), at(4), at(5)});
    }
    inline cafes::fem::rhs_conditions<3> body(point_fn const &f)
    {
        if (f)
            return cafes::make_rhs<3>({{force_fn<0>, force_fn<1>, force_fn<2>}});
        return cafes::make_rhs<3>({{nullptr, nullptr, nullptr}});
    }
    // a grid with at least one direction closed by walls
    inline setup<3> gen_grid(Case &c, int min, int max)
    {
        auto s = gen_setup<3>(c, max, true, min);
        if (s.g.per[0] && s.g.per[1] && s.g.per[2])
        {
            int d = c.integer(0, 2);
            s.g.per[d] = false;
            s.g.finish();
            c.note("closed", d);
            while (!splits<3>(s.g, s.np))
                --s.np;
        }
        return s;
    }
    inline bool on_wall(ref::grid<3> const &g, idx<3> const &i)
    {
        for (int d = 0; d < 3; ++d)
            if (!g.per[d] && (i[d] == 0 || i[d] == g.nu[d] - 1))
                return true;
        return false;
    }
    inline pos_t position(ref::grid<3> const &g, idx<3> const &i) { return {{i[0] * g.h[0], i[1] * g.h[1], i[2] * g.h[2]}}; }
    // levels of the multigrid option, and whether the grid can be split into them
    inline int mg_levels(ref::grid<3> const &g)
    {
        int i = std::min(g.nu[0], std::min(g.nu[1], g.nu[2])), l = 1;
        for (; i > 8; i >>= 1)
            ++l;
        return l;
    }
    inline bool hierarchy_ok(ref::grid<3> const &g)
    {
        int l = mg_levels(g) - 1;
        for (int d = 0; d < 3; ++d)
            if (g.cu[d] % (1 << l) || g.cu[d] >> l < 2)
                return false;
        return true;
    }
    } // namespace flow3
} // namespace hv
