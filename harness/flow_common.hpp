// Boundary data and body forces of two-dimensional flows (needs common.hpp before).
#pragma once
#include <functional>
namespace hv
{
    namespace flow
    {
    using point_fn = std::function<double(int, double, double)>; // component, x, y

    // data of the current problem, reached through plain function pointers
    static point_fn cur_bc, cur_force;
    template<int C>
    inline void bc_fn(const PetscReal *x, PetscScalar *u)
    {
        *u = cur_bc(C, x[0], x[1]);
    }
    template<int C>
    inline void force_fn(const PetscReal *x, PetscScalar *u)
    {
        *u = cur_force(C, x[0], x[1]);
    }

    // boundary data whose discrete flux vanishes
    inline point_fn gen_bc(Case &c, setup<2> const &s)
    {
        auto L = s.L;
        bool closed = !s.g.per[0] && !s.g.per[1];
        int kind = c.integer(0, 3);
        c.note("bc", kind);
        if (kind == 0) // at rest, or a moving lid
        {
            double v = c.real(-1, 1);
            c.note("lid", v);
            return [=](int d, double, double y) { return d == 0 && y > (1 - 1e-9) * L[1] ? v : 0.; };
        }
        auto k = c.seed();
        auto r = [k](int j) { return pbt::unit(k, j); };
        if (kind == 1) // constant or linear
        {
            double al = closed ? r(0) : 0.;
            return [=](int d, double x, double y) { return d == 0 ? r(1) + al * x + r(2) * y : r(3) + r(4) * x - al * y; };
        }
        if (kind == 2) // shared profiles
            return [=](int d, double x, double y) {
                return d == 0 ? r(1) + r(2) * y * y + std::sin(3 * r(3) * y) : r(4) + r(5) * x * x + std::cos(3 * r(6) * x);
            };
        return [=](int d, double x, double y) { // and tangential bubbles
            return d == 0 ? r(1) + r(2) * y * y + x * (L[0] - x) * (r(3) + r(4) * x + r(7) * y)
                          : r(4) + r(5) * x * x + y * (L[1] - y) * (r(5) + r(6) * y + r(8) * x);
        };
    }
    inline point_fn gen_force(Case &c)
    {
        int kind = c.integer(0, 2);
        c.note("force", kind);
        if (kind == 0)
            return {};
        auto k = c.seed();
        auto r = [k](int j) { return pbt::unit(k, 20 + j); };
        if (kind == 1)
            return [=](int d, double, double) { return 5 * r(d); };
        return [=](int d, double x, double y) { return 5 * r(d) + 9 * std::sin(4 * r(2 + d) * x + 3 * r(4 + d) * y + 1); };
    }
    } // namespace flow
} // namespace hv
