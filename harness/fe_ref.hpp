// Independent reference for the discretisation: tensor-product Q1 velocity on a grid of spacing h,
// Q1 pressure on the doubled grid; natural ordering (x fastest), fields are plain arrays of
// nodes*dof doubles.  Everything is integrated with a 3-point Gauss rule per direction and per
// velocity cell; nothing is taken from /repo.
#pragma once
#include "../engine/pbt.hpp"

namespace ref
{
    using vec = std::vector<double>;
    template<std::size_t D>
    using idx = std::array<int, D>;

    template<std::size_t D>
    struct grid
    {
        std::array<int, D> n;        // requested pressure points per direction
        std::array<bool, D> per;     // periodic?
        std::array<double, D> h;     // velocity spacing
        std::array<int, D> nu, np;   // velocity / pressure nodes
        std::array<int, D> cu, cp;   // velocity / pressure cells
        void finish()
        {
            for (std::size_t d = 0; d < D; ++d)
            {
                cp[d] = n[d] - 1;
                cu[d] = 2 * cp[d];
                nu[d] = per[d] ? cu[d] : cu[d] + 1;
                np[d] = per[d] ? cp[d] : cp[d] + 1;
            }
        }
        std::size_t nodes_u() const { return count(nu); }
        std::size_t nodes_p() const { return count(np); }
        static std::size_t count(idx<D> const &m)
        {
            std::size_t c = 1;
            for (auto v : m)
                c *= v;
            return c;
        }
        // natural index of (wrapped) node
        static std::size_t at(idx<D> const &m, idx<D> i)
        {
            std::size_t k = 0;
            for (int d = D - 1; d >= 0; --d)
            {
                int j = ((i[d] % m[d]) + m[d]) % m[d];
                k = k * m[d] + j;
            }
            return k;
        }
    };

    // calls f(index) for all index in [0, m)
    template<std::size_t D, class F>
    void loop(idx<D> const &m, F &&f)
    {
        for (auto v : m)
            if (v <= 0)
                return;
        idx<D> i;
        i.fill(0);
        for (;;)
        {
            f(i);
            std::size_t d = 0;
            while (d < D && ++i[d] == m[d])
                i[d++] = 0;
            if (d == D)
                return;
        }
    }
    template<std::size_t D>
    idx<D> cube(int v)
    {
        idx<D> m;
        m.fill(v);
        return m;
    }

    static double const gx[3] = {0.5 - 0.5 * 0.77459666924148337704, 0.5, 0.5 + 0.5 * 0.77459666924148337704};
    static double const gw[3] = {5. / 18, 8. / 18, 5. / 18};

    inline double hat(int a, double x) { return a ? x : 1 - x; }
    inline double dhat(int a) { return a ? 1. : -1.; }

    // shape function a (in {0,1}^D) of a cell of size h at local unit coordinates x
    template<std::size_t D>
    double phi(idx<D> const &a, std::array<double, D> const &x)
    {
        double v = 1;
        for (std::size_t d = 0; d < D; ++d)
            v *= hat(a[d], x[d]);
        return v;
    }
    template<std::size_t D>
    double dphi(idx<D> const &a, std::array<double, D> const &x, std::size_t k, std::array<double, D> const &h)
    {
        double v = 1;
        for (std::size_t d = 0; d < D; ++d)
            v *= d == k ? dhat(a[d]) / h[d] : hat(a[d], x[d]);
        return v;
    }

    // f(unit coordinates, weight) over a cell of size h
    template<std::size_t D, class F>
    void quad(std::array<double, D> const &h, F &&f)
    {
        loop<D>(cube<D>(3), [&](idx<D> const &q) {
            std::array<double, D> x;
            double w = 1;
            for (std::size_t d = 0; d < D; ++d)
            {
                x[d] = gx[q[d]];
                w *= gw[q[d]] * h[d];
            }
            f(x, w);
        });
    }

    template<std::size_t D>
    constexpr int corners()
    {
        return 1 << D;
    }
    template<std::size_t D>
    idx<D> corner(int k)
    {
        idx<D> a;
        for (std::size_t d = 0; d < D; ++d)
            a[d] = (k >> d) & 1;
        return a;
    }

    enum class form
    {
        laplacian,
        mass,
        strain
    };

    // element matrix e[k][i][l][j] : test (k,i), trial (l,j)
    template<std::size_t D>
    struct element
    {
        double m[1 << D][D][1 << D][D];
    };
    template<std::size_t D>
    element<D> element_matrix(form f, std::array<double, D> const &h)
    {
        element<D> e;
        std::memset(&e, 0, sizeof e);
        quad<D>(h, [&](std::array<double, D> const &x, double w) {
            for (int k = 0; k < corners<D>(); ++k)
                for (int l = 0; l < corners<D>(); ++l)
                {
                    auto a = corner<D>(k), b = corner<D>(l);
                    if (f == form::mass)
                    {
                        double v = w * phi<D>(a, x) * phi<D>(b, x);
                        for (std::size_t i = 0; i < D; ++i)
                            e.m[k][i][l][i] += v;
                        continue;
                    }
                    double ga[D], gb[D], dot = 0;
                    for (std::size_t d = 0; d < D; ++d)
                    {
                        ga[d] = dphi<D>(a, x, d, h);
                        gb[d] = dphi<D>(b, x, d, h);
                        dot += ga[d] * gb[d];
                    }
                    for (std::size_t i = 0; i < D; ++i)
                    {
                        e.m[k][i][l][i] += w * dot;
                        if (f == form::strain)
                            for (std::size_t j = 0; j < D; ++j)
                                e.m[k][i][l][j] += w * ga[j] * gb[i]; // (d_i u_j) (d_j v_i)
                    }
                }
        });
        return e;
    }

    // y += form(u, .) on nodes m (cells c), dof components
    template<std::size_t D>
    void apply(form f, idx<D> const &m, idx<D> const &c, std::array<double, D> const &h, int dof, vec const &u, vec &y)
    {
        auto e = element_matrix<D>(f, h);
        loop<D>(c, [&](idx<D> const &cell) {
            std::size_t node[1 << D];
            for (int k = 0; k < corners<D>(); ++k)
            {
                auto a = corner<D>(k);
                for (std::size_t d = 0; d < D; ++d)
                    a[d] += cell[d];
                node[k] = grid<D>::at(m, a);
            }
            for (int k = 0; k < corners<D>(); ++k)
                for (int l = 0; l < corners<D>(); ++l)
                    if (f == form::strain)
                    {
                        for (int i = 0; i < dof; ++i)
                            for (int j = 0; j < dof; ++j)
                                y[node[k] * dof + i] += e.m[k][i][l][j] * u[node[l] * dof + j];
                    }
                    else
                        for (int i = 0; i < dof; ++i)
                            y[node[k] * dof + i] += e.m[k][0][l][0] * u[node[l] * dof + i];
        });
    }

    // yp += (q, div u), yu -= (p, div v)
    template<std::size_t D>
    void div_grad(grid<D> const &g, vec const &u, vec const &p, vec &yu, vec &yp)
    {
        std::array<double, D> hp = g.h;
        for (auto &v : hp)
            v *= 2;
        // b[s][k][d][l] for subcell s of a pressure cell: int psi_l d_d phi_k
        static double b[1 << D][1 << D][D][1 << D];
        std::memset(b, 0, sizeof b);
        for (int s = 0; s < corners<D>(); ++s)
            quad<D>(g.h, [&](std::array<double, D> const &x, double w) {
                auto o = corner<D>(s);
                std::array<double, D> xp;
                for (std::size_t d = 0; d < D; ++d)
                    xp[d] = 0.5 * (o[d] + x[d]);
                for (int k = 0; k < corners<D>(); ++k)
                    for (std::size_t d = 0; d < D; ++d)
                        for (int l = 0; l < corners<D>(); ++l)
                            b[s][k][d][l] += w * phi<D>(corner<D>(l), xp) * dphi<D>(corner<D>(k), x, d, g.h);
            });
        loop<D>(g.cp, [&](idx<D> const &cell) {
            std::size_t pn[1 << D];
            for (int l = 0; l < corners<D>(); ++l)
            {
                auto a = corner<D>(l);
                for (std::size_t d = 0; d < D; ++d)
                    a[d] += cell[d];
                pn[l] = grid<D>::at(g.np, a);
            }
            for (int s = 0; s < corners<D>(); ++s)
                for (int k = 0; k < corners<D>(); ++k)
                {
                    auto o = corner<D>(s), a = corner<D>(k);
                    for (std::size_t d = 0; d < D; ++d)
                        a[d] += o[d] + 2 * cell[d];
                    std::size_t un = grid<D>::at(g.nu, a);
                    for (std::size_t d = 0; d < D; ++d)
                        for (int l = 0; l < corners<D>(); ++l)
                        {
                            yp[pn[l]] += b[s][k][d][l] * u[un * D + d];
                            yu[un * D + d] -= b[s][k][d][l] * p[pn[l]];
                        }
                }
        });
    }

    inline double maxabs(vec const &v)
    {
        double m = 0;
        for (auto x : v)
            m = std::max(m, std::abs(x));
        return m;
    }
} // namespace ref
