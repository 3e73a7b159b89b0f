// P09 element helpers, P10 field accessors
#include <cafes.hpp>
#include "common.hpp"
using namespace cafes;
using pbt::Case;
using ref::idx;
using ref::vec;

namespace
{
    template<std::size_t D>
    geometry::position<int, D> ipos(idx<D> const &i)
    {
        geometry::position<int, D> p;
        for (std::size_t d = 0; d < D; ++d)
            p[d] = i[d];
        return p;
    }

    // ---------------------------------------------------------------- P09
    template<std::size_t D>
    void p09_weights(Case &c)
    {
        std::array<double, D> h, t;
        geometry::position<double, D> x;
        for (std::size_t d = 0; d < D; ++d)
        {
            h[d] = c.real_near(1., 0.001, 4);
            t[d] = c.pick({0., 1., 0.5, -1.});
            if (t[d] < 0)
                t[d] = c.real(0, 1);
            x[d] = t[d] * h[d];
        }
        c.note("h", h);
        c.note("x/h", t);
        // a multilinear function sum over subsets of directions
        double a[1 << D];
        auto k = c.seed();
        for (int s = 0; s < (1 << D); ++s)
            a[s] = pbt::unit(k, s);
        auto f = [&](std::array<double, D> const &y) {
            double v = 0;
            for (int s = 0; s < (1 << D); ++s)
            {
                double m = a[s];
                for (std::size_t d = 0; d < D; ++d)
                    if (s >> d & 1)
                        m *= y[d] / h[d];
                v += m;
            }
            return v;
        };
        c.nontrivial = true;
        auto w = fem::P1_integration(x, h);
        auto g = fem::P1_integration_grad(x, h);
        auto el = fem::get_element(ipos<D>(idx<D>{}));
        c.check(w.size() == (1u << D) && g.size() == w.size() && el.size() == w.size(), "number of weights");
        double sum = 0, val = 0, vol = 1;
        std::array<double, D> grad{}, gs{};
        for (auto v : h)
            vol *= v;
        for (std::size_t n = 0; n < w.size(); ++n)
        {
            std::array<double, D> y;
            for (std::size_t d = 0; d < D; ++d)
                y[d] = el[n][d] * h[d];
            sum += w[n];
            val += w[n] * f(y);
            c.check(w[n] >= -1e-14 && w[n] <= 1 + 1e-14, "weight outside [0, 1]");
            for (std::size_t d = 0; d < D; ++d)
            {
                gs[d] += g[n][d];
                grad[d] += g[n][d] / vol * f(y);
            }
        }
        std::array<double, D> xa;
        for (std::size_t d = 0; d < D; ++d)
            xa[d] = x[d];
        c.close(sum, 1., 1e-13, "sum of the weights");
        c.close(val, f(xa), 1e-12, "interpolated multilinear function");
        for (std::size_t d = 0; d < D; ++d)
        {
            double exact = 0;
            for (int s = 0; s < (1 << D); ++s)
                if (s >> d & 1)
                {
                    double m = a[s] / h[d];
                    for (std::size_t e = 0; e < D; ++e)
                        if (e != d && (s >> e & 1))
                            m *= xa[e] / h[e];
                    exact += m;
                }
            c.close(gs[d] / vol, 0., 1e-12 / h[d], "sum of the gradients");
            c.close(grad[d], exact, 1e-11 / h[d], "gradient of the interpolated function in direction " + std::to_string(d));
        }
    }
    PROPERTY("P09.weights2", p09_weights<2>);
    PROPERTY("P09.weights3", p09_weights<3>);

    // node lists: corner k of the cell is at offset (k&1, k>>1&1, ...), sub-cell nodes x fastest
    template<std::size_t D>
    void lists(Case &c, idx<D> const &i)
    {
        auto e = fem::get_element(ipos<D>(i));
        for (std::size_t k = 0; k < e.size(); ++k)
        {
            auto a = ref::corner<D>(k);
            for (std::size_t d = 0; d < D; ++d)
                c.check(e[k][d] == i[d] + a[d], "corner " + std::to_string(k) + " of cell " + pbt::str(i) + " is " + pbt::str(e[k]));
        }
        auto q = fem::get_element_4Q1(ipos<D>(i));
        std::size_t k = 0;
        c.check(q.size() == (D == 2 ? 9u : 27u), "number of sub-cell nodes");
        ref::loop<D>(ref::cube<D>(3), [&](idx<D> const &a) {
            for (std::size_t d = 0; d < D; ++d)
                c.check(q[k][d] == 2 * i[d] + a[d], "sub-cell node " + std::to_string(k) + " of cell " + pbt::str(i) + " is " + pbt::str(q[k]));
            ++k;
        });
    }
    void p09_lists(Case &c)
    {
        idx<2> i2;
        idx<3> i3;
        for (auto &v : i2)
            v = c.integer(0, 60) - c.integer(0, 3);
        for (auto &v : i3)
            v = c.integer(0, 60) - c.integer(0, 3);
        c.note("cell2", i2);
        c.note("cell3", i3);
        c.nontrivial = true;
        lists<2>(c, i2);
        lists<3>(c, i3);
    }
    PROPERTY("P09.lists", p09_lists);

    // local matrix indices, checked through PETSc's own map from local to global numbers
    void p09_indices(Case &c)
    {
        auto s = hv::gen_setup<2>(c, hv::most(c, 9, 30));
        c.nontrivial = true;
        pbt::world w(s.np);
        if (!w.active)
            return;
        DM dm;
        hv::createMesh(dm, s.g);
        auto e = hv::entries(dm);
        for (int k = 0; k < 2; ++k)
        {
            DM da = e[k];
            DMDALocalInfo info;
            DMDAGetLocalInfo(da, &info);
            auto const &m = k ? s.g.np : s.g.nu;
            // natural numbers of the nodes, read through the local vector
            Vec g, l;
            DMCreateGlobalVector(da, &g);
            DMCreateLocalVector(da, &l);
            vec nat(ref::grid<2>::count(m) * info.dof);
            for (std::size_t i = 0; i < nat.size(); ++i)
                nat[i] = i;
            hv::put(da, g, nat);
            DMGlobalToLocal(da, g, INSERT_VALUES, l);
            double const *p;
            VecGetArrayRead(l, &p);
            int size;
            VecGetLocalSize(l, &size);
            auto is = [&](int index, idx<2> const &node, int dof, char const *what) {
                double want = static_cast<double>(ref::grid<2>::at(m, node) * info.dof + dof);
                if (!c.check(index >= 0 && index < size, std::string(what) + ": index out of the local vector"))
                    return;
                c.check(p[index] == want, std::string(what) + ": node " + pbt::str(node) + " component " + std::to_string(dof) + " maps to entry " +
                                              pbt::num(p[index]) + " instead of " + pbt::num(want));
            };
            auto box = fem::get_DM_bounds<2>(da);
            algorithm::iterate(box, [&](auto const &pos) {
                geometry::position<int, 2> q{pos[0], pos[1]};
                idx<2> i{{pos[0], pos[1]}};
                for (int d = 0; d < info.dof; ++d)
                {
                    auto ind = fem::get_indices(info, q, d);
                    for (int n = 0; n < 4; ++n)
                        is(ind[n], idx<2>{{i[0] + (n & 1), i[1] + (n >> 1)}}, d, "get_indices");
                }
                if (info.dof == 2)
                {
                    auto ind = fem::get_indices_tensor(info, q);
                    for (int n = 0; n < 8; ++n)
                        is(ind[n], idx<2>{{i[0] + (n & 1), i[1] + (n >> 1 & 1)}}, n >> 2, "get_indices_tensor");
                }
            });
            if (k == 0)
            {
                auto boxp = fem::get_DM_bounds<2>(e[1]);
                algorithm::iterate(boxp, [&](auto const &pos) {
                    geometry::position<int, 2> q{pos[0], pos[1]};
                    auto ind = fem::get_indices_4Q1(info, q);
                    for (int n = 0; n < 18; ++n)
                        is(ind[n], idx<2>{{2 * pos[0] + n % 9 % 3, 2 * pos[1] + n % 9 / 3}}, n / 9, "get_indices_4Q1");
                });
            }
            VecRestoreArrayRead(l, &p);
            VecDestroy(&g);
            VecDestroy(&l);
        }
        DMDestroy(&dm);
    }
    PROPERTY("P09.indices", p09_indices);

    // ---------------------------------------------------------------- P10
    // the model: the global field G in natural order and, per process, its local (ghosted) field
    template<std::size_t D>
    struct model
    {
        DMDALocalInfo i;
        vec G, L;
        std::vector<char> known; // local values are undefined until they are set
        MPI_Comm comm;
        std::array<int, 3> gs, gm, m;
        double size = 1; // the largest number added so far: sums round in any order
        explicit model(DM da)
        {
            DMDAGetLocalInfo(da, &i);
            gs = {{i.gxs, i.gys, i.gzs}};
            gm = {{i.gxm, i.gym, i.gzm}};
            m = {{i.mx, i.my, i.mz}};
            G.assign(static_cast<std::size_t>(i.mx) * i.my * i.mz * i.dof, 0.);
            L.assign(static_cast<std::size_t>(i.gxm) * i.gym * i.gzm * i.dof, 0.);
            known.assign(L.size(), 0);
            PetscObjectGetComm((PetscObject)da, &comm);
        }
        std::size_t local(std::array<int, 3> const &a, int d) const
        {
            return ((static_cast<std::size_t>(a[2] - gs[2]) * gm[1] + (a[1] - gs[1])) * gm[0] + (a[0] - gs[0])) * i.dof + d;
        }
        std::size_t global(std::array<int, 3> const &a, int d) const
        {
            std::size_t k = 0;
            for (int j = 2; j >= 0; --j)
                k = k * m[j] + ((a[j] % m[j]) + m[j]) % m[j];
            return k * i.dof + d;
        }
        template<class F>
        void ghosted(F &&f) const
        {
            std::array<int, 3> a;
            for (a[2] = gs[2]; a[2] < gs[2] + gm[2]; ++a[2])
                for (a[1] = gs[1]; a[1] < gs[1] + gm[1]; ++a[1])
                    for (a[0] = gs[0]; a[0] < gs[0] + gm[0]; ++a[0])
                        for (int d = 0; d < i.dof; ++d)
                            f(a, d);
        }
        template<class F>
        void owned(F &&f) const
        {
            std::array<int, 3> a;
            for (a[2] = i.zs; a[2] < i.zs + i.zm; ++a[2])
                for (a[1] = i.ys; a[1] < i.ys + i.ym; ++a[1])
                    for (a[0] = i.xs; a[0] < i.xs + i.xm; ++a[0])
                        for (int d = 0; d < i.dof; ++d)
                            f(a, d);
        }
        void merge(vec const &mine, bool add)
        {
            vec all(mine.size());
            MPI_Allreduce(mine.data(), all.data(), static_cast<int>(all.size()), MPI_DOUBLE, MPI_SUM, comm);
            for (std::size_t k = 0; k < G.size(); ++k)
            {
                G[k] = add ? G[k] + all[k] : all[k];
                size = std::max(size, std::abs(G[k]));
            }
            double big = 0, all_big = 0;
            for (auto x : mine)
                big = std::max(big, std::abs(x));
            MPI_Allreduce(&big, &all_big, 1, MPI_DOUBLE, MPI_MAX, comm);
            size = std::max(size, all_big);
        }
    };
    template<std::size_t D>
    geometry::position<int, D> pos_of(std::array<int, 3> const &a)
    {
        geometry::position<int, D> p;
        for (std::size_t d = 0; d < D; ++d)
            p[d] = a[d];
        return p;
    }
    template<std::size_t D>
    std::array<int, D> arr_of(std::array<int, 3> const &a)
    {
        std::array<int, D> p;
        for (std::size_t d = 0; d < D; ++d)
            p[d] = a[d];
        return p;
    }

    template<std::size_t D>
    void p10(Case &c)
    {
        auto s = hv::gen_setup<D>(c, hv::most(c, D == 2 ? 7 : 4, D == 2 ? 24 : 7));
        int kind = c.integer(0, 2); // composite entry 0, composite entry 1, plain mesh
        int entry = kind == 2 ? c.integer(0, 1) : kind;
        static char const *kinds[] = {"velocity of a composite", "pressure of a composite", "plain mesh"};
        c.note("field", kinds[kind]);
        c.label(kinds[kind]);
        struct op
        {
            int what, node;
            std::uint64_t seed;
            double value;
        };
        struct session
        {
            bool readonly;
            std::vector<op> ops;
        };
        std::vector<session> ss;
        static char const *names[] = {"refresh", "read local", "read global", "write local", "write global", "push add", "push insert", "fill", "fill global"};
        std::string text;
        int n = c.integer(1, 3), count = 0;
        for (int k = 0; k < n; ++k)
        {
            session q;
            q.readonly = c.flag(1, 4);
            text += q.readonly ? "[ro:" : "[";
            int m = c.integer(1, 6);
            for (int j = 0; j < m; ++j)
            {
                op o;
                o.what = c.integer(0, q.readonly ? 2 : 8);
                o.seed = c.seed();
                o.value = static_cast<double>(c.integer(-4, 4)) / 2;
                text += std::string(j ? ", " : " ") + names[o.what];
                if (o.what >= 7)
                    text += " " + pbt::num(o.value);
                q.ops.push_back(o);
                ++count;
            }
            text += "] ";
            ss.push_back(q);
        }
        vec start[2] = {hv::gen_field(c, s.g.nodes_u() * D, "u"), hv::gen_field(c, s.g.nodes_p(), "p")};
        c.note("history", text);
        c.nontrivial = count >= 3;
        c.label(std::to_string(n) + " accessors");
        pbt::world w(s.np);
        if (!w.active)
            return;
        DM dm;
        hv::createMesh(dm, s.g);
        auto e = hv::entries(dm);
        DM da = e[entry], used = kind == 2 ? da : dm;
        Vec v;
        DMCreateGlobalVector(used, &v);
        if (kind == 2)
            hv::put(da, v, start[entry]);
        else
            hv::put(dm, v, start[0], start[1]);
        model<D> M(da);
        M.G = start[entry];
        bool any_per = false;
        for (auto b : s.g.per)
            any_per |= b;
        auto all_known = [&] {
            int ok = 1, r;
            for (auto k : M.known)
                ok &= k;
            MPI_Allreduce(&ok, &r, 1, MPI_INT, MPI_MIN, M.comm);
            return r;
        };
        for (auto const &q : ss)
        {
            petsc::petsc_vec<D> x(used, v, entry, q.readonly);
            petsc::petsc_vec<D> const &cx = x;
            std::fill(M.known.begin(), M.known.end(), 0);
            if (!c.check(x.dof_ == M.i.dof, "components per node"))
                break;
            for (auto const &o : q.ops)
            {
                auto rnd = [&](std::array<int, 3> const &a, int d) {
                    return pbt::unit(o.seed + 7919 * static_cast<std::uint64_t>(pbt::world_rank()), ((a[2] + 9) * 100 + a[1] + 9) * 100 + (a[0] + 9) * 8 + d);
                };
                auto chosen = [&](std::array<int, 3> const &a) { return rnd(a, 7) < (o.seed % 2 ? 0.8 : -0.7); };
                switch (o.what)
                {
                case 0:
                    c.petsc(x.global_to_local(INSERT_VALUES), "global_to_local");
                    M.ghosted([&](std::array<int, 3> const &a, int d) {
                        M.L[M.local(a, d)] = M.G[M.global(a, d)];
                        M.known[M.local(a, d)] = 1;
                    });
                    break;
                case 1:
                    M.ghosted([&](std::array<int, 3> const &a, int d) {
                        if (!M.known[M.local(a, d)])
                            return;
                        double want = M.L[M.local(a, d)];
                        double const *p[4] = {x.at(pos_of<D>(a)), x.at(arr_of<D>(a)), cx.at(pos_of<D>(a)), cx.at(arr_of<D>(a))};
                        for (auto k : p)
                            c.close(k[d], want, 1e-13 * M.size, "local value at " + pbt::str(a) + " component " + std::to_string(d));
                    });
                    break;
                case 2:
                    M.owned([&](std::array<int, 3> const &a, int d) {
                        double want = M.G[M.global(a, d)];
                        c.close(x.at_g(pos_of<D>(a))[d], want, 1e-13 * M.size, "global value at " + pbt::str(a) + " component " + std::to_string(d));
                        c.close(cx.at_g(pos_of<D>(a))[d], want, 1e-13 * M.size, "global value at " + pbt::str(a) + " component " + std::to_string(d));
                    });
                    break;
                case 3:
                    M.ghosted([&](std::array<int, 3> const &a, int d) {
                        if (!chosen(a))
                            return;
                        double val = rnd(a, d);
                        if (d % 2)
                            x.at(pos_of<D>(a))[d] = val;
                        else
                            x.at(arr_of<D>(a))[d] = val;
                        M.L[M.local(a, d)] = val;
                        M.known[M.local(a, d)] = 1;
                    });
                    break;
                case 4:
                {
                    vec mine(M.G.size(), 0.);
                    M.owned([&](std::array<int, 3> const &a, int d) {
                        double val = chosen(a) ? rnd(a, d) : M.G[M.global(a, d)];
                        if (chosen(a))
                            x.at_g(pos_of<D>(a))[d] = val;
                        mine[M.global(a, d)] = val;
                    });
                    M.merge(mine, false);
                    break;
                }
                case 5:
                case 6:
                {
                    // PETSc refuses to insert ghost values in periodic directions
                    if (!all_known() || (o.what == 6 && any_per))
                        break;
                    c.petsc(x.local_to_global(o.what == 5 ? ADD_VALUES : INSERT_VALUES), "local_to_global");
                    vec mine(M.G.size(), 0.);
                    if (o.what == 5)
                        M.ghosted([&](std::array<int, 3> const &a, int d) { mine[M.global(a, d)] += M.L[M.local(a, d)]; });
                    else
                        M.owned([&](std::array<int, 3> const &a, int d) { mine[M.global(a, d)] = M.L[M.local(a, d)]; });
                    M.merge(mine, o.what == 5);
                    break;
                }
                case 7:
                    c.petsc(x.fill(o.value), "fill");
                    std::fill(M.L.begin(), M.L.end(), o.value);
                    std::fill(M.known.begin(), M.known.end(), 1);
                    break;
                default:
                    c.petsc(x.fill_global(o.value), "fill_global");
                    std::fill(M.G.begin(), M.G.end(), o.value);
                }
            }
        }
        // the whole vector afterwards
        if (kind == 2)
            hv::same(c, hv::get(da, v), M.G, 1e-12 * M.size, "field after the history");
        else
        {
            auto r = hv::get2(dm, v);
            hv::same(c, r[entry], M.G, 1e-12 * M.size, "field after the history");
            hv::same(c, r[1 - entry], start[1 - entry], 0., "the other field of the composite");
        }
        VecDestroy(&v);
        DMDestroy(&dm);
    }
    PROPERTY("P10.2d", p10<2>);
    PROPERTY("P10.3d", p10<3>);
} // namespace

PBT_MAIN
