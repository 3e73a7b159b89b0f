// Generators and transfer helpers shared by the harnesses (needs <cafes.hpp> included before).
#pragma once
#include "fe_ref.hpp"

namespace hv
{
    using pbt::Case;
    using ref::idx;
    using ref::vec;

    template<std::size_t D>
    struct setup
    {
        ref::grid<D> g;
        std::array<double, D> L;
        int np = 1;
    };

    template<std::size_t D>
    std::string dims(std::array<bool, D> const &v)
    {
        std::string s;
        for (auto b : v)
            s += b ? 'P' : '-';
        return s;
    }

    // can PETSc split the pressure grid between np processes?
    template<std::size_t D>
    bool splits(ref::grid<D> const &g, int np)
    {
        if (np == 1)
            return true;
        pbt::world w(np);
        int ok = 1;
        if (w.active)
        {
            pbt::mute_petsc m;
            DM da;
            DMBoundaryType b[3];
            int n[3] = {1, 1, 1};
            for (std::size_t d = 0; d < D; ++d)
            {
                b[d] = g.per[d] ? DM_BOUNDARY_PERIODIC : DM_BOUNDARY_NONE;
                n[d] = g.np[d];
            }
            PetscErrorCode e;
            if (D == 2)
                e = DMDACreate2d(PETSC_COMM_WORLD, b[0], b[1], DMDA_STENCIL_BOX, n[0], n[1], PETSC_DECIDE, PETSC_DECIDE, 1, 1, nullptr,
                                 nullptr, &da);
            else
                e = DMDACreate3d(PETSC_COMM_WORLD, b[0], b[1], b[2], DMDA_STENCIL_BOX, n[0], n[1], n[2], PETSC_DECIDE, PETSC_DECIDE,
                                 PETSC_DECIDE, 1, 1, nullptr, nullptr, nullptr, &da);
            if (!e)
                e = DMSetUp(da);
            if (e)
                ok = 0;
            else
                DMDestroy(&da);
        }
        int all;
        MPI_Allreduce(&ok, &all, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
        return all;
    }

    // max: largest number of pressure points per direction
    // the largest grid to draw: now and then a much larger one
    inline int most(Case &c, int usual, int large) { return c.flag(1, 15) ? large : usual; }

    template<std::size_t D>
    setup<D> gen_setup(Case &c, int max, bool allow_periodic = true, int min = 2)
    {
        setup<D> s;
        int shape = c.integer(0, 3); // unit lengths, equal spacings, twice: independent lengths
        double h0 = shape == 1 ? c.real(0.02, 0.3) : 0.;
        for (std::size_t d = 0; d < D; ++d)
        {
            s.g.per[d] = allow_periodic && c.flag(1, 3);
            s.g.n[d] = c.integer(std::max(min, s.g.per[d] ? 3 : 2), max);
            s.L[d] = shape == 0 ? 1. : shape == 1 ? 2 * h0 * (s.g.n[d] - 1) : c.real_near(1., 0.3, 3.);
            s.g.h[d] = 0.5 * s.L[d] / (s.g.n[d] - 1);
        }
        s.g.finish();
        s.np = c.integer(1, pbt::world_size());
        while (!splits<D>(s.g, s.np))
            --s.np;
        c.note("n", s.g.n);
        c.note("per", dims<D>(s.g.per));
        c.note("L", s.L);
        c.note("np", s.np);
        bool per = false, aniso = false;
        for (std::size_t d = 0; d < D; ++d)
        {
            per |= s.g.per[d];
            aniso |= d && std::abs(s.g.h[d] - s.g.h[0]) > 1e-9;
        }
        if (per)
            c.label("periodic");
        if (aniso)
            c.label("anisotropic");
        if (s.np > 1)
            c.label("parallel");
        return s;
    }

    // a nodal field: unit vector, or dense pseudo-random (values in [-1,1])
    inline vec gen_field(Case &c, std::size_t size, std::string const &name)
    {
        vec v(size, 0.);
        if (c.flag(3, 4))
        {
            auto s = c.seed();
            for (std::size_t i = 0; i < size; ++i)
                v[i] = pbt::unit(s, i);
            c.note(name, "random" + std::to_string(s));
        }
        else
        {
            std::size_t k = c.src.draw(size);
            v[k] = 1;
            c.note(name, "unit" + std::to_string(k));
        }
        return v;
    }

    // Leaves old values in the work vectors that the grid hands out: nothing may depend on what they held before.
    inline void soil(DM dm, double v = 777.25)
    {
        Vec x[6];
        for (int i = 0; i < 6; ++i)
        {
            i < 3 ? DMGetGlobalVector(dm, &x[i]) : DMGetLocalVector(dm, &x[i]);
            VecSet(x[i], v + i);
        }
        for (int i = 0; i < 6; ++i)
            i < 3 ? DMRestoreGlobalVector(dm, &x[i]) : DMRestoreLocalVector(dm, &x[i]);
    }
    inline std::array<DM, 2> entries(DM dm);
    inline void soil_all(DM dm)
    {
        auto e = entries(dm);
        soil(dm);
        soil(e[0]);
        soil(e[1]);
    }

    template<std::size_t D>
    void createMesh(DM &dm, ref::grid<D> const &g)
    {
        std::array<PetscBool, D> per;
        for (std::size_t d = 0; d < D; ++d)
            per[d] = g.per[d] ? PETSC_TRUE : PETSC_FALSE;
        cafes::fem::createMesh<D>(dm, g.n, per);
        soil_all(dm);
    }

    // the DMDAs of a composite
    inline std::array<DM, 2> entries(DM dm)
    {
        std::array<DM, 2> e;
        DMCompositeGetEntries(dm, &e[0], &e[1]);
        return e;
    }

    // visits the owned nodes of a DMDA: f(index array of 3, natural node number, dof)
    template<class F>
    void owned(DM da, F &&f)
    {
        DMDALocalInfo i;
        DMDAGetLocalInfo(da, &i);
        for (int z = i.zs; z < i.zs + i.zm; ++z)
            for (int y = i.ys; y < i.ys + i.ym; ++y)
                for (int x = i.xs; x < i.xs + i.xm; ++x)
                    f(x, y, z, (static_cast<std::size_t>(z) * i.my + y) * i.mx + x, i.dof);
    }

    // natural array -> DMDA vector
    inline void put(DM da, Vec v, vec const &a)
    {
        DMDALocalInfo i;
        DMDAGetLocalInfo(da, &i);
        double *p;
        VecGetArray(v, &p);
        std::size_t k = 0;
        owned(da, [&](int, int, int, std::size_t nat, int dof) {
            for (int d = 0; d < dof; ++d)
                p[k++] = a[nat * dof + d];
        });
        VecRestoreArray(v, &p);
    }
    // DMDA vector -> natural array, on every rank of the communicator
    inline vec get(DM da, Vec v)
    {
        DMDALocalInfo i;
        DMDAGetLocalInfo(da, &i);
        vec a(static_cast<std::size_t>(i.mx) * i.my * i.mz * i.dof, 0.), r(a.size());
        double const *p;
        VecGetArrayRead(v, &p);
        std::size_t k = 0;
        owned(da, [&](int, int, int, std::size_t nat, int dof) {
            for (int d = 0; d < dof; ++d)
                a[nat * dof + d] += p[k++];
        });
        VecRestoreArrayRead(v, &p);
        MPI_Comm comm;
        PetscObjectGetComm((PetscObject)da, &comm);
        MPI_Allreduce(a.data(), r.data(), static_cast<int>(a.size()), MPI_DOUBLE, MPI_SUM, comm);
        return r;
    }
    // composite versions
    inline void put(DM dm, Vec v, vec const &u, vec const &p)
    {
        auto e = entries(dm);
        Vec a, b;
        DMCompositeGetAccess(dm, v, &a, &b);
        put(e[0], a, u);
        put(e[1], b, p);
        DMCompositeRestoreAccess(dm, v, &a, &b);
    }
    inline std::array<vec, 2> get2(DM dm, Vec v)
    {
        auto e = entries(dm);
        Vec a, b;
        DMCompositeGetAccess(dm, v, &a, &b);
        std::array<vec, 2> r{{get(e[0], a), get(e[1], b)}};
        DMCompositeRestoreAccess(dm, v, &a, &b);
        return r;
    }

    // compares natural arrays
    inline bool same(Case &c, vec const &got, vec const &want, double tol, std::string const &what)
    {
        if (!c.check(got.size() == want.size(), what + ": size " + std::to_string(got.size()) + " instead of " + std::to_string(want.size())))
            return false;
        for (std::size_t i = 0; i < got.size(); ++i)
            if (!(std::abs(got[i] - want[i]) <= tol))
                return c.check(false, what + ": entry " + std::to_string(i) + " is " + pbt::num(got[i]) + ", expected " + pbt::num(want[i]) +
                                          " (tolerance " + pbt::num(tol) + ")");
        return true;
    }
} // namespace hv
