// VTK output: P40 (against the stand-in for VTK in engine/vtk, which writes the data sets as text)
#include <cafes.hpp>
#include <io/vtk.hpp>
#include "common.hpp"
#include "stokes_common.hpp"
#include "particle_common.hpp"
#include "xml.hpp"
#include <dirent.h>
#include <set>
#include <sys/stat.h>
using namespace cafes;
using hv::xml::numbers;
using pbt::Case;
using ref::idx;
using ref::vec;

namespace
{
    struct array
    {
        int comps = 0;
        std::string type;
        vec v;
    };
    // a file written by the stand-in
    struct piece
    {
        std::string kind, scalars, vectors;
        std::array<int, 6> ext;
        std::map<std::string, array> a;
        bool read(std::string const &file)
        {
            std::ifstream f(file);
            std::string key;
            f >> kind;
            for (auto &x : ext)
                f >> x;
            f >> key >> scalars >> key >> vectors;
            if (!f)
                return false;
            for (std::string name; f >> name;)
            {
                array x;
                std::size_t n;
                f >> x.comps >> x.type >> n;
                x.v.resize(n);
                std::string t;
                for (auto &y : x.v)
                {
                    f >> t;
                    y = std::strtod(t.c_str(), nullptr);
                }
                a[name] = x;
            }
            return true;
        }
    };
    template<std::size_t D>
    struct wide // three directions, the missing one has one node
    {
        std::array<int, 3> m{{1, 1, 1}};
        std::array<bool, 3> per{{false, false, false}};
        std::array<double, 3> h{{0, 0, 0}};
    };

    template<std::size_t D>
    void check_grid(Case &c, std::string const &dir, std::string const &name, bool pressure, ref::grid<D> const &g, int np, vec const &want,
                    std::set<std::string> &files)
    {
        char const *field = pressure ? "pressure" : "velocity";
        wide<D> w;
        for (std::size_t d = 0; d < D; ++d)
        {
            w.m[d] = (pressure ? g.np : g.nu)[d];
            w.per[d] = g.per[d];
            w.h[d] = (pressure ? 2 : 1) * g.h[d];
        }
        int dof = pressure ? 1 : D, comps = pressure ? 1 : 3;
        std::string index = name + "_" + field + ".pvts";
        files.insert(index);
        std::ifstream f(dir + "/" + index);
        std::stringstream text;
        text << f.rdbuf();
        hv::xml::parser ps;
        ps.s = text.str();
        if (!c.check(!ps.s.empty(), index + " was not written"))
            return;
        auto root = ps.element();
        if (!c.check(ps.ok && root.name == "VTKFile", index + " is not well formed"))
            return;
        auto attr = [&](hv::xml::node const &n, char const *k) { return n.attr.count(k) ? n.attr.at(k) : std::string(); };
        auto grid = root.find("PStructuredGrid");
        if (!c.check(attr(root, "type") == "PStructuredGrid" && grid, index + " declares no structured grid"))
            return;
        auto W = numbers(attr(*grid, "WholeExtent"));
        if (!c.check(W.size() == 6, index + ": whole extent"))
            return;
        for (int d = 0; d < 3; ++d)
            if (w.per[d])
                c.check(W[2 * d] <= 0 && W[2 * d + 1] >= w.m[d] - 1, index + ": the whole extent leaves out nodes in direction " + std::to_string(d));
            else
                c.check(W[2 * d] == 0 && W[2 * d + 1] == w.m[d] - 1, index + ": whole extent in direction " + std::to_string(d) + " is " +
                                                                         pbt::num(W[2 * d]) + ".." + pbt::num(W[2 * d + 1]) + " for " +
                                                                         std::to_string(w.m[d]) + " nodes");
        auto pp = grid->find("PPoints"), pd = grid->find("PPointData");
        if (!c.check(pp && pp->find("PDataArray") && pd && pd->find("PDataArray", "Name", field), index + " declares no points or no " + field))
            return;
        auto const &decl = *pd->find("PDataArray", "Name", field);
        int dc = attr(decl, "NumberOfComponents").empty() ? 1 : static_cast<int>(numbers(attr(decl, "NumberOfComponents"))[0]);
        c.check(dc == comps, index + ": components of " + field);
        int pieces = 0;
        std::set<std::array<int, 3>> cells, nodes;
        for (auto const &k : grid->kids)
        {
            if (k.name != "Piece")
                continue;
            ++pieces;
            auto E = numbers(attr(k, "Extent"));
            std::string src = attr(k, "Source");
            if (src.compare(0, 2, "./") == 0)
                src = src.substr(2);
            files.insert(src);
            piece q;
            if (!c.check(E.size() == 6, index + ": extent of a piece") || !c.check(q.read(dir + "/" + src), index + ": piece " + src + " cannot be read"))
                continue;
            c.check(q.kind == "StructuredGrid", src + " is not a structured grid");
            std::size_t count = 1;
            for (int d = 0; d < 3; ++d)
            {
                c.check(q.ext[2 * d] == E[2 * d] && q.ext[2 * d + 1] == E[2 * d + 1], src + ": its extent is not the declared one, direction " + std::to_string(d));
                c.check(E[2 * d] >= W[2 * d] && E[2 * d + 1] <= W[2 * d + 1], src + ": extent " + pbt::num(E[2 * d]) + ".." + pbt::num(E[2 * d + 1]) +
                                                                                  " is not within the whole extent, direction " + std::to_string(d));
                count *= std::max(0, q.ext[2 * d + 1] - q.ext[2 * d] + 1);
            }
            auto pts = q.a.find("Points"), val = q.a.find(field);
            if (!c.check(pts != q.a.end() && val != q.a.end(), src + ": no points or no " + field))
                continue;
            auto const &x = pts->second.v, &v = val->second.v;
            c.check(pts->second.type == attr(*pp->find("PDataArray"), "type"), src + ": type of the points");
            c.check(val->second.type == attr(decl, "type"), src + ": type of the values");
            c.check(val->second.type == "Float64", src + ": values are not stored in double precision");
            c.check(val->second.comps == comps, src + ": number of components");
            bool vector = !attr(*pd, "Vectors").empty();
            c.check((vector ? q.vectors : q.scalars) == field, src + ": " + field + " is not the active " + (vector ? "vector" : "scalar") + " as declared");
            if (!c.check(x.size() == 3 * count && v.size() == comps * count, src + ": " + std::to_string(x.size() / 3) + " points, " +
                                                                                 std::to_string(v.size()) + " values for an extent of " + std::to_string(count)))
                continue;
            std::size_t at = 0;
            for (int kz = q.ext[4]; kz <= q.ext[5]; ++kz)
                for (int jy = q.ext[2]; jy <= q.ext[3]; ++jy)
                    for (int ix = q.ext[0]; ix <= q.ext[1]; ++ix, ++at)
                    {
                        std::array<int, 3> i{{ix, jy, kz}}, o;
                        bool inside = true;
                        std::size_t n = 0;
                        for (int d = 2; d >= 0; --d)
                        {
                            o[d] = w.per[d] ? ((i[d] % w.m[d]) + w.m[d]) % w.m[d] : i[d];
                            inside &= o[d] >= 0 && o[d] < w.m[d];
                            n = n * w.m[d] + o[d];
                        }
                        if (!inside)
                            continue; // reported above
                        nodes.insert(o);
                        if (ix < q.ext[1] && jy < q.ext[3] && (D == 2 || kz < q.ext[5]))
                            cells.insert(i);
                        for (int d = 0; d < 3; ++d)
                            c.close(x[3 * at + d], i[d] * w.h[d], 1e-6 * (std::fabs(i[d] * w.h[d]) + 1e-3 * w.h[d]),
                                    src + ": coordinate " + std::to_string(d) + " of node " + pbt::str(i));
                        for (int d = 0; d < comps; ++d)
                        {
                            double e = d < dof ? want[n * dof + d] : 0.;
                            c.check(v[comps * at + d] == e, src + ": " + field + "[" + std::to_string(d) + "] of node " + pbt::str(i) + " is " +
                                                                pbt::num(v[comps * at + d]) + " instead of " + pbt::num(e));
                        }
                    }
        }
        c.check(pieces == np, index + " declares " + std::to_string(pieces) + " pieces for " + std::to_string(np) + " processes");
        c.check(nodes.size() == static_cast<std::size_t>(w.m[0]) * w.m[1] * w.m[2], index + ": nodes missing from the pieces");
        std::size_t all = 1;
        for (std::size_t d = 0; d < D; ++d)
            all *= static_cast<std::size_t>(W[2 * d + 1] - W[2 * d]);
        c.check(cells.size() == all, index + ": the pieces hold " + std::to_string(cells.size()) + " cells of " + std::to_string(all));
    }

    std::set<std::string> listing(std::string const &dir)
    {
        std::set<std::string> s;
        if (DIR *d = ::opendir(dir.c_str()))
        {
            while (auto e = ::readdir(d))
                if (e->d_name[0] != '.')
                    s.insert(e->d_name);
            ::closedir(d);
        }
        return s;
    }
    // a scratch directory of all processes, removed with everything in it
    struct scratch
    {
        char dir[32] = "/tmp/hvvtkXXXXXX";
        bool root = pbt::world_rank() == 0, ok = true;
        scratch()
        {
            if (root)
                ok = ::mkdtemp(dir) != nullptr;
            MPI_Bcast(dir, sizeof dir, MPI_CHAR, 0, PETSC_COMM_WORLD);
        }
        ~scratch()
        {
            MPI_Barrier(PETSC_COMM_WORLD);
            if (!root || !ok)
                return;
            for (auto const &f : listing(dir))
                ::unlink((std::string(dir) + "/" + f).c_str());
            ::rmdir(dir);
        }
    };
    void no_misuse(Case &c)
    {
        for (auto const &m : vtkstub::misuse())
            c.check(false, "VTK is misused: " + m);
        vtkstub::misuse().clear();
    }

    template<std::size_t D>
    void p40(Case &c)
    {
        auto s = hv::gen_setup<D>(c, hv::most(c, D == 2 ? 9 : 5, D == 2 ? 24 : 8), true, 2);
        int saves = c.integer(1, 2);
        std::vector<vec> us, ps;
        std::vector<std::string> names;
        for (int k = 0; k < saves; ++k)
        {
            us.push_back(hv::gen_field(c, s.g.nodes_u() * D, "u"));
            ps.push_back(hv::gen_field(c, s.g.nodes_p(), "p"));
            names.push_back(c.pick({"sol", "step_", "a"}) + std::to_string(k));
        }
        c.note("saves", saves);
        c.nontrivial = true;
        pbt::world w(s.np);
        if (!w.active)
            return;
        scratch t;
        if (!t.ok)
            return;
        DM dm;
        Vec x;
        hv::createMesh(dm, s.g);
        DMCreateGlobalVector(dm, &x);
        hv::soil_all(dm);
        std::array<double, D> h;
        for (std::size_t d = 0; d < D; ++d)
            h[d] = s.g.h[d];
        for (int k = 0; k < saves; ++k)
        {
            hv::put(dm, x, us[k], ps[k]);
            c.petsc(io::save_VTK(t.dir, names[k].c_str(), x, dm, h), "save_VTK");
            auto back = hv::get2(dm, x);
            hv::same(c, back[0], us[k], 0., "velocity after saving");
            hv::same(c, back[1], ps[k], 0., "pressure after saving");
        }
        no_misuse(c);
        MPI_Barrier(PETSC_COMM_WORLD);
        if (t.root)
        {
            std::set<std::string> files;
            for (int k = 0; k < saves; ++k)
            {
                check_grid<D>(c, t.dir, names[k], false, s.g, s.np, us[k], files);
                check_grid<D>(c, t.dir, names[k], true, s.g, s.np, ps[k], files);
            }
            c.check(files == listing(t.dir), "the files written are not those declared");
        }
        VecDestroy(&x);
        DMDestroy(&dm);
    }
    PROPERTY("P40.2d", p40<2>);
    PROPERTY("P40.3d", p40<3>);

    std::vector<double> torque_list(hv::mom<2> const &m) { return {m[0]}; }
    std::vector<double> torque_list(hv::mom<3> const &m) { return {m[0], m[1], m[2]}; }
    double torque_of(hv::mom<2> const &m) { return m[0]; }
    geometry::vector<double, 3> torque_of(hv::mom<3> const &m) { return {m[0], m[1], m[2]}; }

    template<std::size_t D>
    void p40_particles(Case &c)
    {
        auto s = hv::gen_setup<D>(c, 9, false, 3);
        auto balls = hv::gen_balls<D>(c, s, 2, 5);
        bool loads = c.flag(2, 3), driven = c.flag();
        c.note("loads", loads);
        c.label(loads ? "with loads" : "shapes only");
        c.nontrivial = true;
        pbt::world w(s.np);
        if (!w.active)
            return;
        scratch t;
        if (!t.ok)
            return;
        auto parts = hv::build<D>(balls, driven);
        std::vector<geometry::vector<double, D>> f(balls.size());
        std::vector<decltype(torque_of(balls[0].W))> q(balls.size());
        for (std::size_t k = 0; k < balls.size(); ++k)
        {
            for (std::size_t d = 0; d < D; ++d)
                f[k][d] = balls[k].F[d];
            q[k] = torque_of(balls[k].W);
        }
        if (loads)
            c.petsc(io::saveParticles(t.dir, "run", parts, f, q), "saveParticles");
        else
            c.petsc(io::saveParticles(t.dir, "run", parts), "saveParticles");
        no_misuse(c);
        MPI_Barrier(PETSC_COMM_WORLD);
        if (t.root)
        {
            c.check(listing(t.dir) == std::set<std::string>{"run_particles.vtp"}, "the files written are not run_particles.vtp alone");
            piece p;
            if (c.check(p.read(std::string(t.dir) + "/run_particles.vtp"), "run_particles.vtp cannot be read"))
            {
                std::size_t n = balls.size();
                c.check(p.kind == "PolyData", "not a set of points");
                auto expect = [&](char const *name, int comps, auto value) {
                    auto a = p.a.find(name);
                    if (!c.check(a != p.a.end(), std::string("no ") + name) || !c.check(a->second.comps == comps, std::string("components of ") + name) ||
                        !c.check(a->second.v.size() == comps * n, std::string("number of ") + name))
                        return;
                    c.check(a->second.type == "Float64", std::string(name) + " not in double precision");
                    for (std::size_t k = 0; k < n; ++k)
                    {
                        std::vector<double> want = value(balls[k]);
                        want.resize(comps, 0.);
                        for (int d = 0; d < comps; ++d)
                            c.check(a->second.v[comps * k + d] == want[d], std::string(name) + "[" + std::to_string(d) + "] of particle " + std::to_string(k) +
                                                                               " is " + pbt::num(a->second.v[comps * k + d]) + " instead of " + pbt::num(want[d]));
                    }
                };
                expect("Points", 3, [](auto const &b) { return std::vector<double>(b.c.begin(), b.c.end()); });
                expect("radius", 1, [](auto const &b) { return std::vector<double>{b.R}; });
                if (loads)
                {
                    expect("forces", 3, [](auto const &b) { return std::vector<double>(b.F.begin(), b.F.end()); });
                    expect("torques", D == 2 ? 1 : 3, [](auto const &b) { return torque_list(b.W); });
                }
            }
        }
    }
    PROPERTY("P40.particles2", p40_particles<2>);
    PROPERTY("P40.particles3", p40_particles<3>);
} // namespace

PBT_MAIN
