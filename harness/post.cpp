// Post-processing: P15 refined output, P16 HDF5/XDMF files (2D)
#include <cafes.hpp>
#include <posttraitement/interpolation.hpp>
#include "common.hpp"
#include "xml.hpp"
#include <sys/stat.h>
using namespace cafes;
using hv::xml::node;
using hv::xml::numbers;
using hv::xml::parser;
using hv::xml::trim;
using pbt::Case;
using ref::idx;
using ref::vec;

namespace
{
    // the multilinear interpolant of a nodal field on `cells` cells at fine node i (refine r)
    vec interpolate(idx<2> const &m, idx<2> const &cells, std::array<bool, 2> const &per, int dof, vec const &v, std::array<int, 2> const &r, idx<2> &mf)
    {
        for (int d = 0; d < 2; ++d)
            mf[d] = cells[d] * r[d] + (per[d] ? 0 : 1);
        vec out(ref::grid<2>::count(mf) * dof);
        ref::loop<2>(mf, [&](idx<2> const &i) {
            idx<2> c0;
            std::array<double, 2> x;
            for (int d = 0; d < 2; ++d)
            {
                c0[d] = std::min(i[d] / r[d], cells[d] - 1);
                x[d] = static_cast<double>(i[d] - c0[d] * r[d]) / r[d];
            }
            for (int k = 0; k < 4; ++k)
            {
                auto a = ref::corner<2>(k);
                double w = ref::phi<2>(a, x);
                for (int d = 0; d < 2; ++d)
                    a[d] += c0[d];
                for (int j = 0; j < dof; ++j)
                    out[ref::grid<2>::at(mf, i) * dof + j] += w * v[ref::grid<2>::at(m, a) * dof + j];
            }
        });
        return out;
    }

    void p15(Case &c)
    {
        auto s = hv::gen_setup<2>(c, hv::most(c, 8, 20), true, 3);
        std::array<int, 2> r{{c.integer(1, 4), c.integer(1, 4)}};
        if (c.flag(1, 3))
            r[1] = r[0];
        vec u = hv::gen_field(c, s.g.nodes_u() * 2, "u"), p = hv::gen_field(c, s.g.nodes_p(), "p");
        c.note("refine", r);
        c.label(r[0] == r[1] ? "equal factors" : "different factors");
        c.nontrivial = r[0] > 1 || r[1] > 1;
        pbt::world w(s.np);
        if (!w.active)
            return;
        DM dm, fine = nullptr;
        Vec x, y = nullptr;
        hv::createMesh(dm, s.g);
        DMCreateGlobalVector(dm, &x);
        hv::put(dm, x, u, p);
        c.petsc(posttraitement::linear_interpolation<2>(dm, x, fine, y, r, s.g.h), "linear_interpolation");
        auto e = hv::entries(fine);
        idx<2> mu, mp;
        vec wu = interpolate(s.g.nu, s.g.cu, s.g.per, 2, u, r, mu), wp = interpolate(s.g.np, s.g.cp, s.g.per, 1, p, r, mp);
        for (int k = 0; k < 2; ++k)
        {
            DMDALocalInfo i;
            DMDAGetLocalInfo(e[k], &i);
            auto const &m = k ? mp : mu;
            c.check(i.mx == m[0] && i.my == m[1], std::string(k ? "pressure" : "velocity") + " mesh is " + std::to_string(i.mx) + "x" +
                                                      std::to_string(i.my) + " instead of " + std::to_string(m[0]) + "x" + std::to_string(m[1]));
        }
        if (!c.failed())
        {
            auto got = hv::get2(fine, y);
            hv::same(c, got[0], wu, 1e-12, "refined velocity");
            hv::same(c, got[1], wp, 1e-12, "refined pressure");
        }
        auto back = hv::get2(dm, x);
        hv::same(c, back[0], u, 0., "coarse velocity after the interpolation");
        hv::same(c, back[1], p, 0., "coarse pressure after the interpolation");
        VecDestroy(&x);
        VecDestroy(&y);
        DMDestroy(&fine);
        DMDestroy(&dm);
    }
    PROPERTY("P15", p15);

    // ---------------------------------------------------------------- P16
    struct dataset
    {
        std::vector<std::size_t> dims;
        vec data;
        bool is_double = false;
    };
    bool read(std::string const &file, char const *name, dataset &d)
    {
        H5E_auto2_t old;
        void *data;
        H5Eget_auto2(H5E_DEFAULT, &old, &data);
        H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
        bool ok = false;
        hid_t f = H5Fopen(file.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
        if (f >= 0)
        {
            hid_t s = H5Dopen2(f, name, H5P_DEFAULT);
            if (s >= 0)
            {
                hid_t sp = H5Dget_space(s), t = H5Dget_type(s);
                int n = H5Sget_simple_extent_ndims(sp);
                std::vector<hsize_t> dims(n);
                H5Sget_simple_extent_dims(sp, dims.data(), nullptr);
                std::size_t total = 1;
                for (auto v : dims)
                {
                    d.dims.push_back(v);
                    total *= v;
                }
                d.data.resize(total);
                d.is_double = H5Tget_class(t) == H5T_FLOAT && H5Tget_size(t) == 8;
                ok = H5Dread(s, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, d.data.data()) >= 0;
                H5Tclose(t);
                H5Sclose(sp);
                H5Dclose(s);
            }
            H5Fclose(f);
        }
        H5Eset_auto2(H5E_DEFAULT, old, data);
        return ok;
    }

    void check_files(Case &c, std::string const &dir, std::string const &name, ref::grid<2> const &g, vec const &u, vec const &p)
    {
        std::ifstream f(dir + "/" + name + ".xdmf");
        std::stringstream text;
        text << f.rdbuf();
        parser ps;
        ps.s = text.str();
        if (!c.check(f.good() || !ps.s.empty(), name + ".xdmf was not written"))
            return;
        node root = ps.element();
        if (!c.check(ps.ok && root.name == "Xdmf", name + ".xdmf is not well formed"))
            return;
        for (int k = 0; k < 2; ++k)
        {
            char const *field = k ? "pressure" : "velocity";
            auto const &m = k ? g.np : g.nu;
            int dof = k ? 1 : 2;
            dataset d;
            if (!c.check(read(dir + "/" + name + ".h5", field, d), std::string("dataset ") + field + " of " + name + ".h5 cannot be read"))
                continue;
            c.check(d.is_double, std::string(field) + " is not stored in double precision");
            auto const &want = k ? p : u;
            if (c.check(d.data.size() == want.size(), std::string(field) + " has " + std::to_string(d.data.size()) + " values instead of " +
                                                           std::to_string(want.size())))
                for (std::size_t i = 0; i < want.size(); ++i)
                    if (!c.check(d.data[i] == want[i], std::string(field) + " value " + std::to_string(i) + " read back as " + pbt::num(d.data[i]) +
                                                           " instead of " + pbt::num(want[i])))
                        break;
            std::vector<std::size_t> shape{static_cast<std::size_t>(m[1]), static_cast<std::size_t>(m[0])};
            if (dof > 1)
                shape.push_back(dof);
            c.check(d.dims == shape, std::string("shape of dataset ") + field);
            // the description
            node const *at = root.find("Attribute", "Name", field);
            if (!c.check(at, std::string("no attribute ") + field))
                continue;
            node const *grid = root.find("Grid", "Name", std::string(field) + "_grid");
            if (!c.check(grid && grid->find("Attribute", "Name", field), std::string("no grid holds attribute ") + field))
                continue;
            c.check(at->attr.count("Center") && at->attr.at("Center") == "Node", std::string(field) + " is not nodal");
            c.check(at->attr.count("AttributeType") && at->attr.at("AttributeType") == (k ? "Scalar" : "Vector"), std::string("type of ") + field);
            node const *item = at->find("DataItem");
            if (!c.check(item && item->attr.count("Dimensions"), std::string("no data item for ") + field))
                continue;
            c.check(trim(item->text) == name + ".h5:/" + field, std::string("data item of ") + field + " points to " + trim(item->text));
            auto dims = numbers(item->attr.at("Dimensions"));
            c.check(std::vector<double>(shape.begin(), shape.end()) == dims,
                    std::string("declared dimensions of ") + field + " are \"" + item->attr.at("Dimensions") + "\" but the array is " +
                        std::to_string(shape[0]) + " " + std::to_string(shape[1]));
            node const *top = grid->find("Topology");
            if (c.check(top && top->attr.count("NumberOfElements"), std::string("no topology for ") + field))
                c.check(numbers(top->attr.at("NumberOfElements")) == std::vector<double>{static_cast<double>(m[1]), static_cast<double>(m[0])},
                        std::string("declared nodes of ") + field + " are \"" + top->attr.at("NumberOfElements") + "\" but the mesh is " +
                            std::to_string(m[1]) + " " + std::to_string(m[0]));
            node const *geo = grid->find("Geometry");
            if (c.check(geo && geo->kids.size() == 2, std::string("no geometry for ") + field))
            {
                auto o = numbers(geo->kids[0].text), h = numbers(geo->kids[1].text);
                c.check(o == std::vector<double>{0., 0.}, std::string("origin of ") + field);
                if (c.check(h.size() == 2, std::string("spacing of ") + field))
                    for (int j = 0; j < 2; ++j)
                        c.close(h[j], (k ? 2 : 1) * g.h[j], 1e-5 * g.h[j], std::string("spacing of ") + field + " in direction " + std::to_string(j));
            }
        }
    }

    void p16(Case &c)
    {
        auto s = hv::gen_setup<2>(c, hv::most(c, 9, 30), true, 2);
        int saves = c.integer(1, 3);
        std::vector<vec> us, ps;
        std::vector<std::string> names;
        for (int k = 0; k < saves; ++k)
        {
            us.push_back(hv::gen_field(c, s.g.nodes_u() * 2, "u"));
            ps.push_back(hv::gen_field(c, s.g.nodes_p(), "p"));
            names.push_back(c.pick({"sol", "test_refine", "a"}) + std::to_string(k));
        }
        bool over = saves > 1 && c.flag(1, 3); // save again over the first file
        c.note("saves", saves);
        c.note("overwrite", over);
        c.label(std::to_string(saves) + " saves");
        c.nontrivial = true;
        pbt::world w(s.np);
        if (!w.active)
            return;
        char dir[32] = "/tmp/hvpostXXXXXX";
        bool root = pbt::world_rank() == 0;
        if (root && !::mkdtemp(dir))
            return;
        MPI_Bcast(dir, sizeof dir, MPI_CHAR, 0, PETSC_COMM_WORLD);
        DM dm;
        Vec x;
        hv::createMesh(dm, s.g);
        DMCreateGlobalVector(dm, &x);
        for (int k = 0; k < saves; ++k)
        {
            hv::put(dm, x, us[k], ps[k]);
            c.petsc(io::save_hdf5(dir, names[k].c_str(), x, dm, s.g.h), "save_hdf5");
            auto back = hv::get2(dm, x);
            hv::same(c, back[0], us[k], 0., "velocity after saving");
            hv::same(c, back[1], ps[k], 0., "pressure after saving");
        }
        if (over)
        {
            hv::put(dm, x, us[1], ps[0]);
            c.petsc(io::save_hdf5(dir, names[0].c_str(), x, dm, s.g.h), "save_hdf5");
            us[0] = us[1];
        }
        MPI_Barrier(PETSC_COMM_WORLD);
        if (root)
        {
            for (int k = 0; k < saves; ++k)
            {
                check_files(c, dir, names[k], s.g, us[k], ps[k]);
                ::unlink((std::string(dir) + "/" + names[k] + ".h5").c_str());
                ::unlink((std::string(dir) + "/" + names[k] + ".xdmf").c_str());
                ::unlink((std::string(dir) + "/" + names[k] + ".h5.info").c_str());
            }
            c.check(::rmdir(dir) == 0, "files other than the saved ones were written");
        }
        VecDestroy(&x);
        DMDestroy(&dm);
    }
    PROPERTY("P16", p16);
} // namespace

PBT_MAIN
