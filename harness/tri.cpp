// P37: triangulations in the plane and in space (needs the bundled qhull).  Serial.
#include <particle/geometry/triangulation.hpp>
#include "../engine/pbt.hpp"
using namespace cafes;
using pbt::Case;

namespace
{
    // ---------------------------------------------------------------- P37
    double cross2(geometry::position<double, 2> const &a, geometry::position<double, 2> const &b, geometry::position<double, 2> const &p)
    {
        return (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0]);
    }
    void p37_2(Case &c)
    {
        int n = c.integer(3, 24);
        bool onc = c.flag(1, 3);
        std::vector<geometry::position<double, 2>> p;
        auto seed = c.seed();
        for (int i = 0; i < n; ++i)
        {
            double a = pbt::unit(seed, 2 * i), b = pbt::unit(seed, 2 * i + 1);
            if (onc)
            {
                double t = 2 * M_PI * (i + 0.3 * a) / n;
                p.push_back({0.3 + std::cos(t), -0.2 + std::sin(t)});
            }
            else
                p.push_back({a, b});
        }
        c.note("n", n);
        c.note("seed", seed);
        c.note("circle", onc);
        c.label(onc ? "cocircular" : "general");
        // hull by gift wrapping; skip inputs close to a degenerate position
        double hull = 0;
        std::vector<int> edge;
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j)
            {
                if (i == j)
                    continue;
                bool all = true;
                for (int k = 0; k < n && all; ++k)
                    if (k != i && k != j)
                    {
                        double o = cross2(p[i], p[j], p[k]);
                        if (std::abs(o) < 1e-7)
                            throw pbt::skip_case{};
                        all = o > 0;
                    }
                if (all)
                {
                    edge.push_back(i);
                    hull += (p[i][0] * p[j][1] - p[i][1] * p[j][0]) / 2;
                }
            }
        auto t = geometry::triangulation(p);
        double area = 0;
        std::set<std::array<int, 3>> seen;
        for (auto tri : t)
        {
            std::sort(tri.begin(), tri.end());
            if (!c.check(tri[0] >= 0 && tri[2] < n && tri[0] != tri[1] && tri[1] != tri[2],
                         "invalid triangle " + std::to_string(tri[0]) + "," + std::to_string(tri[1]) + "," + std::to_string(tri[2])))
                return;
            c.check(seen.insert(tri).second, "the same triangle twice");
            auto const &A = p[tri[0]], &B = p[tri[1]], &C = p[tri[2]];
            area += std::abs(cross2(A, B, C)) / 2;
            // empty circumcircle
            double bx = B[0] - A[0], by = B[1] - A[1], cx = C[0] - A[0], cy = C[1] - A[1], d = 2 * (bx * cy - by * cx);
            double ux = (cy * (bx * bx + by * by) - by * (cx * cx + cy * cy)) / d, uy = (bx * (cx * cx + cy * cy) - cx * (bx * bx + by * by)) / d;
            double r = std::hypot(ux, uy);
            for (int k = 0; k < n; ++k)
                c.check(std::hypot(p[k][0] - A[0] - ux, p[k][1] - A[1] - uy) > r * (1 - 1e-7) - 1e-9, "a circumcircle is not empty");
        }
        c.close(area, hull, 1e-9, "covered area");
        c.check(t.size() == 2 * n - 2 - edge.size(), "there are " + std::to_string(t.size()) + " triangles instead of " +
                                                         std::to_string(2 * n - 2 - edge.size()));
        c.nontrivial = n > 3;
    }
    PROPERTY("P37.2d", p37_2);

    void p37_3(Case &c)
    {
        int n = c.integer(4, 30);
        int where = c.integer(0, 2);
        auto seed = c.seed();
        std::vector<geometry::position<double, 3>> p;
        for (int i = 0; i < n; ++i)
        {
            std::array<double, 3> x;
            double r = 0;
            for (int d = 0; d < 3; ++d)
            {
                x[d] = pbt::unit(seed, 3 * i + d);
                r += x[d] * x[d];
            }
            if (where)
                for (auto &y : x)
                    y /= std::sqrt(r);
            if (where == 2)
                x[2] *= 0.3;
            p.push_back({x[0], x[1], x[2]});
        }
        c.note("n", n);
        c.note("seed", seed);
        c.note("where", where);
        c.label(where == 0 ? "cloud" : where == 1 ? "sphere" : "ellipsoid");
        auto side = [&](std::array<int, 3> const &t, int k) {
            double v[3][3];
            for (int d = 0; d < 3; ++d)
            {
                v[0][d] = p[t[1]][d] - p[t[0]][d];
                v[1][d] = p[t[2]][d] - p[t[0]][d];
                v[2][d] = p[k][d] - p[t[0]][d];
            }
            return v[0][0] * (v[1][1] * v[2][2] - v[1][2] * v[2][1]) - v[0][1] * (v[1][0] * v[2][2] - v[1][2] * v[2][0]) +
                   v[0][2] * (v[1][0] * v[2][1] - v[1][1] * v[2][0]);
        };
        // the hull facets of a set in general position, by definition
        std::set<std::array<int, 3>> want;
        for (int i = 0; i < n; ++i)
            for (int j = i + 1; j < n; ++j)
                for (int k = j + 1; k < n; ++k)
                {
                    bool pl = false, mi = false;
                    for (int m = 0; m < n; ++m)
                        if (m != i && m != j && m != k)
                        {
                            double o = side({{i, j, k}}, m);
                            if (std::abs(o) < 1e-9)
                                throw pbt::skip_case{};
                            (o > 0 ? pl : mi) = true;
                        }
                    if (!(pl && mi))
                        want.insert({{i, j, k}});
                }
        std::set<std::array<int, 3>> got;
        for (auto tri : geometry::triangulation(p))
        {
            std::sort(tri.begin(), tri.end());
            c.check(got.insert(tri).second, "the same triangle twice");
            c.check(want.count(tri), "the triangle " + std::to_string(tri[0]) + "," + std::to_string(tri[1]) + "," + std::to_string(tri[2]) +
                                         " is not on the convex hull");
        }
        c.check(got.size() == want.size(), "there are " + std::to_string(got.size()) + " triangles instead of " + std::to_string(want.size()));
        c.nontrivial = n > 4;
    }
    PROPERTY("P37.3d", p37_3);
} // namespace

PBT_MAIN
