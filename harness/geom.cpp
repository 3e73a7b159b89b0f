// Geometry and physics helpers: P17 boxes, P18 iteration and sampling grids, P19 vector algebra, P20 quaternions,
// P21 shapes, P22 particle measures, P23 surface sampling.  Serial.
#include <cafes.hpp>
#include <particle/geometry/circle.hpp>
#include <particle/geometry/cross_product.hpp>
#include <particle/geometry/linspace.hpp>
#include <particle/geometry/quaternion.hpp>
#include <particle/geometry/sphere.hpp>
#include <particle/geometry/super_ellipsoid.hpp>
#include <particle/particle.hpp>
#include "../engine/pbt.hpp"
using namespace cafes;
using pbt::Case;

namespace
{
    template<class T, std::size_t D>
    std::string show(geometry::position<T, D> const &p)
    {
        std::string s = "(";
        for (std::size_t i = 0; i < D; ++i)
            s += (i ? "," : "") + pbt::num(static_cast<double>(p[i]));
        return s + ")";
    }
    template<class T, std::size_t D>
    std::string show(geometry::box<T, D> const &b)
    {
        return "[" + show<T, D>(b.bottom_left) + "," + show<T, D>(b.upper_right) + "]";
    }

    // ---------------------------------------------------------------- P17
    template<class T>
    T coordinate(Case &c)
    {
        int v = c.integer(0, 12) - 4;
        return std::is_integral<T>::value ? static_cast<T>(v) : static_cast<T>(v) * T(0.375);
    }
    // a box of positive or zero lengths
    template<class T, std::size_t D>
    geometry::box<T, D> gen_box(Case &c, char const *name)
    {
        geometry::box<T, D> b{};
        for (std::size_t d = 0; d < D; ++d)
        {
            b.bottom_left[d] = coordinate<T>(c);
            int l = c.integer(0, 6);
            b.upper_right[d] = b.bottom_left[d] + (std::is_integral<T>::value ? static_cast<T>(l) : static_cast<T>(l) * T(0.375));
        }
        c.note(name, show<T, D>(b));
        return b;
    }
    template<class T, std::size_t D>
    bool in(geometry::box<T, D> const &b, geometry::position<T, D> const &p)
    {
        bool ok = true;
        for (std::size_t d = 0; d < D; ++d)
            ok = ok && b.bottom_left[d] <= p[d] && p[d] < b.upper_right[d];
        return ok;
    }
    template<class T, std::size_t D>
    bool in_closed(geometry::box<T, D> const &b, geometry::position<T, D> const &p)
    {
        bool ok = true;
        for (std::size_t d = 0; d < D; ++d)
            ok = ok && b.bottom_left[d] <= p[d] && p[d] <= b.upper_right[d];
        return ok;
    }
    // every point of a lattice that resolves all coordinates
    template<class T, std::size_t D, class F>
    void lattice(F &&f)
    {
        T step = std::is_integral<T>::value ? T(1) : T(0.375);
        geometry::position<T, D> p;
        int n = 18, total = 1;
        for (std::size_t d = 0; d < D; ++d)
            total *= n;
        for (int k = 0; k < total; ++k)
        {
            int r = k;
            for (std::size_t d = 0; d < D; ++d, r /= n)
                p[d] = static_cast<T>(r % n - 5) * step;
            f(p);
        }
    }

    template<class T, std::size_t D>
    void p17(Case &c)
    {
        auto a = gen_box<T, D>(c, "a"), b = gen_box<T, D>(c, "b");
        auto o = geometry::overlap_box(a, b), u = geometry::union_box(a, b), i = geometry::box_inside(a, b);
        bool meet = false, common = false, nested = true;
        lattice<T, D>([&](geometry::position<T, D> const &p) {
            bool ia = in(a, p), ib = in(b, p);
            if (geometry::point_inside(a, p) != ia)
                c.check(false, "point_inside wrong at " + show<T, D>(p));
            if (geometry::point_inside(o, p) != (ia && ib))
                c.check(false, "overlap_box wrong at " + show<T, D>(p));
            if (geometry::point_inside(i, p) != (ia && ib))
                c.check(false, "box_inside wrong at " + show<T, D>(p));
            if ((ia || ib) && !geometry::point_inside(u, p))
                c.check(false, "union_box misses " + show<T, D>(p));
            meet = meet || (in_closed(a, p) && in_closed(b, p));
            common = common || (ia && ib);
            nested = nested && (!ib || ia);
        });
        c.check(geometry::intersect(a, b) == meet, "intersect is wrong");
        c.check(geometry::intersect(b, a) == meet, "intersect is not symmetric");
        c.check(geometry::check_box_inside(a, b) == meet, "check_box_inside is wrong");
        double vol = 1.;
        for (std::size_t d = 0; d < D; ++d)
        {
            c.check(u.bottom_left[d] == std::min(a.bottom_left[d], b.bottom_left[d]) &&
                        u.upper_right[d] == std::max(a.upper_right[d], b.upper_right[d]),
                    "union_box is not the smallest enclosing box");
            if (meet)
                c.check(o.bottom_left[d] == std::max(a.bottom_left[d], b.bottom_left[d]) &&
                            o.upper_right[d] == std::min(a.upper_right[d], b.upper_right[d]),
                        "overlap_box of touching boxes is wrong");
            c.check(a.length(d) == static_cast<double>(a.upper_right[d] - a.bottom_left[d]), "length in one direction is wrong");
            vol *= static_cast<double>(a.upper_right[d] - a.bottom_left[d]);
        }
        c.close(a.length(), vol, 1e-12 * (1 + vol), "product of the lengths");
        auto pts = a.get_box_points();
        c.check(pts.size() == (1u << D), "number of corners");
        for (std::size_t k = 0; k < pts.size() && k < (1u << D); ++k)
            for (std::size_t d = 0; d < D; ++d)
                c.check(pts[k][d] == (k & (1u << d) ? a.upper_right[d] : a.bottom_left[d]), "corner " + std::to_string(k) + " is wrong");
        c.label(common ? "overlapping" : meet ? "touching" : "disjoint");
        if (common && nested)
            c.label("nested");
        c.nontrivial = a.length() > 0 && b.length() > 0;
    }
    PROPERTY("P17.int2", (p17<int, 2>));
    PROPERTY("P17.int3", (p17<int, 3>));
    PROPERTY("P17.real2", (p17<double, 2>));
    PROPERTY("P17.real3", (p17<double, 3>));

    // ---------------------------------------------------------------- P18
    template<class T, std::size_t D>
    void p18_iterate(Case &c)
    {
        geometry::box<T, D> b{};
        std::size_t want = 1;
        for (std::size_t d = 0; d < D; ++d)
        {
            int lo = c.integer(0, 14) - (std::is_signed<T>::value ? 7 : 0);
            int l = c.integer(0, 6) - (std::is_signed<T>::value && c.flag(1, 8) ? 3 : 0);
            b.bottom_left[d] = static_cast<T>(lo);
            b.upper_right[d] = static_cast<T>(lo + l);
            want *= std::max(l, 0);
        }
        c.note("box", show<T, D>(b));
        std::set<std::array<long, D>> seen;
        std::size_t calls = 0;
        algorithm::iterate(b, [&](auto const &p) {
            ++calls;
            std::array<long, D> a;
            for (std::size_t d = 0; d < D; ++d)
            {
                a[d] = static_cast<long>(p[d]);
                c.check(p[d] >= b.bottom_left[d] && p[d] < b.upper_right[d], "visits a point outside the box");
            }
            c.check(seen.insert(a).second, "visits a point twice: " + pbt::str(a));
        });
        c.check(calls == want && seen.size() == want, "visits " + std::to_string(calls) + " points instead of " + std::to_string(want));
        c.label(want ? "points" : "empty");
        c.nontrivial = want > 0;
    }
    PROPERTY("P18.int2", (p18_iterate<int, 2>));
    PROPERTY("P18.int3", (p18_iterate<int, 3>));
    PROPERTY("P18.size2", (p18_iterate<std::size_t, 2>));
    PROPERTY("P18.size3", (p18_iterate<std::size_t, 3>));

    void p18_linspace(Case &c)
    {
        double a = c.real(-5, 5), l = c.flag(1, 8) ? 0. : c.real_near(1., 0.001, 20.), b = a + l;
        int n = c.integer(1, 60);
        bool end = c.flag();
        c.note("from", a);
        c.note("to", b);
        c.note("n", n);
        c.note("end", end);
        auto v = end && c.flag() ? geometry::linspace(a, b, n) : geometry::linspace(a, b, n, end);
        if (!c.check(static_cast<int>(v.size()) == n, "returns " + std::to_string(v.size()) + " points"))
            return;
        c.close(v[0], a, 0., "first point");
        if (end && n > 1)
            c.close(v[n - 1], b, 1e-12, "last point");
        double step = n > 1 || !end ? l / (end ? n - 1 : n) : 0.;
        for (int i = 0; i < n; ++i)
            c.close(v[i], a + i * step, 1e-12, "point " + std::to_string(i));
        c.nontrivial = n > 1 && l > 0;
        c.label(n == 1 ? "one point" : end ? "with end" : "without end");
    }
    PROPERTY("P18.linspace", p18_linspace);

    // ---------------------------------------------------------------- P19
    double component(Case &c) { return c.flag(1, 6) ? 0. : c.real(-3., 3.); }
    template<class V, std::size_t D>
    void equal(Case &c, V const &got, std::array<double, D> const &want, char const *what)
    {
        for (std::size_t d = 0; d < D; ++d)
            c.close(static_cast<double>(got[d]), want[d], 1e-13 * (1 + std::abs(want[d])), std::string(what) + " component " + std::to_string(d));
    }
    template<class V, std::size_t D>
    V make(std::array<double, D> const &a)
    {
        V v{};
        for (std::size_t d = 0; d < D; ++d)
            v[d] = a[d];
        return v;
    }
    template<std::size_t D, class F>
    std::array<double, D> each(std::array<double, D> const &a, std::array<double, D> const &b, F f)
    {
        std::array<double, D> r;
        for (std::size_t d = 0; d < D; ++d)
            r[d] = f(a[d], b[d]);
        return r;
    }

    template<std::size_t D>
    void cross_checks(Case &, std::array<double, D> const &, std::array<double, D> const &, double);
    template<>
    void cross_checks<2>(Case &c, std::array<double, 2> const &a, std::array<double, 2> const &b, double s)
    {
        using P = geometry::position<double, 2>;
        using V = geometry::vector<double, 2>;
        P pa = make<P>(a), pb = make<P>(b);
        V va = make<V>(a), vb = make<V>(b);
        double z = a[0] * b[1] - a[1] * b[0];
        c.close(geometry::cross_product(pa, pb), z, 1e-12, "cross(position, position)");
        c.close(geometry::cross_product(va, vb), z, 1e-12, "cross(vector, vector)");
        c.close(geometry::cross_product(va, pb), z, 1e-12, "cross(vector, position)");
        c.close(geometry::cross_product(pa, vb), z, 1e-12, "cross(position, vector)");
        equal(c, geometry::cross_product(s, va), std::array<double, 2>{{-s * a[1], s * a[0]}}, "cross(scalar, vector)");
        equal(c, geometry::cross_product(va, s), std::array<double, 2>{{s * a[1], -s * a[0]}}, "cross(vector, scalar)");
        equal(c, geometry::cross_product(s, pa), std::array<double, 2>{{-s * a[1], s * a[0]}}, "cross(scalar, position)");
        equal(c, geometry::cross_product(pa, s), std::array<double, 2>{{s * a[1], -s * a[0]}}, "cross(position, scalar)");
        geometry::vector<double, 1> w{s};
        equal(c, geometry::cross_product(w, va), std::array<double, 2>{{-s * a[1], s * a[0]}}, "cross(1-vector, vector)");
        equal(c, geometry::cross_product(va, w), std::array<double, 2>{{s * a[1], -s * a[0]}}, "cross(vector, 1-vector)");
    }
    template<>
    void cross_checks<3>(Case &c, std::array<double, 3> const &a, std::array<double, 3> const &b, double)
    {
        using P = geometry::position<double, 3>;
        using V = geometry::vector<double, 3>;
        std::array<double, 3> w{{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}};
        equal(c, geometry::cross_product(make<V>(a), make<V>(b)), w, "cross(vector, vector)");
        equal(c, geometry::cross_product(make<P>(a), make<P>(b)), w, "cross(position, position)");
    }

    template<std::size_t D>
    void p19(Case &c)
    {
        using P = geometry::position<double, D>;
        using I = geometry::position<int, D>;
        using V = geometry::vector<double, D>;
        using U = physics::velocity<D>;
        using F = physics::force<D>;
        using A = std::array<double, D>;
        A a, b, m;
        std::array<int, D> k;
        for (std::size_t d = 0; d < D; ++d)
        {
            a[d] = component(c);
            b[d] = component(c);
            k[d] = c.integer(0, 12) - 6;
            m[d] = c.flag() ? c.real(0.2, 3.) : -c.real(0.2, 3.); // divisors
        }
        double s = c.flag() ? c.real(0.2, 3.) : -c.real(0.2, 3.);
        c.note("a", a);
        c.note("b", b);
        c.note("m", m);
        c.note("s", s);
        auto add = [](double x, double y) { return x + y; };
        auto sub = [](double x, double y) { return x - y; };
        auto mul = [](double x, double y) { return x * y; };
        auto quo = [](double x, double y) { return x / y; };
        A fs, kd;
        fs.fill(s);
        for (std::size_t d = 0; d < D; ++d)
            kd[d] = k[d];
        I ki = make<I, D>(kd);
        // binary forms, then the compound ones; operands must not change
        P const p = make<P>(a), q = make<P>(b);
        V const v = make<V>(a), w = make<V>(b);
        U const u = make<U>(b), t = make<U>(a);
        F const f = make<F>(a), g = make<F>(b);
        equal(c, p + q, each(a, b, add), "position + position");
        equal(c, p - q, each(a, b, sub), "position - position");
        equal(c, p * q, each(a, b, mul), "position * position");
        equal(c, p + u, each(a, b, add), "position + velocity");
        equal(c, p + s, each(a, fs, add), "position + scalar");
        equal(c, p - s, each(a, fs, sub), "position - scalar");
        equal(c, p / s, each(a, fs, quo), "position / scalar");
        equal(c, p / m, each(a, m, quo), "position / array");
        equal(c, p * m, each(a, m, mul), "position * array");
        equal(c, ki * m, each(kd, m, mul), "integer position * array");
        equal(c, ki + ki, each(kd, kd, add), "integer position + integer position");
        equal(c, ki * p, each(kd, a, mul), "integer position * position");
        equal(c, geometry::floor(p), each(a, a, [](double x, double) { return std::floor(x); }), "floor(position)");
        equal(c, geometry::ceil(p), each(a, a, [](double x, double) { return std::ceil(x); }), "ceil(position)");
        equal(c, static_cast<P>(ki), kd, "position from an integer position");
        equal(c, static_cast<I>(p), each(a, a, [](double x, double) { return std::trunc(x); }), "integer position from a position");
        equal(c, v + w, each(a, b, add), "vector + vector");
        equal(c, v * s, each(a, fs, mul), "vector * scalar");
        equal(c, s * v, each(a, fs, mul), "scalar * vector");
        equal(c, v / s, each(a, fs, quo), "vector / scalar");
        equal(c, v / 4, each(a, a, [](double x, double) { return x / 4; }), "vector / integer");
        equal(c, -v, each(a, a, [](double x, double) { return -x; }), "- vector");
        equal(c, v - u, each(a, b, sub), "vector - velocity");
        equal(c, u - v, each(b, a, sub), "velocity - vector");
        equal(c, V{p}, a, "vector from a position");
        equal(c, V{u}, b, "vector from a velocity");
        equal(c, t + u, each(a, b, add), "velocity + velocity");
        equal(c, f + g, each(a, b, add), "force + force");
        equal(c, f - g, each(a, b, sub), "force - force");
        equal(c, f * s, each(a, fs, mul), "force * scalar");
        equal(c, s * f, each(a, fs, mul), "scalar * force");
        equal(c, f + s, each(a, fs, add), "force + scalar");
        equal(c, s + f, each(a, fs, add), "scalar + force");
        {
            P x{p};
            equal(c, x += q, each(a, b, add), "position += position");
            x = p;
            equal(c, x -= q, each(a, b, sub), "position -= position");
            x = p;
            equal(c, x *= q, each(a, b, mul), "position *= position");
            x = p;
            equal(c, x *= m, each(a, m, mul), "position *= array");
            x = p;
            equal(c, x /= m, each(a, m, quo), "position /= array");
            x = p;
            equal(c, x += u, each(a, b, add), "position += velocity");
            x = p;
            equal(c, x += s, each(a, fs, add), "position += scalar");
            x = p;
            equal(c, x -= s, each(a, fs, sub), "position -= scalar");
            x = p;
            equal(c, x /= s, each(a, fs, quo), "position /= scalar");
        }
        {
            V x{v};
            equal(c, x += w, each(a, b, add), "vector += vector");
            x = v;
            equal(c, x -= w, each(a, b, sub), "vector -= vector");
            x = v;
            equal(c, x *= w, each(a, b, mul), "vector *= vector");
            x = v;
            equal(c, x *= s, each(a, fs, mul), "vector *= scalar");
            x = v;
            equal(c, x /= s, each(a, fs, quo), "vector /= scalar");
            x = v;
            equal(c, x += u, each(a, b, add), "vector += velocity");
            x = v;
            equal(c, x -= u, each(a, b, sub), "vector -= velocity");
        }
        {
            U x{t};
            equal(c, x += u, each(a, b, add), "velocity += velocity");
            F y{f};
            equal(c, y += g, each(a, b, add), "force += force");
            y = f;
            equal(c, y -= g, each(a, b, sub), "force -= force");
            y = f;
            equal(c, y *= s, each(a, fs, mul), "force *= scalar");
            y = f;
            equal(c, y += s, each(a, fs, add), "force += scalar");
            y.fill(s);
            equal(c, y, fs, "force fill");
        }
        equal(c, p, a, "position operand afterwards");
        equal(c, v, a, "vector operand afterwards");
        equal(c, u, b, "velocity operand afterwards");
        equal(c, f, a, "force operand afterwards");
        cross_checks<D>(c, a, b, s);
        // differences and distances between particles
        {
            using shape = typename std::conditional<D == 2, geometry::circle<>, geometry::sphere<>>::type;
            shape s1(p, 0.5), s2(q, 0.25);
            using ang = typename particle<shape>::angular_velocity_type;
            particle<shape> p1(s1, t, ang{}), p2(s2, u, ang{});
            A df = each(a, b, sub);
            double n = 0;
            for (auto x : df)
                n += x * x;
            equal(c, (position_diff<shape, D>(p1, p2)), df, "position_diff");
            equal(c, (velocity_diff<shape, D>(p1, p2)), df, "velocity_diff");
            c.close((distance<shape, D>(p1, p2)), std::sqrt(n), 1e-12, "distance");
        }
        c.nontrivial = true;
    }
    PROPERTY("P19.2d", p19<2>);
    PROPERTY("P19.3d", p19<3>);

    // ---------------------------------------------------------------- P20
    using mat3 = std::array<std::array<double, 3>, 3>;
    mat3 rodrigues(double t, std::array<double, 3> const &n)
    {
        mat3 K{{{{0, -n[2], n[1]}}, {{n[2], 0, -n[0]}}, {{-n[1], n[0], 0}}}}, R;
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j)
            {
                double k2 = 0;
                for (int k = 0; k < 3; ++k)
                    k2 += K[i][k] * K[k][j];
                R[i][j] = (i == j) + std::sin(t) * K[i][j] + (1 - std::cos(t)) * k2;
            }
        return R;
    }
    std::array<double, 3> apply(mat3 const &R, std::array<double, 3> const &x)
    {
        std::array<double, 3> y{{0, 0, 0}};
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j)
                y[i] += R[i][j] * x[j];
        return y;
    }
    double gen_angle(Case &c)
    {
        return c.flag(1, 3) ? c.integer(-8, 8) * M_PI / 4 : c.real(-2 * M_PI, 2 * M_PI);
    }
    std::array<double, 3> gen_axis(Case &c)
    {
        if (c.flag(1, 4))
        {
            std::array<double, 3> n{{0, 0, 0}};
            n[c.integer(0, 2)] = c.flag() ? 1 : -1;
            return n;
        }
        double z = c.real(-1, 1), t = c.real(0, 2 * M_PI), r = std::sqrt(std::max(0., 1 - z * z));
        return {{r * std::cos(t), r * std::sin(t), z}};
    }

    void p20(Case &c)
    {
        double t = gen_angle(c);
        auto n = gen_axis(c);
        std::array<double, 3> x{{c.real(-3, 3), c.real(-3, 3), c.real(-3, 3)}};
        c.note("angle", t);
        c.note("axis", n);
        c.note("x", x);
        geometry::quaternion q(t, {n[0], n[1], n[2]});
        geometry::position<double, 3> p{x[0], x[1], x[2]};
        auto want = apply(rodrigues(t, n), x);
        auto got = q.rotate(p);
        equal(c, got, want, "rotated point");
        equal(c, q.conj().rotate(got), x, "rotated back by the conjugate");
        equal(c, q.rotate(q.rotate(p)), apply(rodrigues(2 * t, n), x), "rotated twice");
        geometry::quaternion q2(t);
        geometry::position<double, 2> p2{x[0], x[1]};
        auto g2 = q2.rotate(p2);
        equal(c, g2, std::array<double, 2>{{std::cos(t) * x[0] - std::sin(t) * x[1], std::sin(t) * x[0] + std::cos(t) * x[1]}},
              "point of the plane rotated");
        equal(c, q2.conj().rotate(g2), std::array<double, 2>{{x[0], x[1]}}, "point of the plane rotated back");
        auto flat = apply(rodrigues(t, n), {{x[0], x[1], 0}});
        equal(c, q.rotate(p2), std::array<double, 2>{{flat[0], flat[1]}}, "planar part of a rotated point of the plane");
        equal(c, q2.rotate(p), apply(rodrigues(t, {{0, 0, 1}}), x), "rotation about the third axis");
        c.check(q.is_rotate(), "is_rotate of a quaternion");
        c.check(!geometry::quaternion{}.is_rotate(), "is_rotate of the empty quaternion");
        // normalisation
        geometry::quaternion r;
        std::array<double, 4> k{{c.real(-2, 2), c.real(-2, 2), c.real(-2, 2), c.real(0.01, 2)}};
        double norm = 0;
        for (int i = 0; i < 4; ++i)
        {
            r.components_[i] = k[i];
            norm += k[i] * k[i];
        }
        r.normalize();
        for (int i = 0; i < 4; ++i)
            c.close(r.components_[i], k[i] / std::sqrt(norm), 1e-13, "component " + std::to_string(i) + " after normalize");
        c.nontrivial = std::abs(t) > 1e-3;
    }
    PROPERTY("P20", p20);

    // ---------------------------------------------------------------- shapes
    template<std::size_t D>
    struct shape_data
    {
        std::array<double, D> center, axes;
        double n = 2, e = 2, angle = 0;
        std::array<double, 3> axis{{0, 0, 1}};
        bool rotated = false;
        geometry::quaternion q() const
        {
            return rotated ? geometry::quaternion(angle, {axis[0], axis[1], axis[2]}) : geometry::quaternion{};
        }
        // local coordinates of a point
        std::array<double, 3> local(std::array<double, D> const &p) const
        {
            std::array<double, 3> x{{0, 0, 0}};
            for (std::size_t d = 0; d < D; ++d)
                x[d] = p[d] - center[d];
            return rotated ? apply(rodrigues(-angle, axis), x) : x;
        }
        std::array<double, D> global(std::array<double, 3> x) const
        {
            if (rotated)
                x = apply(rodrigues(angle, axis), x);
            std::array<double, D> p;
            for (std::size_t d = 0; d < D; ++d)
                p[d] = x[d] + center[d];
            return p;
        }
        // < 1 inside
        double level(std::array<double, D> const &p) const
        {
            auto x = local(p);
            std::array<double, 3> a{{0, 0, 0}};
            for (std::size_t d = 0; d < D; ++d)
                a[d] = std::abs(x[d]) / axes[d];
            if (D == 2)
                return std::pow(a[0], n) + std::pow(a[1], n);
            return std::pow(std::pow(a[0], e) + std::pow(a[1], e), n / e) + std::pow(a[2], n);
        }
        // scale t > 0 such that the boundary in direction x is at x * t
        std::array<double, D> boundary(std::array<double, D> const &dir) const
        {
            std::array<double, D> p;
            for (std::size_t d = 0; d < D; ++d)
                p[d] = center[d] + dir[d];
            double l = level(p), t = std::pow(l, -1. / n);
            for (std::size_t d = 0; d < D; ++d)
                p[d] = center[d] + dir[d] * t;
            return p;
        }
    };
    template<std::size_t D>
    std::array<double, D> direction(Case &c)
    {
        std::array<double, D> v;
        double n = 0;
        for (std::size_t d = 0; d < D; ++d)
        {
            v[d] = c.flag(1, 8) ? 0. : c.real(-1, 1);
            n += v[d] * v[d];
        }
        if (n < 1e-4)
        {
            v[0] = 1;
            n = 1;
            for (std::size_t d = 1; d < D; ++d)
                v[d] = 0;
        }
        for (auto &x : v)
            x /= std::sqrt(n);
        return v;
    }
    template<std::size_t D>
    geometry::position<double, D> pos(std::array<double, D> const &a)
    {
        return make<geometry::position<double, D>>(a);
    }
    template<std::size_t D>
    std::array<double, D> arr(geometry::position<double, D> const &p)
    {
        std::array<double, D> a;
        for (std::size_t d = 0; d < D; ++d)
            a[d] = p[d];
        return a;
    }
    geometry::super_ellipsoid<double, 2> build(shape_data<2> const &s)
    {
        return make_ellipsoid<2>(pos<2>(s.center), s.axes, s.n, s.q());
    }
    geometry::super_ellipsoid<double, 3> build(shape_data<3> const &s)
    {
        return make_ellipsoid<3>(pos<3>(s.center), s.axes, s.n, s.e, s.q());
    }

    enum kind
    {
        round_shape,
        ellipsoid
    };
    template<std::size_t D>
    shape_data<D> gen_shape(Case &c, kind k)
    {
        shape_data<D> s;
        double r = c.real_near(0.5, 0.05, 2.);
        for (std::size_t d = 0; d < D; ++d)
        {
            s.center[d] = c.real(-2., 2.);
            s.axes[d] = k == ellipsoid && c.flag(2, 3) ? c.real_near(0.5, 0.1, 2.) : r;
        }
        if (k == ellipsoid)
        {
            bool quadric = c.flag(1, 3); // a proper ellipse or ellipsoid
            s.n = quadric || c.flag(1, 3) ? 2. : c.real_near(2., 1., 6.);
            s.e = quadric || c.flag(1, 3) ? 2. : c.real_near(2., 1., 6.);
        }
        s.rotated = c.flag(1, 2);
        if (s.rotated)
        {
            s.angle = gen_angle(c);
            if (D == 3)
                s.axis = gen_axis(c);
        }
        c.note("center", s.center);
        c.note("axes", s.axes);
        c.note("n", s.n);
        if (D == 3)
            c.note("e", s.e);
        if (s.rotated)
        {
            c.note("angle", s.angle);
            c.note("axis", s.axis);
            c.label("rotated");
        }
        if (s.n != 2 || s.e != 2)
            c.label("superquadric");
        return s;
    }

    // a sampling step, now and then one that divides the circle (by a multiple of eight: samples on the diagonals)
    double gen_step(Case &c, double lo, double hi)
    {
        if (!c.flag(2, 5))
            return c.real(lo, hi);
        int a = std::ceil(2 * M_PI / hi), b = std::floor(2 * M_PI / lo), n = c.integer(a, b);
        if (c.flag(2, 3))
            n = std::max(8, (n + 4) / 8 * 8);
        c.label(n % 8 ? "divides the circle" : "samples on the diagonals");
        return 2 * M_PI / n;
    }

    // ---------------------------------------------------------------- P21
    template<std::size_t D, class S>
    void inside_checks(Case &c, shape_data<D> const &s, S const &shape)
    {
        double far = 0;
        for (auto a : s.axes)
            far += a * a;
        far = std::sqrt(far);
        int inside = 0;
        for (int k = 0; k < 12; ++k)
        {
            // around the boundary along a direction, or anywhere near
            auto dir = direction<D>(c);
            auto p = s.boundary(dir);
            double f = c.flag(1, 4) ? c.real(0., 2.) : 1 + (c.flag() ? 1 : -1) * std::pow(10., -c.integer(1, 6));
            for (std::size_t d = 0; d < D; ++d)
                p[d] = s.center[d] + (p[d] - s.center[d]) * f;
            double l = s.level(p);
            if (std::abs(l - 1) < 1e-8)
                continue;
            inside += l < 1;
            c.check(shape.contains(pos<D>(p)) == (l < 1), "contains(" + pbt::str(p) + ") is wrong: level " + pbt::num(l));
            c.check(shape.contains(pos<D>(p)) == (shape.implicit(pos<D>(p)) < 1), "contains disagrees with implicit");
            c.close(shape.implicit(pos<D>(p)), l, 1e-9 * (1 + l), "implicit(" + pbt::str(p) + ")");
        }
        // the bounding box
        auto b = shape.bounding_box();
        std::array<double, D> h;
        for (auto &x : h)
            x = c.real(0.02, 0.5);
        auto bi = shape.bounding_box(h);
        for (int k = 0; k < 8; ++k)
        {
            auto dir = k < 2 * static_cast<int>(D) ? s.global([&] {
                std::array<double, 3> e{{0, 0, 0}};
                e[k / 2] = k % 2 ? 1 : -1;
                return e;
            }())
                                                   : direction<D>(c);
            if (k < 2 * static_cast<int>(D))
                for (std::size_t d = 0; d < D; ++d)
                    dir[d] -= s.center[d];
            auto p = s.boundary(dir);
            for (std::size_t d = 0; d < D; ++d)
            {
                c.check(p[d] >= b.bottom_left[d] - 1e-12 && p[d] <= b.upper_right[d] + 1e-12,
                        "the boundary point " + pbt::str(p) + " is outside the bounding box " + show<double, D>(b));
                // cells and nodes of the shape are inside the half-open grid box
                double x = p[d] / h[d];
                c.check(std::floor(x - 1e-12) >= bi.bottom_left[d] && std::floor(x + 1e-12) < bi.upper_right[d],
                        "the cell of boundary point " + pbt::str(p) + " is outside the grid bounding box " + show<int, D>(bi) + " h=" + pbt::str(h));
            }
        }
        for (std::size_t d = 0; d < D; ++d)
        {
            c.check(b.bottom_left[d] >= s.center[d] - far - 1e-12 && b.upper_right[d] <= s.center[d] + far + 1e-12, "the bounding box is too large");
            if (!s.rotated)
                c.check(std::abs(b.bottom_left[d] - s.center[d] + s.axes[d]) < 1e-12 && std::abs(b.upper_right[d] - s.center[d] - s.axes[d]) < 1e-12,
                        "the bounding box of an unrotated shape is not the tight one");
            c.check(bi.bottom_left[d] >= std::floor(b.bottom_left[d] / h[d]) - 2 && bi.upper_right[d] <= std::ceil(b.upper_right[d] / h[d]) + 2,
                    "the grid bounding box is too large");
        }
        c.nontrivial = inside > 0;
    }
    template<std::size_t D>
    void on_boundary(Case &c, shape_data<D> const &s, std::array<double, D> const &p, char const *what)
    {
        double l = std::pow(s.level(p), 1. / std::max(s.n, s.e));
        c.check(std::abs(l - 1) < 1e-9, std::string(what) + " " + pbt::str(p) + " is not on the boundary: level " + pbt::num(s.level(p)));
    }

    void p21_2(Case &c)
    {
        kind k = c.flag(2, 3) ? ellipsoid : round_shape;
        auto s = gen_shape<2>(c, k);
        auto shape = k == round_shape ? geometry::super_ellipsoid<double, 2>(make_circle(pos<2>(s.center), s.axes[0], s.q())) : build(s);
        inside_checks<2>(c, s, shape);
        std::vector<double> u;
        for (int i = 0; i < 10; ++i)
            u.push_back(c.flag(1, 4) ? c.integer(0, 8) * M_PI / 4 : c.real(-M_PI, 2 * M_PI));
        auto pts = shape.surface(u), rad = shape.radial_vector(u);
        if (c.check(pts.size() == u.size() && rad.size() == u.size(), "number of surface points"))
            for (std::size_t i = 0; i < u.size(); ++i)
            {
                on_boundary<2>(c, s, arr(pts[i]), "the surface point");
                for (std::size_t d = 0; d < 2; ++d)
                    c.close(rad[i][d], pts[i][d] - s.center[d], 1e-12, "radial vector");
                // the parametrisation keeps the quadrant
                auto x = s.local(arr(pts[i]));
                c.check(x[0] * std::cos(u[i]) >= -1e-9 && x[1] * std::sin(u[i]) >= -1e-9, "the parametric point is in the wrong quadrant");
            }
        for (auto const &p : shape.surface(gen_step(c, 0.02, 0.4)))
            on_boundary<2>(c, s, arr(p), "the sampled point");
    }
    PROPERTY("P21.2d", p21_2);

    void p21_3(Case &c)
    {
        kind k = c.flag(2, 3) ? ellipsoid : round_shape;
        auto s = gen_shape<3>(c, k);
        auto shape = k == round_shape ? geometry::super_ellipsoid<double, 3>(make_sphere(pos<3>(s.center), s.axes[0], s.q())) : build(s);
        inside_checks<3>(c, s, shape);
        std::vector<double> u, v;
        for (int i = 0; i < 10; ++i)
        {
            u.push_back(c.flag(1, 4) ? c.integer(0, 8) * M_PI / 4 : c.real(-M_PI, M_PI));
            v.push_back(c.flag(1, 4) ? c.integer(-2, 2) * M_PI / 4 : c.real(-M_PI / 2, M_PI / 2));
        }
        auto pts = shape.surface(u, v), rad = shape.radial_vector(u, v);
        if (c.check(pts.size() == u.size() && rad.size() == u.size(), "number of surface points"))
            for (std::size_t i = 0; i < u.size(); ++i)
            {
                on_boundary<3>(c, s, arr(pts[i]), "the surface point");
                for (std::size_t d = 0; d < 3; ++d)
                    c.close(rad[i][d], pts[i][d] - s.center[d], 1e-12, "radial vector");
            }
        double k0 = gen_step(c, 0.1, 0.5), k1 = gen_step(c, 0.1, 0.5);
        for (auto const &p : shape.surface(std::array<double, 2>{{k0, k1}}))
            on_boundary<3>(c, s, arr(p), "the sampled point");
    }
    PROPERTY("P21.3d", p21_3);

    // ---------------------------------------------------------------- P22
    void p22(Case &c)
    {
        auto s2 = gen_shape<2>(c, round_shape);
        auto s3 = gen_shape<3>(c, round_shape);
        auto circle = make_circle(pos<2>(s2.center), s2.axes[0], s2.q());
        auto sphere = make_sphere(pos<3>(s3.center), s3.axes[0], s3.q());
        double vx = c.real(-2, 2), w = c.real(-2, 2);
        auto p2 = make_particle_with_velocity(circle, {vx, -vx}, w);
        auto p3 = make_particle_with_velocity(sphere, {vx, -vx, w}, {w, w, vx});
        auto f2 = make_particle_with_force(circle, physics::force<2>{vx, w}, 2.);
        auto f3 = make_particle_with_force(sphere, physics::force<3>{vx, w, 1.}, 2.);
        auto rel = [&](double got, double want, std::string const &what) { c.close(got, want, 1e-5 * std::abs(want), what); };
        // measures of the shape itself, by quadrature over its own boundary and membership test
        {
            int n = 2000;
            double per = 0, inertia = 0, area = 0, polar = 0;
            std::array<double, 2> last{}, first{};
            for (int i = 0; i <= n; ++i)
            {
                auto x = arr(circle.at(2 * M_PI * i / n));
                if (i)
                {
                    double l = std::hypot(x[0] - last[0], x[1] - last[1]);
                    double ax = last[0] - s2.center[0], ay = last[1] - s2.center[1], bx = x[0] - s2.center[0], by = x[1] - s2.center[1];
                    per += l;
                    inertia += l * (ax * ax + ay * ay);
                    double a = std::abs(ax * by - ay * bx) / 2;
                    area += a;
                    polar += a / 6 * (ax * ax + ay * ay + bx * bx + by * by + ax * bx + ay * by); // second moment of a triangle with a corner at the centre
                }
                last = x;
            }
            for (auto const *p : {&p2, &f2})
            {
                rel(p->surface_area(), per, "perimeter of a disc");
                rel(p->volume(), area, "area of a disc");
                rel(p->Cd_R(), per / inertia, "surface inertia coefficient of a disc");
                rel(p->Ci_R(), area / polar, "volume inertia coefficient of a disc");
            }
        }
        {
            // surface of revolution: trapezes in latitude
            int n = 4000;
            double area = 0, vol = 0, m2 = 0, v2 = 0;
            double R = s3.axes[0];
            for (int i = 0; i < n; ++i)
            {
                double z0 = -R + 2 * R * i / n, z1 = z0 + 2 * R / n, zm = 0.5 * (z0 + z1);
                double rm2 = R * R - zm * zm;
                area += 2 * M_PI * R * (z1 - z0); // Archimedes
                m2 += 2 * M_PI * R * (z1 - z0) * rm2;
                vol += M_PI * rm2 * (z1 - z0);
                v2 += M_PI * rm2 * rm2 / 2 * (z1 - z0);
            }
            for (auto const *p : {&p3, &f3})
            {
                rel(p->surface_area(), area, "area of a sphere");
                rel(p->volume(), vol, "volume of a sphere");
                rel(p->Cd_R(), area / m2, "surface inertia coefficient of a sphere");
                rel(p->Ci_R(), vol / v2, "volume inertia coefficient of a sphere");
            }
        }
        c.nontrivial = true;
    }
    PROPERTY("P22", p22);

    void p22_general(Case &c)
    {
        auto s = gen_shape<2>(c, ellipsoid);
        auto shape = build(s);
        double per = 0;
        int n = 4000;
        for (int i = 0; i < n; ++i)
        {
            auto d = [&](int k) {
                double t = 2 * M_PI * k / n;
                return s.boundary({{std::cos(t), std::sin(t)}});
            };
            auto a = d(i), b = d(i + 1);
            per += std::hypot(a[0] - b[0], a[1] - b[1]);
        }
        c.close(shape.surface_area(), per, 1e-2 * per, "perimeter of a super-ellipse");
        c.nontrivial = true;
    }
    PROPERTY("P22.general", p22_general);

    // ---------------------------------------------------------------- P23
    void p23_2(Case &c)
    {
        bool round = c.flag(1, 2);
        auto s = gen_shape<2>(c, round ? round_shape : ellipsoid);
        auto shape = round ? geometry::super_ellipsoid<double, 2>(make_circle(pos<2>(s.center), s.axes[0], s.q())) : build(s);
        int divides = c.flag(1, 3) ? c.integer(8, 400) : 0;
        if (divides && c.flag())
            divides = (divides + 4) / 8 * 8;
        double k = divides ? 2 * M_PI / divides : c.real_near(0.1, 0.01, 0.5);
        c.note("k", k);
        if (divides)
            c.label("divides the circle");
        auto pts = shape.surface(k);
        c.nontrivial = pts.size() > 8;
        if (!c.check(pts.size() >= 4, "fewer than four points"))
            return;
        // in the coordinates of the unit shape, by angle
        std::vector<std::array<double, 3>> u;
        for (auto const &p : pts)
        {
            auto x = s.local(arr(p));
            double a = x[0] / s.axes[0], b = x[1] / s.axes[1];
            u.push_back({{std::atan2(b, a), a, b}});
        }
        std::sort(u.begin(), u.end());
        double worst = 0;
        int close = 0;
        for (std::size_t i = 0; i < u.size(); ++i)
        {
            auto const &a = u[i], &b = u[(i + 1) % u.size()];
            double g = std::hypot(a[1] - b[1], a[2] - b[2]);
            worst = std::max(worst, g);
            close += g < 1e-9;
        }
        c.check(close == 0, "the same point is returned twice");
        if (round)
        {
            // equal steps, except across the four diagonals
            int odd = 0;
            for (std::size_t i = 0; i < u.size(); ++i)
            {
                double from = u[i][0], to = i + 1 < u.size() ? u[i + 1][0] : u[0][0] + 2 * M_PI, g = to - from;
                if (std::abs(g - k) < 1e-9)
                    continue;
                ++odd;
                double mid = (0.5 * (from + to)) / (M_PI / 2) - 0.5;
                c.check(std::abs(mid - std::round(mid)) < 1e-9 && g > 0 && g < 2 * k + 1e-9,
                        "step of " + pbt::num(g) + " between the angles " + pbt::num(from) + " and " + pbt::num(to));
            }
            c.check(odd <= 4, "more than four uneven steps");
            if (divides && divides % 8 == 0)
                c.check(odd == 0 && static_cast<int>(u.size()) == divides, "the points are not equally spaced");
        }
        c.check(worst <= (round ? 2 * k + 1e-9 : 3 * k), "gap of " + pbt::num(worst) + " on the unit shape for a spacing of " + pbt::num(k));
        c.note("gap/k", worst / k);
        c.note("n", pts.size());
        c.check(pts.size() <= 8 * (std::ceil(1 / k) + 2), "far more points (" + std::to_string(pts.size()) + ") than the spacing asks for");
    }
    PROPERTY("P23.2d", p23_2);

    void p23_3(Case &c)
    {
        bool round = c.flag(2, 3);
        auto s = gen_shape<3>(c, round ? round_shape : ellipsoid);
        auto shape = round ? geometry::super_ellipsoid<double, 3>(make_sphere(pos<3>(s.center), s.axes[0], s.q())) : build(s);
        int divides = c.flag(1, 3) ? c.integer(8, 60) : 0;
        if (divides && c.flag())
            divides = (divides + 4) / 8 * 8;
        double k = divides ? 2 * M_PI / divides : c.real_near(0.3, 0.1, 0.6);
        double k0 = c.flag(1, 4) ? (c.flag() ? k * c.real(0.5, 1.) : k / 2) : k;
        c.note("k", k);
        c.note("k0", k0);
        if (divides)
            c.label("divides the circle");
        auto pts = shape.surface(std::array<double, 2>{{k0, k}});
        c.nontrivial = pts.size() > 20;
        c.note("n", pts.size());
        std::vector<std::array<double, 3>> u;
        for (auto const &p : pts)
        {
            auto x = s.local(arr(p));
            for (int d = 0; d < 3; ++d)
                x[d] /= s.axes[d];
            u.push_back(x);
        }
        auto dist = [](std::array<double, 3> const &a, std::array<double, 3> const &b) {
            return std::sqrt((a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2]));
        };
        for (std::size_t i = 0; i < u.size(); ++i)
            for (std::size_t j = 0; j < i; ++j)
                if (dist(u[i], u[j]) < 1e-9)
                {
                    c.check(false, "the point " + pbt::str(u[i]) + " of the unit shape is returned twice");
                    return;
                }
        // every point of the surface is near a sample; the mirror images of samples are samples
        double worst = 0;
        for (int m = 0; m < 40; ++m)
        {
            auto dir = direction<3>(c);
            auto x = s.local(s.boundary(dir));
            for (int d = 0; d < 3; ++d)
                x[d] /= s.axes[d];
            double best = 10;
            for (auto const &y : u)
                best = std::min(best, dist(x, y));
            worst = std::max(worst, best);
        }
        c.note("hole/k", worst / k);
        c.check(worst <= (round ? 1.5 : 2.5) * k, "no sample within " + pbt::num(worst) + " of a point of the unit shape for a spacing of " + pbt::num(k));
        for (auto const &x : u)
            for (int d = 0; d < 3; ++d)
            {
                auto y = x;
                y[d] = -y[d];
                double best = 10;
                for (auto const &z : u)
                    best = std::min(best, dist(y, z));
                if (best > 1e-9)
                {
                    c.check(false, "the mirror image of the sample " + pbt::str(x) + " in direction " + std::to_string(d) + " is no sample");
                    return;
                }
            }
        c.check(u.size() <= 4 * M_PI * 2.5 / (k * k0) + 60, "far more points (" + std::to_string(u.size()) + ") than the spacing asks for");
    }
    PROPERTY("P23.3d", p23_3);
} // namespace

PBT_MAIN
