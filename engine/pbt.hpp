// A small property-based testing engine for MPI/PETSc code.
//
// A case is a pure function of a sequence of bounded integer choices.  The choices come from a
// splitmix64 stream seeded by (seed, property name, case index), are recorded, and a failing
// sequence is shrunk (shorter and smaller first) while the case keeps failing.  All MPI ranks draw
// the same choices; the verdict is reduced over all ranks.
//
//   prog --prop NAME --seed S --first I --cases N --out FILE [--cpu SECONDS]
//   prog --prop NAME --replay CHOICES_FILE --out FILE
#pragma once
#include <petsc.h>

#include <algorithm>
#include <array>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iomanip>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <vector>

namespace pbt
{
    inline std::uint64_t mix(std::uint64_t z)
    {
        z += 0x9e3779b97f4a7c15ull;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    // a double in [-1, 1] from integers
    inline double unit(std::uint64_t a, std::uint64_t b)
    {
        return static_cast<double>(mix(a * 0x9e3779b97f4a7c15ull + mix(b)) >> 11) / 4503599627370496.0 - 1.0;
    }

    // shared-memory style log of the current case (survives a crash)
    struct crash_log
    {
        static constexpr std::size_t capacity = 1 << 16;
        std::uint64_t *mem = nullptr; // [0] case index, [1] number of choices, [2..] choices
        void open(std::string const &path)
        {
            int fd = ::open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
            if (fd < 0)
                return;
            if (::ftruncate(fd, capacity * 8) == 0)
            {
                void *p = ::mmap(nullptr, capacity * 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
                if (p != MAP_FAILED)
                    mem = static_cast<std::uint64_t *>(p);
            }
            ::close(fd);
        }
        void start(std::uint64_t i)
        {
            if (mem)
            {
                mem[1] = 0;
                mem[0] = i + 1;
            }
        }
        void add(std::uint64_t v)
        {
            if (mem && mem[1] + 2 < capacity)
            {
                mem[2 + mem[1]] = v;
                ++mem[1];
            }
        }
        void stop()
        {
            if (mem)
                mem[0] = 0;
        }
    };
    inline crash_log &the_log()
    {
        static crash_log l;
        return l;
    }

    struct source
    {
        std::vector<std::uint64_t> given, rec;
        bool replay = false;
        std::size_t pos = 0;
        std::uint64_t state = 0;
        std::uint64_t draw(std::uint64_t n) // in [0, n)
        {
            std::uint64_t v;
            if (n == 0)
                n = 1;
            if (replay)
                v = pos < given.size() ? std::min(given[pos], n - 1) : 0;
            else
                v = mix(state++) % n;
            ++pos;
            rec.push_back(v);
            the_log().add(v);
            return v;
        }
    };

    inline std::string num(double v)
    {
        std::ostringstream s;
        s << std::setprecision(12) << v;
        return s.str();
    }
    template<class T>
    std::string str(T const &v)
    {
        std::ostringstream s;
        s << std::setprecision(12) << v;
        return s.str();
    }
    template<class T, std::size_t N>
    std::string str(std::array<T, N> const &v)
    {
        std::string s = "[";
        for (std::size_t i = 0; i < N; ++i)
            s += (i ? "," : "") + str(v[i]);
        return s + "]";
    }

    struct skip_case
    {
    };

    struct Case
    {
        source src;
        std::uint64_t index = 0;
        std::set<std::string> labels;
        bool nontrivial = false;
        std::string desc;
        std::vector<std::string> errors;
        bool skipped = false;

        // ---- drawing -------------------------------------------------------------------
        int integer(int lo, int hi) // inclusive; shrinks to lo
        {
            return lo + static_cast<int>(src.draw(static_cast<std::uint64_t>(hi - lo) + 1));
        }
        bool flag(int num = 1, int den = 2) // shrinks to false
        {
            return static_cast<int>(src.draw(den)) >= den - num;
        }
        // a real number on a grid of 2^20 steps; shrinks to `lo`
        double real(double lo, double hi)
        {
            return lo + (hi - lo) * static_cast<double>(src.draw((1u << 20) + 1)) / (1u << 20);
        }
        // a real number that shrinks towards `simple`, alternating around it is not attempted
        double real_near(double simple, double lo, double hi)
        {
            std::uint64_t v = src.draw((1u << 20) + 1);
            if (v == 0)
                return simple;
            return lo + (hi - lo) * static_cast<double>(v) / (1u << 20);
        }
        template<class T>
        T pick(std::initializer_list<T> l)
        {
            return *(l.begin() + src.draw(l.size()));
        }
        std::uint64_t seed()
        {
            return src.draw(1u << 30);
        }

        // ---- reporting -----------------------------------------------------------------
        void label(std::string const &s) { labels.insert(s); }
        template<class T>
        void note(std::string const &k, T const &v)
        {
            if (desc.size() < 4000)
                desc += (desc.empty() ? "" : " ") + k + "=" + str(v);
        }
        bool check(bool ok, std::string const &msg)
        {
            if (!ok && errors.size() < 6)
                errors.push_back(msg);
            return ok;
        }
        bool close(double got, double want, double tol, std::string const &msg)
        {
            if (std::abs(got - want) <= tol)
                return true;
            return check(false, msg + ": got " + num(got) + ", expected " + num(want) + " (tolerance " + num(tol) + ")");
        }
        bool failed() const { return !errors.empty(); }
        void petsc(PetscErrorCode ierr, std::string const &what)
        {
            if (ierr)
                check(false, "PETSc error " + std::to_string(static_cast<int>(ierr)) + " from " + what);
        }
    };

    using prop_fn = std::function<void(Case &)>;
    struct registry
    {
        std::map<std::string, prop_fn> props;
        static registry &get()
        {
            static registry r;
            return r;
        }
    };
    struct reg
    {
        reg(char const *name, prop_fn f) { registry::get().props[name] = f; }
    };

    // ---- sub-communicators -----------------------------------------------------------------
    inline std::vector<MPI_Comm> &subcomms()
    {
        static std::vector<MPI_Comm> c;
        return c;
    }
    inline int world_size()
    {
        int n;
        MPI_Comm_size(MPI_COMM_WORLD, &n);
        return n;
    }
    inline int world_rank()
    {
        int n;
        MPI_Comm_rank(MPI_COMM_WORLD, &n);
        return n;
    }
    inline void init_subcomms()
    {
        int n = world_size(), r = world_rank();
        subcomms().assign(n + 1, MPI_COMM_NULL);
        for (int i = 1; i <= n; ++i)
            MPI_Comm_split(MPI_COMM_WORLD, r < i ? 0 : MPI_UNDEFINED, r, &subcomms()[i]);
    }
    // makes PETSC_COMM_WORLD the communicator of the first np ranks while it lives
    struct world
    {
        MPI_Comm saved;
        bool active;
        int np;
        explicit world(int n) : saved(PETSC_COMM_WORLD), np(n)
        {
            active = world_rank() < n;
            if (active)
                PETSC_COMM_WORLD = subcomms()[n];
        }
        world(world const &) = delete;
        ~world() { PETSC_COMM_WORLD = saved; }
    };
    // every rank alone
    struct self_world
    {
        MPI_Comm saved;
        self_world() : saved(PETSC_COMM_WORLD) { PETSC_COMM_WORLD = PETSC_COMM_SELF; }
        self_world(self_world const &) = delete;
        ~self_world() { PETSC_COMM_WORLD = saved; }
    };

    // ---- PETSc errors ----------------------------------------------------------------------
    struct petsc_errors
    {
        static std::vector<std::string> &list()
        {
            static std::vector<std::string> l;
            return l;
        }
        static int &muted()
        {
            static int m = 0;
            return m;
        }
        static PetscErrorCode handler(MPI_Comm, int line, const char *fun, const char *file, PetscErrorCode n, PetscErrorType p,
                                      const char *mess, void *)
        {
            if (p == PETSC_ERROR_INITIAL && !muted() && list().size() < 4)
                list().push_back(std::string("PETSc error ") + std::to_string(static_cast<int>(n)) + " in " + (fun ? fun : "?") + " (" +
                                 (file ? file : "?") + ":" + std::to_string(line) + ") " + (mess ? mess : ""));
            return n;
        }
    };
    struct mute_petsc
    {
        mute_petsc() { ++petsc_errors::muted(); }
        ~mute_petsc() { --petsc_errors::muted(); }
    };

    inline std::string json(std::string const &s)
    {
        std::string o = "\"";
        for (unsigned char c : s)
        {
            if (c == '"' || c == '\\')
            {
                o += '\\';
                o += static_cast<char>(c);
            }
            else if (c < 0x20 || c > 0x7e)
            {
                char b[8];
                std::snprintf(b, sizeof b, "\\u%04x", c);
                o += b;
            }
            else
                o += static_cast<char>(c);
        }
        return o + "\"";
    }

    inline int &cpu_limit()
    {
        static int l = 60;
        return l;
    }
    inline void arm_watchdog()
    {
        struct itimerval t;
        std::memset(&t, 0, sizeof t);
        t.it_value.tv_sec = cpu_limit();
        ::setitimer(ITIMER_PROF, &t, nullptr);
    }
    inline void on_prof(int)
    {
        static char const m[] = "\nPBT-HANG: the case used more CPU time than any terminating case\n";
        if (::write(2, m, sizeof m - 1)) {}
        ::_exit(86);
    }

    struct outcome
    {
        bool failed = false;
        std::vector<std::uint64_t> choices;
        std::string desc, msg;
        Case c;
    };

    inline outcome run_one(prop_fn const &fn, std::uint64_t index, std::uint64_t state, std::vector<std::uint64_t> const *given)
    {
        outcome o;
        Case &c = o.c;
        c.index = index;
        c.src.state = state;
        if (given)
        {
            c.src.replay = true;
            c.src.given = *given;
        }
        the_log().start(index);
        petsc_errors::list().clear();
        arm_watchdog();
        auto saved = PETSC_COMM_WORLD;
        try
        {
            fn(c);
        }
        catch (skip_case const &)
        {
            c.skipped = true;
        }
        catch (std::exception const &e)
        {
            c.check(false, std::string("exception: ") + e.what());
        }
        PETSC_COMM_WORLD = saved;
        for (auto const &e : petsc_errors::list())
            c.check(false, e);
        static bool const memory_only = std::getenv("PBT_MEMORY_ONLY") != nullptr;
        if (memory_only) // only what a sanitizer reports counts, and that ends the process
            c.errors.clear();
        int n = world_size(), mine = c.errors.empty() ? n : world_rank(), first = n;
        MPI_Allreduce(&mine, &first, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
        if (first < n)
        {
            o.failed = true;
            std::string m;
            if (world_rank() == first)
                for (auto const &e : c.errors)
                    m += (m.empty() ? "" : " | ") + e;
            int len = static_cast<int>(m.size());
            MPI_Bcast(&len, 1, MPI_INT, first, MPI_COMM_WORLD);
            m.resize(len);
            MPI_Bcast(&m[0], len, MPI_CHAR, first, MPI_COMM_WORLD);
            o.msg = "rank " + std::to_string(first) + ": " + m;
        }
        o.choices = c.src.rec;
        // one record for all: a process that left the case early has drawn less
        unsigned long long len = o.choices.size();
        MPI_Bcast(&len, 1, MPI_UNSIGNED_LONG_LONG, 0, MPI_COMM_WORLD);
        o.choices.resize(len);
        MPI_Bcast(o.choices.data(), static_cast<int>(len), MPI_UINT64_T, 0, MPI_COMM_WORLD);
        o.desc = c.desc;
        the_log().stop();
        PetscOptionsClear(nullptr);
        return o;
    }

    inline std::uint64_t hash_choices(std::string const &name, std::vector<std::uint64_t> const &v)
    {
        std::uint64_t h = 1469598103934665603ull;
        for (unsigned char ch : name)
            h = (h ^ ch) * 1099511628211ull;
        for (auto x : v)
            h = mix(h ^ x);
        return h;
    }

    // smaller = shorter, then lexicographically smaller
    inline bool simpler(std::vector<std::uint64_t> const &a, std::vector<std::uint64_t> const &b)
    {
        if (a.size() != b.size())
            return a.size() < b.size();
        return a < b;
    }

    inline outcome shrink(prop_fn const &fn, outcome best, int budget)
    {
        auto attempt = [&](std::vector<std::uint64_t> const &cand) {
            if (budget <= 0)
                return false;
            --budget;
            outcome o = run_one(fn, best.c.index, 0, &cand);
            if (o.failed && simpler(o.choices, best.choices))
            {
                best = o;
                return true;
            }
            return false;
        };
        bool progress = true;
        while (progress && budget > 0)
        {
            progress = false;
            // delete blocks
            for (std::size_t len : {8, 4, 2, 1})
                for (std::size_t at = 0; at + len <= best.choices.size() && budget > 0;)
                {
                    auto cand = best.choices;
                    cand.erase(cand.begin() + at, cand.begin() + at + len);
                    if (attempt(cand))
                        progress = true;
                    else
                        ++at;
                }
            // zero, then minimise each choice
            for (std::size_t at = 0; at < best.choices.size() && budget > 0; ++at)
            {
                if (best.choices[at] == 0)
                    continue;
                auto cand = best.choices;
                cand[at] = 0;
                if (attempt(cand))
                {
                    progress = true;
                    continue;
                }
                if (at >= best.choices.size())
                    break;
                std::uint64_t lo = 0, hi = best.choices[at];
                while (hi - lo > 1 && budget > 0)
                {
                    std::uint64_t mid = lo + (hi - lo) / 2;
                    cand = best.choices;
                    if (at >= cand.size())
                        break;
                    cand[at] = mid;
                    if (attempt(cand))
                    {
                        progress = true;
                        hi = mid;
                    }
                    else
                        lo = mid;
                }
            }
        }
        return best;
    }

    inline std::string choices_text(std::vector<std::uint64_t> const &v)
    {
        std::string s;
        for (auto x : v)
            s += (s.empty() ? "" : " ") + std::to_string(x);
        return s;
    }

    inline int run_main(int argc, char **argv)
    {
        std::string prop, out, replay;
        std::uint64_t seed = 1;
        long cases = 10, first = 0;
        int shrink_budget = 300;
        std::vector<char *> rest{argv[0]};
        for (int i = 1; i < argc; ++i)
        {
            std::string a = argv[i];
            auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
            if (a == "--prop")
                prop = next();
            else if (a == "--out")
                out = next();
            else if (a == "--replay")
                replay = next();
            else if (a == "--seed")
                seed = std::stoull(next());
            else if (a == "--cases")
                cases = std::stol(next());
            else if (a == "--first")
                first = std::stol(next());
            else if (a == "--cpu")
                cpu_limit() = std::stoi(next());
            else if (a == "--shrink")
                shrink_budget = std::stoi(next());
            else
                rest.push_back(argv[i]);
        }
        int rargc = static_cast<int>(rest.size());
        char **rargv = rest.data();
        if (PetscInitialize(&rargc, &rargv, nullptr, nullptr))
            return 2;
        PetscPopSignalHandler();
        PetscPushErrorHandler(petsc_errors::handler, nullptr);
        init_subcomms();
        std::signal(SIGPROF, on_prof);
        bool root = world_rank() == 0;

        auto &props = registry::get().props;
        if (!props.count(prop))
        {
            if (root)
            {
                std::printf("unknown property %s; known:", prop.c_str());
                for (auto const &p : props)
                    std::printf(" %s", p.first.c_str());
                std::printf("\n");
            }
            PetscFinalize();
            return 2;
        }
        prop_fn fn = props[prop];
        if (root)
            the_log().open(out + ".log");

        if (!replay.empty())
        {
            std::vector<std::uint64_t> given;
            std::ifstream f(replay);
            for (std::uint64_t v; f >> v;)
                given.push_back(v);
            outcome o = run_one(fn, 0, 0, &given);
            if (root)
            {
                std::ofstream f(out);
                f << "{\"failed\":" << (o.failed ? "true" : "false") << ",\"msg\":" << json(o.msg) << ",\"desc\":" << json(o.desc)
                  << ",\"choices\":" << json(choices_text(o.choices)) << "}\n";
            }
            PetscPopErrorHandler();
            PetscFinalize();
            return o.failed ? 1 : 0;
        }

        std::map<std::string, long> labels;
        std::set<std::uint64_t> nontrivial;
        std::vector<std::string> samples;
        long evals = 0, skipped = 0;
        bool bad = false;
        outcome fail;
        std::uint64_t fail_index = 0;
        std::string fail_first;
        for (long i = first; i < first + cases; ++i)
        {
            std::uint64_t state = mix(mix(seed) ^ hash_choices(prop, {static_cast<std::uint64_t>(i)}));
            outcome o = run_one(fn, i, state, nullptr);
            if (o.c.skipped)
            {
                ++skipped;
                continue;
            }
            ++evals;
            for (auto const &l : o.c.labels)
                ++labels[l];
            if (o.c.nontrivial)
            {
                bool fresh = nontrivial.insert(hash_choices(prop, o.choices)).second;
                if (fresh && (samples.size() < 3))
                    samples.push_back(prop + ": " + o.desc);
            }
            if (o.failed)
            {
                bad = true;
                fail_index = i;
                fail_first = o.msg;
                // a partial result first, in case shrinking crashes or hangs
                if (root)
                {
                    std::ofstream f(out + ".fail");
                    f << choices_text(o.choices) << "\n";
                }
                fail = shrink(fn, o, shrink_budget);
                break;
            }
        }
        if (root)
        {
            std::ofstream f(out);
            f << "{\"prop\":" << json(prop) << ",\"evaluations\":" << evals << ",\"skipped\":" << skipped << ",\"nontrivial\":[";
            bool c = false;
            for (auto h : nontrivial)
            {
                f << (c ? "," : "") << "\"" << std::hex << h << std::dec << "\"";
                c = true;
            }
            f << "],\"labels\":{";
            c = false;
            for (auto const &l : labels)
            {
                f << (c ? "," : "") << json(l.first) << ":" << l.second;
                c = true;
            }
            f << "},\"samples\":[";
            c = false;
            for (auto const &s : samples)
            {
                f << (c ? "," : "") << json(s);
                c = true;
            }
            f << "],\"failure\":";
            if (bad)
                f << "{\"case\":" << fail_index << ",\"choices\":" << json(choices_text(fail.choices)) << ",\"msg\":" << json(fail.msg)
                  << ",\"first_msg\":" << json(fail_first) << ",\"desc\":" << json(fail.desc) << "}";
            else
                f << "null";
            f << "}\n";
        }
        PetscPopErrorHandler();
        PetscFinalize();
        return bad ? 1 : 0;
    }
} // namespace pbt

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PROPERTY(name, fn) static pbt::reg PBT_CAT(pbt_reg_, __LINE__)(name, fn)
#define PBT_MAIN                                                                                                                           \
    int main(int argc, char **argv)                                                                                                        \
    {                                                                                                                                      \
        return pbt::run_main(argc, argv);                                                                                                  \
    }
