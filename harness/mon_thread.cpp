// Concurrency workload: the library has no mutable shared state, so any number
// of threads may use it at once: on shared operands that nobody writes, on
// private results, and on disjoint parts of shared arrays. Observers: the race
// detector this is built with, and a comparison of every result, bit for bit,
// with what one thread alone computes. The threads start first, on a process in
// which nothing has been called yet, so that one-time initialisation is part of
// what is raced.
#include "tasks.hpp"

#include <atomic>
#include <thread>
using namespace vf;

static const int NT = 8;

struct Barrier
{
    std::atomic<int> n, phase;
    Barrier()
        : n(0)
        , phase(0)
    {}
    void wait()
    {
        int p = phase.load();
        if (n.fetch_add(1) + 1 == NT)
        {
            n.store(0);
            phase.fetch_add(1);
        }
        else
            while (phase.load() == p) std::this_thread::yield();
    }
};

// ---- one shared array, every thread transforming its own part of it
template <class V, class X>
static void parts(Rng& g, char const* nm, V const& v, uint64_t it)
{
    size_t cut[NT + 1];
    cut[0] = 0;
    for (int t = 0; t < NT; ++t) cut[t + 1] = cut[t] + size_t(g.below(8));
    size_t n = cut[NT];
    std::vector<X> in(n), inp, sep(n), want(n);
    for (auto& e : in) e = any<X>(g);
    inp        = in;
    V const& c = v;
    std::atomic<int> go(0);
    std::vector<std::thread> th;
    X const* src = in.data();
    X* dst       = sep.data();
    X* self      = inp.data();
    for (int t = 0; t < NT; ++t)
        th.emplace_back([&, t] {
            go.fetch_add(1, std::memory_order_relaxed);
            while (go.load(std::memory_order_relaxed) < NT) std::this_thread::yield();
            for (int rep = 0; rep < 3; ++rep) c(const_cast<X*>(src) + cut[t], dst + cut[t], cut[t + 1] - cut[t]);
            c(self + cut[t], self + cut[t], cut[t + 1] - cut[t]);
        });
    for (auto& t : th) t.join();
    for (int t = 0; t < NT; ++t)
    {
        std::vector<X> a(in.begin() + long(cut[t]), in.begin() + long(cut[t + 1]));
        v(a.data(), want.data() + cut[t], a.size());
    }
    for (size_t i = 0; i < n; ++i)
    {
        Obs w = obs(want[i]), s = obs(sep[i]), p = obs(inp[i]);
        bool ok = true;
        for (int j = 0; j < kinfo(KindOf<X>::k).n; ++j)
            ok = ok && fbits(w.c[j]) == fbits(s.c[j]) && fbits(w.c[j]) == fbits(p.c[j]);
        check(std::string(nm) + " on parts of a shared array",
              showx(in[i]) + " alone " + showx(want[i]) + " concurrently " + showx(sep[i]) + " in place " + showx(inp[i]),
              hobs(hmix(it, i), KindOf<X>::k, w), ok);
    }
}

int main(int argc, char** argv)
{
    Args a = args(argc, argv);
    Rng g(a.seed);
    std::vector<Task> ts;
    for (int v = 0; v < 6; ++v) tasks(g, ts, v);
    size_t N = ts.size();
    // what each thread computed for each task, and how often it disagreed with itself
    std::vector<std::vector<Out> > res(NT, std::vector<Out>(N));
    std::vector<std::vector<Out> > bad(NT, std::vector<Out>(N));
    std::vector<std::atomic<int> > inflight(N);
    for (auto& x : inflight) x.store(0);
    std::atomic<uint64_t> overlaps(0), runs(0), busy(0);
    std::vector<std::atomic<unsigned char> > together(N);
    for (auto& x : together) x.store(0);
    Barrier bar;
    std::atomic<int> nbusy(0);
    std::vector<std::thread> th;
    for (int t = 0; t < NT; ++t)
        th.emplace_back([&, t] {
            Rng lg(a.seed * 977 + uint64_t(t));
            std::vector<size_t> order(N);
            for (size_t i = 0; i < N; ++i) order[i] = i;
            uint64_t my = 0, ov = 0, bz = 0;
            auto run = [&](size_t i) {
                // relaxed counters: they observe overlap and order nothing
                int before = inflight[i].fetch_add(1, std::memory_order_relaxed);
                int b2     = nbusy.fetch_add(1, std::memory_order_relaxed);
                Out o;
                ts[i].f(o);
                nbusy.fetch_sub(1, std::memory_order_relaxed);
                int after = inflight[i].fetch_sub(1, std::memory_order_relaxed);
                ++my;
                if (b2 > 0) ++bz;
                if (before > 0 || after > 1)
                {
                    ++ov;
                    together[i].store(1, std::memory_order_relaxed);
                }
                if (res[size_t(t)][i].empty()) res[size_t(t)][i] = o;
                else if (res[size_t(t)][i] != o) bad[size_t(t)][i] = o;
            };
            // first contact with each operation is simultaneous
            for (size_t i = 0; i < N; ++i)
            {
                if (i % 16 == 0) bar.wait();
                run(i);
            }
            for (uint64_t rep = 0; rep < a.n; ++rep)
            {
                for (size_t i = N; i > 1; --i) std::swap(order[i - 1], order[size_t(lg.below(int(i)))]);
                for (size_t i = 0; i < N; ++i)
                {
                    if (lg.chance(64)) std::this_thread::yield();
                    run(order[i]);
                }
                // everyone on the same operation at the same time
                bar.wait();
                for (size_t i = 0; i < 24; ++i)
                {
                    size_t j = size_t((rep * 24 + i) % N);
                    for (int k = 0; k < 6; ++k) run(j);
                }
            }
            runs.fetch_add(my), overlaps.fetch_add(ov), busy.fetch_add(bz);
        });
    for (auto& t : th) t.join();
    for (size_t i = 0; i < N; ++i)
    {
        Out o;
        ts[i].f(o);
        uint64_t h = i;
        for (auto w : o) h = hmix(h, w);
        for (int t = 0; t < NT; ++t)
        {
            Out const& r = res[size_t(t)][i];
            bool ok      = r == o && bad[size_t(t)][i].empty();
            std::string d = "thread " + fmt("%.0f", t);
            if (!ok)
            {
                Out const& w = r == o ? bad[size_t(t)][i] : r;
                for (size_t j = 0; j < o.size() && j < w.size(); ++j)
                    if (o[j] != w[j])
                    {
                        float x, y;
                        std::memcpy(&x, &o[j], 4), std::memcpy(&y, &w[j], 4);
                        d += " result " + fmt("%.0f", double(j)) + ": alone " + fmt("%.9g", x) + " concurrently " + fmt("%.9g", y);
                    }
            }
            check(ts[i].name, d, hmix(h, uint64_t(t)), ok);
        }
    }
    float c[8];
    for (uint64_t it = 0; it < a.n * 2 + 2; ++it)
    {
        motor_coefs(unit_motor(g), c);
        motor m = mk<motor>(c);
        coefs_of(ROTOR, unit_motor(g, 0), c);
        rotor r = mk<rotor>(c);
        parts<motor, point>(g, "motor(points)", m, it);
        parts<motor, line>(g, "motor(lines)", m, it);
        parts<motor, plane>(g, "motor(planes)", m, it);
        parts<motor, direction>(g, "motor(directions)", m, it);
        parts<rotor, point>(g, "rotor(points)", r, it);
        parts<rotor, line>(g, "rotor(lines)", r, it);
        parts<rotor, plane>(g, "rotor(planes)", r, it);
        parts<rotor, direction>(g, "rotor(directions)", r, it);
    }
    int tog = 0;
    for (auto& x : together) tog += x.load();
    std::printf("STAT\ttask_runs\t%llu\n", (unsigned long long)runs.load());
    std::printf("STAT\tsame_operation_overlaps\t%llu\n", (unsigned long long)overlaps.load());
    std::printf("STAT\truns_with_other_threads_inside\t%llu\n", (unsigned long long)busy.load());
    std::printf("STAT\ttasks\t%d\n", int(N));
    std::printf("STAT\ttasks_seen_overlapping\t%d\n", tog);
    return R().finish();
}
