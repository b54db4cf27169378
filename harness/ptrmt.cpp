// C20: threads copying and dropping owners of shared objects, under ThreadSanitizer (and AddressSanitizer).
#include "rt.hpp"
#include <algorithm>
#include <atomic>
#include <set>
#include <thread>
#include <sched.h>
#include <time.h>
#include "Caitlyn/Memory"
using namespace rt;
using Caitlyn::SharedPtr;
using Caitlyn::WeakPtr;

static const int MAXT = 8;
static std::atomic<long> built(0), destroyed(0);
static thread_local int self_tid = -1;

struct Round
{
    long sum = 0;
    int last = -2;
    long dead = 0;
};

struct Obj
{
    long slots[MAXT + 1] = {};
    long magic = 0x5ca1ab1e;
    Round* round;
    int* payload;
    explicit Obj(Round* r) : round(r), payload(new int(4711)) { built.fetch_add(1, std::memory_order_relaxed); }
    ~Obj()
    {
        // plain accesses: without proper ordering these race with the owners' last accesses
        for (long& s : slots) round->sum += s;
        round->last = self_tid;
        round->dead += 1;
        if (magic != 0x5ca1ab1e || *payload != 4711) round->dead += 100;
        magic = 0;
        delete payload;
        destroyed.fetch_add(1, std::memory_order_relaxed);
    }
};

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 1) {}
    unsigned operator()(unsigned n)
    {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        return static_cast<unsigned>((s >> 20) % n);
    }
};

static void delay(Rng& r, unsigned level)
{
    if (level == 0 || r(8) >= level) return;
    const unsigned k = r(10);
    if (k < 5) for (volatile unsigned i = 0; i < 20 + r(400); ++i) {}
    else if (k < 9) sched_yield();
    else
    {
        timespec ts = {0, static_cast<long>(1000 + r(30000))};
        nanosleep(&ts, nullptr);
    }
}

struct Barrier
{
    std::atomic<int> in{0}, gen{0};
    int n;
    explicit Barrier(int k) : n(k) {}
    void wait()
    {
        const int g = gen.load();
        if (in.fetch_add(1) + 1 == n)
        {
            in.store(0);
            gen.fetch_add(1);
        }
        else while (gen.load() == g) sched_yield();
    }
};

void run_case(Toks& in, Out& o)
{
    in.next();
    const uint64_t seed = in.unum();
    const int nt = static_cast<int>(in.num());
    const int rounds = static_cast<int>(in.num());
    const int nops = static_cast<int>(in.num());
    const unsigned level = static_cast<unsigned>(in.unum());
    const int mode = static_cast<int>(in.num()); // bit 0: copying from one shared const pointer; bit 1: weak pointers; bit 2: main drops first
    typedef SharedPtr<Obj> SP;
    typedef WeakPtr<Obj> WP;
    built = destroyed = 0;

    std::vector<std::unique_ptr<SP>> start(static_cast<size_t>(nt));
    std::vector<std::unique_ptr<WP>> wstart(static_cast<size_t>(nt));
    std::unique_ptr<SP> root;
    std::unique_ptr<Round> round;
    struct Log { std::vector<unsigned> seq; long acc = 0; long bad = 0; long locked = 0, expired = 0, ops = 0; };
    std::vector<Log> logs(static_cast<size_t>(nt) + 1);
    std::atomic<unsigned> clock(0);
    std::atomic<bool> stop(false);
    Barrier b1(nt + 1), b2(nt + 1);

    auto worker = [&](int t) {
        self_tid = t;
        Rng r(seed * 131 + static_cast<uint64_t>(t));
        Log& lg = logs[static_cast<size_t>(t)];
        for (;;)
        {
            b1.wait();
            if (stop.load()) return;
            {
                SP p[3];
                WP w;
                p[0] = std::move(*start[static_cast<size_t>(t)]);
                start[static_cast<size_t>(t)].reset();
                if (mode & 2) w = *wstart[static_cast<size_t>(t)];
                auto touch = [&](const SP& s) {
                    if (s.Get() == nullptr) return;
                    if (s->magic != 0x5ca1ab1e || *s->payload != 4711) ++lg.bad;
                    s->slots[t] += 1;
                    ++lg.acc;
                };
                auto mark = [&] { lg.seq.push_back(clock.fetch_add(1, std::memory_order_relaxed)); };
                const int n = 1 + static_cast<int>(r(static_cast<unsigned>(nops)));
                for (int i = 0; i < n; ++i)
                {
                    delay(r, level);
                    ++lg.ops;
                    const unsigned x = r(3), y = r(3);
                    switch (r(10))
                    {
                    case 0: { const SP& s = p[y]; p[x] = s; break; }
                    case 1: if (x != y) p[x] = std::move(p[y]); break;
                    case 2: { SP tmp(p[x]); touch(tmp); break; }
                    case 3: { SP tmp(p[x]); SP t2(std::move(tmp)); std::swap(t2, p[y]); break; }
                    case 4: mark(); p[x].Reset(); break;
                    case 5: { const SP& s = p[x]; p[x] = s; touch(p[x]); break; }
                    case 6: if (mode & 1) { const SP& s = *root; SP c(s); touch(c); p[x] = c; } break;
                    case 7: if (mode & 2) { SP l = w.lock(); if (l.Get()) { ++lg.locked; touch(l); if (r(2)) p[x] = l; } else ++lg.expired; } break;
                    case 8: if (mode & 2) { WP c(w); w = p[x]; w = c; SP l(c.lock()); touch(l); } break;
                    default: touch(p[x]); break;
                    }
                }
                delay(r, level);
                mark();
                for (SP& s : p) touch(s);
                // dropped here, in reverse order
            }
            b2.wait();
        }
    };
    std::vector<std::thread> th;
    for (int t = 0; t < nt; ++t) th.emplace_back(worker, t);
    self_tid = nt;
    Rng r(seed * 977 + 5);
    long bad = 0, lastmain = 0;
    std::set<int> lasts;
    std::vector<uint64_t> sigs;
    std::string msg;
    for (int k = 0; k < rounds; ++k)
    {
        round.reset(new Round());
        root.reset(new SP(new Obj(round.get())));
        for (int t = 0; t < nt; ++t)
        {
            start[static_cast<size_t>(t)].reset(new SP(*root));
            wstart[static_cast<size_t>(t)].reset(new WP(*root));
            logs[static_cast<size_t>(t)].seq.clear();
            logs[static_cast<size_t>(t)].acc = 0;
        }
        clock.store(0);
        long mainacc = 0;
        const bool keep = (mode & 1) != 0;
        if (!keep && (mode & 4)) root.reset();
        b1.wait();
        if (root && !keep)
        {
            delay(r, level);
            (*root)->slots[nt] += 1;
            ++mainacc;
            root.reset();
        }
        b2.wait();
        if (keep)
        {
            if (round->dead != 0) { ++bad; msg = "destroyed while an owner was left"; }
            (*root)->slots[nt] += 1;
            ++mainacc;
            root.reset();
        }
        long acc = mainacc;
        for (const Log& l : logs) acc += l.acc;
        for (auto& w : wstart) { if (!w->expired() || w->lock().Get() != nullptr) { ++bad; msg = "a weak pointer outlived the object"; } w.reset(); }
        if (round->dead != 1) { ++bad; msg = "object destroyed " + std::to_string(round->dead) + " times"; }
        else if (round->sum != acc) { ++bad; msg = "destructor saw " + std::to_string(round->sum) + " accesses of " + std::to_string(acc); }
        lasts.insert(round->last);
        if (round->last == nt) ++lastmain;
        // signature: the order in which threads dropped owners
        std::vector<std::pair<unsigned, int>> order;
        for (int t = 0; t < nt; ++t) for (unsigned s : logs[static_cast<size_t>(t)].seq) order.push_back(std::make_pair(s, t));
        std::sort(order.begin(), order.end());
        uint64_t h = 1469598103934665603ull + static_cast<uint64_t>(round->last + 2);
        for (const auto& p : order) h = (h ^ static_cast<uint64_t>(p.second + 1)) * 1099511628211ull;
        sigs.push_back(h);
    }
    stop.store(true);
    b1.wait();
    for (auto& t : th) t.join();
    long lb = 0, locked = 0, expired = 0, ops = 0;
    for (const Log& l : logs) { lb += l.bad; locked += l.locked; expired += l.expired; ops += l.ops; }
    o.num(built.load()).num(destroyed.load()).num(bad).num(lb).num(static_cast<long long>(lasts.size())).num(locked).num(expired).num(ops).hex(msg);
    for (uint64_t s : sigs) o.unum(s & 0xffffffffffff);
}
