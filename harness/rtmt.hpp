// Alternative main of the case drivers (-DRT_MT): a line holds a group of cases. They are run by one thread in a
// process of its own, then by several threads at once in another fresh process (so that whatever the library
// initialises on first use is initialised under contention), and every thread must record the same as the first.
#pragma once
#include <atomic>
#include <thread>
#include <cerrno>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/wait.h>

namespace rt
{
struct Shared // results of the single-threaded process and of the threads
{
    static constexpr size_t Cap = 48u << 20;
    size_t n;
    char data[Cap];
};
struct Event { unsigned begin, end; };
struct Lane
{
    std::vector<std::string> diffs;
    std::vector<Event> events;
};
inline unsigned mix(uint64_t& s, unsigned n)
{
    s ^= s << 13;
    s ^= s >> 7;
    s ^= s << 17;
    return static_cast<unsigned>((s >> 20) % n);
}
inline int fail(int where)
{
    std::fprintf(stderr, "RT: mt failure %d errno %d\n", where, errno);
    return 96;
}
inline int reap(pid_t pid)
{
    int st = 0;
    while (waitpid(pid, &st, 0) < 0) {}
    return WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
}
} // namespace rt

// A driver may build what its threads share; the rest of the group's first tokens describe it.
__attribute__((weak)) void setup_case(rt::Toks& in);

int main(int argc, char** argv)
{
    using namespace rt;
    if (argc < 3) return 95;
    signal(SIGVTALRM, on_hang);
    const int limit = std::getenv("RT_CPU_LIMIT") ? std::atoi(std::getenv("RT_CPU_LIMIT")) : 60;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 64u << 20);
    pthread_setattr_default_np(&at);
    Shared* sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (sh == MAP_FAILED) return fail(1);
    std::ifstream f(argv[1], std::ios::binary);
    const int ofd = ::open(argv[2], O_WRONLY | O_CREAT | O_APPEND, 0644);
    long skip = argc > 3 ? std::atol(argv[3]) : 0;
    std::string line;
    while (std::getline(f, line))
    {
        if (skip-- > 0) continue;
        std::vector<Toks> cases(1);
        for (size_t p = 0; p < line.size();)
        {
            size_t q = line.find(' ', p);
            if (q == std::string::npos) q = line.size();
            if (q > p)
            {
                if (line.compare(p, q - p, "@@") == 0) cases.emplace_back();
                else cases.back().t.emplace_back(line, p, q - p);
            }
            p = q + 1;
        }
        Toks head = cases[0];
        cases.erase(cases.begin());
        const int threads = static_cast<int>(head.num()), mode = static_cast<int>(head.num()), rounds = static_cast<int>(head.num());
        const uint64_t seed = head.unum() * 0x9E3779B97F4A7C15ull + 1;
        // one thread
        sh->n = 0;
        pid_t pid = fork();
        if (pid < 0) return fail(2);
        if (pid == 0)
        {
            arm(limit);
            lane() = 0;
            Toks shared = head;
            if (setup_case) setup_case(shared);
            Out out;
            for (auto& c : cases)
            {
                out.n = 0;
                c.i = 0;
                run_case(c, out);
                if (sh->n + out.n + 1 > Shared::Cap) _exit(fail(3));
                std::memcpy(sh->data + sh->n, out.buf, out.n);
                sh->n += out.n;
                sh->data[sh->n++] = '\n';
            }
            _exit(0);
        }
        int rc = reap(pid);
        if (rc) _exit(rc);
        std::vector<std::string> want;
        for (size_t p = 0; p < sh->n;)
        {
            const char* e = static_cast<const char*>(std::memchr(sh->data + p, '\n', sh->n - p));
            want.emplace_back(sh->data + p, static_cast<size_t>(e - sh->data) - p);
            p = static_cast<size_t>(e - sh->data) + 1;
        }
        if (want.size() != cases.size()) return fail(4);
        // several threads
        sh->n = 0;
        pid = fork();
        if (pid < 0) return fail(5);
        if (pid == 0)
        {
            arm(limit);
            Toks shared = head;
            if (setup_case) setup_case(shared);
            std::vector<Lane> lanes(static_cast<size_t>(threads));
            std::atomic<int> ready(0);
            std::atomic<unsigned> clock(0);
            std::vector<std::thread> ts;
            for (int t = 0; t < threads; ++t)
            {
                ts.emplace_back([&, t] {
                    lane() = t;
                    uint64_t s = seed ^ (mode == 0 ? 0 : (t + 1) * 0xD1B54A32D192ED03ull);
                    if (s == 0) s = 1;
                    Lane& me = lanes[static_cast<size_t>(t)];
                    std::vector<size_t> order;
                    for (int r = 0; r < rounds; ++r)
                    {
                        for (size_t i = 0; i < cases.size(); ++i) order.push_back(i);
                        for (size_t i = cases.size(); i > 1; --i) std::swap(order[order.size() - i], order[order.size() - i + mix(s, static_cast<unsigned>(i))]);
                    }
                    me.events.reserve(order.size());
                    Out out;
                    Toks in;
                    ready.fetch_add(1);
                    while (ready.load() < threads) sched_yield();
                    for (size_t k : order)
                    {
                        if (mode == 2 && mix(s, 8) == 0) sched_yield();
                        in.t = cases[k].t;
                        in.i = 0;
                        out.n = 0;
                        Event e;
                        e.begin = clock.fetch_add(1, std::memory_order_relaxed);
                        run_case(in, out);
                        e.end = clock.fetch_add(1, std::memory_order_relaxed);
                        me.events.push_back(e);
                        if (out.n != want[k].size() || std::memcmp(out.buf, want[k].data(), out.n) != 0)
                        {
                            size_t d = 0;
                            while (d < out.n && d < want[k].size() && out.buf[d] == want[k][d]) ++d;
                            std::string m = "case";
                            for (const auto& w : cases[k].t) m += " " + w;
                            const size_t from = d > 40 ? d - 40 : 0;
                            me.diffs.push_back(m.substr(0, 600) + " recorded alone ..." + want[k].substr(std::min(from, want[k].size()), 160) + " among threads ..." +
                                               std::string(out.buf + from, std::min<size_t>(160, out.n - from)));
                        }
                    }
                });
            }
            for (auto& t : ts) t.join();
            std::vector<std::pair<unsigned, int>> begins;
            size_t diffs = 0, overlapped = 0, n = 0;
            std::string first;
            std::vector<int> owner(clock.load(), -1), kind(clock.load(), 0);
            for (int t = 0; t < threads; ++t)
            {
                const Lane& l = lanes[static_cast<size_t>(t)];
                n += l.events.size();
                diffs += l.diffs.size();
                if (first.empty() && !l.diffs.empty()) first = l.diffs[0];
                for (const auto& e : l.events)
                {
                    owner[e.begin] = owner[e.end] = t;
                    kind[e.end] = 1;
                }
            }
            // a call overlapped if something of another thread began or ended within it, or another was under way
            int open = 0;
            uint64_t sig = 1469598103934665603ull;
            for (size_t i = 0; i < owner.size(); ++i)
            {
                sig = (sig ^ static_cast<uint64_t>(owner[i] * 2 + kind[i] + 1)) * 1099511628211ull;
                if (kind[i]) --open;
                else
                {
                    if (open > 0) ++overlapped;
                    ++open;
                }
            }
            Out o;
            o.unum(n).unum(overlapped).unum(sig).unum(diffs).hex(first);
            std::memcpy(sh->data, o.buf, o.n);
            sh->n = o.n;
            _exit(0);
        }
        rc = reap(pid);
        if (rc) _exit(rc);
        std::string res(sh->data, sh->n);
        res += '\n';
        if (::write(ofd, res.data(), res.size()) != static_cast<ssize_t>(res.size())) _exit(94);
    }
    return 0;
}
