// Main program with -DRT_OOM: every case is run once to count its allocations and then again with the k-th one failing, for every
// k (or a sample). Recorded: how often the failure was reported (bad_alloc reached the caller), how often it made no difference,
// how often it was silent (another record than without the failure, and no bad_alloc in it), and the memory balance.
#pragma once
#include "rt.hpp"

namespace rt
{
inline bool oom_fails()
{
    Oom& o = oom();
    if (!o.on || ++o.count != o.fail) return false;
    ++o.hit;
    return true;
}
} // namespace rt

__attribute__((noinline)) void* operator new(std::size_t n)
{
    if (rt::oom_fails()) throw std::bad_alloc();
    void* p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
__attribute__((noinline)) void* operator new[](std::size_t n) { return operator new(n); }
__attribute__((noinline)) void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return rt::oom_fails() ? nullptr : std::malloc(n ? n : 1); }
__attribute__((noinline)) void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return rt::oom_fails() ? nullptr : std::malloc(n ? n : 1); }
__attribute__((noinline)) void operator delete(void* p) noexcept { std::free(p); }
__attribute__((noinline)) void operator delete[](void* p) noexcept { std::free(p); }
__attribute__((noinline)) void operator delete(void* p, std::size_t) noexcept { std::free(p); }
__attribute__((noinline)) void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
__attribute__((noinline)) void operator delete(void* p, const std::nothrow_t&) noexcept { std::free(p); }
__attribute__((noinline)) void operator delete[](void* p, const std::nothrow_t&) noexcept { std::free(p); }

int main(int argc, char** argv)
{
    using namespace rt;
    if (argc < 3) return 95;
    signal(SIGVTALRM, on_hang);
    const int limit = std::getenv("RT_CPU_LIMIT") ? std::atoi(std::getenv("RT_CPU_LIMIT")) : 60;
    const long most = std::getenv("RT_OOM_POINTS") ? std::atol(std::getenv("RT_OOM_POINTS")) : 60;
    std::ifstream f(argv[1], std::ios::binary);
    const int ofd = ::open(argv[2], O_WRONLY | O_CREAT | O_APPEND, 0644);
    long skip = argc > 3 ? std::atol(argv[3]) : 0;
    Out out, want, res;
    std::string line;
    // runs the case with the k-th allocation failing (0: none); true if bad_alloc came out of it
    auto run = [&](const Toks& in, Out& o, long k) {
        Toks t = in;
        t.i = 0;
        o.n = 0;
        bool thrown = false;
        oom().count = 0;
        oom().hit = 0;
        oom().fail = k;
        oom().in = nullptr;
        oom().on = true;
        try
        {
            run_case(t, o);
        }
        catch (const std::bad_alloc&)
        {
            thrown = true;
        }
        oom().on = false;
        return thrown;
    };
    while (std::getline(f, line))
    {
        if (skip-- > 0) continue;
        Toks in;
        for (size_t p = 0; p < line.size();)
        {
            size_t q = line.find(' ', p);
            if (q == std::string::npos) q = line.size();
            if (q > p) in.t.emplace_back(line, p, q - p);
            p = q + 1;
        }
        uint64_t seed = 88172645463325252ull; // the sampled points depend on the case only
        for (char c : line) seed = (seed ^ static_cast<unsigned char>(c)) * 1099511628211ull;
        seed |= 1;
        arm(limit);
        run(in, want, 0);
        run(in, want, 0);
        const long total = oom().count;
        long points = 0, reported = 0, masked = 0, silent = 0, leaks = 0, first_silent = 0, first_leak = 0, leaked = 0;
        res.n = 0;
        std::string detail;
        const long n = total < most ? total : most;
        for (long i = 0; i < n; ++i)
        {
            long k = i + 1;
            if (total > most)
            {
                seed ^= seed << 13;
                seed ^= seed >> 7;
                seed ^= seed << 17;
                k = 1 + static_cast<long>(seed % static_cast<uint64_t>(total));
            }
            long long delta = 0;
            bool thrown = false;
            for (int attempt = 0; attempt < 3; ++attempt)
            {
#ifdef RT_ASAN
                const long long before = static_cast<long long>(__sanitizer_get_current_allocated_bytes());
#endif
                thrown = run(in, out, k);
#ifdef RT_ASAN
                delta = static_cast<long long>(__sanitizer_get_current_allocated_bytes()) - before;
#endif
                if (delta == 0) break;
            }
            if (!oom().hit) continue; // not reached in this run
            ++points;
            if (delta != 0)
            {
                if (!leaks++) first_leak = k;
                leaked = static_cast<long>(delta);
            }
            out.buf[out.n] = 0;
            if (thrown || std::strstr(out.buf, "E:bad_alloc")) ++reported;
            else if (out.n == want.n && std::memcmp(out.buf, want.buf, out.n) == 0) ++masked;
            else if (!silent++)
            {
                first_silent = k;
                size_t d = 0;
                while (d < out.n && d < want.n && out.buf[d] == want.buf[d]) ++d;
                const size_t from = d > 60 ? d - 60 : 0;
                detail = "recorded ..." + std::string(want.buf + from, std::min<size_t>(200, want.n - from)) + " without, ..." +
                         std::string(out.buf + from, std::min<size_t>(200, out.n - from)) + " with it";
            }
        }
        arm(0);
        res.num(total).num(points).num(reported).num(masked).num(silent).num(first_silent).num(leaks).num(first_leak).num(leaked).hex(detail);
        res.put('\n');
        if (::write(ofd, res.buf, res.n) != static_cast<ssize_t>(res.n)) _exit(94);
    }
    return 0;
}
