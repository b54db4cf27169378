// Common runtime for the case drivers: reads one case per line (space separated tokens), executes it
// against the real library under instrumentation and records one result line per case.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <ios>
#include <iostream>
#include <clocale>
#include <locale>
#include <locale.h>
#include <memory>
#include <new>
#include <sstream>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <utility>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/time.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
#define RT_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define RT_ASAN 1
#endif
#endif
#ifdef RT_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:max_allocation_size_mb=2048:"
           "detect_stack_use_after_return=1:handle_abort=1:symbolize=1:malloc_context_size=12";
}
extern "C" const char* __ubsan_default_options()
{
    return "print_stacktrace=1:halt_on_error=1:exitcode=99";
}
#endif

#if defined(__SANITIZE_THREAD__)
#define RT_TSAN 1
#elif defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define RT_TSAN 1
#endif
#endif
#ifdef RT_TSAN
extern "C" const char* __tsan_default_options()
{
    return "halt_on_error=1:exitcode=98:second_deadlock_stack=1:history_size=4:report_signal_unsafe=0";
}
#endif

// state of a driver that every thread running its cases has for itself
#ifdef RT_MT
#define RT_STATIC static thread_local
#else
#define RT_STATIC static
#endif

namespace rt
{
struct Toks;
#ifdef RT_OOM
struct Oom
{
    long count = 0, fail = 0; // allocations of the run; the one that fails (0: none)
    bool on = false;
    int hit = 0;
    Toks* in = nullptr; // the operations' tokens: after a failed operation its remaining operands are skipped
};
inline Oom& oom()
{
    static Oom o;
    return o;
}
// allocations of the harness do not fail
struct Quiet
{
    const bool was;
    Quiet() : was(oom().on) { oom().on = false; }
    ~Quiet() { oom().on = was; }
};
#else
struct Quiet
{
    Quiet() {}
    ~Quiet() {}
};
#endif
// Output goes to a static buffer so that it does not disturb the allocation balance.
struct Out
{
    static constexpr size_t Cap = 64u << 20;
    char* buf;
    size_t n = 0;
    Out() : buf(static_cast<char*>(std::malloc(Cap))) {}
    void raw(const char* p, size_t k)
    {
        if (n + k + 16 > Cap)
        {
            std::fprintf(stderr, "RT: output overflow\n");
            _exit(96);
        }
        std::memcpy(buf + n, p, k);
        n += k;
    }
    void put(char c) { raw(&c, 1); }
    Out& tok(const char* s)
    {
        if (n) put(' ');
        raw(s, std::strlen(s));
        return *this;
    }
    Out& num(long long v)
    {
        char b[32];
        std::snprintf(b, sizeof b, "%lld", v);
        return tok(b);
    }
    Out& unum(unsigned long long v)
    {
        char b[32];
        std::snprintf(b, sizeof b, "%llu", v);
        return tok(b);
    }
    // index-like: all-ones is printed as -1
    Out& idx(size_t v) { return v == static_cast<size_t>(-1) ? tok("-1") : unum(v); }
    Out& boolean(bool b) { return tok(b ? "1" : "0"); }
    Out& hexn(const char* p, size_t k)
    {
        static const char* d = "0123456789abcdef";
        if (n) put(' ');
        put('x');
        for (size_t i = 0; i < k; ++i)
        {
            const unsigned char c = static_cast<unsigned char>(p[i]);
            char t[2] = {d[c >> 4], d[c & 15]};
            raw(t, 2);
        }
        return *this;
    }
    Out& hex(const std::string& s) { return hexn(s.data(), s.size()); }
};

struct Toks
{
    std::vector<std::string> t;
    size_t i = 0;
    bool more() const { return i < t.size(); }
    const std::string& next()
    {
        if (i >= t.size())
        {
            std::fprintf(stderr, "RT: token underrun\n");
            _exit(96);
        }
        return t[i++];
    }
    long long num() { return std::strtoll(next().c_str(), nullptr, 10); }
    unsigned long long unum()
    {
        const std::string& s = next();
        return s[0] == '-' ? static_cast<unsigned long long>(std::strtoll(s.c_str(), nullptr, 10))
                           : std::strtoull(s.c_str(), nullptr, 10);
    }
    size_t unum_at(size_t k) const { return static_cast<size_t>(std::strtoull(t.at(k).c_str(), nullptr, 10)); }
    std::string str() // xHEX
    {
        const Quiet quiet;
        const std::string& s = next();
        std::string r;
        r.reserve(s.size() / 2);
        auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
        for (size_t k = 1; k + 1 < s.size(); k += 2) r.push_back(static_cast<char>(v(s[k]) * 16 + v(s[k + 1])));
        return r;
    }
};

// An exactly sized heap copy of a C string: reading one byte past the terminator is caught by ASan.
struct CBuf
{
    char* p;
    explicit CBuf(const std::string& s) : p(static_cast<char*>(std::malloc(s.size() + 1)))
    {
        std::memcpy(p, s.data(), s.size());
        p[s.size()] = 0;
    }
    ~CBuf() { std::free(p); }
    CBuf(const CBuf&) = delete;
    CBuf& operator=(const CBuf&) = delete;
    operator const char*() const { return p; }
};

#ifdef RT_MT
static const bool threaded = true;
inline int& lane() { static thread_local int k = -1; return k; }
#else
static const bool threaded = false;
inline int& lane() { static int k = 0; return k; }
#endif

// Decimal text as a double, whatever the locale.
inline double real(const std::string& s)
{
    static const locale_t c = newlocale(LC_ALL_MASK, "C", nullptr);
    return strtod_l(s.c_str(), nullptr, c);
}

// A locale of a program: decimal comma, grouped digits, words for the boolean values, and separators that count as spaces.
struct Punct : std::numpunct<char>
{
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '.'; }
    std::string do_grouping() const override { return "\1\2"; }
    std::string do_truename() const override { return "wahr"; }
    std::string do_falsename() const override { return "falsch"; }
};
struct Separators : std::ctype<char>
{
    static const mask* table()
    {
        static mask m[table_size];
        std::copy(classic_table(), classic_table() + table_size, m);
        for (const char* p = ",;{}[]:\\\""; *p; ++p) m[static_cast<unsigned char>(*p)] |= space;
        for (const char* p = "0123456789"; *p; ++p) m[static_cast<unsigned char>(*p)] &= static_cast<mask>(~digit);
        return m;
    }
    Separators() : std::ctype<char>(table()) {}
};

// RT_LOCALE: c:NAME (setlocale), cxx:NAME (std::locale::global), facets
inline bool set_locale(const char* what)
{
    const std::string w = what;
    try
    {
        if (w == "facets") std::locale::global(std::locale(std::locale(std::locale::classic(), new Punct), new Separators));
        else if (w.compare(0, 2, "c:") == 0) return std::setlocale(LC_ALL, w.c_str() + 2) != nullptr;
        else if (w.compare(0, 4, "cxx:") == 0) std::locale::global(std::locale(w.c_str() + 4));
        else return false;
    }
    catch (const std::exception&)
    {
        return false;
    }
    return true;
}

inline const char* exc_name(const std::exception& e)
{
    if (dynamic_cast<const std::out_of_range*>(&e)) return "E:out_of_range";
    if (dynamic_cast<const std::invalid_argument*>(&e)) return "E:invalid_argument";
    if (dynamic_cast<const std::length_error*>(&e)) return "E:length_error";
    if (dynamic_cast<const std::bad_alloc*>(&e)) return "E:bad_alloc";
    if (dynamic_cast<const std::ios_base::failure*>(&e)) return "E:ios_failure";
    if (dynamic_cast<const std::logic_error*>(&e)) return "E:logic_error";
    if (dynamic_cast<const std::runtime_error*>(&e)) return "E:runtime_error";
    return "E:exception";
}

// A stream of the standard library reports a failed allocation by its state.
inline void intact(const std::ios& s)
{
#ifdef RT_OOM
    if (s.bad()) throw std::bad_alloc();
#else
    (void)s;
#endif
}

#ifdef RT_OOM
inline void skip_operands()
{
    Toks& t = *oom().in;
    auto operand = [](const std::string& s) {
        if (s[0] == 'x') return s.find_first_not_of("0123456789abcdef", 1) == std::string::npos;
        return s.find_first_not_of("-0123456789") == std::string::npos;
    };
    while (t.more() && operand(t.t[t.i])) ++t.i;
}
#endif

template <typename F>
void guarded(Out& o, F f)
{
    const size_t mark = o.n;
    try
    {
        f();
    }
#ifdef RT_OOM
    catch (const std::bad_alloc& e)
    {
        if (!oom().in) throw;
        skip_operands();
        o.n = mark;
        o.tok(exc_name(e));
    }
#endif
    catch (const std::exception& e)
    {
        o.n = mark;
        o.tok(exc_name(e));
    }
    catch (...)
    {
        o.n = mark;
        o.tok("E:unknown");
    }
}

inline void on_hang(int)
{
    const char m[] = "\nRT: HANG cpu limit for one case exceeded\n";
    ssize_t r = ::write(2, m, sizeof m - 1);
    (void)r;
    _exit(97);
}

inline void arm(int seconds)
{
    itimerval tv;
    std::memset(&tv, 0, sizeof tv);
    tv.it_value.tv_sec = seconds;
    setitimer(ITIMER_VIRTUAL, &tv, nullptr);
}
} // namespace rt

// Provided by the driver.
void run_case(rt::Toks& in, rt::Out& out);

#ifdef RT_OOM
#include "rtoom.hpp"
#elif defined(RT_MT)
#include "rtmt.hpp"
#elif !defined(RT_NO_MAIN)
int main(int argc, char** argv)
{
    if (argc < 3)
    {
        std::fprintf(stderr, "usage: driver CASES RESULTS [skip]\n");
        return 95;
    }
    signal(SIGVTALRM, rt::on_hang);
    const int limit = std::getenv("RT_CPU_LIMIT") ? std::atoi(std::getenv("RT_CPU_LIMIT")) : 20;
    const bool leak = std::getenv("RT_LEAK") != nullptr;
    (void)leak;
    std::ifstream f(argv[1], std::ios::binary);
    const int ofd = ::open(argv[2], O_WRONLY | O_CREAT | O_APPEND, 0644);
    long skip = argc > 3 ? std::atol(argv[3]) : 0;
    if (std::getenv("RT_LOCALE") && !rt::set_locale(std::getenv("RT_LOCALE"))) return 95;
    rt::Out out;
    std::string line;
    while (std::getline(f, line))
    {
        if (skip-- > 0) continue;
        rt::Toks in;
        {
            size_t p = 0;
            while (p < line.size())
            {
                size_t q = line.find(' ', p);
                if (q == std::string::npos) q = line.size();
                if (q > p) in.t.emplace_back(line, p, q - p);
                p = q + 1;
            }
        }
        rt::arm(limit);
#ifdef RT_ASAN
        long long delta = 0;
        // A positive balance counts only if it repeats: the first execution may fill one-time caches.
        for (int attempt = 0; attempt < 3; ++attempt)
        {
            out.n = 0;
            in.i = 0;
            const long long before = static_cast<long long>(__sanitizer_get_current_allocated_bytes());
            run_case(in, out);
            delta = static_cast<long long>(__sanitizer_get_current_allocated_bytes()) - before;
            if (!leak || delta == 0) break;
        }
        if (leak && delta != 0)
        {
            out.tok("LEAK");
            out.num(delta);
        }
#else
        out.n = 0;
        run_case(in, out);
#endif
        rt::arm(0);
        out.put('\n');
        size_t w = 0;
        while (w < out.n)
        {
            const ssize_t k = ::write(ofd, out.buf + w, out.n - w);
            if (k <= 0) _exit(94);
            w += static_cast<size_t>(k);
        }
    }
    return 0;
}
#endif
