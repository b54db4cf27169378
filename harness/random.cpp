// C25: calls the random functions repeatedly and records where the returned values lie.
#include "rt.hpp"
#include "Caitlyn/Utility"
using rt::Out;
using rt::Toks;

template <typename T, bool Real>
struct Conv;
template <typename T>
struct Conv<T, true>
{
    static T get(Toks& in) { return static_cast<T>(std::strtold(in.next().c_str(), nullptr)); }
};
template <typename T>
struct Conv<T, false>
{
    static T get(Toks& in) { return static_cast<T>(in.next()[0] == '-' ? static_cast<unsigned long long>(std::strtoll(in.t[in.i - 1].c_str(), nullptr, 10)) : std::strtoull(in.t[in.i - 1].c_str(), nullptr, 10)); }
};

static std::string bits(const std::vector<bool>& v)
{
    std::string s;
    for (bool b : v) s += b ? '1' : '0';
    return s;
}

template <typename T>
static size_t bucket(T v, T lo, T hi, size_t k, std::true_type)
{
    const long double a = static_cast<long double>(v) / 4 - static_cast<long double>(lo) / 4, w = static_cast<long double>(hi) / 4 - static_cast<long double>(lo) / 4;
    const long double r = w > 0 ? a / w * k : 0;
    return r >= k ? k - 1 : static_cast<size_t>(r);
}
template <typename T>
static size_t bucket(T v, T lo, T hi, size_t k, std::false_type)
{
    const unsigned __int128 a = static_cast<unsigned __int128>(static_cast<__int128>(v) - static_cast<__int128>(lo));
    const unsigned __int128 w = static_cast<unsigned __int128>(static_cast<__int128>(hi) - static_cast<__int128>(lo)) + 1;
    return static_cast<size_t>(a * k / w);
}
template <typename T>
static size_t residue(T v, T lo, std::false_type)
{
    return static_cast<size_t>(static_cast<unsigned __int128>(static_cast<__int128>(v) - static_cast<__int128>(lo)) & 15);
}
template <typename T>
static size_t residue(T, T, std::true_type)
{
    return 0;
}

template <typename T>
static void calls(Toks& in, Out& o, bool dflt)
{
    using Real = std::integral_constant<bool, std::is_floating_point<T>::value>;
    T lo = std::numeric_limits<T>::lowest(), hi = std::numeric_limits<T>::max();
    if (!dflt)
    {
        lo = Conv<T, Real::value>::get(in);
        hi = Conv<T, Real::value>::get(in);
    }
    const unsigned long long n = in.unum();
    const size_t k = static_cast<size_t>(in.unum());
    std::vector<bool> b(k), r(16);
    std::vector<unsigned long long> count(k);
    unsigned long long below = 0, above = 0, nan = 0, atlo = 0, athi = 0, repeats = 0;
    T prev = lo;
    for (unsigned long long i = 0; i < n; ++i)
    {
        const T v = dflt ? Caitlyn::Random<T>() : Caitlyn::Random<T>(lo, hi);
        if (v != v) { ++nan; continue; }
        if (v < lo) { ++below; continue; }
        if (v > hi) { ++above; continue; }
        atlo += v == lo;
        athi += v == hi;
        repeats += i != 0 && v == prev;
        prev = v;
        const size_t part = bucket(v, lo, hi, k, Real());
        b[part] = true;
        ++count[part];
        r[residue(v, lo, Real())] = true;
    }
    o.unum(below).unum(above).unum(nan).tok(bits(b).c_str()).tok(bits(r).c_str()).unum(atlo).unum(athi).unum(repeats);
    if (k <= 64)
        for (unsigned long long c : count) o.unum(c);
}

void run_case(Toks& in, Out& o)
{
    const std::string k = in.next();
    if (k == "b")
    {
        const double p = rt::real(in.next());
        const unsigned long long n = in.unum();
        rt::guarded(o, [&] {
            unsigned long long t = 0;
            for (unsigned long long i = 0; i < n; ++i) t += Caitlyn::RandomBoolean(p);
            o.unum(t);
        });
        return;
    }
    if (k == "bd")
    {
        const unsigned long long n = in.unum();
        unsigned long long t = 0;
        for (unsigned long long i = 0; i < n; ++i) t += Caitlyn::RandomBoolean();
        o.unum(t);
        return;
    }
    const bool dflt = k == "d";
    const std::string ty = in.next();
    rt::guarded(o, [&] {
        if (ty == "h") calls<Caitlyn::Int16>(in, o, dflt);
        else if (ty == "H") calls<Caitlyn::UInt16>(in, o, dflt);
        else if (ty == "i") calls<Caitlyn::Int32>(in, o, dflt);
        else if (ty == "I") calls<Caitlyn::UInt32>(in, o, dflt);
        else if (ty == "l") calls<Caitlyn::Int64>(in, o, dflt);
        else if (ty == "L") calls<Caitlyn::UInt64>(in, o, dflt);
        else if (ty == "f") calls<Caitlyn::Float>(in, o, dflt);
        else if (ty == "d") calls<Caitlyn::Double>(in, o, dflt);
        else if (ty == "D") calls<Caitlyn::Decimal>(in, o, dflt);
        else _exit(96);
    });
}
