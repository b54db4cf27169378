// C26: integer comparisons across types. "x" cases sweep a first-operand block against all 8-bit second operands
// and record the outcome bits; "p" cases record the outcomes for listed pairs.
#include "rt.hpp"
#include "Caitlyn/Utility"
using rt::Out;
using rt::Toks;

template <typename T, typename U>
static char outcome(T t, U u)
{
    int m = 0;
    m |= Caitlyn::cmp_eq(t, u) ? 1 : 0;
    m |= Caitlyn::cmp_ne(t, u) ? 2 : 0;
    m |= Caitlyn::cmp_less(t, u) ? 4 : 0;
    m |= Caitlyn::cmp_greater(t, u) ? 8 : 0;
    m |= Caitlyn::cmp_le(t, u) ? 16 : 0;
    m |= Caitlyn::cmp_ge(t, u) ? 32 : 0;
    return static_cast<char>('0' + m);
}

template <typename T>
static T val(const std::string& s)
{
    return s[0] == '-' ? static_cast<T>(std::strtoll(s.c_str(), nullptr, 10)) : static_cast<T>(std::strtoull(s.c_str(), nullptr, 10));
}

template <typename T, typename U>
static void run(Toks& in, Out& o, bool sweep)
{
    std::string r;
    if (sweep)
    {
        const long long lo = in.num(), hi = in.num(), lo2 = in.num(), hi2 = in.num();
        for (long long a = lo; a < hi; ++a)
            for (long long b = lo2; b < hi2; ++b) r += outcome(static_cast<T>(a), static_cast<U>(b));
    }
    else
    {
        while (in.more())
        {
            const std::string a = in.next(), b = in.next();
            r += outcome(val<T>(a), val<U>(b));
        }
    }
    o.tok(r.c_str());
}

template <typename T>
static void second(const std::string& u, Toks& in, Out& o, bool sweep)
{
    if (u == "b") run<T, signed char>(in, o, sweep);
    else if (u == "B") run<T, unsigned char>(in, o, sweep);
    else if (u == "c") run<T, char>(in, o, sweep);
    else if (u == "h") run<T, short>(in, o, sweep);
    else if (u == "H") run<T, unsigned short>(in, o, sweep);
    else if (u == "i") run<T, int>(in, o, sweep);
    else if (u == "I") run<T, unsigned>(in, o, sweep);
    else if (u == "l") run<T, long>(in, o, sweep);
    else if (u == "L") run<T, unsigned long>(in, o, sweep);
    else if (u == "q") run<T, long long>(in, o, sweep);
    else if (u == "Q") run<T, unsigned long long>(in, o, sweep);
    else if (u == "w") run<T, wchar_t>(in, o, sweep);
    else if (u == "W") run<T, char32_t>(in, o, sweep);
    else _exit(96);
}

void run_case(Toks& in, Out& o)
{
    const bool sweep = in.next() == "x";
    const std::string t = in.next(), u = in.next();
    if (t == "b") second<signed char>(u, in, o, sweep);
    else if (t == "B") second<unsigned char>(u, in, o, sweep);
    else if (t == "c") second<char>(u, in, o, sweep);
    else if (t == "h") second<short>(u, in, o, sweep);
    else if (t == "H") second<unsigned short>(u, in, o, sweep);
    else if (t == "i") second<int>(u, in, o, sweep);
    else if (t == "I") second<unsigned>(u, in, o, sweep);
    else if (t == "l") second<long>(u, in, o, sweep);
    else if (t == "L") second<unsigned long>(u, in, o, sweep);
    else if (t == "q") second<long long>(u, in, o, sweep);
    else if (t == "Q") second<unsigned long long>(u, in, o, sweep);
    else if (t == "w") second<wchar_t>(u, in, o, sweep);
    else if (t == "W") second<char32_t>(u, in, o, sweep);
    else _exit(96);
}
