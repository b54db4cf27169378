// C08: String::Format over generated format strings and arguments of every supported kind.
#include "rt.hpp"
#include "Caitlyn/String"
using namespace rt;
using Caitlyn::String;

struct Any // reaches Format through ToString()
{
    String v;
    String ToString() const { return v; }
};
struct HasStrT // through str()
{
    std::string v;
    std::string str() const { return v; }
};
struct HasToStr // through to_string()
{
    std::string v;
    std::string to_string() const { return v; }
};

struct Arg
{
    std::string kind;
    long long i = 0;
    unsigned long long u = 0;
    long double f = 0;
    std::string s;
};

template <typename F>
static String concrete(const Arg& a, F f)
{
    const char k = a.kind[0];
    const CBuf c(a.s);
    switch (k)
    {
        case 'a': return f(static_cast<signed char>(a.i));
        case 'A': return f(static_cast<unsigned char>(a.u));
        case 'h': return f(static_cast<short>(a.i));
        case 'H': return f(static_cast<unsigned short>(a.u));
        case 'i': return f(static_cast<int>(a.i));
        case 'I': return f(static_cast<unsigned>(a.u));
        case 'l': return f(static_cast<long>(a.i));
        case 'L': return f(static_cast<unsigned long>(a.u));
        case 'q': return f(static_cast<long long>(a.i));
        case 'Q': return f(static_cast<unsigned long long>(a.u));
        case 'f': return f(static_cast<float>(a.f));
        case 'd': return f(static_cast<double>(a.f));
        case 'e': return f(static_cast<long double>(a.f));
        case 'b': return f(a.i != 0);
        case 'c': return f(static_cast<const char*>(c));
        case 's': return f(String(a.s));
        case 'S': return f(a.s);
        case 't': return f(Any{String(a.s)});
        case 'y': return f(HasStrT{a.s});
        case 'z': return f(HasToStr{a.s});
    }
    _exit(96);
}

struct Direct
{
    const String& fmt;
    template <typename T>
    String operator()(const T& v) const { return String::Format(fmt, v); }
    String operator()(const char* v) const { return String::Format(fmt, v); }
};

void run_case(Toks& in, Out& o)
{
    in.next();
    const String fmt(in.str());
    const size_t n = in.unum();
    std::vector<Arg> args(n);
    std::vector<Any> any(n);
    std::string sig;
    for (size_t k = 0; k < n; ++k)
    {
        Arg& a = args[k];
        a.kind = in.next();
        sig += a.kind;
        switch (a.kind[0])
        {
            case 'a': case 'h': case 'i': case 'l': case 'q': case 'b': a.i = in.num(); break;
            case 'A': case 'H': case 'I': case 'L': case 'Q': a.u = in.unum(); break;
            case 'f': case 'd': case 'e': a.f = rt::real(in.next()); break;
            default: a.s = in.str();
        }
        const String one("{}");
        any[k].v = concrete(a, Direct{one});
    }
    guarded(o, [&] {
        String r;
        switch (n)
        {
            case 0: r = String::Format(fmt); break;
            case 1: r = String::Format(fmt, any[0]); break;
            case 2: r = String::Format(fmt, any[0], any[1]); break;
            case 3: r = String::Format(fmt, any[0], any[1], any[2]); break;
            case 4: r = String::Format(fmt, any[0], any[1], any[2], any[3]); break;
            case 5: r = String::Format(fmt, any[0], any[1], any[2], any[3], any[4]); break;
            case 6: r = String::Format(fmt, any[0], any[1], any[2], any[3], any[4], any[5]); break;
            case 12: r = String::Format(fmt, any[0], any[1], any[2], any[3], any[4], any[5], any[6], any[7], any[8], any[9], any[10], any[11]); break;
            default: _exit(96);
        }
        o.tok("ok").hex(r.str());
    });
    guarded(o, [&] {
        String r;
        if (n == 1) r = concrete(args[0], Direct{fmt});
        else if (sig == "ids") r = String::Format(fmt, static_cast<int>(args[0].i), static_cast<double>(args[1].f), String(args[2].s));
        else if (sig == "si") r = String::Format(fmt, String(args[0].s), static_cast<int>(args[1].i));
        else if (sig == "dd") r = String::Format(fmt, static_cast<double>(args[0].f), static_cast<double>(args[1].f));
        else if (sig == "bqc") r = String::Format(fmt, args[0].i != 0, args[1].i, args[2].s.c_str());
        else if (sig == "cSsi") r = String::Format(fmt, args[0].s.c_str(), args[1].s, String(args[2].s), static_cast<int>(args[3].i));
        else if (sig == "iiii") r = String::Format(fmt, static_cast<int>(args[0].i), static_cast<int>(args[1].i), static_cast<int>(args[2].i), static_cast<int>(args[3].i));
        else { o.tok("-"); return; }
        o.tok("ok").hex(r.str());
    });
}
