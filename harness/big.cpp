// C14-C16: BigInteger and BigFloat.
#include "rt.hpp"
#include "Caitlyn/Numeric"
using namespace rt;
using Caitlyn::BigFloat;
using Caitlyn::BigInteger;
using Caitlyn::String;

template <typename F>
static void one(Out& o, F f)
{
    guarded(o, f);
    o.tok(";");
}

template <typename T>
static std::string txt(const T& v) { return v.ToString().str(); }

template <typename T>
static void cmp(Out& o, const T& a, const T& b)
{
    one(o, [&] { o.boolean(a == b).boolean(a != b).boolean(a < b).boolean(a > b).boolean(a <= b).boolean(a >= b)
                  .boolean(a.Equal(b)).boolean(a.LessThan(b)).boolean(a.GreaterThan(b)); });
}

static std::string unhex(const std::string& s) // "x" and pairs of hex digits
{
    std::string r;
    for (size_t i = 1; i + 1 < s.size(); i += 2) r += static_cast<char>(std::stoi(s.substr(i, 2), nullptr, 16));
    return r;
}

template <typename T> struct Mod { static T of(const T&, const T&) { _exit(96); } };
template <> struct Mod<BigInteger> { static BigInteger of(const BigInteger& a, const BigInteger& b) { return a % b; } };

// A program over four registers; every result is compared with its text read back and with another register
template <typename T>
static void program(Toks& in, Out& o)
{
    const auto split = [](const std::string& s, char by) {
        const Quiet quiet;
        std::vector<std::string> r;
        std::stringstream ss(s);
        for (std::string x; std::getline(ss, x, by);) r.push_back(x);
        return r;
    };
    std::vector<T> reg;
    for (const std::string& s : split(in.next(), ',')) reg.push_back(T(String(unhex(s))));
    for (const std::string& line : split(in.next(), ','))
    {
        const std::vector<std::string> f = split(line, '.');
        const char op = f[0][0];
        T &d = reg[std::stoul(f[1])], &a = reg[std::stoul(f[2])], &b = reg[std::stoul(f[3])], &c = reg[std::stoul(f[4])];
        const int e = std::stoi(f[5]);
        const std::string text = f.size() > 6 ? unhex("x" + f[6]) : std::string();
        guarded(o, [&] {
            switch (op)
            {
            case '+': d = a + b; break;
            case '-': d = a - b; break;
            case '*': d = a * b; break;
            case '/': d = a / b; break;
            case '%': d = Mod<T>::of(a, b); break;
            case 'p': d = a.Pow(e); break;
            case 'q': d = a.Sqr(); break;
            case 'r': d = a.Sqrt(); break;
            case 'b': d = a.Abs(); break;
            case '=': d = a; break;
            case 'm': d = std::move(a); a = T(String(text)); break;
            case 's': d = T(String(text)); break;
            default: _exit(96);
            }
        });
        guarded(o, [&] {
            const T back(d.ToString());
            o.hex(txt(d)).boolean(d == back).boolean(d < back).boolean(d > back);
        });
        cmp(o, d, c);
    }
}

static void make(std::unique_ptr<BigInteger>& r, const std::string& s, int how)
{
    switch (how)
    {
    case 0: r.reset(new BigInteger(String(s))); break;
    case 1: { CBuf c(s); r.reset(new BigInteger(static_cast<const char*>(c))); break; }
    case 2: { CBuf c(s); r.reset(new BigInteger(operator""_bigint(static_cast<const char*>(c), s.size()))); break; }
    case 3: { BigInteger t{String(s)}; r.reset(new BigInteger()); *r = t; break; }
    case 4: { BigInteger t{String(s)}; r.reset(new BigInteger()); *r = std::move(t); break; }
    case 5: { BigInteger t{String(s)}; r.reset(new BigInteger(std::move(t))); break; }
    default: { BigInteger t{String(s)}; r.reset(new BigInteger(t)); break; }
    }
}

void run_case(Toks& in, Out& o)
{
    const std::string k = in.next();
    if (k == "ib") // binary operations
    {
        std::unique_ptr<BigInteger> pa, pb;
        const int ha = static_cast<int>(in.num()), hb = static_cast<int>(in.num());
        const std::string sa = in.str(), sb = in.str();
        make(pa, sa, ha);
        const bool same = hb == 9;
        if (!same) make(pb, sb, hb);
        const BigInteger &a = *pa, &b = same ? *pa : *pb;
        one(o, [&] { o.hex(txt(a + b)); });
        one(o, [&] { o.hex(txt(a - b)); });
        one(o, [&] { o.hex(txt(a * b)); });
        one(o, [&] { o.hex(txt(a / b)); });
        one(o, [&] { o.hex(txt(a % b)); });
        cmp(o, a, b);
        // results take part in further computation: equal values compare equal however they were produced
        one(o, [&] { const BigInteger s = a + b; const BigInteger d = s - b; o.boolean(d == a).boolean(d < a).boolean(d > a).hex(txt(d)); });
        one(o, [&] { const BigInteger q = a / b; const BigInteger r = a % b; const BigInteger w = q * b + r; o.boolean(w == a).boolean(w < a).boolean(w > a).hex(txt(w)); });
        one(o, [&] { const BigInteger z = a * b - b * a; o.boolean(z == BigInteger("0")).hex(txt(z)); });
        one(o, [&] { std::ostringstream s; s << a << ' ' << b; intact(s); o.hex(s.str()); });
        one(o, [&] { o.hex(txt(a)).hex(txt(b)); }); // operands unchanged
    }
    else if (k == "il") // the operations of linear cost, for very long operands
    {
        const std::string sa = in.str(), sb = in.str();
        const BigInteger a{String(sa)}, b{String(sb)};
        one(o, [&] { o.hex(txt(a + b)); });
        one(o, [&] { o.hex(txt(a - b)); });
        cmp(o, a, b);
        one(o, [&] { o.hex(txt(a.Abs())); });
        one(o, [&] { const BigInteger s = a + b; const BigInteger d = s - b; o.boolean(d == a).boolean(d < a).boolean(d > a); });
        one(o, [&] { o.hex(txt(a)).hex(txt(b)); });
    }
    else if (k == "iq") // products of long operands
    {
        const std::string sa = in.str(), sb = in.str();
        const BigInteger a{String(sa)}, b{String(sb)};
        one(o, [&] { o.hex(txt(a * b)); });
        one(o, [&] { o.hex(txt(b * a)); });
        if (sa.size() <= 1400) one(o, [&] { o.hex(txt(a.Sqr())); });
        one(o, [&] { o.hex(txt(a)).hex(txt(b)); });
    }
    else if (k == "fl")
    {
        const std::string sa = in.str(), sb = in.str();
        const BigFloat a{String(sa)}, b{String(sb)};
        one(o, [&] { o.hex(txt(a + b)); });
        one(o, [&] { o.hex(txt(a - b)); });
        cmp(o, a, b);
        one(o, [&] { o.hex(txt(a.Abs())); });
        one(o, [&] { o.hex(txt(a)).hex(txt(b)); });
    }
    else if (k == "ix") program<BigInteger>(in, o);
    else if (k == "fx") program<BigFloat>(in, o);
    else if (k == "iu") // unary
    {
        std::unique_ptr<BigInteger> pa;
        const int ha = static_cast<int>(in.num());
        const std::string sa = in.str();
        const int e = static_cast<int>(in.num());
        const bool root = in.num() != 0;
        make(pa, sa, ha);
        const BigInteger& a = *pa;
        one(o, [&] { o.hex(txt(a)); });
        one(o, [&] { o.hex(txt(a.Abs())); });
        one(o, [&] { o.hex(txt(a.Sqr())); });
        one(o, [&] { o.hex(txt(a.Pow(e))); });
        if (root) one(o, [&] { o.hex(txt(a.Sqrt())); });
        one(o, [&] { BigInteger c; c = a; BigInteger& r = c; c = r; c = std::move(r); o.hex(txt(c)).hex(txt(a)); });
        one(o, [&] { BigInteger c(a); BigInteger d(std::move(c)); c = BigInteger("-7"); o.hex(txt(c)).hex(txt(d)).hex(txt(a)); });
    }
    else if (k == "ip") // parse
    {
        const std::string s = in.str();
        one(o, [&] { o.hex(txt(BigInteger(String(s)))); });
        one(o, [&] { CBuf c(s); o.hex(txt(BigInteger(static_cast<const char*>(c)))); });
    }
    else if (k == "im") // machine integers
    {
        const long long s = in.num();
        const unsigned long long u = in.unum();
        one(o, [&] { o.hex(txt(BigInteger(static_cast<int64_t>(s)))); });
        one(o, [&] { o.hex(txt(BigInteger(static_cast<uint64_t>(u)))); });
        one(o, [&] { const BigInteger a(static_cast<int64_t>(s)), b(static_cast<uint64_t>(u)); o.boolean(a < b).boolean(a == b).boolean(a > b); });
        one(o, [&] { const std::unique_ptr<BigInteger> p(new BigInteger); const BigInteger& d = *p; o.hex(txt(d)).boolean(d == BigInteger("0")).boolean(d == BigInteger("-0")).boolean(d < BigInteger("000")); });
        one(o, [&] { BigInteger d; const BigInteger c(d); d = c; o.hex(txt(d + c)).boolean(d == BigInteger("0")).boolean(c < BigInteger("1")).boolean(d > c); });
    }
    else if (k == "fb")
    {
        const std::string sa = in.str(), sb = in.str();
        const bool same = in.num() != 0;
        const BigFloat a{String(sa)}, b0{String(sb)};
        const BigFloat& b = same ? a : b0;
        one(o, [&] { o.hex(txt(a + b)); });
        one(o, [&] { o.hex(txt(a - b)); });
        one(o, [&] { o.hex(txt(a * b)); });
        one(o, [&] { o.hex(txt(a / b)); });
        cmp(o, a, b);
        one(o, [&] { const BigFloat d = a + b - b; o.boolean(d == a).boolean(d < a).boolean(d > a).hex(txt(d)); });
        one(o, [&] { const BigFloat d = a * b - b * a; o.boolean(d == BigFloat("0")).boolean(d == BigFloat("-0.000")).hex(txt(d)); });
        one(o, [&] { std::ostringstream s; s << a << ' ' << b; intact(s); o.hex(s.str()); });
        one(o, [&] { BigFloat c; c = a; BigFloat d(std::move(c)); c = b; BigFloat e; e = std::move(d); BigFloat f(e); o.hex(txt(c)).hex(txt(e)).hex(txt(f)); });
        one(o, [&] { o.hex(txt(a)).hex(txt(b)); });
    }
    else if (k == "fu")
    {
        const std::string sa = in.str();
        const int e = static_cast<int>(in.num());
        const bool root = in.num() != 0;
        const BigFloat a{String(sa)};
        one(o, [&] { o.hex(txt(a)); });
        one(o, [&] { o.hex(txt(a.Abs())); });
        one(o, [&] { o.hex(txt(a.Sqr())); });
        one(o, [&] { o.hex(txt(a.Pow(e))); });
        if (root) one(o, [&] { o.hex(txt(a.Sqrt())); });
    }
    else if (k == "fp")
    {
        const std::string s = in.str();
        one(o, [&] { const BigFloat a{String(s)}; const BigFloat b(a.ToString()); o.hex(txt(a)).boolean(a == b); });
        one(o, [&] { CBuf c(s); o.hex(txt(BigFloat(static_cast<const char*>(c)))); });
        one(o, [&] { CBuf c(s); o.hex(txt(operator""_bigfloat(static_cast<const char*>(c), s.size()))); });
    }
    else if (k == "fd")
    {
        const double d = rt::real(in.next());
        one(o, [&] { o.hex(txt(BigFloat(d))); });
    }
    else _exit(96);
}
