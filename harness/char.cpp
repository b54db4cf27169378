// C05-C07: characters, code points, case mapping and classification, over ranges of code points.
#include "rt.hpp"
#include "Caitlyn/Char"
#include "Caitlyn/String"
using namespace rt;
using Caitlyn::Char;
using Caitlyn::CodePoint;
using Caitlyn::String;

static bool scalar(unsigned long long c) { return c <= 0x10FFFF && !(c >= 0xD800 && c < 0xE000); }

static void enc_range(Toks& in, Out& o)
{
    const unsigned long long lo = in.unum(), hi = in.unum();
    std::string bytes, back, flags, sizes;
    for (unsigned long long c = lo; c < hi; ++c)
    {
        if (!scalar(c)) continue;
        const Char a(static_cast<CodePoint>(c));
        Char b("z");
        b = static_cast<CodePoint>(c);
        bytes += a.str();
        sizes += static_cast<char>('0' + a.size());
        char t[16];
        std::snprintf(t, sizeof t, "%x,", static_cast<unsigned>(a.GetCodePoint()));
        back += t;
        const std::string e = a.str();
        const CBuf cb(e);
        const Char d(e), f(static_cast<const char*>(cb));
        Char g, h("q");
        g = e;
        h = static_cast<const char*>(cb);
        Char k(a), m;
        m = k;
        Char n(std::move(k));
        std::ostringstream os;
        os << a;
        intact(os);
        const bool ok = b == a && d == a && f == a && g == a && h == a && m == a && n == a && !(a != d) && os.str() == e &&
                        std::string(a.c_str()) == e && std::string(a.data()) == e && a.Length() == a.size() && a.NotEmpty() && !a.IsEmpty() &&
                        b.GetCodePoint() == c && d.GetCodePoint() == c && g.GetCodePoint() == c && m.GetCodePoint() == c;
        flags += ok ? '1' : '0';
    }
    o.hex(bytes).tok(sizes.empty() ? "-" : sizes.c_str()).tok(back.empty() ? "-" : back.c_str()).tok(flags.empty() ? "-" : flags.c_str());
}

static void order(Toks& in, Out& o)
{
    const CodePoint x = static_cast<CodePoint>(in.unum()), y = static_cast<CodePoint>(in.unum());
    const Char a(x), b(y);
    const Char& s = a;
    o.boolean(a < b).boolean(a <= b).boolean(a > b).boolean(a >= b).boolean(a == b).boolean(a != b);
    o.boolean(a < s).boolean(a <= s).boolean(a > s).boolean(a >= s).boolean(a == s).boolean(a != s);
}

static void byte_ctor(Toks& in, Out& o)
{
    const char c = static_cast<char>(in.num());
    const Char a(c);
    Char b("zz" + 1);
    b = c;
    o.hex(a.str()).unum(a.GetCodePoint()).boolean(a == b).hex(b.str());
}

static void case_range(Toks& in, Out& o)
{
    const unsigned long long lo = in.unum(), hi = in.unum();
    std::string up, down, cu, cd, src;
    char t[16];
    String str;
    std::string su, sd;
    for (unsigned long long c = lo; c < hi; ++c)
    {
        const CodePoint cp = static_cast<CodePoint>(c);
        std::snprintf(t, sizeof t, "%x,", static_cast<unsigned>(Caitlyn::ToUppercase(cp)));
        up += t;
        std::snprintf(t, sizeof t, "%x,", static_cast<unsigned>(Caitlyn::ToLowercase(cp)));
        down += t;
        if (!scalar(c) || c == 0) continue;
        const Char ch(cp);
        cu += Caitlyn::ToUppercase(ch).str() + ",";
        cd += Caitlyn::ToLowercase(ch).str() + ",";
        str.PushBack(ch);
    }
    const String u = str.ToUppercase(), d = str.ToLowercase();
    for (const Char& ch : u) su += ch.str() + ",";
    for (const Char& ch : d) sd += ch.str() + ",";
    o.tok(up.c_str()).tok(down.c_str()).hex(cu).hex(cd).boolean(su == cu).boolean(sd == cd);
}

static void str_case(Toks& in, Out& o)
{
    const String s(in.str());
    const String u = s.ToUppercase(), d = s.ToLowercase();
    o.hex(u.str()).hex(d.str()).hex(u.ToUppercase().str()).hex(d.ToLowercase().str()).hex(s.str()).idx(u.size()).idx(d.size());
}

static char mask(CodePoint c)
{
    const int m = (Caitlyn::IsSpace(c) ? 1 : 0) | (Caitlyn::IsDigit(c) ? 2 : 0) | (Caitlyn::IsUppercase(c) ? 4 : 0) |
                  (Caitlyn::IsLowercase(c) ? 8 : 0) | (Caitlyn::IsLetter(c) ? 16 : 0);
    return static_cast<char>('@' + m);
}

static void class_range(Toks& in, Out& o)
{
    const unsigned long long lo = in.unum(), hi = in.unum();
    std::string m, dig;
    for (unsigned long long c = lo; c < hi; ++c)
    {
        m += mask(static_cast<CodePoint>(c));
        char t[16];
        std::snprintf(t, sizeof t, "%d,", Caitlyn::ToDigit(static_cast<CodePoint>(c)));
        dig += t;
    }
    o.tok(m.c_str()).tok(dig.c_str());
}

// scattered calls in the given order, each made twice
static void class_list(Toks& in, Out& o)
{
    std::string m, m2;
    std::vector<CodePoint> cps;
    while (in.more()) cps.push_back(static_cast<CodePoint>(in.unum()));
    for (CodePoint c : cps) m += mask(c);
    for (size_t i = cps.size(); i-- > 0;) m2 += mask(cps[i]);
    o.tok(m.c_str()).tok(m2.c_str());
}

void run_case(Toks& in, Out& o)
{
    const std::string k = in.next();
    if (k == "enc") enc_range(in, o);
    else if (k == "ord") order(in, o);
    else if (k == "byte") byte_ctor(in, o);
    else if (k == "case") case_range(in, o);
    else if (k == "scase") str_case(in, o);
    else if (k == "cls") class_range(in, o);
    else if (k == "list") class_list(in, o);
    else _exit(96);
}
