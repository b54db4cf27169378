// C30: calls that only read objects shared by all threads (built by setup_case before the threads start).
#include "rt.hpp"
#include <functional>
#include <map>
#include "Caitlyn/String"
#include "Caitlyn/Numeric"
#include "Caitlyn/Error"
#include "Caitlyn/Serializing"
#include "Caitlyn/Memory"
#include "Caitlyn/Collections"
#include "Caitlyn/IO"
#include "Caitlyn/Utility"
using namespace rt;
using Caitlyn::String;
using Caitlyn::JsonDocument;
using Caitlyn::SharedPtr;
using Caitlyn::WeakPtr;
using Caitlyn::Unexpected;
using Caitlyn::Expected;
using Caitlyn::StringBuilder;
using Caitlyn::Char;
using Caitlyn::CodePoint;
using Caitlyn::IsSpace;
using Caitlyn::IsDigit;
using Caitlyn::IsUppercase;
using Caitlyn::IsLowercase;
using Caitlyn::IsLetter;
using Caitlyn::ToDigit;
using Caitlyn::Split;
using Caitlyn::Repeat;
using Caitlyn::kmp;
using Caitlyn::cmp_eq;
using Caitlyn::cmp_less;
using Caitlyn::Random;
using Caitlyn::RandomBoolean;
namespace Json = Caitlyn::Json;
using Caitlyn::BigInteger;
using Caitlyn::BigFloat;
using Data = Caitlyn::Json::__Detail::JsonData;
using Ex = Expected<String, String>;
using Ei = Expected<long, std::string>;

struct World
{
    std::vector<String> s;
    std::vector<BigInteger> i;
    std::vector<BigFloat> f;
    std::vector<JsonDocument> j;
    std::vector<Ex> ex;
    std::vector<Ei> ei;
    std::vector<long> nums;
    std::vector<SharedPtr<const String>> p;
    std::vector<WeakPtr<const String>> w;
};
static World* world;

void setup_case(Toks& in)
{
    world = new World();
    World& w = *world;
    while (in.more())
    {
        const std::string k = in.next();
        const std::string v = in.str();
        if (k == "s") w.s.emplace_back(v.c_str());
        else if (k == "i") w.i.emplace_back(String(v));
        else if (k == "f") w.f.emplace_back(String(v));
        else if (k == "j") w.j.emplace_back(String(v));
        else if (k == "n") w.nums.push_back(std::strtol(v.c_str(), nullptr, 10));
    }
    for (size_t n = 0; n < w.s.size(); ++n)
    {
        if (n % 2) w.ex.emplace_back(w.s[n]);
        else w.ex.emplace_back(Unexpected<String>(w.s[n]));
        if (n % 3) w.ei.emplace_back(static_cast<long>(n));
        else w.ei.emplace_back(Unexpected<std::string>(w.s[n].str()));
        w.p.emplace_back(new String(w.s[n]));
        w.w.emplace_back(w.p.back());
    }
}

static void str(Out& o, const String& s) { o.hex(s.str()); }

static void walk(Out& o, const Data& d, int depth)
{
    o.num(static_cast<int>(d.GetType())).unum(d.Size()).boolean(d.IsNull());
    o.boolean(d.GetBoolean()).num(d.GetIntegral()).hex(std::to_string(d.GetFloating()));
    str(o, d.GetString());
    if (depth > 6) return;
    if (d.IsArray()) for (size_t i = 0; i < d.Size(); ++i) walk(o, d.At(i), depth + 1);
    o.boolean(d.HasMember("a"));
    if (d.HasMember("a")) walk(o, d.At("a"), depth + 1);
}

void run_case(Toks& in, Out& o)
{
    const std::string op = in.next();
    const size_t a = in.unum(), b = in.unum(), c = in.unum();
    const World& w = *world;
    const String& s = w.s[a % w.s.size()];
    const String& t = w.s[b % w.s.size()];
    guarded(o, [&] {
        if (op == "cmp") o.boolean(s == t).boolean(s < t).boolean(s > t).boolean(s <= t).boolean(s >= t).boolean(s != t).boolean(s == "x").boolean(s < "m");
        else if (op == "find") o.idx(s.Find(t, c)).idx(s.ReverseFind(t)).boolean(s.Contains(t)).boolean(s.StartsWith(t)).boolean(s.EndsWith(t));
        else if (op == "case") { str(o, s.ToUppercase()); str(o, s.ToLowercase()); }
        else if (op == "iter")
        {
            unsigned long h = 7;
            for (const Char& ch : s) h = h * 31 + ch.GetCodePoint();
            for (auto it = s.rbegin(); it != s.rend(); ++it) h = h * 37 + it->GetCodePoint();
            o.unum(h).unum(s.size()).unum(s.ByteCount()).boolean(s.IsEmpty());
        }
        else if (op == "cat") { str(o, s + t); str(o, s.Substring(std::min<size_t>(c, s.size()), b)); String u(s); u += t; u.Append(2, s[0]); str(o, u); }
        else if (op == "cls")
        {
            for (const Char& ch : s) { const CodePoint p = ch.GetCodePoint(); o.num(IsSpace(p) + 2 * IsDigit(p) + 4 * IsUppercase(p) + 8 * IsLowercase(p) + 16 * IsLetter(p)).num(ToDigit(p)); }
            o.idx(s.FindIf([](const Char& ch) { return IsDigit(ch.GetCodePoint()); })).idx(s.FindIfNot([](const Char& ch) { return IsSpace(ch.GetCodePoint()); }));
        }
        else if (op == "esc") { str(o, EscapeString(s)); o.boolean(IsNumber(s)).unum(FindFirstNonSpace(s)).unum(FindLastNonSpace(s)); String u(t); u.Insert(t.size() / 2, s); str(o, u); }
        else if (op == "split") { for (const auto& x : Split(s.str(), ' ')) o.hex(x); o.hex(Repeat(t.str(), c % 5)); }
        else if (op == "fmt")
        {
            const long n = w.nums[c % w.nums.size()];
            str(o, String::Format("{0:>12}|{1}|{2:*^9}|{0}|{3:8.3f}", s, n, t, static_cast<double>(n) / 7));
            str(o, String::Format(s.str().c_str(), t, n));
        }
        else if (op == "fmts") str(o, String::Format("{} {:<7} {:>20}", s, c, t));
        else if (op == "val") { o.num(static_cast<long>(std::hash<std::string>()(s.str()) % 1000)); str(o, String::ValueOf(c % 2 == 0)); str(o, String::ValueOf(nullptr)); }
        else if (op == "sb") { StringBuilder sb; sb.Append(s); sb.Append(t); sb.AppendLine(s); sb.Append("{}-{}", t, c); sb.AppendLine("{:>9}", s); str(o, sb.str()); }
        else if (op == "kmp") o.boolean(kmp(s.str(), t.str())).boolean(kmp(t.str(), s.str()));
        else if (op == "big")
        {
            const BigInteger &x = w.i[a % w.i.size()], &y = w.i[b % w.i.size()];
            str(o, (x + y).ToString()); str(o, (x - y).ToString()); str(o, (x * y).ToString());
            str(o, x.ToString()); o.boolean(x == y).boolean(x < y).boolean(x >= y).unum(x.Size());
        }
        else if (op == "bdiv")
        {
            const BigInteger &x = w.i[a % w.i.size()], &y = w.i[b % w.i.size()];
            str(o, (x / y).ToString()); str(o, (x % y).ToString());
        }
        else if (op == "bpow") { const BigInteger& x = w.i[a % w.i.size()]; str(o, x.Pow(c % 4).ToString()); str(o, x.Abs().Sqrt().ToString()); str(o, x.Sqr().ToString()); }
        else if (op == "flt")
        {
            const BigFloat &x = w.f[a % w.f.size()], &y = w.f[b % w.f.size()];
            str(o, (x + y).ToString()); str(o, (x - y).ToString()); str(o, (x * y).ToString()); o.boolean(x == y).boolean(x < y).boolean(x > y);
        }
        else if (op == "fdiv") { const BigFloat &x = w.f[a % w.f.size()], &y = w.f[b % w.f.size()]; str(o, (x / y).ToString()); }
        else if (op == "fpow") { const BigFloat& x = w.f[a % w.f.size()]; str(o, x.Pow(c % 4).ToString()); str(o, x.Abs().Sqrt().ToString()); str(o, x.ToString()); }
        else if (op == "jtext") { const JsonDocument& d = w.j[a % w.j.size()]; str(o, d.ToString()); str(o, d.ToString(true, c % 5)); o.unum(d.Size()).boolean(d.HasError()); str(o, d.GetErrorString()); }
        else if (op == "jcopy") { JsonDocument d = w.j[a % w.j.size()]; if (!d.HasError()) { d["new"] = s.str(); d["n"] = static_cast<int>(c); } str(o, d.ToString()); }
        else if (op == "jwalk") { const JsonDocument& d = w.j[a % w.j.size()]; o.boolean(d.HasMember("a")); if (d.HasMember("a")) walk(o, d["a"], 0); }
        else if (op == "jparse") { const auto r = JsonDocument::ParserType::Parse(w.j[a % w.j.size()].ToString()); o.num(static_cast<int>(r.GetError())); if (!r.HasError()) str(o, r.GetData().ToString(true)); }
        else if (op == "jstr") { const auto r = JsonDocument::ParserType::Parse(s); o.num(static_cast<int>(r.GetError())); str(o, Json::GetErrorString(r.GetError())); }
        else if (op == "exp")
        {
            const Ex& e = w.ex[a % w.ex.size()];
            const Ei& f = w.ei[b % w.ei.size()];
            o.boolean(e.HasValue()).boolean(static_cast<bool>(f));
            str(o, e.UnwrapOrDefault());
            str(o, e.UnwrapOr(t));
            str(o, e.UnwrapOrDefault(s));
            o.num(f.UnwrapOrDefault()).num(f.UnwrapOr(-5L));
            const Ex g = e.Map([](const String& x) { return x + x; });
            str(o, g.HasValue() ? g.Get() : g.GetError());
            const Ex h = e.MapError([](const String& x) { return x + "!"; });
            str(o, h.HasValue() ? h.Get() : h.GetError());
            o.boolean(e.Filter([](const String& x) { return x.size() > 3; }).HasValue());
            o.boolean(e.OrElse([](const String& x) { return Ex(x); }).HasValue());
        }
        else if (op == "expx") { str(o, w.ex[a % w.ex.size()].Expect(t)); }
        else if (op == "expe") { o.hex(w.ei[a % w.ei.size()].ExpectError("none")); }
        else if (op == "ptr")
        {
            SharedPtr<const String> p = w.p[a % w.p.size()];
            SharedPtr<const String> q = w.w[b % w.w.size()].lock();
            str(o, *p); o.boolean(q != nullptr);
            if (q != nullptr) str(o, *q);
        }
        else if (op == "eq") o.boolean(cmp_eq(w.nums[a % w.nums.size()], static_cast<unsigned>(c))).boolean(cmp_less(-1, static_cast<unsigned>(b)));
        else if (op == "rnd") { const auto r = Random<int>(0, 9); o.boolean(r >= 0 && r <= 9).boolean(RandomBoolean(1.0)); const double d = Random<double>(-1, 1); o.boolean(d >= -1 && d <= 1); }
        else if (op == "map") { std::map<long, String> m; for (size_t k = 0; k < w.s.size(); ++k) m.emplace(w.nums[k % w.nums.size()], w.s[k]); for (const auto& v : GetMapValues(m)) str(o, v); for (long k : GetMapKeys(m)) o.num(k); }
        else o.tok("?");
    });
}
