// C01-C04: String construction, malformed input, editing histories, searching and comparison.
#include "rt.hpp"
#include <list>
#include <iterator>
#include "Caitlyn/String"
using namespace rt;
using Caitlyn::Char;
using Caitlyn::CodePoint;
using Caitlyn::String;

static void describe(Out& o, const String& s)
{
    const String& c = s;
    o.idx(c.size()).idx(c.Length()).idx(c.ByteCount()).boolean(c.IsEmpty()).boolean(c.NotEmpty());
    o.hex(c.str());
    std::string it, rit, cit, crit, idx, at, vec;
    for (const Char& ch : c) it += ch.str() + ",";
    for (auto i = c.rbegin(); i != c.rend(); ++i) rit += i->str() + ",";
    for (auto i = c.cbegin(); i != c.cend(); ++i) cit += i->str() + ",";
    for (auto i = c.crbegin(); i != c.crend(); ++i) crit += i->str() + ",";
    for (size_t i = 0; i < c.size(); ++i) idx += c[i].str() + ",";
    for (size_t i = 0; i < c.size(); ++i) at += c.At(i).str() + ",";
    for (const Char& ch : c.data()) vec += ch.str() + ",";
    o.hex(it).hex(rit);
    o.boolean(cit == it).boolean(crit == rit).boolean(idx == it).boolean(at == it).boolean(vec == it);
    std::ostringstream os;
    os << c;
    intact(os);
    o.hex(os.str());
    std::string cps;
    for (size_t i = 0; i < c.size(); ++i)
    {
        char b[16];
        std::snprintf(b, sizeof b, "%x,", static_cast<unsigned>(c[i].GetCodePoint()));
        cps += b;
    }
    o.tok(cps.empty() ? "-" : cps.c_str());
    const size_t probes[] = {c.size(), c.size() + 1, c.size() + 1000, static_cast<size_t>(-1), static_cast<size_t>(1) << 63};
    for (size_t p : probes)
        guarded(o, [&] { (void)c.At(p); o.tok("noexc"); });
    String m = c;
    for (size_t p : probes)
        guarded(o, [&] { (void)m.At(p); o.tok("noexc"); });
    // mutable iteration
    std::string mit, mrit;
    for (auto i = m.begin(); i != m.end(); ++i) mit += i->str() + ",";
    for (auto i = m.rbegin(); i != m.rend(); ++i) mrit += i->str() + ",";
    o.boolean(mit == it).boolean(mrit == rit);
}

static std::vector<std::string> pieces(const std::string& s)
{
    std::vector<std::string> r;
    for (size_t i = 0; i < s.size();)
    {
        const unsigned char c = static_cast<unsigned char>(s[i]);
        const size_t n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
        r.push_back(s.substr(i, n));
        i += n;
    }
    return r;
}

static CodePoint decode(const std::string& p)
{
    auto u = [&](size_t i) { return static_cast<unsigned>(static_cast<unsigned char>(p[i])); };
    switch (p.size())
    {
        case 1: return u(0);
        case 2: return ((u(0) & 31) << 6) | (u(1) & 63);
        case 3: return ((u(0) & 15) << 12) | ((u(1) & 63) << 6) | (u(2) & 63);
        default: return ((u(0) & 7) << 18) | ((u(1) & 63) << 12) | ((u(2) & 63) << 6) | (u(3) & 63);
    }
}

static std::string enc(CodePoint c)
{
    std::string r;
    if (c < 0x80) r += static_cast<char>(c);
    else if (c < 0x800) { r += static_cast<char>(0xC0 | (c >> 6)); r += static_cast<char>(0x80 | (c & 63)); }
    else if (c < 0x10000) { r += static_cast<char>(0xE0 | (c >> 12)); r += static_cast<char>(0x80 | ((c >> 6) & 63)); r += static_cast<char>(0x80 | (c & 63)); }
    else { r += static_cast<char>(0xF0 | (c >> 18)); r += static_cast<char>(0x80 | ((c >> 12) & 63)); r += static_cast<char>(0x80 | ((c >> 6) & 63)); r += static_cast<char>(0x80 | (c & 63)); }
    return r;
}

static void round_trip(Toks& in, Out& o)
{
    const std::string s = in.str();
    const CBuf c(s);
    const auto ps = pieces(s);
    size_t first_from = 0, first_len = 0;
    int way = 0;
    auto emit = [&](const String& v) {
        const size_t from = o.n;
        describe(o, v);
        if (way++ == 0)
        {
            first_from = from;
            first_len = o.n - from;
        }
        else if (o.n - from - 1 == first_len - (o.buf[first_from] == ' ' ? 1 : 0) &&
                 std::memcmp(o.buf + from + 1, o.buf + first_from + (o.buf[first_from] == ' ' ? 1 : 0), o.n - from - 1) == 0)
        {
            o.n = from;
            o.tok("=");
        }
        else
        {
            o.tok("DIFF-WAY").num(way - 1);
        }
    };
    emit(String(static_cast<const char*>(c)));
    emit(String(s));
    emit(operator""_str(c, s.size()));
    {
        std::vector<Char> v;
        for (auto& p : ps) v.emplace_back(Char(p));
        emit(String(v));
    }
    {
        std::vector<Char> v;
        for (auto& p : ps) v.emplace_back(Char(p.c_str()));
        emit(String(v));
    }
    {
        String b;
        for (auto& p : ps) b.PushBack(Char(decode(p)));
        emit(b);
    }
    {
        String b;
        b.Append(static_cast<const char*>(c));
        emit(b);
    }
    {
        String b;
        for (auto& p : ps) b += String(p);
        emit(b);
        String d(b);
        emit(d);
        String e(std::move(d));
        emit(e);
        String f("x");
        f = e;
        emit(f);
        String g("yz");
        g = std::move(f);
        emit(g);
        emit(String(g.data()));
        emit(g + String());
        emit(String() + g);
    }
    {
        const String all(s);
        emit(String(all.begin(), all.end()));
        String back(all.rbegin(), all.rend());
        emit(String(back.rbegin(), back.rend()));
        std::list<CodePoint> cps;
        for (auto& p : ps) cps.push_back(decode(p));
        emit(String(cps.begin(), cps.end()));
        emit(String(s.begin(), s.end()));
        emit(String(static_cast<const char*>(c), static_cast<const char*>(c) + s.size()));
        std::istringstream is(s);
        emit(String(std::istreambuf_iterator<char>(is), std::istreambuf_iterator<char>()));
        String bc(all);
        emit(String(bc.begin(), bc.end()));
    }
    {
        String b;
        b.Insert(0, static_cast<const char*>(c));
        emit(b);
    }
    {
        String b;
        for (auto& p : ps) b.Append(1, Char(p));
        emit(b);
    }
    {
        String b;
        for (auto& p : ps) b.Append(1, p.c_str());
        emit(b);
    }
    {
        String b;
        b = static_cast<const char*>(c);
        emit(b);
        b = s;
        emit(b);
    }
    if (s.find('\n') == std::string::npos)
    {
        std::istringstream is(s);
        String b("old");
        is >> b;
        intact(is);
        if (s.empty()) o.tok("=");
        else emit(b);
    }
}

static void op_result(Out& o, const char* name, const String& r)
{
    o.tok(name).hex(r.str());
}

static void malformed(Toks& in, Out& o)
{
    const std::string s = in.str();
    const std::string pre = in.str();
    const size_t pos = in.unum();
    const CBuf c(s);
    guarded(o, [&] { String v(static_cast<const char*>(c)); op_result(o, "ok", v); });
    guarded(o, [&] { std::unique_ptr<std::string> h(new std::string(s)); h->shrink_to_fit(); String v(*h); op_result(o, "ok", v); });
    {
        String b(pre);
        guarded(o, [&] { b.Append(static_cast<const char*>(c)); o.tok("ok"); });
        o.hex(b.str());
    }
    {
        String b(pre);
        guarded(o, [&] { b.Insert(pos, static_cast<const char*>(c)); o.tok("ok"); });
        o.hex(b.str());
    }
    {
        String b(pre);
        guarded(o, [&] { b += static_cast<const char*>(c); o.tok("ok"); });
        o.hex(b.str());
    }
    {
        String b(pre);
        guarded(o, [&] { b.Insert(pos, String(s)); o.tok("ok"); });
        o.hex(b.str());
    }
    {
        String b(pre);
        guarded(o, [&] { b = static_cast<const char*>(c); o.tok("ok"); });
        o.hex(b.str());
    }
    {
        String b(pre);
        guarded(o, [&] { b.Append(2, static_cast<const char*>(c)); o.tok("ok"); });
        o.hex(b.str());
    }
    {
        String b(pre);
        guarded(o, [&] { std::istringstream is(s); is >> b; intact(is); o.tok("ok"); });
        o.hex(b.str());
    }
    // a single character
    guarded(o, [&] { Char v(static_cast<const char*>(c)); o.tok("ok").hex(v.str()); });
    guarded(o, [&] { std::unique_ptr<std::string> h(new std::string(s)); h->shrink_to_fit(); Char v(*h); o.tok("ok").hex(v.str()); });
    {
        Char v("q");
        guarded(o, [&] { v = static_cast<const char*>(c); o.tok("ok"); });
        o.hex(v.str());
    }
    {
        Char v("q");
        guarded(o, [&] { v = s; o.tok("ok"); });
        o.hex(v.str());
    }
    guarded(o, [&] { Char v = operator""_char(c, s.size()); o.tok("ok").hex(v.str()); });
    guarded(o, [&] { String v = operator""_str(c, s.size()); op_result(o, "ok", v); });
}

static void history(Toks& in, Out& o)
{
    String r[4];
    std::string shown[4];
    for (auto& x : shown) x = "0:";
#ifdef RT_OOM
    oom().in = &in;
#endif
    while (in.more())
    {
        const std::string op = in.next();
        guarded(o, [&] {
            if (op == "new") { const size_t a = in.unum(); const std::string s = in.str(); CBuf c(s); r[a] = String(static_cast<const char*>(c)); }
            else if (op == "newb") { const size_t a = in.unum(); const std::string s = in.str(); r[a] = String(s); }
            else if (op == "newn") { const size_t a = in.unum(); const size_t n = in.unum(); const char ch = static_cast<char>(in.num()); r[a] = String(n, ch); }
            else if (op == "newc") { const size_t a = in.unum(); const size_t n = in.unum(); const Char ch(static_cast<CodePoint>(in.unum())); r[a] = String(n, ch); }
            else if (op == "cpy") { const size_t a = in.unum(), b = in.unum(); String t(r[b]); r[a] = std::move(t); }
            else if (op == "mov") { const size_t a = in.unum(), b = in.unum(); String t(std::move(r[b])); r[b].Clear(); r[a] = std::move(t); }
            else if (op == "asg") { const size_t a = in.unum(), b = in.unum(); const String& src = r[b]; r[a] = src; }
            else if (op == "masg") { const size_t a = in.unum(), b = in.unum(); String& src = r[b]; r[a] = std::move(src); if (a != b) r[b].Clear(); }
            else if (op == "plus") { const size_t a = in.unum(), b = in.unum(), c = in.unum(); r[a] = r[b] + r[c]; }
            else if (op == "plusc") { const size_t a = in.unum(), b = in.unum(); const std::string s = in.str(); CBuf c(s); r[a] = r[b] + static_cast<const char*>(c); }
            else if (op == "pe") { const size_t a = in.unum(), b = in.unum(); r[a] += r[b]; }
            else if (op == "pb") { const size_t a = in.unum(); r[a].PushBack(Char(static_cast<CodePoint>(in.unum()))); }
            else if (op == "pbs") { const size_t a = in.unum(), i = in.unum(); r[a].PushBack(r[a].At(i)); }
            else if (op == "apc") { const size_t a = in.unum(); const std::string s = in.str(); CBuf c(s); r[a].Append(static_cast<const char*>(c)); }
            else if (op == "apn") { const size_t a = in.unum(), n = in.unum(); const std::string s = in.str(); CBuf c(s); r[a].Append(n, static_cast<const char*>(c)); }
            else if (op == "apk") { const size_t a = in.unum(), n = in.unum(); const Char ch(static_cast<CodePoint>(in.unum())); r[a].Append(n, ch); }
            else if (op == "aps") { const size_t a = in.unum(), n = in.unum(), i = in.unum(); r[a].Append(n, r[a].At(i)); }
            else if (op == "ins") { const size_t a = in.unum(), p = in.unum(); const std::string s = in.str(); CBuf c(s); r[a].Insert(p, static_cast<const char*>(c)); }
            else if (op == "inss") { const size_t a = in.unum(), p = in.unum(), b = in.unum(); r[a].Insert(p, r[b]); }
            else if (op == "insk") { const size_t a = in.unum(), p = in.unum(), n = in.unum(); const Char ch(static_cast<CodePoint>(in.unum())); r[a].Insert(p, n, ch); }
            else if (op == "insz") { const size_t a = in.unum(), p = in.unum(), n = in.unum(), i = in.unum(); r[a].Insert(p, n, r[a].At(i)); }
            else if (op == "sub") { const size_t a = in.unum(), b = in.unum(), p = in.unum(), n = in.unum(); r[a] = r[b].Substring(p, n); }
            else if (op == "sub1") { const size_t a = in.unum(), b = in.unum(), p = in.unum(); r[a] = r[b].Substring(p); }
            else if (op == "clr") { r[in.unum()].Clear(); }
            else if (op == "emp") { r[in.unum()] = String::Empty(); }
            else if (op == "set") { const size_t a = in.unum(), i = in.unum(); const Char ch(static_cast<CodePoint>(in.unum())); if (i < r[a].size()) r[a][i] = ch; }
            else if (op == "seta") { const size_t a = in.unum(), i = in.unum(); const Char ch(static_cast<CodePoint>(in.unum())); r[a].At(i) = ch; }
            else if (op == "vec") { const size_t a = in.unum(), b = in.unum(); auto v = r[b].data(); String t(v); v.clear(); r[a] = t; }
            else if (op == "rev") { const size_t a = in.unum(); std::reverse(r[a].begin(), r[a].end()); }
            else if (op == "lit") { const size_t a = in.unum(); const std::string s = in.str(); CBuf c(s); r[a] = operator""_str(c, s.size()); }
            else { std::fprintf(stderr, "RT: bad op %s\n", op.c_str()); _exit(96); }
            o.tok("ok");
        });
        for (int k = 0; k < 4; ++k)
        {
            const Quiet quiet;
            char b[32];
            std::snprintf(b, sizeof b, "%zu:", r[k].size());
            std::string now = b + r[k].str();
            if (now != shown[k])
            {
                o.num(k).idx(r[k].size()).hex(r[k].str());
                shown[k] = now;
            }
        }
        o.tok(";");
    }
}

static void query(Toks& in, Out& o)
{
    const std::string sa = in.str(), sb = in.str();
    const size_t pos = in.unum();
    const Char k(static_cast<CodePoint>(in.unum()));
    const String a(sa), b(sb);
    const CBuf cb(sb);
    o.idx(a.Find(b)).idx(a.Find(b, pos)).idx(a.Find(static_cast<const char*>(cb), pos));
    o.idx(a.ReverseFind(b)).idx(a.ReverseFind(b, pos)).idx(a.ReverseFind(static_cast<const char*>(cb)));
    o.boolean(a.Contains(b)).boolean(a.StartsWith(b)).boolean(a.EndsWith(b));
    o.tok("|");
    auto pred = [&](const Char& c) { return c == k; };
    o.idx(a.FindIf(pred)).idx(a.FindIf(pred, pos)).idx(a.FindIfNot(pred)).idx(a.FindIfNot(pred, pos));
    o.tok("|");
    o.boolean(a < b).boolean(a <= b).boolean(a > b).boolean(a >= b).boolean(a == b).boolean(a != b);
    o.boolean(a < cb.p).boolean(a <= cb.p).boolean(a > cb.p).boolean(a >= cb.p).boolean(a == cb.p).boolean(a != cb.p);
    o.boolean(b < a).boolean(b <= a).boolean(b > a).boolean(b >= a).boolean(b == a).boolean(b != a);
    o.boolean(a == a).boolean(a != a).boolean(a < a).boolean(a <= a);
}

void run_case(Toks& in, Out& o)
{
    const std::string k = in.next();
    if (k == "rt") round_trip(in, o);
    else if (k == "mal") malformed(in, o);
    else if (k == "hist") history(in, o);
    else if (k == "q") query(in, o);
    else _exit(96);
}
