// C21-C23: parsing, serializing and histories of edits on JSON documents.
#include "rt.hpp"
#include <locale>
#include "Caitlyn/Serializing"
using namespace rt;
using Caitlyn::String;
using Caitlyn::JsonDocument;
namespace Json = Caitlyn::Json;
typedef JsonDocument Doc;
typedef Doc::DataType Data;
typedef Json::JsonClass JC;

static const char* cls(JC c)
{
    switch (c)
    {
        case JC::Null: return "n";
        case JC::Object: return "o";
        case JC::Array: return "a";
        case JC::String: return "s";
        case JC::Floating: return "d";
        case JC::Integral: return "i";
        case JC::Boolean: return "b";
    }
    return "?";
}

static void dump(Out& o, const Data& d)
{
    o.tok(cls(d.GetType()));
    switch (d.GetType())
    {
        case JC::String: o.hex(d.GetString().str()); break;
        case JC::Integral: o.num(d.GetIntegral()); break;
        case JC::Boolean: o.boolean(d.GetBoolean()); break;
        case JC::Floating:
        {
            const float f = d.GetFloating();
            uint32_t u;
            std::memcpy(&u, &f, 4);
            o.unum(u);
            break;
        }
        case JC::Array:
        {
            const size_t n = d.Size();
            o.unum(n);
            for (size_t i = 0; i < n; ++i) dump(o, d.At(i));
            break;
        }
        case JC::Object:
        {
            o.unum(d.Size());
            for (const auto& m : const_cast<Data&>(d).GetData())
            {
                o.hex(m.first.str());
                dump(o, *m.second);
            }
            break;
        }
        default: break;
    }
}

struct Grouping : std::numpunct<char>
{
    char do_thousands_sep() const override { return ','; }
    char do_decimal_point() const override { return ';'; }
    std::string do_grouping() const override { return "\3"; }
    std::string do_truename() const override { return "ja"; }
};
struct LocaleGuard
{
    std::locale old;
    bool on;
    explicit LocaleGuard(bool b) : on(b && !rt::threaded)
    {
        const rt::Quiet quiet;
        if (on) old = std::locale::global(std::locale(std::locale::classic(), new Grouping));
    }
    ~LocaleGuard()
    {
        if (on) std::locale::global(old);
    }
};

static const std::string& file_name() // each thread has a file of its own
{
    RT_STATIC std::string* name = new std::string("in" + std::to_string(rt::lane()) + ".json");
    return *name;
}
static void put_file(const std::string& s)
{
    const Quiet quiet;
    std::ofstream f(file_name(), std::ios::binary | std::ios::trunc);
    f << s;
}

// What the document serializes to, and what the library reads from that again.
static void texts(Out& o, const Doc& d, size_t indent)
{
    const std::string c = d.ToString().str();
    const std::string p = d.ToString(true, indent).str();
    std::ostringstream s;
    s << d;
    intact(s);
    o.hex(c).hex(p).boolean(s.str() == c);
    for (const auto& t : {c, p})
    {
        const auto r = Doc::ParserType::Parse(t);
        o.num(static_cast<int>(r.GetError()));
        if (!r.HasError()) dump(o, r.GetData());
    }
}

static void op_parse(Toks& in, Out& o)
{
    const long long mode = in.num(), pre = in.num(), loc = in.num();
    const size_t indent = in.unum();
    const std::string text = in.str();
    std::vector<std::string> keys;
    for (long long n = in.num(); n > 0; --n) keys.push_back(in.str());
    LocaleGuard g(loc != 0);
    guarded(o, [&] {
        Doc d;
        if (pre == 1) d.Parse("{\"pre\":[1,{\"x\":\"y\"}]}");
        if (pre == 2) d.Parse("{");
        switch (mode)
        {
            case 0: { Doc t{String(text)}; d = t; break; }
            case 1: d.Parse(text); break;
            case 2: d = String(text); break;
            case 3: { std::istringstream is(text); is >> d; intact(is); break; }
            case 4: { put_file(text); Doc t{std::ifstream(file_name())}; d = std::move(t); break; }
            case 5: { put_file(text); d = std::ifstream(file_name()); break; }
            case 6: d = Json::MakeDocument(String(text)); break;
            case 7: { put_file(text); d.Parse(std::ifstream(file_name())); break; }
            case 8: { put_file(text); d = Json::MakeDocument(std::ifstream(file_name())); break; }
            case 9: { put_file(text); std::ifstream f(file_name()); f >> d; intact(f); break; }
        }
        o.tok("P").boolean(d.HasError()).num(static_cast<int>(d.GetError())).hex(d.GetErrorString().str());
        o.tok(cls(d.GetType())).idx(d.Size());
        const Doc& cd = d;
        for (const auto& k : keys)
        {
            o.boolean(d.HasMember(k));
            if (d.HasMember(k)) dump(o, cd[k]);
        }
        if (!d.HasError())
        {
            o.tok("T");
            texts(o, d, indent);
        }
    });
}

// A deeply nested text is given by its shape.
static void op_deep(Toks& in, Out& o)
{
    const size_t depth = in.unum();
    const long long kind = in.num(), closed = in.num();
    std::string a, b;
    for (size_t i = 0; i < depth; ++i)
    {
        const bool obj = i == 0 || kind == 1 || (kind == 2 && i % 2 == 0);
        a += obj ? "{\"k\":" : "[";
        b += obj ? '}' : ']';
    }
    a += "7";
    if (closed)
    {
        std::string r(b.rbegin(), b.rend());
        a += r;
    }
    else a += "}";
    Doc d;
    d.Parse(a);
    o.tok("P").boolean(d.HasError()).hex(d.GetErrorString().str()).tok(cls(d.GetType()));
    if (!d.HasError())
    {
        Doc e = d;
        o.boolean(e.ToString().str() == a);
        e["k"] = 1;
        o.boolean(d.ToString().str() == a);
        o.boolean(Doc(d.ToString(true, 1)).ToString().str() == a);
    }
}

static Data value(Toks& in)
{
    const std::string k = in.next();
    if (k == "nul") return Data{nullptr};
    if (k == "dft") return Data{};
    if (k == "bt") return Data{in.num() != 0};
    if (k == "i8") return Data{static_cast<int8_t>(in.num())};
    if (k == "u8") return Data{static_cast<uint8_t>(in.num())};
    if (k == "i16") return Data{static_cast<int16_t>(in.num())};
    if (k == "u16") return Data{static_cast<uint16_t>(in.num())};
    if (k == "i32") return Data{static_cast<int32_t>(in.num())};
    if (k == "u32") return Data{static_cast<uint32_t>(in.num())};
    if (k == "i64") return Data{static_cast<int64_t>(in.num())};
    if (k == "u64") return Data{static_cast<uint64_t>(in.unum())};
    if (k == "f" || k == "mf" || k == "dbl")
    {
        const uint32_t u = static_cast<uint32_t>(in.unum());
        float f;
        std::memcpy(&f, &u, 4);
        if (k == "f") return Data{f};
        if (k == "dbl") return Data{static_cast<double>(f)};
        return Json::MakeFloating(f);
    }
    if (k == "cs")
    {
        CBuf b(in.str());
        return Data{static_cast<const char*>(b)};
    }
    if (k == "ss") return Data{in.str()};
    if (k == "mo") return Json::MakeObject();
    if (k == "ma") return Json::MakeArray();
    if (k == "mn") return Json::MakeNull();
    if (k == "ms") return Json::MakeString(in.str());
    if (k == "mi") return Json::MakeIntegral(in.num());
    if (k == "mb") return Json::MakeBoolean(in.num() != 0);
    if (k == "mk") return Json::MakeArray(1, "two", 2.5, false, Json::MakeArray(), nullptr);
    if (k == "pj")
    {
        const auto p = Doc::ParserType::Parse(in.str());
        return p.GetData();
    }
    std::fprintf(stderr, "RT: bad value %s\n", k.c_str());
    _exit(96);
}

// dest = value through the assignment operator of its own type
static void assign(Data& d, Toks& in)
{
    const std::string k = in.t[in.i];
    if (k == "nul") { in.next(); d = nullptr; }
    else if (k == "bt") { in.next(); d = in.num() != 0; }
    else if (k == "i8") { in.next(); d = static_cast<int8_t>(in.num()); }
    else if (k == "u8") { in.next(); d = static_cast<uint8_t>(in.num()); }
    else if (k == "i16") { in.next(); d = static_cast<int16_t>(in.num()); }
    else if (k == "u16") { in.next(); d = static_cast<uint16_t>(in.num()); }
    else if (k == "i32") { in.next(); d = static_cast<int32_t>(in.num()); }
    else if (k == "u32") { in.next(); d = static_cast<uint32_t>(in.num()); }
    else if (k == "i64") { in.next(); d = static_cast<int64_t>(in.num()); }
    else if (k == "u64") { in.next(); d = static_cast<uint64_t>(in.unum()); }
    else if (k == "f" || k == "dbl")
    {
        in.next();
        const uint32_t u = static_cast<uint32_t>(in.unum());
        float f;
        std::memcpy(&f, &u, 4);
        if (k == "f") d = f;
        else d = static_cast<double>(f);
    }
    else if (k == "cs")
    {
        in.next();
        CBuf b(in.str());
        d = static_cast<const char*>(b);
    }
    else if (k == "ss") { in.next(); d = in.str(); }
    else d = value(in);
}

static void op_build(Toks& in, Out& o)
{
    const size_t indent = in.unum();
    LocaleGuard g(in.num() != 0);
    Doc d;
    for (long long n = in.num(); n > 0; --n)
    {
        const std::string k = in.str();
        assign(d[k], in);
    }
    o.tok("T");
    texts(o, d, indent);
}

struct World
{
    std::unique_ptr<Data> s[4];
    std::unique_ptr<Doc> d[2];
    World()
    {
        for (auto& x : s) x.reset(new Data());
        for (auto& x : d) x.reset(new Doc());
    }
};

struct Path
{
    size_t slot;
    std::vector<std::pair<char, std::string>> el;
    std::vector<size_t> ix;
    explicit Path(Toks& in)
    {
        slot = in.unum();
        for (long long n = in.num(); n > 0; --n)
        {
            const char c = in.next()[0];
            if (c == 'k' || c == 'K')
            {
                el.push_back(std::make_pair(c, in.str()));
                ix.push_back(0);
            }
            else
            {
                el.push_back(std::make_pair(c, std::string()));
                ix.push_back(in.unum());
            }
        }
    }
    Data& at(World& w) const
    {
        size_t i = 0;
        Data* p;
        if (slot < 4) p = w.s[slot].get();
        else p = &(*w.d[slot - 4])[el[i++].second];
        for (; i < el.size(); ++i)
        {
            switch (el[i].first)
            {
                case 'k': p = &(*p)[el[i].second]; break;
                case 'K': p = &p->At(el[i].second); break;
                case 'i': p = &(*p)[ix[i]]; break;
                default: p = &p->At(ix[i]); break;
            }
        }
        return *p;
    }
    const Data& cat(const World& w) const
    {
        size_t i = 0;
        const Data* p;
        if (slot < 4) p = w.s[slot].get();
        else
        {
            const Doc& d = *w.d[slot - 4];
            p = &d[el[i++].second];
        }
        for (; i < el.size(); ++i)
        {
            const Data& q = *p;
            if (el[i].first == 'k' || el[i].first == 'K') p = &q.At(el[i].second);
            else p = &q.At(ix[i]);
        }
        return *p;
    }
};

static void observe(Out& o, World& w, const std::vector<std::string>& keys)
{
    for (auto& x : w.s)
    {
        dump(o, *x);
    }
    for (auto& x : w.d)
    {
        const Doc& d = *x;
        o.tok("D").tok(cls(d.GetType())).boolean(d.HasError()).idx(d.Size());
        for (const auto& k : keys)
        {
            const bool h = d.HasMember(k);
            o.boolean(h);
            if (h) dump(o, d[k]);
        }
        o.hex(d.ToString().str());
    }
}

static void op_history(Toks& in, Out& o)
{
    World w;
    std::vector<std::string> keys;
    for (long long n = in.num(); n > 0; --n) keys.push_back(in.str());
    while (in.more())
    {
        const std::string op = in.next();
        if (op == "set")
        {
            Path p(in);
            assign(p.at(w), in);
        }
        else if (op == "cst") // constructed value, assigned by move
        {
            Path p(in);
            p.at(w) = value(in);
        }
        else if (op == "arr")
        {
            Path p(in);
            const long long n = in.num();
            std::vector<Data> v;
            for (long long i = 0; i < n; ++i) v.push_back(value(in));
            Data& t = p.at(w);
            if (n == 1) t = Json::MakeArray(v[0]);
            else if (n == 2) t = Json::MakeArray(v[0], v[1]);
            else t = Json::MakeArray(v[0], v[1], v[2]);
        }
        else if (op == "app")
        {
            Path p(in);
            const long long n = in.num();
            std::vector<Data> v;
            for (long long i = 0; i < n; ++i) v.push_back(value(in));
            Data& t = p.at(w);
            if (n == 1) t.Append(v[0]);
            else if (n == 2) t.Append(v[0], v[1]);
            else t.Append(v[0], v[1], v[2]);
        }
        else if (op == "apr") // raw values
        {
            Path p(in);
            Data& t = p.at(w);
            t.Append("raw");
            t.Append(1, true, 0.5);
        }
        else if (op == "apn") // append a node of some tree
        {
            Path p(in);
            Path q(in);
            const Data& src = q.cat(w);
            p.at(w).Append(src);
        }
        else if (op == "cpa")
        {
            Path p(in);
            Path q(in);
            const Data& src = q.cat(w);
            Data& t = p.at(w);
            Data& r = (t = src);
            o.boolean(&r == &t);
        }
        else if (op == "mva")
        {
            Path p(in);
            Path q(in);
            const bool reset = in.num() != 0;
            Data& src = q.at(w);
            Data& t = p.at(w);
            Data& r = (t = std::move(src));
            o.boolean(&r == &t);
            if (reset) src = Json::MakeNull();
        }
        else if (op == "cpc")
        {
            const size_t k = in.unum();
            Path q(in);
            w.s[k].reset(new Data(q.cat(w)));
        }
        else if (op == "mvc")
        {
            const size_t k = in.unum();
            Path q(in);
            Data& src = q.at(w);
            std::unique_ptr<Data> n(new Data(std::move(src)));
            src = Json::MakeNull();
            w.s[k] = std::move(n);
        }
        else if (op == "swp")
        {
            Path p(in);
            Path q(in);
            Data& a = p.at(w);
            Data& b = q.at(w);
            std::swap(a, b);
        }
        else if (op == "tch")
        {
            Path p(in);
            p.at(w);
        }
        else if (op == "get")
        {
            Path p(in);
            guarded(o, [&] {
                const Data& d = p.cat(w);
                o.tok(cls(d.GetType()));
                o.boolean(d.IsNull()).boolean(d.IsObject()).boolean(d.IsArray()).boolean(d.IsString());
                o.boolean(d.IsFloating()).boolean(d.IsIntegral()).boolean(d.IsBoolean());
                o.idx(d.Size()).idx(d.Length()).hex(d.GetString().str()).num(d.GetIntegral()).boolean(d.GetBoolean());
                const float f = d.GetFloating();
                uint32_t u;
                std::memcpy(&u, &f, 4);
                o.unum(u);
            });
        }
        else if (op == "has")
        {
            Path p(in);
            const std::string k = in.str();
            guarded(o, [&] { o.boolean(p.cat(w).HasMember(k)); });
        }
        else if (op == "gd")
        {
            Path p(in);
            guarded(o, [&] { o.unum(const_cast<Data&>(p.cat(w)).GetData().size()); });
        }
        else if (op == "ts")
        {
            Path p(in);
            const bool m = in.num() != 0;
            const size_t ind = in.unum();
            guarded(o, [&] { o.hex(p.cat(w).ToString(m, ind).str()); });
        }
        else if (op == "dadd")
        {
            const size_t k = in.unum();
            const std::string key = in.str();
            Path q(in);
            const Data& src = q.cat(w);
            w.d[k]->AddMember(key, src);
        }
        else if (op == "drem")
        {
            const size_t k = in.unum();
            w.d[k]->RemoveMember(in.str());
        }
        else if (op == "dcpa")
        {
            const size_t k = in.unum(), q = in.unum();
            *w.d[k] = *w.d[q];
        }
        else if (op == "dmva")
        {
            const size_t k = in.unum(), q = in.unum();
            *w.d[k] = std::move(*w.d[q]);
            if (k != q) *w.d[q] = Json::MakeDocument();
        }
        else if (op == "dcpc")
        {
            const size_t k = in.unum(), q = in.unum();
            w.d[k].reset(in.num() ? new Doc(*w.d[q]) : new Doc(Json::MakeDocument(*w.d[q])));
        }
        else if (op == "dmvc")
        {
            const size_t k = in.unum(), q = in.unum();
            std::unique_ptr<Doc> n(in.num() ? new Doc(std::move(*w.d[q])) : new Doc(Json::MakeDocument(std::move(*w.d[q]))));
            *w.d[q] = Doc();
            w.d[k] = std::move(n);
        }
        else if (op == "dpar")
        {
            const size_t k = in.unum();
            w.d[k]->Parse(in.str());
        }
        else
        {
            std::fprintf(stderr, "RT: bad op %s\n", op.c_str());
            _exit(96);
        }
        o.tok("|");
        observe(o, w, keys);
        o.tok(";");
    }
}

void run_case(Toks& in, Out& o)
{
    const std::string k = in.next();
    if (k == "parse") op_parse(in, o);
    else if (k == "deep") op_deep(in, o);
    else if (k == "build") op_build(in, o);
    else if (k == "msgs")
    {
        typedef Json::JsonError E;
        for (E e : {E::NoError, E::UnexpectedCharacter, E::UnterminatedString, E::UnterminatedObject, E::UnterminatedArray, E::ExpectedStringKey,
                    E::MissingColon, E::InvalidJson, E::InvalidValue, E::InvalidNumber, E::InvalidEscapeSequence, E::NumberConversionError,
                    E::OutOfRangeError, E::TrailingComma})
            o.hex(Json::GetErrorString(e));
    }
    else op_history(in, o);
}
