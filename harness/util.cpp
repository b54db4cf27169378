// C27: string and map helpers.
#include "rt.hpp"
#include <map>
#include <unordered_map>
#include "Caitlyn/Collections"
#include "Caitlyn/String"
using Caitlyn::String;
using rt::CBuf;
using rt::Out;
using rt::Toks;

template <typename M>
static void maps(Toks& in, Out& o)
{
    const std::string how = in.next();
    M m;
    while (in.more())
    {
        const long long k = in.num();
        m.emplace(k, in.str());
    }
    const M shadow = m;
    std::vector<long long> k;
    std::vector<std::string> v;
    if (how == "l")
    {
        k = Caitlyn::GetMapKeys(m);
        v = Caitlyn::GetMapValues(m);
    }
    else if (how == "c")
    {
        const M& c = m;
        k = Caitlyn::GetMapKeys(c);
        v = Caitlyn::GetMapValues(c);
    }
    else
    {
        M t = m;
        k = Caitlyn::GetMapKeys(M(m));
        v = Caitlyn::GetMapValues(std::move(t));
    }
    o.tok("k");
    for (long long x : k) o.num(x);
    o.tok("v");
    for (const auto& x : v) o.hex(x);
    o.tok("s"); // the map is unchanged; its own order
    o.boolean(m == shadow);
    for (const auto& e : m) o.num(e.first).hex(e.second);
}

void run_case(Toks& in, Out& o)
{
    const std::string op = in.next();
    rt::guarded(o, [&] {
        if (op == "split")
        {
            const std::string t = in.str();
            const std::vector<std::string> r = Caitlyn::Split(t, static_cast<char>(in.num()));
            o.unum(r.size());
            for (const auto& x : r) o.hex(x);
        }
        else if (op == "repeat")
        {
            const std::string t = in.str();
            o.hex(Caitlyn::Repeat(t, in.unum()));
        }
        else if (op == "kmp")
        {
            // exactly sized heap copies
            std::string p = in.str(), t = in.str();
            p.shrink_to_fit();
            t.shrink_to_fit();
            o.boolean(Caitlyn::kmp(p, t));
        }
        else if (op == "num") o.boolean(Caitlyn::IsNumber(String{CBuf(in.str())}));
        else if (op == "nonspace")
        {
            const String s{CBuf(in.str())};
            o.unum(s.size()).unum(Caitlyn::FindFirstNonSpace(s)).unum(Caitlyn::FindLastNonSpace(s));
        }
        else if (op == "esc")
        {
            const String s{CBuf(in.str())};
            o.hex(Caitlyn::EscapeString(s).str());
        }
        else if (op == "map") maps<std::map<long long, std::string>>(in, o);
        else if (op == "mmap") maps<std::multimap<long long, std::string>>(in, o);
        else if (op == "rmap") maps<std::map<long long, std::string, std::greater<long long>>>(in, o);
        else if (op == "umap") maps<std::unordered_map<long long, std::string>>(in, o);
        else if (op == "ummap") maps<std::unordered_multimap<long long, std::string>>(in, o);
        else _exit(96);
    });
}
