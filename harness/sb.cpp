// C09: StringBuilder histories.
#include "rt.hpp"
#include "Caitlyn/String"
using namespace rt;
using Caitlyn::MakeText;
using Caitlyn::String;
using Caitlyn::StringBuilder;

void run_case(Toks& in, Out& o)
{
    in.next();
    std::unique_ptr<StringBuilder> b[4];
    for (auto& x : b) x.reset(new StringBuilder());
#ifdef RT_OOM
    oom().in = &in;
#endif
    while (in.more())
    {
        const std::string op = in.next();
        const size_t a = in.unum();
        guarded(o, [&] {
            if (op == "new0") b[a].reset(new StringBuilder());
            else if (op == "newc") b[a].reset(new StringBuilder(static_cast<char>(in.num())));
            else if (op == "newp") { const std::string s = in.str(); CBuf c(s); b[a].reset(new StringBuilder(static_cast<const char*>(c))); }
            else if (op == "news") { const String s(in.str()); b[a].reset(new StringBuilder(s)); }
            else if (op == "newf") { const String s(in.str()); const int i = static_cast<int>(in.num()); b[a].reset(new StringBuilder(String("{0}|{1}{{}}"), s, i)); }
            else if (op == "mk0") b[a].reset(new StringBuilder(MakeText()));
            else if (op == "mkc") b[a].reset(new StringBuilder(MakeText(static_cast<char>(in.num()))));
            else if (op == "mks") { const String s(in.str()); b[a].reset(new StringBuilder(MakeText(s))); }
            else if (op == "mkf") { const String s(in.str()); const int i = static_cast<int>(in.num()); b[a].reset(new StringBuilder(MakeText(String("{0}|{1}{{}}"), s, i))); }
            else if (op == "cpy") { const size_t k = in.unum(); const StringBuilder& src = *b[k]; std::unique_ptr<StringBuilder> t(new StringBuilder(src)); b[a] = std::move(t); }
            else if (op == "mov") { const size_t k = in.unum(); std::unique_ptr<StringBuilder> t(new StringBuilder(std::move(*b[k]))); b[k].reset(new StringBuilder()); b[a] = std::move(t); }
            else if (op == "app") { const String s(in.str()); b[a]->Append(s); }
            else if (op == "appp") { const std::string s = in.str(); CBuf c(s); b[a]->Append(static_cast<const char*>(c)); }
            else if (op == "appf") { const String s(in.str()); const int i = static_cast<int>(in.num()); b[a]->Append(String("{1}:{0}}}"), s, i); }
            else if (op == "line") { const String s(in.str()); b[a]->AppendLine(s); }
            else if (op == "linef") { const String s(in.str()); const int i = static_cast<int>(in.num()); b[a]->AppendLine(String("{1}:{0}}}"), s, i); }
            else if (op == "apps") { const size_t k = in.unum(); b[a]->Append(b[k]->str()); }
            else if (op == "bad") { b[a]->Append(String("{5}x{0}"), 1, 2); }
            else if (op == "badl") { b[a]->AppendLine(String("ab{"), 1); }
            else if (op == "read") { const StringBuilder& c = *b[a]; o.hex(c.str().str()); o.boolean(c.str() == c.str()); }
            else _exit(96);
            o.tok("ok");
        });
        o.tok(";");
    }
    for (auto& x : b) guarded(o, [&] { o.hex(x->str().str()); });
}
