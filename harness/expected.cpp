// C17/C18: histories over four Expecteds, for several content types.
#include "tracked.hpp"
#include <type_traits>
#include "Caitlyn/Error"
using namespace rt;
using Caitlyn::String;
using Caitlyn::Unexpected;
using Caitlyn::Expected;
using Caitlyn::MakeError;
using Caitlyn::MakeCorrect;
using tr::Tracked;

static const char* names[] = {"zero", "one", "two with a text long enough for the heap", "три", ""};
template <typename X> struct Io { static X make(long n) { return X(n); } static long get(const X& x) { return x.get(); } };
template <> struct Io<int> { static int make(long n) { return static_cast<int>(n); } static long get(const int& x) { return x; } };
template <> struct Io<String>
{
    static String make(long n) { return String(std::to_string(n)) + String(" is a text long enough to be on the heap"); }
    static long get(const String& s) { return s.IsEmpty() ? -1 : std::strtol(s.str().c_str(), nullptr, 10); }
};
template <> struct Io<std::unique_ptr<long>>
{
    static std::unique_ptr<long> make(long n) { return std::unique_ptr<long>(new long(n)); }
    static long get(const std::unique_ptr<long>& p) { return p ? *p : -1; }
};

struct Calls { long n = 0; long arg = 0; };
RT_STATIC Calls calls;
static void note(long a) { ++calls.n; calls.arg = a; }

template <typename V> struct MapF { long d; V operator()(const V& v) const { note(Io<V>::get(v)); return Io<V>::make(Io<V>::get(v) + d); } };
template <typename V> struct MapLong { long d; long operator()(const V& v) const { note(Io<V>::get(v)); return Io<V>::get(v) * 3 + d; } };
template <typename V> struct MapStr { long d; String operator()(const V& v) const { note(Io<V>::get(v)); return Io<String>::make(Io<V>::get(v) + d); } };
template <typename V, typename X> struct Bind
{
    long n; bool ok;
    template <typename C> Expected<V, X> operator()(const C& c) const
    {
        note(Io<C>::get(c));
        if (ok) return Expected<V, X>(Io<V>::make(Io<C>::get(c) + n));
        return Expected<V, X>(Unexpected<X>(Io<X>::make(Io<C>::get(c) + n)));
    }
};
template <typename V> struct Pred { bool r; bool operator()(const V& v) const { note(Io<V>::get(v)); return r; } };
template <typename X> struct See { void operator()(const X& x) const { note(Io<X>::get(x)); } };
template <typename V> struct Folder { long operator()(long a, const V& v) const { note(Io<V>::get(v)); return a * 7 + Io<V>::get(v); } };
template <typename V> struct InsV { long operator()(const V& v, long k) const { note(Io<V>::get(v)); return Io<V>::get(v) + k; } };
template <typename X> struct InsE { long operator()(const X& x, long k) const { note(Io<X>::get(x)); return Io<X>::get(x) - k; } };
template <typename E> struct Cust { long operator()(const E& e) const { note(e.HasValue() ? 1 : 0); return e.HasValue() ? 5 : 6; } };
template <typename V, typename X> struct ToV { long n; V operator()(const X& x) const { note(Io<X>::get(x)); return Io<V>::make(n); } };

template <typename V, typename X>
struct Machine
{
    typedef Expected<V, X> E;
    Toks& in;
    Out& o;
    std::unique_ptr<E> h[4];
    Machine(Toks& i, Out& ou) : in(i), o(ou) {}

    template <typename EE>
    void state(const EE& e)
    {
        typedef typename EE::ValueType VV;
        typedef typename EE::ErrorType XX;
        o.boolean(e.HasValue()).boolean(e.HasError()).boolean(static_cast<bool>(e));
        try { o.num(Io<VV>::get(e.Get())); } catch (const std::logic_error&) { o.tok("L"); }
        try { o.num(Io<XX>::get(e.GetError())); } catch (const std::logic_error&) { o.tok("L"); }
    }
    template <typename EE>
    void result(const EE& e)
    {
        state(e);
        o.num(calls.n).num(calls.arg);
    }

    void copying(const std::string& op, size_t a, std::true_type)
    {
        E& e = *h[a];
        const E& c = e;
        if (op == "newvc") { const long n = in.num(); const V v = Io<V>::make(n); h[a].reset(new E(v)); }
        else if (op == "newec") { const long n = in.num(); const Unexpected<X> u(Io<X>::make(n)); h[a].reset(new E(u)); }
        else if (op == "mkerr") { const long n = in.num(); X x = Io<X>::make(n); h[a].reset(new E(MakeError<X>(x))); }
        else if (op == "cpy") { const size_t k = in.unum(); const E& s = *h[k]; std::unique_ptr<E> t(new E(s)); h[a] = std::move(t); }
        else if (op == "asg") { const size_t k = in.unum(); const E& s = *h[k]; e = s; }
        else if (op == "map") { const long d = in.num(); result(c.Map(MapF<V>{d})); }
        else if (op == "mapl") { const long d = in.num(); const auto r = c.Map(MapLong<V>{d}); o.boolean(r.HasValue()); if (r.HasValue()) o.num(r.Get()); else o.num(Io<X>::get(r.GetError())); o.num(calls.n).num(calls.arg); }
        else if (op == "maps") { const long d = in.num(); result(c.Map(MapStr<V>{d})); }
        else if (op == "mape") { const long d = in.num(); result(c.MapError(MapF<X>{d})); }
        else if (op == "mapes") { const long d = in.num(); result(c.MapError(MapStr<X>{d})); }
        else if (op == "and") { const long n = in.num(); const bool k = in.num() != 0; result(c.AndThen(Bind<V, X>{n, k})); }
        else if (op == "then") { const long n = in.num(); const bool k = in.num() != 0; result(c.Then(Bind<V, X>{n, k})); }
        else if (op == "or") { const long n = in.num(); const bool k = in.num() != 0; result(c.OrElse(Bind<V, X>{n, k})); }
        else if (op == "catch") { const long n = in.num(); const bool k = in.num() != 0; result(c.CatchError(Bind<V, X>{n, k})); }
        else if (op == "andset") { const long n = in.num(); const bool k = in.num() != 0; e = c.AndThen(Bind<V, X>{n, k}); o.num(calls.n).num(calls.arg); }
        else if (op == "orset") { const long n = in.num(); const bool k = in.num() != 0; e = c.OrElse(Bind<V, X>{n, k}); o.num(calls.n).num(calls.arg); }
        else if (op == "onerr") result(c.OnError(See<X>()));
        else if (op == "filter") { const bool r = in.num() != 0; result(c.Filter(Pred<V>{r})); }
        else if (op == "unwrap") { const long n = in.num(); const V d = Io<V>::make(n); o.num(Io<V>::get(c.UnwrapOr(d))); }
        else if (op == "unwrapd") o.num(Io<V>::get(c.UnwrapOrDefault()));
        else if (op == "unwrapdv") { const long n = in.num(); const V d = Io<V>::make(n); o.num(Io<V>::get(c.UnwrapOrDefault(d))); }
        else if (op == "unwrape") { const long n = in.num(); o.num(Io<V>::get(c.UnwrapOrElse(ToV<V, X>{n}))).num(calls.n).num(calls.arg); }
        else _exit(96);
    }
    void copying(const std::string&, size_t, std::false_type) { _exit(96); }

    void recover(size_t a, long how)
    {
        if (how == 0) h[a].reset(new E(Io<V>::make(0)));
        else if (how == 1) *h[a] = E(Io<V>::make(1));
        else if (how == 2) *h[a] = E(Unexpected<X>(Io<X>::make(2)));
        else { h[a].reset(); h[a].reset(new E(Unexpected<X>(Io<X>::make(3)))); }
    }

    void run(Out& out)
    {
        for (auto& x : h) x.reset(new E(Io<V>::make(0)));
        long rec = 0;
        while (in.more())
        {
            const std::string op = in.next();
            if (op == "fuse")
            {
                tr::st().moves_too = in.num() != 0;
                tr::st().fuse = in.num();
                rec = in.num();
                continue;
            }
            const size_t a = in.unum();
            calls = Calls();
            const long thrown = tr::st().thrown;
            const size_t mark = o.n;
            const size_t it = in.i;
            try
            {
                E& e = *h[a];
                const E& c = e;
                if (op == "newv") { const long n = in.num(); h[a].reset(new E(Io<V>::make(n))); }
                else if (op == "newe") { const long n = in.num(); h[a].reset(new E(Unexpected<X>(Io<X>::make(n)))); }
                else if (op == "mkval") { const long n = in.num(); h[a].reset(new E(MakeCorrect<V, X>(Io<V>::make(n)))); }
                else if (op == "mov") { const size_t k = in.unum(); std::unique_ptr<E> t(new E(std::move(*h[k]))); h[a] = std::move(t); }
                else if (op == "masg") { const size_t k = in.unum(); E& s = *h[k]; e = std::move(s); }
                else if (op == "setv") { const long n = in.num(); e = Io<V>::make(n); }
                else if (op == "sete") { const long n = in.num(); e = Unexpected<X>(Io<X>::make(n)); }
                else if (op == "obs") state(c);
                else if (op == "expect") { try { o.num(Io<V>::get(c.Expect(String("no value é")))); } catch (const std::runtime_error& x) { o.tok(std::strcmp(x.what(), "no value é") == 0 ? "R" : "?"); } }
                else if (op == "expecte") { try { o.num(Io<X>::get(c.ExpectError("no error"))); } catch (const std::runtime_error& x) { o.tok(std::strcmp(x.what(), "no error") == 0 ? "R" : "?"); } }
                else if (op == "fold") { const long n = in.num(); o.num(c.Fold(n, Folder<V>())).num(calls.n).num(calls.arg); }
                else if (op == "inspect") { const long n = in.num(); o.num(c.Inspect(InsV<V>(), InsE<X>(), n)).num(calls.n).num(calls.arg); }
                else if (op == "custom") { o.num(c.Customize(Cust<E>())).num(calls.n).num(calls.arg); }
                else copying(op, a, std::integral_constant<bool, std::is_copy_constructible<V>::value && std::is_copy_constructible<X>::value>());
                o.tok("ok");
            }
            catch (const tr::Boom&)
            {
                o.n = mark;
                o.tok("BOOM");
                tr::st().fuse = -1;
                // what was written to (or moved from) is only assigned or destroyed
                const bool moving = op == "mov" || op == "masg";
                if (moving) recover(in.unum_at(it), rec);
                if (moving || op == "setv" || op == "sete" || op == "asg" || op == "andset" || op == "orset") recover(a, rec);
            }
            catch (const std::bad_alloc& x)
            {
                const Quiet quiet;
                tr::st().fuse = -1;
                o.n = mark;
                o.tok(exc_name(x));
                if (op == "mov" || op == "masg") recover(in.unum_at(it), rec);
                recover(a, rec);
            }
            catch (const std::exception& x)
            {
                o.n = mark;
                o.tok(exc_name(x));
            }
            // consume the operation's remaining arguments (an exception may come before they are read)
            const Quiet quiet;
            static const std::map<std::string, int> narg = {{"newvc", 1}, {"newec", 1}, {"mkerr", 1}, {"cpy", 1}, {"asg", 1}, {"map", 1}, {"mapl", 1}, {"maps", 1}, {"mape", 1}, {"mapes", 1}, {"and", 2}, {"then", 2}, {"or", 2}, {"catch", 2}, {"andset", 2}, {"orset", 2}, {"onerr", 0}, {"filter", 1}, {"unwrap", 1}, {"unwrapd", 0}, {"unwrapdv", 1}, {"unwrape", 1}, {"newv", 1}, {"newe", 1}, {"mkval", 1}, {"mov", 1}, {"masg", 1}, {"setv", 1}, {"sete", 1}, {"obs", 0}, {"expect", 0}, {"expecte", 0}, {"fold", 1}, {"inspect", 1}, {"custom", 0}};
            in.i = it + static_cast<size_t>(narg.at(op));
            tr::st().fuse = -1;
            (void)thrown;
            o.tok(";");
        }
        (void)out;
    }
};

template <typename V, typename X>
static void warm(std::true_type) { (void)Expected<V, X>(Io<V>::make(0)).UnwrapOrDefault(); }
template <typename V, typename X>
static void warm(std::false_type) {}

template <typename V, typename X>
static void go(Toks& in, Out& o)
{
    tr::Stats& s = tr::st();
    warm<V, X>(std::integral_constant<bool, std::is_copy_constructible<V>::value && std::is_copy_constructible<X>::value>());
    const size_t live = s.live.size();
    s.ctor = s.dtor = s.copies = s.moves = s.thrown = s.errors = 0;
    s.first.clear();
    s.first.shrink_to_fit();
    s.fuse = -1;
    {
        Machine<V, X> m(in, o);
        m.run(o);
    }
    o.num(s.ctor).num(s.dtor).num(static_cast<long long>(s.live.size() - live)).num(s.errors).num(s.thrown).num(s.copies).num(s.moves).hex(s.first);
    s.first.clear();
    s.first.shrink_to_fit();
}

void run_case(Toks& in, Out& o)
{
    const std::string k = in.next();
    (void)names;
#if GROUP == 0
    if (k == "NN") go<Tracked<1, 0>, Tracked<2, 0>>(in, o);
    else if (k == "TT") go<Tracked<1, 1>, Tracked<2, 1>>(in, o);
    else if (k == "MN") go<Tracked<1, 3>, Tracked<2, 0>>(in, o);
#elif GROUP == 1
    if (k == "NT") go<Tracked<1, 0>, Tracked<2, 1>>(in, o);
    else if (k == "CN") go<Tracked<1, 2>, Tracked<2, 0>>(in, o);
    else if (k == "UG") go<std::unique_ptr<long>, String>(in, o);
#elif GROUP == 2
    if (k == "NC") go<Tracked<1, 0>, Tracked<2, 2>>(in, o);
    else if (k == "SS") go<Tracked<1, 0>, Tracked<1, 0>>(in, o);
    else if (k == "NM") go<Tracked<1, 0>, Tracked<2, 3>>(in, o);
#elif GROUP == 3
    if (k == "iN") go<int, Tracked<2, 0>>(in, o);
    else if (k == "Ni") go<Tracked<1, 1>, int>(in, o);
    else if (k == "ii") go<int, int>(in, o);
#else
    if (k == "GG") go<String, String>(in, o);
    else if (k == "iG") go<int, String>(in, o);
#endif
    else _exit(96);
}
