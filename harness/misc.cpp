// C35: histories of observing pointers; sizes and limits of types.
#include "rt.hpp"
#include "Caitlyn/Memory"
#include "Caitlyn/Numeric"
using namespace rt;
using Caitlyn::MemoryFormat;
using Caitlyn::Ptr;
using Caitlyn::SizeOf;

static std::vector<long>& dead()
{
    RT_STATIC std::vector<long>* d = [] { auto* v = new std::vector<long>(); v->reserve(4096); return v; }();
    return *d;
}
struct Node
{
    long* heap;
    explicit Node(long i) : heap(new long(i)) {}
    Node(const Node&) = delete;
    ~Node()
    {
        dead().push_back(*heap);
        delete heap;
    }
};

static long by_value(Ptr<Node> p) { return p.Get() ? *p->heap : -1; }
static Ptr<Node> pass(Ptr<Node> p) { return p; }

static void history(Toks& in, Out& o)
{
    typedef Ptr<Node> P;
    std::vector<Node*> made;
    std::unique_ptr<P> h[5];
    for (auto& x : h) x.reset(new P());
    dead().clear();
    auto make = [&](long i) {
        while (static_cast<long>(made.size()) <= i) made.push_back(nullptr);
        return made[static_cast<size_t>(i)] = new Node(i);
    };
    auto seen = [&] {
        for (long d : dead())
        {
            char b[32];
            std::snprintf(b, sizeof b, "D%ld", d);
            o.tok(b);
            made[static_cast<size_t>(d)] = nullptr;
        }
        dead().clear();
        o.tok(";");
    };
    while (in.more())
    {
        const std::string op = in.next();
        const size_t a = in.unum();
        guarded(o, [&] {
            if (op == "new") { Node* n = make(in.num()); std::unique_ptr<P> t(new P(n)); h[a] = std::move(t); }
            else if (op == "asg") *h[a] = make(in.num());
            else if (op == "of") { const size_t i = static_cast<size_t>(in.num()); *h[a] = made[i]; } // an object that already exists
            else if (op == "nul") *h[a] = static_cast<Node*>(nullptr);
            else if (op == "drop") h[a].reset(new P());
            else if (op == "rst") h[a]->Reset();
            else if (op == "rstn") h[a]->Reset(make(in.num()));
            else if (op == "dst") h[a]->Destroy();
            else if (op == "cc") { const P& s = *h[in.unum()]; std::unique_ptr<P> t(new P(s)); h[a] = std::move(t); }
            else if (op == "mc") { P& s = *h[in.unum()]; std::unique_ptr<P> t(new P(std::move(s))); h[a] = std::move(t); }
            else if (op == "ca") { const P& s = *h[in.unum()]; *h[a] = s; }
            else if (op == "ma") { P& s = *h[in.unum()]; *h[a] = std::move(s); }
            else if (op == "val") o.num(by_value(*h[a]));
            else if (op == "pass") *h[a] = pass(*h[a]);
            else if (op == "obs")
            {
                const P& c = *h[a];
                o.boolean(c == nullptr).boolean(c != nullptr).num(c.Get() ? *c.Get()->heap : -1);
                try { const Node& n = *c; o.num(*n.heap); } catch (const std::runtime_error&) { o.tok("R"); }
                try { o.num(*c->heap); } catch (const std::runtime_error&) { o.tok("R"); }
            }
            else if (op == "eq") { const size_t b = in.unum(); o.boolean(*h[a] == *h[b]).boolean(*h[a] != *h[b]); }
            else _exit(96);
            o.tok("ok");
        });
        seen();
    }
    for (auto& x : h) x.reset();
    seen();
    for (Node* n : made) delete n;
    seen();
}

template <size_t N> struct Block { char c[N]; };
struct Mixed { char a; double b; short c; };
struct Poly { virtual ~Poly() {} int x; };
struct Nothing {};

template <typename T>
static void size_of(Out& o, const T& v)
{
    typedef typename std::remove_cv<T>::type U;
    constexpr size_t here = SizeOf<U>();
    constexpr size_t bits = SizeOf<U>(MemoryFormat::Bit);
    o.unum(sizeof(U)).unum(here).unum(bits).unum(SizeOf<U>(MemoryFormat::Byte)).unum(SizeOf(v)).unum(SizeOf(v, MemoryFormat::Byte)).unum(SizeOf(v, MemoryFormat::Bit)).tok(";");
}

static void sizes(Out& o)
{
    size_of(o, true); size_of(o, 'c'); size_of(o, static_cast<short>(1)); size_of(o, 1); size_of(o, 1L); size_of(o, 1LL); size_of(o, 1.0f); size_of(o, 1.0);
    size_of(o, 1.0L); size_of(o, L'x'); size_of(o, u'x'); size_of(o, U'x'); size_of(o, static_cast<void*>(nullptr)); size_of(o, nullptr); size_of(o, &by_value);
    size_of(o, Mixed()); size_of(o, Poly()); size_of(o, Nothing()); size_of(o, std::string()); size_of(o, std::vector<int>(100)); size_of(o, Caitlyn::SharedPtr<int>());
    size_of(o, Block<1>()); size_of(o, Block<3>()); size_of(o, Block<31>()); size_of(o, Block<32>()); size_of(o, Block<255>()); size_of(o, Block<256>());
    size_of(o, Block<8191>()); size_of(o, Block<8192>()); size_of(o, Block<65535>()); size_of(o, Block<65536>());
    static Block<(size_t(1) << 20) + 1> big; size_of(o, big);
    static int arr[77]; size_of(o, arr);
    static const char text[] = "some text"; size_of(o, text);
    static double grid[3][5]; size_of(o, grid);
    o.unum(sizeof(Block<(size_t(1) << 30)>)).unum(SizeOf<Block<(size_t(1) << 30)>>()).unum(SizeOf<Block<(size_t(1) << 30)>>(MemoryFormat::Bit)).tok(";");
    o.unum(sizeof(int)).unum(SizeOf<int&>()).unum(SizeOf<const int>(MemoryFormat::Bit)).tok(";");
}

template <typename T>
static void limits(Out& o)
{
    constexpr T lo = Caitlyn::MinValue<T>();
    constexpr T hi = Caitlyn::MaxValue<T>();
    const std::pair<T, T> r = Caitlyn::ValueRange<T>();
    o.unum(sizeof(T)).boolean(T(-1) < T(0)).boolean(std::is_same<T, bool>::value);
    if (T(-1) < T(0)) o.num(static_cast<long long>(lo)).num(static_cast<long long>(hi)).num(static_cast<long long>(r.first)).num(static_cast<long long>(r.second));
    else o.unum(static_cast<unsigned long long>(lo)).unum(static_cast<unsigned long long>(hi)).unum(static_cast<unsigned long long>(r.first)).unum(static_cast<unsigned long long>(r.second));
    o.tok(";");
}

void run_case(Toks& in, Out& o)
{
    const std::string k = in.next();
    if (k == "p") history(in, o);
    else if (k == "s") sizes(o);
    else if (k == "l")
    {
        limits<bool>(o); limits<char>(o); limits<signed char>(o); limits<unsigned char>(o); limits<short>(o); limits<unsigned short>(o); limits<int>(o);
        limits<unsigned>(o); limits<long>(o); limits<unsigned long>(o); limits<long long>(o); limits<unsigned long long>(o);
        limits<char16_t>(o); limits<char32_t>(o); limits<wchar_t>(o); limits<Caitlyn::Int8>(o); limits<Caitlyn::UInt64>(o); limits<Caitlyn::SizeType>(o);
    }
    else _exit(96);
}
