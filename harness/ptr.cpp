// C19: histories over smart pointers to tracked objects.
#include "rt.hpp"
#include <set>
#include "Caitlyn/Memory"
using namespace rt;
using Caitlyn::SharedPtr;
using Caitlyn::UniquePtr;
using Caitlyn::WeakPtr;

struct PtrEvent
{
    char kind; // D destroyed, P looked at a pointer and L locked one while being destroyed
    size_t slot;
    long id;
};
static std::vector<PtrEvent>& dead()
{
    RT_STATIC std::vector<PtrEvent>* d = [] { auto* v = new std::vector<PtrEvent>(); v->reserve(4096); return v; }();
    return *d;
}
struct Node;
struct UNode;
// The pointers of the case, for destructors that use them
struct Slots
{
    std::unique_ptr<SharedPtr<Node>>* h = nullptr;
    std::unique_ptr<WeakPtr<Node>>* w = nullptr;
    std::unique_ptr<UniquePtr<UNode>>* u = nullptr;
};
static Slots& slots()
{
    RT_STATIC Slots s{};
    return s;
}
static void act(const Node&, char kind, size_t slot);
static void act(const UNode&, char kind, size_t slot);

struct Node
{
    long id;
    long* heap;
    char kind = 0; // what the destructor does
    size_t slot = 0;
    SharedPtr<Node> next;
    explicit Node(long i) : id(i), heap(new long(i)) {}
    Node(const Node&) = delete;
    ~Node()
    {
        dead().push_back(PtrEvent{'D', 0, *heap});
        if (kind) act(*this, kind, slot);
        delete heap;
        id = -7;
    }
};
struct UNode
{
    long id;
    long* heap;
    char kind = 0; // what the destructor does
    size_t slot = 0;
    UniquePtr<UNode> next;
    explicit UNode(long i) : id(i), heap(new long(i)) {}
    ~UNode()
    {
        dead().push_back(PtrEvent{'D', 0, *heap});
        if (kind) act(*this, kind, slot);
        delete heap;
        id = -7;
    }
};

static void act(const Node&, char kind, size_t slot)
{
    if (!slots().h) return; // the case is over (it ended early if an allocation failed)
    auto& h = slots().h[slot];
    if (kind == 'p') dead().push_back(PtrEvent{'P', slot, h && h->Get() ? *h->Get()->heap : -1});
    else if (kind == 'r') { if (h) h->Reset(); }
    else
    {
        auto& w = slots().w[slot];
        const SharedPtr<Node> p = w ? w->lock() : SharedPtr<Node>();
        dead().push_back(PtrEvent{'L', slot, p.Get() ? *p.Get()->heap : -1});
    }
}
static void act(const UNode&, char kind, size_t slot)
{
    if (!slots().u) return;
    auto& u = slots().u[slot];
    if (kind == 'p') dead().push_back(PtrEvent{'P', slot, u && u->Get() ? *u->Get()->heap : -1});
    else if (u) u->Reset();
}

static long by_value(SharedPtr<Node> p) { return p.Get() ? *p->heap : -1; }
static SharedPtr<Node> pass(SharedPtr<Node> p) { return p; }

void run_case(Toks& in, Out& o)
{
    in.next();
    typedef SharedPtr<Node> SP;
    typedef UniquePtr<UNode> UP;
    typedef WeakPtr<Node> WP;
    std::unique_ptr<SP> h[5];
    std::unique_ptr<UP> u[3];
    std::unique_ptr<WP> w[3];
    for (auto& x : h) x.reset(new SP());
    for (auto& x : u) x.reset(new UP());
    for (auto& x : w) x.reset(new WP());
    dead().clear();
    struct Scope
    {
        ~Scope() { slots() = Slots(); }
    } scope;
    slots().h = h;
    slots().w = w;
    slots().u = u;
    auto flush = [&] {
        for (const PtrEvent& d : dead())
        {
            char b[64];
            if (d.kind == 'D') std::snprintf(b, sizeof b, "D%ld", d.id);
            else std::snprintf(b, sizeof b, "D%c%zu:%ld", d.kind, d.slot, d.id);
            o.tok(b);
        }
        dead().clear();
        o.tok(";");
    };
    auto idof = [&](const SP& p) { o.num(p.Get() ? *p.Get()->heap : -1); };
    while (in.more())
    {
        const std::string op = in.next();
        const size_t a = in.unum();
        guarded(o, [&] {
            // shared
            if (op == "new") { const long i = in.num(); Node* n = new Node(i); SP s(n); std::unique_ptr<SP> t(new SP(std::move(s))); h[a] = std::move(t); }
            else if (op == "asgraw") { const long i = in.num(); *h[a] = new Node(i); }
            else if (op == "asgnull") { *h[a] = static_cast<Node*>(nullptr); }
            else if (op == "reset") { h[a]->Reset(); }
            else if (op == "resetn") { const long i = in.num(); h[a]->Reset(new Node(i)); }
            else if (op == "resets") { h[a]->Reset(h[a]->Get()); }
            else if (op == "cc") { const size_t b = in.unum(); const SP& s = *h[b]; std::unique_ptr<SP> t(new SP(s)); h[a] = std::move(t); }
            else if (op == "mc") { const size_t b = in.unum(); std::unique_ptr<SP> t(new SP(std::move(*h[b]))); h[a] = std::move(t); }
            else if (op == "ca") { const size_t b = in.unum(); const SP& s = *h[b]; *h[a] = s; }
            else if (op == "ma") { const size_t b = in.unum(); SP& s = *h[b]; *h[a] = std::move(s); }
            else if (op == "swap") { const size_t b = in.unum(); std::swap(*h[a], *h[b]); }
            else if (op == "link") { const size_t b = in.unum(); (*h[a])->next = *h[b]; }
            else if (op == "adv") { *h[a] = (*h[a])->next; }
            else if (op == "advm") { *h[a] = std::move((*h[a])->next); }
            else if (op == "val") { o.num(by_value(*h[a])); }
            else if (op == "pass") { *h[a] = pass(*h[a]); idof(*h[a]); }
            else if (op == "obs")
            {
                const SP& c = *h[a];
                idof(c);
                o.boolean(c == nullptr).boolean(c != nullptr);
                try { const Node& n = *c; o.num(*n.heap); } catch (const std::runtime_error&) { o.tok("R"); }
                try { o.num(*c->heap); } catch (const std::runtime_error&) { o.tok("R"); }
            }
            else if (op == "eq") { const size_t b = in.unum(); o.boolean(*h[a] == *h[b]).boolean(*h[a] != *h[b]); }
            else if (op == "many" || op == "manyx") // a crowd of owners, the last ones without the handle
            {
                const size_t n = in.unum();
                {
                    std::vector<SP> crowd(n, *h[a]);
                    SP last(*h[a]);
                    if (op == "manyx") h[a]->Reset();
                    size_t same = 0;
                    for (const SP& p : crowd) same += p == last;
                    o.num(static_cast<long long>(same)).num(static_cast<long long>(dead().size()));
                    for (size_t i = 0; i < n; i += 2) crowd[i].Reset();
                    idof(last);
                    std::vector<SP> moved(std::make_move_iterator(crowd.begin()), std::make_move_iterator(crowd.end()));
                    crowd.clear();
                    o.num(static_cast<long long>(dead().size()));
                    moved.clear();
                    idof(last);
                }
                o.num(static_cast<long long>(dead().size()));
            }
            else if (op == "wmany")
            {
                const size_t n = in.unum();
                std::vector<WP> crowd(n, *w[a]);
                size_t live = 0;
                for (const WP& p : crowd) live += !p.expired();
                for (size_t i = 0; i < n; i += 2) crowd[i] = WP();
                o.num(static_cast<long long>(live)).num(static_cast<long long>(dead().size()));
            }
            else if (op == "arm") { const size_t k = in.unum(); (*h[a])->kind = "prl"[k % 3]; (*h[a])->slot = k / 3; }
            else if (op == "uarm") { const size_t k = in.unum(); (*u[a])->kind = "pr"[k % 2]; (*u[a])->slot = k / 2; }
            // weak
            else if (op == "wset") { const size_t b = in.unum(); *w[a] = *h[b]; }
            else if (op == "wnew") { const size_t b = in.unum(); std::unique_ptr<WP> t(new WP(*h[b])); w[a] = std::move(t); }
            else if (op == "wclr") { w[a].reset(new WP()); }
            else if (op == "wcc") { const size_t b = in.unum(); const WP& s = *w[b]; std::unique_ptr<WP> t(new WP(s)); w[a] = std::move(t); }
            else if (op == "wca") { const size_t b = in.unum(); const WP& s = *w[b]; *w[a] = s; }
            else if (op == "wmc") { const size_t b = in.unum(); std::unique_ptr<WP> t(new WP(std::move(*w[b]))); w[a] = std::move(t); }
            else if (op == "wma") { const size_t b = in.unum(); WP& s = *w[b]; *w[a] = std::move(s); }
            else if (op == "wlock") { const size_t b = in.unum(); *h[b] = w[a]->lock(); idof(*h[b]); }
            else if (op == "wobs")
            {
                const WP& c = *w[a];
                o.boolean(c.expired());
                { const SP l = c.lock(); idof(l); }
                try { o.num(*(*c).heap); } catch (const std::runtime_error&) { o.tok("R"); }
                try { o.num(*c->heap); } catch (const std::runtime_error&) { o.tok("R"); }
            }
            // unique
            else if (op == "unew") { const long i = in.num(); UNode* n = new UNode(i); UP s(n); std::unique_ptr<UP> t(new UP(std::move(s))); u[a] = std::move(t); }
            else if (op == "uasg") { const long i = in.num(); *u[a] = new UNode(i); }
            else if (op == "ureset") { u[a]->Reset(); }
            else if (op == "uresetn") { const long i = in.num(); u[a]->Reset(new UNode(i)); }
            else if (op == "uresets") { u[a]->Reset(u[a]->Get()); }
            else if (op == "urel") { UNode* p = u[a]->Release(); o.num(p ? *p->heap : -1).boolean(u[a]->Get() == nullptr).num(static_cast<long long>(dead().size())); delete p; }
            else if (op == "umc") { const size_t b = in.unum(); std::unique_ptr<UP> t(new UP(std::move(*u[b]))); u[a] = std::move(t); }
            else if (op == "uma") { const size_t b = in.unum(); UP& s = *u[b]; *u[a] = std::move(s); }
            else if (op == "uswap") { const size_t b = in.unum(); std::swap(*u[a], *u[b]); }
            else if (op == "ulink") { const size_t b = in.unum(); (*u[a])->next = std::move(*u[b]); }
            else if (op == "uadv") { *u[a] = std::move((*u[a])->next); }
            else if (op == "uobs")
            {
                const UP& c = *u[a];
                o.num(c.Get() ? *c.Get()->heap : -1).boolean(c == nullptr).boolean(c != nullptr);
                try { o.num(*(*c).heap); } catch (const std::runtime_error&) { o.tok("R"); }
                try { o.num(*c->heap); } catch (const std::runtime_error&) { o.tok("R"); }
            }
            else if (op == "ueq") { const size_t b = in.unum(); o.boolean(*u[a] == *u[b]).boolean(*u[a] != *u[b]); }
            else _exit(96);
            o.tok("ok");
        });
        flush();
    }
    for (auto& x : h) { x.reset(); flush(); }
    for (auto& x : w) { x.reset(); flush(); }
    for (auto& x : u) { x.reset(); flush(); }
}
