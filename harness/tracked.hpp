// Tracked content types: every construction, destruction and use is checked against a registry of live objects,
// and copies (and moves) can be made to throw at a chosen point.
#pragma once
#include "rt.hpp"
#include <set>
#include <map>
#include <unordered_map>

namespace tr
{
struct Boom : std::runtime_error { Boom() : std::runtime_error("boom") {} };
struct Stats
{
    std::map<const void*, int> live;
    long ctor = 0, dtor = 0, copies = 0, moves = 0, thrown = 0;
    long errors = 0;
    std::string first;
    long fuse = -1;      // the fuse-th copy from now throws
    bool moves_too = false;
    void error(const char* what)
    {
        if (errors++ == 0) first = what;
    }
    void tick(bool is_move)
    {
        if (is_move && !moves_too) return;
        if (fuse > 0 && --fuse == 0)
        {
            fuse = -1;
            ++thrown;
            throw Boom();
        }
    }
};
inline Stats& st()
{
    RT_STATIC Stats* s = new Stats();
    return *s;
}
inline void born(const void* p, int tag)
{
    const rt::Quiet quiet;
    ++st().ctor;
    if (!st().live.insert(std::make_pair(p, tag)).second) st().error("constructed over a live object");
}
inline void died(const void* p, int tag)
{
    ++st().dtor;
    const auto it = st().live.find(p);
    if (it == st().live.end()) st().error("destroyed an object that is not alive");
    else
    {
        if (it->second != tag) st().error("destroyed an object as another type");
        st().live.erase(it);
    }
}
inline void used(const void* p, int tag)
{
    const auto it = st().live.find(p);
    if (it == st().live.end()) st().error("used an object that is not alive");
    else if (it->second != tag) st().error("used an object as another type");
}

// KIND 0: copy may throw, move noexcept; 1: copy and move may throw; 2: copyable only; 3: move only
template <int TAG, int KIND>
struct Tracked;

template <int TAG>
struct Base
{
    long* v;
    explicit Base(long x) : v(new long(x)) { born(this, TAG); }
    Base(const Base& o) : v(nullptr)
    {
        used(&o, TAG);
        ++st().copies;
        st().tick(false);
        v = new long(*o.v);
        born(this, TAG);
    }
    struct MoveTag {};
    Base(Base& o, MoveTag, bool may_throw) : v(nullptr)
    {
        const rt::Quiet quiet;
        used(&o, TAG);
        ++st().moves;
        if (may_throw) st().tick(true);
        v = new long(*o.v);
        *o.v = -1;
        born(this, TAG);
    }
    void assign(const Base& o)
    {
        used(&o, TAG);
        used(this, TAG);
        ++st().copies;
        st().tick(false);
        *v = *o.v;
    }
    void steal(Base& o, bool may_throw)
    {
        used(&o, TAG);
        used(this, TAG);
        ++st().moves;
        if (may_throw) st().tick(true);
        const long t = *o.v;
        if (this != &o) *o.v = -1;
        *v = t;
    }
    ~Base()
    {
        died(this, TAG);
        delete v;
        v = nullptr;
    }
    long get() const
    {
        used(this, TAG);
        return *v;
    }
};

template <int TAG>
struct Tracked<TAG, 0> : Base<TAG>
{
    Tracked() : Base<TAG>(0) {}
    explicit Tracked(long x) : Base<TAG>(x) {}
    Tracked(const Tracked& o) : Base<TAG>(o) {}
    Tracked(Tracked&& o) noexcept : Base<TAG>(o, typename Base<TAG>::MoveTag(), false) {}
    Tracked& operator=(const Tracked& o) { this->assign(o); return *this; }
    Tracked& operator=(Tracked&& o) noexcept { this->steal(o, false); return *this; }
};
template <int TAG>
struct Tracked<TAG, 1> : Base<TAG>
{
    Tracked() : Base<TAG>(0) {}
    explicit Tracked(long x) : Base<TAG>(x) {}
    Tracked(const Tracked& o) : Base<TAG>(o) {}
    Tracked(Tracked&& o) : Base<TAG>(o, typename Base<TAG>::MoveTag(), true) {}
    Tracked& operator=(const Tracked& o) { this->assign(o); return *this; }
    Tracked& operator=(Tracked&& o) { this->steal(o, true); return *this; }
};
template <int TAG>
struct Tracked<TAG, 2> : Base<TAG>
{
    Tracked() : Base<TAG>(0) {}
    explicit Tracked(long x) : Base<TAG>(x) {}
    Tracked(const Tracked& o) : Base<TAG>(o) {}
    Tracked& operator=(const Tracked& o) { this->assign(o); return *this; }
};
template <int TAG>
struct Tracked<TAG, 3> : Base<TAG>
{
    Tracked() : Base<TAG>(0) {}
    explicit Tracked(long x) : Base<TAG>(x) {}
    Tracked(const Tracked&) = delete;
    Tracked(Tracked&& o) noexcept : Base<TAG>(o, typename Base<TAG>::MoveTag(), false) {}
    Tracked& operator=(const Tracked&) = delete;
    Tracked& operator=(Tracked&& o) noexcept { this->steal(o, false); return *this; }
};
template <int TAG, int KIND>
bool operator==(const Tracked<TAG, KIND>& a, const Tracked<TAG, KIND>& b) { return a.get() == b.get(); }
} // namespace tr
