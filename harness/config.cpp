// C38: what the configuration macros say in this build, and what each public header makes available on its own.
#include CONFIG_HEADER
#define SHOW2(...) #__VA_ARGS__
#define SHOW(...) SHOW2(__VA_ARGS__)
#if PART == 0
#include <cstdio>
#define P(name, ...) std::printf("%s=%s\n", name, __VA_ARGS__);
int main()
{
    std::printf("std=%ld\nhas=%d%d%d%d%d\n", static_cast<long>(__CAITLYN_CXX_STANDARD), __CAITLYN_HAS_CXX11 + 0, __CAITLYN_HAS_CXX14 + 0, __CAITLYN_HAS_CXX17 + 0,
                __CAITLYN_HAS_CXX20 + 0, __CAITLYN_HAS_CXX23 + 0);
    P("constexpr", SHOW(__CAITLYN_CONSTEXPR11) "," SHOW(__CAITLYN_CONSTEXPR14) "," SHOW(__CAITLYN_CONSTEXPR17) "," SHOW(__CAITLYN_CONSTEXPR20) "," SHOW(__CAITLYN_CONSTEXPR23))
    P("others", SHOW(__CAITLYN_NOEXCEPT11) "," SHOW(__CAITLYN_INLINE17) "," SHOW(__CAITLYN_NODISCARD17))
#if defined(__CAITLYN_CONSTEVAL20)
    P("immediate", SHOW(__CAITLYN_CONSTEVAL20) "," SHOW(__CAITLYN_CONSTINIT20))
#else
    P("immediate", ",")
#endif
    P("reason", SHOW(__CAITLYN_NODISCARD20(why)))
    std::printf("arch=%d", __CAITLYN_ARCH);
#ifdef __CAITLYN_ARCH_X86_64
    std::printf(" x86-64");
#endif
#ifdef __CAITLYN_ARCH_X86
    std::printf(" x86");
#endif
#ifdef __CAITLYN_ARCH_ARM
    std::printf(" arm");
#endif
#ifdef __CAITLYN_ARCH_ARM64
    std::printf(" arm64");
#endif
    std::printf("\nos=%s", __CAITLYN_OS_NAME);
#ifdef __CAITLYN_OS_LINUX
    std::printf(" linux");
#endif
#ifdef __CAITLYN_OS_UNIX
    std::printf(" unix");
#endif
#ifdef __CAITLYN_OS_APPLE
    std::printf(" apple");
#endif
#ifdef __CAITLYN_OS_WINDOWS
    std::printf(" windows");
#endif
#ifdef __CAITLYN_OS_ANDROID
    std::printf(" android");
#endif
    std::printf("\nword=%d\ncompiler=%s", __CAITLYN_WORDSIZE, __CAITLYN_COMPILER_VERSION);
#ifdef __CAITLYN_COMPILER_CLANG
    std::printf(" clang");
#endif
#ifdef __CAITLYN_COMPILER_GCC
    std::printf(" gcc");
#endif
#ifdef __CAITLYN_COMPILER_MINGW
    std::printf(" mingw");
#endif
#ifdef __CAITLYN_COMPILER_MSVC
    std::printf(" msvc");
#endif
#ifdef __CAITLYN_COMPILER_INTEL
    std::printf(" intel");
#endif
    std::printf("\nversion=%s %d %d %d\n", __CAITLYN_VERSION, __CAITLYN_MAJOR_VERSION__, __CAITLYN_MINOR_VERSION__, __CAITLYN_PATCH_VERSION__);
    return 0;
}
#elif PART == 1 // Algorithms
int main()
{
    int a[5] = {3, 1, 2, 5, 4};
    std::sort(a, a + 5);
    int bad = !std::is_sorted(a, a + 5) || *std::max_element(a, a + 5) != 5;
#if STD >= 20
    bad |= std::ranges::count(a, 3) != 1;
#endif
    return bad;
}
#elif PART == 2 // Collections
int main()
{
    std::array<int, 2> a{{1, 2}};
    std::deque<int> d(1, 1);
    std::forward_list<int> f(1, 1);
    std::list<int> l(1, 1);
    std::map<int, int> m{{1, 1}};
    std::multimap<int, int> mm{{1, 1}};
    std::queue<int> q;
    q.push(1);
    std::priority_queue<int> pq;
    pq.push(1);
    std::set<int> s{1};
    std::stack<int> st;
    st.push(1);
    std::unordered_map<int, int> um{{1, 1}};
    std::unordered_set<int> us{1};
    std::vector<int> v(1, 1);
    return a[0] + d[0] + f.front() + l.front() + m[1] + static_cast<int>(mm.size()) + q.front() + pq.top() + *s.begin() + st.top() + um[1] + static_cast<int>(us.size()) + v[0] == 13 ? 0 : 1;
}
#elif PART == 3 // DateTime
int main()
{
    const std::chrono::steady_clock::time_point t = std::chrono::steady_clock::now();
    const std::time_t day = 86400;
    const std::tm* g = std::gmtime(&day);
    return std::chrono::steady_clock::now() >= t && std::chrono::hours(1) == std::chrono::minutes(60) && g && g->tm_mday == 2 && std::locale::classic().name() == "C" ? 0 : 1;
}
#elif PART == 4 // Threading
int main()
{
    std::mutex m;
    std::condition_variable c;
    bool ready = false;
    std::thread t([&] { std::lock_guard<std::mutex> g(m); ready = true; c.notify_all(); });
    {
        std::unique_lock<std::mutex> g(m);
        c.wait(g, [&] { return ready; });
    }
    t.join();
    int bad = std::async(std::launch::async, [] { return 7; }).get() != 7;
#if STD >= 14
    std::shared_timed_mutex s;
    { std::shared_lock<std::shared_timed_mutex> g(s); bad |= !g.owns_lock(); }
#endif
#if STD >= 20
    std::latch l(1);
    l.count_down();
    std::counting_semaphore<4> n(1);
    std::barrier<> b(1);
    std::stop_source stop;
    bad |= !l.try_wait() || !n.try_acquire() || stop.stop_requested();
    b.arrive_and_wait();
#endif
    return bad;
}
#elif PART == 5 // System
int main()
{
#if STD >= 17
    return std::filesystem::path("a/b.c").filename() == "b.c" ? 0 : 1;
#else
    return 0;
#endif
}
#elif PART == 6 // Utility
int main()
{
    std::bitset<8> b(5);
    std::function<int(int)> f = [](int x) { return x + 1; };
    std::tuple<int, char> t(1, 'a');
    std::pair<int, int> p(1, 2);
    std::swap(p.first, p.second);
    int bad = b.count() != 2 || f(1) != 2 || std::get<0>(t) != 1 || p.first != 2 || !std::regex_match("ab", std::regex("a.")) || std::type_index(typeid(int)) == std::type_index(typeid(char));
#if STD >= 17
    std::optional<int> o(3);
    std::variant<int, char> v('c');
    std::any a(1);
    bad |= *o != 3 || v.index() != 1 || std::any_cast<int>(a) != 1;
#endif
#if STD >= 20
    bad |= std::source_location::current().line() == 0;
#endif
    return bad;
}
#elif PART == 7 // Memory
int main()
{
    std::unique_ptr<int> u(new int(1));
    std::shared_ptr<int> s = std::make_shared<int>(2);
    std::weak_ptr<int> w(s);
    int bad = *u + *s != 3 || w.expired() || new (std::nothrow) int() == nullptr;
#if STD >= 17
    char room[256];
    std::pmr::monotonic_buffer_resource r(room, sizeof room);
    bad |= r.allocate(8, 8) == nullptr;
#endif
    return bad;
}
#elif PART == 8 // Numeric
int main()
{
    const int a[3] = {1, 2, 3};
    std::complex<double> c(0, 1);
    std::mt19937 g(1);
    std::valarray<int> v(a, 3);
    int bad = std::accumulate(a, a + 3, 0) != 6 || (c * c).real() != -1 || std::sqrt(4.0) != 2 || std::numeric_limits<int>::max() < 1 || g() == g() || v.sum() != 6 || CHAR_BIT != 8 || DBL_DIG != 15 ||
              INT64_MAX < 1 || std::ratio<1, 2>::den != 2;
#if STD >= 20
    bad |= std::popcount(7u) != 3 || std::numbers::pi < 3;
#endif
    return bad;
}
#elif PART == 9 // String
int main()
{
    std::stringstream s;
    s << "ab" << 1;
    return s.str() == std::string("ab1") && std::strlen("abc") == 3 && Caitlyn::Char("x").str() == "x" ? 0 : 1;
}
#elif PART == 10 // IO
int main()
{
    std::cout << std::hex << std::setw(4) << 255 << std::endl;
    std::printf("x\n");
    std::ofstream f;
    return !std::cout || std::ios::in == std::ios::out || f.is_open();
}
#elif PART == 11 // File
int main()
{
    std::ifstream f("/dev/null");
    return f.is_open() && f.get() == std::char_traits<char>::eof() ? 0 : 1;
}
#elif PART == 12 // Error
int main()
{
    assert(true);
    errno = EDOM;
    try { throw std::system_error(std::make_error_code(std::errc::io_error)); }
    catch (const std::runtime_error& e) { if (!*e.what()) return 1; }
    try { throw std::out_of_range("x"); }
    catch (const std::exception&) {}
    Caitlyn::Expected<int, char> e{3};
    int bad = e.UnwrapOr(4) != 3;
#if STD >= 23 && defined(__cpp_lib_expected)
    std::expected<int, char> x(1);
    bad |= *x != 1;
#endif
    return bad;
}
#elif PART == 13 // Caitlyn: everything but the test framework
int main()
{
    std::vector<int> v(1, 1);
    std::sort(v.begin(), v.end());
    Caitlyn::String s("x");
    Caitlyn::BigInteger i("1");
    Caitlyn::JsonDocument j;
    Caitlyn::SharedPtr<int> p(new int(1));
    Caitlyn::Expected<int, char> e{3};
    std::thread t([] {});
    t.join();
    Caitlyn::File* f = nullptr;
    return s.str() == "x" && *p == 1 && !f && e.UnwrapOr(4) == 3 && std::sqrt(4.0) == 2 && Caitlyn::cmp_less(-1, 1u) ? 0 : 1;
}
#endif
