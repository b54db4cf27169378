// C37: what the type aliases of the library are in this configuration, as a running program sees them.
#include CONFIG_HEADER
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <limits>
#include <type_traits>

// Stores the value in a variable of the alias and reads it back.
template <typename T>
static void number(const char* name)
{
    std::printf("%s %zu %d %d", name, sizeof(T), std::is_signed<T>::value ? 1 : 0, std::is_floating_point<T>::value ? 2 : std::is_integral<T>::value ? 1 : 0);
    const long long probes[] = {0, 1, -1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 0x10FFFF, 2147483647, 2147483648LL, 4294967295LL, 4294967296LL, 9223372036854775807LL};
    for (long long p : probes)
    {
        volatile T v = static_cast<T>(p);
        std::printf(" %lld", static_cast<long long>(v));
    }
    volatile T down = static_cast<T>(0);
    down = static_cast<T>(down - 1);
    std::printf(" %d\n", down < static_cast<T>(0) ? 1 : 0);
}
template <typename T>
static void real(const char* name)
{
    volatile T third = static_cast<T>(1) / 3;
    std::printf("%s %zu %d %d %d %d\n", name, sizeof(T), 1, 2, std::numeric_limits<T>::digits, static_cast<int>(static_cast<long double>(third) != 1.0L / 3));
}

int main()
{
    using namespace Caitlyn;
#define N(T) number<T>(#T);
    N(SByte) N(Byte) N(Int8) N(UInt8) N(Int16) N(UInt16) N(Int32) N(UInt32) N(Int64) N(UInt64) N(Int) N(UInt)
    N(IntMax) N(UIntMax) N(IntPtr) N(UIntPtr) N(SSizeType) N(SizeType) N(PtrDiff) N(CodePoint) N(StdChar) N(Char16) N(Char32) N(Char8) N(WChar)
    real<Float>("Float");
    real<Double>("Double");
    real<Decimal>("Decimal");
#define S(A, B) std::printf("same " #A " %d\n", std::is_same<A, B>::value ? 1 : 0);
    S(SizeType, std::size_t) S(PtrDiff, std::ptrdiff_t) S(NullPtr, std::nullptr_t) S(Bool, bool) S(StdChar, char) S(Char16, char16_t) S(Char32, char32_t) S(WChar, wchar_t)
    S(Int8, std::int8_t) S(UInt8, std::uint8_t) S(Int16, std::int16_t) S(UInt16, std::uint16_t) S(Int32, std::int32_t) S(UInt32, std::uint32_t)
    S(IntPtr, std::intptr_t) S(UIntPtr, std::uintptr_t) S(IntMax, std::intmax_t) S(UIntMax, std::uintmax_t)
    int object = 7;
    int* volatile address = &object;
    const IntPtr a = reinterpret_cast<IntPtr>(address);
    const UIntPtr b = reinterpret_cast<UIntPtr>(address);
    std::printf("pointer %d %d\n", reinterpret_cast<int*>(a) == &object ? 1 : 0, *reinterpret_cast<int*>(b));
    return 0;
}
