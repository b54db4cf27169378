"""C28: a generated program records what the library's type queries and transformations say; the standard's answers decide."""
import os
import random
import re
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor
import rt
ID = "C28"
LEVEL = "exploration"
TECHNIQUE = "generated programs record every query's and transformation's answer over a generated type corpus; compared with <type_traits> and expression validity"
RULE = ("a case is one query or transformation of one type (or pair) of a corpus of about 100 fixed and 120 generated types: fundamental, cv-qualified, pointers, references, arrays, "
        "functions (also cv- and ref-qualified), member pointers, enumerations, unions and classes with generated special members; non-trivial: the standard's answer is not the query's most common one")
ASSUMPTIONS = ["the standard library's <type_traits> of GCC and Clang's shared libstdc++ is right", "types are complete; strict ISO mode (no __int128)"]

UNARY = {
    "IsVoid": "is_void", "IsIntegral": "is_integral", "IsFloating": "is_floating_point", "IsArray": "is_array", "IsEnum": "is_enum", "IsUnion": "is_union",
    "IsClass": "is_class", "IsFunction": "is_function", "IsPointer": "is_pointer", "IsLValueReference": "is_lvalue_reference", "IsRValueReference": "is_rvalue_reference",
    "IsMemberObjectPointer": "is_member_object_pointer", "IsMemberFunctionPointer": "is_member_function_pointer", "IsFundamental": "is_fundamental", "IsArithmetic": "is_arithmetic",
    "IsScalar": "is_scalar", "IsObject": "is_object", "IsCompound": "is_compound", "IsReference": "is_reference", "IsMemberPointer": "is_member_pointer", "IsConst": "is_const",
    "IsVolatile": "is_volatile", "IsTrivial": "is_trivial", "IsTriviallyCopyable": "is_trivially_copyable", "IsStandardLayout": "is_standard_layout", "IsEmpty": "is_empty",
    "IsPolymorphic": "is_polymorphic", "IsAbstract": "is_abstract", "IsSigned": "is_signed", "IsUnsigned": "is_unsigned", "Rank": "rank", "Extent": "extent",
    "Constructible": "is_constructible", "TriviallyConstructible": "is_trivially_constructible", "NothrowConstructible": "is_nothrow_constructible",
    "DefaultConstructible": "is_default_constructible", "TriviallyDefaultConstructible": "is_trivially_default_constructible", "NothrowDefaultConstructible": "is_nothrow_default_constructible",
    "CopyConstructible": "is_copy_constructible", "TriviallyCopyConstructible": "is_trivially_copy_constructible", "NothrowCopyConstructible": "is_nothrow_copy_constructible",
    "MoveConstructible": "is_move_constructible", "TriviallyMoveConstructible": "is_trivially_move_constructible", "NothrowMoveConstructible": "is_nothrow_move_constructible",
    "CopyAssignable": "is_copy_assignable", "TriviallyCopyAssignable": "is_trivially_copy_assignable", "NothrowCopyAssignable": "is_nothrow_copy_assignable",
    "MoveAssignable": "is_move_assignable", "TriviallyMoveAssignable": "is_trivially_move_assignable", "NothrowMoveAssignable": "is_nothrow_move_assignable",
    "Destructible": "is_destructible", "TriviallyDestructible": "is_trivially_destructible", "NothrowDestructible": "is_nothrow_destructible", "HasVirtualDestructor": "has_virtual_destructor",
}
# query -> the program's own definition of the answer
OWN = {
    "IsNullPointer": "std::is_same<std::nullptr_t, typename std::remove_cv<T>::type>::value",
    "IsBoolean": "std::is_same<bool, typename std::remove_cv<T>::type>::value",
    "IsCharacter": "OneOf<typename std::remove_cv<T>::type, char, signed char, unsigned char, wchar_t, char16_t, char32_t CHAR8>::value",
    "IsInteger": "OneOf<typename std::remove_cv<T>::type, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long>::value",
}
BINARY = {"Same": "std::is_same<T, U>::value", "Different": "!std::is_same<T, U>::value", "BaseOf": "std::is_base_of<T, U>::value", "Convertible": "std::is_convertible<T, U>::value",
          "Assignable": "std::is_assignable<T, U>::value", "TriviallyAssignable": "std::is_trivially_assignable<T, U>::value", "NothrowAssignable": "std::is_nothrow_assignable<T, U>::value"}
D = "std::declval<T>()"
EXPR = {
    "HasLessOperatorType": D + " < " + D, "HasGreaterOperatorType": D + " > " + D, "HasAddOperatorType": D + " + " + D, "HasSubtractOperatorType": D + " - " + D,
    "HasMultyplyOperatorType": D + " * " + D, "HasDivideOperatorType": D + " / " + D, "HasModulusOperatorType": D + " % " + D, "HasEqualOperatorType": D + " == " + D,
    "HasNotEqualOperatorType": D + " != " + D, "HasSubscriptOperatorType": D + "[" + D + "]", "HasIncrementOperatorType": "++std::declval<T&>()",
    "HasDecrementOperatorType": "--std::declval<T&>()", "HasBitwiseAndOperatorType": D + " & " + D, "HasBitwiseOrOperatorType": D + " | " + D,
    "HasBitwiseXorOperatorType": D + " ^ " + D, "HasLeftShiftOperatorType": D + " << " + D, "HasRightShiftOperatorType": D + " >> " + D,
    "HasIStreamOperatorType": "std::declval<std::istream&>() >> std::declval<T&>()", "HasOStreamOperatorType": "std::declval<std::ostream&>() << " + D,
}
MEMBER = {"HasToString": "to_string", "HasStr": "str", "HasCStr": "c_str", "ConvertibleToString": "ToString"}
TRANS = {"AddConstType": "add_const", "AddVolatileType": "add_volatile", "AddCVType": "add_cv", "RemoveConstType": "remove_const", "RemoveVolatileType": "remove_volatile",
         "RemoveCVType": "remove_cv", "AddLValueReferenceType": "add_lvalue_reference", "AddRValueReferenceType": "add_rvalue_reference", "RemoveReferenceType": "remove_reference",
         "AddPointerType": "add_pointer", "RemovePointerType": "remove_pointer"}
SIGN = {"MakeSignedType": "make_signed", "MakeUnsignedType": "make_unsigned"}

FUND = ["void", "std::nullptr_t", "bool", "char", "signed char", "unsigned char", "wchar_t", "char16_t", "char32_t", "short", "unsigned short", "int", "unsigned", "long",
        "unsigned long", "long long", "unsigned long long", "float", "double", "long double"]
FIXED_CLASSES = """
enum E1 { E1a, E1b }; enum class E2 : unsigned char { a }; enum E3 : long long { E3a = -1 }; enum class E4 : wchar_t { a }; enum E5 : bool { E5a };
union U1 { int a; float b; }; union U2 { U2(); ~U2(); std::string s; int i; };
struct Base { int b; }; struct Derived : Base { int d; }; struct Priv : private Base {}; struct VBase { virtual ~VBase(); }; struct VDer : VBase { VDer(); int x; };
struct Abstract { virtual void f() = 0; }; struct AbstractD : Abstract { virtual ~AbstractD(); }; struct Empty {}; struct FinalS final { int x; };
struct ExplicitBool { explicit operator bool() const; }; struct ToInt { operator int() const; }; struct FromInt { FromInt(int); };
struct NoCopy { NoCopy(); NoCopy(const NoCopy&) = delete; NoCopy& operator=(const NoCopy&) = delete; };
struct MoveOnly { MoveOnly(); MoveOnly(MoveOnly&&) noexcept; MoveOnly& operator=(MoveOnly&&) noexcept; };
struct ThrowMove { ThrowMove(ThrowMove&&); ThrowMove& operator=(ThrowMove&&); }; struct NonConstCopy { NonConstCopy(NonConstCopy&); NonConstCopy& operator=(NonConstCopy&); };
class PrivDtor { ~PrivDtor(); }; class PrivCtor { PrivCtor(); }; struct DelDtor { ~DelDtor() = delete; }; struct ThrowDtor { ~ThrowDtor() noexcept(false); };
struct RefMember { int& r; }; struct ConstMember { const int c; }; struct BitField { int a : 3; }; struct MultiDim { int a[2][3]; };
struct Ops { Ops operator+(const Ops&) const; Ops operator-(const Ops&) const; bool operator<(const Ops&) const; Ops operator|(const Ops&) const; Ops& operator++(); };
struct Ops2 { Ops2 operator&(const Ops2&) const; Ops2 operator^(const Ops2&) const; bool operator==(const Ops2&) const; Ops2 operator*(const Ops2&) const; int operator[](const Ops2&) const; Ops2& operator--(); };
struct Ops3 { bool operator>(const Ops3&) const; Ops3 operator/(const Ops3&) const; Ops3 operator%(const Ops3&) const; bool operator!=(const Ops3&) const; Ops3 operator<<(const Ops3&) const; Ops3 operator>>(const Ops3&) const; };
struct OpsMut { bool operator<(const OpsMut&); OpsMut operator|(OpsMut&) const; }; struct OpsLv { OpsLv operator+(OpsLv&) const; };
struct Streamed {}; std::ostream& operator<<(std::ostream&, const Streamed&); std::istream& operator>>(std::istream&, Streamed&);
struct OutOnly {}; std::ostream& operator<<(std::ostream&, const OutOnly&); struct InOnly {}; std::istream& operator>>(std::istream&, InOnly&);
struct OutMut {}; std::ostream& operator<<(std::ostream&, OutMut&);
struct S1 { std::string to_string() const; }; struct S2 { std::string str() const; }; struct S3 { const char* c_str() const; }; struct S4 { int ToString() const; };
struct S5 { std::string to_string(); std::string str(); }; struct S6 { std::string to_string; static int str(); }; struct S7 { std::string ToString(int) const; const char* c_str() &; };
class S8 { std::string str() const; std::string ToString() const; }; struct S9 { void str(int = 0) const; static std::string ToString(); }; struct S10 : S1, S4 {};
typedef int Fn(int); typedef void Fn0(); typedef int FnC(int) const; typedef int FnV() volatile; typedef void FnR() &; typedef void FnRR() const &&; typedef int FnVar(int, ...);
typedef int Base::*MO; typedef void (Base::*MF)(int); typedef void (Base::*MFC)(int) const; typedef void (Base::*MFR)() &&; typedef MO Base::*MOMO;
typedef int (*PF)(int); typedef int (&RF)(int); typedef int (&&RRF)(int); typedef int (*PA)[3]; typedef int (&RA)[3]; typedef int (&&RRA)[2][3];
"""
FIXED_NAMES = re.findall(r"(?:enum class|enum|union|struct|class) (\w+)", FIXED_CLASSES) + \
    ["Fn", "Fn0", "FnC", "FnV", "FnR", "FnRR", "FnVar", "MO", "MF", "MFC", "MFR", "MOMO", "PF", "RF", "RRF", "PA", "RA", "RRA"]
EXTRA = ["std::string", "std::vector<int>", "std::unique_ptr<int>", "std::shared_ptr<int>", "std::pair<int, std::string>", "std::stringstream", "Caitlyn::String", "Caitlyn::Char",
         "Caitlyn::BigInteger", "const char*", "char[4]", "const char[6]", "int[]", "int[3]", "int[2][3]", "int[][5]", "const int[2]", "volatile int[]", "void*", "const void*", "int* const",
         "int* volatile", "int* const volatile", "int**", "int&", "int&&", "const int&", "const int&&", "volatile int&", "Base*", "Derived*", "Base&", "Derived&&", "const Base", "const Derived",
         "volatile Base", "const VBase*", "std::initializer_list<int>", "void (*)()", "bool*", "std::nullptr_t*", "const volatile void"]
ENUMS = {"E1", "E2", "E3", "E4", "E5"}
ABSTRACT = {"Abstract"}


class Ty:
    def __init__(self, name, text, kind, sign=False):
        self.name, self.text, self.kind, self.sign = name, text, kind, sign


def kind_of(text):
    t = text.replace("const ", "").replace("volatile ", "")
    if t == "void":
        return "void"
    if t in ("Fn", "Fn0", "FnVar"):
        return "fn"
    if t in ("FnC", "FnV", "FnR", "FnRR"):
        return "abom"
    if text.endswith("&") or t in ("RF", "RRF", "RA", "RRA"):
        return "ref"
    if t.endswith("[]"):
        return "arr0"
    if "[][" in t:
        return "arr0"
    if t.endswith("]"):
        return "arr"
    if t in ("Abstract", "AbstractD"):
        return "abstract"
    return "obj"


def gen_class(rng, i, gstruct):
    """A class with generated special members."""
    n = "G%d" % i
    kind = rng.choice(["struct", "struct", "class", "union"])
    m = []
    base = ""
    if kind != "union" and rng.random() < 0.35:
        base = " : " + rng.choice(["Base", "Empty", "VBase", "MoveOnly", "NoCopy", "virtual Base", "private Base", "ThrowDtor"] + ["G%d" % j for j in range(i) if j in gstruct])
    if kind == "class" and rng.random() < 0.7:
        m.append("public:")
    for mem, forms in (("%s()" % n, ["", "noexcept", "= default", "= delete"]), ("%s(const %s&)" % (n, n), ["", "noexcept", "= default", "= delete"]),
                       ("%s(%s&&)" % (n, n), ["", "noexcept", "= default", "= delete"]), ("%s& operator=(const %s&)" % (n, n), ["", "noexcept", "= default", "= delete"]),
                       ("%s& operator=(%s&&)" % (n, n), ["", "noexcept", "= default", "= delete"]), ("%s(int)" % n, ["", "noexcept"]), ("operator int() const", ["", "noexcept"]),
                       ("%s& operator=(int)" % n, ["", "noexcept"])):
        if rng.random() < 0.22:
            m.append("%s %s;" % (mem, rng.choice(forms)))
    if rng.random() < 0.3:
        v = "virtual " if kind != "union" and rng.random() < 0.4 else ""
        m.append("%s~%s() %s;" % (v, n, rng.choice(["", "= default", "noexcept(false)"])))
    if kind != "union" and rng.random() < 0.15:
        m.append("virtual void vf();")
    if kind == "class" and rng.random() < 0.3:
        m.append("private:")
    for j in range(rng.randrange(0, 3)):
        m.append(rng.choice(["int m%d;", "char m%d[3];", "double m%d;", "int* m%d;", "Base m%d;", "std::string m%d;", "MoveOnly m%d;", "const int m%d = 1;"] if kind != "union" else ["int m%d;", "char m%d[3];", "double m%d;"]) % j)
    for op in ("+", "-", "*", "/", "%", "<", ">", "==", "!=", "&", "|", "^", "<<", ">>"):
        if rng.random() < 0.12:
            m.append("%s operator%s(const %s&)%s;" % (rng.choice([n, "bool"]), op, n, rng.choice([" const", " const", "", " const &"])))
    for nm in ("to_string", "str", "c_str", "ToString"):
        if rng.random() < 0.1:
            m.append("int %s()%s;" % (nm, rng.choice([" const", "", " &"])))
    if kind == "struct":
        gstruct.add(i)
    return n, "%s %s%s { %s };" % (kind, n, base, " ".join(m))


def corpus(rng, ngen):
    gstruct = set()
    decl, types = [], []
    for t in FUND + FIXED_NAMES + EXTRA:
        types.append((t, kind_of(t)))
    for t in FUND[2:] + ["E1", "E2", "E3", "Base", "U1", "std::string"]:
        for q in ("const ", "volatile ", "const volatile "):
            types.append((q + t, "obj"))
    gcls = []
    for i in range(24):
        n, d = gen_class(rng, i, gstruct)
        decl.append(d)
        gcls.append(n)
        types.append((n, "obj"))
    names = []
    out = []
    for i, (t, k) in enumerate(types):
        decl.append("typedef %s;" % declare(t, "T%d" % i))
        out.append(Ty("T%d" % i, t, k))
    for j in range(ngen):
        i = len(out)
        b = rng.choice(out)
        op = rng.choice(["c", "v", "cv", "*", "*", "&", "&&", "[3]", "[]", "fn", "mo", "mf"])
        k = b.kind
        if op in ("c", "v", "cv"):
            d, nk = {"c": "const", "v": "volatile", "cv": "const volatile"}[op] + " %s T%d" % (b.name, i), k
            txt = "%s (%s)" % ({"c": "const", "v": "volatile", "cv": "const volatile"}[op], b.text)
        elif op == "*" and k not in ("ref", "abom"):
            d, nk, txt = "%s* T%d" % (b.name, i), "obj", "(%s)*" % b.text
        elif op in ("&", "&&") and k not in ("void", "abom"):
            d, nk, txt = "%s%s T%d" % (b.name, op, i), "ref", "(%s)%s" % (b.text, op)
        elif op == "[3]" and k in ("obj", "arr"):
            d, nk, txt = "%s T%d[3]" % (b.name, i), "arr", "(%s)[3]" % b.text
        elif op == "[]" and k in ("obj", "arr"):
            d, nk, txt = "%s T%d[]" % (b.name, i), "arr0", "(%s)[]" % b.text
        elif op == "fn" and k in ("obj", "ref", "void"):
            q = rng.choice(["", "", "", " const", " volatile", " &", " &&", " const &"])
            d, nk, txt = "%s T%d(int, %s*)%s" % (b.name, i, "char", q), "abom" if q else "fn", "(%s)(int, char*)%s" % (b.text, q)
        elif op == "mo" and k in ("obj", "arr", "fn", "abom"):
            d, nk, txt = "%s Base::* T%d" % (b.name, i), "obj", "(%s) Base::*" % b.text
        elif op == "mf" and k in ("obj", "ref", "void"):
            q = rng.choice(["", " const", " &&"])
            d, nk, txt = "%s (Derived::* T%d)(%s*)%s" % (b.name, i, "int", q), "obj", "%s (Derived::*)(int*)%s" % (b.text, q)
        else:
            continue
        decl.append("typedef %s;" % d)
        out.append(Ty("T%d" % i, txt, nk))
    return decl, out


def declare(t, name):
    m = re.match(r"(.*?)((?:\[\d*\])+)$", t)
    if m:
        return "%s %s%s" % (m.group(1), name, m.group(2))
    if t == "void (*)()":
        return "void (*%s)()" % name
    return "%s %s" % (t, name)


PRE = r"""
#include <cstdio>
#include <cstddef>
#include <initializer_list>
#include <istream>
#include <memory>
#include <ostream>
#include <sstream>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include "Caitlyn/Numeric"
#include "Caitlyn/String"
#include "Caitlyn/Traits"
#if defined(__cpp_char8_t) && __cplusplus >= 202002L
#define CHAR8 , char8_t
#else
#define CHAR8
#endif
template <typename T, typename... Us> struct OneOf : std::false_type {};
template <typename T, typename U, typename... Us> struct OneOf<T, U, Us...> : std::integral_constant<bool, std::is_same<T, U>::value || OneOf<T, Us...>::value> {};
template <typename> struct Void_ { typedef void type; };
"""


def program(decl, types, rng, jobs, library=True):
    """jobs: list of (kind, query). The program prints 'query lib,.. std,..' lines."""
    s = [PRE, FIXED_CLASSES] + decl
    body = []
    sel = {}

    def emit(q, ts, lib, std):
        if not library:
            lib = ["0"] * len(lib)
        s.append("constexpr long long lib_%s[] = {%s};" % (q, ", ".join(lib)))
        s.append("constexpr long long std_%s[] = {%s};" % (q, ", ".join(std)))
        body.append('p("%s", lib_%s, std_%s, sizeof(lib_%s) / sizeof(long long));' % (q, q, q, q))
        sel[q] = ts
    for kind, q in jobs:
        if kind == "unary":
            ts = types
            emit(q, ts, ["static_cast<long long>(Caitlyn::%s<%s>())" % (q, t.name) for t in ts], ["static_cast<long long>(std::%s<%s>::value)" % (UNARY[q], t.name) for t in ts])
        elif kind == "align":
            ts = [t for t in types if t.kind in ("obj", "arr", "arr0", "abstract") or t.kind == "ref" and t.text not in ("RF", "RRF")]
            s.append("template <typename T> struct sd_%s { static constexpr long long value = alignof(typename std::remove_all_extents<typename std::remove_reference<T>::type>::type); };" % q)
            ts = [t for t in ts if t.kind != "ref"]
            emit(q, ts, ["static_cast<long long>(Caitlyn::%s<%s>())" % (q, t.name) for t in ts], ["sd_%s<%s>::value" % (q, t.name) for t in ts])
        elif kind == "own":
            s.append("template <typename T> struct sd_%s { static constexpr long long value = %s; };" % (q, OWN[q]))
            emit(q, types, ["static_cast<long long>(Caitlyn::%s<%s>())" % (q, t.name) for t in types], ["sd_%s<%s>::value" % (q, t.name) for t in types])
        elif kind == "binary":
            ts = []
            for _ in range(700):
                a, b = rng.choice(types), rng.choice(types)
                if rng.random() < 0.15:
                    b = a
                ts.append((a, b))
            s.append("template <typename T, typename U> struct sd_%s { static constexpr long long value = %s; };" % (q, BINARY[q]))
            emit(q, ts, ["static_cast<long long>(Caitlyn::%s<%s, %s>())" % (q, a.name, b.name) for a, b in ts], ["sd_%s<%s, %s>::value" % (q, a.name, b.name) for a, b in ts])
        elif kind in ("expr", "member"):
            e = EXPR[q] if kind == "expr" else D + "." + MEMBER[q] + "()"
            s.append("template <typename T, typename = void> struct sd_%s { static constexpr long long value = 0; };" % q)
            s.append("template <typename T> struct sd_%s<T, typename Void_<decltype(%s)>::type> { static constexpr long long value = 1; };" % (q, e))
            ts = [t for t in types if t.kind != "abom"]
            emit(q, ts, ["static_cast<long long>(Caitlyn::%s<%s>%s)" % (q, t.name, "::Value" if kind == "expr" else "()") for t in ts], ["sd_%s<%s>::value" % (q, t.name) for t in ts])
        elif kind in ("trans", "sign"):
            n = TRANS.get(q) or SIGN[q]
            ts = types if kind == "trans" else [t for t in types if t.sign]
            emit(q, ts, ["static_cast<long long>(std::is_same<Caitlyn::%s<%s>, typename std::%s<%s>::type>::value)" % (q, t.name, n, t.name) for t in ts], ["1" for t in ts])
        elif kind == "required":
            emit(q, [Ty("", "Required", "obj")] * 6,
                 ["std::is_same<Caitlyn::Required<true>, void>::value", "std::is_same<Caitlyn::Required<true, int&>, int&>::value", "sd_req<true>(0)", "sd_req<false>(0)",
                  "Caitlyn::TrueType::Value", "Caitlyn::FalseType::Value"], ["1", "1", "1", "0", "1", "0"])
    s.append("static void p(const char* q, const long long* a, const long long* b, unsigned long n) { std::printf(\"%s\", q); for (unsigned long i = 0; i < n; ++i) std::printf(\" %lld:%lld\", a[i], b[i]); std::printf(\"\\n\"); }")
    s.append("int main() { %s return 0; }" % "\n".join(body))
    return "\n".join(s), sel


REQ = """
template <Caitlyn::Bool B, typename = Caitlyn::Required<B>> constexpr int sd_req(int) { return 1; }
template <Caitlyn::Bool B> constexpr int sd_req(long) { return 0; }
"""


def signable(t):
    b = t.text
    while True:
        m = re.match(r"(?:const volatile|const|volatile) (?:\((.*)\)|(\S.*))$", b)
        if not m:
            break
        b = m.group(1) or m.group(2)
    return b in FUND[3:17] or b in ENUMS - {"E5"}


ALLJOBS = [("unary", q) for q in UNARY] + [("align", "AlignmentOf")] + [("own", q) for q in OWN] + [("binary", q) for q in BINARY] + [("expr", q) for q in EXPR] \
    + [("member", q) for q in MEMBER] + [("trans", q) for q in TRANS] + [("sign", q) for q in SIGN] + [("required", "Required")]


def make_corpus(seed, n, attempt, ngen):
    decl, types = corpus(random.Random("C28/%d/%d/%d" % (seed, n, attempt)), ngen)
    for t in types:
        t.sign = signable(t)
    return decl + [REQ], types


def compile_run(src, cxx, std, d, name):
    p = os.path.join(d, name + ".cpp")
    with open(p, "w") as fh:
        fh.write(src)
    exe = os.path.join(d, name)
    r = subprocess.run([cxx, "-std=" + std, "-w", "-O0", "-I" + rt.INC, p, "-o", exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode:
        return None, r.stdout
    r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise rt.Inconclusive("the generated program failed: " + r.stdout[-500:])
    os.unlink(exe)
    return r.stdout, ""


def part(args):
    seed, n, cxx, std, chunk, nchunks, ngen = args
    d = rt.scratch("c28")
    viol, obs = [], []
    try:
        jobs = ALLJOBS[chunk::nchunks]
        # a generated class may be ill-formed (not the library's fault): such a corpus is replaced
        for attempt in range(12):
            decl, types = make_corpus(seed, n, attempt, ngen)
            src, sel = program(decl, types, random.Random(seed * 7 + n), jobs)
            out, err = compile_run(src, cxx, std, d, "all")
            if out is not None or compile_run(program(decl, types, random.Random(0), [])[0], cxx, std, d, "base")[0] is not None:
                break
        else:
            raise rt.Inconclusive("no generated type corpus compiles (%s %s):\n%s" % (cxx, std, err[:3000]))
        outs = []
        if out is None:
            for j in jobs:
                s1, sel1 = program(decl, types, random.Random(seed * 7 + n), [j])
                o1, e1 = compile_run(s1, cxx, std, d, "one")
                if o1 is None and compile_run(program(decl, types, random.Random(seed * 7 + n), [j], False)[0], cxx, std, d, "std")[0] is None:
                    continue   # the standard's own query is ill-formed for a type of the corpus
                if o1 is None:
                    viol.append(("compile:" + j[1], "%s does not compile for a type of the corpus (%s %s):\n%s" % (j[1], cxx, std, e1[:1200]), [cxx, std, n, j, attempt]))
                else:
                    outs.append((o1, sel1))
        else:
            outs.append((out, sel))
        for o, sl in outs:
            for line in o.splitlines():
                q, *vals = line.split(" ")
                ts = sl[q]
                if len(vals) != len(ts):
                    raise rt.Inconclusive("protocol: %s" % q)
                sv = [v.split(":")[1] for v in vals]
                common = max(set(sv), key=sv.count)
                for t, v in zip(ts, vals):
                    a, b = v.split(":")
                    txt = t.text if isinstance(t, Ty) else "%s, %s" % (t[0].text, t[1].text)
                    if a != b:
                        kinds = {y: x for x, y in ALLJOBS}[q]
                        msg = "%s<%s> is not std::%s's type" % (q, txt, TRANS.get(q) or SIGN.get(q)) if kinds in ("trans", "sign") else "%s<%s>() = %s, expected %s" % (q, txt, a, b)
                        viol.append((q, msg + " (%s %s)" % (cxx, std), [cxx, std, n, [kinds, q], attempt]))
                    obs.append((q, txt, b != common or q in TRANS or q in SIGN))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return viol, obs


def configs(thorough):
    if not thorough:
        return [("clang++", "c++11", 0), ("g++", "c++17", 1)]
    out = []
    n = 0
    for i in range(8):
        for cxx in ("clang++", "g++"):
            for std in ("c++11", "c++14", "c++17", "c++20", "c++23"):
                out.append((cxx, std, n))
                n += 1
    return out


def run():
    rep = rt.Report(ID, LEVEL, RULE, ASSUMPTIONS)
    nch = 6
    jobs = [(rep.seed, n, cxx, std, c, nch, 120 if not rep.thorough else 250) for cxx, std, n in configs(rep.thorough) for c in range(nch)]
    with ThreadPoolExecutor(rt.NPROC) as ex:
        for args, (viol, obs) in zip(jobs, ex.map(part, jobs)):
            for k, m, payload in viol:
                rep.violation(k, m, {"seed": rep.seed, "config": payload, "ngen": args[6]})
            for q, txt, nt in obs:
                rep.evaluations += 1
                rep.features["answers of " + q] += 1
                if nt:
                    rep.distinct.add(rt.h64(q, txt))
            for q, txt, nt in obs[:: max(1, len(obs) // 2)]:
                if nt and len(rep.samples) < 8:
                    rep.samples.append({"query": q, "type": txt})
            rep.features["programs %s %s" % (args[2], args[3])] += 1
    return rep.finish()


def replay(payload):
    cxx, std, n, job, attempt = payload["config"]
    decl, types = make_corpus(payload["seed"], n, attempt, payload["ngen"])
    src, sel = program(decl, types, random.Random(payload["seed"] * 7 + n), [tuple(job)])
    d = rt.scratch("c28")
    try:
        out, err = compile_run(src, cxx, std, d, "one")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if out is None:
        print("VIOLATION: does not compile\n" + err[:3000])
        return 1
    bad = 0
    for line in out.splitlines():
        q, *vals = line.split(" ")
        for t, v in zip(sel[q], vals):
            a, b = v.split(":")
            if a != b:
                bad = 1
                print("VIOLATION %s<%s> gave %s, expected %s" % (q, t.text if isinstance(t, Ty) else "%s, %s" % (t[0].text, t[1].text), a, b))
    return bad
