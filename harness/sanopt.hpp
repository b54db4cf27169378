// Sanitizer options for drivers that do not use rt.hpp.
#pragma once
#if defined(__SANITIZE_ADDRESS__)
#define VERIF_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VERIF_ASAN 1
#endif
#endif
#ifdef VERIF_ASAN
extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:abort_on_error=0:exitcode=99:max_allocation_size_mb=2048:detect_stack_use_after_return=1:handle_abort=1:symbolize=1";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=99"; }
#endif
