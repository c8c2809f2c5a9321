// Turns the library's ways of refusing a call (process exit, exception) into an observable outcome.
// Link with -Wl,--wrap=exit.
#pragma once
#include <setjmp.h>
#include <exception>
extern "C" void __real_exit(int) __attribute__((noreturn));
#ifndef TLS
#define TLS
#endif
static TLS jmp_buf g_jb;
static TLS bool g_armed;
extern "C" void __wrap_exit(int code)
{
	if (g_armed) longjmp(g_jb, 1);
	__real_exit(code);
}
// "" when f returned, otherwise how it refused
template<class F>
static const char *guarded(F f)
{
	const char *volatile how = "";
	g_armed = true;
	try {
		if (setjmp(g_jb) == 0) f(); else how = "exit";
	} catch (std::exception&) { how = "throw"; }
	g_armed = false;
	return how;
}
