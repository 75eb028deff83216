#include <stdio.h>
void out(unsigned long x) { printf("%lx\n", x); }
#ifdef _WIN32
#include <windows.h>
static LONG CALLBACK fault(EXCEPTION_POINTERS *e) {
	if (e->ExceptionRecord->ExceptionCode >= 0xC0000000u) ExitProcess(99);
	return EXCEPTION_CONTINUE_SEARCH;
}
static void __attribute__((constructor)) init(void) { AddVectoredExceptionHandler(1, fault); }
#endif
