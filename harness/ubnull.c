/* "null plus zero" (walking an empty array with pointers) is reported by clang's
 * UBSan, although every compiler defines it and C2y does; all other pointer
 * overflows are reported as usual. */
#include <stdint.h>
#include <stdlib.h>
extern void __ubsan_handle_pointer_overflow_abort(void *d, uintptr_t b, uintptr_t r) __attribute__((weak));
void __wrap___ubsan_handle_pointer_overflow(void *d, uintptr_t b, uintptr_t r) {
	if (!b && !r) return;
	if (__ubsan_handle_pointer_overflow_abort) __ubsan_handle_pointer_overflow_abort(d, b, r);
	abort();
}
