/* Common harness layer.
 *
 * The same harness file is compiled twice:
 *   - with goto-cc for CBMC: every nd_*() value is a fresh symbolic variable;
 *   - with gcc/clang -DVF_REPLAY: nd_*() values are read, in the same order,
 *     from a file holding the solver's assignment.
 */
#ifndef VF_H
#define VF_H

#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <stdlib.h>

#ifdef VF_REPLAY

#include <stdio.h>
#include <inttypes.h>

static FILE *vf_in;
static int vf_more = 1;

static inline uint64_t vf_get(const char *kind)
{
	unsigned long long v;

	if (!vf_in || fscanf(vf_in, "%llx", &v) != 1) {
		/* The solver's path consumed no further inputs: past this point
		 * the values do not matter for the failure being replayed.
		 */
		vf_more = 0;
		return 0;
	}
	(void) kind;
	return v;
}

#define nd_u8() ((uint8_t) vf_get("u8"))
#define nd_u16() ((uint16_t) vf_get("u16"))
#define nd_u32() ((uint32_t) vf_get("u32"))
#define nd_u64() ((uint64_t) vf_get("u64"))
#define nd_int() ((int) (uint32_t) vf_get("int"))
#define nd_i64() ((int64_t) vf_get("i64"))

#define ASSUME(c)							\
	do {								\
		if (!(c)) {						\
			if (!vf_more) {					\
				fprintf(stderr, "VF-OK\n");		\
				exit(0);				\
			}						\
			fprintf(stderr, "VF-ASSUME %s:%d: %s\n",	\
				__FILE__, __LINE__, #c);		\
			exit(77);					\
		}							\
	} while (0)

#define ASSERT(c, msg)							\
	do {								\
		if (!(c)) {						\
			fprintf(stderr, "VF-FAIL %s:%d: %s\n",		\
				__FILE__, __LINE__, msg);		\
			fflush(NULL);					\
			_Exit(42);					\
		}							\
	} while (0)

#define WITNESS(name)							\
	do {								\
		fprintf(stderr, "VF-WITNESS %s\n", name);		\
	} while (0)

/* The end of one case: nothing follows. */
#define CASE_END()							\
	do {								\
		fprintf(stderr, "VF-OK\n");				\
		exit(0);						\
	} while (0)

void harness(void);

int main(int argc, char **argv)
{
	if (argc > 1)
		vf_in = fopen(argv[1], "r");
	harness();
	fprintf(stderr, "VF-OK\n");
	return 0;
}

#else /* CBMC */

uint8_t nondet_u8(void);
uint16_t nondet_u16(void);
uint32_t nondet_u32(void);
uint64_t nondet_u64(void);
int nondet_int(void);
int64_t nondet_i64(void);

#define VF_ND(name, type, fn)						\
	static inline type name(void)					\
	{								\
		type vf_nd = fn();					\
		__CPROVER_input("vf", vf_nd);				\
		return vf_nd;						\
	}

VF_ND(nd_u8, uint8_t, nondet_u8)
VF_ND(nd_u16, uint16_t, nondet_u16)
VF_ND(nd_u32, uint32_t, nondet_u32)
VF_ND(nd_u64, uint64_t, nondet_u64)
VF_ND(nd_int, int, nondet_int)
VF_ND(nd_i64, int64_t, nondet_i64)

#define ASSUME(c) __CPROVER_assume(c)
#define ASSERT(c, msg) __CPROVER_assert((c), "VF: " msg)
#define CASE_END() __CPROVER_assume(0)
/* A reachability witness: must come back violated. */
#define WITNESS(name) __CPROVER_assert(0, "WITNESS: " name)

#endif

#endif
