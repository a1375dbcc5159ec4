/* C06: TNT cache and return stack, one step from an arbitrary valid state. */
#include "vf.h"
#include "pt_tnt_cache.h"
#include "pt_retstack.h"
#include "intel-pt.h"

#ifdef TNT
static uint64_t mask(unsigned n)
{
	return n >= 64 ? ~0ull : (1ull << n) - 1;
}

static uint64_t top(unsigned n)
{
	return n ? 1ull << (n - 1) : 0;
}

void harness(void)
{
	struct pt_tnt_cache c, b;
	unsigned n;
	int st;

	pt_tnt_cache_init(&c);
	ASSERT(pt_tnt_cache_is_empty(&c) == 1, "initially empty");
	ASSERT(pt_tnt_cache_query(&c) == -pte_bad_query, "nothing to query");
	ASSERT(pt_tnt_cache_is_empty(&c) == 1, "still empty");

	/* @n cached indicators, the oldest one in the highest bit. */
	n = nd_u8();
	ASSUME(n <= 64);
	c.tnt = nd_u64();
	c.index = top(n);
	b = c;
	ASSERT(pt_tnt_cache_is_empty(&c) == (n == 0), "empty");
	ASSERT(c.tnt == b.tnt && c.index == b.index, "is_empty is const");

	if (nd_u8() & 1) {
		st = pt_tnt_cache_query(&c);
		if (n == 0) {
			ASSERT(st == -pte_bad_query, "exhaustion reported");
			ASSERT(c.index == 0, "nothing invented");
			WITNESS("exhausted");
		} else {
			ASSERT(st == (int) ((b.tnt >> (n - 1)) & 1),
			       "oldest first");
			ASSERT(c.index == top(n - 1), "consumed once");
			ASSERT(((c.tnt ^ b.tnt) & mask(n - 1)) == 0,
			       "the others keep their order");
			WITNESS("query");
		}
	} else {
		uint64_t tnt = nd_u64();
		uint8_t size = nd_u8();

		/* Packets hold at most 47 indicators. */
		ASSUME(size < 64);
		st = pt_tnt_cache_add(&c, tnt, size);
		if (n + size > 64) {
			ASSERT(st == -pte_overflow, "overflow reported");
			ASSERT(c.tnt == b.tnt && c.index == b.index,
			       "nothing lost on overflow");
			WITNESS("overflow");
		} else {
			uint64_t want;

			ASSERT(st == 0, "added");
			ASSERT(c.index == top(n + size), "all added");
			want = ((b.tnt & mask(n)) << size) | (tnt & mask(size));
			ASSERT(((c.tnt ^ want) & mask(n + size)) == 0,
			       "appended in order");
			WITNESS("add");
		}
	}

	ASSERT(pt_tnt_cache_query(NULL) == -pte_invalid, "NULL");
	ASSERT(pt_tnt_cache_is_empty(NULL) == -pte_invalid, "NULL");
	ASSERT(pt_tnt_cache_add(NULL, 0, 1) == -pte_invalid, "NULL");
}
#endif

#ifdef RETSTACK
#define SLOTS 65
#define DEPTH 64	/* the return-compression depth of the hardware */

static unsigned depth(const struct pt_retstack *r)
{
	return (SLOTS + r->top - r->bottom) % SLOTS;
}

/* The @k-th most recent return address. */
static uint64_t nth(const struct pt_retstack *r, unsigned k)
{
	return r->stack[(SLOTS + r->top - 1 - k) % SLOTS];
}

void harness(void)
{
	static struct pt_retstack r, b;
	uint64_t ip;
	unsigned n, k, i;
	int st;

	ASSERT(sizeof(r.stack) / sizeof(r.stack[0]) == SLOTS, "one free slot");

	pt_retstack_init(&r);
	ASSERT(pt_retstack_is_empty(&r) == 1, "initially empty");
	ip = 7;
	ASSERT(pt_retstack_pop(&r, &ip) == -pte_retstack_empty && ip == 7,
	       "nothing to pop");

	for (i = 0; i < SLOTS; ++i)
		r.stack[i] = nd_u64();
	r.top = nd_u8();
	r.bottom = nd_u8();
	ASSUME(r.top < SLOTS && r.bottom < SLOTS);
	b = r;
	n = depth(&r);
	k = nd_u8();
	ASSERT(pt_retstack_is_empty(&r) == (n == 0), "empty");

	ip = nd_u64();
	if (nd_u8() & 1) {
		uint64_t before = ip;

		st = pt_retstack_pop(&r, (nd_u8() & 1) ? &ip : NULL);
		if (n == 0) {
			ASSERT(st == -pte_retstack_empty, "underflow reported");
			ASSERT(depth(&r) == 0 && ip == before, "unchanged");
			WITNESS("underflow");
		} else {
			ASSERT(st == 0, "popped");
			ASSERT(ip == before || ip == nth(&b, 0),
			       "most recent first");
			ASSERT(depth(&r) == n - 1, "popped once");
			if (k < n - 1)
				ASSERT(nth(&r, k) == nth(&b, k + 1),
				       "the others keep their order");
			/* with result */
			r = b;
			ASSERT(pt_retstack_pop(&r, &ip) == 0 &&
			       ip == nth(&b, 0), "most recent returned");
			WITNESS("pop");
		}
	} else {
		st = pt_retstack_push(&r, ip);
		ASSERT(st == 0, "pushed");
		ASSERT(depth(&r) == (n < DEPTH ? n + 1 : DEPTH), "depth");
		ASSERT(nth(&r, 0) == ip, "on top");
		if (k < depth(&r) - 1)
			ASSERT(nth(&r, k + 1) == nth(&b, k),
			       "the most recent ones are kept");
		WITNESS("push");
	}
	ASSERT(r.top < SLOTS && r.bottom < SLOTS, "invariant");
	ASSERT(pt_retstack_pop(NULL, &ip) == -pte_invalid, "NULL");
	ASSERT(pt_retstack_push(NULL, ip) == -pte_invalid, "NULL");
	ASSERT(pt_retstack_is_empty(NULL) == -pte_invalid, "NULL");
}
#endif
