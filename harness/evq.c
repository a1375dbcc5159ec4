/* C07: event queue, one operation from an arbitrary valid state against a
 * list.
 */
#include "vf.h"
#include "pt_event_queue.h"
#include "intel-pt.h"

#define CAP_N 14
#define CAP (evq_max - 2)
#ifndef FSTEP
#define FSTEP 1
#endif
#ifndef NMIN
#define NMIN 0
#define NMAX CAP_N
#endif

struct item {
	uint32_t binding;
	struct pt_event ev;
};

static struct item list[evq_max], now[evq_max];
static unsigned nlist, nnow;
static struct pt_event_queue q;

static unsigned snapshot(struct item *to)
{
	unsigned i, n, b = q.begin;

	n = (unsigned) (evq_max + q.end - q.begin) % evq_max;
	for (i = 0; i < evq_max; ++i)
		if (i < n) {
			to[i].ev = q.queue[(b + i) % evq_max].event;
			to[i].binding = q.queue[(b + i) % evq_max].binding;
		}
	return n;
}

static int same_event(const struct pt_event *a, const struct pt_event *b)
{
	return a->type == b->type && a->tsc == b->tsc &&
		a->ip_suppressed == b->ip_suppressed &&
		a->status_update == b->status_update &&
		a->has_tsc == b->has_tsc && a->lost_mtc == b->lost_mtc &&
		a->lost_cyc == b->lost_cyc &&
		a->variant.async_branch.from == b->variant.async_branch.from &&
		a->variant.async_branch.to == b->variant.async_branch.to;
}

static int same(const struct item *a, const struct item *b)
{
	return a->binding == b->binding && same_event(&a->ev, &b->ev);
}

static void blank(const struct pt_event *ev)
{
	static const struct pt_event zero;

	ASSERT(!ev->reserved[0] && !ev->reserved[1] && same_event(ev, &zero), "starts out blank");
	ASSERT(ev->variant.tick.ip == 0, "starts out blank");
}

static const struct pt_event zero_event;

static struct pt_event arbitrary(void)
{
	struct pt_event e = zero_event;

	e.type = (enum pt_event_type) nd_u8();
	e.ip_suppressed = 1;
	e.tsc = nd_u64();
	e.lost_cyc = nd_u32();
	e.variant.async_branch.to = nd_u64();
	return e;
}

/* Queue state: begin, fill level and the position of the first matching
 * element are constants (all of them are tried), the contents are symbolic.
 */
static void state(unsigned begin, unsigned n)
{
	unsigned i;

	static const struct pt_event_queue empty;

	q = empty;
	for (i = 0; i < n; ++i)
		q.queue[(begin + i) % evq_max].event = arbitrary();
	q.begin = (uint8_t) begin;
	q.end = (uint8_t) ((begin + n) % evq_max);
}

static void others(unsigned n, unsigned skip)
{
	unsigned i;

	int ok = 1;

	for (i = 0; i < n; ++i)
		ok &= same(&now[i], &list[i < skip ? i : i + 1]);
	ASSERT(ok, "others kept in order");
}

static void step(unsigned begin, unsigned n, unsigned first, uint8_t op)
{
	struct pt_event *ev, last, ev2;
	const uint32_t evb = 2;
	unsigned i;

	state(begin, n);
	for (i = 0; i < evq_max; ++i)
		q.queue[i].binding = i == (begin + first) % evq_max ? 3 : 5;
	for (i = first + 1; i < n; ++i)
		q.queue[(begin + i) % evq_max].binding = nd_u8();
	nlist = snapshot(list);

	switch (op) {
	case 0:
		ev = pt_evq_enqueue(&q, evb);
		nnow = snapshot(now);
		if (n == CAP) {
			ASSERT(!ev, "a full queue refuses");
			ASSERT(nnow == n, "nothing lost");
#if NMAX == CAP_N
			WITNESS("full");
#endif
		} else {
			ASSERT(ev && nnow == n + 1, "queued");
			if (!ev)
				return;
			blank(ev);
			ASSERT(now[n].binding == evb, "binding");
			ev->tsc = 0x1234;
			ev->type = ptev_overflow;
			nnow = snapshot(now);
			ASSERT(now[n].ev.tsc == 0x1234 &&
			       now[n].ev.type == ptev_overflow,
			       "the new event is at the end");
#if NMIN < CAP_N
			WITNESS("enqueued");
#endif
		}
		others(n, n);
		break;

	case 1:
		ev = pt_evq_dequeue(&q, evb);
		nnow = snapshot(now);
		if (first == n) {
			ASSERT(!ev, "none for that binding");
			ASSERT(nnow == n, "nothing lost");
			others(n, n);
		} else {
			ASSERT(ev && same_event(ev, &list[first].ev),
			       "oldest first");
			ASSERT(nnow == n - 1, "delivered once");
			if (!ev)
				return;
			last = *ev;
			others(n - 1, first);
			/* It may still be used until the next dequeue. */
			(void) pt_evq_enqueue(&q, 1);
			ASSERT(same_event(ev, &last),
			       "delivered event not overwritten");
			WITNESS("dequeued");
		}
		break;

	case 2:
		ASSERT(pt_evq_clear(&q) == 0, "cleared");
		ASSERT(snapshot(now) == 0, "cleared");
		ASSERT(pt_evq_empty(&q, 0xffffffff) == 1, "cleared");
		break;

	case 3:
		ev2 = arbitrary();
		ev = pt_evq_requeue(&q, &ev2, evb);
		nnow = snapshot(now);
		if (n == CAP)
			ASSERT(!ev && nnow == n, "a full queue refuses");
		else {
			ASSERT(ev && nnow == n + 1, "requeued");
			if (!ev)
				return;
			ASSERT(same_event(ev, &ev2), "requeued");
			ASSERT(now[n].binding == evb &&
			       same_event(&now[n].ev, &ev2), "at the end");
#if NMIN < CAP_N
			WITNESS("requeued");
#endif
		}
		others(n, n);
		break;

	default:
		q.standalone = arbitrary();
		ev = pt_evq_standalone(&q);
		ASSERT(ev != NULL, "standalone");
		if (!ev)
			return;
		blank(ev);
		nnow = snapshot(now);
		ASSERT(nnow == n, "unchanged");
		others(n, n);
		break;
	}
	ASSERT(q.begin < evq_max && q.end < evq_max, "invariant");
}

static void look(unsigned begin, unsigned n)
{
	struct pt_event *ev;
	enum pt_event_type evt;
	uint32_t evb;
	unsigned i, first, f;

	state(begin, n);
	for (i = 0; i < evq_max; ++i)
		q.queue[i].binding = nd_u8();
	nlist = snapshot(list);
	evb = nd_u8();
	evt = (enum pt_event_type) nd_u8();
	first = f = n;
	for (i = n; i-- > 0;)
		if (list[i].binding & evb) {
			first = i;
			if (list[i].ev.type == evt)
				f = i;
		}

	ASSERT(pt_evq_empty(&q, evb) == (first == n), "empty");
	ASSERT(pt_evq_pending(&q, evb) == (first != n), "pending");
	ev = pt_evq_peek(&q, evb);
	for (i = 0; i < n; ++i)
		if (i == first)
			ASSERT(ev == &q.queue[(begin + i) % evq_max].event,
			       "oldest first");
	if (first == n)
		ASSERT(!ev, "none for that binding");
	ev = pt_evq_find(&q, evb, evt);
	for (i = 0; i < n; ++i)
		if (i == f)
			ASSERT(ev == &q.queue[(begin + i) % evq_max].event,
			       "the first of that type");
	if (f == n)
		ASSERT(!ev, "no such event");
	nnow = snapshot(now);
	ASSERT(nnow == n, "unchanged");
	others(n, n);
	WITNESS("look");
}

void harness(void)
{
	unsigned n, f, sn, sf;
	uint8_t op;

	pt_evq_init(&q);
	ASSERT(pt_evq_empty(&q, 0xffffffff) == 1, "initially empty");
	ASSERT(!pt_evq_dequeue(&q, 0xffffffff), "nothing queued");
	ASSERT(!pt_evq_enqueue(NULL, 1) && !pt_evq_dequeue(NULL, 1) &&
	       !pt_evq_peek(NULL, 1) && !pt_evq_find(NULL, 1, ptev_enabled) &&
	       !pt_evq_requeue(NULL, &list[0].ev, 1) &&
	       !pt_evq_requeue(&q, NULL, 1) && !pt_evq_standalone(NULL),
	       "NULL");
	ASSERT(pt_evq_empty(NULL, 1) == -pte_internal &&
	       pt_evq_pending(NULL, 1) == -pte_internal &&
	       pt_evq_clear(NULL) == -pte_internal, "NULL");

	sn = nd_u8();
	sf = nd_u8();
	op = nd_u8();
	for (n = NMIN; n <= NMAX; ++n) {
		if (n != sn)
			continue;
#ifdef LOOK
		look(BEGIN, n);
		CASE_END();
#else
		if (op == 1)
			for (f = 0; f <= n; f += FSTEP) {
				if (f == sf) {
					step(BEGIN, n, f, 1);
					CASE_END();
				}
			}
		if (op == 0) {
			step(BEGIN, n, n, 0);
			CASE_END();
		}
		if (op == 2) {
			step(BEGIN, n, n, 2);
			CASE_END();
		}
		if (op == 3) {
			step(BEGIN, n, n, 3);
			CASE_END();
		}
		if (op == 4) {
			step(BEGIN, n, n, 4);
			CASE_END();
		}
#endif
	}
}
