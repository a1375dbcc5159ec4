/* C04: synchronization onto PSB packets.
 *
 * Reference: a synchronization point is an offset p at which a complete PSB
 * (02 82 eight times) lies inside the buffer and that is not followed by a
 * further 02 82 pair (in a run of back-to-back PSB, only the last one counts;
 * the earlier ones are indistinguishable from payload of the run).
 */
#include "vf.h"
#include "pt_sync.h"
#include "pt_packet_decoder.h"

#ifndef N
#define N 40
#endif

#define MAXOFF 8

#define PAD 16

static uint8_t store[PAD + N + MAXOFF] __attribute__((aligned(64)));
static size_t size;
static uint8_t *buf;


/* even[p]: number of consecutive 02 82 pairs at p, capped */
static uint8_t run[N + 4];
static uint8_t is_sync[N + 2];

static void reference(void)
{
	int p;

	for (p = N + 1; p >= 0; --p) {
		if ((size_t) p + 2 <= size && buf[p] == 0x02 &&
		    buf[p + 1] == 0x82)
			run[p] = (uint8_t) (1 + run[p + 2]);
		else
			run[p] = 0;
	}
	for (p = 0; p <= N; ++p)
		is_sync[p] = run[p] == 8;
}

static int first_at_or_after(int64_t pos)
{
	int p, r = -1;

	for (p = N; p >= 0; --p)
		if (is_sync[p] && p >= pos)
			r = p;
	return r;
}

/* The last one that ends at or before @pos. */
static int last_complete_before(int64_t pos)
{
	int p, r = -1;

	for (p = 0; p <= N; ++p)
		if (is_sync[p] && p + 16 <= pos)
			r = p;
	return r;
}

static void check_forward(int st, int64_t start, int64_t got)
{
	int want = first_at_or_after(start);

	if (want < 0)
		ASSERT(st == -pte_eos, "no synchronization point ahead: eos");
	else {
		ASSERT(st == 0, "synchronization point ahead is found");
		ASSERT(got == want, "the nearest synchronization point ahead");
	}
}

static void check_backward(int st, int64_t pos, int64_t got)
{
	int want = last_complete_before(pos);

	ASSERT(st == 0 || st == -pte_eos, "found or end of stream");
	if (st == 0) {
		ASSERT(got >= 0 && got < (int64_t) size && is_sync[got],
		       "backward: at a complete PSB");
		ASSERT(got < pos, "backward: progress");
		ASSERT(got >= want, "backward: none skipped");
	} else
		ASSERT(want < 0, "synchronization point behind is found");
}

void harness(void)
{
	struct pt_config cfg;
	const uint8_t *sync;
	unsigned pos, off;
	int i, st;

#ifdef OFF
	off = OFF;
#else
	off = nd_u8();
	ASSUME(off < MAXOFF);
#endif
	size = nd_u8();
#ifdef SIZE
	size = SIZE;
#endif
	ASSUME(size > 0 && size <= N);
	buf = store + PAD + off;
	for (i = PAD; i < PAD + N + MAXOFF; ++i)
		store[i] = nd_u8() & 0x82;
	memset(&cfg, 0, sizeof(cfg));
	cfg.size = sizeof(cfg);
	cfg.begin = buf;
	cfg.end = buf + size;
	reference();
	pos = nd_u8();

#if defined(FORWARD)
	ASSUME(pos <= size);
	sync = NULL;
	st = pt_sync_forward(&sync, buf + pos, &cfg);
	check_forward(st, pos, st < 0 ? -1 : sync - buf);
	if (st < 0)
		ASSERT(!sync, "nothing reported on failure");
	if (st == 0)
		WITNESS("forward");
#elif defined(BACKWARD)
	ASSUME(pos <= size);
	sync = NULL;
	st = pt_sync_backward(&sync, buf + pos, &cfg);
	check_backward(st, pos, st < 0 ? -1 : sync - buf);
	if (st == 0)
		WITNESS("backward");
#elif defined(PKTFWD) || defined(PKTBWD)
	struct pt_packet_decoder dec;
	unsigned s;
	uint64_t o, so;

	ASSUME(pos <= size);
	memset(&dec, 0, sizeof(dec));
	dec.config = cfg;
	s = nd_u8();
	if (s <= size) {
		/* Synchronized: onto @s, decoded (or not) up to @pos. */
		ASSUME(pos >= s);
		/* A PSB is consumed as a whole. */
		if (is_sync[s])
			ASSUME(pos == s || pos >= s + 16);
		dec.sync = buf + s;
		dec.pos = buf + pos;
	} else
		pos = 0;
#ifdef PKTFWD
	st = pt_pkt_sync_forward(&dec);
	{
		int64_t start;

		/* Right at the current synchronization point we must move on.
		 * Otherwise a PSB that has been partially consumed counts.
		 */
		if (s <= size && pos == s)
			start = (int64_t) s + 1;
		else
			start = pos < 15 ? 0 : (int64_t) pos - 15;
		check_forward(st, start, st < 0 ? -1 : dec.pos - buf);
		/* Histories start at synchronization points. */
		if (st == 0 && s < size && is_sync[s])
			ASSERT(dec.pos - buf > s, "forward: progress");
	}
#else
	st = pt_pkt_sync_backward(&dec);
	check_backward(st, s <= size ? pos : (int64_t) size,
		       st < 0 ? -1 : dec.pos - buf);
#endif
	if (st == 0) {
		ASSERT(dec.pos == dec.sync, "position at synchronization point");
		ASSERT(pt_pkt_get_offset(&dec, &o) == 0, "offset");
		ASSERT(pt_pkt_get_sync_offset(&dec, &so) == 0, "sync offset");
		ASSERT(o == so && o == (uint64_t) (dec.pos - buf),
		       "reported offset");
		WITNESS("found");
	} else if (s <= size)
		ASSERT(dec.pos == buf + pos && dec.sync == buf + s,
		       "position kept on failure");
#elif defined(SET)
	{
		struct pt_packet_decoder dec;
		uint64_t o = nd_u32();
		uint64_t q;

		memset(&dec, 0, sizeof(dec));
		dec.config = cfg;
		st = pt_pkt_get_offset(&dec, &q);
		ASSERT(st == -pte_nosync, "no offset before synchronization");
		st = pt_pkt_get_sync_offset(&dec, &q);
		ASSERT(st == -pte_nosync, "no sync offset before synchronization");
		st = pt_pkt_sync_set(&dec, o);
		if (o > size)
			ASSERT(st == -pte_eos && !dec.pos && !dec.sync,
			       "offset outside the buffer");
		else {
			ASSERT(st == 0, "offset inside the buffer");
			st = pt_pkt_get_offset(&dec, &q);
			ASSERT(st == 0 && q == o, "offset is the one set");
			st = pt_pkt_get_sync_offset(&dec, &q);
			ASSERT(st == 0 && q == o, "sync offset is the one set");
			WITNESS("set");
		}

		/* pt_sync_set() */
		ASSUME(pos <= size);
		sync = NULL;
		st = pt_sync_set(&sync, buf + pos, &cfg);
		ASSERT((st == 0) == (run[pos] >= 8), "set onto PSB only");
		if (st == 0) {
			ASSERT(sync == buf + pos, "set where asked");
			WITNESS("sync set");
		} else
			ASSERT(!sync && (st == -pte_eos || st == -pte_nosync ||
					 st == -pte_bad_packet), "errors");
	}
#endif
}
