/* C15: synchronizing the query decoder forward, backward or onto an offset
 * yields the same status and the same answers.
 *
 * Real query and event decoder on the packet model of evt.h.
 */
#define SYNC
#include "evt.h"
#include "pt_query_decoder.h"

/* Copying events as such keeps their concrete parts concrete. */
void *vf_memcpy(void *d, const void *s, size_t n)
{
	ASSERT(n == sizeof(struct pt_event), "events are copied completely");
	*(struct pt_event *) d = *(const struct pt_event *) s;
	return d;
}

static void r_event(const struct rev *e)
{
	(void) e;
}

static struct pt_query_decoder dec, ref;

#ifdef BADEND
/* The last PSB+ is broken. */
#define LAST PSB, TIP, CBR, CBR
#else
/* The last PSB+ is incomplete. */
#define LAST PSB, FUP
#endif

static const enum tok seq[] = { TIP0, PSB, FUP, EXEC, PSBEND, TNT8, TIP, PSB,
	PSBEND, PSB, FUP, PSBEND, TNT8, LAST };
static const unsigned psbs[] = { 1, 7, 9, 13 };
#define NPSB 4

static uint64_t pos_of(struct pt_query_decoder *d)
{
	uint64_t off = 0;

	ASSERT(pt_qry_get_offset(d, &off) == 0, "the position is known");
	return off;
}

/* Both give the same answer to the next queries. */
static void same(unsigned n)
{
	struct pt_event a, b;
	uint64_t ipa = 7, ipb = 7;
	int sa, sb, ta = 7, tb = 7;

	while (n--) {
		sa = pt_qry_event(&dec, &a, sizeof(a));
		sb = pt_qry_event(&ref, &b, sizeof(b));
		ASSERT(sa == sb, "the same status of the next event");
		if (sa >= 0) {
			ASSERT(a.type == b.type &&
			       a.status_update == b.status_update &&
			       a.ip_suppressed == b.ip_suppressed &&
			       a.variant.enabled.ip == b.variant.enabled.ip,
			       "the same event");
			continue;
		}
		if (sa != -pte_bad_query)
			return;
		sa = pt_qry_cond_branch(&dec, &ta);
		sb = pt_qry_cond_branch(&ref, &tb);
		ASSERT(sa == sb && ta == tb, "the same conditional branch");
		if (sa >= 0)
			continue;
		sa = pt_qry_indirect_branch(&dec, &ipa);
		sb = pt_qry_indirect_branch(&ref, &ipb);
		ASSERT(sa == sb && ipa == ipb, "the same indirect branch");
		if (sa < 0)
			return;
	}
}

static int fresh(unsigned off, uint64_t *ip)
{
	struct pt_config config;
	int status;

	memset(&config, 0, sizeof(config));
	config.size = sizeof(config);
	config.begin = trace;
	config.end = trace + nP;
	status = pt_qry_decoder_init(&ref, &config);
	ASSERT(status == 0, "initialization");
	return pt_qry_sync_set(&ref, ip, off);
}

/* What the decoder must be at after an operation. */
static void check(int status, uint64_t ip, unsigned off)
{
	uint64_t fip = 5, so;
	int fs;

	fs = fresh(off, &fip);
	ASSERT(status == fs, "the status of that synchronization point");
	ASSERT(pt_qry_get_sync_offset(&dec, &so) == 0 && so == off,
	       "the nearest synchronization point");
	if (status < 0)
		return;
	ASSERT(ip == fip, "the IP of that synchronization point");
	ASSERT(pos_of(&dec) == pos_of(&ref), "the same position");
	same(STEPS);
}

void harness(void)
{
	struct pt_config config;
	struct pt_event ev;
	unsigned i, from, more, op, c = 0, sel;
	uint64_t ip, at, off;
	int status, taken, k;

	endstatus = -pte_eos;
	sel = nd_u8();
	for (i = 0; i < sizeof(seq) / sizeof(*seq); ++i)
		put(seq[i]);
	/* one to six branches */
	P[5].payload.tnt.bit_size = P[12].payload.tnt.bit_size = 2;

	memset(&config, 0, sizeof(config));
	config.size = sizeof(config);
	config.begin = trace;
	config.end = trace + nP;
	status = pt_qry_decoder_init(&dec, &config);
	ASSERT(status == 0, "initialization");

	for (from = FROMLO; from < FROMHI; ++from) {
		for (more = 0; more < 4; ++more) {
			for (op = 0; op < 3; ++op) {
				if (op == 2 && more != 1)
					continue;
				if (!from && more)
					continue;
				if (sel != c++)
					continue;
				if (from) {
					off = psbs[from - 1];
					ip = 5;
					status = pt_qry_sync_set(&dec, &ip,
								 off);
					for (i = 0; i < 3; ++i) {
						if (i >= more)
							break;
						status = pt_qry_event(&dec, &ev,
							sizeof(ev));
						if (status == -pte_bad_query) {
							(void)
							pt_qry_cond_branch(&dec,
								&taken);
							(void)
							pt_qry_cond_branch(&dec,
								&taken);
						}
					}
					at = pos_of(&dec);
				} else {
					at = 0;
					ASSERT(pt_qry_get_offset(&dec, &off) ==
					       -pte_nosync, "not synchronized");
				}

				ip = 5;
				if (op == 0) {
					status = pt_qry_sync_forward(&dec, &ip);
					for (k = 0; k < NPSB; ++k)
						if (psbs[k] + 1 >= at &&
						    (!from || psbs[k] >
						     psbs[from - 1]))
							break;
#ifdef BADEND
					/* its error may be pending already */
					if (k == NPSB - 1 && at >= psbs[k])
						CASE_END();
#endif
					if (k == NPSB)
						ASSERT(status == -pte_eos,
						       "no further PSB");
					else
						check(status, ip, psbs[k]);
				} else if (op == 1) {
					if (!from)
						at = nP;
					status = pt_qry_sync_backward(&dec,
								      &ip);
					for (k = NPSB; k--; ) {
						int fs;

						if (psbs[k] >= at)
							continue;
						fs = fresh(psbs[k], &off);
						if (fs == -pte_eos)
							continue;
#ifdef BADEND
						/* it may be met again */
						if (fs < 0 && from)
							CASE_END();
#endif
						if (fs >= 0 &&
						    pos_of(&ref) >= at)
							continue;
						break;
					}
					if (k < 0)
						ASSERT(status == -pte_eos,
						       "no earlier PSB");
					else
						check(status, ip, psbs[k]);
				} else {
					status = pt_qry_sync_set(&dec, &ip,
								 psbs[1]);
					check(status, ip, psbs[1]);
				}
				CASE_END();
			}
		}
	}
}
