/* C15 (and C28): the query decoder over an arbitrary sequence of events.
 *
 * The event decoder is modelled: it delivers NEV arbitrary events with
 * arbitrary payload, then an arbitrary error.  The reference below keeps the
 * not yet consumed branch bits and the index of the next event.
 */
#include "vf.h"
#include "pt_query_decoder.h"
#include "pt_event_decoder.h"
#include "pt_config.h"
#include "intel-pt.h"

#ifndef NEV
#define NEV 4
#endif
#ifndef MAXTNT
#define MAXTNT 47
#endif
#ifndef NOPS
#define NOPS 5
#endif

/* --- the trace --- */

static struct pt_event EV[NEV];
static uint64_t TSC[NEV + 1];
static uint8_t CBR[NEV + 1];
static unsigned nev, nhdr;
static int endstatus;
static uint8_t trace[NEV + 2];

int pt_config_from_user(struct pt_config *config, const struct pt_config *u)
{
	if (!config)
		return -pte_internal;
	if (!u)
		return -pte_invalid;
	*config = *u;
	return 0;
}

int pt_evt_decoder_init(struct pt_event_decoder *d,
			const struct pt_config *config)
{
	memset(d, 0, sizeof(*d));
	d->pacdec.config = *config;
	return 0;
}

void pt_evt_decoder_fini(struct pt_event_decoder *d)
{
	(void) d;
}

int pt_evt_sync_set(struct pt_event_decoder *d, uint64_t offset)
{
	ASSERT(offset == 0, "(harness) one synchronization point");
	d->pacdec.sync = trace;
	d->pacdec.pos = trace;
	d->status = 0;
	d->time.have_tsc = 1;
	d->time.tsc = TSC[0];
	return 0;
}

int pt_evt_sync_forward(struct pt_event_decoder *d)
{
	return pt_evt_sync_set(d, 0);
}

int pt_evt_sync_backward(struct pt_event_decoder *d)
{
	if (d->pacdec.pos == trace)
		return -pte_eos;
	return pt_evt_sync_set(d, 0);
}

int pt_evt_next(struct pt_event_decoder *d, struct pt_event *ev, size_t size)
{
	unsigned i, at;

	ASSERT(d && ev, "a decoder and an event");
	ASSERT(size == sizeof(*ev), "room for the event");
	at = (unsigned) d->status;
	for (i = 0; i < NEV; ++i)
		if (at == i && i < nev) {
			*ev = EV[i];
			d->status = (int) (i + 1);
			if (i >= nhdr)
				d->pacdec.pos = trace + i + 1;
			d->time.tsc = TSC[i];
			d->time.cbr = CBR[i];
			d->time.have_cbr = 1;
			return 0;
		}
	return endstatus;
}

int pt_evt_get_offset(const struct pt_event_decoder *d, uint64_t *offset)
{
	if (!d || !offset)
		return -pte_invalid;
	*offset = (uint64_t) (d->pacdec.pos - trace);
	return 0;
}

int pt_evt_get_sync_offset(const struct pt_event_decoder *d, uint64_t *offset)
{
	if (!d || !offset)
		return -pte_invalid;
	*offset = 0;
	return 0;
}

const struct pt_config *pt_evt_get_config(const struct pt_event_decoder *d)
{
	return d ? &d->pacdec.config : NULL;
}

/* --- the reference --- */

static uint64_t r_bits;			/* not yet consumed, oldest on top */
static unsigned r_nbits;
static unsigned r_at;			/* next event */
static unsigned r_last;			/* the event of the last answer */
static int r_time;			/* is it known? */

static int r_err(void)
{
	return r_at < nev ? 0 : endstatus;
}

static int r_is(enum pt_event_type t)
{
	unsigned i;

	for (i = 0; i < NEV; ++i)
		if (r_at == i && i < nev)
			return EV[i].type == t;
	return 0;
}

static int r_flags(void)
{
	if (r_nbits)
		return 0;
	if (r_err() == -pte_eos)
		return pts_eos;
	if (r_is(ptev_tnt) || r_is(ptev_tip))
		return 0;
	return pts_event_pending;
}

/* Move the branches of a TNT event. */
static int r_take(void)
{
	unsigned i;

	if (!r_is(ptev_tnt))
		return 0;
	for (i = 0; i < NEV; ++i)
		if (r_at == i) {
			unsigned n = EV[i].variant.tnt.size;

			if (r_nbits && 64 < r_nbits + n)
				return -pte_overflow;
			if (n) {
				r_bits <<= n;
				r_bits |= EV[i].variant.tnt.bits &
					((1ull << n) - 1);
				r_nbits += n;
			}
			r_last = i;
		}
	r_at += 1;
	return 1;
}

static struct pt_query_decoder dec;

static void op_cond(void)
{
	int taken = 77, status, exp;

	status = pt_qry_cond_branch(&dec, &taken);
	if (!r_nbits && !r_err() && r_is(ptev_tnt)) {
		(void) r_take();
		r_time = 1;
	} else if (!r_nbits)
		r_time = 0;

	if (!r_nbits) {
		exp = r_err() ? r_err() : -pte_bad_query;
		ASSERT(status == exp, "no conditional branch here");
		ASSERT(taken == 77, "nothing is reported with an error");
		return;
	}
	r_nbits -= 1;
	ASSERT(taken == (int) ((r_bits >> r_nbits) & 1),
	       "the next conditional branch");
	ASSERT(status == r_flags(), "what follows the branch");
}

static void op_indirect(void)
{
	uint64_t ip = 0x1234567, tip = 0;
	int status, exp = 0, supp = 0, t;
	unsigned i;

	status = pt_qry_indirect_branch(&dec, &ip);
	if (r_err())
		exp = r_err();
	else {
		t = r_take();
		if (t < 0)
			exp = t;
		else {
			if (t)
				r_time = 0;
			if (r_err())
				exp = r_err();
			else if (!r_is(ptev_tip))
				exp = -pte_bad_query;
		}
	}
	if (exp) {
		ASSERT(status == exp, "no indirect branch here");
		ASSERT(ip == 0x1234567, "nothing is reported with an error");
		return;
	}
	for (i = 0; i < NEV; ++i)
		if (r_at == i) {
			supp = EV[i].ip_suppressed;
			tip = EV[i].variant.tip.ip;
			r_last = i;
		}
	r_at += 1;
	r_time = 1;
	ASSERT(status == (r_flags() | (supp ? pts_ip_suppressed : 0)),
	       "what follows the branch");
	ASSERT(ip == (supp ? 0x1234567 : tip), "the target");
}

static void compare(const struct pt_event *a, const struct pt_event *b)
{
	ASSERT(a->type == b->type && a->ip_suppressed == b->ip_suppressed &&
	       a->status_update == b->status_update &&
	       a->has_tsc == b->has_tsc && a->tsc == b->tsc &&
	       a->lost_mtc == b->lost_mtc && a->lost_cyc == b->lost_cyc,
	       "the event");
	ASSERT(a->variant.enabled.ip == b->variant.enabled.ip,
	       "the event's payload");
}

static void op_event(void)
{
	struct pt_event ev;
	int status, exp = 0;
	unsigned i;

	memset(&ev, 0x55, sizeof(ev));
	status = pt_qry_event(&dec, &ev, sizeof(ev));
	if (r_nbits)
		exp = -pte_bad_query;
	else if (r_err())
		exp = r_err();
	else if (r_is(ptev_tnt) || r_is(ptev_tip))
		exp = -pte_bad_query;
	if (exp) {
		ASSERT(status == exp, "no event here");
		ASSERT(ev.lost_mtc == 0x55555555,
		       "nothing is reported with an error");
		return;
	}
	for (i = 0; i < NEV; ++i)
		if (r_at == i) {
			compare(&ev, &EV[i]);
			r_last = i;
		}
	r_at += 1;
	r_time = 1;
	ASSERT(status == r_flags(), "what follows the event");
}

static void op_time(void)
{
	uint64_t tsc, off;
	uint32_t mtc, cyc, cbr;
	unsigned i;
	int status;

	status = pt_qry_time(&dec, &tsc, &mtc, &cyc);
	if (r_time)
		for (i = 0; i < NEV; ++i)
			if (r_last == i)
				ASSERT(status == 0 && tsc == TSC[i],
				       "the time of the last answer");
	status = pt_qry_core_bus_ratio(&dec, &cbr);
	if (r_time)
		for (i = 0; i < NEV; ++i)
			if (r_last == i)
				ASSERT(status == 0 && cbr == CBR[i],
				       "the ratio of the last answer");
	ASSERT(pt_qry_get_offset(&dec, &off) == 0, "the position");
}

static void op_invalid(void)
{
	struct pt_event ev;
	uint64_t v;
	int taken;

	ASSERT(pt_qry_cond_branch(NULL, &taken) == -pte_invalid &&
	       pt_qry_cond_branch(&dec, NULL) == -pte_invalid &&
	       pt_qry_indirect_branch(NULL, &v) == -pte_invalid &&
	       pt_qry_indirect_branch(&dec, NULL) == -pte_invalid &&
	       pt_qry_event(NULL, &ev, sizeof(ev)) == -pte_invalid &&
	       pt_qry_event(&dec, NULL, sizeof(ev)) == -pte_invalid &&
	       pt_qry_event(&dec, &ev, 0) == -pte_invalid &&
	       pt_qry_event(&dec, &ev, offsetof(struct pt_event, variant) - 1)
	       == -pte_invalid,
	       "invalid arguments are refused");
}

static void mk_event(unsigned i, unsigned kind)
{
	struct pt_event *ev = &EV[i];

	memset(ev, 0, sizeof(*ev));
	ev->tsc = nd_u64();
	ev->lost_mtc = nd_u32();
	ev->lost_cyc = nd_u32();
	ev->has_tsc = nd_u8() & 1;
	ev->ip_suppressed = nd_u8() & 1;
	switch (kind) {
	case 0:
		ev->variant.tnt.bits = nd_u64();
		ev->variant.tnt.size = nd_u8() % (MAXTNT + 1);
		ev->type = ptev_tnt;
		break;
	case 1:
		ev->variant.tip.ip = nd_u64();
		ev->type = ptev_tip;
		break;
	case 2:
		ev->variant.enabled.ip = nd_u64();
		ev->type = ptev_enabled;
		break;
	default:
		ev->variant.enabled.ip = nd_u64();
		ev->type = (enum pt_event_type) (nd_u8() & 0x3f);
		if (ev->type == ptev_tnt || ev->type == ptev_tip ||
		    ev->type == ptev_enabled)
			ev->type = ptev_paging;
		break;
	}
	TSC[i] = nd_u64();
	CBR[i] = nd_u8();
}

void harness(void)
{
	struct pt_config config;
	uint64_t ip = 0x7654321, eip = 0x7654321;
	unsigned i, how;
	int status, exp;

	nev = nd_u8() % (NEV + 1);
	nhdr = nd_u8() & 3;
	if (nhdr > nev || nhdr > 2)
		nhdr = 0;
	for (i = 0; i < NEV; ++i) {
		unsigned kind = nd_u8() & 3;

		if (i < nhdr)
			kind |= 2;
		mk_event(i, kind);
		/* the PSB+ header comes first */
		EV[i].status_update = i < nhdr;
	}
	endstatus = -(int) (nd_u8() & 0x1f) - 1;

	memset(&config, 0, sizeof(config));
	config.size = sizeof(config);
	config.begin = trace;
	config.end = trace + sizeof(trace);
	status = pt_qry_decoder_init(&dec, &config);
	ASSERT(status == 0, "initialization");

	/* nothing before synchronization */
	{
		struct pt_event ev;
		int taken;

		ASSERT(pt_qry_cond_branch(&dec, &taken) == -pte_nosync &&
		       pt_qry_indirect_branch(&dec, &ip) == -pte_nosync &&
		       pt_qry_event(&dec, &ev, sizeof(ev)) == -pte_nosync,
		       "not synchronized");
	}

	/* the start: the IP is that of the enabled event in the header */
	exp = pts_ip_suppressed;
	for (i = NEV; i--; )
		if (i < nhdr && EV[i].type == ptev_enabled) {
			exp = 0;
			eip = EV[i].variant.enabled.ip;
		}
	if (nev <= nhdr && exp && endstatus != -pte_eos)
		exp = endstatus;
	else
		exp |= r_flags();

	how = nd_u8();
	if (how == 0)
		status = pt_qry_sync_forward(&dec, &ip);
	else
		status = pt_qry_sync_set(&dec, &ip, 0);
	ASSERT(status == exp, "the status at the start");
	ASSERT(ip == eip, "the IP at the start");
	if (status < 0)
		return;

	r_time = 0;
	for (i = 0; i < NOPS; ++i) {
		unsigned op = nd_u8() & 3;

#ifdef FIRST
		if (!i)
			op = FIRST;
#endif

		switch (op) {
		case 0: op_cond(); break;
		case 1: op_indirect(); break;
		case 2: op_event(); break;
		case 3: op_invalid(); break;
		}
		op_time();
	}
}
