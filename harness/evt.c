/* C13, C14: the events of short packet sequences.
 *
 * HEADER: packets between PSB and PSBEND;  PRE, TAIL: packets before and after
 * the enumerated ones;  T1LO..T1HI, T2LO..T2HI: kinds of the enumerated
 * packets.  All are concrete per case; every payload bit is symbolic.
 */
#include "evt.h"

#ifndef HEADER
#define HEADER FUP, EXEC,
#endif
#ifndef T1LO
#define T1LO PAD
#define T1HI NTOK
#endif
#ifndef T2LO
#define T2LO PAD
#define T2HI NTOK
#endif

static struct pt_event_decoder dec;

static uint64_t last;

static void start(void)
{
	struct pt_config config;
	int status;

	memset(&config, 0, sizeof(config));
	config.size = sizeof(config);
	config.begin = trace;
	config.end = trace + MAXP;
	config.errata = err;
	config.flags.variant.event.enable_iflags_events = opt_iflags;
	config.flags.variant.event.keep_tcal_on_ovf = opt_keeptcal;

	status = pt_evt_decoder_init(&dec, &config);
	ASSERT(status == 0, "initialization");
}

static void r_event(const struct rev *e)
{
	struct pt_event ev;
	uint64_t off;
	int status;

	status = pt_evt_next(&dec, &ev, sizeof(ev));
	ASSERT(status == 0, "every event is reported");
	r_compare(&ev, e);

	status = pt_evt_get_offset(&dec, &off);
	ASSERT(status == 0, "the position is known");
	ASSERT(last <= off && off <= nP, "the position moves forward");
	last = off;
}

static void expect_error(int status)
{
	struct pt_event ev;
	uint64_t off;

	ASSERT(status < 0, "nothing else is reported");
	ASSERT(status != -pte_internal, "no internal error");
	if (!R_anyerr)
		ASSERT(status == R_err, "the error that was met");
	status = pt_evt_get_offset(&dec, &off);
	ASSERT(status == 0 && off == R_errpos,
	       "errors are reported where they are met");

	if (R_errpos == nP) {
		status = pt_evt_next(&dec, &ev, sizeof(ev));
		ASSERT(status == R_err, "the end of the trace stays");
	}
}

/* The packets after those of the header. */
static void run_case(unsigned i)
{
	struct pt_event ev;
	int status;

	r_run(i, 1);
	if (R_unspec)
		return;
	status = pt_evt_next(&dec, &ev, sizeof(ev));
	expect_error(status);
}

#ifdef SYNC

/* A trace with three synchronization points. */
static const enum tok seq[] = { TIP0, PSB, FUP, EXEC, PSBEND, TNT8, TSC, PSB,
	TSC, PSBEND, CBR, PSB, FUP, SYNCTAIL };
static const unsigned psbs[] = { 1, 7, 11 };
#define NPSB 3

/* The decoder must be synchronized at @p. */
static void synced(unsigned p, int status)
{
	uint64_t off;
	unsigned i = p;

	ASSERT(pt_evt_get_sync_offset(&dec, &off) == 0 && off == p,
	       "the nearest synchronization point");
	r_reset();
	last = p;
	if (status == 0) {
		if (r_packet(&i) < 0)
			expect_error(pt_evt_next(&dec, &(struct pt_event) { 0 },
						 sizeof(struct pt_event)));
	} else {
		R_unspec = 1;
		ASSERT(r_packet(&i) < 0, "synchronization succeeds");
		R_unspec = 0;
		ASSERT(status == R_err, "the error in the PSB+ header");
	}
}

void harness(void)
{
	unsigned i, from, more, op, sel, c = 0;
	uint64_t off;
	int status;

	endstatus = -pte_eos;
	sel = nd_u8();
	for (i = 0; i < sizeof(seq) / sizeof(*seq); ++i)
		put(seq[i]);
	start();

	for (from = 0; from <= NPSB; ++from) {
		for (more = 0; more < 2; ++more) {
			for (op = 0; op < 2 + NPSB + 1; ++op) {
				unsigned pos = 0;

				if (sel != c++)
					continue;
				if (from) {
					struct pt_event ev;

					pos = psbs[from - 1];
					status = pt_evt_sync_set(&dec, pos);
					synced(pos, status);
					if (from == NPSB && (status < 0))
						more = 0;
					if (more) {
						/* leave the PSB+ */
						status = pt_evt_next(&dec, &ev,
							sizeof(ev));
						ASSERT(status == 0 || from ==
						       NPSB, "an event");
					}
				} else
					ASSERT(pt_evt_get_sync_offset(&dec,
						&off) == -pte_nosync,
						"not synchronized");

				if (op == 0) {
					status = pt_evt_sync_forward(&dec);
					if (from == NPSB)
						ASSERT(status == -pte_eos,
						       "no further PSB");
					else
						synced(psbs[from], status);
				} else if (op == 1) {
					unsigned to;

					/* the last PSB+ that was left */
					to = !from ? NPSB : more ? from
						: from - 1;
					if (from == NPSB && BADTAIL)
						CASE_END();
					status = pt_evt_sync_backward(&dec);
					if (!to)
						ASSERT(status == -pte_eos,
						       "no earlier PSB");
					else
						synced(psbs[to - 1], status);
				} else if (op < 2 + NPSB) {
					pos = psbs[op - 2];
					status = pt_evt_sync_set(&dec, pos);
					synced(pos, status);
				} else {
					status = pt_evt_sync_set(&dec, 0);
					ASSERT(status == -pte_nosync,
					       "no PSB there");
				}
				CASE_END();
			}
		}
	}
}

#else

void harness(void)
{
	static const enum tok header[] = { PSB, HEADER PSBEND };
#ifdef TAIL
	static const enum tok tail[] = { TAIL };
#endif
#ifdef T2SET
	static const enum tok t2set[] = { T2SET };
#endif
#ifdef PRE
	static const enum tok pre[] = { PRE };
#endif
#ifdef T1SET
	static const enum tok t1set[] = { T1SET };
#endif
	unsigned t1, t2, sel1, sel2, i, j, nh;
	int status;

	endstatus = -pte_eos;
#ifdef ENDSTATUS
	endstatus = ENDSTATUS;
#endif
#ifdef IFLAGS
	opt_iflags = 1;
#endif
#ifdef KEEPTCAL
	opt_keeptcal = 1;
#endif
#ifdef ERRATUM
	err.ERRATUM = 1;
#endif
#ifdef ERRATUM2
	err.ERRATUM2 = 1;
#endif
	sel1 = nd_u8();
	sel2 = nd_u8();

	start();
	nP = 0;
	for (i = 0; i < sizeof(header) / sizeof(*header); ++i)
		put(header[i]);
	nh = nP;
	status = pt_evt_sync_forward(&dec);
	ASSERT(status == 0, "synchronization");
	r_run(0, 0);

#ifdef T1SET
	for (j = 0; j < sizeof(t1set) / sizeof(*t1set); ++j) {
		t1 = t1set[j];
#else
	for (j = t1 = T1LO; t1 < T1HI; ++t1) {
#endif
		if (sel1 != t1)
			continue;
#ifdef T2SET
		for (i = 0; i < sizeof(t2set) / sizeof(*t2set); ++i) {
			t2 = t2set[i];
#else
		for (t2 = T2LO; t2 < T2HI; ++t2) {
#endif
			if (sel2 != t2)
				continue;
#ifdef PRE
			for (j = 0; j < sizeof(pre) / sizeof(*pre); ++j)
				put(pre[j]);
#endif
			put((enum tok) t1);
			put((enum tok) t2);
#ifdef TAIL
			for (i = 0; i < sizeof(tail) / sizeof(*tail); ++i)
				put(tail[i]);
#endif
			run_case(nh);
			CASE_END();
		}
	}
}

#endif
