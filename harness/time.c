/* C08: timing.  From an arbitrary timing state, STEPS packets; what the
 * interface reports is compared with a reference model of the estimation.
 */
#include "vf.h"
#include "pt_time.h"
#include "pt_packet.h"
#include "intel-pt.h"

#ifndef STEPS
#define STEPS 2
#endif

/* CPUID 15H ratios and MTC frequencies; concrete, one path per element. */
static const uint32_t eax_ebx[][2] = {
	{2, 210}, {0, 7}, {1, 3}, {2, 0}, {7, 84}
};
#define NRATIO (sizeof(eax_ebx) / sizeof(eax_ebx[0]))

struct model {
	uint64_t tsc, base, fc;
	uint32_t ctc, ctc_cyc, lost_mtc, lost_cyc, cbr;
	int have_tsc, have_cbr, have_tma, have_mtc;
};

static struct model M;
static struct pt_config cfg;
static uint32_t nbits;		/* CTC bits an MTC determines */

/* clock ticks -> TSC ticks */
static int ref_ticks(uint64_t *fc, uint32_t ctc)
{
	if (!cfg.cpuid_0x15_eax || !cfg.cpuid_0x15_ebx)
		return -pte_bad_config;
	*fc = ((uint64_t) ctc * cfg.cpuid_0x15_ebx) / cfg.cpuid_0x15_eax;
	return 0;
}

/* distance on the CTC circle; assumes at most one wrap-around. */
static int ref_delta(uint32_t *d, uint32_t now, uint32_t then)
{
	uint64_t n = now;

	if (now < then)
		n += (uint64_t) 1 << nbits;
	if (n < then)
		return -pte_bad_packet;
	*d = (uint32_t) (n - then);
	return 0;
}

static int ref_tma(uint16_t ctc, uint16_t fc)
{
	if (!M.have_tsc || M.have_tma)
		return -pte_bad_context;
	M.have_tma = 1;
	M.base -= fc;
	M.fc += fc;
	if (nbits <= 16)
		M.have_mtc = 1;
	M.ctc = M.ctc_cyc = (uint32_t) (ctc % (1ul << nbits));
	return 0;
}

static int ref_mtc(uint8_t payload)
{
	uint32_t ctc = (uint32_t) payload << cfg.mtc_freq, then, d;
	uint64_t add;
	int st, first;

	if (M.have_tsc && !M.have_tma)
		return 0;
	then = M.ctc;
	first = !M.have_mtc;
	if (M.fc || M.lost_cyc || first)
		M.ctc_cyc = ctc;
	M.have_mtc = 1;
	M.fc = 0;
	M.ctc = ctc;
	M.lost_cyc = 0;
	if (first) {
		uint32_t hi;

		if (!M.have_tma)
			return 0;
		/* the TMA gave the low 16 bits, guess the others */
		hi = ctc >> 16;
		if ((ctc & 0xffff) < then)
			hi = (hi - 1) & (((uint32_t) 0xff << cfg.mtc_freq)
					 >> 16);
		then += hi << 16;
	}
	st = ref_delta(&d, ctc, then);
	if (st < 0) {
		M.lost_mtc += 1;
		return st;
	}
	st = ref_ticks(&add, d);
	if (st < 0)
		return st;
	M.base += add;
	M.tsc = M.base;
	return 0;
}

static int ref_cyc(uint64_t cyc, uint64_t fcr)
{
	if (!fcr) {
		M.lost_cyc += 1;
		return 0;
	}
	if (!M.fc && M.ctc != M.ctc_cyc) {
		uint64_t before;
		uint32_t d;
		int st;

		st = ref_delta(&d, M.ctc, M.ctc_cyc);
		if (st < 0)
			return st;
		st = ref_ticks(&before, d);
		if (st < 0)
			return st;
		before = (before << 8) / fcr;
		cyc = cyc > before ? cyc - before : 0;
	}
	M.fc += (cyc * fcr) >> 8;
	M.tsc = M.base + M.fc;
	return 0;
}

/* What later packets build upon. */
static void check_state(const struct pt_time *t)
{
	if (M.have_tsc) {
		ASSERT(t->base == M.base, "base time");
		ASSERT(t->fc == M.fc, "fast counter since the base");
	}
	ASSERT(!t->have_tma == !M.have_tma, "TMA since the last TSC");
	ASSERT(!t->have_mtc == !M.have_mtc, "MTC since the last TSC");
	ASSERT(t->ctc == M.ctc, "CTC of the base");
	ASSERT(t->ctc_cyc == M.ctc_cyc, "CTC of the cycle counter");
	/* The invariant assumed of the start state. */
	ASSERT(M.ctc < (1u << nbits) && M.ctc_cyc < (1u << nbits), "CTC range");
	ASSERT(!M.have_tma || M.have_tsc, "TMA without TSC");
	ASSERT(!(M.have_tsc && !M.have_tma && M.have_mtc), "MTC before TMA");
	ASSERT(!(M.have_tma && !M.have_mtc && M.ctc > 0xffff), "TMA CTC");
	ASSERT(!(M.have_tma && nbits <= 16 && !M.have_mtc), "TMA as MTC");
}

static void check_query(const struct pt_time *t)
{
	uint64_t tsc = 0;
	uint32_t lm = 0, lc = 0, cbr = 0;
	int st;

	st = pt_time_query_tsc(&tsc, &lm, &lc, t);
	ASSERT(st == (M.have_tsc ? 0 : -pte_no_time), "TSC: status");
	ASSERT(tsc == M.tsc, "TSC: value");
	ASSERT(lm == M.lost_mtc, "TSC: lost MTC");
	ASSERT(lc == M.lost_cyc, "TSC: lost CYC");
	st = pt_time_query_cbr(&cbr, t);
	if (M.have_cbr) {
		ASSERT(st == 0, "CBR: status");
		ASSERT(cbr == M.cbr, "CBR: value");
	} else
		ASSERT(st == -pte_no_cbr, "CBR: no value");
}

static void start(struct pt_time *t)
{
	memset(t, 0, sizeof(*t));
#ifndef INIT
	M.tsc = nd_u64();
	M.base = nd_u64();
	M.fc = nd_u64();
	M.ctc = nd_u32();
	M.ctc_cyc = nd_u32();
	M.lost_mtc = nd_u32();
	M.lost_cyc = nd_u32();
	M.cbr = nd_u8();
	M.have_tsc = nd_u8() & 1;
	M.have_cbr = nd_u8() & 1;
	M.have_tma = nd_u8() & 1;
	M.have_mtc = nd_u8() & 1;
	/* What every packet sequence preserves. */
	ASSUME(M.ctc < (1u << nbits) && M.ctc_cyc < (1u << nbits));
	ASSUME(!M.have_tma || M.have_tsc);
	ASSUME(!(M.have_tsc && !M.have_tma && M.have_mtc));
	ASSUME(!(M.have_tma && !M.have_mtc && M.ctc > 0xffff));
	ASSUME(!(M.have_tma && nbits <= 16 && !M.have_mtc));
	t->tsc = M.tsc;
	t->base = M.base;
	t->fc = M.fc;
	t->ctc = M.ctc;
	t->ctc_cyc = M.ctc_cyc;
	t->lost_mtc = M.lost_mtc;
	t->lost_cyc = M.lost_cyc;
	t->cbr = (uint8_t) M.cbr;
	t->have_tsc = M.have_tsc;
	t->have_cbr = M.have_cbr;
	t->have_tma = M.have_tma;
	t->have_mtc = M.have_mtc;
#else
	pt_time_init(t);
#endif
}

static void step(struct pt_time *t, uint8_t op, uint64_t fcr)
{
	int st, rst;

	switch (op) {
	case 0: {
		static struct pt_packet_tsc p;
		p.tsc = nd_u64();

		p.tsc &= 0xffffffffffffffull;
		st = pt_time_update_tsc(t, &p, &cfg);
		M.tsc = M.base = p.tsc;
		M.fc = 0;
		M.ctc = 0;
		M.have_tsc = 1;
		M.have_tma = M.have_mtc = 0;
		M.lost_mtc = M.lost_cyc = 0;
		rst = 0;
		break;
	}
	case 1: {
		static struct pt_packet_cbr p;
		p.ratio = nd_u8();

		st = pt_time_update_cbr(t, &p, &cfg);
		rst = p.ratio ? 0 : -pte_bad_packet;
		if (p.ratio) {
			M.cbr = p.ratio;
			M.have_cbr = 1;
		}
		break;
	}
	case 2: {
		static struct pt_packet_tma p;

		p.ctc = nd_u16();
		p.fc = nd_u16() & 0x1ff;
		st = pt_time_update_tma(t, &p, &cfg);
		rst = ref_tma(p.ctc, p.fc);
		break;
	}
	case 3: {
		static struct pt_packet_mtc p;
		p.ctc = nd_u8();

		st = pt_time_update_mtc(t, &p, &cfg);
		rst = ref_mtc(p.ctc);
		break;
	}
	default: {
		static struct pt_packet_cyc p;
		p.value = nd_u64();

		st = pt_time_update_cyc(t, &p, &cfg, fcr);
		rst = ref_cyc(p.value, fcr);
		break;
	}
	}
	ASSERT(st == rst, "status of the update");
	check_query(t);
	check_state(t);
}

static void run(uint8_t op, uint64_t fcr)
{
	static struct pt_time t;

	memset(&M, 0, sizeof(M));
	start(&t);
	check_query(&t);
	step(&t, op, fcr);
	if (op >= 3)
		WITNESS("mtc or cyc");
	CASE_END();
}

#ifdef TIME
void harness(void)
{
	static const uint64_t fcrs[] = { FCRS };
	uint32_t c;
	uint8_t op;

	cfg.cpuid_0x15_eax = eax_ebx[RATIO][0];
	cfg.cpuid_0x15_ebx = eax_ebx[RATIO][1];
	cfg.mtc_freq = FREQ;
	nbits = FREQ + 8;
	for (op = 0; op < 4; ++op)
		if (nd_u8())
			run(op, 1);
	for (c = 0; c < sizeof(fcrs) / sizeof(fcrs[0]); ++c)
		if (nd_u8())
			run(4, fcrs[c]);
	{
		static struct pt_time t;

		pt_time_init(&t);
		check_query(&t);
		check_state(&t);
	}
}
#endif

#ifdef CAL
/* Calibration. */
struct cal {
	uint64_t fcr, min, max, tsc, cyc_tsc, cyc_mtc;
	uint32_t ctc;
	int have_mtc, check;
};
static struct cal C;

static void cal_set(uint64_t fcr)
{
	C.fcr = fcr;
	if (fcr < C.min)
		C.min = fcr;
	if (fcr > C.max)
		C.max = fcr;
}

static void cal_reset(void)
{
	memset(&C, 0, sizeof(C));
	C.min = UINT64_MAX;
}

static int cal_header_tsc(uint64_t tsc)
{
	uint64_t then = C.tsc, cyc = C.cyc_tsc, d;

	C.tsc = tsc;
	C.cyc_tsc = 0;
	if (!then || !cyc || C.have_mtc)
		return 0;
	d = tsc - then;
	if (tsc < then)
		d += 1ull << 56;
	cal_set((d << 8) / cyc);
	return 0;
}

static int cal_cbr(uint8_t ratio)
{
	if (!cfg.nom_freq)
		return 0;
	if (!ratio)
		return -pte_bad_packet;
	cal_set(((uint64_t) cfg.nom_freq << 8) / ratio);
	return 0;
}

static int cal_mtc(uint8_t payload)
{
	uint32_t ctc = (uint32_t) payload << cfg.mtc_freq, then = C.ctc, d;
	uint64_t cyc = C.cyc_mtc, fc;
	int st, check = C.check;

	C.check = 0;
	if (!C.have_mtc) {
		C.cyc_mtc = 0;
		C.ctc = ctc;
		C.have_mtc = 1;
		return 0;
	}
	if (!cyc)
		return 0;
	C.cyc_mtc = 0;
	C.ctc = ctc;
	st = ref_delta(&d, ctc, then);
	if (st < 0)
		return st;
	st = ref_ticks(&fc, d);
	if (st < 0)
		return st;
	if (check) {
		if (d > (1u << cfg.mtc_freq))
			return 0;
		if (cfg.mtc_freq < 10 && C.min <= C.max &&
		    ((C.fcr * (cyc + 0xf00)) >> 8) < fc)
			return 0;
	}
	cal_set((fc << 8) / cyc);
	return 0;
}

static void cal_query(const struct pt_time_cal *t)
{
	uint64_t fcr = 0;
	int st = pt_tcal_fcr(&fcr, t);

	if (C.min <= C.max) {
		ASSERT(st == 0, "calibration available");
		ASSERT(fcr == C.fcr, "calibration value");
	} else
		ASSERT(st == -pte_no_time, "no calibration yet");
}

static void cal_state(const struct pt_time_cal *t)
{
	ASSERT(t->tsc == C.tsc, "last TSC");
	ASSERT(t->cyc_tsc == C.cyc_tsc, "cycles since the last TSC");
	ASSERT(t->cyc_mtc == C.cyc_mtc, "cycles since the last MTC");
	ASSERT(!t->have_mtc == !C.have_mtc, "have MTC");
	ASSERT(!C.have_mtc || t->ctc == C.ctc, "last CTC");
	ASSERT(!t->check_skl168 == !C.check, "SKL168 to be checked");
	ASSERT(C.ctc < (1u << nbits), "CTC range");
}

static void cal_start(struct pt_time_cal *t, uint32_t cyc)
{
	memset(t, 0, sizeof(*t));
	memset(&C, 0, sizeof(C));
	C.fcr = nd_u16() & ((1u << FCRBITS) - 1);
	C.min = nd_u8() & 1 ? UINT64_MAX : C.fcr;
	C.max = C.min == UINT64_MAX ? 0 : C.fcr;
	C.tsc = nd_u64() & 0xffffffffffffffull;
	/* the divisors are kept small for the solver */
	C.cyc_tsc = C.cyc_mtc = cyc;
	C.ctc = nd_u32() & ((1u << nbits) - 1);
	C.have_mtc = nd_u8() & 1;
	C.check = nd_u8() & 1;
	t->fcr = C.fcr;
	t->min_fcr = C.min;
	t->max_fcr = C.max;
	t->tsc = C.tsc;
	t->cyc_tsc = C.cyc_tsc;
	t->cyc_mtc = C.cyc_mtc;
	t->ctc = C.ctc;
	t->have_mtc = C.have_mtc;
	t->check_skl168 = C.check;
}

static void cal_step(struct pt_time_cal *t, uint8_t op)
{
	int st = 0, rst = 0;

	switch (op) {
	case 0: case 2: {
		static struct pt_packet_tsc p;
		p.tsc = nd_u64() & 0xffffffffffffffull;

		if (op == 0) {
			st = pt_tcal_header_tsc(t, &p, &cfg);
			rst = cal_header_tsc(p.tsc);
		} else {
			st = pt_tcal_update_tsc(t, &p, &cfg);
			C.tsc = p.tsc;
			C.cyc_tsc = 0;
		}
		break;
	}
	case 3: case 4: {
		static struct pt_packet_cbr p;
		p.ratio = nd_u8();

		if (op == 4) {
			st = pt_tcal_header_cbr(t, &p, &cfg);
		} else {
			st = pt_tcal_update_cbr(t, &p, &cfg);
			cal_reset();
		}
		rst = cal_cbr(p.ratio);
		break;
	}
	case 1: {
		static struct pt_packet_mtc p;
		p.ctc = nd_u8();

		st = pt_tcal_update_mtc(t, &p, &cfg);
		rst = cal_mtc(p.ctc);
		break;
	}
	case 5: {
		static struct pt_packet_cyc p;
		p.value = nd_u64();

		st = pt_tcal_update_cyc(t, &p, &cfg);
		C.cyc_mtc += p.value;
		C.cyc_tsc += p.value;
		break;
	}
	case 6:
		st = pt_tcal_update_psb(t, &cfg);
		if (cfg.errata.skl168)
			C.check = 1;
		break;
	case 7:
		st = pt_tcal_update_ovf(t, &cfg);
		C.tsc = C.cyc_tsc = C.cyc_mtc = 0;
		C.ctc = 0;
		C.have_mtc = 0;
		break;
	case 8: {
		uint64_t fcr = nd_u16();

		st = pt_tcal_set_fcr(t, fcr);
		cal_set(fcr);
		break;
	}
	case 9:
		pt_tcal_init(t);
		cal_reset();
		break;
	default: {
		static struct pt_packet_tma p;

		p.ctc = nd_u16();
		p.fc = nd_u16() & 0x1ff;
		st = pt_tcal_update_tma(t, &p, &cfg);
		break;
	}
	}
	ASSERT(st == rst, "status of the calibration update");
	cal_query(t);
	cal_state(t);
	if (op == OP_LAST)
		WITNESS("calibration");
}

static void cal_run(uint8_t op, uint32_t cyc)
{
	static struct pt_time_cal t;

	cfg.nom_freq = 30 * (nd_u8() & 1);
	cfg.errata.skl168 = nd_u8() & 1;
	cal_start(&t, cyc);
	cal_query(&t);
	cal_step(&t, op);
	CASE_END();
}

void harness(void)
{
	static const uint32_t cycs[] = { CYCS };
	uint32_t c;
	uint8_t op;

	cfg.cpuid_0x15_eax = eax_ebx[RATIO][0];
	cfg.cpuid_0x15_ebx = eax_ebx[RATIO][1];
	cfg.mtc_freq = FREQ;
	nbits = FREQ + 8;
	for (op = OP_FIRST; op <= OP_LAST; ++op)
		for (c = 0; c < sizeof(cycs) / sizeof(cycs[0]); ++c)
			if (nd_u8())
				cal_run(op, cycs[c]);
}
#endif
