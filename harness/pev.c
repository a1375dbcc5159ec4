/* C25: perf-event records.  C26: perf time conversion. */
#include "vf.h"
#include "pevent.h"
#include "intel-pt.h"

static struct pev_config cfg;

#ifdef TIME
typedef unsigned __int128 u128;

static void times(uint32_t mult, uint16_t shift, uint64_t t, uint64_t zero)
{
	uint64_t r = nd_u64(), d = t - zero;
	u128 n, p;
	int st;

	pev_config_init(&cfg);
	cfg.time_shift = shift;
	cfg.time_mult = mult;
	cfg.time_zero = zero;
#ifdef TO
	/* r = floor(d * 2^shift / mult), if it fits */
	st = pev_time_to_tsc(&r, t, &cfg);
	ASSERT(st == 0, "time to tsc");
	if (!t) {
		ASSERT(r == 0, "time zero is tsc zero");
		return;
	}
	n = (u128) d << shift;
	ASSUME((n >> 64) < mult);
	p = (u128) r * mult;
	ASSERT(p <= n && n - p < mult, "tsc is the rounded quotient");
	WITNESS("to tsc");
	(void) n;
#else
	st = pev_time_from_tsc(&r, t, &cfg);
	ASSERT(st == 0, "tsc to time");
	n = (u128) t * mult;
	p = (n >> shift);
	ASSUME(p >> 64 == 0);
	ASSERT(r == (uint64_t) p + zero, "time is the scaled tsc");
	WITNESS("from tsc");
#endif
}

#ifdef NARROW
/* Both directions with symbolic parameters of NARROW bits. */
void harness(void)
{
	uint32_t mult = nd_u32() & ((1u << NARROW) - 1);
	uint16_t shift = nd_u16() & 7;
	uint64_t t = nd_u64() & ((1ull << NARROW) - 1), zero = nd_u64();
	uint64_t t2 = nd_u64() & ((1ull << NARROW) - 1);
	uint64_t tsc = 0, tsc2 = 0, time = 0, back = 0, ref;
	int st;

	pev_config_init(&cfg);
	cfg.time_mult = mult;
	cfg.time_shift = shift;
	cfg.time_zero = zero;
	st = pev_time_from_tsc(&time, t, &cfg);
	if (!mult) {
		ASSERT(st == -pte_bad_config, "zero multiplier refused");
		if (zero != 5)
			ASSERT(pev_time_to_tsc(&tsc, 5, &cfg) ==
			       -pte_bad_config, "zero multiplier refused");
		return;
	}
	ASSERT(st == 0, "tsc to time");
	ref = (t * mult) >> shift;
	ASSERT(time == zero + ref, "time is the scaled tsc");
	if (time) {
		st = pev_time_to_tsc(&back, time, &cfg);
		ASSERT(st == 0, "time to tsc");
		ASSERT(back <= t, "rounding goes down");
		ASSERT((t - back) * mult < ((uint64_t) 1 << shift) + mult,
		       "forth and back within the rounding");
	}
	if (t2 <= t && zero + t2) {
		if (zero + t) {
			st = pev_time_to_tsc(&tsc, zero + t, &cfg);
			ASSERT(st == 0, "time to tsc");
			st = pev_time_to_tsc(&tsc2, zero + t2, &cfg);
			ASSERT(st == 0, "time to tsc");
			ASSERT(tsc2 <= tsc, "monotonic");
			WITNESS("two times");
		}
	}
}
#else
void harness(void)
{
	static const uint32_t mults[] = { MULTS };
	static const uint8_t shifts[] = { SHIFTS };
	uint64_t t = nd_u64(), zero = nd_u64();
	size_t m, s;

	if (nd_u8() & 1)
		zero = 0;
	for (m = 0; m < sizeof(mults) / sizeof(mults[0]); ++m)
		for (s = 0; s < sizeof(shifts); ++s)
			if (nd_u8()) {
				times(mults[m], shifts[s], t, zero);
				CASE_END();
			}
}
#endif
#endif

#ifdef CONFIG
void harness(void)
{
	uint64_t r = nd_u64(), r0 = r, t = nd_u64(), size = nd_u8();
	int st, ok;

	pev_config_init(&cfg);
	cfg.size = size;
	cfg.time_mult = nd_u8() & 3;
	cfg.time_shift = nd_u16();
	cfg.time_zero = nd_u64();
	ok = size >= offsetof(struct pev_config, time_zero) + 8 &&
	     cfg.time_mult && cfg.time_shift < 64;
	if (nd_u8() & 1) {
		st = pev_time_from_tsc(&r, t, &cfg);
	} else {
		ASSUME(t);
		st = pev_time_to_tsc(&r, t, &cfg);
	}
	if (ok) {
		ASSERT(st == 0, "usable parameters accepted");
		WITNESS("usable");
	} else {
		ASSERT(st == -pte_bad_config, "unusable parameters refused");
		ASSERT(r == r0, "result unchanged");
		WITNESS("unusable");
	}
	ASSERT(pev_time_to_tsc(NULL, t, &cfg) == -pte_internal, "no result");
	ASSERT(pev_time_to_tsc(&r, t, NULL) == -pte_internal, "no config");
	ASSERT(pev_time_from_tsc(NULL, t, &cfg) == -pte_internal, "no result");
	ASSERT(pev_time_from_tsc(&r, t, NULL) == -pte_internal, "no config");
}
#endif

#if defined(READ) || defined(WRITE)
#define F_TID 2
#define F_TIME 4
#define F_ID 64
#define F_CPU 128
#define F_STREAM 512
#define F_IDENT 65536
#define F_ALL (F_TID | F_TIME | F_ID | F_CPU | F_STREAM | F_IDENT)

static size_t samples_size(uint64_t st)
{
	return 8 * (!!(st & F_TID) + !!(st & F_TIME) + !!(st & F_ID) +
		    !!(st & F_CPU) + !!(st & F_STREAM) + !!(st & F_IDENT));
}

static uint64_t rd64(const uint8_t *p)
{
	uint64_t v = 0;
	int i;

	for (i = 7; i >= 0; --i)
		v = (v << 8) | p[i];
	return v;
}

/* The fixed part of each record (without header). */
static int fixed(uint32_t type)
{
	switch (type) {
	case PERF_RECORD_MMAP: return 32;
	case PERF_RECORD_LOST: return 16;
	case PERF_RECORD_COMM: return 8;
	case PERF_RECORD_EXIT: return 24;
	case PERF_RECORD_THROTTLE: return 24;
	case PERF_RECORD_UNTHROTTLE: return 24;
	case PERF_RECORD_FORK: return 24;
	case PERF_RECORD_MMAP2: return 64;
	case PERF_RECORD_AUX: return 24;
	case PERF_RECORD_ITRACE_START: return 8;
	case PERF_RECORD_LOST_SAMPLES: return 8;
	case PERF_RECORD_SWITCH: return 0;
	case PERF_RECORD_SWITCH_CPU_WIDE: return 8;
	}
	return -1;
}

static int has_string(uint32_t type)
{
	return type == PERF_RECORD_MMAP || type == PERF_RECORD_COMM ||
		type == PERF_RECORD_MMAP2;
}

static struct {
	struct pev_sample_config c;
	struct pev_sample_type t[2];
} sc;

static void config(uint64_t flags)
{
	pev_config_init(&cfg);
	cfg.sample_type = flags;
	/* trivial for the solver */
	cfg.time_mult = 2;
	cfg.time_shift = 3;
	cfg.time_zero = 0;
#ifdef IDENT
	memset(&sc, 0, sizeof(sc));
	sc.c.size = sizeof(sc);
	sc.c.nstypes = 2;
	cfg.sample_config = &sc.c;
#endif
}

static uint64_t ref_tsc(uint64_t time)
{
	return ((time >> 1) << 3) + (time & 1) * 4;
}
#endif

#ifdef READ
#ifndef PADDING
#define PADDING 16
#endif
static uint8_t buf[PADDING + N];

static void check_ptr(const void *p, size_t n, const uint8_t *begin, int size,
		      size_t off)
{
	ASSERT((const uint8_t *) p == begin + off, "field is where it is");
	ASSERT(off + n <= (size_t) size, "field lies inside the record");
}

void harness(void)
{
	struct pev_event ev;
	uint8_t *begin = buf + PADDING, *end;
	uint64_t flags;
	size_t n, i, hsize, strl, want, off;
	uint32_t type = TYPE;
	int size, fx;

	for (i = 0; i < N; ++i)
		begin[i] = nd_u8();
	n = nd_u8();
	ASSUME(n <= N);
	end = begin + n;
	/* the header's type is fixed per part, its size is not */
	begin[0] = (uint8_t) type;
	begin[1] = begin[2] = begin[3] = 0;
	flags = nd_u32() & F_ALL;
	config(flags);
	hsize = begin[6] | (begin[7] << 8);

	size = pev_read(&ev, begin, end, &cfg);

	if (n < 8 || hsize < 8 || hsize > n) {
		ASSERT(size < 0, "truncated record refused");
		return;
	}
	fx = fixed(type);
	if (fx < 0) {
		ASSERT(size == (int) hsize, "unknown record is skipped");
		ASSERT(ev.type == type, "type");
#ifdef UNKNOWN
		WITNESS("unknown");
#endif
		return;
	}
	strl = 0;
	if (has_string(type)) {
		int found = 0;

		for (i = 0; i < N; ++i) {
			if (8 + fx + i >= hsize)
				break;
			if (!begin[8 + fx + i]) {
				found = 1;
				break;
			}
		}
		if (!found) {
			ASSERT(size < 0, "unterminated string refused");
			return;
		}
		strl = (i + 1 + 7) & ~(size_t) 7;
	}
	want = 8 + fx + strl + samples_size(flags);
	if (want != hsize) {
		ASSERT(size < 0, "record of wrong size refused");
		return;
	}
#ifndef UNKNOWN
	WITNESS("record");
#endif
	ASSERT(size == (int) hsize, "well-formed record is read");
	ASSERT(ev.type == type, "type");
	ASSERT(ev.misc == (begin[4] | (begin[5] << 8)), "misc");
	if (type != PERF_RECORD_SWITCH)
		ASSERT((const uint8_t *) ev.record.mmap == begin + 8, "record");
	off = 8 + fx + strl;
	if (flags & F_TID) {
		check_ptr(ev.sample.pid, 4, begin, size, off);
		check_ptr(ev.sample.tid, 4, begin, size, off + 4);
		off += 8;
	} else
		ASSERT(!ev.sample.pid && !ev.sample.tid, "no tid");
	if (flags & F_TIME) {
		check_ptr(ev.sample.time, 8, begin, size, off);
		ASSERT(ev.sample.tsc == ref_tsc(rd64(begin + off)), "tsc");
		off += 8;
	} else
		ASSERT(!ev.sample.time, "no time");
	if (flags & F_ID) {
		check_ptr(ev.sample.id, 8, begin, size, off);
		off += 8;
	} else
		ASSERT(!ev.sample.id, "no id");
	if (flags & F_STREAM) {
		check_ptr(ev.sample.stream_id, 8, begin, size, off);
		off += 8;
	} else
		ASSERT(!ev.sample.stream_id, "no stream id");
	if (flags & F_CPU) {
		check_ptr(ev.sample.cpu, 4, begin, size, off);
		off += 8;
	} else
		ASSERT(!ev.sample.cpu, "no cpu");
	if (flags & F_IDENT) {
		check_ptr(ev.sample.identifier, 8, begin, size, off);
		off += 8;
	} else
		ASSERT(!ev.sample.identifier, "no identifier");
}
#endif

#ifdef WRITE
#define NBUF 152

#ifndef VF_REPLAY
size_t strnlen(const char *s, size_t n)
{
	size_t i;

	for (i = 0; i < n; ++i)
		if (!s[i])
			break;
	return i;
}
#endif

static uint8_t outmem[8 + NBUF + 8];
static uint8_t recmem[88] __attribute__((aligned(8)));
static uint32_t pid, tid, cpu;
static uint64_t time_, id, stream, ident;

static void one(uint32_t type, uint64_t flags)
{
	struct pev_event ev, rd;
	size_t i, n, slen = 0, want, strsz = 0;
	uint8_t *out = outmem + 8;
	int fx = fixed(type), size, got;

	pev_event_init(&ev);
	ev.type = type;
	ev.misc = nd_u16();
	for (i = 0; i < 88; ++i)
		if (i < (size_t) fx + 16)
			recmem[i] = nd_u8();
	if (has_string(type)) {
		/* a string of up to 9 characters */
		slen = SLEN;
		for (i = 0; i < slen; ++i)
			recmem[fx + i] = (uint8_t) ('a' + i);
		recmem[fx + slen] = 0;
		strsz = (slen + 1 + 7) & ~(size_t) 7;
	}
	ev.record.mmap = (const struct pev_record_mmap *) recmem;
	pid = nd_u32(); tid = nd_u32(); cpu = nd_u32();
	time_ = nd_u64(); id = nd_u64(); stream = nd_u64(); ident = nd_u64();
	if (flags & F_TID) {
		ev.sample.pid = &pid;
		ev.sample.tid = &tid;
	}
	if (flags & F_TIME)
		ev.sample.time = &time_;
	if (flags & F_ID)
		ev.sample.id = &id;
	if (flags & F_STREAM)
		ev.sample.stream_id = &stream;
	if (flags & F_CPU)
		ev.sample.cpu = &cpu;
	if (flags & F_IDENT)
		ev.sample.identifier = &ident;
	config(flags);
	memset(outmem, 0xcc, sizeof(outmem));
	want = 8 + fx + strsz + samples_size(flags);

	/* too small */
	if (nd_u8() & 1) {
		n = want - 1;
		size = pev_write(&ev, out, out + n, &cfg);
		ASSERT(size == -pte_eos, "no space is reported");
		for (i = 0; i < NBUF; ++i)
			ASSERT(i < n || out[i] == 0xcc, "write inside buffer");
		return;
	}
#ifdef MISMATCH
	cfg.sample_type = flags ^ MISMATCH;
	size = pev_write(&ev, out, out + want, &cfg);
	ASSERT(size < 0, "other sample type refused");
	for (i = want; i < NBUF; ++i)
		ASSERT(out[i] == 0xcc, "write inside buffer");
	return;
#endif
	size = pev_write(&ev, out, out + want, &cfg);
	ASSERT(size == (int) want, "size of the record");
	for (i = 0; i < 8; ++i)
		ASSERT(outmem[i] == 0xcc && out[NBUF + i] == 0xcc,
		       "nothing else written");
	for (i = want; i < NBUF; ++i)
		ASSERT(out[i] == 0xcc, "nothing written after the record");

	got = pev_read(&rd, out, out + want, &cfg);
	ASSERT(got == size, "read back");
	ASSERT(rd.type == type && rd.misc == ev.misc, "header");
	for (i = 0; i < (size_t) fx + strsz; ++i) {
		uint8_t v = ((const uint8_t *) rd.record.mmap)[i];

		if (i < fx + slen)
			ASSERT(v == recmem[i], "record contents");
		else
			ASSERT(v == 0, "string terminated and padded");
	}
	ASSERT(!(flags & F_TID) == !rd.sample.pid &&
	       !(flags & F_TID) == !rd.sample.tid &&
	       !(flags & F_TIME) == !rd.sample.time &&
	       !(flags & F_ID) == !rd.sample.id &&
	       !(flags & F_STREAM) == !rd.sample.stream_id &&
	       !(flags & F_CPU) == !rd.sample.cpu &&
	       !(flags & F_IDENT) == !rd.sample.identifier, "same samples");
	if (flags & F_TID)
		ASSERT(*rd.sample.pid == pid && *rd.sample.tid == tid, "tid");
	if (flags & F_TIME)
		ASSERT(*rd.sample.time == time_ &&
		       rd.sample.tsc == ref_tsc(time_), "time");
	if (flags & F_ID)
		ASSERT(*rd.sample.id == id, "id");
	if (flags & F_STREAM)
		ASSERT(*rd.sample.stream_id == stream, "stream");
	if (flags & F_CPU)
		ASSERT(*rd.sample.cpu == cpu, "cpu");
	if (flags & F_IDENT)
		ASSERT(*rd.sample.identifier == ident, "identifier");
	WITNESS("round trip");
}

void harness(void)
{
	static const uint8_t types[] = { TYPES };
	static const uint8_t combos[] = { COMBOS };
	size_t i, c;

	for (i = 0; i < sizeof(types); ++i)
		for (c = 0; c < sizeof(combos); ++c) {
			uint8_t k = combos[c];
			uint64_t f = (k & 1 ? F_TID : 0) | (k & 2 ? F_TIME : 0) |
				(k & 4 ? F_ID : 0) | (k & 8 ? F_CPU : 0) |
				(k & 16 ? F_STREAM : 0) |
				(k & 32 ? F_IDENT : 0);

			if (nd_u8()) {
				one(types[i], f);
				CASE_END();
			}
		}
}
#endif

#ifdef IDENTS
/* Which sample type applies to a record. */
static struct pev_sample_config *sc;

void harness(void)
{
	static uint8_t begin[48] __attribute__((aligned(8)));
	struct pev_event ev;
	uint64_t i0 = nd_u64(), i1 = nd_u64(), id = nd_u64(), ref, flags;
	uint8_t n = nd_u8();
	int size, hit = 0, want, k, got;

	ASSUME(n <= 2);
	sc = malloc(sizeof(*sc) + 2 * sizeof(sc->stypes[0]));
	ASSUME(sc != NULL);
	pev_config_init(&cfg);
	cfg.time_mult = 1;
	cfg.sample_type = nd_u8() & 1 ? 65536 : 65536 | 2;
	cfg.sample_config = nd_u8() & 1 ? sc : NULL;
	sc->nstypes = n;
	sc->stypes[0].identifier = i0;
	sc->stypes[0].sample_type = (nd_u8() & 1 ? 65536 : 0) |
		(nd_u8() & 1 ? 64 : 0);
	sc->stypes[1].identifier = i1;
	sc->stypes[1].sample_type = nd_u8() & 1 ? 65536 | 64 | 512 : 65536 | 128;
	size = 8 * (1 + SLOTS);
	begin[0] = PERF_RECORD_SWITCH;
	begin[6] = (uint8_t) size;
	if (SLOTS)
		for (k = 0; k < 8; ++k)
			begin[size - 8 + k] = (uint8_t) (id >> (8 * k));
	ref = cfg.sample_type;
	if (SLOTS && cfg.sample_config) {
		if (n > 0 && i0 == id) {
			ref = sc->stypes[0].sample_type;
			hit = 1;
		} else if (n > 1 && i1 == id) {
			ref = sc->stypes[1].sample_type;
			hit = 1;
		}
	}
	got = pev_read(&ev, begin, begin + 48, &cfg);

	if (hit && !(ref & 65536)) {
		ASSERT(got == -pte_bad_config, "no identifier in the samples");
		return;
	}
	want = 8;
	for (k = 0; k < 17; ++k)
		if (ref & (1ull << k))
			want += 8;
	if (want != size) {
		ASSERT(got < 0, "wrong size refused");
		return;
	}
	flags = ref;
	WITNESS("read");
	ASSERT(got == size, "read with the samples of its identifier");
	ASSERT((const uint8_t *) ev.sample.identifier == begin + size - 8,
	       "identifier");
	ASSERT(!(flags & 64) == !ev.sample.id &&
	       !(flags & 512) == !ev.sample.stream_id &&
	       !(flags & 128) == !ev.sample.cpu &&
	       !(flags & 2) == !ev.sample.pid, "samples of the identifier");
}
#endif
