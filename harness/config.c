/* C09: configurations, filters, errata.  C10: address-space identifiers. */
#include "vf.h"
#include "pt_config.h"
#include "pt_cpu.h"
#include "pt_asid.h"
#include "intel-pt.h"

#ifdef CONFIG
static const uint16_t sizes[] = { SIZES };
#define NSIZES (sizeof(sizes) / sizeof(sizes[0]))

/* The fields of the reference configuration, as offset and size. */
#define KNOWN sizeof(struct pt_config)

static struct {
	uint64_t before;
	struct pt_config config;
	uint64_t after;
} out;

static void one(size_t size)
{
	static struct pt_config full;
	struct pt_config *u = &full;
	uint8_t *user = (uint8_t *) &full;
	uint8_t *begin, *end;
	static uint8_t trace[16];
	uint8_t bb, be;
	size_t i;
	int st, usable;

#ifdef EXACT
	/* Exactly the caller's bytes (at least the size field). */
	user = malloc(size < sizeof(size_t) ? sizeof(size_t) : size);
	ASSUME(user != NULL);
	u = (struct pt_config *) user;
#endif
	bb = nd_u8();
	be = nd_u8();
	ASSUME(bb <= 17 && be <= 17);
	begin = bb == 17 ? NULL : trace + bb;
	end = be == 17 ? NULL : trace + be;
	u->size = size;
#ifdef EXACT
	if (size >= 16)
		u->begin = begin;
	if (size >= 24)
		u->end = end;
#else
	u->begin = begin;
	u->end = end;
	/* Trailing garbage beyond the size must not be read. */
	u->cpu.vendor = nd_u8() ? pcv_intel : pcv_unknown;
	u->cpu.family = nd_u16();
	u->cpu.model = nd_u8();
	u->cpu.stepping = nd_u8();
	u->errata.bdm70 = nd_u8() & 1;
	u->errata.skz84 = nd_u8() & 1;
	u->errata.skl168 = nd_u8() & 1;
	u->errata.reserved[14] = nd_u32();
	u->cpuid_0x15_eax = nd_u32();
	u->cpuid_0x15_ebx = nd_u32();
	u->mtc_freq = nd_u8();
	u->nom_freq = nd_u8();
	u->flags.variant.reserved[0] = nd_u32();
	u->flags.variant.reserved[3] = nd_u32();
	u->addr_filter.config.addr_cfg = nd_u64();
	u->addr_filter.addr0_a = nd_u64();
	u->addr_filter.addr0_b = nd_u64();
	u->addr_filter.addr3_b = nd_u64();
	u->addr_filter.reserved[7] = nd_u64();
#endif
	memset(&out, 0xcc, sizeof(out));

	st = pt_config_from_user(&out.config, u);

	usable = size >= 3 * sizeof(void *) && bb < 17 && be < 17 && bb <= be;
	ASSERT(out.before == 0xccccccccccccccccull &&
	       out.after == 0xccccccccccccccccull, "nothing else written");
	if (!usable) {
		ASSERT(st == -pte_bad_config, "unusable configuration refused");
	} else {
		WITNESS("accepted");
		ASSERT(st == 0, "usable configuration accepted");
		ASSERT(out.config.begin == begin && out.config.end == end,
		       "buffer");
		ASSERT(out.config.size == (size < KNOWN ? size : KNOWN),
		       "size of what was given");
#ifndef EXACT
		/* the fields the size includes are copied, others zero */
#define F(f)								\
		ASSERT(out.config.f == (size >= offsetof(struct pt_config, f) + \
			sizeof(u->f) ? u->f : 0),			\
			"given fields are copied, missing ones zero: " #f)
#define B(f, o, n)							\
		ASSERT(out.config.f == (size >= offsetof(struct pt_config, o) + n \
			? u->f : 0),					\
			"given fields are copied, missing ones zero: " #f)
		F(cpu.vendor); F(cpu.family); F(cpu.model); F(cpu.stepping);
		B(errata.bdm70, errata, 4); B(errata.skz84, errata, 4);
		B(errata.skl168, errata, 4); F(errata.reserved[14]);
		F(cpuid_0x15_eax); F(cpuid_0x15_ebx); F(mtc_freq); F(nom_freq);
		F(flags.variant.reserved[0]); F(flags.variant.reserved[3]);
		F(addr_filter.config.addr_cfg);
		F(addr_filter.addr0_a); F(addr_filter.addr0_b);
		F(addr_filter.addr3_b); F(addr_filter.reserved[7]);
#endif
	}
	(void) i; (void) user;
	CASE_END();
}

void harness(void)
{
	size_t n;

	ASSERT(pt_config_from_user(NULL, NULL) == -pte_internal, "no config");
	{
		struct pt_config c;
		ASSERT(pt_config_from_user(&c, NULL) == -pte_invalid,
		       "no user config");
	}
	for (n = 0; n < NSIZES; ++n)
		if (nd_u8())
			one(sizes[n]);

}
#endif

#ifdef FILTER
void harness(void)
{
	struct pt_conf_addr_filter f;
	uint64_t ip = nd_u64(), a[4], b[4];
	uint16_t cfg = nd_u16();
	int st, ref = 1, any = 0, hit = 0, stop = 0, i;

	memset(&f, 0, sizeof(f));
	for (i = 0; i < 4; ++i) {
		a[i] = nd_u64();
		b[i] = nd_u64();
	}
	f.config.ctl.addr0_cfg = cfg & 15;
	f.config.ctl.addr1_cfg = (cfg >> 4) & 15;
	f.config.ctl.addr2_cfg = (cfg >> 8) & 15;
	f.config.ctl.addr3_cfg = (cfg >> 12) & 15;
	f.addr0_a = a[0]; f.addr0_b = b[0];
	f.addr1_a = a[1]; f.addr1_b = b[1];
	f.addr2_a = a[2]; f.addr2_b = b[2];
	f.addr3_a = a[3]; f.addr3_b = b[3];
	for (i = 0; i < 4; ++i) {
		int c = (cfg >> (4 * i)) & 15, in = a[i] <= ip && ip <= b[i];

		ASSERT(pt_filter_addr_cfg(&f, i) == (uint32_t) c, "cfg");
		ASSERT(pt_filter_addr_a(&f, i) == a[i], "A");
		ASSERT(pt_filter_addr_b(&f, i) == b[i], "B");
		if (c == 1) {
			any = 1;
			hit |= in;
		} else if (c == 2)
			stop |= in;
	}
	if (stop)
		ref = 0;
	else if (any)
		ref = hit;
	st = pt_filter_addr_check(&f, ip);
	ASSERT(st >= 0, "filter check succeeds");
	ASSERT((st > 0) == ref, "address is filtered as configured");
	if (ref)
		WITNESS("in filter");
	else
		WITNESS("out of filter");
	ASSERT(pt_filter_addr_cfg(NULL, 0) == 0 &&
	       pt_filter_addr_a(NULL, 0) == 0 &&
	       pt_filter_addr_b(NULL, 0) == 0, "no filter");
	{
		uint64_t n = nd_u64();

		ASSUME(n >= 8);
		ASSERT(pt_filter_addr_cfg(&f, n) == 0 &&
		       pt_filter_addr_a(&f, n) == 0 &&
		       pt_filter_addr_b(&f, n) == 0, "no such filter");
	}
}
#endif

#ifdef ERRATA
enum {
	BDM70 = 1, BDM64 = 2, SKD007 = 4, SKD022 = 8, SKD010 = 16, SKL014 = 32,
	APL12 = 64, APL11 = 128, SKL168 = 256, SKZ84 = 512
};

static const struct { uint16_t family; uint8_t model; uint16_t errata; } tab[] = {
	/* Broadwell */
	{6, 0x3d, BDM70 | BDM64}, {6, 0x47, BDM70 | BDM64},
	{6, 0x4f, BDM70 | BDM64}, {6, 0x56, BDM70 | BDM64},
	/* Skylake client */
#define SKL (BDM70 | SKD007 | SKD022 | SKD010 | SKL014 | SKL168)
	{6, 0x4e, SKL}, {6, 0x5e, SKL}, {6, 0x8e, SKL}, {6, 0x9e, SKL},
	{6, 0xa5, SKL}, {6, 0xa6, SKL},
	/* Skylake, Ice Lake server */
#define SKX (BDM70 | SKL014 | SKD022 | SKZ84)
	{6, 0x55, SKX}, {6, 0x6a, SKX}, {6, 0x6c, SKX},
#define SPR (BDM70 | SKD022 | SKZ84)
	{6, 0x8f, SPR}, {6, 0xcf, SPR}, {6, 0xad, SPR}, {6, 0xae, SPR},
	{0x13, 0x01, SPR},
	/* Cannon, Ice, Tiger, Rocket Lake */
#define ICL (BDM70 | SKL014 | SKD022)
	{6, 0x66, ICL}, {6, 0x7d, ICL}, {6, 0x7e, ICL}, {6, 0x8c, ICL},
	{6, 0x8d, ICL}, {6, 0xa7, ICL}, {6, 0xa8, ICL},
	/* Hybrids */
#define ADL (BDM70 | SKD022 | APL11)
	{6, 0x97, ADL}, {6, 0x9a, ADL}, {6, 0xba, ADL}, {6, 0xb7, ADL},
	{6, 0xbf, ADL}, {6, 0xc5, ADL}, {6, 0xc6, ADL}, {6, 0xb5, ADL},
	{6, 0xaa, ADL}, {6, 0xac, ADL}, {6, 0xbd, ADL}, {6, 0xcc, ADL},
	/* Goldmont and successors */
	{6, 0x5c, APL12 | APL11}, {6, 0x5f, APL12 | APL11},
	{6, 0x7a, APL11}, {6, 0x86, APL11}, {6, 0x96, APL11}, {6, 0x9c, APL11},
	{6, 0xb6, APL11}, {6, 0xaf, APL11}, {6, 0xdd, APL11},
};

void harness(void)
{
	struct pt_cpu cpu;
	struct pt_errata e;
	uint16_t ref = 0;
	size_t i;
	int known = 0, st;

	memset(&cpu, 0, sizeof(cpu));
	cpu.vendor = nd_u8() ? pcv_intel : pcv_unknown;
	cpu.family = nd_u16();
	cpu.model = nd_u8();
	cpu.stepping = nd_u8();
	memset(&e, 0xff, sizeof(e));
	if (cpu.vendor == pcv_intel)
		for (i = 0; i < sizeof(tab) / sizeof(tab[0]); ++i)
			if (tab[i].family == cpu.family &&
			    tab[i].model == cpu.model) {
				known = 1;
				ref = tab[i].errata;
			}
	st = pt_cpu_errata(&e, &cpu);
	ASSERT(known ? st >= 0 : st == -pte_bad_cpu, "unknown cpu is reported");
	ASSERT(e.bdm70 == !!(ref & BDM70), "bdm70");
	ASSERT(e.bdm64 == !!(ref & BDM64), "bdm64");
	ASSERT(e.skd007 == !!(ref & SKD007), "skd007");
	ASSERT(e.skd022 == !!(ref & SKD022), "skd022");
	ASSERT(e.skd010 == !!(ref & SKD010), "skd010");
	ASSERT(e.skl014 == !!(ref & SKL014), "skl014");
	ASSERT(e.apl12 == !!(ref & APL12), "apl12");
	ASSERT(e.apl11 == !!(ref & APL11), "apl11");
	ASSERT(e.skl168 == !!(ref & SKL168), "skl168");
	ASSERT(e.skz84 == !!(ref & SKZ84), "skz84");
	for (i = 0; i < 15; ++i)
		ASSERT(e.reserved[i] == 0, "reserved errata");
	if (known)
		WITNESS("known cpu");
	ASSERT(pt_cpu_errata(NULL, &cpu) == -pte_invalid, "no errata");
	ASSERT(pt_cpu_errata(&e, NULL) == -pte_invalid, "no cpu");
}
#endif

#ifdef ASID
static void from(size_t size)
{
	size_t alloc = size < 8 ? 8 : size;
	uint8_t *mem = malloc(alloc);
	struct pt_asid *user = (struct pt_asid *) mem;
	struct { struct pt_asid a; uint8_t after[8]; } out;
	uint64_t cr3 = nd_u64(), vmcs = nd_u64();
	size_t i;
	int st;

	ASSUME(mem != NULL);
	for (i = 0; i < alloc; ++i)
		mem[i] = nd_u8();
	user->size = size;
	if (size >= 16)
		memcpy(mem + 8, &cr3, 8);
	if (size >= 24)
		memcpy(mem + 16, &vmcs, 8);
	memset(&out, 0xcc, sizeof(out));
	st = pt_asid_from_user(&out.a, user);
	ASSERT(st == 0, "from user");
	ASSERT(out.a.size == sizeof(struct pt_asid), "own size");
	ASSERT(out.a.cr3 == (size >= 16 ? cr3 : pt_asid_no_cr3), "cr3");
	ASSERT(out.a.vmcs == (size >= 24 ? vmcs : pt_asid_no_vmcs), "vmcs");
	for (i = 0; i < 8; ++i)
		ASSERT(out.after[i] == 0xcc, "nothing else written");
	WITNESS("from user");
	CASE_END();
}

static void to(size_t size)
{
	struct { uint8_t m[48]; } out;
	struct pt_asid *user = malloc(size < 8 ? 8 : size), a;
	size_t i, have = size < 24 ? size : 24;
	int st;

	ASSUME(user != NULL);
	memset(user, 0xcc, size < 8 ? 8 : size);
	pt_asid_init(&a);
	ASSERT(a.size == sizeof(a) && a.cr3 == pt_asid_no_cr3 &&
	       a.vmcs == pt_asid_no_vmcs, "init is unspecified");
	a.cr3 = nd_u64();
	a.vmcs = nd_u64();
	st = pt_asid_to_user(user, &a, size);
	if (size < 8) {
		ASSERT(st == -pte_invalid, "no room for the size");
	} else {
		ASSERT(st == 0, "to user");
		ASSERT(user->size == have, "size given back");
		if (size >= 16)
			ASSERT(user->cr3 == a.cr3, "cr3");
		if (size >= 24)
			ASSERT(user->vmcs == a.vmcs, "vmcs");
		for (i = have; i < size; ++i)
			ASSERT(((uint8_t *) user)[i] == 0xcc,
			       "nothing else written");
		WITNESS("to user");
	}
	(void) out;
	CASE_END();
}

void harness(void)
{
	static const uint8_t sizes[] = { 0, 1, 7, 8, 16, 24, 25, 40 };
	size_t n;

	for (n = 0; n < sizeof(sizes); ++n) {
		if (nd_u8())
			from(sizes[n]);
		if (nd_u8())
			to(sizes[n]);
	}
	{
		struct pt_asid l, r;
		int st, ref;

		pt_asid_init(&l);
		pt_asid_init(&r);
		if (nd_u8() & 1)
			l.cr3 = nd_u64();
		if (nd_u8() & 1)
			r.cr3 = nd_u64();
		if (nd_u8() & 1)
			l.vmcs = nd_u64();
		if (nd_u8() & 1)
			r.vmcs = nd_u64();
		ref = (l.cr3 == r.cr3 || l.cr3 == ~0ull || r.cr3 == ~0ull) &&
		      (l.vmcs == r.vmcs || l.vmcs == ~0ull || r.vmcs == ~0ull);
		st = pt_asid_match(&l, &r);
		ASSERT(st >= 0, "match succeeds");
		ASSERT((st > 0) == ref, "match");
		ASSERT(pt_asid_match(NULL, &r) < 0 && pt_asid_match(&l, NULL) < 0,
		       "no asid");
		if (ref)
			WITNESS("match");
		else
			WITNESS("no match");
		ASSERT(pt_asid_from_user(NULL, &r) == -pte_internal, "no asid");
		ASSERT(pt_asid_to_user(NULL, &r, 24) == -pte_internal, "no user");
		st = pt_asid_from_user(&l, NULL);
		ASSERT(st == 0 && l.size == 24 && l.cr3 == ~0ull &&
		       l.vmcs == ~0ull, "no user: unspecified");
	}
}
#endif
