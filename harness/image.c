/* C18: images of sections against a byte-wise model.
 *
 * OPS is a list of operations, e.g. "AAR": see the switch below.  The section
 * layer is modelled: section k has symbolic contents.
 */
#include "vf.h"
#include "pt_image.h"
#include "pt_section.h"
#include "pt_mapped_section.h"
#include "pt_image_section_cache.h"
#include "pt_msec_cache.h"
#include "intel-pt.h"

#ifndef NSEC
#define NSEC 2
#endif
#ifndef WIN
#define WIN 6
#endif
#ifndef BASE
#define BASE 0x1000ull
#endif
#ifndef MAXSZ
#define MAXSZ WIN
#endif
#define SECMAX (MAXSZ)

static struct pt_section sec[NSEC];
static char fname[NSEC][2];
static uint8_t content[NSEC][SECMAX];
static int refs[NSEC], maps[NSEC];
static int nextsec, failed, secfail;

#ifdef FAULTS
static int faults_left = 1;
#endif

static int fails(void)
{
#ifdef FAULTS
	if (faults_left && (nd_u8() & 1)) {
		faults_left -= 1;
		failed = 1;
		return 1;
	}
#endif
	return 0;
}

void *vf_malloc(size_t n)
{
	void *p;

	if (fails())
		return NULL;
	p = malloc(n);
	ASSUME(p != NULL);
	return p;
}

void *vf_calloc(size_t n, size_t s)
{
	void *p = vf_malloc(n * s);

	if (p)
		memset(p, 0, n * s);
	return p;
}

static int idx(const struct pt_section *s)
{
	int i;

	for (i = 0; i < NSEC; ++i)
		if (s == &sec[i])
			return i;
	ASSERT(0, "a section of the test");
	return 0;
}

int pt_section_get(struct pt_section *s)
{
	if (fails())
		return -pte_overflow;
	refs[idx(s)] += 1;
	return 0;
}

int pt_section_put(struct pt_section *s)
{
	int i = idx(s);

	ASSERT(refs[i] > 0, "put of a held reference");
	refs[i] -= 1;
	return 0;
}

int pt_section_map(struct pt_section *s)
{
	if (fails()) {
		secfail = 1;
		return -pte_bad_image;
	}
	ASSERT(refs[idx(s)] > 0, "map while in use");
	maps[idx(s)] += 1;
	return 0;
}

int pt_section_unmap(struct pt_section *s)
{
	ASSERT(maps[idx(s)] > 0, "unmap of a mapped section");
	maps[idx(s)] -= 1;
	return 0;
}

uint64_t pt_section_size(const struct pt_section *s)
{
	return s ? sec[idx(s)].size : 0;
}

uint64_t pt_section_offset(const struct pt_section *s)
{
	return 0;
}

const char *pt_section_filename(const struct pt_section *s)
{
	return fname[idx(s)];
}

int pt_section_read(const struct pt_section *s, uint8_t *buffer,
		    uint16_t size, uint64_t offset)
{
	int i = idx(s), k;
	uint64_t n;

	ASSERT(maps[i] > 0, "read while mapped");
	if (sec[i].size <= offset)
		return -pte_nomap;
	n = sec[i].size - offset;
	if (n < size)
		size = (uint16_t) n;
	for (k = 0; k < SECMAX; ++k)
		if (k < size)
			buffer[k] = content[i][offset + k];
	return size;
}

int pt_mk_section(struct pt_section **ps, const char *filename,
		  uint64_t offset, uint64_t size)
{
	ASSERT(ps && filename == fname[nextsec], "section made as requested");
	ASSERT(offset == 17 && size == sec[nextsec].size,
	       "section range as requested");
	if (fails())
		return -pte_nomem;
	refs[nextsec] += 1;
	*ps = &sec[nextsec];
	return 0;
}

static struct pt_image_section_cache cache;
static uint64_t vaddr[NSEC];

int pt_iscache_lookup(struct pt_image_section_cache *c,
		      struct pt_section **ps, uint64_t *pv, int isid)
{
	ASSERT(c == &cache && isid == 100 + nextsec, "cache and identifier");
	if (fails())
		return -pte_bad_image;
	refs[nextsec] += 1;
	*ps = &sec[nextsec];
	*pv = vaddr[nextsec];
	return 0;
}

/* The model. */
struct model {
	uint8_t live[NSEC][WIN];
	int list[NSEC];		/* which identifiers this image gives */
};

static uint64_t cr3[NSEC], vmcs[NSEC];
static int isids[NSEC];
static struct model ma, mb;
static struct pt_image A, B;

static int match(uint64_t c, uint64_t v, int k)
{
	return (c == cr3[k] || c == pt_asid_no_cr3 || cr3[k] == pt_asid_no_cr3)
		&& (v == vmcs[k] || v == pt_asid_no_vmcs ||
		    vmcs[k] == pt_asid_no_vmcs);
}

static uint64_t nd_cr3(void)
{
	uint8_t c = nd_u8();

	ASSUME(c < 3);
	return c ? c : pt_asid_no_cr3;
}

static uint64_t nd_vmcs(void)
{
#ifdef VMCS
	uint8_t c = nd_u8();

	ASSUME(c < 3);
	return c ? c * 4096ull : pt_asid_no_vmcs;
#else
	return pt_asid_no_vmcs;
#endif
}

static int cbcalls;
static uint8_t cbval;
static int cbstatus;
static const struct pt_asid *cbasid;
static uint8_t *cbbuf;
static uint64_t cbaddr;
static uint16_t cbsize;

static int callback(uint8_t *buffer, size_t size, const struct pt_asid *a,
		    uint64_t ip, void *context)
{
	ASSERT(context == &cbval, "the callback's context");
	ASSERT(buffer == cbbuf && size == cbsize && a == cbasid && ip == cbaddr,
	       "the callback's arguments");
	cbcalls += 1;
	if (cbstatus > 0)
		buffer[0] = cbval;
	return cbstatus;
}

static void model_add(struct model *m, int k)
{
	int o, a;

	for (a = 0; a < WIN; ++a) {
		uint64_t x = BASE + a;

		if (!(x - vaddr[k] < sec[k].size))
			continue;
		for (o = 0; o < NSEC; ++o)
			if (o != k && match(cr3[o], vmcs[o], k))
				m->live[o][a] = 0;
		m->live[k][a] = 1;
	}
}

static void op_add(int k)
{
	struct pt_asid asid;
	int st, a;

	uint8_t o = nd_u8(), s = nd_u8();

	ASSUME(o < WIN && s >= 1 && s <= MAXSZ && o + s <= WIN);
#ifdef NESTED
	ASSUME(k ? s <= 2 : !o && s == WIN);
#endif
	vaddr[k] = BASE + o;
	sec[k].size = s;
#ifdef SAMEASID
	cr3[k] = k ? pt_asid_no_cr3 : 1;
#else
	cr3[k] = nd_cr3();
#endif
	vmcs[k] = nd_vmcs();
	pt_asid_init(&asid);
	asid.cr3 = cr3[k];
	asid.vmcs = vmcs[k];
	nextsec = k;
	failed = 0;
	if (k & 1) {
		isids[k] = 100 + k;
		st = pt_image_add_cached(&A, &cache, 100 + k, &asid);
	} else {
		isids[k] = 0;
		st = pt_image_add_file(&A, fname[k], 17, s, &asid, vaddr[k]);
	}
	if (st < 0) {
		ASSERT(failed, "sections can be added");
		return;
	}
	/* (a fault may be harmless) */
	ASSERT(st == 0, "section added");
	model_add(&ma, k);
	(void) a;
}

/* The pieces of a section: maximal runs of live bytes. */
static int pieces(const struct model *m, int k)
{
	int a, n = 0;

	for (a = 0; a < WIN; ++a)
		if (m->live[k][a] && (!a || !m->live[k][a - 1]))
			n += 1;
	return n;
}

static void op_remove_name(int f)
{
	struct pt_asid asid;
	uint64_t c = nd_cr3(), v = nd_vmcs();
	int k, a, n = 0, st;

	pt_asid_init(&asid);
	asid.cr3 = c;
	asid.vmcs = v;
	st = pt_image_remove_by_filename(&A, fname[f], &asid);
	for (k = 0; k < NSEC; ++k)
		if (fname[k][0] == fname[f][0] && match(c, v, k)) {
			n += pieces(&ma, k);
			for (a = 0; a < WIN; ++a)
				ma.live[k][a] = 0;
		}
	ASSERT(st == n, "number of sections removed by name");
}

static void op_remove_asid(void)
{
	struct pt_asid asid;
	uint64_t c = nd_cr3(), v = nd_vmcs();
	int k, a, n = 0, st;

	pt_asid_init(&asid);
	asid.cr3 = c;
	asid.vmcs = v;
	st = pt_image_remove_by_asid(&A, &asid);
	for (k = 0; k < NSEC; ++k)
		if (match(c, v, k)) {
			n += pieces(&ma, k);
			for (a = 0; a < WIN; ++a)
				ma.live[k][a] = 0;
		}
	ASSERT(st == n, "number of sections removed by address space");
}

static void op_remove(int k)
{
	struct pt_asid asid;
	int st, a, hit = 0;
	uint64_t v;

	pt_asid_init(&asid);
	asid.cr3 = cr3[k];
	asid.vmcs = vmcs[k];
	v = vaddr[k];
	st = pt_image_remove(&A, &sec[k], &asid, v);
	for (a = 0; a < WIN; ++a)
		if (BASE + a == v && ma.live[k][a])
			hit = 1;
	ASSERT(st == (hit ? 0 : -pte_bad_image), "remove by section");
	if (hit)
		for (a = 0; a < WIN; ++a)
			if (BASE + a >= v) {
				if (!ma.live[k][a])
					break;
				ma.live[k][a] = 0;
			}
}

static void op_copy(void)
{
	int st, k, a;

	failed = 0;
	st = pt_image_copy(&B, &A);
	ASSERT(st >= 0, "image copied");
	ASSERT(failed || !st, "copied completely");
	if (st) {
		CASE_END();
	}
	/* B was empty: it reads like A. */
	for (k = 0; k < NSEC; ++k)
		for (a = 0; a < WIN; ++a)
			mb.live[k][a] = ma.live[k][a];
}

static void op_read(struct pt_image *image, struct model *m, int withcb)
{
	static uint8_t buf[6], ref[6];
	struct pt_asid asid;
	uint8_t o = nd_u8(), size = nd_u8();
	int isid = -7, st, k, i, n = 0, hit = -1;
	uint64_t c = nd_u8(), v;

	ASSUME(o < WIN && size <= 4);
	ASSUME(1 <= c && c <= 3);
#ifdef VMCS
	v = nd_u8();
	ASSUME(1 <= v && v <= 3);
	v *= 4096ull;
#else
	v = 4096;
#endif
	pt_asid_init(&asid);
	asid.cr3 = c;
	asid.vmcs = v;

	for (i = 0; i < 6; ++i)
		buf[i] = ref[i] = 0xa5;
	if (withcb) {
		cbval = nd_u8();
		cbstatus = (int) (nd_u8() & 1) * 2 - 1;
		if (size < 1 && cbstatus > 0)
			cbstatus = 0;
		if (cbstatus < 0)
			cbstatus = -pte_nomap;
		cbbuf = buf;
		cbsize = size;
		cbasid = &asid;
		cbaddr = BASE + o;
		pt_image_set_callback(image, callback, &cbval);
	}
	cbcalls = 0;
	secfail = 0;

	st = pt_image_read(image, &isid, buf, size, &asid, BASE + o);

	for (k = 0; k < NSEC; ++k)
		for (i = 0; i < WIN; ++i)
			if (i == o && m->live[k][i] && match(c, v, k)) {
				ASSERT(hit < 0, "one section per address");
				hit = k;
			}
	if (secfail) {
		ASSERT(st == -pte_bad_image, "mapping error reported");
	} else if (hit >= 0) {
		ASSERT(st >= 0, "mapped address is readable");
		for (i = 0; i < WIN; ++i)
			if (i >= o && n < size) {
				if (!m->live[hit][i])
					break;
				ref[n] = content[hit][BASE + i - vaddr[hit]];
				n += 1;
			}
		ASSERT(st == n, "bytes up to the end of the section");
		ASSERT(isid == isids[hit], "the section's identifier");
		ASSERT(!cbcalls, "no callback for mapped memory");
	} else if (withcb) {
		ASSERT(cbcalls == 1 && st == cbstatus, "callback served it");
		ASSERT(isid == 0, "no identifier");
		if (cbstatus > 0)
			ref[0] = cbval;
	} else {
		ASSERT(st == -pte_nomap, "nothing mapped there");
	}
	for (i = 0; i < 6; ++i)
		ASSERT(buf[i] == ref[i], "bytes read");
	for (k = 0; k < NSEC; ++k)
		ASSERT(maps[k] == 0, "unmapped again");
}

static void op_find(struct pt_image *image, struct model *m)
{
	struct pt_mapped_section msec;
	struct pt_asid asid;
	uint8_t o = nd_u8(), p = nd_u8();
	uint64_t c = nd_u8(), v = 4096;
	int st, st2, i, k, hit = -1, before, id;

	ASSUME(o < WIN && p < WIN && 1 <= c && c <= 3);
	pt_asid_init(&asid);
	asid.cr3 = c;
	asid.vmcs = v;
	memset(&msec, 0, sizeof(msec));
	failed = 0;
	for (k = 0; k < NSEC; ++k)
		for (i = 0; i < WIN; ++i)
			if (i == o && m->live[k][i] && match(c, v, k))
				hit = k;
	before = hit >= 0 ? refs[hit] : 0;
	st = pt_image_find(image, &msec, &asid, BASE + o);
	if (hit < 0) {
		ASSERT(st == -pte_nomap, "nothing found");
		return;
	}
	if (st < 0) {
		ASSERT(failed, "found");
		return;
	}
	ASSERT(st == isids[hit], "found: identifier");
	ASSERT(msec.section == &sec[hit], "found: section");
	ASSERT(refs[hit] == before + 1, "found: a reference");
	ASSERT(msec.asid.cr3 == cr3[hit] && msec.asid.vmcs == vmcs[hit],
	       "found: address space");
	/* The piece that contains the address. */
	{
		uint64_t b = o, e = o;

		for (i = WIN - 1; i >= 0; --i)
			if ((uint64_t) i + 1 == b && m->live[hit][i])
				b = i;
		for (i = 0; i < WIN; ++i)
			if ((uint64_t) i == e && m->live[hit][i])
				e = i + 1;
		ASSERT(msec.vaddr == BASE + b && msec.size == e - b &&
		       msec.offset == BASE + b - vaddr[hit], "found: piece");
		id = st;
		if (nd_u8() & 1) {
			id = nd_int();
			ASSUME(id != st);
		}
		st2 = pt_image_validate(image, &msec, BASE + p, id);
		if (id != st || p < b || p >= e)
			ASSERT(st2 == -pte_nomap, "wrong section is not valid");
		else
			ASSERT(st2 == 0, "just found is valid");
	}
	pt_section_put(&sec[hit]);
}

#ifdef MSEC
/* C21: the decoder's section cache, used like the decoders do. */
static struct pt_msec_cache mc;
static uint64_t curcr3;

static void op_switch(void)
{
	uint64_t c = nd_u8();

	ASSUME(c >= 1 && c <= 3);
	curcr3 = c;
	failed = 0;
	ASSERT(pt_msec_cache_invalidate(&mc) == 0, "cache invalidated");
	ASSERT(!maps[0] && !maps[NSEC - 1], "released when invalidated");
}

static void op_query(struct pt_image *image, struct model *m)
{
	const struct pt_mapped_section *msec = NULL;
	struct pt_asid asid;
	uint8_t o = nd_u8();
	int st, i, k, hit = -1;

	ASSUME(o < WIN);
	pt_asid_init(&asid);
	asid.cr3 = curcr3;
	asid.vmcs = 4096;
	for (k = 0; k < NSEC; ++k)
		for (i = 0; i < WIN; ++i)
			if (i == o && m->live[k][i] &&
			    match(curcr3, 4096, k))
				hit = k;
	failed = 0;
	secfail = 0;
	st = pt_msec_cache_read(&mc, &msec, image, BASE + o);
	if (st == -pte_nomap)
		st = pt_msec_cache_fill(&mc, &msec, image, &asid, BASE + o);
	if (st < 0) {
		ASSERT(hit < 0 ? st == -pte_nomap : failed,
		       "no section for a reason");
		for (k = 0; k < NSEC; ++k)
			ASSERT(!maps[k], "nothing mapped on errors");
		return;
	}
	ASSERT(hit >= 0 && st == isids[hit], "the mapped section's identifier");
	ASSERT(msec->section == &sec[hit], "the section mapped there");
	for (k = 0; k < NSEC; ++k)
		ASSERT(maps[k] == (k == hit), "cached section is mapped");
	ASSERT(refs[hit] > 0, "cached section is referenced");
	ASSERT(msec->asid.cr3 == cr3[hit], "address space");
	for (i = 0; i < WIN; ++i) {
		uint64_t v = BASE + i;

		if (i == o)
			ASSERT(v - msec->vaddr < msec->size &&
			       msec->offset + (v - msec->vaddr) ==
			       v - vaddr[hit], "covers the address");
		if (v - msec->vaddr < msec->size)
			ASSERT(m->live[hit][i], "only what is mapped");
	}
}
#endif

void harness(void)
{
	static const char ops[] = OPS;
	unsigned i;
	int k, added = 0;

	for (k = 0; k < NSEC; ++k) {
		for (i = 0; i < SECMAX; ++i)
			content[k][i] = nd_u8();
		fname[k][0] = 'a' + (k & 1);
	}
#ifdef MSEC
	pt_msec_cache_init(&mc);
	curcr3 = 1;
#endif
	pt_image_init(&A, NULL);
	pt_image_init(&B, NULL);
	for (i = 0; i < sizeof(ops) - 1; ++i) {
		switch (ops[i]) {
		case 'A': op_add(added); added += 1; break;
		case 'n': op_remove_name(0); break;
		case 's': op_remove_asid(); break;
		case 'x': op_remove(0); break;
		case 'C': op_copy(); break;
		case 'r': op_read(&A, &ma, 0); break;
		case 'c': op_read(&A, &ma, 1); break;
		case 'R': op_read(&B, &mb, 0); break;
		case 'f': op_find(&A, &ma); break;
#ifdef MSEC
		case 'w': op_switch(); break;
		case 'q': op_query(&A, &ma); break;
		case 'Q': op_query(&B, &mb); break;
#endif
		}
	}
	WITNESS("sequence");
#ifdef MSEC
	pt_msec_cache_fini(&mc);
	for (k = 0; k < NSEC; ++k)
		ASSERT(!maps[k], "unmapped in the end");
#endif
	pt_image_fini(&A);
	pt_image_fini(&B);
	for (k = 0; k < NSEC; ++k)
		ASSERT(refs[k] == 0, "references dropped");
}
