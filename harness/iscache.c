/* C20: the image section cache against a model; the sections are modelled. */
#define mtx_init vf_mtx_init
#define mtx_lock vf_mtx_lock
#define mtx_unlock vf_mtx_unlock
#define mtx_destroy vf_mtx_destroy
#include "vf.h"
#include <threads.h>
#include "pt_section.h"
#include "pt_image_section_cache.h"
#include "intel-pt.h"

#ifndef NSEC
#define NSEC 3
#endif
#define MAXID 4

static struct pt_section pool[NSEC];
static uint8_t sfile[NSEC];
static int ucount[NSEC], acount[NSEC], mcount[NSEC], umaps[NSEC];
static uint64_t msize[NSEC];
static int nsec, faulty, failed, blocks, held, live;
static uint64_t fsize[2];
static char fname[2][2] = { "a", "b" };
static struct pt_image_section_cache *C;

static int fails(void)
{
	if (faulty > 0 && (nd_u8() & 1)) {
		failed = 1;
		faulty -= 1;
		return 1;
	}
	return 0;
}

void *vf_malloc(size_t n)
{
	void *p;

	if (fails())
		return NULL;
	p = malloc(n);
	ASSUME(p != NULL);
	blocks += 1;
	return p;
}

void *vf_calloc(size_t n, size_t s)
{
	void *p = vf_malloc(n * s);

	if (p)
		memset(p, 0, n * s);
	return p;
}

static struct pt_iscache_entry theents[32];

void vf_free(void *p)
{
	if (p)
		blocks -= 1;
	if (p != theents)
		free(p);
}

void *vf_realloc(void *p, size_t n)
{
	ASSUME(!p && n <= sizeof(theents));
	if (fails())
		return NULL;
	blocks += 1;
	return theents;
}

char *vf_strdup(const char *s)
{
	char *p = vf_malloc(2);

	if (p) {
		p[0] = s[0];
		p[1] = 0;
	}
	return p;
}

int vf_mtx_init(mtx_t *m, int type)
{
	if (fails())
		return thrd_error;
	live = 1;
	return thrd_success;
}

void vf_mtx_destroy(mtx_t *m)
{
	ASSERT(live && !held, "lock destroyed");
	live = 0;
}

int vf_mtx_lock(mtx_t *m)
{
	ASSERT(m == &C->lock && !held, "lock is not taken twice");
	ASSERT(live, "lock is initialized");
	held = 1;
	return thrd_success;
}

int vf_mtx_unlock(mtx_t *m)
{
	ASSERT(m == &C->lock && held, "unlocked lock is held");
	held = 0;
	return thrd_success;
}

static int idx(const struct pt_section *s)
{
	int i;

	for (i = 0; i < NSEC; ++i)
		if (s == &pool[i])
			return i;
	ASSERT(0, "a section of the test");
	return 0;
}

int pt_mk_section(struct pt_section **ps, const char *filename,
		  uint64_t offset, uint64_t size)
{
	int f = filename[0] != 'a', k = nsec;

	if (fails())
		return -pte_nomem;
	if (fsize[f] <= offset)
		return -pte_invalid;
	if (fsize[f] - offset < size)
		size = fsize[f] - offset;
	ASSUME(nsec < NSEC);
	nsec += 1;
	pool[k].offset = offset;
	pool[k].size = size;
	pool[k].filename = fname[f];
	sfile[k] = f;
	ucount[k] = 1;
	*ps = &pool[k];
	return 0;
}

const char *pt_section_filename(const struct pt_section *s)
{
	return pool[idx(s)].filename;
}

uint64_t pt_section_offset(const struct pt_section *s)
{
	return pool[idx(s)].offset;
}

uint64_t pt_section_size(const struct pt_section *s)
{
	return pool[idx(s)].size;
}

int pt_section_get(struct pt_section *s)
{
	int k = idx(s);

	ASSERT(ucount[k] > 0, "not used after it was freed");
	if (fails())
		return -pte_overflow;
	ucount[k] += 1;
	return 0;
}

int pt_section_put(struct pt_section *s)
{
	int k = idx(s);

	ASSERT(ucount[k] > 0, "not put more often than got");
	ucount[k] -= 1;
	if (!ucount[k])
		ASSERT(!mcount[k] && !acount[k],
		       "freed when neither mapped nor attached");
	return 0;
}

int pt_section_attach(struct pt_section *s, struct pt_image_section_cache *c)
{
	int k = idx(s);

	ASSERT(c == C && !held, "attached without the cache lock");
	if (fails())
		return -pte_overflow;
	acount[k] += 1;
	ASSERT(acount[k] <= ucount[k], "attached while referenced");
	return 0;
}

int pt_section_detach(struct pt_section *s, struct pt_image_section_cache *c)
{
	int k = idx(s);

	ASSERT(c == C && !held, "detached without the cache lock");
	ASSERT(acount[k] > 0, "not detached more often than attached");
	acount[k] -= 1;
	return 0;
}

int pt_section_memsize(struct pt_section *s, uint64_t *size)
{
	*size = msize[idx(s)];
	return 0;
}

int pt_section_map_share(struct pt_section *s)
{
	int k = idx(s);

	ASSERT(mcount[k] > 0, "shared while mapped");
	if (fails())
		return -pte_overflow;
	mcount[k] += 1;
	return 0;
}

int pt_section_unmap(struct pt_section *s)
{
	int k = idx(s);

	ASSERT(mcount[k] > 0 && ucount[k] > 0, "unmapped while mapped");
	mcount[k] -= 1;
	return 0;
}

int pt_section_map(struct pt_section *s)
{
	int k = idx(s), st = 0;

	ASSERT(ucount[k] > 0, "mapped while referenced");
	if (fails())
		return -pte_bad_file;
	mcount[k] += 1;
	if (acount[k]) {
		st = pt_iscache_notify_map(C, s);
		if (st < 0)
			pt_section_unmap(s);
	}
	return st;
}

static uint8_t *rdbuf;
static int rdcalls;

int pt_section_read(const struct pt_section *s, uint8_t *buffer,
		    uint16_t size, uint64_t offset)
{
	int k = idx(s);

	ASSERT(mcount[k] > 0, "read while mapped");
	ASSERT(buffer == rdbuf, "read into the caller's buffer");
	rdcalls += 1;
	if (pool[k].size <= offset)
		return -pte_nomap;
	if (pool[k].size - offset < size)
		size = (uint16_t) (pool[k].size - offset);
	return size;
}

/* The model: what each identifier stands for. */
static int nids;
static struct { uint8_t f; uint64_t offset, size, laddr; } ids[MAXID];

static void check(void)
{
	struct pt_iscache_lru_entry *lru;
	uint64_t sum = 0;
	int cached[NSEC], k, i, n;

	ASSERT(!held, "no lock held");
	for (k = 0; k < NSEC; ++k)
		cached[k] = 0;
	n = 0;
	for (lru = C->lru; lru; lru = lru->next) {
		ASSERT(n < NSEC, "every section is cached once");
		k = idx(lru->section);
		ASSERT(!cached[k], "every section is cached once");
		cached[k] = 1;
		sum += lru->size;
		n += 1;
	}
	ASSERT(sum == C->used, "memory accounted");
	ASSERT(C->used <= C->limit, "within the limit");
	for (k = 0; k < NSEC; ++k) {
		int e = 0;

		for (i = 0; i < MAXID; ++i)
			if (i < nids && C->entries[i].section == &pool[k])
				e += 1;
		ASSERT(mcount[k] == umaps[k] + cached[k], "maps balance");
		ASSERT(acount[k] == e && ucount[k] == e, "references balance");
	}
	ASSERT(C->size == nids, "number of entries");
	ASSERT(blocks == n + (C->entries != NULL) + (C->name != NULL) + 1,
	       "no memory leaked");
}

static int isid_of(uint8_t f, uint64_t offset, uint64_t size, uint64_t laddr)
{
	int i, r = 0;

	for (i = MAXID - 1; i >= 0; --i)
		if (i < nids && ids[i].f == f && ids[i].offset == offset &&
		    ids[i].size == size && ids[i].laddr == laddr)
			r = i + 1;
	return r;
}

#ifdef ONEFILE
#define ND_FILE() 0
#define ND_OFF() 1
#else
#define ND_FILE() (nd_u8() & 1)
#define ND_OFF() (nd_u8() & 3)
#endif

static void op_add(void)
{
	uint8_t f = ND_FILE();
	uint64_t offset = ND_OFF(), size = nd_u8(), laddr = nd_u8() & 1, rs;
	int st, id;

	ASSUME(size > 0);
	rs = fsize[f] - offset < size ? fsize[f] - offset : size;
	if (offset >= fsize[f])
		rs = 0;
	id = rs ? isid_of(f, offset, rs, laddr) : 0;
	failed = 0;
	st = pt_iscache_add_file(C, fname[f], offset, size, laddr);
	if (st < 0)
		ASSERT(failed || (!rs && st == -pte_invalid),
		       "add fails for a reason");
	else if (id)
		ASSERT(st == id, "the same identifier");
	else {
		ASSERT(rs && st == nids + 1, "a new identifier");
		ASSUME(nids < MAXID);
		ids[nids].f = f;
		ids[nids].offset = offset;
		ids[nids].size = rs;
		ids[nids].laddr = laddr;
		nids += 1;
	}
}

static void op_lookup(void)
{
	struct pt_section *s = NULL;
	uint64_t laddr = 0;
	int id = nd_int(), i, st, k;

	failed = 0;
	st = pt_iscache_lookup(C, &s, &laddr, id);
	if (id < 1 || id > nids) {
		ASSERT(st == -pte_bad_image, "unknown identifier");
		return;
	}
	if (st < 0) {
		ASSERT(failed, "lookup");
		return;
	}
	k = idx(s);
	for (i = 0; i < MAXID; ++i)
		if (i + 1 == id)
			ASSERT(sfile[k] == ids[i].f &&
			       pool[k].offset == ids[i].offset &&
			       pool[k].size == ids[i].size &&
			       laddr == ids[i].laddr, "what was added");
	pt_section_put(s);
}

static void op_find(void)
{
	uint8_t f = nd_u8() & 1;
	uint64_t offset = nd_u8() & 3, size = nd_u8(), laddr = nd_u8() & 1;

	ASSERT(pt_iscache_find(C, fname[f], offset, size, laddr) ==
	       isid_of(f, offset, size, laddr), "find");
}

/* A decoder maps a section. */
static void op_map(void)
{
	int i = nd_u8(), st, k;

	ASSUME(i < nids);
	k = idx(C->entries[i].section);
	failed = 0;
	st = pt_section_map(&pool[k]);
	if (st == 0) {
		umaps[k] += 1;
		if (msize[k] <= C->limit && C->lru)
			ASSERT(failed || C->lru->section == &pool[k],
			       "most recently used first");
	} else
		ASSERT(failed, "map");
}

static void op_unmap(void)
{
	int i = nd_u8(), k;

	ASSUME(i < nids);
	k = idx(C->entries[i].section);
	if (umaps[k]) {
		pt_section_unmap(&pool[k]);
		umaps[k] -= 1;
	}
}

static void op_resize(void)
{
	int i = nd_u8(), k, st;
	uint64_t n = nd_u8();

	ASSUME(i < nids);
	k = idx(C->entries[i].section);
	if (mcount[k] && umaps[k]) {
		ASSUME(n >= msize[k]);
		msize[k] = n;
		failed = 0;
		st = pt_iscache_notify_resize(C, &pool[k], n);
		ASSERT(st == 0 || failed, "resize");
	}
}

static void op_limit(void)
{
	uint64_t n = nd_u64();

	ASSERT(pt_iscache_set_limit(C, n) == 0, "limit");
	ASSERT(C->limit == n, "limit set");
}

static void op_clear(void)
{
	int k;

	for (k = 0; k < NSEC; ++k)
		ASSUME(!umaps[k]);
	ASSERT(pt_iscache_clear(C) == 0, "clear");
	ASSERT(!C->used && !C->lru, "nothing cached");
	nids = 0;
}

static void op_read(void)
{
	static uint8_t buf[1];
	int id = nd_int(), st, i;
	uint64_t size = nd_u64(), v = nd_u64();

	rdbuf = buf;
	rdcalls = 0;
	failed = 0;
	st = pt_iscache_read(C, buf, size, id, v);
	if (!size) {
		ASSERT(st == -pte_invalid, "nothing to read");
		return;
	}
	if (id < 1 || id > nids) {
		ASSERT(st == -pte_bad_image, "unknown identifier");
		return;
	}
	for (i = 0; i < MAXID; ++i)
		if (i + 1 == id) {
			uint64_t o = v - ids[i].laddr, n = ids[i].size - o;

			if (failed)
				;
			else if (v < ids[i].laddr || o >= ids[i].size)
				ASSERT(st == -pte_nomap, "outside");
			else
				ASSERT((uint64_t) st == (n < size ? n : size),
				       "bounded by the section");
		}
}

void harness(void)
{
	static const char ops[] = OPS;
	unsigned i;
	int k;

	fsize[0] = nd_u8();
	fsize[1] = nd_u8();
	ASSUME(fsize[0] <= 8 && fsize[1] <= 8);
	for (k = 0; k < NSEC; ++k)
		msize[k] = nd_u8();
#ifdef FAULTS
	faulty = FAULTS;
#endif
	C = pt_iscache_alloc(nd_u8() & 1 ? "x" : NULL);
	if (!C) {
		ASSERT(failed && !blocks, "cache allocated");
		return;
	}
	for (i = 0; i < sizeof(ops) - 1; ++i) {
		switch (ops[i]) {
		case 'A': op_add(); break;
		case 'l': op_lookup(); break;
		case 'f': op_find(); break;
		case 'm': op_map(); break;
		case 'u': op_unmap(); break;
		case 'z': op_resize(); break;
		case 'L': op_limit(); break;
		case 'C': op_clear(); break;
		case 'r': op_read(); break;
		}
		check();
	}
	WITNESS("sequence");
	for (k = 0; k < NSEC; ++k)
		for (; umaps[k] > 0; umaps[k] -= 1)
			pt_section_unmap(&pool[k]);
	pt_iscache_free(C);
	for (k = 0; k < NSEC; ++k)
		ASSERT(!ucount[k] && !mcount[k] && !acount[k],
		       "everything released");
	ASSERT(!blocks && !live, "no memory leaked");
}
