/* C19: sections: file ranges, use and map counts, locks.
 *
 * The system calls, stdio, locks, the block cache and the image section cache
 * are modelled; any of them may fail.
 */
#define stat vf_stat
#define fstat vf_fstat
#define open vf_open
#define close vf_close
#define mmap vf_mmap
#define munmap vf_munmap
#define sysconf vf_sysconf
#define fdopen vf_fdopen
#define fclose vf_fclose
#define fseek vf_fseek
#define ftell vf_ftell
#define fread vf_fread
#define mtx_init vf_mtx_init
#define mtx_lock vf_mtx_lock
#define mtx_unlock vf_mtx_unlock
#define mtx_destroy vf_mtx_destroy
#include "vf.h"
#include <stdio.h>
#include <threads.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>
#include "pt_section.h"
#include "pt_section_posix.h"
#include "pt_section_file.h"
#include "pt_block_cache.h"
#include "pt_image_section_cache.h"
#include "intel-pt.h"

#ifndef MAXF
#define MAXF 8
#endif

static uint8_t file[MAXF + 8];		/* zero-filled to a page */
static uint64_t fsize, mtime;
static long page;
static int faulty, failed, inited;
static int fds, mmaps, files, blocks, bcaches;
static long fpos;
static size_t mapsize;
static void *mapbase;
static int locks_live;

static int fails(void)
{
	if (!faulty)
		return 0;
	if (nd_u8() & 1) {
		failed = 1;
		return 1;
	}
	return 0;
}

size_t vf_strnlen(const char *s, size_t n)
{
	size_t i;

	for (i = 0; i < 4; ++i)
		if (i >= n || !s[i])
			break;
	return i;
}

/* Memory. */
void *vf_malloc(size_t n)
{
	void *p;

	if (fails())
		return NULL;
	p = malloc(n);
	ASSUME(p != NULL);
	blocks += 1;
	return p;
}

void *vf_calloc(size_t n, size_t s)
{
	void *p = vf_malloc(n * s);

	if (p)
		memset(p, 0, n * s);
	return p;
}

void vf_free(void *p)
{
	if (p)
		blocks -= 1;
	free(p);
}

/* Locks: the attach lock may not be taken while the section is locked. */
static mtx_t *held[3];

static int vf_holds(const mtx_t *m)
{
	return held[0] == m || held[1] == m || held[2] == m;
}

static struct pt_section *S;

int vf_mtx_init(mtx_t *m, int type)
{
	if (fails())
		return thrd_error;
	locks_live += 1;
	return thrd_success;
}

void vf_mtx_destroy(mtx_t *m)
{
	ASSERT(!vf_holds(m), "destroyed lock is not held");
	locks_live -= 1;
}

int vf_mtx_lock(mtx_t *m)
{
	ASSERT(!vf_holds(m), "lock is not taken twice");
	if (S && m == &S->alock)
		ASSERT(!vf_holds(&S->lock),
		       "attach lock is not taken with the section locked");
	/* (undoing something that failed needs the lock to work) */
	if (!failed && fails())
		return thrd_error;
	if (!held[0])
		held[0] = m;
	else if (!held[1])
		held[1] = m;
	else
		held[2] = m;
	return thrd_success;
}

int vf_mtx_unlock(mtx_t *m)
{
	ASSERT(vf_holds(m), "unlocked lock is held");
	if (held[0] == m)
		held[0] = NULL;
	else if (held[1] == m)
		held[1] = NULL;
	else
		held[2] = NULL;
	return thrd_success;
}

/* The file system. */
static void fill(struct stat *b)
{
	memset(b, 0, sizeof(*b));
	b->st_size = (off_t) fsize;
	b->st_mtime = (time_t) mtime;
}

int vf_stat(const char *name, struct stat *b)
{
	ASSERT(name[0] == 'f' && !name[1], "the file's name");
	if (fails())
		return -1;
	fill(b);
	return 0;
}

int vf_fstat(int fd, struct stat *b)
{
	ASSERT(fd == 5 && fds == 1, "fstat of the open file");
	if (fails())
		return -1;
	fill(b);
	return 0;
}

int vf_open(const char *name, int flags, ...)
{
	ASSERT(name[0] == 'f' && !name[1], "the file's name");
	ASSERT(flags == O_RDONLY, "read only");
	if (fails())
		return -1;
	fds += 1;
	return 5;
}

int vf_close(int fd)
{
	ASSERT(fd == 5 && fds > 0, "close of an open file");
	fds -= 1;
	return 0;
}

long vf_sysconf(int name)
{
	if (fails())
		return -1;
	return page;
}

static int nommap;

void *vf_mmap(void *a, size_t n, int prot, int flags, int fd, off_t off)
{
	ASSERT(fd == 5 && fds == 1, "mapping of the open file");
	ASSERT(prot == PROT_READ, "read only mapping");
	ASSERT(!(off % page), "aligned offset");
	ASSERT((uint64_t) off + n <= fsize, "mapping inside the file");
	if (nommap || fails() || !n)
		return MAP_FAILED;
	mmaps += 1;
	mapsize = n;
	mapbase = file + off;
	return mapbase;
}

int vf_munmap(void *a, size_t n)
{
	ASSERT(mmaps == 1 && a == mapbase && n == mapsize, "unmapped as mapped");
	mmaps -= 1;
	return 0;
}

static FILE *const theFile = (FILE *) file;

FILE *vf_fdopen(int fd, const char *mode)
{
	ASSERT(fd == 5 && fds == 1 && mode[0] == 'r', "fdopen");
	if (fails())
		return NULL;
	files += 1;
	return theFile;
}

int vf_fclose(FILE *f)
{
	ASSERT(f == theFile && files == 1 && fds == 1, "fclose of an open file");
	files -= 1;
	fds -= 1;
	return 0;
}

int vf_fseek(FILE *f, long off, int whence)
{
	ASSERT(f == theFile && files == 1, "seek in an open file");
	if (fails())
		return -1;
	fpos = off + (whence == SEEK_END ? (long) fsize :
		      whence == SEEK_CUR ? fpos : 0);
	return 0;
}

long vf_ftell(FILE *f)
{
	if (fails())
		return -1;
	return fpos;
}

size_t vf_fread(void *p, size_t s, size_t n, FILE *f)
{
	size_t i, len = s * n;

	ASSERT(f == theFile && files == 1, "read from an open file");
	ASSERT(s == 1, "bytes");
	for (i = 0; i < 8; ++i) {
		if (i >= len || fpos + i >= fsize)
			break;
		((uint8_t *) p)[i] = file[fpos + i];
	}
	return i;
}

/* The block cache and the image section cache. */
static struct pt_block_cache thebc;

struct pt_block_cache *pt_bcache_alloc(uint64_t nentries)
{
	ASSERT(nentries == S->size, "block cache for every byte");
	if (fails())
		return NULL;
	thebc.nentries = (uint32_t) nentries;
	bcaches += 1;
	return &thebc;
}

void pt_bcache_free(struct pt_block_cache *bc)
{
	if (!bc)
		return;
	ASSERT(bc == &thebc && bcaches == 1, "block cache freed once");
	bcaches -= 1;
}

static struct pt_image_section_cache ca, cb;
static int notified, resized;
static uint64_t newsize;

int pt_iscache_notify_map(struct pt_image_section_cache *c,
			  struct pt_section *s)
{
	ASSERT(c == &ca && s == S, "the attached cache is notified");
	ASSERT(!vf_holds(&s->lock), "notified without the section lock");
	ASSERT(vf_holds(&s->alock), "notified while attached");
	ASSERT(s->mcount > 0, "notified while mapped");
	notified += 1;
	if (fails())
		return -pte_nomem;
	return 0;
}

int pt_iscache_notify_resize(struct pt_image_section_cache *c,
			     struct pt_section *s, uint64_t memsize)
{
	ASSERT(c == &ca && s == S, "the attached cache is notified");
	ASSERT(!vf_holds(&s->lock), "notified without the section lock");
	ASSERT(vf_holds(&s->alock), "notified while attached");
	resized += 1;
	newsize = memsize;
	if (fails())
		return -pte_nomem;
	return 0;
}

static int nolocks(void)
{
	return !held[0] && !held[1] && !held[2];
}

#define ENTRY ((uint64_t) sizeof(struct pt_bcache_entry))

void harness(void)
{
	uint64_t offset = nd_u64(), size = nd_u64(), rsize, off, msize, left;
	uint16_t U, M, A, rd;
	uint8_t buf[6], op;
	int st, i, isfile, hasbc;

	fsize = nd_u8();
	ASSUME(fsize <= MAXF);
	for (i = 0; i < MAXF; ++i) {
		uint8_t b = nd_u8();

		if ((uint64_t) i < fsize)
			file[i] = b;
	}
	mtime = nd_u8() & 1;
	page = 1l << (nd_u8() & 1);
	nommap = nd_u8() & 1;

	/* Creation. */
#ifdef CREATE
	faulty = nd_u8() & 1;
#endif
	st = pt_mk_section(&S, "f", offset, size);
	if (st < 0) {
		ASSERT(failed || (offset >= fsize && st == -pte_invalid),
		       "section refused for a reason");
		ASSERT(!blocks && !locks_live && !fds && nolocks(),
		       "nothing leaked");
		WITNESS("refused");
		return;
	}
	ASSERT(offset < fsize, "section begins in the file");
	rsize = fsize - offset < size ? fsize - offset : size;
	ASSERT(pt_section_size(S) == rsize && pt_section_offset(S) == offset,
	       "section truncated to the file");
	ASSERT(pt_section_filename(S)[0] == 'f', "file name");
	ASSERT(S->ucount == 1 && !S->mcount && !S->acount && !S->iscache,
	       "a new section has one user");
#ifdef CREATE
	st = pt_section_put(S);
	if (!st)
		ASSERT(!blocks && !locks_live && nolocks(), "freed");
	else
		ASSERT(failed, "put");
	WITNESS("created");
#else

	/* Any state: mapped M times, used U times, attached A times. */
	U = nd_u16();
	M = nd_u16();
	A = nd_u16();
	ASSUME(U > 0 && A <= U);
	hasbc = 0;
	isfile = 0;
	if (M) {
		st = pt_section_map(S);
		ASSERT(st == 0, "an unchanged file can be mapped");
		ASSERT(S->mcount == 1, "mapped once");
		ASSERT(fds == files && mmaps + files == 1,
		       "mapped in one way");
		isfile = files;
		ASSERT(isfile == (nommap || mmaps == 0), "mmap preferred");
		S->mcount = M;
		hasbc = nd_u8() & 1;
		if (hasbc) {
			st = pt_section_request_bcache(S);
			ASSERT(st == 0 && S->bcache == &thebc, "block cache");
		}
	}
	S->ucount = U;
	S->acount = A;
	S->iscache = A ? &ca : NULL;
	left = isfile ? 0 : rsize + offset % page;

	faulty = nd_u8() & 1;
	failed = 0;
	op = nd_u8();
	ASSUME(op < 10);
	switch (op) {
	case 0:
		st = pt_section_get(S);
		if (st == 0) {
			ASSERT(U < 0xffff, "no overflow");
			U += 1;
		} else
			ASSERT(failed || (U == 0xffff && st == -pte_overflow),
			       "get fails for a reason");
		break;
	case 1:
		/* The last user must have unmapped it. */
		ASSUME(U > 1 || !M);
		st = pt_section_put(S);
		if (st == 0) {
			U -= 1;
			if (!U) {
				ASSERT(!blocks && !locks_live && nolocks(),
				       "freed with its last user");
				WITNESS("freed");
				return;
			}
		} else
			ASSERT(failed, "put works");
		break;
	case 2:
		/* The file may have changed. */
		if (nd_u8() & 1) {
			uint64_t of = fsize, om = mtime;

			fsize = nd_u8();
			ASSUME(fsize <= MAXF);
			mtime = nd_u8() & 1;
			if (!M && (fsize != of || mtime != om)) {
				st = pt_section_map(S);
				ASSERT(st < 0, "a changed file is refused");
				break;
			}
			fsize = of;
			mtime = om;
		}
		st = pt_section_map(S);
		if (st == 0) {
			ASSERT(M < 0xffff, "no overflow");
			ASSERT(notified == !!A || faulty, "cache notified");
			if (!M) {
				isfile = files;
				left = isfile ? 0 : rsize + offset % page;
			}
			M += 1;
		} else
			ASSERT(failed || (M == 0xffff && st == -pte_overflow),
			       "map fails for a reason");
		break;
	case 3:
		st = pt_section_map_share(S);
		if (st == 0) {
			ASSERT(M && M < 0xffff, "shared while mapped");
			M += 1;
		} else
			ASSERT(failed || !M ||
			       (M == 0xffff && st == -pte_overflow),
			       "share fails for a reason");
		break;
	case 4:
		st = pt_section_unmap(S);
		if (st == 0) {
			ASSERT(M, "was mapped");
			M -= 1;
			if (!M)
				hasbc = 0;
		} else
			ASSERT(failed || (!M && st == -pte_nomap),
			       "unmap fails for a reason");
		break;
	case 5:
		off = nd_u64();
		rd = nd_u16();
		for (i = 0; i < 6; ++i)
			buf[i] = 0xa5;
		ASSUME(rd <= 5);
		st = pt_section_read(S, buf, rd, off);
		if (!M || off >= rsize)
			ASSERT(st == -pte_nomap, "nothing to read");
		else if (st < 0)
			ASSERT(failed, "readable");
		else {
			uint64_t n = rsize - off < rd ? rsize - off : rd;

			ASSERT((uint64_t) st == n, "truncated at the end");
			for (i = 0; i < 6; ++i)
				ASSERT(buf[i] == ((uint64_t) i < n ?
						  file[offset + off + i] :
						  0xa5), "bytes of the file");
		}
		break;
	case 6:
		msize = 77;
		st = pt_section_memsize(S, &msize);
		if (st < 0)
			ASSERT(failed, "size");
		else
			ASSERT(msize == (!M ? 0 : left + (hasbc ?
				sizeof(thebc) + rsize * ENTRY : 0)),
			       "memory used");
		break;
	case 7: {
		int other = nd_u8() & 1;

		st = pt_section_attach(S, other ? &cb : &ca);
		if (st == 0) {
			ASSERT(!A || !other, "one cache only");
			ASSERT(A < U && A < 0xffff, "attached while in use");
			ASSERT(S->iscache == (other ? &cb : &ca), "attached");
			A += 1;
			if (other) {
				ASSERT(pt_section_detach(S, &ca) < 0,
				       "detached by the one attached");
				WITNESS("other cache");
				return;
			}
		} else
			ASSERT(failed || (A && other) || A == U || A == 0xffff,
			       "attach fails for a reason");
	}
		break;
	case 8: {
		int other = nd_u8() & 1;

		st = pt_section_detach(S, other ? &cb : &ca);
		if (st == 0) {
			ASSERT(A && !other, "was attached");
			A -= 1;
		} else
			ASSERT(failed || !A || other,
			       "detach fails for a reason");
	}
		break;
	case 9:
		st = pt_section_alloc_bcache(S);
		if (st == 0) {
			ASSERT(M, "block cache while mapped");
			ASSERT(S->bcache == &thebc && bcaches == 1,
			       "block cache");
			if (!hasbc && A)
				ASSERT(resized == 1 && newsize == left +
				       sizeof(thebc) + rsize * ENTRY,
				       "cache notified of the size");
			hasbc = 1;
		} else {
			ASSERT(failed || !M, "block cache");
			if (bcaches)
				hasbc = 1;
		}
		break;
	}
	WITNESS("operation");
	ASSERT(nolocks(), "no lock held");
	ASSERT(S->ucount == U && S->mcount == M && S->acount == A, "counts");
	ASSERT(!A == !S->iscache, "attached cache");
	ASSERT(mmaps + files == !!M && fds == files,
	       "mapped exactly while someone maps it");
	ASSERT((S->bcache != NULL) == hasbc && bcaches == hasbc,
	       "block cache lives while mapped");

	/* Release everything. */
	faulty = 0;
	if (M) {
		S->mcount = 1;
		ASSERT(pt_section_unmap(S) == 0, "unmapped");
	}
	S->acount = 0;
	S->iscache = NULL;
	S->ucount = 1;
	ASSERT(pt_section_put(S) == 0, "dropped");
	ASSERT(!blocks && !locks_live && !fds && !files && !mmaps && !bcaches
	       && nolocks(), "everything released");
	WITNESS("released");
#endif
}
