/* C27: loading a range of a file; the file operations are modelled. */
#include "vf.h"
#include <stdio.h>
#include <limits.h>
#include "pt_sb_file.h"
#include "intel-pt.h"

#define MAXF 6

static uint8_t fcontent[MAXF];
static long fsize, fpos;
static int is_open, opened, closed;
static void *block;
static size_t blocksize;
static int allocated, failed;
static FILE *const theFile = (FILE *) fcontent;

static int fails(void)
{
	if (nd_u8() & 1) {
		failed = 1;
		return 1;
	}
	return 0;
}

FILE *vf_fopen(const char *name, const char *mode)
{
	ASSERT(name && mode && mode[0] == 'r', "opened for reading");
	if (fails())
		return NULL;
	is_open = 1;
	opened += 1;
	fpos = 0;
	return theFile;
}

int vf_fclose(FILE *f)
{
	ASSERT(f == theFile && is_open, "closed once");
	is_open = 0;
	closed += 1;
	return 0;
}

int vf_fseek(FILE *f, long off, int whence)
{
	ASSERT(f == theFile && is_open, "seek in an open file");
	if (fails())
		return -1;
	if (whence == SEEK_END)
		fpos = fsize + off;
	else if (whence == SEEK_CUR)
		fpos += off;
	else
		fpos = off;
	return 0;
}

long vf_ftell(FILE *f)
{
	ASSERT(f == theFile && is_open, "tell in an open file");
	if (fails())
		return -1;
	return fpos;
}

size_t vf_fread(void *p, size_t s, size_t n, FILE *f)
{
	size_t i, len = s * n;

	ASSERT(f == theFile && is_open, "read from an open file");
	ASSERT(p == block && len <= blocksize, "read into the buffer");
	if (fails())
		return 0;
	for (i = 0; i < MAXF; ++i) {
		if (i >= len || fpos >= fsize)
			break;
		((uint8_t *) p)[i] = fcontent[fpos];
		fpos += 1;
	}
	return i / s;
}

void *vf_malloc(size_t n)
{
	if (fails() || n > 1000)
		return NULL;
	allocated += 1;
	blocksize = n;
	block = malloc(n ? n : 1);
	ASSUME(block != NULL);
	return block;
}

void *vf_calloc(size_t n, size_t s)
{
	void *p = vf_malloc(n * s);

	if (p)
		memset(p, 0, n * s);
	return p;
}

void vf_free(void *p)
{
	if (p) {
		ASSERT(p == block && allocated == 1, "freed once");
		allocated = 0;
	}
	free(p);
}

void harness(void)
{
	static uint8_t dummy;
	void *buf = &dummy;
	size_t size = 77, begin = nd_u64(), end = nd_u64(), i, e;
	int st, ok;

	fsize = nd_u8();
	ASSUME(fsize <= MAXF);
	for (i = 0; i < MAXF; ++i)
		fcontent[i] = nd_u8();

	st = pt_sb_file_load(&buf, &size, "f", begin, end);

	ASSERT(!is_open && opened == closed, "file closed");
	e = end ? end : (size_t) fsize;
	if (e > (size_t) fsize)
		e = (size_t) fsize;
	ok = !(end && end <= begin) && begin <= (size_t) fsize &&
		end <= (size_t) LONG_MAX;
	if (st >= 0) {
		ASSERT(ok, "bad range refused");
		ASSERT(allocated == 1 && buf == block, "the buffer is returned");
		ASSERT(size <= e - begin, "not more than the range");
		ASSERT(size == e - begin || failed, "the whole range");
		for (i = 0; i < MAXF; ++i)
			if (i < size)
				ASSERT(((uint8_t *) buf)[i] == fcontent[begin + i],
				       "bytes of the range");
		if (size > 2)
			WITNESS("loaded");
	} else {
		ASSERT(!ok || failed, "good range loaded");
		ASSERT(!allocated, "buffer released");
		ASSERT(buf == &dummy && size == 77, "results unchanged");
		if (!failed)
			WITNESS("refused");
	}
	failed = 0;
	ASSERT(pt_sb_file_load(NULL, &size, "f", 0, 1) == -pte_invalid, "no buf");
	ASSERT(pt_sb_file_load(&buf, NULL, "f", 0, 1) == -pte_invalid, "no size");
	ASSERT(pt_sb_file_load(&buf, &size, NULL, 0, 1) == -pte_invalid, "no name");
}
