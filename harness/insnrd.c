/* C11: reading an instruction that may cross image sections.
 *
 * The image hands out the bytes in chunks of any size and ends anywhere; the
 * length decoder is replaced by one that knows the instruction's length.
 */
#include "vf.h"
#include "pt_insn.h"
#include "pt_ild.h"
#include "pt_image.h"
#include "intel-pt.h"

#define IP 0x1000ull
#define MAXCHUNK 16

static uint8_t mem[pt_max_insn_size];	/* the bytes at IP. */
static uint8_t owner[pt_max_insn_size];	/* the section holding each. */
static uint8_t avail;			/* mapped bytes. */
static int ending;			/* the error behind them. */
static uint8_t need;			/* the instruction's length. */
static int verdict;			/* what decode says about it. */
static const struct pt_asid *the_asid;
static struct pt_image *the_image;
static unsigned int nreads;

int pt_image_read(struct pt_image *image, int *isid, uint8_t *buffer,
		  uint16_t size, const struct pt_asid *asid, uint64_t addr)
{
	uint64_t off = addr - IP;
	uint16_t i, n = 0;

	ASSERT(image == the_image, "reads another image");
	ASSERT(asid == the_asid, "reads another address space");
	ASSERT(off < pt_max_insn_size, "reads another address");
	ASSERT(size <= pt_max_insn_size - off, "reads too much");
	nreads += 1;

	if (off >= avail)
		return ending;

	*isid = owner[off];
	for (i = 0; i < pt_max_insn_size; ++i) {
		if (i >= size || off + i >= avail)
			break;
		/* A read ends at the end of the section. */
		if (owner[off + i] != owner[off])
			break;
		buffer[i] = mem[off + i];
		n += 1;
	}

	return n;
}

int pt_ild_decode(struct pt_insn *insn, struct pt_insn_ext *iext)
{
	uint8_t i;

	for (i = 0; i < pt_max_insn_size; ++i)
		if (i < insn->size)
			ASSERT(insn->raw[i] == mem[i], "wrong bytes");

	if (insn->size < need)
		return -pte_bad_insn;

	insn->size = need;
	if (verdict < 0)
		return verdict;

	insn->iclass = ptic_jump;
	iext->iclass = PTI_INST_JMP_E9;
	return 0;
}

void harness(void)
{
	struct pt_insn_ext iext;
	struct pt_insn insn;
	static struct pt_asid asid;
	static int image;
	uint8_t i, first;
	int st;

	for (i = 0; i < pt_max_insn_size; ++i)
		mem[i] = nd_u8();
	owner[0] = 1;
	for (i = 1; i < pt_max_insn_size; ++i)
		owner[i] = owner[i - 1] + (nd_u8() & 1);
	ASSUME(owner[pt_max_insn_size - 1] <= 4);
	avail = nd_u8();
	ASSUME(avail <= pt_max_insn_size);
	need = nd_u8();
	ASSUME(1 <= need && need <= pt_max_insn_size + 1);
	switch (nd_u8()) {
	case 0: ending = -pte_nomap; break;
	case 1: ending = -pte_bad_image; break;
	default: ending = -pte_nomem; break;
	}
	verdict = nd_u8() ? 0 : -pte_bad_insn;
	the_asid = &asid;
	the_image = (struct pt_image *) &image;

	insn.ip = IP;
	insn.mode = ptem_64bit;
	insn.isid = 77;
	insn.iclass = ptic_unknown;
	insn.size = 0;
	insn.speculative = 0;
	insn.truncated = 0;
	for (i = 0; i < pt_max_insn_size; ++i)
		insn.raw[i] = 0;

	st = pt_insn_decode(&insn, &iext, the_image, the_asid);

	/* The bytes of the first section. */
	first = 0;
	for (i = 0; i < pt_max_insn_size; ++i)
		if (i < avail && owner[i] == 1)
			first += 1;

	ASSERT(insn.ip == IP, "the address is kept");
	if (avail == 0) {
		ASSERT(st == ending, "nothing mapped: the image's error");
		return;
	}
	if (avail >= need) {
		/* For an invalid instruction that ends at the end of a section,
		 * the bytes behind it are read, as well.
		 */
		ASSERT((st == 0) == (verdict == 0), "all bytes are there");
		ASSERT(st == verdict || st == ending, "the error");
		if (st == 0) {
			ASSERT(insn.size == need, "the size");
			ASSERT(insn.isid == 1,
			       "the section of the first byte");
			ASSERT(insn.truncated == (first < need),
			       "truncated iff it crosses a section boundary");
			for (i = 0; i < pt_max_insn_size; ++i)
				if (i < need)
					ASSERT(insn.raw[i] == mem[i],
					       "the bytes");
			if (first < need)
				WITNESS("crosses");
			else
				WITNESS("whole");
		} else
			WITNESS("invalid");
		return;
	}
	/* Not enough bytes: not an instruction, unless the image says more. */
	ASSERT(st < 0, "an instruction that is not there");
	ASSERT(st == ((avail == pt_max_insn_size || ending == -pte_nomap) ?
		      -pte_bad_insn : ending), "the error");
	WITNESS("short");
}
