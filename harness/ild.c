/* C11: instruction lengths.  C12: classes, displacements, next addresses. */
#include "vf.h"
#include "ref_ild.h"
#include "pt_ild.h"
#include "pt_insn.h"
#include "intel-pt.h"

/* The prefixes before the opcode; every listed string is one case. */
static const uint8_t strings[][4] = { STRINGS };	/* length, bytes */
#define NSTRINGS (sizeof(strings) / sizeof(strings[0]))

static const enum pt_exec_mode modes[4] = {
	ptem_unknown, ptem_16bit, ptem_32bit, ptem_64bit
};

static uint8_t expect_class(const struct ref_insn *r)
{
	switch (r->cls) {
	case rc_call: return ptic_call;
	case rc_ret: return ptic_return;
	case rc_jump: return ptic_jump;
	case rc_cond: return ptic_cond_jump;
	case rc_fcall: return ptic_far_call;
	case rc_fret: return ptic_far_return;
	case rc_fjump: return ptic_far_jump;
	case rc_ptwrite: return ptic_ptwrite;
	}
	return ptic_other;
}

static void load(struct pt_insn *insn, const uint8_t *b, uint8_t size,
		 uint8_t mode)
{
	uint8_t i;

	insn->ip = 0;
	insn->isid = 0;
	insn->mode = modes[mode];
	insn->iclass = ptic_unknown;
	for (i = 0; i < pt_max_insn_size; ++i)
		insn->raw[i] = b[i];
	insn->size = size;
	insn->speculative = 0;
	insn->truncated = 0;
}

static int far(uint8_t cls)
{
	return cls == rc_fcall || cls == rc_fret || cls == rc_fjump;
}

#ifdef C12
static void check_class(const struct ref_insn *r, struct pt_insn *insn,
			const struct pt_insn_ext *iext, uint8_t mode)
{
	uint64_t ip, next, want;
	int64_t disp = 0;
	int st, cr3 = r->kind == rk_cr3, ptr = r->kind == rk_vmptrld;
	int ent = r->kind == rk_vmentry;
	uint8_t i;

	ASSERT((uint8_t) insn->iclass == expect_class(r),
	       "the instruction has another class");

	ASSERT(!pt_insn_is_branch(insn, iext) ==
	       (r->cls == rc_other || r->cls == rc_ptwrite),
	       "branches and only branches are branches");
	ASSERT(!pt_insn_is_far_branch(insn, iext) == !far(r->cls),
	       "far branches and only those are far branches");
	ASSERT(!pt_insn_is_ptwrite(insn, iext) == (r->cls != rc_ptwrite),
	       "PTWRITE and only PTWRITE");
	ASSERT(!pt_insn_changes_cr3(insn, iext) == !cr3,
	       "MOV to CR3 and only MOV to CR3 changes CR3");
	ASSERT(!pt_insn_binds_to_pip(insn, iext) ==
	       !(far(r->cls) || cr3 || ent), "binds to PIP");
	ASSERT(!pt_insn_binds_to_vmcs(insn, iext) ==
	       !(far(r->cls) || ptr || ent), "binds to VMCS");
	ASSERT(!pt_insn_is_iret(insn, iext) == !r->iret,
	       "returns from interrupts and only those");
	ASSERT(!pt_insn_is_uiret(insn, iext) == (r->kind != rk_uiret),
	       "UIRET and only UIRET");
	ASSERT(!pt_insn_is_vmentry(insn, iext) == !ent,
	       "VMLAUNCH and VMRESUME are VM entries");
	if (r->cpl)
		ASSERT(pt_insn_changes_cpl(insn, iext),
		       "it may change the privilege level");
	else if (!far(r->cls))
		ASSERT(!pt_insn_changes_cpl(insn, iext),
		       "it does not change the privilege level");

	if (r->direct) {
		uint64_t raw = 0;

		for (i = 0; i < 8; ++i)
			if (i < r->dlen)
				raw |= (uint64_t) insn->raw[r->dpos + i]
					<< (8 * i);
		disp = (r->dlen == 1) ? (int64_t) (int8_t) raw :
			(r->dlen == 2) ? (int64_t) (int16_t) raw :
			(r->dlen == 4) ? (int64_t) (int32_t) raw :
			(int64_t) raw;
		ASSERT(iext->variant.branch.is_direct,
		       "the branch is direct");
		ASSERT(iext->variant.branch.displacement == disp,
		       "the displacement is the encoded one");
	} else if (r->cls != rc_other && r->cls != rc_ptwrite)
		ASSERT(!iext->variant.branch.is_direct,
		       "the branch is not direct");

	/* The next address. */
	ip = nd_u64();
	if (mode != 3)
		ip &= 0xffffffffull;
	insn->ip = ip;
	next = 0x5aa5;
	st = pt_insn_next_ip(&next, insn, iext);
	switch (r->cls) {
	case rc_other: case rc_ptwrite:
		want = ip + r->len;
		break;
	case rc_call: case rc_jump:
		if (r->direct && r->kind != rk_jmpabs) {
			want = ip + r->len + (uint64_t) disp;
			break;
		}
		/* Fall through. */
	default:
		ASSERT(st == -pte_bad_query,
		       "the next address needs the trace");
		ASSERT(next == 0x5aa5, "no address on error");
		return;
	}
	ASSERT(st == 0, "the next address is known");
	/* Known finding: outside of 64-bit mode, addresses do not wrap. */
	if (mode != 3 && next == (want & 0xffffffffull))
		return;
	ASSERT(next == want, "the next address");
}
#endif

static void one(uint8_t mode, const uint8_t *pfx, uint8_t op)
{
	static struct pt_insn insn, again;
	struct pt_insn_ext iext, iagain;
	struct ref_pfx p;
	struct ref_insn r;
	uint8_t b[pt_max_insn_size + 4], size, pos, rex, i, known, lo2 = 0;
	int st, both = 0, f2 = 0, f3 = 0;

	for (i = 0; i < pt_max_insn_size; ++i)
		b[i] = nd_u8();
	for (; i < sizeof(b); ++i)
		b[i] = 0;
	size = nd_u8();
	ASSUME(size <= pt_max_insn_size);
	for (i = 0; i < pfx[0]; ++i)
		b[i] = pfx[1 + i];
	b[pfx[0]] = op;

	p.mode = mode;
	p.osz = p.asz = p.lock = p.f2 = p.f3 = p.rex2 = p.enc = p.map = 0;
	rex = 0;
	for (i = 0; i < pfx[0]; ++i) {
		rex = 0;
		switch (pfx[1 + i]) {
		case 0x66: p.osz = 1; break;
		case 0x67: p.asz = 1; break;
		case 0xf0: p.lock = 1; break;
		case 0xf2: p.f2 = 1; p.f3 = 0; f2 = 1; break;
		case 0xf3: p.f3 = 1; p.f2 = 0; f3 = 1; break;
		default:
			if (pfx[1 + i] >> 4 == 4)
				rex = pfx[1 + i];
			break;
		}
	}
	both = f2 && f3;
	p.rex_w = (rex >> 3) & 1;
	p.rex_r = (rex >> 2) & 1;
	pos = pfx[0] + 1;
	known = 1;

	/* What follows from the opcode byte. */
	if (op == 0x0f) {
		uint8_t o2 = b[pos++];

		p.map = 1;
		if (o2 == 0x38 || o2 == 0x3a) {
			lo2 = 1;
			p.map = (o2 == 0x38) ? 2 : 3;
			ref_opcode(&r, b[pos], &p, b + pos + 1, pos + 1);
		} else
			ref_opcode(&r, o2, &p, b + pos, pos);
	} else if ((op == 0xc5 || op == 0xc4 || op == 0x62) &&
		   (mode == 3 || (b[pos] >> 6) == 3)) {
		uint8_t p1 = b[pos], pp, p0 = pfx[0];

		if (p0) {
			/* Most prefixes are not allowed before VEX. */
			for (i = 0; i < p0; ++i)
				if (pfx[1 + i] == 0x66 || pfx[1 + i] >= 0xf0 ||
				    pfx[1 + i] >> 4 == 4)
					known = 0;
		}
		if (op == 0xc5) {
			p.enc = 1;
			p.map = 1;
			p.rex_w = 0;
			pp = p1 & 3;
			pos += 1;
		} else {
			p.enc = (op == 0x62) ? 2 : 1;
			p.map = p1 & ((op == 0x62) ? 7 : 0x1f);
			p.rex_w = b[pos + 1] >> 7;
			pp = b[pos + 1] & 3;
			pos += (op == 0x62) ? 3 : 2;
		}
		if (pp == 1)
			p.osz = 1;
		if (pp == 2)
			p.f3 = 1;
		if (pp == 3)
			p.f2 = 1;
		ref_opcode(&r, b[pos], &p, b + pos + 1, pos + 1);
	} else if (op == 0xd5 && mode == 3) {
		uint8_t pl = b[pos++];

		if (rex)
			known = 0;
		p.rex2 = 1;
		p.rex_w = (pl >> 3) & 1;
		p.rex_r = (uint8_t) (((pl >> 2) & 1) | ((pl >> 5) & 2));
		p.map = pl >> 7;
		ref_opcode(&r, b[pos], &p, b + pos + 1, pos + 1);
		/* Prefixes and the escape are no opcodes here. */
		if (!p.map && (b[pos] == 0x0f || b[pos] == 0x26 ||
			       b[pos] == 0x2e || b[pos] == 0x36 ||
			       b[pos] == 0x3e || (b[pos] >= 0x64 &&
						  b[pos] <= 0x67) ||
			       b[pos] == 0xf0 || b[pos] == 0xf2 ||
			       b[pos] == 0xf3 || b[pos] == 0xd5 ||
			       b[pos] == 0xc4 || b[pos] == 0xc5 ||
			       b[pos] == 0x62))
			known = 0;
	} else
		ref_opcode(&r, op, &p, b + pos, pos);

	if (!r.defined)
		known = 0;

	load(&insn, b, size, mode);
	st = pt_ild_decode(&insn, &iext);

#ifndef C12
	ASSERT(st == 0 || st == -pte_bad_insn, "a length or bad-insn");
	if (st == 0)
		ASSERT(1 <= insn.size && insn.size <= size,
		       "the length is within the given bytes");
	if (known) {
		ASSERT((st == 0) == (r.len <= size),
		       "an instruction that is there is decoded, and no other");
		if (st == 0)
			ASSERT(insn.size == r.len,
			       "the length is the instruction's");
	}
	for (i = 0; i < pt_max_insn_size; ++i)
		ASSERT(insn.raw[i] == b[i], "the bytes are not changed");
	if (st == 0 && known)
		WITNESS("decoded");
	if (st < 0 && known)
		WITNESS("short");

#ifdef NI
	/* Other bytes behind the instruction, and another number of them. */
	{
		uint8_t c[pt_max_insn_size + 4], m, used;
		int st2;

		used = (st == 0) ? insn.size : size;
		m = nd_u8();
		if (st == 0)
			ASSUME(insn.size <= m && m <= pt_max_insn_size);
		else
			m = size;
		for (i = 0; i < sizeof(c); ++i) {
			uint8_t x = nd_u8();

			c[i] = (i < used) ? b[i] : x;
		}
		/* Keep the leading bytes constant; if they are not part of
		 * the given bytes there is nothing to decode.
		 */
		for (i = 0; i < pfx[0]; ++i)
			c[i] = pfx[1 + i];
		c[pfx[0]] = op;
		load(&again, c, m, mode);
		st2 = pt_ild_decode(&again, &iagain);
		ASSERT(st2 == st, "bytes behind the instruction decide");
		if (st == 0) {
			ASSERT(again.size == insn.size,
			       "bytes behind the instruction change its length");
			ASSERT(again.iclass == insn.iclass &&
			       iagain.iclass == iext.iclass &&
			       iagain.variant.branch.displacement ==
			       iext.variant.branch.displacement,
			       "bytes behind the instruction change its class");
		}
	}
#else
	(void) again;
	(void) iagain;
#endif
#else
	/* LOCK, or F2 and F3 together, make most of these undefined. */
	if (both || p.lock)
		known = 0;
	if (st == 0 && known) {
		check_class(&r, &insn, &iext, mode);
		if (r.cls != rc_other)
			WITNESS("branch");
		else
			WITNESS("other");
	}
	(void) again;
	(void) iagain;
#endif
	(void) lo2;
}

void harness(void)
{
	unsigned int s;

	for (s = 0; s < NSTRINGS; ++s) {
		uint8_t op = nd_u8();

		ASSUME(OP_LO <= op && op <= OP_HI);
		/* Prefixes are enumerated by the strings. */
		ASSUME(op != 0x26 && op != 0x2e && op != 0x36 && op != 0x3e);
		ASSUME(op < 0x64 || op > 0x67);
		ASSUME(op != 0xf0 && op != 0xf2 && op != 0xf3);
		ASSUME(MODE != 3 || (op >> 4) != 4);
		one(MODE, strings[s], op);
	}
}
