/* An independent statement of the x86 instruction format, written from the
 * opcode maps of the architecture manuals: how long an instruction is and what
 * kind of branch it is.  It shares no table and no code with libipt.
 */
#ifndef REF_ILD_H
#define REF_ILD_H

#include <stdint.h>

enum ref_class {
	rc_other, rc_call, rc_ret, rc_jump, rc_cond, rc_fcall, rc_fret,
	rc_fjump, rc_ptwrite
};

/* What the instruction additionally is, for binding events. */
enum ref_kind {
	rk_none, rk_cr3, rk_vmptrld, rk_vmentry, rk_iret, rk_uiret, rk_cpl,
	rk_jmpabs
};

struct ref_insn {
	/* Defined by the manual, i.e. the fields below mean something. */
	uint8_t defined;

	/* The bytes the instruction is made of; > 15 if too long. */
	uint8_t len;

	uint8_t cls;
	uint8_t kind;
	uint8_t cpl;		/* it may change the privilege level. */
	uint8_t iret;		/* it ends an interrupt. */

	uint8_t direct;
	uint8_t dpos, dlen;	/* where the displacement is. */
};

/* The state the prefixes leave behind. */
struct ref_pfx {
	uint8_t mode;		/* 1: 16, 2: 32, 3: 64 bit. */
	uint8_t osz, asz, lock, f2, f3;	/* f2, f3: the last one seen. */
	uint8_t rex_w, rex_r;	/* rex_r: all register extension bits. */
	uint8_t rex2;
	uint8_t enc;		/* 0: legacy, 1: VEX, 2: EVEX. */
	uint8_t map;
};

#define RM_NO	0
#define RM_YES	1
#define RM_REG	2	/* ModRM without memory forms. */

#define RI_NONE	0
#define RI_8	1
#define RI_16	2
#define RI_Z	3
#define RI_V	4
#define RI_16_8	5
#define RI_8_8	6
#define RI_FAR	7	/* Z plus a 16-bit selector. */
#define RI_REL8	8
#define RI_RELZ	9	/* near branch displacement. */
#define RI_OFFS	10	/* an address. */
#define RI_XBEG	11

/* legacy one-byte opcodes: returns 0 if not an instruction. */
static int ref_map0(uint8_t op, const struct ref_pfx *p, uint8_t modrm,
		    uint8_t *rm, uint8_t *im)
{
	uint8_t reg = (modrm >> 3) & 7;
	int m64 = p->mode == 3;

	*rm = RM_NO;
	*im = RI_NONE;

	if (op < 0x40) {
		switch (op & 7) {
		case 0: case 1: case 2: case 3:
			*rm = RM_YES;
			return 1;
		case 4:
			*im = RI_8;
			return 1;
		case 5:
			*im = RI_Z;
			return 1;
		default:
			/* push/pop segment, daa, das, aaa, aas. */
			return !m64;
		}
	}

	if (op < 0x60)
		return 1;	/* inc, dec, push, pop (rex in 64-bit mode). */

	switch (op) {
	case 0x60: case 0x61:
		return !m64;
	case 0x62:		/* bound */
		*rm = RM_YES;
		return !m64;
	case 0x63:
		*rm = RM_YES;
		return 1;
	case 0x68:
		*im = RI_Z;
		return 1;
	case 0x69:
		*rm = RM_YES;
		*im = RI_Z;
		return 1;
	case 0x6a:
		*im = RI_8;
		return 1;
	case 0x6b:
		*rm = RM_YES;
		*im = RI_8;
		return 1;
	case 0x6c: case 0x6d: case 0x6e: case 0x6f:
		return 1;
	case 0x82:
		*rm = RM_YES;
		*im = RI_8;
		return !m64;
	case 0x80: case 0x83: case 0xc0: case 0xc1:
		*rm = RM_YES;
		*im = RI_8;
		return 1;
	case 0x81:
		*rm = RM_YES;
		*im = RI_Z;
		return 1;
	case 0x8f:
		/* reg != 0: XOP. */
		*rm = RM_YES;
		return !reg;
	case 0x9a: case 0xea:
		*im = RI_FAR;
		return !m64;
	case 0xa0: case 0xa1: case 0xa2: case 0xa3:
		*im = RI_OFFS;
		return 1;
	case 0xa8:
		*im = RI_8;
		return 1;
	case 0xa9:
		*im = RI_Z;
		return 1;
	case 0xc2: case 0xca:
		*im = RI_16;
		return 1;
	case 0xc4: case 0xc5:	/* les, lds */
		*rm = RM_YES;
		return !m64;
	case 0xc6:
		*rm = RM_YES;
		*im = RI_8;
		return !reg || (modrm == 0xf8);	/* xabort */
	case 0xc7:
		*rm = RM_YES;
		*im = reg ? RI_XBEG : RI_Z;
		return !reg || (modrm == 0xf8);	/* xbegin */
	case 0xc8:
		*im = RI_16_8;
		return 1;
	case 0xcd:
		*im = RI_8;
		return 1;
	case 0xce:
		return !m64;
	case 0xd0: case 0xd1: case 0xd2: case 0xd3:
		*rm = RM_YES;
		return 1;
	case 0xd4: case 0xd5:
		*im = RI_8;
		return !m64;
	case 0xd6:
		return 0;
	case 0xd8: case 0xd9: case 0xda: case 0xdb:
	case 0xdc: case 0xdd: case 0xde: case 0xdf:
		*rm = RM_YES;
		return 1;
	case 0xe0: case 0xe1: case 0xe2: case 0xe3: case 0xeb:
		*im = RI_REL8;
		return 1;
	case 0xe4: case 0xe5: case 0xe6: case 0xe7:
		*im = RI_8;
		return 1;
	case 0xe8: case 0xe9:
		*im = RI_RELZ;
		return 1;
	case 0xf6:
		*rm = RM_YES;
		*im = (reg < 2) ? RI_8 : RI_NONE;
		return 1;
	case 0xf7:
		*rm = RM_YES;
		*im = (reg < 2) ? RI_Z : RI_NONE;
		return 1;
	case 0xfe:
		*rm = RM_YES;
		return reg < 2;
	case 0xff:
		*rm = RM_YES;
		return reg < 7;
	}

	if (op >= 0x70 && op < 0x80) {
		*im = RI_REL8;
		return 1;
	}
	if (op >= 0x84 && op < 0x90) {
		*rm = RM_YES;
		return 1;
	}
	if (op >= 0xb0 && op < 0xb8) {
		*im = RI_8;
		return 1;
	}
	if (op >= 0xb8 && op < 0xc0) {
		*im = RI_V;
		return 1;
	}

	/* 90..9f, a4..af, c3, c9, cb, cc, cf, d7, ec..ef, f1, f4, f5, f8..fd;
	 * the rest are prefixes.
	 */
	return 1;
}

/* legacy two-byte opcodes. */
static int ref_map1(uint8_t op, const struct ref_pfx *p, uint8_t reg,
		    uint8_t *rm, uint8_t *im)
{
	(void) reg;

	*rm = RM_YES;
	*im = RI_NONE;

	if ((op >= 0x80) && (op < 0x90)) {
		*rm = RM_NO;
		*im = RI_RELZ;
		return 1;
	}
	if ((op >= 0xc8) && (op < 0xd0)) {
		*rm = RM_NO;
		return 1;
	}
	if ((op >= 0x30) && (op < 0x38)) {
		*rm = RM_NO;
		return op != 0x36;
	}
	switch (op) {
	case 0x04: case 0x0a: case 0x0c:
	case 0x0f:	/* 3DNow! is not Intel's. */
	case 0x24: case 0x25: case 0x26: case 0x27:
	case 0x39: case 0x3b: case 0x3c: case 0x3d: case 0x3e: case 0x3f:
	case 0x7a: case 0x7b: case 0xa6: case 0xa7:
	case 0xff:	/* ud0: with or without ModRM. */
	case 0x38: case 0x3a:
		return 0;
	case 0xb8:
		/* popcnt; jmpe otherwise. */
		return p->f3;
	case 0x05: case 0x06: case 0x07: case 0x08: case 0x09: case 0x0b:
	case 0x0e: case 0x77: case 0xa0: case 0xa1: case 0xa2: case 0xa8:
	case 0xa9: case 0xaa:
		*rm = RM_NO;
		return 1;
	case 0x20: case 0x21: case 0x22: case 0x23:
		*rm = RM_REG;
		return 1;
	case 0x70: case 0x71: case 0x72: case 0x73:
	case 0xa4: case 0xac: case 0xba: case 0xc2:
	case 0xc4: case 0xc5: case 0xc6:
		*im = RI_8;
		return 1;
	case 0x78:
		/* vmread; extrq and insertq are not Intel's. */
		return !p->osz && !p->f2;
	}

	return 1;
}

/* VEX and EVEX opcodes. */
static int ref_vex(uint8_t op, const struct ref_pfx *p, uint8_t reg,
		   uint8_t *rm, uint8_t *im)
{
	*rm = RM_YES;
	*im = RI_NONE;

	switch (p->map) {
	case 1:
		if (op == 0x77) {
			*rm = RM_NO;
			return p->enc == 1;
		}
		if (((op >= 0x70) && (op < 0x74)) || (op == 0xc2) ||
		    ((op >= 0xc4) && (op < 0xc7)))
			*im = RI_8;
		if (p->enc == 2)
			return op >= 0x10;
		/* The opcodes that exist with VEX. */
		return (op >= 0x10 && op <= 0x17) || (op >= 0x28 && op <= 0x2f)
			|| (op >= 0x50 && op <= 0x77) || (op >= 0x7c &&
			op <= 0x7f) || op == 0xae || op == 0xc2 ||
			(op >= 0xc4 && op <= 0xc6) || op >= 0xd0 ||
			(op >= 0x41 && op <= 0x4b && op != 0x43 && op != 0x48
			 && op != 0x49) || (op >= 0x90 && op <= 0x93) ||
			op == 0x98 || op == 0x99;
	case 2:
		return 1;
	case 3:
		*im = RI_8;
		return 1;
	case 4:
		if (p->enc != 2)
			return 0;

		switch (op) {
		case 0x24: case 0x2c: case 0x6b: case 0x80: case 0x83:
		case 0xc0: case 0xc1:
			*im = RI_8;
			return 1;
		case 0x69: case 0x81:
			*im = RI_Z;
			return 1;
		case 0xf6:
			*im = (reg < 2) ? RI_8 : RI_NONE;
			return 1;
		case 0xf7:
			*im = (reg < 2) ? RI_Z : RI_NONE;
			return 1;
		case 0x00: case 0x01: case 0x02: case 0x03:
		case 0x08: case 0x09: case 0x0a: case 0x0b:
		case 0x10: case 0x11: case 0x12: case 0x13:
		case 0x18: case 0x19: case 0x1a: case 0x1b:
		case 0x20: case 0x21: case 0x22: case 0x23:
		case 0x28: case 0x29: case 0x2a: case 0x2b:
		case 0x30: case 0x31: case 0x32: case 0x33:
		case 0x84: case 0x85:
		case 0x40: case 0x41: case 0x42: case 0x43: case 0x44:
		case 0x45: case 0x46: case 0x47: case 0x48: case 0x49:
		case 0x4a: case 0x4b: case 0x4c: case 0x4d: case 0x4e:
		case 0x4f:
		case 0xa5: case 0xad: case 0xaf:
		case 0xd0: case 0xd1: case 0xd2: case 0xd3:
		case 0xfe: case 0xff:
			return 1;
		}
		return 0;
	case 5: case 6:
		return p->enc == 2;
	case 7:
		*im = RI_Z;	/* always 32 bits. */
		return (p->enc == 1) && (op == 0xf8 || op == 0xf6) && !reg;
	}

	return 0;
}

static uint8_t ref_zsize(const struct ref_pfx *p)
{
	if (p->mode == 3)
		return (p->rex_w || !p->osz) ? 4 : 2;

	return ((p->mode == 2) == !p->osz) ? 4 : 2;
}

/* The bytes a ModRM operand needs after the ModRM byte. */
static uint8_t ref_ea(const struct ref_pfx *p, uint8_t modrm, uint8_t sib)
{
	uint8_t mod = modrm >> 6, rm = modrm & 7;
	int a16 = (p->mode == 1 && !p->asz) || (p->mode == 2 && p->asz);

	if (mod == 3)
		return 0;

	if (a16) {
		if (!mod)
			return (rm == 6) ? 2 : 0;

		return mod;
	}

	if (rm == 4) {
		if (!mod)
			return ((sib & 7) == 5) ? 5 : 1;

		return (mod == 1) ? 2 : 5;
	}

	if (!mod)
		return (rm == 5) ? 4 : 0;

	return (mod == 1) ? 1 : 4;
}

/* Everything from the opcode byte on.
 *
 * @b: the bytes from the ModRM byte on; @pos: their offset in the instruction.
 */
static void ref_opcode(struct ref_insn *r, uint8_t op, struct ref_pfx *p,
		       const uint8_t *b, uint8_t pos)
{
	uint8_t rm, im, reg = (b[0] >> 3) & 7, n, z = ref_zsize(p);
	int m64 = p->mode == 3, ok;

	if (p->enc)
		ok = ref_vex(op, p, reg, &rm, &im);
	else if (!p->map)
		ok = ref_map0(op, p, b[0], &rm, &im);
	else if (p->map == 1)
		ok = ref_map1(op, p, reg, &rm, &im);
	else {
		rm = RM_YES;
		im = (p->map == 3) ? RI_8 : RI_NONE;
		ok = p->map <= 3;
	}

	/* Rows that REX2 reserves; JMPABS lives in one of them. */
	if (p->rex2) {
		if (!p->map && (op >> 4 == 4 || op >> 4 == 7 || op >> 4 == 0xa
				|| op >> 4 == 0xe)) {
			if (op == 0xa1 && !p->rex_w && !p->osz && !p->asz &&
			    !p->lock && !p->f2 && !p->f3) {
				r->defined = 1;
				r->len = pos + 8;
				r->cls = rc_jump;
				r->kind = rk_jmpabs;
				r->cpl = 0;
				r->iret = 0;
				r->direct = 1;
				r->dpos = pos;
				r->dlen = 8;
				return;
			}
			ok = 0;
		}
		if (p->map == 1 && (op >> 4 == 3 || op >> 4 == 8))
			ok = 0;
	}

	r->defined = (uint8_t) ok;
	r->cls = rc_other;
	r->kind = rk_none;
	r->direct = 0;
	r->cpl = 0;
	r->iret = 0;

	n = pos;
	if (rm == RM_REG)
		n += 1;
	else if (rm == RM_YES)
		n += 1 + ref_ea(p, b[0], b[1]);

	r->dpos = n;
	r->dlen = 0;
	switch (im) {
	case RI_8:
		n += 1;
		break;
	case RI_16:
		n += 2;
		break;
	case RI_Z:
		n += (p->enc && p->map == 7) ? 4 : z;
		break;
	case RI_V:
		n += (m64 && p->rex_w) ? 8 : z;
		break;
	case RI_16_8:
		n += 3;
		break;
	case RI_FAR:
		n += z + 2;
		break;
	case RI_REL8:
		r->dlen = 1;
		n += 1;
		break;
	case RI_RELZ:
		r->dlen = m64 ? 4 : z;
		n += r->dlen;
		break;
	case RI_XBEG:
		n += z;
		break;
	case RI_OFFS:
		if (m64)
			n += p->asz ? 4 : 8;
		else
			n += ((p->mode == 2) == !p->asz) ? 4 : 2;
		break;
	}
	r->len = n;

	if (!ok || p->enc)
		return;

	if (!p->map) {
		if (op >> 4 == 7 || (op >= 0xe0 && op <= 0xe3)) {
			r->cls = rc_cond;
			r->direct = 1;
		}
		switch (op) {
		case 0xe8:
			r->cls = rc_call;
			r->direct = 1;
			break;
		case 0xe9: case 0xeb:
			r->cls = rc_jump;
			r->direct = 1;
			break;
		case 0xff:
			if (reg == 2)
				r->cls = rc_call;
			if (reg == 3)
				r->cls = rc_fcall;
			if (reg == 4)
				r->cls = rc_jump;
			if (reg == 5)
				r->cls = rc_fjump;
			break;
		case 0xc2: case 0xc3:
			r->cls = rc_ret;
			break;
		case 0xca: case 0xcb:
			r->cls = rc_fret;
			break;
		case 0xcf:
			r->cls = rc_fret;
			r->iret = 1;
			r->cpl = 1;
			break;
		case 0xcc: case 0xcd: case 0xf1: case 0xce:
			r->cls = rc_fcall;
			r->cpl = 1;
			break;
		case 0x9a:
			r->cls = rc_fcall;
			break;
		case 0xea:
			r->cls = rc_fjump;
			break;
		}
		return;
	}

	if (p->map != 1)
		return;

	if (op >> 4 == 8) {
		r->cls = rc_cond;
		r->direct = 1;
	}
	switch (op) {
	case 0x05: case 0x34:
		r->cls = rc_fcall;
		r->cpl = 1;
		break;
	case 0x07: case 0x35:
		r->cls = rc_fret;
		r->iret = 1;
		r->cpl = 1;
		break;
	case 0x22:
		if (reg == 3 && !p->rex_r)
			r->kind = rk_cr3;
		break;
	case 0x01:
		if (p->osz || p->lock) {
			r->defined = 0;
			break;
		}
		if (!p->f2 && !p->f3) {
			if (b[0] == 0xc1)
				r->cls = rc_fcall;
			if (b[0] == 0xc2 || b[0] == 0xc3) {
				r->cls = rc_fret;
				r->kind = rk_vmentry;
			}
			if (b[0] == 0xec)
				r->defined = 0;
		}
		if (p->f3) {
			if (b[0] == 0xec) {
				r->cls = rc_fret;
				r->kind = rk_uiret;
				r->defined = (uint8_t) m64;
			}
		}
		if (p->f2 && b[0] == 0xec)
			r->defined = 0;
		if (b[0] == 0xca && (p->f2 || p->f3)) {
			r->cls = rc_fret;
			r->iret = 1;
			r->defined = (uint8_t) m64;
		}
		if ((p->f2 || p->f3) && b[0] >= 0xc1 && b[0] <= 0xc3)
			r->defined = 0;
		break;
	case 0xc7:
		if ((b[0] >> 6) != 3 && reg == 6 && !p->osz && !p->f2 && !p->f3)
			r->kind = rk_vmptrld;
		break;
	case 0xae:
		if (p->f3 && !p->osz && reg == 4)
			r->cls = rc_ptwrite;
		break;
	}
}

#endif /* REF_ILD_H */
