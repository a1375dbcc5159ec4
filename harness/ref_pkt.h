/* An independent reading of the Intel PT packet formats (SDM Vol. 3, "Intel
 * Processor Trace", packet definitions).  Deliberately written as one table-free
 * function over single bytes; shares nothing with the implementation but the
 * public packet structure.
 */
#ifndef REF_PKT_H
#define REF_PKT_H

#include "vf.h"
#include "intel-pt.h"

enum ref_kind {
	rk_ok,		/* a packet */
	rk_eos,		/* does not fit into the buffer */
	rk_bad,		/* malformed payload */
	rk_eos_bad,	/* does not fit; what is there may be found malformed */
	rk_unknown	/* unknown opcode */
};

struct ref_pkt {
	enum ref_kind kind;
	struct pt_packet p;
	unsigned size;
};

#define RP_MAX 16

/* little-endian value of @n bytes at @b */
static uint64_t ref_le(const uint8_t *b, unsigned off, unsigned n)
{
	uint64_t v = 0;
	unsigned i;

	for (i = 0; i < 8; ++i)
		if (i < n)
			v |= (uint64_t) b[(off + i) & 0xf] << (8 * i);
	return v;
}

/* @b: RP_MAX bytes, of which the first @rem are inside the trace buffer; the
 * others read as zero.
 */
static void ref_decode(struct ref_pkt *r, const uint8_t b[RP_MAX], unsigned rem)
{
	uint8_t o = b[0], x = b[1];
	unsigned i;

	memset(r, 0, sizeof(*r));
	r->kind = rk_ok;

	if (rem < 1) {
		r->kind = rk_eos;
		return;
	}

	if ((o & 3) == 3) {
		/* CYC: 5 bits, then 7 bits per byte while bit 0 (bit 2 in the
		 * first byte) is set.  Values beyond 64 bits are malformed.
		 */
		uint64_t v = o >> 3;
		unsigned n = 1, sh = 5, more = (o >> 2) & 1;

		for (i = 1; i < 10; ++i) {
			if (more) {
				if (rem <= i) {
					r->kind = rk_eos;
					return;
				}
				if (sh + 7 > 64) {
					r->kind = rk_bad;
					return;
				}
				v |= (uint64_t) (b[i] >> 1) << sh;
				sh += 7;
				more = b[i] & 1;
				n = i + 1;
			}
		}
		r->p.type = ppt_cyc;
		r->p.payload.cyc.value = v;
		r->size = n;
	} else if (o == 0x00) {
		r->p.type = ppt_pad;
		r->size = 1;
	} else if (o == 0x02) {
		if (rem < 2) {
			r->kind = rk_eos;
			return;
		}
		if (x == 0x82) {
			r->p.type = ppt_psb;
			r->size = 16;
			for (i = 0; i < 16; i += 2)
				if (b[i] != 0x02 || b[i + 1] != 0x82)
					r->kind = rk_bad;
		} else if (x == 0x23) {
			r->p.type = ppt_psbend;
			r->size = 2;
		} else if (x == 0xf3) {
			r->p.type = ppt_ovf;
			r->size = 2;
		} else if (x == 0x83) {
			r->p.type = ppt_stop;
			r->size = 2;
		} else if (x == 0x03) {
			r->p.type = ppt_cbr;
			r->size = 4;
			r->p.payload.cbr.ratio = b[2];
		} else if (x == 0x73) {
			r->p.type = ppt_tma;
			r->size = 7;
			r->p.payload.tma.ctc = (uint16_t) ref_le(b, 2, 2);
			r->p.payload.tma.fc = (uint16_t) ref_le(b, 5, 2);
			if (b[4] || (b[6] & 0xfe))
				r->kind = rk_bad;
		} else if (x == 0x43) {
			uint64_t v = ref_le(b, 2, 6);

			r->p.type = ppt_pip;
			r->size = 8;
			r->p.payload.pip.nr = v & 1;
			r->p.payload.pip.cr3 = (v >> 1) << 5;
		} else if (x == 0xc8) {
			r->p.type = ppt_vmcs;
			r->size = 7;
			r->p.payload.vmcs.base = ref_le(b, 2, 5) << 12;
		} else if (x == 0xa3) {
			uint64_t v = ref_le(b, 2, 6);

			r->p.type = ppt_tnt_64;
			r->size = 8;
			for (i = 1; i < 48; ++i)
				if ((v >> i) == 1) {
					r->p.payload.tnt.bit_size = (uint8_t) i;
					r->p.payload.tnt.payload =
						v ^ (1ull << i);
				}
			if (v <= 1)
				r->kind = rk_bad;
		} else if (x == 0x62 || x == 0xe2) {
			r->p.type = ppt_exstop;
			r->size = 2;
			r->p.payload.exstop.ip = x == 0xe2;
		} else if (x == 0xc2) {
			r->p.type = ppt_mwait;
			r->size = 10;
			r->p.payload.mwait.hints = (uint32_t) ref_le(b, 2, 4);
			r->p.payload.mwait.ext = (uint32_t) ref_le(b, 6, 4);
		} else if (x == 0x22) {
			r->p.type = ppt_pwre;
			r->size = 4;
			r->p.payload.pwre.hw = (b[2] >> 3) & 1;
			r->p.payload.pwre.sub_state = b[3] & 0xf;
			r->p.payload.pwre.state = b[3] >> 4;
		} else if (x == 0xa2) {
			r->p.type = ppt_pwrx;
			r->size = 7;
			r->p.payload.pwrx.deepest = b[2] & 0xf;
			r->p.payload.pwrx.last = b[2] >> 4;
			r->p.payload.pwrx.interrupt = b[3] & 1;
			r->p.payload.pwrx.store = (b[3] >> 2) & 1;
			r->p.payload.pwrx.autonomous = (b[3] >> 3) & 1;
		} else if ((x & 0x1f) == 0x12) {
			unsigned pb = (x >> 5) & 3;

			r->p.type = ppt_ptw;
			r->p.payload.ptw.plc = (uint8_t) pb;
			r->p.payload.ptw.ip = x >> 7;
			r->size = pb ? 10 : 6;
			r->p.payload.ptw.payload = ref_le(b, 2, pb ? 8 : 4);
			if (pb > 1) {
				r->kind = rk_bad;
				return;
			}
		} else if (x == 0x13) {
			r->p.type = ppt_cfe;
			r->size = 4;
			r->p.payload.cfe.type = (enum pt_cfe_type) (b[2] & 0x1f);
			r->p.payload.cfe.ip = b[2] >> 7;
			r->p.payload.cfe.vector = b[3];
		} else if (x == 0x53) {
			r->p.type = ppt_evd;
			r->size = 11;
			r->p.payload.evd.type = (enum pt_evd_type) (b[2] & 0x1f);
			r->p.payload.evd.payload = ref_le(b, 3, 8);
		} else if (x == 0xc3) {
			if (rem < 3) {
				r->kind = rk_eos;
				return;
			}
			if (b[2] == 0x88) {
				r->p.type = ppt_mnt;
				r->size = 11;
				r->p.payload.mnt.payload = ref_le(b, 3, 8);
			} else
				r->kind = rk_unknown;
		} else
			r->kind = rk_unknown;
	} else if ((o & 1) == 0) {
		/* TNT-8: the highest set bit is the stop bit. */
		r->p.type = ppt_tnt_8;
		r->size = 1;
		for (i = 1; i < 7; ++i)
			if ((o >> (i + 1)) == 1) {
				r->p.payload.tnt.bit_size = (uint8_t) i;
				r->p.payload.tnt.payload =
					(uint64_t) (o >> 1) ^ (1ull << i);
			}
	} else if (o == 0x19) {
		r->p.type = ppt_tsc;
		r->size = 8;
		r->p.payload.tsc.tsc = ref_le(b, 1, 7);
	} else if (o == 0x59) {
		r->p.type = ppt_mtc;
		r->size = 2;
		r->p.payload.mtc.ctc = b[1];
	} else if (o == 0x99) {
		r->p.type = ppt_mode;
		r->size = 2;
		if ((b[1] >> 5) == 0) {
			r->p.payload.mode.leaf = pt_mol_exec;
			r->p.payload.mode.bits.exec.csl = b[1] & 1;
			r->p.payload.mode.bits.exec.csd = (b[1] >> 1) & 1;
			r->p.payload.mode.bits.exec.iflag = (b[1] >> 2) & 1;
		} else if ((b[1] >> 5) == 1) {
			r->p.payload.mode.leaf = pt_mol_tsx;
			r->p.payload.mode.bits.tsx.intx = b[1] & 1;
			r->p.payload.mode.bits.tsx.abrt = (b[1] >> 1) & 1;
		} else
			r->kind = rk_bad;
	} else if (o == 0xd9) {
		r->p.type = ppt_trig;
		r->size = 3;
		r->p.payload.trig.ip = b[1] >> 7;
		r->p.payload.trig.icntv = (b[1] >> 6) & 1;
		r->p.payload.trig.mult = (b[1] >> 5) & 1;
		r->p.payload.trig.trbv = b[2];
		if (r->p.payload.trig.icntv) {
			r->size = 5;
			r->p.payload.trig.icnt = (uint16_t) ref_le(b, 3, 2);
		}
	} else {
		unsigned ipc = o >> 5, n = 0;

		switch (o & 0x1f) {
		case 0x0d: r->p.type = ppt_tip; break;
		case 0x11: r->p.type = ppt_tip_pge; break;
		case 0x01: r->p.type = ppt_tip_pgd; break;
		case 0x1d: r->p.type = ppt_fup; break;
		default: r->kind = rk_unknown; return;
		}
		switch (ipc) {
		case 0: n = 0; break;
		case 1: n = 2; break;
		case 2: n = 4; break;
		case 3: case 4: n = 6; break;
		case 6: n = 8; break;
		default: r->kind = rk_bad; return;
		}
		r->p.payload.ip.ipc = (enum pt_ip_compression) ipc;
		r->p.payload.ip.ip = ref_le(b, 1, n);
		r->size = 1 + n;
	}

	if (r->kind == rk_unknown)
		return;
	r->p.size = (uint8_t) r->size;
	if (r->kind == rk_ok && rem < r->size)
		r->kind = rk_eos;
	if (r->kind == rk_bad && rem < r->size)
		r->kind = rk_eos_bad;
}

/* Type-directed comparison of the meaningful fields. */
static int ref_same(const struct pt_packet *a, const struct pt_packet *b)
{
	if (a->type != b->type || a->size != b->size)
		return 0;

	switch (a->type) {
	case ppt_fup: case ppt_tip: case ppt_tip_pge: case ppt_tip_pgd:
		return a->payload.ip.ipc == b->payload.ip.ipc &&
			a->payload.ip.ip == b->payload.ip.ip;
	case ppt_tnt_8: case ppt_tnt_64:
		return a->payload.tnt.bit_size == b->payload.tnt.bit_size &&
			a->payload.tnt.payload == b->payload.tnt.payload;
	case ppt_mode:
		if (a->payload.mode.leaf != b->payload.mode.leaf)
			return 0;
		if (a->payload.mode.leaf == pt_mol_exec)
			return a->payload.mode.bits.exec.csl ==
				b->payload.mode.bits.exec.csl &&
				a->payload.mode.bits.exec.csd ==
				b->payload.mode.bits.exec.csd &&
				a->payload.mode.bits.exec.iflag ==
				b->payload.mode.bits.exec.iflag;
		return a->payload.mode.bits.tsx.intx ==
			b->payload.mode.bits.tsx.intx &&
			a->payload.mode.bits.tsx.abrt ==
			b->payload.mode.bits.tsx.abrt;
	case ppt_pip:
		return a->payload.pip.cr3 == b->payload.pip.cr3 &&
			a->payload.pip.nr == b->payload.pip.nr;
	case ppt_vmcs:
		return a->payload.vmcs.base == b->payload.vmcs.base;
	case ppt_cbr:
		return a->payload.cbr.ratio == b->payload.cbr.ratio;
	case ppt_tsc:
		return a->payload.tsc.tsc == b->payload.tsc.tsc;
	case ppt_tma:
		return a->payload.tma.ctc == b->payload.tma.ctc &&
			a->payload.tma.fc == b->payload.tma.fc;
	case ppt_mtc:
		return a->payload.mtc.ctc == b->payload.mtc.ctc;
	case ppt_cyc:
		return a->payload.cyc.value == b->payload.cyc.value;
	case ppt_mnt:
		return a->payload.mnt.payload == b->payload.mnt.payload;
	case ppt_exstop:
		return a->payload.exstop.ip == b->payload.exstop.ip;
	case ppt_mwait:
		return a->payload.mwait.hints == b->payload.mwait.hints &&
			a->payload.mwait.ext == b->payload.mwait.ext;
	case ppt_pwre:
		return a->payload.pwre.state == b->payload.pwre.state &&
			a->payload.pwre.sub_state == b->payload.pwre.sub_state &&
			a->payload.pwre.hw == b->payload.pwre.hw;
	case ppt_pwrx:
		return a->payload.pwrx.last == b->payload.pwrx.last &&
			a->payload.pwrx.deepest == b->payload.pwrx.deepest &&
			a->payload.pwrx.interrupt == b->payload.pwrx.interrupt &&
			a->payload.pwrx.store == b->payload.pwrx.store &&
			a->payload.pwrx.autonomous ==
			b->payload.pwrx.autonomous;
	case ppt_ptw:
		return a->payload.ptw.payload == b->payload.ptw.payload &&
			a->payload.ptw.plc == b->payload.ptw.plc &&
			a->payload.ptw.ip == b->payload.ptw.ip;
	case ppt_cfe:
		return a->payload.cfe.type == b->payload.cfe.type &&
			a->payload.cfe.vector == b->payload.cfe.vector &&
			a->payload.cfe.ip == b->payload.cfe.ip;
	case ppt_evd:
		return a->payload.evd.type == b->payload.evd.type &&
			a->payload.evd.payload == b->payload.evd.payload;
	case ppt_trig:
		return a->payload.trig.trbv == b->payload.trig.trbv &&
			a->payload.trig.ip == b->payload.trig.ip &&
			a->payload.trig.icntv == b->payload.trig.icntv &&
			a->payload.trig.mult == b->payload.trig.mult &&
			(!a->payload.trig.icntv ||
			 a->payload.trig.icnt == b->payload.trig.icnt);
	default:
		return 1;
	}
}

#endif
