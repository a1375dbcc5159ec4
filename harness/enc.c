/* C03: encode an arbitrary packet at an arbitrary position and decode it. */
#include "vf.h"
#include "pt_encoder.h"
#include "pt_packet_decoder.h"
#include "ref_pkt.h"

#ifndef N
#define N 18
#endif

static unsigned ipc_size(unsigned ipc)
{
	return ipc == 0 ? 0 : ipc == 1 ? 2 : ipc == 2 ? 4 : ipc == 6 ? 8 : 6;
}

static uint64_t low(uint64_t v, unsigned n)
{
	return n >= 64 ? v : v & ((1ull << n) - 1);
}

/* An arbitrary packet of every type; returns its encoded size if it is
 * well-formed, zero otherwise.
 */
static unsigned mk(struct pt_packet *p)
{
	uint64_t v = nd_u64();
	uint32_t w = nd_u32();
	uint8_t b = nd_u8(), c = nd_u8();
	unsigned i, n;

	memset(p, 0, sizeof(*p));
	p->type = (enum pt_packet_type) nd_u8();
	ASSUME((unsigned) p->type < 40);

	switch (p->type) {
	case ppt_pad: return 1;
	case ppt_psb: return 16;
	case ppt_psbend: case ppt_ovf: case ppt_stop: return 2;
	case ppt_fup: case ppt_tip: case ppt_tip_pge: case ppt_tip_pgd:
		ASSUME(b < 16);
		p->payload.ip.ipc = (enum pt_ip_compression) b;
		p->payload.ip.ip = v;
		n = ipc_size(b);
		if (b == 5 || b > 6 || v != low(v, 8 * n))
			return 0;
		return n + 1;
	case ppt_tnt_8:
		p->payload.tnt.bit_size = b;
		p->payload.tnt.payload = v;
		return (b >= 1 && b <= 6 && v == low(v, b)) ? 1 : 0;
	case ppt_tnt_64:
		p->payload.tnt.bit_size = b;
		p->payload.tnt.payload = v;
		return (b >= 1 && b <= 47 && v == low(v, b)) ? 8 : 0;
	case ppt_mode:
		if (b & 1) {
			p->payload.mode.leaf = pt_mol_exec;
			p->payload.mode.bits.exec.csl = (c >> 0) & 1;
			p->payload.mode.bits.exec.csd = (c >> 1) & 1;
			p->payload.mode.bits.exec.iflag = (c >> 2) & 1;
			return 2;
		}
		if (b & 2) {
			p->payload.mode.leaf = pt_mol_tsx;
			p->payload.mode.bits.tsx.intx = (c >> 0) & 1;
			p->payload.mode.bits.tsx.abrt = (c >> 1) & 1;
			return 2;
		}
		p->payload.mode.leaf = (enum pt_mode_leaf) c;
		ASSUME(c != 0x00 && c != 0x20);
		return 0;
	case ppt_pip:
		p->payload.pip.cr3 = v;
		p->payload.pip.nr = b & 1;
		return ((v & 0x1f) || (v >> 52)) ? 0 : 8;
	case ppt_vmcs:
		p->payload.vmcs.base = v;
		return ((v & 0xfff) || (v >> 52)) ? 0 : 7;
	case ppt_cbr:
		p->payload.cbr.ratio = b;
		return 4;
	case ppt_tsc:
		p->payload.tsc.tsc = v;
		return (v >> 56) ? 0 : 8;
	case ppt_tma:
		p->payload.tma.ctc = (uint16_t) v;
		p->payload.tma.fc = (uint16_t) w;
		return ((uint16_t) w > 0x1ff) ? 0 : 7;
	case ppt_mtc:
		p->payload.mtc.ctc = b;
		return 2;
	case ppt_cyc:
		p->payload.cyc.value = v;
		n = 1;
		for (i = 0; i < 9; ++i)
			if ((v >> (5 + 7 * i)) != 0)
				n = i + 2;
		return (v >> 61) ? 0 : n;
	case ppt_mnt:
		p->payload.mnt.payload = v;
		return 11;
	case ppt_exstop:
		p->payload.exstop.ip = b & 1;
		return 2;
	case ppt_mwait:
		p->payload.mwait.hints = (uint32_t) v;
		p->payload.mwait.ext = w;
		return 10;
	case ppt_pwre:
		p->payload.pwre.state = b;
		p->payload.pwre.sub_state = c;
		p->payload.pwre.hw = w & 1;
		return (b > 15 || c > 15) ? 0 : 4;
	case ppt_pwrx:
		p->payload.pwrx.last = b;
		p->payload.pwrx.deepest = c;
		p->payload.pwrx.interrupt = (w >> 0) & 1;
		p->payload.pwrx.store = (w >> 1) & 1;
		p->payload.pwrx.autonomous = (w >> 2) & 1;
		return (b > 15 || c > 15) ? 0 : 7;
	case ppt_ptw:
		p->payload.ptw.payload = v;
		p->payload.ptw.plc = b;
		ASSUME(b < 4);
		p->payload.ptw.ip = c & 1;
		if (b > 1 || (b == 0 && (v >> 32)))
			return 0;
		return b ? 10 : 6;
	case ppt_cfe:
		p->payload.cfe.type = (enum pt_cfe_type) b;
		p->payload.cfe.vector = c;
		p->payload.cfe.ip = w & 1;
		return b > 31 ? 0 : 4;
	case ppt_evd:
		p->payload.evd.type = (enum pt_evd_type) b;
		p->payload.evd.payload = v;
		return b > 31 ? 0 : 11;
	case ppt_trig:
		p->payload.trig.trbv = b;
		p->payload.trig.icnt = (uint16_t) v;
		p->payload.trig.ip = (w >> 0) & 1;
		p->payload.trig.icntv = (w >> 1) & 1;
		p->payload.trig.mult = (w >> 2) & 1;
		return p->payload.trig.icntv ? 5 : 3;
	case ppt_unknown:
	case ppt_invalid:
	default:
		return 0;
	}
}

void harness(void)
{
	static uint8_t buf[N], old[N];
	struct pt_config cfg;
	struct pt_encoder enc;
	struct pt_packet_decoder dec;
	struct pt_packet in, out;
	uint64_t pos, npos;
	unsigned size;
	int i, st;

	for (i = 0; i < N; ++i)
		old[i] = buf[i] = nd_u8();

	pt_config_init(&cfg);
	cfg.begin = buf;
	cfg.end = buf + N;
	st = pt_encoder_init(&enc, &cfg);
	ASSERT(st == 0, "encoder init");

#ifdef POS
	pos = POS;
#else
	pos = nd_u8();
#endif
	st = pt_enc_sync_set(&enc, pos);
	if (pos > N) {
		ASSERT(st == -pte_eos, "sync outside of the buffer refused");
		return;
	}
	ASSERT(st == 0, "sync set");

	size = mk(&in);
	st = pt_enc_next(&enc, &in);
	ASSERT(pt_enc_get_offset(&enc, &npos) == 0, "offset");

	if (st < 0) {
		ASSERT(npos == pos, "failed encode does not move");
		for (i = 0; i < N; ++i)
			ASSERT(buf[i] == old[i], "failed encode does not write");
		ASSERT(!size || pos + size > N,
		       "well-formed packet refused despite space");
		if (size)
			ASSERT(st == -pte_eos, "no space reported");
		if (in.type == ppt_unknown || in.type == ppt_invalid)
			ASSERT(st == -pte_bad_opc, "bad type reported");
		WITNESS("refused");
		return;
	}

	ASSERT(st > 0 && npos == pos + (uint64_t) st && npos <= N,
	       "advance inside the buffer");
	for (i = 0; i < N; ++i)
		ASSERT(((uint64_t) i >= pos && (uint64_t) i < npos) ||
		       buf[i] == old[i], "writes only the packet");

	/* Payload bits that have no place in the packet are dropped; nothing
	 * is claimed about the result.
	 */
	if (!size)
		return;

	ASSERT(st == (int) size, "encoded size");
	in.size = (uint8_t) size;

#ifdef DECODE
	st = pt_pkt_decoder_init(&dec, &cfg);
	ASSERT(st == 0, "decoder init");
	st = pt_pkt_sync_set(&dec, pos);
	ASSERT(st == 0, "decoder sync");
	memset(&out, 0, sizeof(out));
	st = pt_pkt_next(&dec, &out, sizeof(out));
	ASSERT(st == (int) size, "decoded size");
	ASSERT(ref_same(&in, &out), "decodes to the encoded packet");
#else
	(void) dec;
	(void) out;
#endif
	WITNESS("roundtrip");
}
