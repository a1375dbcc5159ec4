/* A model of the packet layer and an independent statement of how packets
 * denote events; used with the real pt_event_decoder.c, pt_event_queue.c and
 * pt_last_ip.c.
 *
 * The trace holds one byte per packet; packet i is P[i].  Packet kinds are
 * concrete per case, all payload is symbolic.
 */
#ifndef VF_EVT_H
#define VF_EVT_H

#include "vf.h"
#include "pt_event_decoder.h"
#include "pt_last_ip.h"
#include "pt_time.h"
#include "intel-pt.h"

#ifndef MAXP
#define MAXP 10
#endif

enum tok {
	PAD, UNK, TNT8, TNT64, TIP, TIP0, FUP, FUP0, FUPU, PGE, PGE0, PGD, PGD0,
	TSC, CBR, TMA, MTC, CYC, EXEC, EXEC1, EXECI, TSX, TSXA, PIP, VMCS, MNT,
	PSB, PSBEND, OVF, STOP, EXS, EXSI, MWT, PWRE, PWRX, PTW, PTWI, PTWBAD,
	C_INTR, C_IRET, C_SMI, C_RSM, C_SIPI, C_INIT, C_VMEN, C_VMEX, C_VMEXI,
	C_SHUT, C_UINTR, C_UIRET, C_UNK,
	I_INTR, I_IRET, I_SMI, I_RSM, I_SIPI, I_INIT, I_VMEN, I_VMEX, I_VMEXI,
	I_SHUT, I_UINTR, I_UIRET, I_UNK,
	E_CR2, E_VMXQ, E_VMXR, E_UNK,
	TRIG, TRIGV, TRIGC, TRIGI, TRIGIX, TRIGIC,
	NTOK
};

static struct pt_packet P[MAXP];
static enum tok T[MAXP];
static unsigned nP;
static int endstatus;			/* what the packet layer ends with */
static uint8_t trace[MAXP + 1];

/* --- packets --- */

static uint64_t nd_ip(void)
{
	uint64_t ip = nd_u64();

	/* canonical 48 bit, as pt_ipc_sext_48 denotes them */
	return (uint64_t) ((int64_t) (ip << 16) >> 16);
}

static void mk_ip(struct pt_packet *p, enum pt_packet_type t,
		  enum pt_ip_compression ipc)
{
	p->type = t;
	p->payload.ip.ip = ipc == pt_ipc_suppressed ? 0 :
		ipc == pt_ipc_update_16 ? nd_u16() : nd_ip();
	p->payload.ip.ipc = ipc;
}

static void mk_trig(struct pt_packet *p, unsigned ip, unsigned icntv,
		    unsigned icnt)
{
	p->type = ppt_trig;
	p->payload.trig.trbv = nd_u8();
	p->payload.trig.mult = nd_u8() & 1;
	if (icnt) {
		/* concrete: whether there is a count decides the flow */
		p->payload.trig.icnt = 0x8001;
	} else
		p->payload.trig.icnt = 0;
	p->payload.trig.ip = ip;
	p->payload.trig.icntv = icntv;
}

static void mk_cfe(struct pt_packet *p, enum pt_cfe_type t, unsigned ip)
{
	p->type = ppt_cfe;
	p->payload.cfe.vector = nd_u8();
	p->payload.cfe.ip = ip;
	p->payload.cfe.type = t;
}

static void mk_exec(struct pt_packet *p, unsigned csl, unsigned csd,
		    unsigned iflag)
{
	p->type = ppt_mode;
	p->payload.mode.leaf = pt_mol_exec;
	p->payload.mode.bits.exec.csl = csl;
	p->payload.mode.bits.exec.csd = csd;
	p->payload.mode.bits.exec.iflag = iflag;
}

/* Symbolic fields are assigned before concrete ones: they share a union. */
static void put(enum tok t)
{
	struct pt_packet *p = &P[nP];

	ASSERT(nP < MAXP, "(harness) room for packets");
	memset(p, 0, sizeof(*p));
	p->size = 1;
	T[nP] = t;
	nP += 1;

	switch (t) {
	default:
	case PAD: p->type = ppt_pad; break;
	case UNK: p->type = ppt_unknown; break;
	case TNT8:
		p->type = ppt_tnt_8;
		p->payload.tnt.bit_size = nd_u8();
		p->payload.tnt.payload = nd_u8();
		break;
	case TNT64:
		p->type = ppt_tnt_64;
		p->payload.tnt.bit_size = nd_u8();
		p->payload.tnt.payload = nd_u64();
		break;
	case TIP: mk_ip(p, ppt_tip, pt_ipc_sext_48); break;
	case TIP0: mk_ip(p, ppt_tip, pt_ipc_suppressed); break;
	case FUP: mk_ip(p, ppt_fup, pt_ipc_sext_48); break;
	case FUP0: mk_ip(p, ppt_fup, pt_ipc_suppressed); break;
	case FUPU: mk_ip(p, ppt_fup, pt_ipc_update_16); break;
	case PGE: mk_ip(p, ppt_tip_pge, pt_ipc_sext_48); break;
	case PGE0: mk_ip(p, ppt_tip_pge, pt_ipc_suppressed); break;
	case PGD: mk_ip(p, ppt_tip_pgd, pt_ipc_sext_48); break;
	case PGD0: mk_ip(p, ppt_tip_pgd, pt_ipc_suppressed); break;
	case TSC:
		p->type = ppt_tsc;
		p->payload.tsc.tsc = nd_u64();
		break;
	case CBR:
		p->type = ppt_cbr;
		p->payload.cbr.ratio = nd_u8();
		break;
	case TMA:
		p->type = ppt_tma;
		p->payload.tma.ctc = nd_u16();
		p->payload.tma.fc = nd_u16();
		break;
	case MTC:
		p->type = ppt_mtc;
		p->payload.mtc.ctc = nd_u8();
		break;
	case CYC:
		p->type = ppt_cyc;
		p->payload.cyc.value = nd_u64();
		break;
	case EXEC: mk_exec(p, 1, 0, 1); break;
	case EXEC1: mk_exec(p, 0, 1, 1); break;
	case EXECI: mk_exec(p, 1, 0, 0); break;
	case TSX:
	case TSXA:
		p->type = ppt_mode;
		p->payload.mode.bits.tsx.intx = nd_u8() & 1;
		p->payload.mode.bits.tsx.abrt = t == TSXA;
		p->payload.mode.leaf = pt_mol_tsx;
		break;
	case PIP:
		p->type = ppt_pip;
		p->payload.pip.cr3 = nd_u64();
		p->payload.pip.nr = nd_u8() & 1;
		break;
	case VMCS:
		p->type = ppt_vmcs;
		p->payload.vmcs.base = nd_u64();
		break;
	case MNT:
		p->type = ppt_mnt;
		p->payload.mnt.payload = nd_u64();
		break;
	case PSB: p->type = ppt_psb; break;
	case PSBEND: p->type = ppt_psbend; break;
	case OVF: p->type = ppt_ovf; break;
	case STOP: p->type = ppt_stop; break;
	case EXS:
	case EXSI:
		p->type = ppt_exstop;
		p->payload.exstop.ip = t == EXSI;
		break;
	case MWT:
		p->type = ppt_mwait;
		p->payload.mwait.hints = nd_u32();
		p->payload.mwait.ext = nd_u32();
		break;
	case PWRE:
		p->type = ppt_pwre;
		p->payload.pwre.state = nd_u8();
		p->payload.pwre.sub_state = nd_u8();
		p->payload.pwre.hw = nd_u8() & 1;
		break;
	case PWRX:
		p->type = ppt_pwrx;
		p->payload.pwrx.last = nd_u8();
		p->payload.pwrx.deepest = nd_u8();
		p->payload.pwrx.interrupt = nd_u8() & 1;
		p->payload.pwrx.store = nd_u8() & 1;
		p->payload.pwrx.autonomous = nd_u8() & 1;
		break;
	case PTW:
	case PTWI:
	case PTWBAD:
		p->type = ppt_ptw;
		p->payload.ptw.payload = nd_u64();
		p->payload.ptw.plc = t == PTWBAD ? 2 : t == PTWI;
		p->payload.ptw.ip = t == PTWI;
		break;
	case C_INTR: mk_cfe(p, pt_cfe_intr, 0); break;
	case C_IRET: mk_cfe(p, pt_cfe_iret, 0); break;
	case C_SMI: mk_cfe(p, pt_cfe_smi, 0); break;
	case C_RSM: mk_cfe(p, pt_cfe_rsm, 0); break;
	case C_SIPI: mk_cfe(p, pt_cfe_sipi, 0); break;
	case C_INIT: mk_cfe(p, pt_cfe_init, 0); break;
	case C_VMEN: mk_cfe(p, pt_cfe_vmentry, 0); break;
	case C_VMEX: mk_cfe(p, pt_cfe_vmexit, 0); break;
	case C_VMEXI: mk_cfe(p, pt_cfe_vmexit_intr, 0); break;
	case C_SHUT: mk_cfe(p, pt_cfe_shutdown, 0); break;
	case C_UINTR: mk_cfe(p, pt_cfe_uintr, 0); break;
	case C_UIRET: mk_cfe(p, pt_cfe_uiret, 0); break;
	case C_UNK: mk_cfe(p, (enum pt_cfe_type) 0x1f, 0); break;
	case I_INTR: mk_cfe(p, pt_cfe_intr, 1); break;
	case I_IRET: mk_cfe(p, pt_cfe_iret, 1); break;
	case I_SMI: mk_cfe(p, pt_cfe_smi, 1); break;
	case I_RSM: mk_cfe(p, pt_cfe_rsm, 1); break;
	case I_SIPI: mk_cfe(p, pt_cfe_sipi, 1); break;
	case I_INIT: mk_cfe(p, pt_cfe_init, 1); break;
	case I_VMEN: mk_cfe(p, pt_cfe_vmentry, 1); break;
	case I_VMEX: mk_cfe(p, pt_cfe_vmexit, 1); break;
	case I_VMEXI: mk_cfe(p, pt_cfe_vmexit_intr, 1); break;
	case I_SHUT: mk_cfe(p, pt_cfe_shutdown, 1); break;
	case I_UINTR: mk_cfe(p, pt_cfe_uintr, 1); break;
	case I_UIRET: mk_cfe(p, pt_cfe_uiret, 1); break;
	case I_UNK: mk_cfe(p, (enum pt_cfe_type) 0x1f, 1); break;
	case E_CR2:
	case E_VMXQ:
	case E_VMXR:
	case E_UNK:
		p->type = ppt_evd;
#ifdef EVDCONST
		/* Symbolic payloads hide the flags beside them in the union. */
		p->payload.evd.payload = UINT64_C(0x8123456789abcde0) + nP;
#else
		p->payload.evd.payload = nd_u64();
#endif
		p->payload.evd.type = t == E_CR2 ? pt_evd_cr2 :
			t == E_VMXQ ? pt_evd_vmxq :
			t == E_VMXR ? pt_evd_vmxr : (enum pt_evd_type) 0x3f;
		break;
	case TRIG: mk_trig(p, 0, 0, 0); break;
	case TRIGV: mk_trig(p, 0, 1, 0); break;
	case TRIGC: mk_trig(p, 0, 1, 1); break;
	case TRIGI: mk_trig(p, 1, 1, 0); break;
	case TRIGIX: mk_trig(p, 1, 0, 0); break;
	case TRIGIC: mk_trig(p, 1, 1, 1); break;
	}
}

/* --- the packet layer --- */

int pt_pkt_decoder_init(struct pt_packet_decoder *d,
			const struct pt_config *config)
{
	if (!d || !config)
		return -pte_invalid;
	memset(d, 0, sizeof(*d));
	d->config = *config;
	return 0;
}

void pt_pkt_decoder_fini(struct pt_packet_decoder *d)
{
	(void) d;
}

int pt_pkt_sync_set(struct pt_packet_decoder *d, uint64_t offset)
{
	if (offset > nP)
		return -pte_eos;
	d->pos = d->config.begin + offset;
	d->sync = d->pos;
	return 0;
}

int pt_pkt_sync_forward(struct pt_packet_decoder *d)
{
	unsigned i;

	i = d->pos ? (unsigned) (d->pos - d->config.begin) : 0;
	if (d->pos && d->pos == d->sync)
		i += 1;
	for (; i < nP; ++i)
		if (T[i] == PSB) {
			d->pos = d->config.begin + i;
			d->sync = d->pos;
			return 0;
		}
	return -pte_eos;
}

int pt_pkt_sync_backward(struct pt_packet_decoder *d)
{
	unsigned i;

	i = d->pos ? (unsigned) (d->pos - d->config.begin) : nP;
	while (i > 0) {
		i -= 1;
		if (T[i] == PSB) {
			d->pos = d->config.begin + i;
			d->sync = d->pos;
			return 0;
		}
	}
	return -pte_eos;
}

int pt_pkt_get_offset(const struct pt_packet_decoder *d, uint64_t *offset)
{
	if (!d || !offset)
		return -pte_invalid;
	if (!d->pos)
		return -pte_nosync;
	*offset = (uint64_t) (d->pos - d->config.begin);
	return 0;
}

int pt_pkt_get_sync_offset(const struct pt_packet_decoder *d, uint64_t *offset)
{
	if (!d || !offset)
		return -pte_invalid;
	if (!d->sync)
		return -pte_nosync;
	*offset = (uint64_t) (d->sync - d->config.begin);
	return 0;
}

const struct pt_config *
pt_pkt_get_config(const struct pt_packet_decoder *d)
{
	return d ? &d->config : NULL;
}

int pt_pkt_next(struct pt_packet_decoder *d, struct pt_packet *packet,
		size_t size)
{
	unsigned i;

	ASSERT(size == sizeof(*packet), "packets are fetched completely");
	if (!d->pos)
		return -pte_nosync;
	ASSERT(d->config.begin <= d->pos && d->pos <= d->config.end,
	       "the position stays inside the trace");
	i = (unsigned) (d->pos - d->config.begin);
	if (i >= nP)
		return endstatus;
	*packet = P[i];
	d->pos += 1;
	return 1;
}

/* --- time: the last TSC and counts of the other timing packets --- */

void pt_time_init(struct pt_time *t)
{
	memset(t, 0, sizeof(*t));
}

int pt_time_query_tsc(uint64_t *tsc, uint32_t *lost_mtc, uint32_t *lost_cyc,
		      const struct pt_time *t)
{
	*tsc = t->tsc;
	*lost_mtc = t->lost_mtc;
	*lost_cyc = t->lost_cyc;
	return t->have_tsc ? 0 : -pte_no_time;
}

int pt_time_query_cbr(uint32_t *cbr, const struct pt_time *t)
{
	*cbr = t->cbr;
	return 0;
}

int pt_time_update_tsc(struct pt_time *t, const struct pt_packet_tsc *p,
		       const struct pt_config *c)
{
	(void) c;
	t->tsc = p->tsc;
	t->have_tsc = 1;
	t->lost_mtc = t->lost_cyc = 0;
	return -pte_bad_config;
}

int pt_time_update_cbr(struct pt_time *t, const struct pt_packet_cbr *p,
		       const struct pt_config *c)
{
	(void) c;
	t->tsc += p->ratio;
	return -pte_bad_config;
}

int pt_time_update_tma(struct pt_time *t, const struct pt_packet_tma *p,
		       const struct pt_config *c)
{
	(void) c;
	t->tsc ^= p->ctc;
	t->tsc += p->fc;
	return -pte_bad_config;
}

int pt_time_update_mtc(struct pt_time *t, const struct pt_packet_mtc *p,
		       const struct pt_config *c)
{
	(void) c;
	t->tsc += (uint64_t) p->ctc << 8;
	t->lost_mtc += 1;
	return -pte_bad_config;
}

int pt_time_update_cyc(struct pt_time *t, const struct pt_packet_cyc *p,
		       const struct pt_config *c, uint64_t fcr)
{
	(void) c;
	t->tsc += p->value + fcr;
	t->lost_cyc += 1;
	return -pte_bad_config;
}

void pt_tcal_init(struct pt_time_cal *t)
{
	memset(t, 0, sizeof(*t));
}

int pt_tcal_fcr(uint64_t *fcr, const struct pt_time_cal *t)
{
	*fcr = t->fcr;
	return t->fcr ? 0 : -pte_no_time;
}

/* Calibration counts timing packets; the number becomes visible at CYC. */
int pt_tcal_update_tsc(struct pt_time_cal *t, const struct pt_packet_tsc *p,
		       const struct pt_config *c)
{
	(void) p; (void) c;
	t->fcr += 1;
	return -pte_bad_config;
}

int pt_tcal_header_tsc(struct pt_time_cal *t, const struct pt_packet_tsc *p,
		       const struct pt_config *c)
{
	(void) p; (void) c;
	t->fcr += 0x10;
	return -pte_bad_config;
}

int pt_tcal_update_cbr(struct pt_time_cal *t, const struct pt_packet_cbr *p,
		       const struct pt_config *c)
{
	(void) p; (void) c;
	t->fcr += 0x100;
	return -pte_bad_config;
}

int pt_tcal_header_cbr(struct pt_time_cal *t, const struct pt_packet_cbr *p,
		       const struct pt_config *c)
{
	(void) p; (void) c;
	t->fcr += 0x1000;
	return -pte_bad_config;
}

int pt_tcal_update_tma(struct pt_time_cal *t, const struct pt_packet_tma *p,
		       const struct pt_config *c)
{
	(void) p; (void) c;
	t->fcr += 0x10000;
	return -pte_bad_config;
}

int pt_tcal_update_mtc(struct pt_time_cal *t, const struct pt_packet_mtc *p,
		       const struct pt_config *c)
{
	(void) p; (void) c;
	t->fcr += 0x100000;
	return -pte_bad_config;
}

int pt_tcal_update_cyc(struct pt_time_cal *t, const struct pt_packet_cyc *p,
		       const struct pt_config *c)
{
	(void) p; (void) c;
	t->fcr += 0x1000000;
	return -pte_bad_config;
}

int pt_tcal_update_ovf(struct pt_time_cal *t, const struct pt_config *c)
{
	(void) c;
	t->fcr += 0x10000000;
	return 0;
}

/* --- what packets denote --- */

struct rev {
	enum pt_event_type type;
	int supp, status, has_tsc;
	uint64_t tsc;
	uint32_t mtc, cyc;
	uint64_t ip;			/* if not suppressed */
	uint64_t f[6];
	unsigned mask;			/* pending at: */
	int ignore, known;
};

#define AT_TIP 1
#define AT_FUP 2			/* reported at FUP; FUP stays free */
#define AT_FUPB 4			/* FUP belongs to it */

/* The state: separate objects keep the symbolic execution fast. */
static unsigned R_n;			/* events so far */
static int R_err;			/* negative error at the end */
static int R_anyerr;			/* ... whichever */
static unsigned R_errpos;
static int R_unspec;			/* the format does not say */
static int R_en;
static int R_ip_have, R_ip_supp;
static uint64_t R_ip;
static int R_mode_valid;
static unsigned R_csl, R_csd, R_iflag;
static struct pt_time R_time;
static uint64_t R_cal;
static struct rev R_pend[5];
static unsigned R_npend;
static struct rev R_cfe;			/* EVD seen, CFE to follow */
static int R_has_cfe;
static struct rev R_mwt;
static int R_has_mwt;

static void r_event(const struct rev *e);	/* e is expected next */

static int opt_iflags, opt_keeptcal;
static struct pt_errata err;

static void r_time(struct rev *e)
{
	e->known = 1;
	e->has_tsc = R_time.have_tsc;
	e->tsc = R_time.tsc;
	e->mtc = R_time.lost_mtc;
	e->cyc = R_time.lost_cyc;
}

static void r_out(struct rev *e)
{
	if (!e->known)
		r_time(e);
	R_n += 1;
	if (!R_unspec)
		r_event(e);
}

static struct rev r_new(enum pt_event_type t)
{
	struct rev e;

	memset(&e, 0, sizeof(e));
	e.type = t;
	return e;
}

static void r_setip(struct rev *e)
{
	if (!R_ip_have || R_ip_supp)
		e->supp = 1;
	else
		e->ip = R_ip;
}

static void r_alone(struct rev *e)
{
	e->supp = 1;
	r_out(e);
}

static void r_pend(struct rev *e, unsigned mask)
{
	e->mask = mask;
	ASSERT(R_npend < 5, "(harness) room for pending events");
	R_pend[R_npend++] = *e;
}

static int r_upip(const struct pt_packet_ip *p)
{
	switch (p->ipc) {
	case pt_ipc_suppressed:
		R_ip_supp = 1;
		break;
	case pt_ipc_update_16:
		R_ip = (R_ip & ~0xffffull) | p->ip;
		R_ip_have = 1;
		R_ip_supp = 0;
		break;
	default:
		R_ip = p->ip;
		R_ip_have = 1;
		R_ip_supp = 0;
		break;
	}
	return 0;
}

static int r_fail(int e, unsigned at)
{
	R_err = e;
	R_anyerr = !e;
	R_errpos = at;
	return -1;
}

/* Timing packets; returns non-zero if @i is one. */
static int r_timing(unsigned i, int header)
{
	const struct pt_packet *p = &P[i];

	switch (p->type) {
	case ppt_tsc:
		R_cal += header ? 0x10 : 1;
		R_time.tsc = p->payload.tsc.tsc;
		R_time.have_tsc = 1;
		R_time.lost_mtc = R_time.lost_cyc = 0;
		return 1;
	case ppt_cbr:
		R_cal += header ? 0x1000 : 0x100;
		R_time.tsc += p->payload.cbr.ratio;
		return 1;
	case ppt_tma:
		R_cal += 0x10000;
		R_time.tsc = (R_time.tsc ^ p->payload.tma.ctc)
			+ p->payload.tma.fc;
		return 1;
	case ppt_mtc:
		R_cal += 0x100000;
		R_time.tsc += (uint64_t) p->payload.mtc.ctc << 8;
		R_time.lost_mtc += 1;
		return 1;
	case ppt_cyc:
		R_cal += 0x1000000;
		R_time.tsc += p->payload.cyc.value + R_cal;
		R_time.lost_cyc += 1;
		return 1;
	default:
		return 0;
	}
}

/* The PSB+ beginning at @i.  Its packets bind to PSBEND or OVF. Returns the
 * index of that packet.
 */
static int r_header(unsigned *pi)
{
	struct rev h[6];
	unsigned i = *pi, nh = 0, j;
	int ended_by_ovf = 0;

	if (R_npend || R_has_cfe || R_has_mwt)
		return r_fail(-pte_bad_context, i);

	R_ip_have = R_ip_supp = 0;
	R_ip = 0;
	R_en = 0;

	for (i += 1;; ++i) {
		struct rev e;
		const struct pt_packet *p;

		if (i >= nP)
			return r_fail(endstatus, nP);
		p = &P[i];
		if (p->type == ppt_psbend)
			break;
		if (p->type == ppt_ovf) {
			ended_by_ovf = 1;
			break;
		}
		switch (p->type) {
		case ppt_pad:
			break;
		case ppt_fup:
			R_en = p->payload.ip.ipc != pt_ipc_suppressed;
			if (err.bdm70) {
				/* An enable that follows shows that tracing is
				 * disabled.
				 */
				for (j = i + 1; j < nP; ++j) {
					enum pt_packet_type t = P[j].type;

					if (t == ppt_tip_pge) {
						R_en = 0;
						break;
					}
					if (t != ppt_pad && t != ppt_tsc
					    && t != ppt_cbr && t != ppt_psbend
					    && t != ppt_pip && t != ppt_mode
					    && t != ppt_vmcs && t != ppt_tma
					    && t != ppt_mtc && t != ppt_cyc
					    && t != ppt_mnt)
						break;
				}
				if (j == nP && endstatus != -pte_eos)
					return r_fail(endstatus, i);
			}
			if (R_en)
				r_upip(&p->payload.ip);
			break;
		case ppt_mode:
			if (p->payload.mode.leaf == pt_mol_tsx) {
				e = r_new(ptev_tsx);
				e.f[0] = p->payload.mode.bits.tsx.intx;
				e.f[1] = p->payload.mode.bits.tsx.abrt;
				h[nh++] = e;
				break;
			}
			if (R_mode_valid) {
				if ((opt_iflags && R_iflag !=
				     p->payload.mode.bits.exec.iflag)
				    || R_csd != p->payload.mode.bits.exec.csd
				    || R_csl != p->payload.mode.bits.exec.csl)
					return r_fail(-pte_bad_status_update,
						      i);
			} else {
				R_mode_valid = 1;
				R_csl = p->payload.mode.bits.exec.csl;
				R_csd = p->payload.mode.bits.exec.csd;
				R_iflag = p->payload.mode.bits.exec.iflag;
			}
			e = r_new(ptev_exec_mode);
			e.f[0] = R_csl ? ptem_64bit : R_csd ? ptem_32bit :
				ptem_16bit;
			h[nh++] = e;
			if (opt_iflags) {
				e = r_new(ptev_iflags);
				e.f[0] = R_iflag;
				h[nh++] = e;
			}
			break;
		case ppt_pip:
			e = r_new(ptev_async_paging);
			e.f[0] = p->payload.pip.cr3;
			e.f[1] = p->payload.pip.nr;
			h[nh++] = e;
			break;
		case ppt_vmcs:
			e = r_new(ptev_async_vmcs);
			e.f[0] = p->payload.vmcs.base;
			h[nh++] = e;
			break;
		case ppt_mnt:
			e = r_new(ptev_mnt);
			e.f[0] = p->payload.mnt.payload;
			/* no status, and no address: the field is unused */
			e.status = -1;
			h[nh++] = e;
			break;
		case ppt_cbr:
			r_timing(i, 1);
			e = r_new(ptev_cbr);
			e.f[0] = p->payload.cbr.ratio;
			h[nh++] = e;
			break;
		default:
			if (!r_timing(i, 1))
				return r_fail(-pte_bad_context, i);
			break;
		}
	}

	if (R_en || !ended_by_ovf) {
		struct rev e = r_new(R_en ? ptev_enabled : ptev_disabled);

		e.status = 1;
		if (R_en)
			r_setip(&e);
		else
			e.supp = 1;
		r_out(&e);
	}
	for (j = 0; j < nh; ++j) {
		h[j].status += 1;
		if (h[j].type != ptev_cbr && h[j].type != ptev_mnt)
			r_setip(&h[j]);
		r_out(&h[j]);
	}
	*pi = i;
	return 0;
}

/* Is there a FUP in the PSB+ that begins at @i? */
static int r_header_fup(unsigned i)
{
	for (i += 1; i < nP; ++i) {
		switch (P[i].type) {
		case ppt_fup:
			return (int) i;
		case ppt_psbend:
		case ppt_ovf:
			return 0;
		case ppt_mode: case ppt_pip: case ppt_vmcs: case ppt_mnt:
		case ppt_tsc: case ppt_cbr: case ppt_tma: case ppt_mtc:
		case ppt_cyc: case ppt_pad:
			break;
		default:
			return -pte_bad_context;
		}
	}
	return endstatus;
}

/* The overflow resolved at packet @j with the IP of packet @ip (0: tracing is
 * disabled); decoding continues with packet @next.
 */
static int r_resolved(unsigned *pi, struct rev *e, unsigned j, unsigned ip,
		      unsigned next)
{
	for (*pi += 1; *pi < j; ++*pi)
		r_timing(*pi, 0);
	if (ip) {
		r_upip(&P[ip].payload.ip);
		R_en = 1;
		r_setip(e);
	} else
		e->supp = 1;
	r_out(e);
	*pi = next - 1;
	return 1;
}

/* Errata that lose the FUP of an overflow (SKD010) or add a TIP.PGD (APL11).
 *
 * Returns one if the overflow has been handled, zero if not.
 */
static int r_errata_ovf(unsigned *pi, struct rev *e, int bad)
{
	unsigned j;

	if (err.skd010) {
		int tsx = -1;

		for (j = *pi + 1; j < nP; ++j) {
			struct rev t;
			int fup;

			switch (P[j].type) {
			case ppt_tip_pgd:
				return r_resolved(pi, e, j, 0, j + 1);
			case ppt_tip:
				return r_resolved(pi, e, j, j, j + 1);
			case ppt_fup:
				if (tsx >= 0) {
					const struct pt_packet_mode_tsx *m;

					m = &P[tsx].payload.mode.bits.tsx;
					t = r_new(ptev_tsx);
					t.f[0] = m->intx;
					t.f[1] = m->abrt;
					r_pend(&t, AT_FUPB);
				}
				return r_resolved(pi, e, j, j, j);
			case ppt_psb:
				fup = r_header_fup(j);
				if (fup > 0)
					return r_resolved(pi, e, j,
							  (unsigned) fup, j);
				if (fup < 0 && fup != -pte_eos)
					return r_fail(fup, *pi);
				goto no_skd010;
			case ppt_psbend:
				return r_fail(-pte_bad_context, *pi);
			case ppt_mode:
				if (P[j].payload.mode.leaf == pt_mol_tsx) {
					if (tsx >= 0)
						goto no_skd010;
					tsx = (int) j;
				}
				break;
			case ppt_exstop:
				if (P[j].payload.exstop.ip)
					goto no_skd010;
				break;
			case ppt_ptw:
				if (P[j].payload.ptw.ip)
					goto no_skd010;
				break;
			case ppt_cfe:
				if (P[j].payload.cfe.ip)
					goto no_skd010;
				break;
			case ppt_pip: case ppt_vmcs: case ppt_pad:
			case ppt_mnt: case ppt_pwre: case ppt_pwrx:
			case ppt_evd: case ppt_trig: case ppt_tsc:
			case ppt_cbr: case ppt_tma: case ppt_mtc:
			case ppt_cyc:
				break;
			default:
				goto no_skd010;
			}
		}
		if (endstatus != -pte_eos)
			return r_fail(endstatus, *pi);
	}
no_skd010:
	if (err.apl11 && bad == -pte_bad_context) {
		for (j = *pi + 1; j < nP; ++j) {
			switch (P[j].type) {
			case ppt_tip_pgd:
				return r_resolved(pi, e, j, 0, j + 1);
			case ppt_pad: case ppt_mnt: case ppt_cfe:
			case ppt_evd: case ppt_trig: case ppt_tsc:
			case ppt_cbr: case ppt_tma: case ppt_mtc:
			case ppt_cyc:
				continue;
			default:
				break;
			}
			break;
		}
	}
	return 0;
}

/* Erratum APL12: a FUP, at @fup, although tracing is disabled. */
static int r_errata_apl12(unsigned *pi, unsigned fup)
{
	struct rev e = r_new(ptev_overflow);
	unsigned j;
	int status;

	for (j = fup + 1; j < nP; ++j) {
		switch (P[j].type) {
		case ppt_tnt_8: case ppt_tnt_64: case ppt_tip:
		case ppt_tip_pgd: case ppt_psbend: case ppt_ovf:
		case ppt_unknown:
			return 0;
		case ppt_psb:
			status = r_header_fup(j);
			if (status > 0 || status == -pte_eos)
				return 0;
			if (status < 0)
				return r_fail(status, *pi);
			return r_resolved(pi, &e, fup, 0, fup + 1);
		case ppt_stop:
		case ppt_tip_pge:
			return r_resolved(pi, &e, fup, 0, fup + 1);
		default:
			break;
		}
	}
	if (endstatus != -pte_eos)
		return r_fail(endstatus, *pi);
	return 0;
}

/* Overflow at @i.  Returns the index of the next packet to process. */
static int r_ovf(unsigned *pi)
{
	struct rev e = r_new(ptev_overflow);
	unsigned i;
	int fup = 0, bad = 0;

	R_npend = 0;
	R_has_cfe = R_has_mwt = 0;
	R_ip_have = R_ip_supp = 0;
	R_ip = 0;
	R_mode_valid = 0;
	R_en = 0;
	R_cal = opt_keeptcal ? R_cal + 0x10000000 : 0;
	r_time(&e);

	/* It resolved while tracing if only timing precedes a FUP. */
	for (i = *pi + 1; i < nP; ++i) {
		enum pt_packet_type t = P[i].type;

		if (t == ppt_fup) {
			fup = 1;
			break;
		}
		if (t == ppt_pad || t == ppt_unknown || t == ppt_mnt
		    || t == ppt_cbr || t == ppt_tsc || t == ppt_tma
		    || t == ppt_mtc || t == ppt_cyc)
			continue;
		if (t == ppt_psbend || t == ppt_tip || t == ppt_tip_pgd
		    || t == ppt_tnt_8 || t == ppt_tnt_64)
			bad = -pte_bad_context;
		break;
	}
	if (i == nP && !fup && endstatus != -pte_eos)
		bad = endstatus;

	if (!fup) {
		if (err.skd010 || (err.apl11 && bad == -pte_bad_context)) {
			int status = r_errata_ovf(pi, &e, bad);

			if (status)
				return status > 0 ? 0 : -1;
		}
		if (bad)
			return r_fail(bad, *pi);
		r_alone(&e);
		return 0;
	}
	if (err.apl12) {
		int status = r_errata_apl12(pi, i);

		if (status)
			return status > 0 ? 0 : -1;
	}
	r_pend(&e, AT_FUPB);
	return 0;
}

static void r_at_fup(struct rev *e)
{
	if (e->type == ptev_overflow)
		R_en = 1;
	if (e->type == ptev_rsm || e->type == ptev_sipi)
		e->supp = 1;
	else
		r_setip(e);
}

static int r_fup(unsigned i)
{
	unsigned j, k, taken = 0;

	r_upip(&P[i].payload.ip);

	/* Everything bound to a FUP happens at its IP. */
	for (j = k = 0; j < R_npend; ++j) {
		struct rev e = R_pend[j];

		if (!(e.mask & (AT_FUP | AT_FUPB))) {
			R_pend[k++] = e;
			continue;
		}
		if (e.mask & AT_FUPB)
			taken = 1;
		if (e.ignore)
			continue;
		r_at_fup(&e);
		r_out(&e);
	}
	R_npend = k;

	/* A FUP of its own is the source of an asynchronous branch. */
	if (!taken) {
		struct rev e = r_new(ptev_async_branch);

		if (!R_ip_have || R_ip_supp)
			return r_fail(0, i);
		e.f[0] = R_ip;
		r_pend(&e, AT_TIP);
	}
	return 0;
}

static int r_pending_async(void)
{
	unsigned j;

	for (j = 0; j < R_npend; ++j)
		if (!R_pend[j].ignore && R_pend[j].type == ptev_async_branch)
			return 1;
	return 0;
}

/* TIP, TIP.PGE, TIP.PGD: the branch first, then what is bound to it. */
static int r_tip(unsigned i)
{
	enum pt_packet_type t = P[i].type;
	struct rev e;
	unsigned j, k;
	int have = 0;

	if (t == ppt_tip && !R_en)
		return r_fail(-pte_bad_context, i);

	r_upip(&P[i].payload.ip);

	if (t == ppt_tip_pge) {
		e = r_new(ptev_enabled);
		r_setip(&e);
		r_out(&e);
		R_en = 1;
		have = 1;
	} else {
		for (j = 0; j < R_npend; ++j)
			if (!R_pend[j].ignore
			    && R_pend[j].type == ptev_async_branch)
				break;
		if (j < R_npend) {
			e = R_pend[j];
			for (; j + 1 < R_npend; ++j)
				R_pend[j] = R_pend[j + 1];
			R_npend -= 1;
			if (t == ppt_tip_pgd) {
				e.type = ptev_async_disabled;
				R_en = 0;
			}
			r_setip(&e);
			r_out(&e);
			have = 1;
		} else if (t == ppt_tip) {
			e = r_new(ptev_tip);
			r_setip(&e);
			r_out(&e);
			have = 1;
		}
	}

	/* VMCS comes before PIP. */
	for (j = k = 0; j < R_npend; ++j) {
		e = R_pend[j];
		if (!(e.mask & AT_TIP)) {
			R_pend[k++] = e;
			continue;
		}
		if (e.ignore)
			continue;
		if (t == ppt_tip_pge && e.type != ptev_exec_mode
		    && e.type != ptev_iflags)
			return r_fail(-pte_bad_context, i);
		if (e.type == ptev_async_branch) {
			R_unspec = t == ppt_tip_pgd;
			return r_fail(-pte_bad_context, i);
		}
		if (t == ppt_tip_pgd)
			e.supp = 1;
		else
			r_setip(&e);
		r_out(&e);
	}
	R_npend = k;

	if (!have) {
		e = r_new(ptev_disabled);
		r_setip(&e);
		r_out(&e);
		R_en = 0;
	}
	return 0;
}

static int r_cfe(unsigned i)
{
	const struct pt_packet_cfe *c = &P[i].payload.cfe;
	struct rev e;
	int unbound = 1;		/* happens at a FUP even without IP bit */

	switch (c->type) {
	case pt_cfe_intr: e = r_new(ptev_interrupt); break;
	case pt_cfe_iret: e = r_new(ptev_iret); unbound = 0; break;
	case pt_cfe_smi: e = r_new(ptev_smi); break;
	case pt_cfe_rsm: e = r_new(ptev_rsm); break;
	case pt_cfe_sipi: e = r_new(ptev_sipi); break;
	case pt_cfe_init: e = r_new(ptev_init); break;
	case pt_cfe_vmentry: e = r_new(ptev_vmentry); unbound = 0; break;
	case pt_cfe_vmexit:
	case pt_cfe_vmexit_intr: e = r_new(ptev_vmexit); break;
	case pt_cfe_shutdown: e = r_new(ptev_shutdown); unbound = 0; break;
	case pt_cfe_uintr: e = r_new(ptev_uintr); break;
	case pt_cfe_uiret: e = r_new(ptev_uiret); unbound = 0; break;
	default:
		if (R_has_cfe)
			return r_fail(0, i);
		if (c->ip) {
			e = r_new(ptev_enabled);
			e.ignore = 1;
			r_pend(&e, AT_FUPB);
		}
		return 0;
	}

	if (R_has_cfe) {
		if (R_cfe.type != e.type)
			return r_fail(-pte_bad_context, i);
		e = R_cfe;
		R_has_cfe = 0;
	}

	if (c->type == pt_cfe_intr || c->type == pt_cfe_sipi
	    || c->type == pt_cfe_uintr)
		e.f[0] = c->vector;
	if (c->type == pt_cfe_vmexit_intr) {
		e.f[1] = 1;
		e.f[0] = c->vector;
	}

	if ((c->type == pt_cfe_rsm || c->type == pt_cfe_sipi) && c->ip)
		return r_fail(-pte_bad_packet, i);

	if (c->ip)
		r_pend(&e, AT_FUPB);
	else if (unbound && R_en)
		r_pend(&e, AT_FUP);
	else
		r_alone(&e);
	return 0;
}

static int r_evd(unsigned i)
{
	const struct pt_packet_evd *d = &P[i].payload.evd;
	enum pt_event_type t;
	unsigned f;

	switch (d->type) {
	case pt_evd_cr2: t = ptev_interrupt; f = 2; break;
	case pt_evd_vmxq: t = ptev_vmexit; f = 2; break;
	case pt_evd_vmxr: t = ptev_vmexit; f = 4; break;
	default: return 0;
	}
	if (R_has_cfe && (t == ptev_interrupt || R_cfe.type != t))
		return r_fail(-pte_bad_context, i);
	if (!R_has_cfe) {
		R_cfe = r_new(t);
		R_has_cfe = 1;
	}
	if (R_cfe.f[f])
		return r_fail(-pte_bad_context, i);
	R_cfe.f[f] = 1;
	R_cfe.f[f + 1] = d->payload;
	return 0;
}

static int r_packet(unsigned *pi)
{
	unsigned i = *pi;
	const struct pt_packet *p = &P[i];
	struct rev e;

	switch (p->type) {
	case ppt_tnt_8:
	case ppt_tnt_64:
		if (!R_en)
			return r_fail(-pte_bad_context, i);
		e = r_new(ptev_tnt);
		e.f[0] = p->payload.tnt.payload;
		e.f[1] = p->payload.tnt.bit_size;
		r_out(&e);
		return 0;
	case ppt_tip:
	case ppt_tip_pge:
	case ppt_tip_pgd:
		return r_tip(i);
	case ppt_fup:
		return r_fup(i);
	case ppt_cbr:
		r_timing(i, 0);
		e = r_new(ptev_cbr);
		e.f[0] = p->payload.cbr.ratio;
		r_out(&e);
		return 0;
	case ppt_mode:
		if (p->payload.mode.leaf == pt_mol_tsx) {
			e = r_new(ptev_tsx);
			e.f[0] = p->payload.mode.bits.tsx.intx;
			e.f[1] = p->payload.mode.bits.tsx.abrt;
			if (!R_en)
				r_alone(&e);
			else
				r_pend(&e, e.f[1] ? AT_FUP : AT_FUPB);
			return 0;
		} else {
			unsigned csl = p->payload.mode.bits.exec.csl;
			unsigned csd = p->payload.mode.bits.exec.csd;
			unsigned ifl = p->payload.mode.bits.exec.iflag;
			int any = 0;

			if (!R_mode_valid || csl != R_csl || csd != R_csd) {
				e = r_new(ptev_exec_mode);
				e.f[0] = csl ? ptem_64bit : csd ? ptem_32bit :
					ptem_16bit;
				r_pend(&e, AT_TIP | AT_FUPB);
				any = 1;
			}
			if (opt_iflags && (!R_mode_valid || ifl != R_iflag)) {
				e = r_new(ptev_iflags);
				e.f[0] = ifl;
				r_pend(&e, AT_TIP | AT_FUPB);
				any = 1;
				R_iflag = ifl;
			}
			if (!any) {
				e = r_new(ptev_exec_mode);
				e.ignore = 1;
				r_pend(&e, AT_TIP | AT_FUPB);
			}
			R_mode_valid = 1;
			R_csl = csl;
			R_csd = csd;
			return 0;
		}
	case ppt_pip:
		if (r_pending_async()) {
			e = r_new(ptev_async_paging);
			e.f[0] = p->payload.pip.cr3;
			e.f[1] = p->payload.pip.nr;
			r_pend(&e, AT_TIP);
			return 0;
		}
		e = r_new(ptev_paging);
		e.f[0] = p->payload.pip.cr3;
		e.f[1] = p->payload.pip.nr;
		r_out(&e);
		return 0;
	case ppt_vmcs:
		if (r_pending_async()) {
			unsigned j, k;

			e = r_new(ptev_async_vmcs);
			e.f[0] = p->payload.vmcs.base;
			r_pend(&e, AT_TIP);
			/* ordered before the paging event */
			for (j = 0; j < R_npend; ++j)
				if (!R_pend[j].ignore
				    && R_pend[j].type == ptev_async_paging)
					break;
			for (k = R_npend - 1; k > j; --k) {
				e = R_pend[k];
				R_pend[k] = R_pend[k - 1];
				R_pend[k - 1] = e;
			}
			return 0;
		}
		e = r_new(ptev_vmcs);
		e.f[0] = p->payload.vmcs.base;
		r_out(&e);
		return 0;
	case ppt_mnt:
		e = r_new(ptev_mnt);
		e.f[0] = p->payload.mnt.payload;
		r_out(&e);
		return 0;
	case ppt_stop:
		e = r_new(ptev_stop);
		r_out(&e);
		return 0;
	case ppt_mwait:
		if (R_has_mwt) {
			R_unspec = 1;
			return r_fail(0, i);
		}
		R_mwt = r_new(ptev_mwait);
		R_mwt.f[0] = p->payload.mwait.hints;
		R_mwt.f[1] = p->payload.mwait.ext;
		R_has_mwt = 1;
		return 0;
	case ppt_exstop:
		if (R_has_mwt) {
			if (p->payload.exstop.ip)
				r_pend(&R_mwt, AT_FUPB);
			else
				r_alone(&R_mwt);
			R_has_mwt = 0;
		}
		e = r_new(ptev_exstop);
		if (p->payload.exstop.ip)
			r_pend(&e, AT_FUPB);
		else
			r_alone(&e);
		return 0;
	case ppt_pwre:
		e = r_new(ptev_pwre);
		e.f[0] = p->payload.pwre.state;
		e.f[1] = p->payload.pwre.sub_state;
		e.f[2] = p->payload.pwre.hw;
		r_out(&e);
		return 0;
	case ppt_pwrx:
		e = r_new(ptev_pwrx);
		e.f[0] = p->payload.pwrx.last;
		e.f[1] = p->payload.pwrx.deepest;
		e.f[2] = p->payload.pwrx.interrupt;
		e.f[3] = p->payload.pwrx.store;
		e.f[4] = p->payload.pwrx.autonomous;
		r_out(&e);
		return 0;
	case ppt_ptw:
		if (p->payload.ptw.plc > 1)
			return r_fail(0, i);
		e = r_new(ptev_ptwrite);
		e.f[0] = p->payload.ptw.payload;
		e.f[1] = p->payload.ptw.plc ? 8 : 4;
		if (p->payload.ptw.ip)
			r_pend(&e, AT_FUPB);
		else
			r_alone(&e);
		return 0;
	case ppt_cfe:
		return r_cfe(i);
	case ppt_evd:
		return r_evd(i);
	case ppt_trig:
		e = r_new(ptev_trig);
		e.f[0] = p->payload.trig.trbv;
		e.f[1] = p->payload.trig.mult;
		if (p->payload.trig.ip) {
			if (!p->payload.trig.icntv || p->payload.trig.icnt)
				return r_fail(-pte_bad_packet, i);
			r_pend(&e, AT_FUPB);
			return 0;
		}
		if (T[i] == TRIGC && !R_en)
			return r_fail(-pte_bad_packet, i);
		e.f[2] = p->payload.trig.icnt;
		e.supp = !p->payload.trig.icntv;
		r_out(&e);
		return 0;
	case ppt_psb:
		if (r_header(pi) < 0)
			return -1;
		if (P[*pi].type == ppt_ovf)
			return r_ovf(pi);
		return 0;
	case ppt_psbend:
		return 0;
	case ppt_ovf:
		return r_ovf(pi);
	default:
		r_timing(i, 0);
		return 0;
	}
}

/* What packets @i.. denote; all known packets if @complete. */
static void r_run(unsigned i, int complete)
{
	for (; i < nP; ++i)
		if (r_packet(&i) < 0)
			return;
	if (complete)
		r_fail(endstatus, nP);
}

static void r_reset(void)
{
	R_n = 0;
	R_err = R_anyerr = 0;
	R_en = R_ip_have = R_ip_supp = R_mode_valid = 0;
	R_has_cfe = R_has_mwt = 0;
	R_npend = 0;
	R_cal = 0;
	memset(&R_time, 0, sizeof(R_time));
}

/* --- comparison --- */

#define FIELD(x, n) ASSERT(ev->variant.x == r->f[n], "event payload")
#define IP(x) ASSERT(r->supp || ev->variant.x == r->ip, "event address")

static void r_compare(const struct pt_event *ev, const struct rev *r)
{
	ASSERT(ev->type == r->type, "the event the packets denote");
	ASSERT(ev->status_update == (r->status > 0), "status update");
	ASSERT(!!ev->has_tsc == !!r->has_tsc, "event has a time");
	ASSERT(ev->tsc == r->tsc && ev->lost_mtc == r->mtc
	       && ev->lost_cyc == r->cyc, "event time");

	switch (r->type) {
	case ptev_paging: case ptev_vmcs: case ptev_stop: case ptev_pwre:
	case ptev_pwrx: case ptev_cbr: case ptev_mnt: case ptev_tnt:
		break;
	default:
		ASSERT(!!ev->ip_suppressed == !!r->supp, "IP suppression");
		break;
	}

	switch (r->type) {
	case ptev_enabled: IP(enabled.ip); break;
	case ptev_disabled: IP(disabled.ip); break;
	case ptev_async_disabled:
		FIELD(async_disabled.at, 0); IP(async_disabled.ip); break;
	case ptev_async_branch:
		FIELD(async_branch.from, 0); IP(async_branch.to); break;
	case ptev_paging:
		FIELD(paging.cr3, 0); FIELD(paging.non_root, 1); break;
	case ptev_async_paging:
		FIELD(async_paging.cr3, 0); FIELD(async_paging.non_root, 1);
		IP(async_paging.ip); break;
	case ptev_overflow: IP(overflow.ip); break;
	case ptev_exec_mode:
		FIELD(exec_mode.mode, 0); IP(exec_mode.ip); break;
	case ptev_tsx:
		FIELD(tsx.speculative, 0); FIELD(tsx.aborted, 1);
		IP(tsx.ip); break;
	case ptev_vmcs: FIELD(vmcs.base, 0); break;
	case ptev_async_vmcs:
		FIELD(async_vmcs.base, 0); IP(async_vmcs.ip); break;
	case ptev_exstop: IP(exstop.ip); break;
	case ptev_mwait:
		FIELD(mwait.hints, 0); FIELD(mwait.ext, 1); IP(mwait.ip);
		break;
	case ptev_pwre:
		FIELD(pwre.state, 0); FIELD(pwre.sub_state, 1);
		FIELD(pwre.hw, 2); break;
	case ptev_pwrx:
		FIELD(pwrx.last, 0); FIELD(pwrx.deepest, 1);
		FIELD(pwrx.interrupt, 2); FIELD(pwrx.store, 3);
		FIELD(pwrx.autonomous, 4); break;
	case ptev_ptwrite:
		FIELD(ptwrite.payload, 0); FIELD(ptwrite.size, 1);
		IP(ptwrite.ip); break;
	case ptev_cbr: FIELD(cbr.ratio, 0); break;
	case ptev_mnt: FIELD(mnt.payload, 0); break;
	case ptev_tip: IP(tip.ip); break;
	case ptev_tnt: FIELD(tnt.bits, 0); FIELD(tnt.size, 1); break;
	case ptev_iflags: FIELD(iflags.iflag, 0); IP(iflags.ip); break;
	case ptev_interrupt:
		FIELD(interrupt.vector, 0); FIELD(interrupt.has_cr2, 2);
		FIELD(interrupt.cr2, 3); IP(interrupt.ip); break;
	case ptev_iret: IP(iret.ip); break;
	case ptev_smi: IP(smi.ip); break;
	case ptev_sipi: FIELD(sipi.vector, 0); break;
	case ptev_init: IP(init.ip); break;
	case ptev_vmentry: IP(vmentry.ip); break;
	case ptev_vmexit:
		FIELD(vmexit.vector, 0); FIELD(vmexit.has_vector, 1);
		FIELD(vmexit.has_vmxq, 2); FIELD(vmexit.vmxq, 3);
		FIELD(vmexit.has_vmxr, 4); FIELD(vmexit.vmxr, 5);
		IP(vmexit.ip); break;
	case ptev_shutdown: IP(shutdown.ip); break;
	case ptev_uintr: FIELD(uintr.vector, 0); IP(uintr.ip); break;
	case ptev_uiret: IP(uiret.ip); break;
	case ptev_trig:
		FIELD(trig.trbv, 0); FIELD(trig.mult, 1);
		FIELD(trig.icnt, 2); IP(trig.ip);
		break;
	default:
		break;
	}
}

#endif
