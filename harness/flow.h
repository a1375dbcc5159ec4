/* A program, a trace of its execution, and the flow they stand for.
 *
 * The program and the trace are symbolic.  The query decoder, the image and
 * the instruction length decoder are replaced by models that serve them; the
 * reference machine below says which instructions and events a flow decoder
 * has to return for them.
 */
#ifndef FLOW_H
#define FLOW_H

#include "pt_insn.h"
#include "pt_ild.h"
#include "pt_query_decoder.h"
#include "pt_msec_cache.h"
#include "pt_mapped_section.h"
#include "pt_image.h"
#include "intel-pt.h"

/* --- the program --- */

#ifndef NSLOT
#define NSLOT 4
#endif
#define BASE 0x1000ull
#define ISID 7

enum kind {
	K_OTHER, K_COND, K_JMP, K_CALL, K_JMPI, K_CALLI, K_RET, K_INT, K_IRET,
	K_FJMP, K_PTW, K_CR3, K_VMLAUNCH, K_VMPTRLD, K_UIRET, K_JMPABS, K_BAD,
	K_MAX
};

static uint8_t kinds[NSLOT];
static uint8_t targets[NSLOT];	/* the slot a direct branch goes to. */

/* Instructions are one byte, and the byte is the slot. */
static int slot_of(uint64_t ip)
{
	return (ip >= BASE && ip < BASE + NSLOT) ? (int) (ip - BASE) : -1;
}

static uint8_t kind_at(uint64_t ip)
{
	uint8_t i, k = K_BAD;

	for (i = 0; i < NSLOT; ++i)
		if (ip == BASE + i)
			k = kinds[i];

	return k;
}

static uint64_t target_at(uint64_t ip)
{
	uint64_t t = 0;
	uint8_t i;

	for (i = 0; i < NSLOT; ++i)
		if (ip == BASE + i)
			t = BASE + targets[i];

	return t;
}

static uint8_t class_of(uint8_t kind)
{
	switch (kind) {
	case K_COND: return ptic_cond_jump;
	case K_JMP: case K_JMPI: case K_JMPABS: return ptic_jump;
	case K_CALL: case K_CALLI: return ptic_call;
	case K_RET: return ptic_return;
	case K_INT: return ptic_far_call;
	case K_IRET: case K_VMLAUNCH: case K_UIRET: return ptic_far_return;
	case K_FJMP: return ptic_far_jump;
	case K_PTW: return ptic_ptwrite;
	}
	return ptic_other;
}

static int is_far(uint8_t k)
{
	return k == K_INT || k == K_IRET || k == K_VMLAUNCH || k == K_UIRET ||
		k == K_FJMP;
}

/* --- the trace --- */

#ifndef NITEM
#define NITEM 3
#endif

enum item { I_TNT, I_TIP, I_EV };

static uint8_t items[NITEM + 1];
static uint8_t nitems;
static uint8_t bits[NITEM + 1];		/* TNT: taken.  TIP: no IP. */
static uint64_t tips[NITEM + 1];
static struct pt_event events[NITEM + 1];

/* The model's and the reference's position. */
static uint8_t qpos;

static int status_at(uint8_t pos)
{
	if (pos >= nitems)
		return pts_eos;

	return items[pos] == I_EV ? pts_event_pending : 0;
}

/* --- what the decoder is built on --- */

static uint8_t sync_disabled;
static uint64_t sync_ip;
static struct pt_config the_config;
static uint64_t spec_cr3, spec_vmcs;	/* the reference's address space. */
static uint8_t cached;			/* a section is cached ... */
static uint64_t cached_cr3, cached_vmcs;	/* ... for this space. */
static uint8_t use_cache;
static uint8_t in_decoder;

int pt_qry_decoder_init(struct pt_query_decoder *decoder,
			const struct pt_config *config)
{
	decoder->evdec.pacdec.config = *config;
	return 0;
}

void pt_qry_decoder_fini(struct pt_query_decoder *decoder)
{
	(void) decoder;
}

void pt_image_init(struct pt_image *image, const char *name)
{
	(void) image;
	(void) name;
}

void pt_image_fini(struct pt_image *image)
{
	(void) image;
}

int pt_msec_cache_init(struct pt_msec_cache *cache)
{
	(void) cache;
	return 0;
}

void pt_msec_cache_fini(struct pt_msec_cache *cache)
{
	(void) cache;
}

static int vf_start(uint64_t *ip)
{
	int st = status_at(0);

	qpos = 0;
	if (sync_disabled)
		return st | pts_ip_suppressed;

	*ip = sync_ip;
	return st;
}

int pt_qry_sync_set(struct pt_query_decoder *decoder, uint64_t *ip,
		    uint64_t offset)
{
	(void) decoder;
	ASSERT(offset == 0x18, "synchronizes somewhere else");
	return vf_start(ip);
}

int pt_qry_sync_forward(struct pt_query_decoder *decoder, uint64_t *ip)
{
	(void) decoder;
	return vf_start(ip);
}

int pt_qry_sync_backward(struct pt_query_decoder *decoder, uint64_t *ip)
{
	(void) decoder;
	return vf_start(ip);
}

int pt_qry_cond_branch(struct pt_query_decoder *decoder, int *taken)
{
	uint8_t i, it = I_EV, b = 0;

	(void) decoder;
	if (qpos >= nitems)
		return -pte_eos;
	for (i = 0; i < NITEM; ++i)
		if (i == qpos) {
			it = items[i];
			b = bits[i];
		}
	if (it != I_TNT)
		return -pte_bad_query;
	*taken = b;
	qpos += 1;
	return status_at(qpos);
}

int pt_qry_indirect_branch(struct pt_query_decoder *decoder, uint64_t *ip)
{
	uint8_t i, it = I_EV, b = 0;
	uint64_t t = 0;

	(void) decoder;
	if (qpos >= nitems)
		return -pte_eos;
	for (i = 0; i < NITEM; ++i)
		if (i == qpos) {
			it = items[i];
			b = bits[i];
			t = tips[i];
		}
	if (it != I_TIP)
		return -pte_bad_query;
	qpos += 1;
	if (b)
		return status_at(qpos) | pts_ip_suppressed;
	*ip = t;
	return status_at(qpos);
}

int pt_qry_event(struct pt_query_decoder *decoder, struct pt_event *event,
		 size_t size)
{
	uint8_t i, it = I_TNT;

	(void) decoder;
	ASSERT(size == sizeof(*event), "asks for another event size");
	if (qpos >= nitems)
		return -pte_eos;
	for (i = 0; i < NITEM; ++i)
		if (i == qpos)
			it = items[i];
	if (it != I_EV)
		return -pte_bad_query;
	for (i = 0; i < NITEM; ++i)
		if (i == qpos)
			*event = events[i];
	qpos += 1;
	return status_at(qpos);
}

int pt_qry_time(struct pt_query_decoder *decoder, uint64_t *time,
		uint32_t *lost_mtc, uint32_t *lost_cyc)
{
	(void) decoder;
	*time = 0;
	*lost_mtc = 0;
	*lost_cyc = 0;
	return -pte_no_time;
}

/* The image: the program, in one section. */
static void vf_fill(struct pt_insn *insn, struct pt_insn_ext *iext, uint8_t i)
{
	uint8_t k = kinds[i];

	insn->size = 1;
	insn->iclass = (enum pt_insn_class) class_of(k);
	iext->iclass = PTI_INST_INVALID;
	iext->variant.branch.is_direct = 0;
	iext->variant.branch.displacement = 0;
	switch (k) {
	case K_COND:
		iext->iclass = PTI_INST_JCC;
		break;
	case K_JMP:
		iext->iclass = PTI_INST_JMP_E9;
		break;
	case K_CALL:
		iext->iclass = PTI_INST_CALL_E8;
		break;
	case K_JMPI:
		iext->iclass = PTI_INST_JMP_FFr4;
		break;
	case K_CALLI:
		iext->iclass = PTI_INST_CALL_FFr2;
		break;
	case K_RET:
		iext->iclass = PTI_INST_RET_C3;
		break;
	case K_INT:
		iext->iclass = PTI_INST_INT;
		break;
	case K_IRET:
		iext->iclass = PTI_INST_IRET;
		break;
	case K_FJMP:
		iext->iclass = PTI_INST_JMP_FFr5;
		break;
	case K_PTW:
		iext->iclass = PTI_INST_PTWRITE;
		break;
	case K_CR3:
		iext->iclass = PTI_INST_MOV_CR3;
		break;
	case K_VMLAUNCH:
		iext->iclass = PTI_INST_VMLAUNCH;
		break;
	case K_VMPTRLD:
		iext->iclass = PTI_INST_VMPTRLD;
		break;
	case K_UIRET:
		iext->iclass = PTI_INST_UIRET;
		break;
	case K_JMPABS:
		iext->iclass = PTI_INST_JMPABS;
		break;
	}
	if (k == K_COND || k == K_JMP || k == K_CALL || k == K_JMPABS) {
		iext->variant.branch.is_direct = 1;
		iext->variant.branch.displacement =
			(int64_t) targets[i] - (int64_t) i - 1;
	}
}

static int vf_decode_ip(struct pt_insn *insn, struct pt_insn_ext *iext,
			uint64_t ip)
{
	uint8_t i;

	for (i = 0; i < NSLOT; ++i)
		if (ip == BASE + i) {
			insn->raw[0] = i;
			if (kinds[i] == K_BAD)
				return -pte_bad_insn;
			vf_fill(insn, iext, i);
		}
	return 0;
}

/* replaces pt_insn_decode in the decoder. */
int vf_insn_decode(struct pt_insn *insn, struct pt_insn_ext *iext,
		   struct pt_image *image, const struct pt_asid *asid)
{
	(void) image;
	ASSERT(asid->cr3 == spec_cr3 && asid->vmcs == spec_vmcs,
	       "reads another address space");
	if (slot_of(insn->ip) < 0)
		return -pte_nomap;
	insn->isid = ISID;
	return vf_decode_ip(insn, iext, insn->ip);
}

int pt_ild_decode(struct pt_insn *insn, struct pt_insn_ext *iext)
{
	if (slot_of(insn->ip) < 0)
		return -pte_bad_insn;
	return vf_decode_ip(insn, iext, insn->ip);
}

static struct pt_mapped_section the_msec;

int pt_msec_cache_read(struct pt_msec_cache *cache,
		       const struct pt_mapped_section **pmsec,
		       struct pt_image *image, uint64_t vaddr)
{
	(void) cache;
	(void) image;
	if (!cached || slot_of(vaddr) < 0)
		return -pte_nomap;
	*pmsec = &the_msec;
	return ISID;
}

int pt_msec_cache_fill(struct pt_msec_cache *cache,
		       const struct pt_mapped_section **pmsec,
		       struct pt_image *image, const struct pt_asid *asid,
		       uint64_t vaddr)
{
	(void) cache;
	(void) image;
	ASSERT(asid->cr3 == spec_cr3 && asid->vmcs == spec_vmcs,
	       "looks up another address space");
	cached = 0;
	if (!use_cache || slot_of(vaddr) < 0)
		return -pte_nomap;
	cached = 1;
	cached_cr3 = asid->cr3;
	cached_vmcs = asid->vmcs;
	*pmsec = &the_msec;
	return ISID;
}

int pt_msec_cache_invalidate(struct pt_msec_cache *cache)
{
	(void) cache;
	cached = 0;
	return 0;
}

/* replaces pt_msec_read. */
int vf_msec_read(const struct pt_mapped_section *msec, void *buffer,
		 uint16_t size, uint64_t vaddr)
{
	int i = slot_of(vaddr);

	(void) msec;
	ASSERT(cached_cr3 == spec_cr3 && cached_vmcs == spec_vmcs,
	       "uses a section of another address space");
	if (i < 0 || !size)
		return -pte_nomap;
	*(uint8_t *) buffer = (uint8_t) i;
	return NSLOT - i;
}

/* --- the reference machine --- */

#define STACK 4

static struct {
	uint64_t ip;
	uint8_t enabled, spec;
	enum pt_exec_mode mode;
	uint64_t stack[STACK];
	uint8_t depth;
	uint8_t pos;		/* the next item in the trace. */

	uint8_t has_ev;		/* an event was taken from the trace, ... */
	uint8_t ev;		/* ... this one. */

	uint8_t on_insn;	/* we are in the middle of an instruction. */
	uint64_t iip;
	uint8_t ikind;
	uint32_t bound;		/* the kinds of events it already got. */

	/* TRIG: instructions since the last known location. */
	uint8_t anchor;
	uint32_t count;
	uint8_t trig_on;	/* the pending TRIG's location was reached. */
	uint32_t trig_left;
} M;

static void m_anchor(void)
{
	M.anchor = 1;
	M.count = 0;
}

/* Is there an event to be looked at? */
static int m_event(void)
{
	uint8_t i, it = I_TNT;

	if (M.has_ev)
		return 1;
	if (M.pos >= nitems)
		return 0;
	for (i = 0; i < NITEM; ++i)
		if (i == M.pos)
			it = items[i];
	if (it != I_EV)
		return 0;
	M.has_ev = 1;
	M.ev = M.pos;
	M.pos += 1;
	M.trig_on = 0;
	return 1;
}

/* The event's address. */
static uint64_t ev_ip(const struct pt_event *e)
{
	switch (e->type) {
	case ptev_enabled: return e->variant.enabled.ip;
	case ptev_disabled: return e->variant.disabled.ip;
	case ptev_async_disabled: return e->variant.async_disabled.at;
	case ptev_async_branch: return e->variant.async_branch.from;
	case ptev_async_paging: return e->variant.async_paging.ip;
	case ptev_overflow: return e->variant.overflow.ip;
	case ptev_exec_mode: return e->variant.exec_mode.ip;
	case ptev_tsx: return e->variant.tsx.ip;
	case ptev_async_vmcs: return e->variant.async_vmcs.ip;
	case ptev_exstop: return e->variant.exstop.ip;
	case ptev_mwait: return e->variant.mwait.ip;
	case ptev_ptwrite: return e->variant.ptwrite.ip;
	case ptev_iflags: return e->variant.iflags.ip;
	case ptev_interrupt: return e->variant.interrupt.ip;
	case ptev_iret: return e->variant.iret.ip;
	case ptev_smi: return e->variant.smi.ip;
	case ptev_init: return e->variant.init.ip;
	case ptev_vmentry: return e->variant.vmentry.ip;
	case ptev_vmexit: return e->variant.vmexit.ip;
	case ptev_shutdown: return e->variant.shutdown.ip;
	case ptev_uintr: return e->variant.uintr.ip;
	case ptev_uiret: return e->variant.uiret.ip;
	default: return 0;
	}
}

/* Does the event come between instructions, here? */
static int m_at_ip(const struct pt_event *e)
{
	int here = e->ip_suppressed || ev_ip(e) == M.ip;

	switch (e->type) {
	case ptev_disabled:
		return e->status_update;
	case ptev_enabled: case ptev_overflow: case ptev_stop:
	case ptev_pwre: case ptev_pwrx: case ptev_cbr: case ptev_mnt:
	case ptev_rsm: case ptev_sipi: case ptev_tick:
		return 1;
	case ptev_async_disabled: case ptev_async_branch:
		return ev_ip(e) == M.ip;
	case ptev_tsx: case ptev_async_paging: case ptev_async_vmcs:
		return here;
	case ptev_exec_mode: case ptev_exstop: case ptev_mwait:
	case ptev_iflags: case ptev_interrupt: case ptev_smi: case ptev_init:
	case ptev_vmexit: case ptev_shutdown: case ptev_uintr:
		return !M.enabled || here;
	case ptev_paging: case ptev_vmcs: case ptev_ptwrite: case ptev_iret:
	case ptev_vmentry: case ptev_uiret:
		return !M.enabled;
	default:
		return 0;
	}
}

/* Does the event belong to the instruction we are at?
 *
 * An instruction gets at most one event of each of these kinds.
 */
static int m_on_insn(const struct pt_event *e)
{
	uint8_t k = M.ikind;
	int ip = e->ip_suppressed ? 0 : ev_ip(e) == M.iip;

	if (M.bound & (1u << e->type))
		return 0;

	switch (e->type) {
	case ptev_disabled:
		if (e->status_update)
			return 0;
		if (e->ip_suppressed)
			return is_far(k) || k == K_CR3;
		/* Execution leaves the traced range for the event's IP. */
		if (k == K_JMP || k == K_CALL)
			return target_at(M.iip) == ev_ip(e);
		return k != K_OTHER && k != K_PTW && k != K_CR3 &&
			k != K_VMPTRLD;
	case ptev_paging:
		return is_far(k) || k == K_CR3;
	case ptev_vmcs:
		return is_far(k) || k == K_VMPTRLD;
	case ptev_ptwrite:
		return e->ip_suppressed ? k == K_PTW : ip;
	case ptev_iret:
		return e->ip_suppressed ? k == K_IRET : ip;
	case ptev_vmentry:
		return e->ip_suppressed ? k == K_VMLAUNCH : ip;
	case ptev_uiret:
		return e->ip_suppressed ? k == K_UIRET : ip;
	default:
		return 0;
	}
}

/* Leave the instruction: 0 or a failure. */
static int m_leave(void)
{
	uint64_t next = M.iip + 1;
	uint8_t i, k = M.ikind, it = I_EV, b = 0;
	uint64_t t = 0;

	M.on_insn = 0;
	M.bound = 0;
	/* Tracing got disabled. */
	if (!M.enabled)
		return 0;

	switch (k) {
	case K_OTHER: case K_PTW: case K_CR3: case K_VMPTRLD:
		M.ip = next;
		M.count += 1;
		return 0;
	case K_CALL:
		if (target_at(M.iip) != next) {
			for (i = 0; i < STACK; ++i)
				if (i == M.depth)
					M.stack[i] = next;
			M.depth += 1;
		}
		M.ip = target_at(M.iip);
		M.count += 1;
		return 0;
	case K_JMP:
		M.ip = target_at(M.iip);
		M.count += 1;
		return 0;
	case K_CALLI:
		for (i = 0; i < STACK; ++i)
			if (i == M.depth)
				M.stack[i] = next;
		M.depth += 1;
		break;
	}

	/* The trace says where to go. */
	if (M.has_ev || M.pos >= nitems)
		return 1;
	for (i = 0; i < NITEM; ++i)
		if (i == M.pos) {
			it = items[i];
			b = bits[i];
			t = tips[i];
		}

	if (k == K_COND) {
		if (it != I_TNT)
			return 1;
		M.pos += 1;
		M.ip = b ? target_at(M.iip) : next;
		m_anchor();
		return 0;
	}
	if (k == K_RET && it == I_TNT) {
		M.pos += 1;
		if (!b || !M.depth)
			return 1;
		M.depth -= 1;
		for (i = 0; i < STACK; ++i)
			if (i == M.depth)
				M.ip = M.stack[i];
		m_anchor();
		return 0;
	}
	if (it != I_TIP || b)
		return 1;
	M.pos += 1;
	M.ip = t;
	m_anchor();
	return 0;
}

static int m_status(int pending)
{
	int st = pending ? pts_event_pending : 0;

	if (!M.enabled)
		st |= pts_ip_suppressed;
	/* The end is reported once all events are. */
	if (M.pos >= nitems && !M.has_ev)
		st |= pts_eos;

	return st;
}

/* Between instructions: the status, or a failure as -1. */
static int m_boundary(void)
{
	uint8_t i;

	if (!m_event())
		return m_status(0);
	for (i = 0; i < NITEM; ++i)
		if (i == M.ev)
			return m_status(m_at_ip(&events[i]));

	return -1;
}

/* The instruction at M.ip is returned; what is the status? */
static int m_next(void)
{
	uint8_t i;

	M.on_insn = 1;
	M.iip = M.ip;
	M.ikind = kind_at(M.ip);
	M.bound = 0;
	if (M.ikind == K_BAD)
		return -1;
	if (m_event())
		for (i = 0; i < NITEM; ++i)
			if (i == M.ev && m_on_insn(&events[i]))
				return m_status(1);
	if (m_leave())
		return -1;

	return m_boundary();
}

/* The state change an event stands for: a failure if it does not fit. */
static int m_apply(const struct pt_event *e)
{
	switch (e->type) {
	case ptev_enabled:
		if (e->status_update)
			return !M.enabled;
		if (e->ip_suppressed || M.enabled)
			return 1;
		M.ip = e->variant.enabled.ip;
		M.enabled = 1;
		m_anchor();
		return 0;
	case ptev_disabled:
		if (e->status_update)
			return M.enabled;
		if (!M.enabled)
			return 1;
		/* Where do we expect tracing to resume? */
		switch (M.ikind) {
		case K_JMP: case K_CALL:
			M.ip = target_at(M.iip);
			break;
		case K_CALLI: case K_INT: case K_OTHER: case K_PTW: case K_CR3:
		case K_VMPTRLD:
			M.ip = M.iip + 1;
			break;
		default:
			M.ip = 0;
			break;
		}
		M.enabled = 0;
		M.anchor = 0;
		return 0;
	case ptev_async_disabled:
		if (e->status_update)
			return M.enabled;
		if (!M.enabled)
			return 1;
		M.enabled = 0;
		M.anchor = 0;
		return 0;
	case ptev_async_branch:
		if (e->status_update || !M.enabled)
			return 1;
		M.ip = e->variant.async_branch.to;
		m_anchor();
		return 0;
	case ptev_paging:
		spec_cr3 = e->variant.paging.cr3;
		return 0;
	case ptev_async_paging:
		spec_cr3 = e->variant.paging.cr3;
		return 0;
	case ptev_vmcs:
		spec_vmcs = e->variant.vmcs.base;
		return 0;
	case ptev_async_vmcs:
		spec_vmcs = e->variant.vmcs.base;
		return 0;
	case ptev_overflow:
		if (e->status_update)
			return 1;
		M.spec = 0;
		M.enabled = !e->ip_suppressed;
		M.ip = e->ip_suppressed ? 0 : e->variant.overflow.ip;
		return 0;
	case ptev_exec_mode:
		if (e->status_update && M.enabled &&
		    M.mode != ptem_unknown &&
		    M.mode != e->variant.exec_mode.mode)
			return 1;
		M.mode = e->variant.exec_mode.mode;
		return 0;
	case ptev_tsx:
		M.spec = e->variant.tsx.speculative;
		return 0;
	case ptev_stop:
		return e->status_update || M.enabled;
	default:
		return 0;
	}
}

/* The pending event is returned; what is the status? */
static int m_take(void)
{
	uint8_t i;

	for (i = 0; i < NITEM; ++i)
		if (i == M.ev) {
			if (m_apply(&events[i]))
				return -1;
			if (M.on_insn)
				M.bound |= 1u << events[i].type;
		}
	M.has_ev = 0;
	if (M.on_insn) {
		if (m_event())
			for (i = 0; i < NITEM; ++i)
				if (i == M.ev && m_on_insn(&events[i]))
					return m_status(1);
		if (m_leave())
			return -1;
	}

	return m_boundary();
}

/* --- the symbolic program and trace --- */

static uint64_t nd_ip(void)
{
	uint8_t x = nd_u8();

	ASSUME(x <= NSLOT);
	return BASE + x;
}

static void flow_program(void)
{
	uint8_t i;

	for (i = 0; i < NSLOT; ++i) {
		kinds[i] = nd_u8();
		ASSUME(kinds[i] < K_MAX);
#ifdef KIND_OK
		ASSUME(KIND_OK(kinds[i]));
#endif
		targets[i] = nd_u8();
		ASSUME(targets[i] < NSLOT);
#ifdef FORWARD
		if (kinds[i] == K_JMP || kinds[i] == K_CALL)
			ASSUME(targets[i] > i);
#endif
	}
}

static void flow_event(struct pt_event *e, uint8_t n)
{
	uint64_t ip = nd_ip(), to = nd_ip();
	uint8_t x = nd_u8(), t = nd_u8();

	ASSUME(EV_OK(t));
	e->type = (enum pt_event_type) t;
	e->ip_suppressed = nd_u8() & 1;
	e->status_update = nd_u8() & 1;
	e->has_tsc = 1;
	e->tsc = 100u + n;	/* its name. */
	e->lost_mtc = 0;
	e->lost_cyc = 0;
	switch (e->type) {
	case ptev_enabled:
		e->variant.enabled.ip = ip;
		e->variant.enabled.resumed = 0;
		break;
	case ptev_disabled:
		e->variant.disabled.ip = ip;
		break;
	case ptev_async_disabled:
		e->variant.async_disabled.at = ip;
		e->variant.async_disabled.ip = to;
		break;
	case ptev_async_branch:
		e->variant.async_branch.from = ip;
		e->variant.async_branch.to = to;
		break;
	case ptev_paging:
		e->variant.paging.cr3 = x & 3;
		e->variant.paging.non_root = 0;
		break;
	case ptev_async_paging:
		/* A flat union does not share these. */
		e->variant.paging.cr3 = x & 3;
		e->variant.async_paging.cr3 = x & 3;
		e->variant.async_paging.ip = ip;
		break;
	case ptev_vmcs:
		e->variant.vmcs.base = x & 3;
		break;
	case ptev_async_vmcs:
		e->variant.vmcs.base = x & 3;
		e->variant.async_vmcs.base = x & 3;
		e->variant.async_vmcs.ip = ip;
		break;
	case ptev_overflow:
		e->variant.overflow.ip = ip;
		break;
	case ptev_exec_mode:
		e->variant.exec_mode.mode = (x & 1) ? ptem_64bit : ptem_32bit;
		e->variant.exec_mode.ip = ip;
		break;
	case ptev_tsx:
		e->variant.tsx.ip = ip;
		e->variant.tsx.speculative = x & 1;
		e->variant.tsx.aborted = (x >> 1) & 1;
		break;
	case ptev_exstop:
		e->variant.exstop.ip = ip;
		break;
	case ptev_mwait:
		e->variant.mwait.ip = ip;
		break;
	case ptev_ptwrite:
		e->variant.ptwrite.ip = ip;
		break;
	case ptev_iflags:
		e->variant.iflags.ip = ip;
		break;
	case ptev_interrupt:
		e->variant.interrupt.ip = ip;
		break;
	case ptev_iret:
		e->variant.iret.ip = ip;
		break;
	case ptev_smi:
		e->variant.smi.ip = ip;
		break;
	case ptev_init:
		e->variant.init.ip = ip;
		break;
	case ptev_vmentry:
		e->variant.vmentry.ip = ip;
		break;
	case ptev_vmexit:
		e->variant.vmexit.ip = ip;
		break;
	case ptev_shutdown:
		e->variant.shutdown.ip = ip;
		break;
	case ptev_uintr:
		e->variant.uintr.ip = ip;
		break;
	case ptev_uiret:
		e->variant.uiret.ip = ip;
		break;
	case ptev_rsm: case ptev_sipi:
		e->ip_suppressed = 1;
		break;
	default:
		break;
	}
	/* What the event decoder guarantees. */
	switch (e->type) {
	case ptev_async_disabled: case ptev_async_branch:
		ASSUME(!e->ip_suppressed);
		ASSUME(!e->status_update);
		break;
	default:
		break;
	}
}

static void flow_trace(void)
{
	uint8_t i;

	nitems = nd_u8();
	ASSUME(nitems <= NITEM);
	for (i = 0; i < NITEM; ++i) {
		items[i] = nd_u8();
		ASSUME(items[i] <= I_EV);
		bits[i] = nd_u8() & 1;
		tips[i] = nd_ip();
		flow_event(&events[i], i);
	}
	sync_disabled = nd_u8() & 1;
	sync_ip = sync_disabled ? 0 : nd_ip();
	use_cache = nd_u8() & 1;

	M.ip = sync_ip;
	M.enabled = !sync_disabled;
	M.spec = 0;
	M.mode = ptem_unknown;
	M.depth = 0;
	M.pos = 0;
	M.has_ev = 0;
	M.on_insn = 0;
	spec_cr3 = pt_asid_no_cr3;
	spec_vmcs = pt_asid_no_vmcs;
}

#endif /* FLOW_H */
