/* C01/C02: pt_pkt_next() on an arbitrary buffer at an arbitrary position.
 *
 * The trace buffer ends exactly at the end of the object, so that any read past
 * it is an out-of-bounds access; its begin is symbolic through the position.
 */
#include "vf.h"
#include "pt_packet_decoder.h"
#include "ref_pkt.h"

#ifndef N
#define N 20
#endif

static int cb_ret;
static int cb_calls;
static const uint8_t *cb_pos;
static int cb_priv;

static int cb(struct pt_packet_unknown *u, const struct pt_config *config,
	      const uint8_t *pos, void *context)
{
	cb_calls += 1;
	cb_pos = pos;
	ASSERT(context == &cb_priv, "callback context");
	ASSERT(config && config->begin <= pos && pos < config->end,
	       "callback position in buffer");
	u->priv = &cb_priv;
	return cb_ret;
}

void harness(void)
{
	static uint8_t store[N];
	uint8_t *buf = store;
	struct pt_config cfg;
	struct pt_packet_decoder dec;
	struct pt_packet pkt;
	uint64_t pos, npos, n2;
	int i, st;

	for (i = 0; i < N; ++i)
		buf[i] = nd_u8();

	pt_config_init(&cfg);
	cfg.begin = buf;
	cfg.end = buf + N;
#ifdef ERRATA
	cfg.errata.skd007 = nd_u8() & 1;
	cfg.errata.skz84 = nd_u8() & 1;
	cfg.errata.bdm70 = nd_u8() & 1;
	cfg.errata.bdm64 = nd_u8() & 1;
	cfg.errata.skd022 = nd_u8() & 1;
	cfg.errata.skd010 = nd_u8() & 1;
	cfg.errata.skl014 = nd_u8() & 1;
	cfg.errata.apl12 = nd_u8() & 1;
	cfg.errata.apl11 = nd_u8() & 1;
	cfg.errata.skl168 = nd_u8() & 1;
#endif
	cb_ret = nd_int();
	if (nd_u8() & 1) {
		cfg.decode.callback = cb;
		cfg.decode.context = &cb_priv;
	}

	st = pt_pkt_decoder_init(&dec, &cfg);
	ASSERT(st == 0, "decoder init");

	pos = nd_u32();
	st = pt_pkt_sync_set(&dec, pos);
	if (pos > N) {
		ASSERT(st == -pte_eos, "sync outside of the buffer refused");
		ASSERT(pt_pkt_get_offset(&dec, &npos) == -pte_nosync,
		       "no position after refused sync");
		return;
	}
	ASSERT(st == 0, "sync set");
	st = pt_pkt_get_offset(&dec, &npos);
	ASSERT(st == 0 && npos == pos, "offset after sync");

	memset(&pkt, 0, sizeof(pkt));
	st = pt_pkt_next(&dec, &pkt, sizeof(pkt));

	ASSERT(pt_pkt_get_offset(&dec, &npos) == 0, "offset available");
	ASSERT(pt_pkt_get_sync_offset(&dec, &n2) == 0 && n2 == pos,
	       "sync offset unchanged");
	if (st < 0) {
		ASSERT(npos == pos, "failed decode does not move");
	} else {
		ASSERT(st == pkt.size, "returns the packet size");
		ASSERT(npos <= N, "position stays inside the buffer");
		if (pkt.type == ppt_unknown) {
			ASSERT(cb_calls == 1 && st == cb_ret,
			       "unknown packet size from callback");
			ASSERT(npos == pos + (uint64_t) st,
			       "advance over unknown packet");
		} else {
			ASSERT(st > 0, "progress");
			ASSERT(npos >= pos + (uint64_t) st, "advance");
			/* An erratum may have a corrupt packet skipped. */
			ASSERT(npos == pos + (uint64_t) st ||
			       (cfg.errata.skd007 && pkt.type == ppt_ovf &&
				npos == pos + (uint64_t) st + 1), "exact advance");
		}
	}

#ifdef SPEC
	{
		struct ref_pkt r;
		uint8_t b[RP_MAX];
		unsigned rem = (unsigned) (N - pos);

		for (i = 0; i < RP_MAX; ++i)
			b[i] = (uint64_t) i < N - pos ? buf[pos + i] : 0;
		ref_decode(&r, b, rem);

		ASSERT(cb_calls == (r.kind == rk_unknown &&
				    cfg.decode.callback != NULL),
		       "callback called exactly for unknown opcodes");
		switch (r.kind) {
		case rk_eos:
			ASSERT(st == -pte_eos, "truncated packet reported");
			WITNESS("truncated");
			break;
		case rk_bad:
			ASSERT(st == -pte_bad_packet,
			       "malformed packet reported");
			WITNESS("malformed");
			break;
		case rk_eos_bad:
			ASSERT(st == -pte_eos || st == -pte_bad_packet,
			       "truncated malformed packet reported");
			break;
		case rk_unknown:
			if (!cfg.decode.callback) {
				ASSERT(st == -pte_bad_opc,
				       "unknown opcode reported");
			} else if (cb_ret < 0) {
				ASSERT(st == cb_ret, "callback error");
			} else if (cb_ret > 255) {
				ASSERT(st == -pte_invalid,
				       "callback size does not fit");
			} else if ((uint64_t) cb_ret > N - pos) {
				ASSERT(st == -pte_eos,
				       "unknown packet beyond the buffer");
			} else {
				ASSERT(st == cb_ret, "unknown packet size");
				ASSERT(pkt.type == ppt_unknown &&
				       pkt.payload.unknown.packet == buf + pos &&
				       pkt.payload.unknown.priv == &cb_priv &&
				       cb_pos == buf + pos,
				       "unknown packet contents");
				WITNESS("unknown");
			}
			break;
		case rk_ok:
			ASSERT(st == (int) r.size, "packet size");
			ASSERT(ref_same(&pkt, &r.p), "packet contents");
			WITNESS("decoded");
			break;
		}
	}
#else
	if (st > 0)
		WITNESS("decoded");
	if (st == -pte_eos)
		WITNESS("eos");
#ifdef ERRATA
	if (st > 0 && pkt.type == ppt_invalid)
		WITNESS("skz84");
	if (st > 0 && npos > pos + (uint64_t) st)
		WITNESS("skd007");
#endif
#endif
}
