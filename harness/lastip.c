/* C05: IP compression, one step from an arbitrary last-IP state. */
#include "vf.h"
#include "pt_last_ip.h"
#include "pt_packet.h"
#include "intel-pt.h"

static int ref_have, ref_supp;
static uint64_t ref_ip;

static int known(uint8_t ipc)
{
	return ipc == 0 || ipc == 1 || ipc == 2 || ipc == 3 || ipc == 4 ||
		ipc == 6;
}

static void ref_update(uint8_t ipc, uint64_t ip)
{
	unsigned keep, i;
	uint64_t r = 0;

	if (ipc == 0) {
		ref_supp = 1;
		return;
	}
	/* bit by bit: the low 16/32/48/64 bits come from the packet, the
	 * remaining ones from the previous IP or from bit 47.
	 */
	keep = ipc == 1 ? 16 : ipc == 2 ? 32 : ipc == 6 ? 64 : 48;
	for (i = 0; i < 64; ++i) {
		uint64_t b;

		if (i < keep)
			b = (ip >> i) & 1;
		else if (ipc == 3)
			b = (ip >> 47) & 1;
		else
			b = (ref_ip >> i) & 1;
		r |= b << i;
	}
	ref_ip = r;
	ref_have = 1;
	ref_supp = 0;
}

static void check_query(const struct pt_last_ip *l)
{
	uint64_t ip = nd_u64();
	int st;

	st = pt_last_ip_query(&ip, l);
	if (!ref_have) {
		ASSERT(st == -pte_noip, "no IP yet");
		ASSERT(ip == 0, "no address without IP");
	} else if (ref_supp) {
		ASSERT(st == -pte_ip_suppressed, "IP is suppressed");
		ASSERT(ip == 0, "no address when suppressed");
	} else {
		ASSERT(st == 0, "IP available");
		ASSERT(ip == ref_ip, "IP is the reconstructed one");
	}
	ASSERT(pt_last_ip_query(NULL, l) == st, "query without result");
}

void harness(void)
{
	struct pt_last_ip l, before;
	struct pt_packet_ip p;
	struct pt_config cfg;
	int i, st;

	memset(&cfg, 0, sizeof(cfg));
	pt_last_ip_init(&l);
	ref_have = ref_supp = 0;
	ref_ip = 0;
	check_query(&l);

	/* An arbitrary state, then a sequence of packets. */
	if (nd_u8() & 1) {
		l.ip = ref_ip = nd_u64();
		ref_have = nd_u8() & 1;
		ref_supp = nd_u8() & 1;
		l.have_ip = (uint32_t) ref_have;
		l.suppressed = (uint32_t) ref_supp;
	}

	for (i = 0; i < STEPS; ++i) {
		uint8_t ipc = nd_u8();

		ASSUME(ipc < 8);
		p.ipc = (enum pt_ip_compression) ipc;
		p.ip = nd_u64();
		before = l;
		st = pt_last_ip_update_ip(&l, &p, (nd_u8() & 1) ? &cfg : NULL);
		if (known(ipc)) {
			ASSERT(st == 0, "known compression accepted");
			ref_update(ipc, p.ip);
			WITNESS("update");
		} else {
			ASSERT(st == -pte_bad_packet, "unknown compression");
			ASSERT(l.ip == before.ip &&
			       l.have_ip == before.have_ip &&
			       l.suppressed == before.suppressed,
			       "state kept on error");
			WITNESS("bad");
		}
		check_query(&l);
	}

	ASSERT(pt_last_ip_update_ip(NULL, &p, &cfg) == -pte_internal, "NULL");
	ASSERT(pt_last_ip_update_ip(&l, NULL, &cfg) == -pte_internal, "NULL");
	ASSERT(pt_last_ip_query(NULL, NULL) == -pte_internal, "NULL");
}
