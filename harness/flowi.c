/* C16: the instruction flow decoder. */
#include "vf.h"
#include "flow.h"
#include "pt_insn_decoder.h"

void *vf_memcpy(void *to, const void *from, size_t size)
{
	if (size == sizeof(struct pt_event))
		*(struct pt_event *) to = *(const struct pt_event *) from;
	else if (size == sizeof(struct pt_insn))
		*(struct pt_insn *) to = *(const struct pt_insn *) from;
	else
		ASSERT(0, "copies something else");
	return to;
}

void harness(void)
{
	static struct pt_insn_decoder decoder;
	static struct pt_insn insn;
	static struct pt_event event;
	int st, want, k, i;

	flow_program();
	flow_trace();

	the_config.size = sizeof(the_config);
	st = pt_insn_decoder_init(&decoder, &the_config);
	ASSERT(st == 0, "a decoder");

	st = pt_insn_sync_set(&decoder, 0x18);
	want = m_boundary();

	for (k = 0; k < STEPS; ++k) {
		if (want < 0) {
			ASSERT(st < 0, "an error, not a guess");
			WITNESS("error");
			return;
		}
		ASSERT(st == want, "the status");
		if (st & pts_event_pending) {
			uint8_t n = M.ev;
			int resumed = 0;
			uint64_t mip = M.ip;

			want = m_take();
			st = pt_insn_event(&decoder, &event, sizeof(event));
			if (want < 0)
				continue;
			ASSERT(event.tsc == 100u + n, "the event");
			for (i = 0; i < NITEM; ++i)
				if (i == n) {
					ASSERT(event.type == events[i].type,
					       "the event's type");
					if (event.type == ptev_enabled)
						resumed = mip == events[i].
							variant.enabled.ip;
				}
			if (event.type == ptev_enabled)
				ASSERT(event.variant.enabled.resumed ==
				       (unsigned) resumed,
				       "tracing resumes where it stopped");
			WITNESS("event");
			continue;
		}
		if (!M.enabled) {
			st = pt_insn_next(&decoder, &insn, sizeof(insn));
			ASSERT(st == (M.pos >= nitems ? -pte_eos :
				      -pte_no_enable),
			       "no instruction while tracing is disabled");
			return;
		}
		{
			uint64_t ip = M.ip;
			uint8_t spec = M.spec;
			enum pt_exec_mode mode = M.mode;

			want = m_next();
			st = pt_insn_next(&decoder, &insn, sizeof(insn));
			ASSERT(insn.ip == ip, "the instruction's IP");
			ASSERT(insn.mode == mode, "the execution mode");
			ASSERT(insn.speculative == spec, "speculative");
			if (M.ikind == K_BAD)
				continue;
			ASSERT(insn.iclass == (enum pt_insn_class)
			       class_of(M.ikind), "the class");
			ASSERT(insn.size == 1, "the size");
			ASSERT(insn.raw[0] == slot_of(ip), "the bytes");
			ASSERT(insn.isid == ISID, "the section");
			ASSERT(!insn.truncated, "not truncated");
			WITNESS("instruction");
		}
	}
}
