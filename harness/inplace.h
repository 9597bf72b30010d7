// Copying a top level value that is no pointer: the copy goes into the caller's
// buffer. Without and with an allocation that fails, and without a buffer.
#pragma once
#include "gen.h"
static void inplaceCopy(Case &k, Schema &S, const Val &v, const string &desc) {
	Choices &c = k.c;
	auto &s = S.top; size_t len = s.type == CYAML_SEQUENCE ? v.kids.size() * s.data_size : s.type == CYAML_SEQUENCE_FIXED ? (size_t)s.sequence.max * s.data_size : s.data_size;
	if (!len) throw Discard{};
	Arena a; auto al = a.alloc(); size_t full = slotSize(s) > len ? slotSize(s) : len; u8 *slot = al(full); storeVal(s, v, slot, al);
	if (full > len) { u8 *t = al(len); memcpy(t, slot, len); slot = t; } // exactly what may be read
	a.snapshot(); unsigned cc = isSeq(s) ? v.kids.size() : 0;
	k.desc = desc.size() ? desc : "schema: " + showSchema(S, s) + "\nvalue: " + showVal(s, v) + "\n";
	SavePred p = predictCopy(S, v, cc); Rig r(0); Arena b; u8 *buf = b.alloc()(len); memset(buf, 0xA5, len); b.snapshot(); k.evals = 0;
	u64 requests = 0;
	for (int round = 0; round < 3; round++) {
		bool doFail = round == 1; if (doFail) { if (!requests) continue; r.ta.failAt = r.ta.allocs + 1 + c.below(requests); r.ta.failFrom = c.p(50); r.ta.failed = false; memset(buf, 0xA5, len); }
		u64 before = r.ta.allocs; void *out = buf; MallocWindow::clear(); cyaml_err_t e; k.evals++;
		{ MallocWindow w; e = cyaml_copy(&r.cfg, &s, (const cyaml_data_t *)slot, cc, (cyaml_data_t **)&out); }
		bool hit = r.ta.failed; r.ta.failAt = 0; r.ta.failFrom = false; r.ta.failed = false; requests = r.ta.allocs - before;
		cyaml_err_t want = doFail && hit ? CYAML_ERR_OOM : p.err;
		CHECK(e == want, "copy returned %s, expected %s (%s)", errName(e).c_str(), errName(want).c_str(), p.why.c_str());
		CHECK(r.ta.err.empty(), "allocator misuse: %s", r.ta.err.c_str()); CHECK(MallocWindow::outstanding() == 0, "leak outside the client's allocator");
		CHECK(out == buf, "copy replaced the caller's buffer"); CHECK(a.same(), "copy altered the original");
		k.label("inplace:" + errName(e));
		if (e) { CHECK(r.ta.live.empty(), "failed copy left %zu blocks", r.ta.live.size()); CHECK(b.same(), "failed copy changed the output"); if (!doFail) return; continue; }
		MatchCtx m; m.ta = &r.ta; m.checkGaps = false; Schema dummy;
		if (s.type == CYAML_SEQUENCE && v.kids.size() < s.sequence.max) { for (size_t i = 0; i < v.kids.size(); i++) CHECK(matchMem(*s.sequence.entry, buf + i * s.data_size, v.kids[i], m), "the copy differs in entry %zu: %s", i, m.err.c_str()); }
		else CHECK(matchMem(s, buf, v, m), "the copy differs: %s", m.err.c_str());
		CHECK(m.reached.size() == r.ta.live.size(), "the copy made %zu allocations of which %zu are reachable", r.ta.live.size(), m.reached.size());
		CHECK(cyaml_free(&r.cfg, &s, buf, cc) == CYAML_OK && r.ta.err.empty(), "free: %s", r.ta.err.c_str()); CHECK(r.ta.live.empty(), "free left %zu blocks", r.ta.live.size());
	}
	void *none = nullptr; cyaml_err_t e = cyaml_copy(&r.cfg, &s, slot, cc, (cyaml_data_t **)&none); k.evals++;
	CHECK(e == CYAML_ERR_BAD_PARAM_NULL_DATA, "copy without a buffer returned %s", errName(e).c_str()); CHECK(r.ta.live.empty() && !none, "copy without a buffer left something behind");
	k.nontrivial = a.blocks.size() >= 2;
}
