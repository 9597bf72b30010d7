// libFuzzer target: two bytes choose schema and configuration, the rest is the document.
#include "../gen.h"
#include <unistd.h>

u64 *g_recShm, *g_recN; u64 g_recMax;
static const int NS = 96;
static vector<std::unique_ptr<Schema>> &table() {
	static vector<std::unique_ptr<Schema>> t;
	if (t.empty()) for (int i = 0; i < NS; i++) {
		t.push_back(std::make_unique<Schema>()); Choices c(0x5eed0000 + i); GenOpt o; o.depth = 1 + i % 4; o.casePct = 20; o.cbPct = 15; o.strictPct = 35; o.maxFields = 3 + i % 5; o.ptrPct = 40; o.rangePct = 50; o.recursePct = 20;
		genSchema(c, *t.back(), o);
	}
	return t;
}
static const u32 cfgs[] = {0, CYAML_CFG_CASE_INSENSITIVE, CYAML_CFG_IGNORE_UNKNOWN_KEYS, CYAML_CFG_IGNORE_UNKNOWN_KEYS | CYAML_CFG_CASE_INSENSITIVE, CYAML_CFG_NO_ALIAS, CYAML_CFG_IGNORE_UNKNOWN_KEYS | CYAML_CFG_IGNORED_KEY_WARNING};
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n) {
	if (n < 2) return 0;
	Schema &S = *table()[d[0] % NS]; u32 cfg = cfgs[d[1] % 6]; string text((const char *)d + 2, n - 2); string desc;
	try {
		Model m = modelText(S, cfg, text); if (modelTooBig(m)) return 0;
		Rig r(cfg, d[1] & 0x80 ? CYAML_LOG_DEBUG : CYAML_LOG_ERROR); r.log.keep = false; checkAgainst(r, S, text, m);
	} catch (Discard &) {
	} catch (Fail &f) {
		fprintf(stderr, "\nPROPERTY-FAILS: %s\n%s\n", f.msg.c_str(), caseText(S, cfg, text).c_str()); abort();
	}
	return 0;
}
extern "C" int LLVMFuzzerInitialize(int *, char ***) {
	const char *dir = getenv("C13_SEEDS"); if (!dir) return 0;
	u64 seed = strtoull(getenv("C13_SEED") ? getenv("C13_SEED") : "1", nullptr, 10); Choices c(seed * 77 + 5);
	for (int i = 0; i < NS * 3; i++) {
		Schema &S = *table()[i % NS]; u32 cf = c.below(6); GenOpt o; Expr e; e.cfgFlags = cfgs[cf]; Writer w; string text;
		try { Val v = genVal(c, S, S.top, o); Node nd = express(c, S, S.top, v, e); if (nodeCount(nd) > 200) continue; if (c.p(30)) addAliases(c, nd, 20, true); text = writeNode(c, nd, w); } catch (Discard &) { continue; }
		if (text.size() > 3000) continue;
		string f = string(dir) + sfmt("/s%d", i); FILE *h = fopen(f.c_str(), "w"); if (!h) continue; fputc(i % NS, h); fputc(cf, h); fwrite(text.data(), 1, text.size(), h); fclose(h);
	}
	exit(0);
}
