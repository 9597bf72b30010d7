#include "../gen.h"
#include <unistd.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <csignal>
#include <dirent.h>

static std::set<int> fdSet() { std::set<int> s; for (int i = 0; i < 80; i++) if (fcntl(i, F_GETFD) != -1) s.insert(i); return s; }
// A file of one of several kinds, gone when the case is over.
struct Target {
	int fd = -1; string path, dir; vector<string> made; string kind;
	void real(const string &content) {
		char t[] = "/tmp/verif-c19-XXXXXX"; if (!mkdtemp(t)) abort();
		dir = t; path = dir + "/file"; int f = open(path.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
		for (size_t at = 0; at < content.size();) { ssize_t n = write(f, content.data() + at, content.size() - at); if (n <= 0) abort(); at += n; }
		close(f); made.push_back(path); kind = "file";
	}
	void mem(const string &content) {
		fd = memfd_create("c19", MFD_ALLOW_SEALING); if (fd < 0) abort();
		for (size_t at = 0; at < content.size();) { ssize_t n = write(fd, content.data() + at, content.size() - at); if (n <= 0) abort(); at += n; }
		path = sfmt("/proc/self/fd/%d", fd); kind = "memory file";
	}
	int wr = -1;
	void make(Choices &c, const string &content, bool forLoad) {
		if (forLoad && c.p(12)) { if (content.size() <= 60000) {
				int p[2]; if (pipe(p)) abort(); if (content.size() && write(p[1], content.data(), content.size()) != (ssize_t)content.size()) abort();
				close(p[1]); fd = p[0]; path = sfmt("/proc/self/fd/%d", fd); kind = "pipe"; return; } }
		if (c.p(25)) { real(content); if (c.p(30)) { string l = dir + "/link"; if (symlink("file", l.c_str())) abort(); made.push_back(l); path = l; kind = "link"; } }
		else mem(content);
	}
	string content() const {
		string o; int f = dir.empty() ? fd : open(path.c_str(), O_RDONLY); char b[4096]; off_t at = 0; ssize_t n;
		while ((n = pread(f, b, sizeof b, at)) > 0) { o.append(b, n); at += n; }
		if (f != fd) close(f);
		return o;
	}
	~Target() { if (fd >= 0) close(fd); if (wr >= 0) close(wr); for (auto i = made.rbegin(); i != made.rend(); ++i) unlink(i->c_str()); if (!dir.empty()) rmdir(dir.c_str()); }
};
struct Limit { int what; rlimit old; Limit(int w, u64 v) : what(w) { getrlimit((__rlimit_resource)w, &old); rlimit n = old; n.rlim_cur = v; if (n.rlim_cur > old.rlim_max) n.rlim_cur = old.rlim_max; signal(SIGXFSZ, SIG_IGN); setrlimit((__rlimit_resource)w, &n); } ~Limit() { setrlimit((__rlimit_resource)what, &old); } };

static LoadRes loadFile(Rig &r, const Schema &S, const string &path, const vector<CbCall> *expect, i64 nofile = -1) {
	LoadRes res; void *sent = (void *)0x5e5e5e5e5e50, *data = sent; unsigned cnt = 0xdeadbeef; size_t held = r.ta.live.size();
	auto fds = fdSet(); r.cb.calls.clear(); r.cb.S = &S; r.cb.expect = expect; r.cb.err.clear(); g_cb = &r.cb; MallocWindow::clear();
	{ std::unique_ptr<Limit> l; if (nofile >= 0) l.reset(new Limit(RLIMIT_NOFILE, nofile)); MallocWindow w; res.err = cyaml_load_file(path.c_str(), &r.cfg, &S.top, (cyaml_data_t **)&data, S.top.type == CYAML_SEQUENCE ? &cnt : nullptr); }
	g_cb = nullptr; r.cb.expect = nullptr;
	size_t out = MallocWindow::outstanding(); MallocWindow::clear();
	CHECK(fdSet() == fds, "load_file (%s) changed the set of open files", errName(res.err).c_str());
	CHECK(out == 0, "load_file (%s) left %zu blocks of its own", errName(res.err).c_str(), out);
	CHECK(r.ta.err.empty() && r.log.err.empty() && r.cb.err.empty(), "load_file: %s %s %s", r.ta.err.c_str(), r.log.err.c_str(), r.cb.err.c_str());
	if (res.err) { CHECK(data == sent && cnt == 0xdeadbeef, "load_file failed (%s) but changed an output", errName(res.err).c_str()); CHECK(r.ta.live.size() == held, "load_file failed (%s) and left %zu blocks", errName(res.err).c_str(), r.ta.live.size() - held); }
	else { res.data = data; res.count = S.top.type == CYAML_SEQUENCE ? cnt : 0; }
	return res;
}
static cyaml_err_t saveFile(Rig &r, const Schema &S, const string &path, const void *data, unsigned count, i64 nofile = -1, i64 fsize = -1) {
	auto fds = fdSet(); cyaml_err_t e; size_t held = r.ta.live.size(); MallocWindow::clear();
	{ std::unique_ptr<Limit> l, m; if (nofile >= 0) l.reset(new Limit(RLIMIT_NOFILE, nofile)); if (fsize >= 0) m.reset(new Limit(RLIMIT_FSIZE, fsize));
	  MallocWindow w; e = cyaml_save_file(path.c_str(), &r.cfg, &S.top, (const cyaml_data_t *)data, count); }
	size_t out = MallocWindow::outstanding(); MallocWindow::clear();
	CHECK(fdSet() == fds, "save_file (%s) changed the set of open files", errName(e).c_str());
	CHECK(out == 0, "save_file (%s) left %zu blocks of its own", errName(e).c_str(), out);
	CHECK(r.ta.err.empty() && r.log.err.empty(), "save_file: %s %s", r.ta.err.c_str(), r.log.err.c_str());
	CHECK(r.ta.live.size() == held, "save_file (%s) left %zu blocks", errName(e).c_str(), r.ta.live.size() - held);
	return e;
}
static GenOpt fileOpt(Choices &c) {
	GenOpt o; o.depth = 1 + c.below(4); o.cbPct = 5;
	if (c.p(25)) { o.depth = 2 + c.below(2); o.maxEntries = 80; o.longStrPct = 40; o.ptrPct = 60; o.widePct = 20; }
	return o;
}
static void sizeLabel(Case &k, size_t n) { k.label(sfmt("size:%s", n == 0 ? "0" : n < 4096 ? "<4K" : n < 16384 ? "<16K" : n < 65536 ? "<64K" : "64K+")); }
// big texts: a sequence of strings
static void bigSchema(Choices &c, Schema &S, Val &v, const GenOpt &o) {
	S.topPtr = true; cyaml_schema_value_t e; memset(&e, 0, sizeof e); e.type = CYAML_STRING; e.flags = CYAML_FLAG_POINTER; e.string.max = ~0u; S.values.push_back(e);
	memset(&S.top, 0, sizeof S.top); S.top.type = CYAML_SEQUENCE; S.top.flags = CYAML_FLAG_POINTER; S.top.data_size = sizeof(char *); S.top.sequence.entry = &S.values.back(); S.top.sequence.max = ~0u;
	v = Val(); v.k = Val::SEQ; int n = 1 + c.below(400); for (int i = 0; i < n; i++) v.kids.push_back(Val::Str(genString(c, o, 0, 1 + c.below(600))));
}
PROP(C19, loads, 10000, 500000) {
	Choices &c = k.c; Schema S; GenOpt o = fileOpt(c); string text; u32 cfg = genCfg(c, 15); Writer w; w.tailPct = 5;
	if (c.p(6)) { Val v; bigSchema(c, S, v, o); Expr e; e.cfgFlags = cfg; w.kind = Writer::EMITTER; text = writeNode(c, express(c, S, S.top, v, e), w); }
	else { genSchema(c, S, o); Expr e; e.cfgFlags = cfg; Node n = express(c, S, S.top, genVal(c, S, S.top, o), e); if (c.p(25)) mutateNode(c, S, cfg, n); if (c.p(15)) addAliases(c, n, 30, c.p(30)); text = writeNode(c, n, w); if (c.p(20)) text = mutateBytes(c, text); }
	if (c.p(3)) text = ""; if (c.p(5)) text += string(c.below(9000), c.p(50) ? '\n' : ' ');
	if (c.p(3) && text.size() < 20000) text = "# " + string(4000 + c.below(20000), 'x') + "\n" + text;
	Target t; t.make(c, text, true); k.desc = "from " + t.kind + "\n" + caseText(S, cfg, text); k.label(t.kind); sizeLabel(k, text.size());
	Model m = modelText(S, cfg, text); Rig r(cfg);
	LoadRes a = doLoad(r, S, text, m.ambiguous ? nullptr : &m.cbs); auto calls = r.cb.calls;
	LoadRes b = loadFile(r, S, t.path, m.ambiguous ? nullptr : &m.cbs); k.evals = 2;
	CHECK(a.err == b.err, "loading the file returned %s, loading the bytes %s", errName(b.err).c_str(), errName(a.err).c_str());
	CHECK(calls.size() == r.cb.calls.size(), "%zu validation callbacks for the file, %zu for the bytes", r.cb.calls.size(), calls.size());
	CHECK(a.count == b.count, "count %u from the file, %u from the bytes", b.count, a.count);
	if (!m.ambiguous) CHECK(b.err == m.err, "load_file returned %s, expected %s", errName(b.err).c_str(), errName(m.err).c_str());
	if (!b.err) {
		MatchCtx x, y; x.ta = y.ta = &r.ta;
		if (!m.ambiguous) { CHECK(matchTop(S.top, b.data, m.val, x, false), "from the file: %s", x.err.c_str()); CHECK(matchTop(S.top, a.data, m.val, y, false), "from the bytes: %s", y.err.c_str()); CHECK(r.ta.live.size() == x.reached.size() + y.reached.size(), "unreachable blocks"); }
		cyaml_free(&r.cfg, &S.top, a.data, a.count); doFree(r, S, b.data, b.count);
	}
	if (t.kind != "pipe") CHECK(t.content() == text, "loading changed the file");
	k.nontrivial = text.size() > 0; k.label(errName(b.err));
}
PROP(C19, saves, 10000, 600000) {
	Choices &c = k.c; Schema S; GenOpt o = fileOpt(c); Val v; u32 cfg = genCfg(c, 30);
	if (c.p(8)) bigSchema(c, S, v, o); else { genSchema(c, S, o); v = genVal(c, S, S.top, o); if (c.p(12)) plantNulls(c, S.top, v, 20); }
	Arena a; unsigned cnt = 0; void *p = buildTop(S, v, a.alloc(), &cnt); if (c.p(3)) cnt = cnt ? 0 : 1;
	if (S.top.type == CYAML_SEQUENCE && cnt > v.kids.size()) throw Discard{};
	Rig r(cfg); SaveRes x = doSave(r, S, p, cnt);
	string old; if (!c.p(25)) old = string(c.p(60) ? x.out.size() + c.below(200) : c.below(100), 'Z');
	Target t; t.make(c, old, false); k.desc = sfmt("to %s of %zu bytes\nschema: ", t.kind.c_str(), old.size()) + showSchema(S, S.top) + "\nvalue: " + showVal(S.top, v).substr(0, 4000) + "\n";
	cyaml_err_t e = saveFile(r, S, t.path, p, cnt); k.evals = 2;
	CHECK(e == x.err, "saving to a file returned %s, to memory %s", errName(e).c_str(), errName(x.err).c_str());
	if (!e) { string got = t.content(); CHECK(got == x.out, "the file holds %zu bytes that differ from the %zu saved to memory: %s", got.size(), x.out.size(), quoted(got, 500).c_str()); }
	k.nontrivial = x.out.size() > 0 || e; k.label(t.kind); k.label(errName(e)); sizeLabel(k, x.out.size());
	if (!e && t.fd >= 0 && c.p(40)) { // same file, other data, then load
		Val v2 = genVal(c, S, S.top, o); if (!okToSave(S, v2) || predictSave(S, cfg, v2, v2.kids.size() * (S.top.type == CYAML_SEQUENCE)).err) return;
		unsigned n2 = 0; void *p2 = buildTop(S, v2, a.alloc(), &n2); SaveRes y = doSave(r, S, p2, n2); if (y.err) return;
		CHECK(saveFile(r, S, t.path, p2, n2) == CYAML_OK, "saving again failed"); k.evals++; CHECK(t.content() == y.out, "the file does not hold the second text alone"); k.label("again");
	}
}
PROP(C19, faults, 10000, 600000) {
	Choices &c = k.c; Schema S; GenOpt o = fileOpt(c); Val v; u32 cfg = genCfg(c, 20);
	if (c.p(15)) bigSchema(c, S, v, o); else { o.optPct = 20; genSchema(c, S, o); v = genVal(c, S, S.top, o); }
	Arena a; unsigned cnt = 0; void *p = buildTop(S, v, a.alloc(), &cnt); Rig r(cfg); r.log.keep = false;
	SaveRes x = doSave(r, S, p, cnt); string desc = "schema: " + showSchema(S, S.top) + "\nvalue: " + showVal(S.top, v).substr(0, 3000) + "\n"; k.evals = 0;
	auto bad = [&](const char *what, const string &path, i64 nofile, i64 fsize) {
		k.desc = sfmt("save to %s\n", what) + desc; cyaml_err_t e = saveFile(r, S, path, p, cnt, nofile, fsize); k.evals++; k.label(sfmt("save %s:%s", what, errName(e).c_str())); return e; };
	if (c.p(50)) { // saving
		Target t; t.make(c, c.p(50) ? string(c.below(50), 'Z') : "", false);
		switch (c.below(7)) {
		case 0: CHECK(bad("missing directory", t.path + "/x", -1, -1) == CYAML_ERR_FILE_OPEN, "no FILE_OPEN error"); break;
		case 1: CHECK(bad("directory", c.p(50) ? "/proc/self/fd" : "/tmp", -1, -1) == CYAML_ERR_FILE_OPEN, "no FILE_OPEN error"); break;
		case 2: CHECK(bad("empty path", "", -1, -1) == CYAML_ERR_FILE_OPEN, "no FILE_OPEN error"); break;
		case 3: { int n = 0; for (int f : fdSet()) if (f == n) n++; // the lowest free descriptor is not allowed
			CHECK(bad("descriptor limit", t.path, n, -1) == CYAML_ERR_FILE_OPEN, "no FILE_OPEN error"); break; }
		case 4: { cyaml_err_t e = bad("full device", "/dev/full", -1, -1); CHECK(e != CYAML_OK, "%zu bytes that could not be written went unnoticed", x.out.size()); break; }
		case 5: case 6: for (int i = 0; i < 6 && !x.err; i++) {
			size_t n = x.out.size(); i64 lim = c.p(20) ? n : c.p(30) ? n - 1 : c.p(20) ? n + 1 + c.below(20) : c.p(30) && n > 4097 ? 4095 + c.below(3) : c.below(n);
			cyaml_err_t e = bad("size limit", t.path, -1, lim); string got = t.content();
			if (lim >= (i64)n) { CHECK(e == CYAML_OK, "%s with room enough", errName(e).c_str()); CHECK(got == x.out, "wrong content"); }
			else { CHECK(e != CYAML_OK, "only %lld of %zu bytes could be written, which went unnoticed", (long long)lim, n); CHECK(got == x.out.substr(0, got.size()) || got.find('Z') != string::npos, "the file holds something else"); }
			} break;
		}
		k.nontrivial = true;
		// and afterwards saving works
		Target g; g.mem(""); cyaml_err_t e = saveFile(r, S, g.path, p, cnt); CHECK(e == x.err, "after the failure, %s instead of %s", errName(e).c_str(), errName(x.err).c_str()); if (!e) CHECK(g.content() == x.out, "after the failure, other content");
		return;
	}
	string text = x.err ? "a" : x.out; Target t; t.make(c, text, false); k.nontrivial = true;
	auto badLoad = [&](const char *what, const string &path, i64 nofile) { k.desc = sfmt("load from %s\n", what) + desc; LoadRes l = loadFile(r, S, path, nullptr, nofile); k.evals++; k.label(sfmt("load %s:%s", what, errName(l.err).c_str())); return l.err; };
	switch (c.below(6)) {
	case 0: CHECK(badLoad("missing file", t.path + "/x", -1) == CYAML_ERR_FILE_OPEN, "no FILE_OPEN error"); break;
	case 1: CHECK(badLoad("missing file", "/tmp/verif-c19-none/file", -1) == CYAML_ERR_FILE_OPEN, "no FILE_OPEN error"); break;
	case 2: CHECK(badLoad("directory", c.p(50) ? "/proc/self/fd" : "/tmp", -1) != CYAML_OK, "loaded from a directory"); break;
	case 3: CHECK(badLoad("unreadable file", "/proc/self/mem", -1) != CYAML_OK, "loaded from a file that gives a read error"); break;
	case 4: CHECK(badLoad("empty path", "", -1) == CYAML_ERR_FILE_OPEN, "no FILE_OPEN error"); break;
	case 5: { int n = 0; for (int f : fdSet()) if (f == n) n++; CHECK(badLoad("descriptor limit", t.path, n) == CYAML_ERR_FILE_OPEN, "no FILE_OPEN error"); break; }
	}
}

// the same memory failures, inside libyaml or in the client's allocator, hit both
PROP(C19, memory, 1200, 60000) {
	Choices &c = k.c; GenOpt o; o.depth = 1 + c.below(3); Schema S; genSchema(c, S, o); u32 cfg = genCfg(c, 20); Rig r(cfg); r.log.keep = false; k.evals = 0; YamlAlloc &y = g_yamlAlloc; y = YamlAlloc(); struct Off { ~Off() { g_yamlAlloc = YamlAlloc(); } } off;
	Val v = genVal(c, S, S.top, o); bool load = c.p(60); string text; Arena a; unsigned cnt = 0; void *p = nullptr;
	if (load) { Expr e; e.cfgFlags = cfg; e.absentPct = 40; Writer w; w.kind = Writer::EMITTER; Node n = express(c, S, S.top, v, e); if (c.p(20)) mutateNode(c, S, cfg, n); text = writeNode(c, n, w); if (modelText(S, cfg, text).ambiguous) throw Discard{}; k.desc = caseText(S, cfg, text); }
	else { p = buildTop(S, v, a.alloc(), &cnt); k.desc = "schema: " + showSchema(S, S.top) + "\nvalue: " + showVal(S.top, v) + "\n"; }
	struct Out { cyaml_err_t err; string what; u64 yaml, client; };
	auto run = [&](bool file, bool yamlSide, u64 at, bool from) {
		Out x; Target t; t.make(c, load ? text : string(), load); u64 b0 = r.ta.allocs; y = YamlAlloc(); if (at && yamlSide) { y.failAt = at; y.from = from; } if (at && !yamlSide) { r.ta.failed = false; r.ta.failAt = r.ta.allocs + at; r.ta.failFrom = from; }
		LoadRes l; SaveRes s;
		if (load) { l = file ? loadFile(r, S, t.path, nullptr) : doLoad(r, S, text); x.err = l.err; } else if (file) { x.err = saveFile(r, S, t.path, p, cnt); if (!x.err) x.what = t.content(); } else { s = doSave(r, S, p, cnt); x.err = s.err; x.what = s.out; }
		x.yaml = y.count; x.client = r.ta.allocs - b0; y = YamlAlloc(); r.ta.failAt = 0; r.ta.failFrom = false; r.ta.failed = false; k.evals++;
		if (load && !l.err) doFree(r, S, l.data, l.count);
		return x;
	};
	Out d = run(false, true, 0, false), f = run(true, true, 0, false); CHECK(d.err == f.err && d.what == f.what, "the file function returned %s, the memory function %s", errName(f.err).c_str(), errName(d.err).c_str());
	k.label(string(load ? "memory load:" : "memory save:") + errName(d.err)); bool any = false;
	for (int side = 0; side < 2; side++) {
		bool yamlSide = side == 0; u64 n = yamlSide ? d.yaml : std::min(d.client, f.client); if (!n || (!load && !yamlSide)) continue; any = true;
		for (int i = 0; i < 6; i++) {
			u64 at = i == 0 ? 1 : c.p(40) ? 1 + c.below(std::min<u64>(n, 8)) : 1 + c.below(n); bool from = c.p(50);
			string where = sfmt("with request %llu %s failing%s", (unsigned long long)at, yamlSide ? "by libyaml" : "to the client", from ? " and all after it" : "");
			try { d = run(false, yamlSide, at, from); f = run(true, yamlSide, at, from); } catch (Fail &e) { fail("%s: %s", where.c_str(), e.msg.c_str()); }
			CHECK(d.err == f.err, "%s the file function returned %s, the memory function %s", where.c_str(), errName(f.err).c_str(), errName(d.err).c_str()); CHECK(d.what == f.what, "%s the file holds %zu bytes, the memory function gave %zu", where.c_str(), f.what.size(), d.what.size());
			k.label("memory fault:" + errName(d.err));
		}
	}
	k.nontrivial = any;
}
