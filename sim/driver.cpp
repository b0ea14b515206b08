// Driver: seeded search over plans and schedules, gating, minimisation, replay files.
#include "internal.hpp"
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <csignal>
#include <unordered_set>

using namespace sim;

static Result* g_res;
static uint64_t g_runs = 0;

static void reset_result(Result* r)
{
	memset(r, 0, offsetof(Result, rec));
	r->log[0] = 0;
}

// one simulated run in a forked child
static const Result& run_child(const Plan& plan, const Scenario& sc, const RunCfg& cfg)
{
	reset_result(g_res);
	++g_runs;
	fflush(stdout);
	pid_t p = fork();
	if (p < 0) {
		perror("fork");
		_exit(3);
	}
	if (p == 0) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		run_simulation(plan, sc, cfg, g_res);
	}
	int st = 0;
	while (waitpid(p, &st, 0) < 0) {
	}
	if (g_res->verdict == V_RUNNING) {
		g_res->verdict = V_INTERNAL;
		snprintf(g_res->cls, sizeof(g_res->cls), "INTERNAL");
		snprintf(g_res->msg, sizeof(g_res->msg), "child ended with status %d without a verdict", st);
	}
	return *g_res;
}

static const Scenario* find_sc(const std::string& n)
{
	for (auto& s : scenarios())
		if (n == s.name)
			return &s;
	return nullptr;
}

// ---------------------------------------------------------------- text form of a plan
static std::string plan_text(const Plan& p)
{
	std::ostringstream o;
	o << "scenario " << p.scenario << "\n";
	for (auto& kv : p.p)
		o << "param " << kv.first << " " << kv.second << "\n";
	for (size_t t = 0; t < p.tasks.size(); ++t) {
		o << "task " << t << "\n";
		for (auto& op : p.tasks[t])
			o << "op " << op.code << " " << op.a << " " << op.b << " " << op.c << " " << op.fk << " " << op.fn << "\n";
	}
	return o.str();
}

struct Replay
{
	std::string prop, cls, msg;
	Plan plan;
	uint64_t seed = 0;
	uint64_t evhash = 0;
	std::vector<Rec> recs;
};

static std::string oneline(const char* s)
{
	std::string r(s);
	for (char& c : r)
		if (c == '\n')
			c = ' ';
	return r;
}

static void write_replay(const std::string& path, const Replay& r, const Scenario& sc, const std::string& extra)
{
	std::ofstream f(path);
	f << "# deterministic simulation replay\n";
	f << "property " << r.prop << "\n";
	f << "class " << r.cls << "\n";
	f << "message " << oneline(r.msg.c_str()) << "\n";
	f << "seed " << r.seed << "\n";
	f << "evhash " << r.evhash << "\n";
	f << plan_text(r.plan);
	for (auto& x : r.recs)
		f << "switch " << (int)x.task << " " << x.n << " " << (int)x.target << "\n";
	f << "end\n";
	f << "# ---- the operations, readable\n";
	for (size_t t = 0; t < r.plan.tasks.size(); ++t)
		for (auto& op : r.plan.tasks[t]) {
			f << "# task " << t << ": " << (sc.show ? sc.show(r.plan, op) : std::to_string(op.code));
			if (op.fk)
				f << "   [fault: " << fault_names[op.fk] << " #" << op.fn << "]";
			f << "\n";
		}
	f << extra;
}

static bool read_replay(const std::string& path, Replay& r)
{
	std::ifstream f(path);
	if (!f)
		return false;
	std::string line;
	while (std::getline(f, line)) {
		std::istringstream s(line);
		std::string k;
		s >> k;
		if (k == "property")
			s >> r.prop;
		else if (k == "class")
			s >> r.cls;
		else if (k == "message")
			std::getline(s, r.msg);
		else if (k == "seed")
			s >> r.seed;
		else if (k == "evhash")
			s >> r.evhash;
		else if (k == "scenario")
			s >> r.plan.scenario;
		else if (k == "param") {
			std::string n;
			long v;
			s >> n >> v;
			r.plan.p[n] = v;
		}
		else if (k == "task")
			r.plan.tasks.emplace_back();
		else if (k == "op") {
			Op o;
			s >> o.code >> o.a >> o.b >> o.c >> o.fk >> o.fn;
			r.plan.tasks.back().push_back(o);
		}
		else if (k == "switch") {
			int t, u;
			uint32_t n;
			s >> t >> n >> u;
			Rec x;
			memset(&x, 0, sizeof(x));
			x.n = n;
			x.task = (uint8_t)t;
			x.target = (uint8_t)u;
			r.recs.push_back(x);
		}
		else if (k == "end")
			break;
	}
	return true;
}

// ---------------------------------------------------------------- minimisation
static std::vector<Rec> recs_of(const Result& r) { return std::vector<Rec>(r.rec, r.rec + r.nrec); }

struct Minimiser
{
	const Scenario& sc;
	std::string cls;
	uint64_t deadline;
	uint64_t rng_seed;
	Plan plan;
	std::vector<Rec> recs;
	uint64_t tries = 0;

	bool timeup() const { return real_ns() > deadline; }
	bool fails_replay(const Plan& p, const std::vector<Rec>& rc)
	{
		++tries;
		RunCfg c;
		c.mode = M_REPLAY;
		c.recs = &rc;
		const Result& r = run_child(p, sc, c);
		return r.verdict == V_VIOLATION && cls == r.cls;
	}
	// search other schedules for the same violation class; on success stores the recorded schedule
	bool fails_search(const Plan& p, int n, std::vector<Rec>& out)
	{
		if (fails_replay(p, recs)) {
			out = recs;
			return true;
		}
		if (p.tasks.size() < 2 && !p.get("multi", 0))
			return false;
		for (int i = 0; i < n && !timeup(); ++i) {
			++tries;
			RunCfg c;
			c.sched_seed = rng_seed + (uint64_t)i * 7919;
			const Result& r = run_child(p, sc, c);
			if (r.verdict == V_VIOLATION && cls == r.cls && !r.rec_overflow) {
				out = recs_of(r);
				return true;
			}
		}
		return false;
	}
	void run()
	{
		// 1. whole tasks, chunks of operations, single operations
		bool progress = true;
		while (progress && !timeup()) {
			progress = false;
			for (size_t t = 0; t < plan.tasks.size() && !timeup(); ++t) {
				for (size_t chunk = std::max<size_t>(plan.tasks[t].size(), 1); chunk >= 1 && !timeup(); chunk /= 2) {
					for (size_t i = 0; i < plan.tasks[t].size() && !timeup();) {
						Plan c = plan;
						auto& v = c.tasks[t];
						v.erase(v.begin() + (long)i, v.begin() + (long)std::min(v.size(), i + chunk));
						std::vector<Rec> out;
						if (fails_search(c, 40, out)) {
							plan = c;
							recs = out;
							progress = true;
						}
						else
							i += chunk;
					}
					if (chunk == 1)
						break;
				}
			}
		}
		// 2. faults
		for (size_t t = 0; t < plan.tasks.size(); ++t)
			for (size_t i = 0; i < plan.tasks[t].size() && !timeup(); ++i)
				if (plan.tasks[t][i].fk) {
					Plan c = plan;
					c.tasks[t][i].fk = c.tasks[t][i].fn = 0;
					std::vector<Rec> out;
					if (fails_search(c, 20, out)) {
						plan = c;
						recs = out;
					}
				}
		// 3. numeric parameters towards zero
		for (auto& kv : std::map<std::string, long>(plan.p)) {
			if (kv.first == "fair" || kv.first == "chaos" || kv.first == "ticks")
				continue; // the bounds of the progress checks
			if (timeup() || kv.second == 0 || kv.first.compare(0, 4, "cfg_") == 0)
				continue;
			for (long v : { 0l, kv.second / 2 }) {
				Plan c = plan;
				c.p[kv.first] = v;
				std::vector<Rec> out;
				if (fails_search(c, 10, out)) {
					plan = c;
					recs = out;
					break;
				}
			}
		}
		// 4. schedule: delta debugging on the recorded decisions
		size_t chunk = std::max<size_t>(recs.size() / 2, 1);
		while (!recs.empty() && !timeup()) {
			bool any = false;
			for (size_t i = 0; i < recs.size() && !timeup();) {
				std::vector<Rec> c = recs;
				c.erase(c.begin() + (long)i, c.begin() + (long)std::min(c.size(), i + chunk));
				if (fails_replay(plan, c)) {
					recs = c;
					any = true;
				}
				else
					i += chunk;
			}
			if (chunk == 1) {
				if (!any)
					break;
			}
			else
				chunk = std::max<size_t>(chunk / 2, 1);
		}
	}
};

// ---------------------------------------------------------------- worker
struct Args
{
	std::map<std::string, std::string> kv;
	std::string get(const char* k, const char* d = "") const
	{
		auto it = kv.find(k);
		return it == kv.end() ? d : it->second;
	}
	uint64_t num(const char* k, uint64_t d) const
	{
		auto it = kv.find(k);
		return it == kv.end() ? d : strtoull(it->second.c_str(), nullptr, 10);
	}
};

static std::string js(const std::string& s)
{
	std::string o = "\"";
	for (char ch : s) {
		unsigned char c = (unsigned char)ch;
		if (c == '"' || c == '\\') {
			o += '\\';
			o += ch;
		}
		else if (c < 32 || c > 126) {
			char b[8];
			snprintf(b, 8, "\\u%04x", c);
			o += b;
		}
		else
			o += ch;
	}
	return o + "\"";
}

static std::vector<std::string> split(const std::string& s, char d)
{
	std::vector<std::string> v;
	std::string x;
	std::istringstream is(s);
	while (std::getline(is, x, d))
		if (!x.empty())
			v.push_back(x);
	return v;
}

static void make_plan(const Scenario& sc, uint64_t run_seed, Plan& plan)
{
	plan = Plan();
	plan.scenario = sc.name;
	Rng r(run_seed);
	sc.gen(plan, r);
}

struct Known
{
	std::string prop, cls, needle;
};

static int worker(const Args& a)
{
	uint64_t seed = a.num("seed", 1), wid = a.num("wid", 0), nw = a.num("nw", 1);
	double tsec = atof(a.get("time", "10").c_str());
	uint64_t maxruns = a.num("runs", ~0ull);
	std::string prop = a.get("prop"), out = a.get("out", "/dev/stdout"), stopf = a.get("stop");
	std::vector<const Scenario*> scs;
	for (auto& s : split(a.get("scenarios"), ','))
		if (auto* p = find_sc(s))
			scs.push_back(p);
	if (scs.empty()) {
		fprintf(stderr, "no scenario\n");
		return 3;
	}
	std::vector<Known> known;
	{
		std::ifstream kf(a.get("known"));
		std::string line;
		while (std::getline(kf, line)) { // prop \t class \t needle
			auto v = split(line, '\t');
			if (v.size() >= 3 && v[0] == prop)
				known.push_back({ v[0], v[1], v[2] });
		}
	}
	std::map<std::string, uint64_t> known_hits;
	int tw = 0;
	for (auto* s : scs)
		tw += s->weight;

	uint64_t t0 = real_ns(), runs = 0, nontriv = 0, steps = 0, simns = 0, switches = 0, preempts = 0, syncs = 0, spurious = 0, allocs = 0;
	uint64_t faults[F_COUNT] = { 0 }, pol[8] = { 0 };
	std::map<std::string, uint64_t> probes, per_sc;
	std::unordered_set<uint64_t> ilv, states;
	std::vector<std::string> samples;
	std::string viol;
	int rc = 0;

	FILE* hashlog = a.kv.count("hashlog") ? fopen(a.get("hashlog").c_str(), "w") : nullptr;
	for (uint64_t i = wid; runs < maxruns; i += nw) {
		if ((double)(real_ns() - t0) > tsec * 1e9)
			break;
		if (!stopf.empty() && (runs & 15) == 0 && access(stopf.c_str(), F_OK) == 0)
			break;
		uint64_t x = seed * 0x9E3779B97F4A7C15ull + i;
		uint64_t rs = Rng::mix(x);
		int pickw = (int)(i % (uint64_t)tw);
		const Scenario* sc = nullptr;
		for (auto* s : scs) {
			if (pickw < s->weight) {
				sc = s;
				break;
			}
			pickw -= s->weight;
		}
		Plan plan;
		make_plan(*sc, rs, plan);
		RunCfg c;
		c.sched_seed = rs;
		const Result& r = run_child(plan, *sc, c);
		++runs;
		if (hashlog)
			fprintf(hashlog, "%lu %lu %lu %lu %d %lu\n", (unsigned long)i, (unsigned long)rs, (unsigned long)r.evhash, (unsigned long)r.ilvhash, r.verdict, (unsigned long)r.steps);
		++per_sc[sc->name];
		steps += r.steps;
		simns += r.simns;
		switches += r.switches;
		preempts += r.preempts;
		syncs += r.syncs;
		spurious += r.spurious;
		allocs += r.allocs;
		++pol[r.policy & 7];
		for (int k = 0; k < F_COUNT; ++k)
			faults[k] += r.faults[k];
		for (int k = 0; k < r.nprobes; ++k)
			probes[r.probe_name[k]] += r.probe_cnt[k];
		for (int k = 0; k < r.nstates; ++k)
			if (states.size() < 2000000)
				states.insert(r.states[k]);
		if (r.nontrivial || r.preempts) {
			++nontriv;
			uint64_t h = r.evhash * 31 + r.ilvhash;
			if (ilv.size() < 3000000)
				ilv.insert(h);
		}
		if (samples.size() < 2 && (r.nontrivial || r.preempts) && (runs % 37) == 5) {
			std::ostringstream o;
			o << sc->name << " seed " << rs << ": policy " << policy_names[r.policy] << ", " << r.ntasks << " tasks, " << r.steps << " points, " << r.preempts << " preemptions;";
			for (size_t t = 0; t < plan.tasks.size(); ++t) {
				o << " T" << t << "[";
				for (size_t q = 0; q < plan.tasks[t].size() && q < 12; ++q) {
					auto& op = plan.tasks[t][q];
					o << (q ? "; " : "") << (sc->show ? sc->show(plan, op) : std::to_string(op.code));
					if (op.fk)
						o << "!" << fault_names[op.fk] << "#" << op.fn;
				}
				o << "]";
			}
			samples.push_back(o.str());
		}
		if (r.verdict == V_INTERNAL) {
			fprintf(stderr, "INTERNAL %s seed %lu: %s\n", sc->name, (unsigned long)rs, r.msg);
			rc = 3;
			viol = std::string("{\"internal\":") + js(std::string(sc->name) + " seed " + std::to_string(rs) + ": " + r.msg) + "}";
			break;
		}
		if (r.verdict == V_VIOLATION) {
			// known finding ?
			bool isk = false;
			for (auto& k : known)
				if (k.cls == r.cls && strstr(r.msg, k.needle.c_str())) {
					++known_hits[k.cls + "\t" + k.needle];
					isk = true;
					break;
				}
			if (isk)
				continue;
			Replay rp;
			rp.prop = prop;
			rp.cls = r.cls;
			rp.msg = r.msg;
			rp.plan = plan;
			rp.seed = rs;
			rp.evhash = r.evhash;
			rp.recs = recs_of(r);
			// gate 1: the same seed twice
			{
				const Result& r2 = run_child(plan, *sc, c);
				if (r2.verdict != V_VIOLATION || r2.evhash != rp.evhash || rp.cls != r2.cls) {
					fprintf(stderr, "NONDETERMINISTIC: %s seed %lu\n", sc->name, (unsigned long)rs);
					viol = "{\"internal\":\"nondeterministic run, seed " + std::to_string(rs) + "\"}";
					rc = 3;
					break;
				}
			}
			// minimise
			Minimiser m{ *sc, rp.cls, real_ns() + a.num("mintime", 20) * 1000000000ull, rs, plan, rp.recs };
			if (m.fails_replay(m.plan, m.recs))
				m.run();
			// final run of the minimised plan, from its decisions
			RunCfg fc;
			fc.mode = M_REPLAY;
			fc.recs = &m.recs;
			fc.verbose = true;
			const Result& fr = run_child(m.plan, *sc, fc);
			if (fr.verdict != V_VIOLATION || rp.cls != fr.cls) {
				viol = "{\"internal\":\"minimised plan does not reproduce, seed " + std::to_string(rs) + "\"}";
				rc = 3;
				break;
			}
			rp.plan = m.plan;
			rp.recs = m.recs;
			rp.msg = fr.msg;
			rp.evhash = fr.evhash;
			std::string path = a.get("replaydir", "/tmp") + "/" + prop + "-" + sc->name + "-" + rp.cls + "-" + std::to_string(rs) + ".replay";
			std::string lg = "# ---- log of the failing run\n";
			for (auto& l : split(fr.log, '\n'))
				lg += "# " + l + "\n";
			write_replay(path, rp, *sc, lg);
			// gate 2: fresh process
			std::string cmd = "/proc/" + std::to_string(getpid()) + "/exe --replay " + path + " --quiet 1 >/dev/null 2>&1";
			int st = system(cmd.c_str());
			if (!(WIFEXITED(st) && WEXITSTATUS(st) == 1)) {
				viol = "{\"internal\":\"replay in a fresh process does not reproduce: " + path + "\"}";
				rc = 3;
				break;
			}
			std::ostringstream o;
			o << "{\"class\":" << js(rp.cls) << ",\"message\":" << js(rp.msg) << ",\"replay\":" << js(path) << ",\"seed\":" << rs << ",\"scenario\":" << js(sc->name) << ",\"min_tries\":" << m.tries << "}";
			viol = o.str();
			rc = 1;
			break;
		}
	}
	double wall = (double)(real_ns() - t0) / 1e9;
	std::ofstream f(out);
	f << "{\"runs\":" << runs << ",\"nontrivial\":" << nontriv << ",\"steps\":" << steps << ",\"simns\":" << simns << ",\"switches\":" << switches << ",\"preempts\":" << preempts << ",\"syncs\":" << syncs << ",\"allocs\":" << allocs << ",\"spurious_wakeups\":" << spurious << ",\"wall\":" << wall;
	f << ",\"faults\":{";
	for (int k = 1; k < F_COUNT; ++k)
		f << (k > 1 ? "," : "") << js(fault_names[k]) << ":" << faults[k];
	f << "},\"policies\":{";
	for (int k = 0; k < 5; ++k)
		f << (k ? "," : "") << js(policy_names[k]) << ":" << pol[k];
	f << "},\"probes\":{";
	bool first = true;
	for (auto& kv : probes) {
		f << (first ? "" : ",") << js(kv.first) << ":" << kv.second;
		first = false;
	}
	f << "},\"scenarios\":{";
	first = true;
	for (auto& kv : per_sc) {
		f << (first ? "" : ",") << js(kv.first) << ":" << kv.second;
		first = false;
	}
	f << "},\"known\":{";
	first = true;
	for (auto& kv : known_hits) {
		f << (first ? "" : ",") << js(kv.first) << ":" << kv.second;
		first = false;
	}
	f << "},\"samples\":[";
	for (size_t k = 0; k < samples.size(); ++k)
		f << (k ? "," : "") << js(samples[k]);
	f << "],\"violation\":" << (viol.empty() ? "null" : viol) << "}\n";
	f.close();
	if (!a.get("hashes").empty()) {
		std::ofstream h(a.get("hashes"), std::ios::binary);
		for (uint64_t v : ilv)
			h.write((const char*)&v, 8);
		std::ofstream h2(a.get("hashes") + ".st", std::ios::binary);
		for (uint64_t v : states)
			h2.write((const char*)&v, 8);
	}
	return rc;
}

static int do_replay(const Args& a)
{
	Replay r;
	if (!read_replay(a.get("replay"), r)) {
		fprintf(stderr, "cannot read the replay file\n");
		return 3;
	}
	const Scenario* sc = find_sc(r.plan.scenario);
	if (!sc) {
		fprintf(stderr, "unknown scenario %s\n", r.plan.scenario.c_str());
		return 3;
	}
	RunCfg c;
	c.mode = M_REPLAY;
	c.recs = &r.recs;
	c.verbose = true;
	const Result& x = run_child(r.plan, *sc, c);
	if (!a.num("quiet", 0)) {
		printf("%s", x.log);
		printf("verdict %d class %s: %s\nevent hash %lu (recorded %lu)\n", x.verdict, x.cls, x.msg, (unsigned long)x.evhash, (unsigned long)r.evhash);
	}
	if (x.verdict == V_VIOLATION && r.cls == x.cls)
		return x.evhash == r.evhash || r.evhash == 0 ? 1 : 4;
	return x.verdict == V_OK ? 0 : 4;
}

// run one seed, verbosely
static int do_one(const Args& a)
{
	const Scenario* sc = find_sc(a.get("scenario"));
	if (!sc)
		return 3;
	Plan plan;
	uint64_t s = a.num("one", 1);
	make_plan(*sc, s, plan);
	printf("%s", plan_text(plan).c_str());
	RunCfg c;
	c.sched_seed = s;
	c.verbose = true;
	const Result& x = run_child(plan, *sc, c);
	printf("%s", x.log);
	printf("verdict %d class %s: %s\nevent hash %lu steps %lu preempts %lu simns %lu\n", x.verdict, x.cls, x.msg, (unsigned long)x.evhash, (unsigned long)x.steps, (unsigned long)x.preempts, (unsigned long)x.simns);
	return 0;
}

// prints "seed evhash ilvhash verdict" for a range of seeds: two invocations must print the same
static int do_hashes(const Args& a)
{
	const Scenario* sc = find_sc(a.get("scenario"));
	if (!sc)
		return 3;
	uint64_t seed = a.num("seed", 1), n = a.num("n", 100), from = a.num("from", 0);
	for (uint64_t i = from; i < from + n; ++i) {
		uint64_t x = seed * 0x9E3779B97F4A7C15ull + i;
		uint64_t rs = Rng::mix(x);
		Plan plan;
		make_plan(*sc, rs, plan);
		RunCfg c;
		c.sched_seed = rs;
		const Result& r = run_child(plan, *sc, c);
		printf("%lu %lu %lu %d %lu\n", (unsigned long)rs, (unsigned long)r.evhash, (unsigned long)r.ilvhash, r.verdict, (unsigned long)r.steps);
	}
	return 0;
}

int main(int argc, char** argv)
{
	Args a;
	for (int i = 1; i + 1 < argc; i += 2)
		if (strncmp(argv[i], "--", 2) == 0)
			a.kv[argv[i] + 2] = argv[i + 1];
	runtime_init();
	g_res = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (g_res == MAP_FAILED)
		return 3;
	if (a.kv.count("replay"))
		return do_replay(a);
	if (a.kv.count("one"))
		return do_one(a);
	if (a.kv.count("list")) {
		for (auto& s : scenarios())
			printf("%s %s %d\n", s.name, s.props, s.weight);
		return 0;
	}
	if (a.kv.count("n"))
		return do_hashes(a);
	return worker(a);
}
