#include "engine.h"
#include <fstream>
#include <unistd.h>
#include <sstream>
using namespace llvm;
std::string jsonEsc(const std::string& s){
	std::string r;
	for(unsigned char c : s){
		if(c == '"' || c == '\\'){ r += '\\'; r += c; }
		else if(c < 32 || c >= 127){ char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
		else r += c;
	}
	return r;
}
static void putViolation(std::ostream& os, const Violation& v){
	os << "{\"kind\":\"" << jsonEsc(v.kind) << "\",\"msg\":\"" << jsonEsc(v.msg) << "\",\"where\":\"" << jsonEsc(v.where) << "\",\"syms\":[";
	for(size_t i = 0; i < v.syms.size(); ++i){
		if(i) os << ",";
		os << "{\"name\":\"" << jsonEsc(v.syms[i].name) << "\",\"choice\":" << (v.syms[i].choice ? "true" : "false") << ",\"vals\":[";
		for(size_t k = 0; k < v.vals[i].size(); ++k) os << (k ? "," : "") << v.vals[i][k];
		os << "]}";
	}
	os << "],\"obs\":[";
	for(size_t i = 0; i < v.obs.size(); ++i){
		os << (i ? "," : "") << "[\"" << jsonEsc(v.obs[i].first) << "\",\"";
		for(unsigned char c : v.obs[i].second){ char b[4]; snprintf(b, sizeof b, "%02x", c); os << b; }
		os << "\"]";
	}
	os << "],\"sched\":[";
	for(size_t i = 0; i < v.sched.size(); ++i) os << (i ? "," : "") << "\"" << v.sched[i] << "\"";
	os << "]}";
}
int main(int argc, char** argv){
	std::string bc, entry, out;
	Engine g;
	for(int i = 1; i < argc; ++i){
		std::string a = argv[i];
		auto nx = [&]{ return std::string(argv[++i]); };
		if(a == "--entry") entry = nx();
		else if(a == "--out") out = nx();
		else if(a == "--time") g.timeLimit = std::stod(nx());
		else if(a == "--steps") g.maxSteps = std::stoull(nx());
		else if(a == "--solver-timeout") g.solver.timeoutMs = std::stoul(nx());
		else if(a == "--samples") g.samplesWanted = std::stoul(nx());
		else if(a == "--dump") g.solver.dumpDir = nx();
		else if(a == "--dump-every") g.solver.dumpEvery = std::stoul(nx());
		else if(a == "--seed") g.rng = std::stoull(nx()) * 0x9e3779b97f4a7c15ull + 1;
		else if(a == "--switches") g.maxSwitches = std::stoul(nx());
		else if(a == "--dump-max") g.solver.dumpMax = std::stoul(nx());
		else if(a == "--trace") g.trace = true;
		else if(a == "--merge") g.merge = true;
		else bc = a;
	}
	LLVMContext ctx;
	SMDiagnostic err;
	auto m = parseIRFile(bc, err, ctx);
	if(!m){ err.print("vse", errs()); return 2; }
	std::string fatal;
	try {
		g.load(*m);
		g.solver.where = [&](){ return g.where(); };
		g.run(entry);
	} catch(PathEnd& pe){ fatal = "path end outside of exploration: " + pe.reason; }
	catch(std::exception& e){ fatal = e.what(); }
	if(!g.forkSites.empty()){
		std::vector<std::pair<uint64_t, std::string>> fs;
		for(auto& kv : g.forkSites) fs.push_back({kv.second, kv.first});
		std::sort(fs.rbegin(), fs.rend());
		for(size_t i = 0; i < fs.size() && i < 12; ++i) fprintf(stderr, "FORKS %llu at %s\n", (unsigned long long)fs[i].first, fs[i].second.c_str());
	}
	std::ostringstream os;
	os << "{\"entry\":\"" << entry << "\",\"fatal\":\"" << jsonEsc(fatal) << "\",\"paths\":" << g.pathsDone << ",\"pruned\":" << g.pruned << ",\"forks\":" << g.forks << ",\"merged_branches\":" << g.merges << ",\"instructions\":" << g.steps
	   << ",\"asserts\":" << g.asserts << ",\"asserts_symbolic\":" << g.assertsSym << ",\"sched_points\":" << g.schedPoints
	   << ",\"path_feasibility_checks\":" << g.pathChecks << ",\"path_feasible\":" << g.pathSat << ",\"exprs\":" << exprCount()
	   << ",\"queries\":" << g.solver.st.queries << ",\"solver_calls\":" << g.solver.st.solverCalls << ",\"sat\":" << g.solver.st.sat << ",\"unsat\":" << g.solver.st.unsat << ",\"unknown\":" << g.solver.st.unknown
	   << ",\"cache_hits\":" << g.solver.st.cacheHits << ",\"range_refuted\":" << g.solver.st.rangeUnsat << ",\"div_abstracted\":" << g.solver.st.absUnsat << ",\"fp_queries\":" << g.solver.st.fpQueries << ",\"solver_ms\":" << g.solver.st.ms << ",\"solver_max_ms\":" << g.solver.st.maxMs << ",\"wall_s\":" << g.elapsed()
	   << ",\"timed_out\":" << (g.timedOut ? "true" : "false") << ",\"truncated\":{";
	bool first = true;
	for(auto& t : g.truncated){ os << (first ? "" : ",") << "\"" << jsonEsc(t.first) << "\":" << t.second; first = false; }
	os << "},\"reached\":{";
	first = true;
	for(auto& t : g.reached){ os << (first ? "" : ",") << "\"" << jsonEsc(t.first) << "\":" << t.second; first = false; }
	os << "},\"functions\":[";
	first = true;
	std::set<std::string> fns;
	for(auto& c : g.cfuncs) if(c.second->execs){
		if(auto* sp = c.first->getSubprogram()) if(sp->getFilename().contains("/src/utki/")) fns.insert(demangle(c.first->getName().str()));
		// inlined callees, from debug info
		for(auto& bb : *c.first) for(auto& I : bb) if(auto* dl = I.getDebugLoc().get()) for(const DILocation* l = dl; l; l = l->getInlinedAt()) if(auto* sp = l->getScope()->getSubprogram()) if(sp->getFilename().contains("/src/utki/")){
			std::string fn = sp->getFilename().str();
			fns.insert(sp->getName().str() + " (" + fn.substr(fn.rfind('/') + 1) + ":" + std::to_string(sp->getLine()) + ")");
		}
	}
	for(auto& f : fns){ os << (first ? "" : ",") << "\"" << jsonEsc(f) << "\""; first = false; }
	os << "],\"violations\":[";
	for(size_t i = 0; i < g.violations.size(); ++i){ if(i) os << ","; putViolation(os, g.violations[i]); }
	os << "],\"samples\":[";
	for(size_t i = 0; i < g.samples.size(); ++i){ if(i) os << ","; putViolation(os, g.samples[i]); }
	os << "]}\n";
	if(out.empty()) fputs(os.str().c_str(), stdout);
	else { std::ofstream f(out); f << os.str(); }
	fflush(nullptr); _exit(fatal.empty() ? 0 : 3);
}
