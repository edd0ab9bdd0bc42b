// Reader side of the graph round trip: its own shared object, because graph_val.h and graph_gen.h name their classes alike.
#include <cstdint>
#include <functional>
#include <set>
#include <map>
#include <optional>
#include <string>
#include <vector>
#include REPO_GRAPH_VAL
#include "trip.h"

extern "C" __attribute__((visibility("default"))) void rtReadGraph(const trip::GraphPlan& p, char* argv0) {
	char* argv[] = {argv0, nullptr};
	InputValidator::init(1, argv);
	InputStream& in = InputValidator::testIn;
	std::vector<std::vector<long long>> got;
	Integer n = in.integer(0, 1000000); in.space();
	Integer e = in.integer(0, 1000000);
	got.push_back({(long long)n, (long long)e});
	auto reject = [&](const char* why) { p.note(std::string("rejected: not ") + why); InputValidator::juryOut << "not " << why << InputValidator::WA; };
	auto edges = [&](auto& g) {
		for (Integer i = 0; i < e; i++) {
			in.newline();
			Integer a, b;
			if (p.how == 0) { a = in.integer(0, n); in.space(); b = in.integer(0, n); }
			else { auto v = in.integers(0, n, 2); a = v[0]; b = v[1]; }
			std::vector<long long> row{(long long)a, (long long)b};
			for (int k = 0; k < p.data; k++) { in.space(); row.push_back((long long)in.integer()); }
			got.push_back(row);
			g.addEdge(a, b);
		}
		in.newline(); in.eof();
		p.result(got);
		if (g.nodeCount() != n || g.edgeCount() != e) reject("counted right");
	};
	if (p.directed) {
		DiGraph g(n); edges(g);
		if (p.prop & trip::DAG) if (!g.isDAG()) reject("acyclic");
		if (p.prop & trip::OUTTREE) if (!g.isTree()) reject("a directed tree");
		if (p.prop & trip::SIMPLE) if (g.hasSelfloop() || g.hasMultiedge()) reject("simple");
	} else {
		Graph g(n); edges(g);
		if (p.prop & trip::TREE) if (!g.isTree()) reject("a tree");
		if (p.prop & trip::FOREST) if (!g.isForest()) reject("a forest");
		if (p.prop & trip::CONNECTED) if (!g.isConnected()) reject("connected");
		if (p.prop & trip::BIPARTITE) if (!g.isBipartite()) reject("bipartite");
		if (p.prop & trip::SIMPLE) if (g.hasSelfloop() || g.hasMultiedge()) reject("simple");
	}
	InputValidator::juryOut << "ok" << InputValidator::AC;
}
