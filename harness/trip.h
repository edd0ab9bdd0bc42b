#pragma once
#include <functional>
#include <string>
#include <vector>
namespace trip {
enum { TREE = 1, FOREST = 2, CONNECTED = 4, BIPARTITE = 8, SIMPLE = 16, DAG = 32, OUTTREE = 64 };
struct GraphPlan {
	int prop, how, data; bool directed;
	std::function<void(const std::vector<std::vector<long long>>&)> result;
	std::function<void(const std::string&)> note;
};
}
