#include "graph_val.h"
// the graph validators as a validator uses them
namespace drv {
	using I = Integer;
	Graph mkU(I l, I r) {return Graph(l, r);}
	DiGraph mkD(I l, I r) {return DiGraph(l, r);}
	Graph mkU0(I n) {return Graph(n);}
	DiGraph mkD0(I n) {return DiGraph(n);}
	void addU(Graph& g, I a, I b) {g.addEdge(a, b);}
	void addD(DiGraph& g, I a, I b) {g.addEdge(a, b);}
	std::optional<I> loopU(const Graph& g) {return g.hasSelfloop();}
	std::optional<I> loopD(const DiGraph& g) {return g.hasSelfloop();}
	std::optional<std::pair<I, I>> multiU(const Graph& g) {return g.hasMultiedge();}
	std::optional<std::pair<I, I>> multiD(const DiGraph& g) {return g.hasMultiedge();}
	I nodesU(const Graph& g) {return g.nodeCount();}
	I nodesD(const DiGraph& g) {return g.nodeCount();}
	I sizeU(const Graph& g) {return static_cast<I>(g.size());}
	I sizeD(const DiGraph& g) {return static_cast<I>(g.size());}
	I edgesU(const Graph& g) {return g.edgeCount();}
	I edgesD(const DiGraph& g) {return g.edgeCount();}
	bool hasU(const Graph& g, I a, I b) {return g.hasEdge(a, b);}
	bool hasD(const DiGraph& g, I a, I b) {return g.hasEdge(a, b);}
	std::vector<I> nbU(const Graph& g, I a) {std::vector<I> r; for (I x : g[a]) r.push_back(x); return r;}
	std::vector<I> nbD(const DiGraph& g, I a) {std::vector<I> r; for (I x : g[a]) r.push_back(x); return r;}
	std::vector<I> inD(const DiGraph& g, I a) {std::vector<I> r; for (I x : g.inEdges(a)) r.push_back(x); return r;}
	I degU(const Graph& g, I a) {return g.degree(a);}
	I outdegD(const DiGraph& g, I a) {return g.outDegree(a);}
	I indegD(const DiGraph& g, I a) {return g.inDegree(a);}
	bool revD(const DiGraph& g, I a, I b) {return g.hasReverse(a, b);}
	bool connU(const Graph& g) {return g.isConnected();}
	bool forestU(const Graph& g) {return g.isForest();}
	bool treeU(const Graph& g) {return g.isTree();}
	bool bipU(const Graph& g) {return g.isBipartite();}
	bool pairU(Graph& g, I a, I b) {return g.areConnected(a, b);}
	std::optional<std::vector<I>> dagD(const DiGraph& g) {return g.isDAG();}
	std::optional<I> treeD(const DiGraph& g) {return g.isTree();}
	// disjoint sets
	bool ufUnion(UnionFind& u, I a, I b) {return u.unionSets(a, b);}
	bool ufSame(const UnionFind& u, I a, I b) {return u.connected(a, b);}
	I ufFind(const UnionFind& u, I a) {return u.findSet(a);}
	UnionFind ufMake(I n) {return UnionFind(n);}
}
