#include "graph_gen.h"
// instantiations of the graph generators the analysis looks at
namespace drv {
	using I = Integer;
	using N = NoData;
	using D = DiGraph<I>;
	using U = Graph<I>;
	bool pred2(I a, I b) {return a < b;}
	bool pred3(I a, I b, const I& x) {return a < b or x % 2 == 1;}
	// operations that exist for one kind of graph only
	D& rev(D& g) {return g.reverse();}
	U und(const D& g) {return g.undirected();}
	D dir0(const U& g) {return g.directed();}
	D dir2(const U& g) {return g.directed([](I a, I b){return pred2(a, b);});}
	D dir3(const U& g) {return g.directed([](I a, I b, const I& x){return pred3(a, b, x);});}
	// neighbours and edges as a user iterates them
	std::vector<I> nbU(const U& g, I x) {std::vector<I> r; for (auto e : g[x]) r.push_back(e.to); return r;}
	std::vector<I> nbD(const D& g, I x) {std::vector<I> r; for (auto e : g[x]) r.push_back(e.to); return r;}
	std::vector<I> egU(const U& g) {std::vector<I> r; for (auto e : g.getEdges()) {r.push_back(e.from); r.push_back(e.to); r.push_back(*e);} return r;}
	std::vector<I> egD(const D& g) {std::vector<I> r; for (auto e : g.getEdges()) {r.push_back(e.from); r.push_back(e.to); r.push_back(*e);} return r;}
	U fromU(const U& g) {return g;}
	D fromD(const D& g) {return g;}
	template<typename G>
	void ops(G& d, const G& e) {
		d.addEdge(0, 1, 2);
		d.addEdge(0, 1);
		d.eraseEdge(0, 1);
		d.hasEdge(0, 1);
		d.findEdge(0, 1);
		e.findEdge(0, 1);
		d.getEdgeById(0);
		e.getEdgeById(0);
		d.setMinId(1);
		d.normalize();
		d.range(0, 1);
		d.combine(e);
		d.append(e);
		d.permutateEdges();
		d.permutate();
		d.subgraph(1);
		d.complement();
		d.power(1);
		d.transitiveClosure();
		d.cartesian(e);
		d.lineGraph();
		d.copy();
		d = d;
		d.degree(0);
		d.getNextId();
		d.getMinId();
		d.getDegrees();
		d.edgeCount();
		d.nodeCount();
		d = e;
	}
	template void ops<D>(D&, const D&);
	template void ops<U>(U&, const U&);
	template<typename G>
	void opsN(G& d, const G& e) {
		d.addEdge(0, 1);
		d.hasEdge(0, 1);
		d.permutateEdges();
		d.permutate();
		d = e;
		d.degree(0);
		d.getMinId();
		d.getDegrees();
		d.edgeCount();
		d.nodeCount();
		d.getEdges();
		e.getEdges();
	}
	template void opsN<Graph<N>>(Graph<N>&, const Graph<N>&);
	template void opsN<DiGraph<N>>(DiGraph<N>&, const DiGraph<N>&);
	U prod(const U& a, const U& b) {return a.product(b);}
	U strong(const U& a, const U& b) {return a.strongProduct(b);}
	Graph<N> lineN(const Graph<N>& a) {return a.lineGraph();}
	DiGraph<N> lineM(const DiGraph<N>& a) {return a.lineGraph();}
	// generators
	Graph<N> ind(I n) {return independent(n);}
	Graph<N> cliqueU(I n) {return clique(n);}
	DiGraph<N> cliqueD(I n) {return clique<N, true>(n);}
	Graph<N> bipU(I n, I m) {return bipartite(n, m);}
	DiGraph<N> bipD(I n, I m) {return bipartite<N, true>(n, m);}
	Graph<N> rbipU(I n, I m, I k) {return randomBipartite(n, m, k);}
	DiGraph<N> rbipD(I n, I m, I k) {return randomBipartite<N, true>(n, m, k);}
	Graph<N> rbippU(I n, I m, Real p) {return randomBipartite(n, m, p);}
	DiGraph<N> rbippD(I n, I m, Real p) {return randomBipartite<N, true>(n, m, p);}
	Graph<N> starU(I n) {return star(n);}
	DiGraph<N> starD(I n) {return star<N, true>(n);}
	Graph<N> pathU(I n) {return path(n);}
	DiGraph<N> pathD(I n) {return path<N, true>(n);}
	Graph<N> cycleU(I n) {return cycle(n);}
	DiGraph<N> cycleD(I n) {return cycle<N, true>(n);}
	Graph<N> wheelU(I n) {return wheel(n);}
	Graph<N> lollyU(I n, I m) {return lolly(n, m);}
	Graph<N> broomU(I n, I m) {return broom(n, m);}
	Graph<N> gridU(I n, I m) {return grid(n, m);}
	Graph<N> gridQ(I n) {return grid(n);}
	Graph<N> cubeU(I n) {return hypercube(n);}
	Graph<N> ctreeU(I n, I m) {return completeTree(n, m);}
	DiGraph<N> ctreeD(I n, I m) {return completeTree<N, true>(n, m);}
	Graph<N> latU(I n) {return booleanLattice(n);}
	DiGraph<N> latD(I n) {return booleanLattice<N, true>(n);}
	Graph<N> radoU(I n) {return rado(n);}
	DiGraph<N> radoD(I n) {return rado<N, true>(n);}
	Graph<N> pruef(const std::vector<I>& c) {return pruefer(c);}
	Graph<N> rtreeU(I n) {return randomTree(n);}
	DiGraph<N> rtreeD(I n) {return randomTree<N, true>(n);}
	Graph<N> rgraphU(I n, I m) {return randomGraph(n, m);}
	DiGraph<N> rgraphD(I n, I m) {return randomGraph<N, true>(n, m);}
	Graph<N> rgraphpU(I n, Real p) {return randomGraph(n, p);}
	DiGraph<N> rgraphpD(I n, Real p) {return randomGraph<N, true>(n, p);}
	Graph<N> rgrow(I n, Real p) {return randomGrowingGraph(n, p);}
	Graph<N> rdeg(const std::vector<I>& d, I flips) {return randomGraph(d, flips);}
	// edges of a graph without data
	std::vector<I> egN(const Graph<N>& g) {std::vector<I> r; for (auto e : g.getEdges()) {r.push_back(e.from); r.push_back(e.to);} return r;}
	std::vector<I> egM(const DiGraph<N>& g) {std::vector<I> r; for (auto e : g.getEdges()) {r.push_back(e.from); r.push_back(e.to);} return r;}
	std::vector<I> nbN(const Graph<N>& g, I x) {std::vector<I> r; for (auto e : g[x]) r.push_back(e.to); return r;}
	std::vector<I> nbM(const DiGraph<N>& g, I x) {std::vector<I> r; for (auto e : g[x]) r.push_back(e.to); return r;}
	void addN(Graph<N>& g, I a, I b) {g.addEdge(a, b);}
	void addM(DiGraph<N>& g, I a, I b) {g.addEdge(a, b);}
	void outOU(OutputStream& os, const U& g) {os << g;}
	void outOD(OutputStream& os, const D& g) {os << g;}
	void outON(OutputStream& os, const Graph<N>& g) {os << g;}
	void outOM(OutputStream& os, const DiGraph<N>& g) {os << g;}
	void outSU(std::ostream& os, const U& g) {os << g;}
	void outSD(std::ostream& os, const D& g) {os << g;}
	void outSN(std::ostream& os, const Graph<N>& g) {os << g;}
	void outSM(std::ostream& os, const DiGraph<N>& g) {os << g;}
}
