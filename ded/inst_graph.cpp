#include <iterator>
#include <list>
#include <set>
#include <map>
#include <vector>
#include <queue>
#include <unordered_set>
#include <boost/graph/adjacency_list.hpp>
#include <boost/property_map/property_map.hpp>
#include <parmcb/util.hpp>
#include <parmcb/forestindex.hpp>
#include <parmcb/detail/spanning_forest.hpp>
#include <parmcb/detail/fvs.hpp>
#include <parmcb/detail/bfs.hpp>
#include <parmcb/detail/dijkstra.hpp>
namespace parmcb_inst {
typedef boost::adjacency_list<boost::vecS, boost::vecS, boost::undirectedS, boost::no_property, boost::property<boost::edge_weight_t, double>> Graph;
typedef boost::graph_traits<Graph>::vertex_descriptor Vertex;
typedef boost::graph_traits<Graph>::edge_descriptor Edge;
typedef boost::property_map<Graph, boost::edge_weight_t>::type WM;
void use(Graph &g, WM &w, std::vector<Vertex> &out, std::list<Edge> &l, std::set<Edge>& fs) {
    parmcb::ForestIndex<Graph> fi(g); parmcb::ForestIndex<Graph> f2(fi); f2 = fi;
    fi(0); fi(l.front()); fi.is_on_forest(l.front()); fi.cycle_space_dimension(); fi.weak_connected_components();
    parmcb::detail::spanning_forest(g, std::inserter(fs, fs.begin()));
    parmcb::greedy_fvs(g, std::back_inserter(out));
    parmcb::has_loops(g); parmcb::has_multiple_edges(g); parmcb::has_non_positive_weights(g, w); parmcb::is_cycle(g, l);
    parmcb::read_dimacs_from_file(stdin, g);
    parmcb::is_bfs_reachable(g, 0, 1, 3);
}
}
