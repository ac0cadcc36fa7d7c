#include <iterator>
#include <list>
#include <set>
#include <map>
#include <vector>
#include <queue>
#include <boost/graph/adjacency_list.hpp>
#include <boost/property_map/property_map.hpp>
#include <parmcb/detail/approx_spanner.hpp>
namespace parmcb_inst {
typedef boost::adjacency_list<boost::vecS, boost::vecS, boost::undirectedS, boost::no_property, boost::property<boost::edge_weight_t, double>> Graph;
typedef boost::graph_traits<Graph>::vertex_descriptor Vertex;
typedef boost::graph_traits<Graph>::edge_descriptor Edge;
typedef boost::property_map<Graph, boost::edge_weight_t>::type WM;
typedef boost::property_map<Graph, boost::vertex_index_t>::type IM;
// stands for any of the exact algorithms; its contract is assumed where it is called
struct Exact { double operator()(const Graph &g, const WM &w, std::back_insert_iterator<std::list<std::list<Edge>>> out); };
typedef std::back_insert_iterator<std::list<std::list<Edge>>> Out;
void use(Graph &g, WM &w, const IM &im, Out out) {
    parmcb::detail::BaseApproxSpannerAlgorithm<Graph, WM, Exact, false> a(g, w, im, 2);
    a.run(out);
}
}
