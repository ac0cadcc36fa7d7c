#include <iterator>
#include <list>
#include <set>
#include <map>
#include <vector>
#include <queue>
#include <boost/graph/adjacency_list.hpp>
#include <boost/property_map/property_map.hpp>
#include <parmcb/parmcb_sva_signed_tbb.hpp>
template class parmcb::SpVecGF2<std::size_t>;
namespace parmcb_inst {
typedef boost::adjacency_list<boost::vecS, boost::vecS, boost::undirectedS, boost::no_property, boost::property<boost::edge_weight_t, double>> Graph;
typedef boost::graph_traits<Graph>::edge_descriptor Edge;
typedef boost::property_map<Graph, boost::edge_weight_t>::type WM;
typedef std::back_insert_iterator<std::list<std::list<Edge>>> Out;
void use(Graph &g, WM &w, std::size_t k, Out out) { parmcb::mcb_sva_signed_tbb(g, w, out); }
}
