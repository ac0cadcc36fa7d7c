#include <iterator>
#include <list>
#include <set>
#include <map>
#include <vector>
#include <queue>
#include <boost/graph/adjacency_list.hpp>
#include <boost/property_map/property_map.hpp>
#include <parmcb/parmcb_approx_sva_signed.hpp>
#include <parmcb/parmcb_approx_sva_trees.hpp>
namespace parmcb_inst {
typedef boost::adjacency_list<boost::vecS, boost::vecS, boost::undirectedS, boost::no_property, boost::property<boost::edge_weight_t, double>> Graph;
typedef boost::graph_traits<Graph>::edge_descriptor Edge;
typedef boost::property_map<Graph, boost::edge_weight_t>::type WM;
typedef std::back_insert_iterator<std::list<std::list<Edge>>> Out;
void use(Graph &g, WM &w, std::size_t k, Out out) {
    parmcb::approx_mcb_sva_signed(g, w, k, out);
    parmcb::approx_mcb_sva_fvs_trees(g, w, k, out);
    parmcb::approx_mcb_sva_iso_trees(g, w, k, out);
}
}
