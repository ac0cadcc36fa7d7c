// ---- cycles as lists of edges, weights, independence over GF(2)
pub open spec fn eids(c: Seq<Edge>) -> Seq<int> { Seq::new(c.len(), |i: int| c[i].id) }
pub open spec fn edges_ok(g: G, c: Seq<Edge>) -> bool { forall|i: int| 0 <= i < c.len() ==> edge_ok(g, #[trigger] c[i]) }
// a list of distinct edges, the edges of one simple cycle in some order
pub open spec fn cyc_on(g: G, vs: Seq<int>, es: Seq<int>, ids: Seq<int>) -> bool { cyc(g, vs, es) && ids.no_duplicates() && ids.len() == es.len() && forall|i: int| 0 <= i < ids.len() ==> es.contains(#[trigger] ids[i]) }
pub open spec fn cycle_of(g: G, c: Seq<Edge>) -> bool { edges_ok(g, c) && exists|vs: Seq<int>, es: Seq<int>| #[trigger] cyc_on(g, vs, es, eids(c)) }
pub open spec fn wt(wm: Seq<real>, c: Seq<Edge>) -> real { wsum(wm, eids(c)) }
pub open spec fn tot(wm: Seq<real>, cs: Seq<Seq<Edge>>) -> real decreases cs.len() { if cs.len() == 0 { 0real } else { tot(wm, cs.drop_last()) + wt(wm, cs.last()) } }
pub open spec fn uses(c: Seq<Edge>, e: int) -> bool { eids(c).contains(e) }
// parity of the number of chosen cycles among the first k that contain e
pub open spec fn odd(cs: Seq<Seq<Edge>>, I: Seq<bool>, e: int, k: int) -> bool decreases k { if k <= 0 { false } else { odd(cs, I, e, k - 1) != (I[k - 1] && uses(cs[k - 1], e)) } }
pub open spec fn some(I: Seq<bool>) -> bool { exists|i: int| 0 <= i < I.len() && #[trigger] I[i] }
pub open spec fn nonzero(cs: Seq<Seq<Edge>>, I: Seq<bool>) -> bool { exists|e: int| #[trigger] odd(cs, I, e, cs.len() as int) }
// no non-empty selection of the cycles adds up to zero
pub open spec fn indep(cs: Seq<Seq<Edge>>) -> bool { forall|I: Seq<bool>| I.len() == cs.len() && #[trigger] some(I) ==> nonzero(cs, I) }
pub open spec fn cycles_of(g: G, cs: Seq<Seq<Edge>>) -> bool { forall|i: int| 0 <= i < cs.len() ==> cycle_of(g, #[trigger] cs[i]) }
// the number of cycles is the dimension of the cycle space
pub open spec fn dimension(g: G, d: int) -> bool { exists|k: int| #[trigger] ncomp(g, k) && d == g.ends.len() - g.n + k }
pub open spec fn basis(g: G, cs: Seq<Seq<Edge>>) -> bool { cycles_of(g, cs) && indep(cs) && dimension(g, cs.len() as int) }
proof fn l_tot_push(wm: Seq<real>, cs: Seq<Seq<Edge>>, c: Seq<Edge>) ensures tot(wm, cs.push(c)) == tot(wm, cs) + wt(wm, c) { assert(cs.push(c).drop_last() =~= cs); }
proof fn l_tot_cat(wm: Seq<real>, a: Seq<Seq<Edge>>, b: Seq<Seq<Edge>>) ensures tot(wm, a + b) == tot(wm, a) + tot(wm, b) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); l_tot_cat(wm, a, b.drop_last()); assert((a + b).last() == b.last()); } }
proof fn l_odd_none(cs: Seq<Seq<Edge>>, I: Seq<bool>, e: int, k: int) requires 0 <= k <= cs.len(), I.len() == cs.len(), forall|i: int| 0 <= i < k ==> !(#[trigger] I[i] && uses(cs[i], e)) ensures !odd(cs, I, e, k) decreases k { if k > 0 { assert(!(I[k - 1] && uses(cs[k - 1], e))); l_odd_none(cs, I, e, k - 1); } }
proof fn l_odd_one(cs: Seq<Seq<Edge>>, I: Seq<bool>, e: int, k: int, j: int) requires 0 <= j < k <= cs.len(), I.len() == cs.len(), I[j], uses(cs[j], e), forall|i: int| 0 <= i < k && i != j ==> !(#[trigger] I[i] && uses(cs[i], e)) ensures odd(cs, I, e, k) decreases k
{ if j == k - 1 { l_odd_none(cs, I, e, k - 1); } else { assert(!(I[k - 1] && uses(cs[k - 1], e))); l_odd_one(cs, I, e, k - 1, j); } }
proof fn l_uses(c: Seq<Edge>, i: int) requires 0 <= i < c.len() ensures uses(c, c[i].id) { assert(eids(c)[i] == c[i].id); }
proof fn l_uses_inv(c: Seq<Edge>, e: int) -> (i: int) requires uses(c, e) ensures 0 <= i < c.len(), c[i].id == e { let i = choose|i: int| 0 <= i < eids(c).len() && eids(c)[i] == e; i }
