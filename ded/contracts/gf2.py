INST = "inst_alg.cpp"
C = r"SpVecGF2<unsigned long>::"
LEMMAS = r'''
pub open spec fn inpre(s: Seq<int>, k: int, x: int) -> bool { exists|j: int| 0 <= j < k && s[j] == x }
pub open spec fn nonneg(s: Seq<int>) -> bool { forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] <= 18446744073709551615 }
pub open spec fn canon(s: Seq<int>) -> bool { sorted(s) && nonneg(s) }
proof fn l_pre(s: Seq<int>, k: int) requires sorted(s), 0 <= k < s.len() ensures forall|x: int| #[trigger] inpre(s, k + 1, x) <==> (inpre(s, k, x) || x == s[k])
{ assert forall|x: int| #[trigger] inpre(s, k + 1, x) <==> (inpre(s, k, x) || x == s[k]) by {
    if inpre(s, k + 1, x) { let j = choose|j: int| 0 <= j < k + 1 && s[j] == x; if j < k { assert(inpre(s, k, x)); } }
    if inpre(s, k, x) { let j = choose|j: int| 0 <= j < k && s[j] == x; assert(0 <= j < k + 1 && s[j] == x); }
    if x == s[k] { assert(0 <= k < k + 1 && s[k] == x); } } }
proof fn l_pre0(s: Seq<int>) ensures forall|x: int| !#[trigger] inpre(s, 0, x), forall|x: int| #[trigger] inpre(s, s.len() as int, x) <==> s.contains(x)
{ assert forall|x: int| #[trigger] inpre(s, s.len() as int, x) <==> s.contains(x) by { if inpre(s, s.len() as int, x) { let j = choose|j: int| 0 <= j < s.len() && s[j] == x; assert(s[j] == x); } if s.contains(x) { let j = choose|j: int| 0 <= j < s.len() && s[j] == x; assert(0 <= j < s.len() && s[j] == x); } } }
proof fn l_push(s: Seq<int>, x: int) ensures forall|y: int| #[trigger] s.push(x).contains(y) <==> (s.contains(y) || y == x)
{ assert forall|y: int| #[trigger] s.push(x).contains(y) <==> (s.contains(y) || y == x) by {
    if s.contains(y) { let j = choose|j: int| 0 <= j < s.len() && s[j] == y; assert(s.push(x)[j] == y); }
    assert(s.push(x)[s.len() as int] == x);
    if s.push(x).contains(y) { let j = choose|j: int| 0 <= j < s.push(x).len() && s.push(x)[j] == y; if j < s.len() { assert(s[j] == y); } } } }
// parity of the number of common elements, counted over a prefix of the first operand
pub open spec fn common(a: Seq<int>, b: Seq<int>, k: int) -> int decreases k { if k <= 0 { 0 } else { common(a, b, k - 1) + (if b.contains(a[k - 1]) { 1int } else { 0 }) } }
pub open spec fn below(s: Seq<int>, k: int, y: int) -> bool { forall|j: int| 0 <= j < k ==> s[j] < y }
'''
def dotc(b, req, extra=""):
    return dict(requires=["canon(this_.ones)", req], nloops=1, begin=extra,
      ensures=["r == common(this_.ones, %s, this_.ones.len() as int) %% 2" % b],
      loops={0: dict(inv=["0 <= it <= this_.ones.len()", "0 <= v_it <= %s.len()" % b, "it_e == this_.ones.len()", "v_it_e == %s.len()" % b, "0 <= res < 2",
          "res == common(this_.ones, %s, it) %% 2" % b, "it < this_.ones.len() ==> below(%s, v_it, this_.ones[it])" % b],
        begin="assert(common(this_.ones, {b}, it + 1) == common(this_.ones, {b}, it) + (if {b}.contains(this_.ones[it]) {{ 1int }} else {{ 0 }})); if this_.ones[it] < {b}[v_it] {{ assert(!{b}.contains(this_.ones[it])); }} if this_.ones[it] == {b}[v_it] {{ assert({b}.contains(this_.ones[it])); }}".format(b=b),
        after="l_rest(this_.ones, %s, it);" % b)})
LEMMAS += r'''
proof fn l_rest(a: Seq<int>, b: Seq<int>, k: int)
  requires sorted(a), sorted(b), 0 <= k <= a.len(), k < a.len() ==> below(b, b.len() as int, a[k])
  ensures common(a, b, a.len() as int) == common(a, b, k)
  decreases a.len() - k
{ if k < a.len() { assert(!b.contains(a[k])); assert(common(a, b, k + 1) == common(a, b, k)); if k + 1 < a.len() { assert(a[k] < a[k + 1]); } l_rest(a, b, k + 1); } }
'''
PL = "this_.ones", "v.ones"
XOR = "forall|x: int| #[trigger] res.ones.contains(x) <==> (inpre(this_.ones, it, x) != inpre(v.ones, v_it, x))"
inv = ["0 <= it <= this_.ones.len()", "0 <= v_it <= v.ones.len()", "it_e == this_.ones.len()", "v_it_e == v.ones.len()", "canon(res.ones)", XOR,
  "it < this_.ones.len() ==> below(res.ones, res.ones.len() as int, this_.ones[it])", "v_it < v.ones.len() ==> below(res.ones, res.ones.len() as int, v.ones[v_it])",
  "it < this_.ones.len() ==> below(v.ones, v_it, this_.ones[it])", "v_it < v.ones.len() ==> below(this_.ones, it, v.ones[v_it])"]
hint = "if it < this_.ones.len() { l_pre(this_.ones, it); } if v_it < v.ones.len() { l_pre(v.ones, v_it); }"
push = "l_push(OLD_.ones, res.ones.last()); assert(OLD_.ones.push(res.ones.last()) =~= res.ones);"
SYM = "forall|x: int| #[trigger] R.ones.contains(x) <==> (T.ones.contains(x) != v.ones.contains(x))"
FUNCS = [
 dict(name="gf2_plus", find=C + r"operator\+", npar=1, nloops=3,
  requires=["canon(this_.ones)", "canon(v.ones)"],
  ensures=["canon(r.ones)", SYM.replace("R", "r").replace("T", "this_")],
  begin="l_pre0(this_.ones); l_pre0(v.ones);", on={"res": push},
  loops={0: dict(inv=inv, begin=hint), 1: dict(inv=inv + ["it < this_.ones.len() ==> v_it == v.ones.len()"], begin=hint), 2: dict(inv=inv + ["it == this_.ones.len()"], begin=hint)}),
 dict(name="gf2_plus_assign", find=C + r"operator\+=", npar=1, nloops=0,
  requires=["canon(old_this_.ones)", "canon(v.ones)"],
  ensures=["canon(this_.ones)", SYM.replace("R", "this_").replace("T", "old_this_"), "r == this_"]),
 dict(name="gf2_dot", find=C + r"operator\*", sig="SpVecGF2", npar=1, **dotc("v.ones", "canon(v.ones)")),
 dict(name="gf2_dot_set", find=C + r"operator\*", sig="std::set", npar=1, **dotc("set_sorted(v)", "forall|x: int| #[trigger] v.contains(x) ==> 0 <= x <= 18446744073709551615", "ax_set_sorted(v);")),
]
def simple(name, find, ens, req=[], **k): return dict(name=name, find=C + find, ensures=ens, requires=req, nloops=0, **k)
FUNCS += [
 simple("gf2_ctor_default", "SpVecGF2", ["this_.ones.len() == 0"], npar=0),
 simple("gf2_ctor_unit", "SpVecGF2", ["this_.ones == seq![i]", "canon(this_.ones)"], npar=1, sig=r"\(const unsigned long &\)"),
 simple("gf2_ctor_copy", "SpVecGF2", ["this_ == v"], npar=1, sig=r"\(const SpVecGF2<unsigned long> &\)"),
 simple("gf2_ctor_move", "SpVecGF2", ["this_ == v"], npar=1, sig=r"\(const SpVecGF2<unsigned long> &&\)"),
 simple("gf2_ctor_set", "SpVecGF2", ["canon(this_.ones)", "forall|x: int| #[trigger] this_.ones.contains(x) <==> v.contains(x)"], ["forall|x: int| #[trigger] v.contains(x) ==> 0 <= x <= 18446744073709551615"], npar=1, sig=r"\(const std::set",
   begin="ax_set_sorted(v); assert forall|i: int| 0 <= i < set_sorted(v).len() implies 0 <= #[trigger] set_sorted(v)[i] <= 18446744073709551615 by { assert(v.contains(set_sorted(v)[i])); } assert(Seq::<int>::empty() + set_sorted(v).subrange(0, set_sorted(v).len() as int) =~= set_sorted(v));"),
 simple("gf2_assign", "operator=", ["this_ == v", "r == v"], npar=1, sig=r"\(const SpVecGF2<unsigned long> &\)"),
 simple("gf2_assign_move", "operator=", ["this_ == v", "r == v"], npar=1, sig=r"\(const SpVecGF2<unsigned long> &&\)"),
 simple("gf2_add", "add", ["this_.ones == old_this_.ones.push(pos)", "canon(this_.ones)"], ["canon(old_this_.ones)", "old_this_.ones.len() > 0 ==> old_this_.ones.last() < pos"], npar=1),
 simple("gf2_size", "size", ["r == this_.ones.len()"], npar=0),
 simple("gf2_clear", "clear", ["this_.ones.len() == 0"], npar=0),
]
