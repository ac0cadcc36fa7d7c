Z = "l_small(0, this_.p);"
INST = "inst_alg.cpp"
C = r"SpVecFP<long>::"
SM = 3037000499           # p * p fits a 64-bit value
LEMMAS = r'''
use vstd::arithmetic::div_mod::*;
pub open spec fn co(s: Seq<(int, int)>, k: int, x: int) -> int decreases k { if k <= 0 { 0 } else if s[k - 1].0 == x { s[k - 1].1 } else { co(s, k - 1, x) } }
pub open spec fn isort(s: Seq<(int, int)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 < (#[trigger] s[j]).0 }
pub open spec fn vals(s: Seq<(int, int)>, p: int) -> bool { forall|i: int| 0 <= i < s.len() ==> 0 <= (#[trigger] s[i]).0 <= 18446744073709551615 && 1 <= s[i].1 < p }
pub open spec fn canon(s: Seq<(int, int)>, p: int) -> bool { isort(s) && vals(s, p) }
pub open spec fn below(s: Seq<(int, int)>, k: int, x: int) -> bool { forall|j: int| 0 <= j < k ==> (#[trigger] s[j]).0 < x }
pub open spec fn c(s: Seq<(int, int)>, x: int) -> int { co(s, s.len() as int, x) }
proof fn l_pre(s: Seq<(int, int)>, t: Seq<(int, int)>, k: int, x: int) requires k <= s.len(), k <= t.len(), forall|j: int| 0 <= j < k ==> s[j] == t[j] ensures co(s, k, x) == co(t, k, x) decreases k
{ if k > 0 { l_pre(s, t, k - 1, x); } }
proof fn l_out(s: Seq<(int, int)>, k: int, x: int) requires 0 <= k <= s.len(), below(s, k, x) ensures co(s, k, x) == 0 decreases k
{ if k > 0 { l_out(s, k - 1, x); } }
proof fn l_push(s: Seq<(int, int)>, e: (int, int)) ensures forall|x: int| #[trigger] c(s.push(e), x) == if e.0 == x { e.1 } else { c(s, x) }
{ assert forall|x: int| #[trigger] c(s.push(e), x) == if e.0 == x { e.1 } else { c(s, x) } by { l_pre(s, s.push(e), s.len() as int, x); } }
proof fn l_rng(s: Seq<(int, int)>, p: int, k: int, x: int) requires vals(s, p), 0 <= k <= s.len(), p >= 1 ensures 0 <= co(s, k, x) < p decreases k { if k > 0 { l_rng(s, p, k - 1, x); } }
proof fn l_tm(a: int, p: int) requires p > 0 ensures -p < tmod(a, p) < p, tmod(a, p) % p == a % p, a >= 0 ==> tmod(a, p) == a % p
{ if a >= 0 { lemma_fundamental_div_mod(a, p); assert(p * (a / p) == (a / p) * p) by (nonlinear_arith); assert(tmod(a, p) == a % p); lemma_mod_bound(a, p); lemma_small_mod((a % p) as nat, p as nat); }
  else { let m = -a; lemma_fundamental_div_mod(m, p); lemma_mod_bound(m, p); let q = m / p; let r = m % p; assert(tmod(a, p) == a - (-q) * p); assert((-q) * p == -(p * q)) by (nonlinear_arith); assert(tmod(a, p) == -r);
    assert(p * (-q) == -(p * q)) by (nonlinear_arith); assert(a == p * (-q) + (-r)); lemma_mod_multiples_vanish(-q, -r, p); } }
proof fn l_small(v: int, p: int) requires 0 <= v < p ensures v % p == v { lemma_small_mod(v as nat, p as nat); }
proof fn l_addp(v: int, p: int) requires p > 0 ensures (v + p) % p == v % p, (v - p) % p == v % p { lemma_mod_multiples_vanish(1, v, p); lemma_mod_multiples_vanish(-1, v, p); assert(p * 1 == p); assert(p * (-1) == -p) by (nonlinear_arith); }
proof fn l_mulmod(v: int, a: int, p: int) requires p > 0, 1 <= v < p, p <= 3037000499
  ensures ({ let m = v * tmod(a, p); &&& -9223372036854775807 <= m <= 9223372036854775807 &&& tmod(m, p) % p == (v * a) % p &&& -p < tmod(m, p) < p })
{ l_tm(a, p); let b = tmod(a, p); l_tm(v * b, p); lemma_mul_mod_noop_right(v, b, p); lemma_mul_mod_noop_right(v, a, p);
  assert(-(p * p) <= v * b <= p * p) by (nonlinear_arith) requires 1 <= v < p, -p < b < p; assert(p * p <= 9223372036854775807) by (nonlinear_arith) requires 0 < p <= 3037000499; }
proof fn l_fold(res: int, s: int, m: int, p: int) requires p > 0, p <= 3037000499, res == s % p, 0 <= m <= 9223372036854775807
  ensures 0 <= res + tmod(m, p) <= 9223372036854775807, tmod(res + tmod(m, p), p) == (s + m) % p
{ l_tm(m, p); lemma_mod_bound(m, p); lemma_mod_bound(s, p); l_tm(res + tmod(m, p), p); lemma_add_mod_noop(s, m, p); }
// dot product restricted to a prefix of the first operand
pub open spec fn dots(a: Seq<(int, int)>, b: Seq<(int, int)>, k: int) -> int decreases k { if k <= 0 { 0 } else { dots(a, b, k - 1) + a[k - 1].1 * c(b, a[k - 1].0) } }
proof fn l_hit(b: Seq<(int, int)>, j: int, k: int) requires isort(b), 0 <= j < k <= b.len() ensures co(b, k, b[j].0) == b[j].1 decreases k
{ if k - 1 > j { assert(b[j].0 < b[k - 1].0); l_hit(b, j, k - 1); } }
// x lies strictly between b[j-1] and b[j]
proof fn l_miss(b: Seq<(int, int)>, j: int, k: int, x: int) requires isort(b), 0 <= j <= b.len(), j < b.len() ==> x < b[j].0, below(b, j, x), 0 <= k <= b.len() ensures co(b, k, x) == 0 decreases k
{ if k > 0 { l_miss(b, j, k - 1, x); if k - 1 >= j { if k - 1 > j { assert(b[j].0 < b[k - 1].0); } } } }
proof fn l_rest(a: Seq<(int, int)>, b: Seq<(int, int)>, k: int)
  requires isort(a), isort(b), 0 <= k <= a.len(), k < a.len() ==> below(b, b.len() as int, a[k].0)
  ensures dots(a, b, a.len() as int) == dots(a, b, k)
  decreases a.len() - k
{ if k < a.len() { l_out(b, b.len() as int, a[k].0); assert(c(b, a[k].0) == 0); assert(a[k].1 * c(b, a[k].0) == 0) by (nonlinear_arith) requires c(b, a[k].0) == 0; assert(dots(a, b, k + 1) == dots(a, b, k)); if k + 1 < a.len() { assert(a[k].0 < a[k + 1].0); assert(below(b, b.len() as int, a[k + 1].0)); } l_rest(a, b, k + 1); } }
proof fn l_prod(u: int, v: int, p: int) requires 0 < p <= 3037000499, 1 <= u < p, 1 <= v < p ensures 0 <= u * v <= 9223372036854775807
{ assert(0 <= u * v <= p * p) by (nonlinear_arith) requires 1 <= u < p, 1 <= v < p; assert(p * p <= 9223372036854775807) by (nonlinear_arith) requires 0 < p <= 3037000499; }
// one step of the merge: every coordinate but `y` keeps its coefficient
proof fn l_next(s: Seq<(int, int)>, k: int) requires isort(s), 0 <= k < s.len() ensures forall|x: int| #[trigger] co(s, k + 1, x) == if x == s[k].0 { s[k].1 } else { co(s, k, x) }, co(s, k, s[k].0) == 0
{ assert(below(s, k, s[k].0)); l_out(s, k, s[k].0); }
'''
SUM = "forall|x: int| #[trigger] c(res.entries, x) == (co(this_.entries, it, x) + co(v.entries, v_it, x)) % this_.p"
inv = ["0 <= it <= this_.entries.len()", "0 <= v_it <= v.entries.len()", "it_e == this_.entries.len()", "v_it_e == v.entries.len()", "res.p == this_.p", "canon(res.entries, this_.p)", SUM,
  "it < this_.entries.len() ==> below(res.entries, res.entries.len() as int, this_.entries[it].0)", "v_it < v.entries.len() ==> below(res.entries, res.entries.len() as int, v.entries[v_it].0)",
  "it < this_.entries.len() ==> below(v.entries, v_it, this_.entries[it].0)", "v_it < v.entries.len() ==> below(this_.entries, it, v.entries[v_it].0)"]
OUT = "if it < this_.entries.len() { l_next(this_.entries, it); l_out(v.entries, v_it, this_.entries[it].0); l_out(res.entries, res.entries.len() as int, this_.entries[it].0); l_small(this_.entries[it].1, this_.p); } if v_it < v.entries.len() { l_next(v.entries, v_it); l_out(this_.entries, it, v.entries[v_it].0); l_out(res.entries, res.entries.len() as int, v.entries[v_it].0); l_small(v.entries[v_it].1, this_.p); }"
PUSH = "l_push(OLD_.entries, res.entries.last()); assert(OLD_.entries.push(res.entries.last()) =~= res.entries);"
VLOOP = lambda X: {"lo": dict(inv=["-this_.p < v__N < this_.p", "v__N % this_.p == " + X]), "hi": None}
def fix(v, X):   # the two normalisation loops
    return (dict(inv=["-this_.p < %s < this_.p" % v, "%s %% this_.p == %s" % (v, X)], begin="l_addp(%s, this_.p);" % v), dict(inv=["-this_.p < %s < this_.p && %s >= 0" % (v, v), "%s %% this_.p == %s" % (v, X)], after="l_small(%s, this_.p);" % v))
S12 = "(this_.entries[it].1 + v.entries[v_it].1) % this_.p"
a1, a2 = fix("v_2", S12)
m1, m2 = fix("v", "(this_.entries[it].1 * a) % this_.p")
DOT = dict(inv=["0 <= it <= this_.entries.len()", "0 <= v_it <= v.entries.len()", "it_e == this_.entries.len()", "v_it_e == v.entries.len()", "0 <= res < this_.p",
  "res == dots(this_.entries, v.entries, it) % this_.p", "it < this_.entries.len() ==> below(v.entries, v_it, this_.entries[it].0)"],
  begin="""assert(dots(this_.entries, v.entries, it + 1) == dots(this_.entries, v.entries, it) + this_.entries[it].1 * c(v.entries, this_.entries[it].0));
   let u_ = this_.entries[it].1; let w_ = v.entries[v_it].1; l_prod(u_, w_, this_.p);
   if this_.entries[it].0 < v.entries[v_it].0 { l_miss(v.entries, v_it, v.entries.len() as int, this_.entries[it].0); assert(u_ * 0 == 0); }
   if this_.entries[it].0 == v.entries[v_it].0 { l_hit(v.entries, v_it, v.entries.len() as int); l_fold(res, dots(this_.entries, v.entries, it), u_ * w_, this_.p); lemma_mod_bound(dots(this_.entries, v.entries, it) + u_ * w_, this_.p); l_tm(u_ * w_, this_.p); }""",
  before=Z, after="l_rest(this_.entries, v.entries, it);")
PMAX = 4611686018427387904
REL = "forall|x: int| #[trigger] c(R.entries, x) == (c(T.entries, x) + c(v.entries, x)) % T.p"
MUL = "forall|x: int| #[trigger] c(R.entries, x) == (c(T.entries, x) * a) % T.p"
FUNCS = [
 dict(name="fpv_dot", find=C + r"operator\*", sig=r"SpVecFP", npar=1, nloops=1, rlimit=80,
  requires=["2 <= this_.p <= %d" % SM, "v.p == this_.p", "canon(this_.entries, this_.p)", "canon(v.entries, this_.p)"],
  ensures=["r == dots(this_.entries, v.entries, this_.entries.len() as int) % this_.p"], loops={0: DOT}),
 dict(name="fpv_plus", find=C + r"operator\+", npar=1, nloops=5, rlimit=120,
  requires=["2 <= this_.p <= %d" % PMAX, "v.p == this_.p", "canon(this_.entries, this_.p)", "canon(v.entries, this_.p)"],
  ensures=["canon(r.entries, this_.p)", "r.p == this_.p", REL.replace("R", "r").replace("T", "this_")], on={"res": PUSH}, dead=[2],
  loops={0: dict(inv=inv, before=Z, begin=OUT + " l_tm(this_.entries[it].1 + v.entries[v_it].1, this_.p);"), 1: a1, 2: a2, 3: dict(inv=inv + ["it < this_.entries.len() ==> v_it == v.entries.len()"], begin=OUT), 4: dict(inv=inv + ["it == this_.entries.len()"], begin=OUT)}),
 dict(name="fpv_plus_assign", find=C + r"operator\+=", npar=1, nloops=0,
  requires=["2 <= old_this_.p <= %d" % PMAX, "v.p == old_this_.p", "canon(old_this_.entries, old_this_.p)", "canon(v.entries, old_this_.p)"],
  ensures=["canon(this_.entries, this_.p)", "this_.p == old_this_.p", REL.replace("R", "this_").replace("T", "old_this_"), "r == this_"]),
 dict(name="fpv_scale", find=C + r"operator\*", sig=r"\(const long &\)", npar=1, nloops=3, rlimit=80,
  requires=["2 <= this_.p <= %d" % SM, "canon(this_.entries, this_.p)"],
  ensures=["canon(r.entries, this_.p)", "r.p == this_.p", MUL.replace("R", "r").replace("T", "this_")], on={"res": PUSH}, dead=[2],
  loops={0: dict(inv=["0 <= it <= this_.entries.len()", "it_e == this_.entries.len()", "res.p == this_.p", "canon(res.entries, this_.p)", "forall|x: int| #[trigger] c(res.entries, x) == (co(this_.entries, it, x) * a) % this_.p", "it < this_.entries.len() ==> below(res.entries, res.entries.len() as int, this_.entries[it].0)"],
     before=Z + " assert(0 * a == 0);", begin="l_next(this_.entries, it); l_mulmod(this_.entries[it].1, a, this_.p); l_tm(a, this_.p); l_out(res.entries, res.entries.len() as int, this_.entries[it].0);"), 1: m1, 2: m2}),
 dict(name="fpv_scale_assign", find=C + r"operator\*=", npar=1, nloops=0,
  requires=["2 <= old_this_.p <= %d" % SM, "canon(old_this_.entries, old_this_.p)"],
  ensures=["canon(this_.entries, this_.p)", "this_.p == old_this_.p", MUL.replace("R", "this_").replace("T", "old_this_"), "r == this_"]),
]
def simple(name, find, ens, req=[], **k): return dict(name=name, find=C + find, ensures=ens, requires=req, nloops=0, **k)
FUNCS += [
 simple("fpv_ctor_default", "SpVecFP", ["this_.entries.len() == 0", "this_.p == 3"], npar=0),
 simple("fpv_ctor_p", "SpVecFP", ["this_.entries.len() == 0", "this_.p == p"], npar=1, sig=r"\(const long &\)"),
 simple("fpv_ctor_copy", "SpVecFP", ["this_ == v"], npar=1, sig=r"\(const SpVecFP<long> &\)"),
 simple("fpv_ctor_move", "SpVecFP", ["this_ == v"], npar=1, sig=r"\(const SpVecFP<long> &&\)"),
 simple("fpv_assign_index", "operator=", ["this_.p == old_this_.p", "this_.entries == seq![(index, 1int)]", "old_this_.p >= 2 ==> canon(this_.entries, this_.p)", "r == this_"], npar=1, sig=r"\(const std::size_t &\)|\(const unsigned long &\)", at_return="assert(this_.entries =~= seq![(index, 1int)]);"),
 simple("fpv_assign", "operator=", ["this_ == v", "r == v"], npar=1, sig=r"\(const SpVecFP<long> &\)"),
 simple("fpv_assign_move", "operator=", ["this_ == v", "r == v"], npar=1, sig=r"\(const SpVecFP<long> &&\)"),
 simple("fpv_size", "size", ["r == this_.entries.len()"], npar=0),
 simple("fpv_prime", "prime", ["r == this_.p"], npar=0),
 simple("fpv_clear", "clear", ["this_.entries.len() == 0", "this_.p == old_this_.p"], npar=0),
]
