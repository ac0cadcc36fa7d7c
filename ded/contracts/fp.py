INST = "inst_alg.cpp"
MAX = 9223372036854775807
from cxx2v import TBOOL
GL = {"is_bounded": ("true", TBOOL)}
LEMMAS = r'''
pub open spec fn mu(a: int, b: int) -> int { a * b }
pub open spec fn div(d: int, x: int) -> bool { exists|k: int| x == #[trigger] mu(d, k) }
pub open spec fn ab(x: int) -> int { if x < 0 { -x } else { x } }
pub open spec fn sg(neg: bool) -> int { if neg { -1int } else { 1int } }
pub open spec fn prime(p: int) -> bool { p >= 2 && forall|d: int| 2 <= d < p ==> !#[trigger] div(d, p) }
proof fn l_div(d: int, x: int, k: int) requires x == d * k ensures div(d, x) { assert(x == mu(d, k)); }
proof fn wit(d: int, x: int) -> (k: int) requires div(d, x) ensures x == d * k { let k = choose|k: int| x == #[trigger] mu(d, k); k }
proof fn l_divmod(a: int, b: int) by (nonlinear_arith) requires b > 0, a >= 0 ensures tdiv(a, b) * b + tmod(a, b) == a, 0 <= tmod(a, b) < b, tdiv(a, b) >= 0, tdiv(a, b) == a / b, tmod(a, b) == a % b { }
proof fn l_div_comb(d: int, a: int, b: int, q: int, r: int) requires div(d, b), div(d, r), a == q * b + r ensures div(d, a)
{ let k = wit(d, b); let l = wit(d, r); assert(a == d * (q * k + l)) by (nonlinear_arith) requires a == q * b + r, b == d * k, r == d * l; l_div(d, a, q * k + l); }
proof fn l_div_neg(d: int, a: int) requires div(d, ab(a)) ensures div(d, a)
{ let k = wit(d, ab(a)); if a < 0 { assert(a == d * (-k)) by (nonlinear_arith) requires -a == d * k; l_div(d, a, -k); } else { l_div(d, a, k); } }
proof fn l_div_one(g: int, a: int, p: int, x: int, y: int) requires div(g, a), div(g, p), a * x + p * y == 1, g >= 0 ensures g == 1
{ let k = wit(g, a); let l = wit(g, p); assert(g * (k * x + l * y) == 1) by (nonlinear_arith) requires a == g * k, p == g * l, a * x + p * y == 1; let z = k * x + l * y; assert(g == 1) by (nonlinear_arith) requires g * z == 1, g >= 0; }
proof fn l_step_bez(a0: int, a1: int, x0: int, y0: int, x1: int, y1: int, A: int, B: int, q: int)
  by (nonlinear_arith) requires x0 * A + y0 * B == a0, x1 * A + y1 * B == a1 ensures (x0 - q * x1) * A + (y0 - q * y1) * B == a0 - q * a1 { }
// the coefficients alternate in sign and stay below the arguments
proof fn l_step_bound(ai: int, aj: int, xi: int, xj: int, q: int, r: int, M: int)
  requires ab(xi) * aj + ab(xj) * ai == M, xi * xj <= 0, aj >= 1, ai == q * aj + r, r >= 1, q >= 1, M >= 1
  ensures ab(xi - q * xj) == ab(xi) + q * ab(xj), ab(xj) * r + ab(xi - q * xj) * aj == M, ab(xi - q * xj) <= M, ab(q * xj) <= M, ab(xj) <= M, xj * (xi - q * xj) <= 0
{
  assert(ab(q * xj) == q * ab(xj)) by (nonlinear_arith) requires q >= 1;
  if xi > 0 && xj > 0 { assert(xi * xj > 0) by (nonlinear_arith) requires xi > 0, xj > 0; }
  if xi < 0 && xj < 0 { assert(xi * xj > 0) by (nonlinear_arith) requires xi < 0, xj < 0; }
  if xj <= 0 { assert(q * xj <= 0) by (nonlinear_arith) requires q >= 1, xj <= 0; }
  if xj >= 0 { assert(q * xj >= 0) by (nonlinear_arith) requires q >= 1, xj >= 0; }
  assert(ab(xi - q * xj) == ab(xi) + q * ab(xj));
  let n = xi - q * xj; let axi = ab(xi); let axj = ab(xj); let an = ab(n); let qj = q * axj;
  assert(axj * r + an * aj == M) by (nonlinear_arith) requires an == axi + q * axj, axi * aj + axj * ai == M, ai == q * aj + r;
  assert(axj * r >= axj) by (nonlinear_arith) requires r >= 1, axj >= 0;
  assert(an * aj >= an) by (nonlinear_arith) requires aj >= 1, an >= 0;
  assert(qj >= 0) by (nonlinear_arith) requires qj == q * axj, q >= 1, axj >= 0;
  assert(xj * n <= 0) by (nonlinear_arith) requires (xj <= 0 && n >= 0) || (xj >= 0 && n <= 0);
}
proof fn l_sign(x: int, y: int, A: int, B: int, g: int, a: int, b: int, an: bool, bn: bool)
  requires x * A + y * B == g, A == ab(a), B == ab(b), an == (a < 0), bn == (b < 0)
  ensures a * (if an { x * (-1) } else { x * 1 }) + b * (if bn { y * (-1) } else { y * 1 }) == g
{ let x1 = if an { x * (-1) } else { x * 1 }; let y1 = if bn { y * (-1) } else { y * 1 };
  if an { assert(a * x1 == x * A) by (nonlinear_arith) requires A == -a, x1 == -x; } else { assert(a * x1 == x * A) by (nonlinear_arith) requires A == a, x1 == x; }
  if bn { assert(b * y1 == y * B) by (nonlinear_arith) requires B == -b, y1 == -y; } else { assert(b * y1 == y * B) by (nonlinear_arith) requires B == b, y1 == y; } }
// TRUSTED: libm's sqrt on a converted 64-bit integer (correct rounding): exact floor below 2^52, and never off by more than the rounding of one ulp above
#[verifier::external_body]
proof fn ax_sqrt(p: int) requires 1 <= p <= 9223372036854775807 ensures ({ let s = rtrunc(csqrt(p as real)); s >= 1 && p < (s + 1) * (s + 2) && (s - 1) * (s - 1) <= p && s <= 4000000000 && (p < 4503599627370496 ==> s * s <= p) }) {}
proof fn l_sqrt_lt(p: int, s: int) requires p >= 3, s >= 1, (s - 1) * (s - 1) <= p, p < 4503599627370496 ==> s * s <= p ensures s + 1 < p
{ if p < 4503599627370496 { if s + 1 >= p { if s >= 3 { assert(s * s >= 3 * s) by (nonlinear_arith) requires s >= 3; } else { assert(s == 2); assert(s * s == 4); } } }
  else { if s + 1 >= p { assert((s - 1) * (s - 1) >= 3 * (s - 1)) by (nonlinear_arith) requires s - 1 >= 3; } } }
proof fn l_sqrt_nothrow(p: int, t: int) requires p >= 1, t >= 2, p < t * (t + 1) ensures p / t <= t
{ let q = p / t; let r = p % t; assert(p == t * q + r && 0 <= r < t) by (nonlinear_arith) requires q == p / t, r == p % t, t >= 2, p >= 1;
  if q > t { assert(t * q >= t * (t + 1)) by (nonlinear_arith) requires q >= t + 1, t >= 2; } }
proof fn l_mult0(t: int, z: int, r: int) requires t * z == r, 0 <= r < t ensures r == 0
{ if z >= 1 { assert(t * z >= t) by (nonlinear_arith) requires z >= 1, t >= 1; } if z <= -1 { assert(t * z <= -t) by (nonlinear_arith) requires z <= -1, t >= 1; } assert(z == 0); assert(t * z == 0) by (nonlinear_arith) requires z == 0; }
proof fn l_mod_div(p: int, t: int) requires t >= 1, p >= 1 ensures tmod(p, t) == 0 <==> div(t, p)
{ l_divmod(p, t); let q = p / t; let r = tmod(p, t);
  if r == 0 { assert(p == t * q) by (nonlinear_arith) requires q * t + 0 == p; l_div(t, p, q); }
  if div(t, p) { let k = wit(t, p); assert(t * (k - q) == r) by (nonlinear_arith) requires p == t * k, q * t + r == p; l_mult0(t, k - q, r); } }
proof fn l_prime(p: int, t: int) requires p >= 2, t >= 2, p < t * (t + 1), forall|d: int| 2 <= d <= t ==> !#[trigger] div(d, p) ensures prime(p)
{ assert forall|d: int| 2 <= d < p implies !#[trigger] div(d, p) by { if div(d, p) { let k = wit(d, p);
   assert(k >= 2) by { if k <= 0 { assert(d * k <= 0) by (nonlinear_arith) requires k <= 0, d >= 2; } if k == 1 { assert(d * k == d); } }
   if d > t { if k > t { assert(d * k >= (t + 1) * k) by (nonlinear_arith) requires d >= t + 1, k >= 0; assert((t + 1) * k >= (t + 1) * t) by (nonlinear_arith) requires k >= t, t >= 2; assert((t + 1) * t == t * (t + 1)) by (nonlinear_arith); assert(false); }
     assert(p == k * d) by (nonlinear_arith) requires p == d * k; l_div(k, p, d); assert(div(k, p)); } } } }
'''
A = "ab(old_a)"; B = "ab(old_b)"
inv = ["i == 0 || i == 1", "_a.len() == 2 && _x.len() == 2 && _y.len() == 2", "_a[1 - i] >= 1", "_a[i] >= _a[1 - i]",
  "_x[0] * P + _y[0] * Q == _a[0]", "_x[1] * P + _y[1] * Q == _a[1]", "P >= 1 && Q >= 1 && P <= %d && Q <= %d" % (MAX, MAX), "_a[i] <= %d" % MAX,
  "ab(_x[i]) * _a[1 - i] + ab(_x[1 - i]) * _a[i] == Q", "ab(_y[i]) * _a[1 - i] + ab(_y[1 - i]) * _a[i] == P", "_x[i] * _x[1 - i] <= 0", "_y[i] * _y[1 - i] <= 0",
  "ab(_x[0]) <= %d && ab(_x[1]) <= %d && ab(_y[0]) <= %d && ab(_y[1]) <= %d" % ((MAX,) * 4),
  "forall|d: int| #[trigger] div(d, _a[0]) && #[trigger] div(d, _a[1]) ==> div(d, P) && div(d, Q)", "a == old_a && b == old_b"]
H = "({ let mut_ = 0int; mut_ == 0 })"
FUNCS = [
 dict(name="ext_gcd", find=r"fp<long>::ext_gcd", npar=4, nloops=1, globals=GL, rlimit=100,
  requires=["old_a > -%d - 1" % MAX, "old_b > -%d - 1" % MAX, "old_a != 0 || old_b != 0"],
  ensures=["r >= 0", "div(r, old_a) && div(r, old_b)", "old_a * x + old_b * y == r", "a == old_a && b == old_b", "ab(x) <= %d && ab(y) <= %d" % (MAX, MAX)],
  ghost="let ghost P: int = if ab(old_b) > ab(old_a) { ab(old_b) } else { ab(old_a) }; let ghost Q: int = if ab(old_b) > ab(old_a) { ab(old_a) } else { ab(old_b) };",
  loops={0: dict(inv=inv, brk=[z for z in inv] + ["tmod(_a[i], _a[1 - i]) == 0"],
    before="assert(_x[0] * P + _y[0] * Q == _a[0]) by (nonlinear_arith) requires _x[0] == 1, _y[0] == 0, _a[0] == P; assert(_x[1] * P + _y[1] * Q == _a[1]) by (nonlinear_arith) requires _x[1] == 0, _y[1] == 1, _a[1] == Q; assert(ab(_x[0]) * _a[1] + ab(_x[1]) * _a[0] == Q) by (nonlinear_arith) requires _x[0] == 1, _x[1] == 0, _a[1] == Q; assert(ab(_y[0]) * _a[1] + ab(_y[1]) * _a[0] == P) by (nonlinear_arith) requires _y[0] == 0, _y[1] == 1, _a[0] == P; assert(_x[0] * _x[1] <= 0) by (nonlinear_arith) requires _x[1] == 0; assert(_y[0] * _y[1] <= 0) by (nonlinear_arith) requires _y[0] == 0;",
    begin="""l_divmod(_a[i], _a[1 - i]); let q1 = tdiv(_a[i], _a[1 - i]); let r1 = tmod(_a[i], _a[1 - i]); let a_ = _a; let x_ = _x; let y_ = _y; let i_ = i;
      if r1 != 0 { assert(q1 >= 1) by (nonlinear_arith) requires q1 * a_[1 - i_] + r1 == a_[i_], a_[i_] >= a_[1 - i_], r1 < a_[1 - i_], a_[1 - i_] >= 1, q1 >= 0;
        l_step_bound(_a[i], _a[1 - i], _x[i], _x[1 - i], q1, r1, Q); l_step_bound(_a[i], _a[1 - i], _y[i], _y[1 - i], q1, r1, P);
        l_step_bez(_a[i], _a[1 - i], _x[i], _y[i], _x[1 - i], _y[1 - i], P, Q, q1);
        assert forall|d: int| #[trigger] div(d, r1) && #[trigger] div(d, a_[1 - i_]) implies div(d, P) && div(d, Q) by { l_div_comb(d, a_[i_], a_[1 - i_], q1, r1); } }""",
    after="""l_divmod(_a[i], _a[1 - i]); let g = _a[1 - i]; let q2 = tdiv(_a[i], g); l_div(g, g, 1); let ai2 = _a[i]; assert(ai2 == g * q2) by (nonlinear_arith) requires q2 * g + 0 == ai2; l_div(g, _a[i], q2);
      assert(div(g, P) && div(g, Q)); l_div_neg(g, old_a); l_div_neg(g, old_b); if ab(old_b) > ab(old_a) { l_sign(_y[1 - i], _x[1 - i], Q, P, g, old_a, old_b, old_a < 0, old_b < 0); } else { l_sign(_x[1 - i], _y[1 - i], P, Q, g, old_a, old_b, old_a < 0, old_b < 0); }""")},
  at_return="""if old_a == 0 { l_div(ab(old_b), 0, 0); l_div(ab(old_b), ab(old_b), 1); l_div_neg(ab(old_b), old_b); assert(old_b * y == ab(old_b)) by (nonlinear_arith) requires y == (if old_b < 0 { -1int } else { 1int }); }
   else if old_b == 0 { l_div(ab(old_a), 0, 0); l_div(ab(old_a), ab(old_a), 1); l_div_neg(ab(old_a), old_a); assert(old_a * x == ab(old_a)) by (nonlinear_arith) requires x == (if old_a < 0 { -1int } else { 1int }); }"""),
 dict(name="get_mult_inverse", find=r"fp<long>::get_mult_inverse", npar=2, nloops=0, throws=True,
  requires=["old_a > -%d - 1" % MAX, "old_p >= 1"],
  ensures=["!exc ==> div(old_p, old_a * r - 1)", "exc <==> !(exists|x: int, y: int| #[trigger] mu(old_a, x) + #[trigger] mu(old_p, y) == 1)", "a == old_a && p == old_p"],
  at_return="if c_ext_gcd_1@.0 == 1 { let x_ = c_ext_gcd_1@.3; let y_ = c_ext_gcd_1@.4; assert(mu(old_a, x_) + mu(old_p, y_) == 1); assert(old_a * x_ - 1 == old_p * (-y_)) by (nonlinear_arith) requires old_a * x_ + old_p * y_ == 1; l_div(old_p, old_a * x_ - 1, -y_); } else { assert forall|x: int, y: int| #[trigger] mu(old_a, x) + #[trigger] mu(old_p, y) != 1 by { if mu(old_a, x) + mu(old_p, y) == 1 { l_div_one(c_ext_gcd_1@.0, old_a, old_p, x, y); } } }"),
 dict(name="is_prime", find=r"primes<long>::is_prime", npar=1, nloops=1, requires=["p >= 2"], ensures=["r == prime(p)"],
  begin="ax_sqrt(p); l_divmod(p, 2); l_mod_div(p, 2); let s = rtrunc(csqrt(p as real)); if p >= 3 { l_sqrt_lt(p, s); } l_divmod(p, s + 1); l_sqrt_nothrow(p, s + 1);",
  loops={0: dict(inv=["2 <= t <= sqrtt + 1", "forall|d: int| 2 <= d < t ==> !#[trigger] div(d, p)"], begin="l_mod_div(p, t);", after="l_prime(p, sqrtt);")}),
]
