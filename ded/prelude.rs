// ---- prelude: machine arithmetic, non-determinism, containers (all trusted text is marked) ----
#[verifier::external_body]
fn tst(Ghost(b): Ghost<bool>) -> (r: bool) ensures r == b { unimplemented!() }   // TRUSTED: branch on a ghost condition
#[verifier::external_body]
fn havoc<A>() -> (r: Ghost<A>) { unimplemented!() }                               // TRUSTED: arbitrary value
pub open spec fn uw64(x: int) -> int { if 0 <= x <= 18446744073709551615 { x } else { x % 18446744073709551616 } }
pub open spec fn uw32(x: int) -> int { if 0 <= x <= 4294967295 { x } else { x % 4294967296 } }
pub open spec fn sw64(x: int) -> int { if -9223372036854775808 <= x <= 9223372036854775807 { x } else { (x + 9223372036854775808) % 18446744073709551616 - 9223372036854775808 } }
pub open spec fn sw32(x: int) -> int { if -2147483648 <= x <= 2147483647 { x } else { (x + 2147483648) % 4294967296 - 2147483648 } }
// C++ division truncates towards zero
pub open spec fn tdiv(a: int, b: int) -> int { if a >= 0 && b > 0 { a / b } else if a >= 0 { -(a / (-b)) } else if b > 0 { -((-a) / b) } else { (-a) / (-b) } }
pub open spec fn tmod(a: int, b: int) -> int { a - tdiv(a, b) * b }
pub open spec fn udiv(a: int, b: int) -> int { a / b }
pub open spec fn umod(a: int, b: int) -> int { a % b }
pub uninterp spec fn csqrt(x: real) -> real;
pub uninterp spec fn rtrunc(x: real) -> int;
pub uninterp spec fn rceil(x: real) -> real;
pub open spec fn sorted(s: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] < s[j] }
pub uninterp spec fn set_sorted(s: Set<int>) -> Seq<int>;
// TRUSTED: iterating a std::set visits its elements in strictly increasing order
#[verifier::external_body]
proof fn ax_set_sorted(s: Set<int>) ensures sorted(set_sorted(s)), forall|x: int| #[trigger] s.contains(x) <==> set_sorted(s).contains(x), set_sorted(s).len() == s.len() {}
// the largest finite value of the floating type, used as "unreachable"
pub uninterp spec fn dmax() -> real;
pub open spec fn sumr(s: Seq<real>, k: int) -> real decreases k { if k <= 0 { 0real } else { sumr(s, k - 1) + s[k - 1] } }
