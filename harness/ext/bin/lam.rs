// the lambda language: what an expression means for every value and time
use crate::u::*;
use timescaledb_toolkit::time_vector::verif::lambda::{self as l, Lambda};
fn lambda(s: &str) -> Lambda<'static> {
    let c = std::ffi::CString::new(s).unwrap();
    stored(<Lambda as pgrx::inoutfuncs::InOutFuncs>::input(&c))
}
/// numbers: precedence, association, variables, functions
pub fn num() {
    let (v, t) = (sx::finite(), sx::int(12));
    let c: [(&str, fn(f64) -> f64); 17] = [
        ("$value", |v| v),
        ("1 + $value * 2", |v| 1.0 + v * 2.0),
        ("(1 + $value) * 2", |v| (1.0 + v) * 2.0),
        ("10 - $value - 1", |v| 10.0 - v - 1.0),
        ("12 / 2 / 3 * $value", |v| 2.0 * v),
        ("$value - 2 * 3 + 1", |v| v - 5.0),
        ("-$value - -1.5", |v| 1.5 - v),
        ("- ($value + 1) * 2", |v| -(v + 1.0) * 2.0),
        ("2.5e1 * $VALUE", |v| 25.0 * v),
        ("let $x = $value * 2; $x + 1", |v| v * 2.0 + 1.0),
        ("let $x = $value + 1; let $y = $x * 2; $y - $x", |v| v + 1.0),
        ("let $x = $value; let $y = 3; $x - $y", |v| v - 3.0),
        ("(let $q = $value * 3; $q + $q) - $value", |v| 5.0 * v),
        ("abs($value)", |v| v.abs()),
        ("abs($value - 1) + abs(1 - $value)", |v| 2.0 * (v - 1.0).abs()),
        ("$value / (1 + $value * $value)", |v| v / (1.0 + v * v)),
        ("1 - (2 - (3 - $value))", |v| 2.0 - v),
    ];
    let i = sx::choice(c.len() as u64) as usize;
    let r = l::f64_lambda(lambda(c[i].0), ts(t), v);
    sx::check(sx::close(r, c[i].1(v)), 1 + i as u32);
}
/// truth: comparisons, precedence of not, and, or
pub fn truth() {
    let (v, t) = (sx::ordered(), sx::int(12));
    let c: [(&str, fn(f64, i64) -> bool); 18] = [
        ("$value > 2", |v, _| v > 2.0),
        ("$value >= 2", |v, _| v >= 2.0),
        ("$value < -2", |v, _| v < -2.0),
        ("$value <= 2.5", |v, _| v <= 2.5),
        ("$value = 2", |v, _| v == 2.0),
        ("$value != 2", |v, _| v != 2.0),
        ("$value <> 2", |v, _| v != 2.0),
        ("$time < '7't", |_, t| t < 7),
        ("$time >= '7't", |_, t| t >= 7),
        ("'7't = $time", |_, t| t == 7),
        ("$time != '7't", |_, t| t != 7),
        ("$value > 1 or $value < -1 and $time > '3't", |v, t| (v > 1.0) | ((v < -1.0) & (t > 3))),
        ("($value > 1 or $value < -1) and $time > '3't", |v, t| ((v > 1.0) | (v < -1.0)) & (t > 3)),
        ("not $value > 1", |_, _| true),
        ("not ($value > 1) and $time > '3't", |v, t| !(v > 1.0) & (t > 3)),
        ("NOT ($value > 1 AND $time > '3't)", |v, t| !((v > 1.0) & (t > 3))),
        ("let $a = $value > 1; let $b = $time > '3't; $a and not $b", |v, t| (v > 1.0) & !(t > 3)),
        ("'10'i > '2'i and '10'i = '4'i + '6'i and '10'i != '2'i * 3 and $value >= 0", |v, _| v >= 0.0),
    ];
    let i = sx::choice(c.len() as u64) as usize;
    if i == 13 {
        // `not` binds to the number, which is refused
        sx::panic_ok(1);
        l::bool_lambda(lambda(c[i].0), ts(t), v);
        sx::check(false, 50);
    }
    sx::check(l::bool_lambda(lambda(c[i].0), ts(t), v) == c[i].1(v, t), 1 + i as u32);
}
/// times, intervals and points
pub fn times() {
    let (v, t) = (sx::whole(6), sx::int(12));
    match sx::choice(6) {
        0 => sx::check(unts(l::ttz_lambda(lambda("$time + '5'i"), ts(t), v)) == t + 5, 1),
        1 => sx::check(unts(l::ttz_lambda(lambda("$time - '5'i + '2'i"), ts(t), v)) == t - 3, 2),
        2 => sx::check(unts(l::ttz_lambda(lambda("$time - ('5'i + '2'i)"), ts(t), v)) == t - 7, 3),
        3 => sx::check(unts(l::ttz_lambda(lambda("let $d = 3 * '5'i - '12'i / 2; $time + $d"), ts(t), v)) == t + 9, 4),
        4 => { let i = l::interval_lambda(lambda("'9'i - '5'i"), ts(t), v); sx::check(uninterval(&i) == 4, 5) }
        _ => { let r: Vec<(i64, f64)> = l::point_lambda(lambda("let $a = $value + 1; ($time + '4'i), ($a * 2)"), ts(t), v).map(|(u, v)| (unts(u), v)).collect(); sx::check(r.len() == 1 && (r[0].0 == t + 4) & (r[0].1 == (v + 1.0) * 2.0), 6) }
    }
}
/// what does not type-check is refused
pub fn refused() {
    let bad = ["$value + $time", "$value and $value", "not 1", "$x", "let $x = 1; $y", "let $x = 1; let $x = 2; $x", "abs()", "abs(1, 2)", "nosuch(1)", "1 = '1't", "'1't + '1't", "1 - '1'i", "-'1'i", "1 +", "(1", "$value > 1 > 2"];
    let i = sx::choice(bad.len() as u64) as usize;
    sx::panic_ok(1);
    lambda(bad[i]);
    sx::check(false, 1 + i as u32);
}
/// every combination of two operators, with and without brackets
pub fn prec() {
    let v = sx::finite();
    let op = ["+", "-", "*", "/"];
    let (a, b) = (sx::choice(4) as usize, sx::choice(4) as usize);
    let f = |o: usize, x: f64, y: f64| match o { 0 => x + y, 1 => x - y, 2 => x * y, _ => x / y };
    let (s, r) = match sx::choice(3) {
        0 => (format!("$value {} 3 {} 8", op[a], op[b]), if a < 2 && b > 1 { f(a, v, f(b, 3.0, 8.0)) } else { f(b, f(a, v, 3.0), 8.0) }),
        1 => (format!("($value {} 3){}8", op[a], op[b]), f(b, f(a, v, 3.0), 8.0)),
        _ => (format!("8 {} ($value*$value + 3 {} 8)", op[a], op[b]), f(a, 8.0, if b > 1 { v * v + f(b, 3.0, 8.0) } else { f(b, v * v + 3.0, 8.0) })),
    };
    if a == 3 { let d = v * v + 3.0; sx::assume(b != 1 || d != 8.0); }
    sx::check(sx::close(l::f64_lambda(lambda(&s), ts(0), v), r), 1);
}
