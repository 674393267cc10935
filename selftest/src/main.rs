//! Runs the cases on random arguments: one line per run (name, arguments, result).
use selftest::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17;
        self.0
    }
    fn below(&mut self, n: u64) -> u64 { (self.next() >> 11) % n }
}
trait Arg {
    fn gen(r: &mut Rng) -> Self;
    fn show(&self) -> String;
}
impl Arg for u8 {
    fn gen(r: &mut Rng) -> u8 { if r.below(4) > 0 { r.below(5) as u8 } else { [255, 254, 128, 127, 9][r.below(5) as usize] } }
    fn show(&self) -> String { self.to_string() }
}
impl Arg for usize {
    fn gen(r: &mut Rng) -> usize { if r.below(12) == 0 { [256, 700][r.below(2) as usize] } else { r.below(6) as usize } }
    fn show(&self) -> String { self.to_string() }
}
impl Arg for bool {
    fn gen(r: &mut Rng) -> bool { r.below(2) == 0 }
    fn show(&self) -> String { self.to_string() }
}
impl<T: Arg> Arg for Option<T> {
    fn gen(r: &mut Rng) -> Self { if r.below(3) == 0 { None } else { Some(T::gen(r)) } }
    fn show(&self) -> String { match self { None => "null".into(), Some(x) => format!("[{}]", x.show()) } }
}
impl<T: Arg, E: Arg> Arg for Result<T, E> {
    fn gen(r: &mut Rng) -> Self { if r.below(3) == 0 { Err(E::gen(r)) } else { Ok(T::gen(r)) } }
    fn show(&self) -> String { match self { Err(x) => format!("{{\"err\":{}}}", x.show()), Ok(x) => format!("{{\"ok\":{}}}", x.show()) } }
}
impl<A: Arg, B: Arg> Arg for (A, B) {
    fn gen(r: &mut Rng) -> Self { (A::gen(r), B::gen(r)) }
    fn show(&self) -> String { format!("[{},{}]", self.0.show(), self.1.show()) }
}
fn list<I: Iterator<Item = String>>(i: I) -> String { format!("[{}]", i.collect::<Vec<_>>().join(",")) }
impl<T: Arg> Arg for Vec<T> {
    fn gen(r: &mut Rng) -> Self { let n = r.below(6); (0..n).map(|_| T::gen(r)).collect() }
    fn show(&self) -> String { list(self.iter().map(Arg::show)) }
}
impl<const N: usize> Arg for [u8; N] {
    fn gen(r: &mut Rng) -> Self { std::array::from_fn(|_| u8::gen(r)) }
    fn show(&self) -> String { list(self.iter().map(Arg::show)) }
}
impl<T: Arg + Ord> Arg for BTreeSet<T> {
    fn gen(r: &mut Rng) -> Self { let n = r.below(6); (0..n).map(|_| T::gen(r)).collect() }
    fn show(&self) -> String { list(self.iter().map(Arg::show)) }
}
impl<K: Arg + Ord, T: Arg> Arg for BTreeMap<K, T> {
    fn gen(r: &mut Rng) -> Self { let n = r.below(6); (0..n).map(|_| (K::gen(r), T::gen(r))).collect() }
    fn show(&self) -> String { list(self.iter().map(|(k, v)| format!("[{},{}]", k.show(), v.show()))) }
}

macro_rules! cases {
    ($($(#[$m:meta])* fn $n:ident($($a:ident : $t:ty),*) -> $r:ty $b:block)*) => {
        fn run(rng: &mut Rng, n: usize) {
            $(for _ in 0..n {
                $(let $a = <$t as Arg>::gen(rng);)*
                let args: Vec<String> = vec![$($a.show()),*];
                let r = catch_unwind(AssertUnwindSafe(|| selftest::$n($($a),*)));
                println!("{}\t[{}]\t{}", stringify!($n), args.join(","), match r { Ok(x) => x.show(), Err(_) => "panic".into() });
            })*
        }
    }
}
include!("cases.rs");

fn main() {
    let a: Vec<u64> = std::env::args().skip(1).map(|x| x.parse().unwrap()).collect();
    std::panic::set_hook(Box::new(|_| {}));
    let mut rng = Rng(0x9E3779B97F4A7C15 ^ a.first().copied().unwrap_or(1).wrapping_mul(0xD1342543DE82EF95));
    run(&mut rng, a.get(1).copied().unwrap_or(40) as usize);
}
