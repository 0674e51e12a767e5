//! Laws of timestamps (C20) and of data types (C24), watched on random values with a bias to the edges.

use crate::report::{self, Args};
use crate::rng::{mix2, Rng};
use dam::channel::ChannelElement;
use dam::structures::Time;
use dam::types::unevaluated::Unevaluated;
use dam::types::{DAMType, IndexLike, StaticallySized};
use serde_json::json;
use std::cmp::Ordering;
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// what the code under test did: a value, or a panic
fn tried<R>(f: impl FnOnce() -> R) -> Option<R> {
    let r = catch_unwind(AssertUnwindSafe(f));
    if r.is_err() {
        crate::exec::take_panics();
    }
    r.ok()
}

struct Bad(Vec<String>, u64);

impl Bad {
    fn law(&mut self, ok: bool, what: impl FnOnce() -> String) {
        self.1 += 1;
        if !ok && self.0.len() < 8 {
            self.0.push(what());
        }
    }
    /// a law whose evaluation may itself panic
    fn eq<R: PartialEq + Debug>(&mut self, want: R, f: impl FnOnce() -> R, what: impl FnOnce() -> String) {
        self.1 += 1;
        match tried(f) {
            Some(x) if x == want => {}
            x if self.0.len() < 8 => self.0.push(format!("{}: got {x:?}, expected {want:?}", what())),
            _ => {}
        }
    }
}

fn finish(args: &Args, idx: u64, hash: u64, b: Bad, text: String) -> bool {
    report::with(|rep| {
        rep.evaluations += 1;
        rep.count("laws_checked", b.1);
        if rep.hashes.len() < 400_000 {
            rep.hashes.insert(hash);
        }
        rep.sample(json!({ "values": text.chars().take(600).collect::<String>() }));
        if !b.0.is_empty() {
            rep.violation(idx, b.0[0].clone(), json!({"complaints": b.0, "values": text}));
        }
    });
    if args.verbose {
        for x in &b.0 {
            eprintln!("{x}");
        }
    }
    b.0.is_empty()
}

/// integers near the edges of 64 bits and of the sizes within it, and near each other
fn edgy(r: &mut Rng) -> u64 {
    let near = |r: &mut Rng, c: u64| c.wrapping_add(r.below(5)).wrapping_sub(2);
    match r.below(8) {
        0 => r.below(4),
        1 => r.below(1000),
        2 => {
            let k = r.below(64);
            near(r, 1 << k)
        }
        3 => u64::MAX - r.below(4),
        4 => near(r, i64::MAX as u64),
        5 => near(r, u32::MAX as u64),
        _ => r.u64() >> r.below(64),
    }
}

/// a timestamp as the reference sees it: ticks, and whether it is infinite
type Ref = (u64, bool);

fn make(r: &mut Rng, t: Ref, b: &mut Bad) -> Time {
    let way = r.below(5);
    let x = match way {
        0 if !t.1 => Time::new(t.0),
        1 if !t.1 => Time::from(t.0),
        2 => Time::from((t.1, t.0)),
        3 if t == (0, true) => Time::infinite(),
        4 if t == (0, false) => Time::default(),
        _ => {
            let mut x = Time::new(t.0);
            if t.1 {
                x.set_infinite();
            }
            x
        }
    };
    b.law(x.is_infinite() == t.1 && x.time() == t.0, || format!("{t:?} was made as {x:?} (way {way})"));
    x
}

fn order(a: Ref, b: Ref) -> Ordering {
    let big = |x: Ref| if x.1 { u128::MAX } else { x.0 as u128 };
    big(a).cmp(&big(b))
}

/// what is promised of a result: an infinite one need only be infinite
fn seen(t: Time) -> Ref {
    (if t.is_infinite() { 0 } else { t.time() }, t.is_infinite())
}
fn due(ticks: u64, infinite: bool) -> Ref {
    (if infinite { 0 } else { ticks }, infinite)
}

fn times(args: &Args, idx: u64) -> bool {
    let mut r = Rng::new(mix2(args.seed, idx ^ 0x7153));
    let mut b = Bad(vec![], 0);
    let n = 6;
    let mut refs: Vec<Ref> = vec![];
    for k in 0..n {
        let t = if k > 0 && r.chance(1, 3) { refs[r.us(k)].0.wrapping_add(r.below(3)).wrapping_sub(1) } else { edgy(&mut r) };
        refs.push((t, r.chance(1, 3)));
    }
    let xs: Vec<Time> = refs.iter().map(|t| make(&mut r, *t, &mut b)).collect();
    for i in 0..n {
        let (t, x) = (refs[i], xs[i]);
        for j in 0..n {
            let (u, y) = (refs[j], xs[j]);
            let w = order(t, u);
            let name = || format!("{x:?} against {y:?}");
            b.law((x == y) == w.is_eq() && (x != y) == w.is_ne(), || format!("{}: equality is wrong", name()));
            b.law(Ord::cmp(&x, &y) == w, || format!("{}: cmp gives {:?}", name(), Ord::cmp(&x, &y)));
            b.law(x.partial_cmp(&y) == Some(w), || format!("{}: partial_cmp gives {:?}", name(), x.partial_cmp(&y)));
            b.law(
                (x < y) == w.is_lt() && (x <= y) == w.is_le() && (x > y) == w.is_gt() && (x >= y) == w.is_ge(),
                || format!("{}: one of < <= > >= is wrong", name()),
            );
            let (mx, mn) = (std::cmp::max(x, y), std::cmp::min(x, y));
            b.law(mx >= x && mx >= y && (mx == x || mx == y), || format!("{}: max is {mx:?}", name()));
            b.law(mn <= x && mn <= y && (mn == x || mn == y), || format!("{}: min is {mn:?}", name()));
            // laws on the code alone, over triples
            for z in &xs {
                if x <= y && y <= *z {
                    b.law(x <= *z, || format!("not transitive: {x:?} {y:?} {z:?}"));
                }
                if x == y {
                    b.law((x == *z) == (y == *z) && x.cmp(z) == y.cmp(z), || format!("equal, but {z:?} tells them apart: {x:?} {y:?}"));
                }
            }
            // timestamp plus timestamp
            if let Some(s) = t.0.checked_add(u.0) {
                let want = due(s, t.1 || u.1);
                b.eq(want, || seen(x + y), || format!("{x:?} + {y:?}"));
                b.eq(
                    want,
                    || {
                        let mut z = x;
                        z += y;
                        seen(z)
                    },
                    || format!("{x:?} += {y:?}"),
                );
            }
            // updating an element
            let late = if w.is_lt() { u } else { t };
            let mut e = ChannelElement::new(x, (i, j));
            e.update_time(y);
            b.law(
                e.time.is_infinite() == late.1 && (late.1 || e.time.time() == late.0) && e.data == (i, j),
                || format!("{x:?} updated with {y:?} is {:?}", e.time),
            );
        }
        let back: Result<Time, _> = serde_json::to_string(&x).and_then(|s| serde_json::from_str(&s));
        b.law(matches!(&back, Ok(y) if y.time() == t.0 && y.is_infinite() == t.1), || format!("{x:?} came back from serialisation as {back:?}"));
        let mut inf = x;
        inf.set_infinite();
        b.law(inf.is_infinite() && inf.time() == t.0 && inf == Time::infinite(), || format!("{x:?} made infinite is {inf:?}"));
        for _ in 0..4 {
            let d = if r.chance(1, 2) { edgy(&mut r) } else { (t.0).wrapping_sub(r.below(3)).wrapping_add(r.below(3)) };
            if let Some(s) = t.0.checked_add(d) {
                b.eq((due(s, t.1), true), || (seen(x + d), x + d >= x), || format!("{x:?} + {d}"));
                b.eq(
                    due(s, t.1),
                    || {
                        let mut z = x;
                        z += d;
                        seen(z)
                    },
                    || format!("{x:?} += {d}"),
                );
                b.eq(due(t.0, t.1), || seen(x + d - d), || format!("{x:?} + {d} - {d}"));
            }
            if t.0 >= d {
                b.eq(due(t.0 - d, t.1), || seen(x - d), || format!("{x:?} - {d}"));
            } else if !t.1 {
                let got = tried(|| x - d);
                b.law(got.is_none(), || format!("{x:?} - {d} is {got:?}, below zero"));
            }
        }
        let e = ChannelElement::new(x, 7u8 + i as u8);
        let f: ChannelElement<u32> = e.clone().convert();
        let g: Result<ChannelElement<i8>, _> = e.try_convert();
        b.law(f.data == 7 + i as u32 && (f.time.time(), f.time.is_infinite()) == t, || format!("{x:?}: converting an element gave {f:?}"));
        b.law(
            matches!(&g, Ok(g) if g.data == 7 + i as i8 && (g.time.time(), g.time.is_infinite()) == t),
            || format!("{x:?}: converting an element gave {g:?}"),
        );
        let g: Result<ChannelElement<u8>, _> = ChannelElement::new(x, 256u32 + i as u32).try_convert();
        b.law(g.is_err(), || format!("{x:?}: converting {} to u8 gave {g:?}", 256 + i));
    }
    let mut sorted: Vec<usize> = (0..n).collect();
    sorted.sort_by_key(|i| xs[*i]);
    b.law(sorted.windows(2).all(|w| order(refs[w[0]], refs[w[1]]).is_le()), || format!("sorted as {sorted:?}: {xs:?}"));
    let text = format!("{xs:?}");
    let h = refs.iter().fold(3, |h, t| mix2(mix2(h, t.0), t.1 as u64));
    finish(args, idx, h, b, text)
}

/// types whose size the reference knows by itself
trait Bits: Debug {
    fn bits() -> u128;
    fn any(r: &mut Rng) -> Self;
}
macro_rules! bits {
    ($($t: ty, $n: expr, $f: expr;)*) => {$(
        impl Bits for $t {
            fn bits() -> u128 { $n }
            fn any(r: &mut Rng) -> Self { let f: fn(u64) -> $t = $f; f(edgy(r)) }
        }
    )*};
}
bits! {
    bool, 1, |x| x % 2 == 1;
    u8, 8, |x| x as u8;
    i8, 8, |x| x as i8;
    u16, 16, |x| x as u16;
    i16, 16, |x| x as i16;
    u32, 32, |x| x as u32;
    i32, 32, |x| x as i32;
    u64, 64, |x| x;
    i64, 64, |x| x as i64;
    f32, 32, |x| x as f32;
    f64, 64, |x| f64::from_bits(x);
    usize, 8 * std::mem::size_of::<usize>() as u128, |x| x as usize;
    (), 0, |_| ();
}
impl<A: Bits, B: Bits> Bits for (A, B) {
    fn bits() -> u128 {
        A::bits() + B::bits()
    }
    fn any(r: &mut Rng) -> Self {
        (A::any(r), B::any(r))
    }
}
impl<T: Bits> Bits for Unevaluated<T> {
    fn bits() -> u128 {
        T::bits()
    }
    fn any(r: &mut Rng) -> Self {
        if r.chance(1, 2) {
            Unevaluated::default()
        } else {
            Unevaluated::from(T::any(r))
        }
    }
}

/// a size of its own, as a user's type has
#[derive(Clone, Debug, Default, PartialEq)]
struct Odd<const N: usize>(u8);
impl<const N: usize> StaticallySized for Odd<N> {
    const SIZE: usize = N;
}
impl<const N: usize> Bits for Odd<N> {
    fn bits() -> u128 {
        N as u128
    }
    fn any(r: &mut Rng) -> Self {
        Odd(r.below(9) as u8)
    }
}

fn scalar<T: Bits + StaticallySized + DAMType>(r: &mut Rng, b: &mut Bad) {
    let name = std::any::type_name::<T>();
    b.law(T::SIZE as u128 == T::bits(), || format!("{name} has SIZE {}, not {}", T::SIZE, T::bits()));
    for _ in 0..2 {
        let v = T::any(r);
        b.law(v.dam_size() as u128 == T::bits(), || format!("{v:?}: {name} has size {}, not {}", v.dam_size(), T::bits()));
    }
}

/// arrays of every rank, with holes and strides of all kinds, hold `product of the shape` elements
fn arrays<T: Bits + StaticallySized + DAMType + PartialEq>(r: &mut Rng, b: &mut Bad, text: &mut String) {
    use ndarray::*;
    let name = std::any::type_name::<T>();
    fn check<A: DAMType, D: Debug>(a: &A, shape: D, n: usize, bits: u128, name: &str, b: &mut Bad) {
        let want = n as u128 * bits;
        b.eq(want, || a.dam_size() as u128, || format!("the size of an array of {name} of shape {shape:?}"));
        let c = a.clone();
        b.eq(want, || c.dam_size() as u128, || format!("the size of a copy of an array of {name} of shape {shape:?}"));
    }
    macro_rules! ranks {
        ($($d: ty, $k: literal;)*) => {{$({
            let mut dims = [0usize; $k];
            for d in dims.iter_mut() {
                *d = if r.chance(1, 12) { 0 } else { 1 + r.us(if $k > 4 { 3 } else { 6 }) };
            }
            let n: usize = dims.iter().product();
            text.push_str(&format!("{name} {dims:?} "));
            let a: Array<T, $d> = if r.chance(1, 2) {
                Array::from_shape_simple_fn(dims, || T::any(r))
            } else {
                Array::from_shape_simple_fn(dims.f(), || T::any(r))
            };
            check(&a, dims, n, T::bits(), name, b);
            check(&a.clone().into_dyn(), dims, n, T::bits(), name, b);
            check(&a.clone().reversed_axes(), dims, n, T::bits(), name, b);
            let mut a = a.into_dyn();
            // take parts out of it, leaving the rest in its memory
            for ax in 0..$k {
                let d = a.len_of(Axis(ax));
                if d > 1 && r.chance(1, 2) {
                    let from = r.us(d);
                    let to = from + r.us(d - from + 1);
                    let step = 1 + r.us(2) as isize;
                    let s = Slice { start: from as isize, end: Some(to as isize), step: if r.chance(1, 3) { -step } else { step } };
                    a.slice_axis_inplace(Axis(ax), s);
                }
            }
            let n: usize = a.iter().count();
            let shape = a.shape().to_vec();
            check(&a, shape, n, T::bits(), name, b);
            let dfl: Array<T, $d> = Default::default();
            let n: usize = dfl.iter().count();
            check(&dfl, "of the default", n, T::bits(), name, b);
        })*}};
    }
    match r.below(4) {
        0 => ranks! {Ix1, 1; Ix2, 2; Ix3, 3;},
        1 => ranks! {Ix4, 4; Ix5, 5;},
        2 => ranks! {Ix6, 6;},
        _ => {
            let k = r.us(9);
            let dims: Vec<usize> = (0..k).map(|_| if r.chance(1, 12) { 0 } else { 1 + r.us(3) }).collect();
            let n: usize = dims.iter().product();
            text.push_str(&format!("{name} dyn {dims:?} "));
            check(&ArrayD::from_shape_simple_fn(dims.clone(), || T::any(r)), &dims, n, T::bits(), name, b);
            check(&arr0(T::any(r)), "()", 1, T::bits(), name, b);
        }
    }
}

fn unevaluated<T>(r: &mut Rng, b: &mut Bad, text: &mut String)
where
    T: Bits + num::Num + StaticallySized + DAMType + Copy + PartialOrd + std::str::FromStr + std::ops::AddAssign + 'static,
{
    let name = std::any::type_name::<T>();
    let bits = T::bits();
    // the compiler sees to it that each result is an unevaluated value of the same type
    let size = |u: Unevaluated<T>| u.dam_size() as u128;
    for _ in 0..2 {
        let (p, q) = (T::any(r), T::any(r));
        text.push_str(&format!("{name} {p:?} {q:?} "));
        let (u, v) = (Unevaluated::from(p), Unevaluated::<T>::from(q));
        let copy = || (Unevaluated::<T>::from(p), Unevaluated::<T>::from(q));
        type Op<T> = (&'static str, fn(Unevaluated<T>, Unevaluated<T>, T) -> [Unevaluated<T>; 2]);
        let ops: [Op<T>; 5] = [
            ("+", |u, v, q| [u + v, Unevaluated::default() + q]),
            ("-", |u, v, q| [u - v, Unevaluated::default() - q]),
            ("*", |u, v, q| [u * v, Unevaluated::default() * q]),
            ("/", |u, v, q| [u / v, Unevaluated::default() / q]),
            ("%", |u, v, q| [u % v, Unevaluated::default() % q]),
        ];
        for (n, f) in ops {
            let (u, v) = copy();
            // nothing is computed, so neither overflow nor a division by zero can happen
            b.eq([bits; 2], || f(u, v, q).map(size), || format!("unevaluated {name} ({p:?} {n} {q:?})"));
        }
        b.eq(
            bits,
            || {
                let mut u = u.clone();
                u += v.clone();
                size(u)
            },
            || format!("unevaluated {name} ({p:?} += {q:?})"),
        );
        for (u, v, what) in [
            (u.clone(), v.clone(), "two values"),
            (u.clone(), u.clone(), "a value and its copy"),
            (Unevaluated::from(p), Unevaluated::from(p), "two of one value"),
            (Unevaluated::default(), Unevaluated::default(), "two defaults"),
        ] {
            // an equality that cannot be told may be refused, as long as it is not affirmed
            b.law(tried(|| u == v) != Some(true), || format!("{what} compare equal: unevaluated {name} of {p:?} {q:?}"));
            b.law(matches!(tried(|| u.partial_cmp(&v)), None | Some(None)), || format!("{what} are ordered: unevaluated {name} of {p:?} {q:?}"));
            for (n, x) in [
                ("<", tried(|| u < v)),
                ("<=", tried(|| u <= v)),
                (">", tried(|| u > v)),
                (">=", tried(|| u >= v)),
            ] {
                b.law(x != Some(true), || format!("{what} are ordered by {n}: unevaluated {name} of {p:?} {q:?}"));
            }
        }
    }
    b.eq(bits, || size(num::Zero::zero()), || format!("the zero of unevaluated {name}"));
    b.eq(bits, || size(num::One::one()), || format!("the one of unevaluated {name}"));
    for _ in 0..4 {
        let x = edgy(r);
        let mut s = match r.below(6) {
            0 => x.to_string(),
            1 => format!("-{}", x >> r.below(64)),
            2 => format!("{:x}", x),
            3 => format!("{}.{}", x % 1000, x % 7),
            4 => format!("{x:b}"),
            _ => String::new(),
        };
        if r.chance(1, 3) {
            let at = r.us(s.len() + 1);
            s.insert(at, *r.pick(&['+', ' ', '_', 'e', 'z', '0', 'é', '-', '.']));
        }
        let want = tried(|| s.parse::<T>().is_ok());
        let got = tried(|| s.parse::<Unevaluated<T>>().is_ok());
        b.law(want == got, || format!("{s:?} parsed as {name}: {want:?}, unevaluated: {got:?}"));
        let radix = 2 + r.below(35) as u32;
        let want = tried(|| T::from_str_radix(&s, radix).is_ok());
        let got = tried(|| <Unevaluated<T> as num::Num>::from_str_radix(&s, radix).is_ok());
        b.law(want == got, || format!("{s:?} parsed as {name} of radix {radix}: {want:?}, unevaluated: {got:?}"));
    }
}

/// an index type of a user's own, wider than a machine index
#[derive(Clone, Copy, Debug, Default, PartialEq)]
struct Wide(u128);
impl StaticallySized for Wide {
    const SIZE: usize = 128;
}
impl TryFrom<Wide> for usize {
    type Error = std::num::TryFromIntError;
    fn try_from(w: Wide) -> Result<usize, Self::Error> {
        usize::try_from(w.0)
    }
}
macro_rules! wide_op {
    ($($t: ident $f: ident $op: tt;)*) => {$(
        impl std::ops::$t for Wide {
            type Output = Wide;
            fn $f(self, o: Wide) -> Wide { Wide(self.0 $op o.0) }
        }
    )*};
}
wide_op! {Add add +; Sub sub -; Mul mul *; Div div /; Rem rem %;}
impl num::Zero for Wide {
    fn zero() -> Self {
        Wide(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl num::One for Wide {
    fn one() -> Self {
        Wide(1)
    }
}
impl num::Num for Wide {
    type FromStrRadixErr = std::num::ParseIntError;
    fn from_str_radix(s: &str, radix: u32) -> Result<Self, Self::FromStrRadixErr> {
        u128::from_str_radix(s, radix).map(Wide)
    }
}
impl IndexLike for Wide {}

fn types(args: &Args, idx: u64) -> bool {
    let mut r = Rng::new(mix2(args.seed, idx ^ 0x7199));
    let mut b = Bad(vec![], 0);
    let mut text = String::new();
    macro_rules! each {
        ($f: ident, $($t: ty),* ; $x: expr, $y: expr) => {{$($f::<$t>($x, $y);)*}};
    }
    macro_rules! pick {
        ($f: ident, $($t: ty),* ; $($x: expr),*) => {{
            let fs = [$($f::<$t>),*];
            (*r.pick(&fs))($($x),*)
        }};
    }
    each!(scalar, bool, u8, i8, u16, i16, u32, i32, u64, i64, f32, f64, usize, (); &mut r, &mut b);
    each!(scalar, (bool, bool), (u8, i64), (i64, u8), ((), u16), (usize, ()), (f32, f64), Odd<3>, (Odd<5>, bool); &mut r, &mut b);
    each!(scalar, ((bool, u8), i16), (bool, (u8, i16)), ((u32, i64), (f32, (f64, ()))), ((((u8, u16), u32), u64), usize),
        (Odd<0>, (Odd<1>, (Odd<2>, Odd<700>))); &mut r, &mut b);
    each!(scalar, Unevaluated<bool>, Unevaluated<u8>, Unevaluated<i64>, Unevaluated<(u8, (u16, f64))>, Unevaluated<Unevaluated<u32>>,
        (Unevaluated<i16>, f32), Unevaluated<()>, Unevaluated<Odd<9>>, (u8, (Unevaluated<usize>, bool)); &mut r, &mut b);
    pick!(arrays, bool, u8, i16, u32, i64, f64, usize, (), (u8, u32), ((bool, i64), f32), Odd<3>, Unevaluated<u16>, Unevaluated<(i8, f64)>;
        &mut r, &mut b, &mut text);
    pick!(arrays, u8, u64, f32, (bool, bool), Odd<77>, (Unevaluated<i8>, i32); &mut r, &mut b, &mut text);
    pick!(unevaluated, u8, i8, u16, i16, u32, i32, u64, i64, usize, f32, f64; &mut r, &mut b, &mut text);
    pick!(unevaluated, u8, i8, u64, i32, usize, f64; &mut r, &mut b, &mut text);
    for _ in 0..4 {
        let x = edgy(&mut r);
        b.eq(x as usize, || (x as usize).to_usize(), || format!("{x} as an index"));
        b.eq(x as u16 as usize, || (x as u16).to_usize(), || format!("{} as an index", x as u16));
        b.eq(x as u8 as usize, || (x as u8).to_usize(), || format!("{} as an index", x as u8));
        let w = if r.chance(1, 2) { x as u128 } else { ((x as u128) << r.below(65)) | r.below(9) as u128 };
        let got = tried(|| Wide(w).to_usize());
        b.law(got == usize::try_from(w).ok(), || format!("{w} as a machine index is {got:?}"));
    }
    let h = text.bytes().fold(idx, |h, x| mix2(h, x as u64));
    finish(args, idx, h, b, text)
}

pub fn suite(args: &Args) {
    match args.suite.as_str() {
        "times" => crate::cases(args, |idx| times(args, idx)),
        _ => crate::cases(args, |idx| types(args, idx)),
    }
}
