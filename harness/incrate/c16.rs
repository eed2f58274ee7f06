// C16: secrets never show up in debug output, and heap memory that held them is wiped before it is released.
// Debug part: objects with known secrets are formatted in every flavour and the text is searched for the secret in any
// notation. Memory part: the global allocator of this binary copies every block that the library releases while an
// operation is observed, and the copies are searched for the words of all secrets that were involved (inputs, outputs,
// and, for the proofs, the masks recomputed from the finished proof).
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;
use std::format;
use std::prelude::rust_2021::*;
use std::string::{String, ToString};
use std::vec;
use std::vec::Vec;

use super::bigref::*;
use super::common::*;
use super::ecref::*;
use super::util::*;
use super::zkfix::*;
use crate::curve::{secret_split, Scalar};
use crate::dev::TestParams;
use crate::k256::ProductionParams112;
use crate::paillier::*;
use crate::params::*;
use crate::tools::Secret;
use crate::uint::*;
use crate::zk::*;
use crypto_bigint::modular::Retrieve;
use crypto_bigint::subtle::{Choice, ConditionallyNegatable};
use crypto_bigint::{Bounded, CheckedAdd, CheckedMul, CheckedSub, Integer, Monty, NonZero, Odd, WrappingAdd, WrappingMul, WrappingNeg, WrappingSub};
use serde::{Deserialize, Deserializer};

// ---- the observer of releases

#[allow(unsafe_code)]
mod spy {
    use super::super::common::WATCHING;
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::cell::Cell;
    use std::vec::Vec;

    const CAP: usize = 96 << 20;
    const MAX_BLOCK: usize = 1 << 17;
    std::thread_local! {
        static BUF: Cell<(*mut u8, usize)> = const { Cell::new((std::ptr::null_mut(), 0)) };
        static LOST: Cell<usize> = const { Cell::new(0) };
    }
    pub struct Spy;
    #[global_allocator]
    static A: Spy = Spy;
    unsafe impl GlobalAlloc for Spy {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            // zeroed: what a block holds when it is released was written while it was in use
            System.alloc_zeroed(l)
        }
        // `realloc` and `alloc_zeroed` are the default ones: a moved block is released through `dealloc`
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            if WATCHING.try_with(|w| w.get()).unwrap_or(false) {
                let (b, n) = BUF.with(|b| b.get());
                let need = l.size() + 8;
                if l.size() <= MAX_BLOCK && n + need <= CAP {
                    std::ptr::copy_nonoverlapping((l.size() as u64).to_le_bytes().as_ptr(), b.add(n), 8);
                    std::ptr::copy_nonoverlapping(p, b.add(n + 8), l.size());
                    BUF.with(|x| x.set((b, n + need)));
                } else {
                    LOST.with(|x| x.set(x.get() + 1));
                }
            }
            System.dealloc(p, l)
        }
    }
    /// Runs `f`; returns copies of all heap blocks released meanwhile by this thread and the number of unseen ones.
    pub fn watch(f: impl FnOnce()) -> (Vec<Vec<u8>>, usize) {
        let layout = Layout::from_size_align(CAP, 16).unwrap();
        let b = unsafe { System.alloc(layout) };
        BUF.with(|x| x.set((b, 0)));
        LOST.with(|x| x.set(0));
        struct Off;
        impl Drop for Off {
            fn drop(&mut self) {
                WATCHING.with(|w| w.set(false));
            }
        }
        let off = Off;
        WATCHING.with(|w| w.set(true));
        f();
        drop(off);
        let n = BUF.with(|x| x.get().1);
        let mut out = std::vec![];
        let mut at = 0;
        let bytes = unsafe { std::slice::from_raw_parts(b, n) };
        while at < n {
            let len = u64::from_le_bytes(bytes[at..at + 8].try_into().unwrap()) as usize;
            out.push(bytes[at + 8..at + 8 + len].to_vec());
            at += 8 + len;
        }
        unsafe { System.dealloc(b, layout) };
        (out, LOST.with(|x| x.get()))
    }
}

// ---- what is searched for

/// The 64-bit words of secrets.
#[derive(Default, Clone)]
pub struct Words(pub HashMap<[u8; 8], String>, pub Vec<(String, Nat)>);
impl Words {
    pub fn nat(&mut self, name: &str, v: &Nat) {
        self.1.push((name.to_string(), v.clone()));
        for w in &v.0 {
            if !(12..=52).contains(&w.count_ones()) || w.leading_zeros() > 24 {
                continue; // too structured to be told from something public
            }
            self.0.insert(w.to_le_bytes(), name.to_string());
            self.0.insert(w.to_be_bytes(), name.to_string());
        }
    }
    /// Words that occur in a public value tell nothing.
    pub fn public(&mut self, v: &Nat) {
        for w in &v.0 {
            self.0.remove(&w.to_le_bytes());
            self.0.remove(&w.to_be_bytes());
        }
    }
    pub fn int(&mut self, name: &str, v: &Int, bits: u32) {
        self.nat(name, &v.mag);
        if !v.mag.is_zero() && v.mag.bits() <= bits {
            self.nat(&format!("-{}", name), &Nat::pow2(bits).sub(&v.mag));
        }
    }
    /// v in the Montgomery form of a `bits`-wide type.
    pub fn monty(&mut self, name: &str, v: &Nat, m: &Nat, bits: u32) {
        self.nat(name, v);
        self.nat(&format!("{} (Montgomery)", name), &v.mulmod(&Nat::pow2(bits), m));
    }
    fn finder(&self) -> Finder<'_> {
        let mut first = vec![false; 1 << 16];
        self.0.keys().for_each(|w| first[u16::from_le_bytes([w[0], w[1]]) as usize] = true);
        Finder(self, first)
    }
    fn find(&self, b: &[u8]) -> Option<&str> {
        self.finder().find(b)
    }
}

/// The words with a table of their first two bytes.
struct Finder<'a>(&'a Words, Vec<bool>);
impl<'a> Finder<'a> {
    fn find(&self, b: &[u8]) -> Option<&'a str> {
        b.windows(8).find_map(|w| {
            if !self.1[u16::from_le_bytes([w[0], w[1]]) as usize] {
                return None;
            }
            self.0 .0.get(w).map(|s| s.as_str())
        })
    }
}

/// Is any word of the secrets readable from the text?
fn read_from(text: &str, words: &Words) -> Option<String> {
    let low = text.to_lowercase();
    // runs of hex digits, also with separators removed
    let squeezed: String = {
        let t = low.replace("0x", " ").replace("\\x", " ");
        t.chars().filter(|c| c.is_ascii_hexdigit()).collect()
    };
    let hexes: Vec<&[u8]> = low.split(|c: char| !c.is_ascii_hexdigit()).map(|s| s.as_bytes()).chain([squeezed.as_bytes()]).collect();
    let mut by_hex: HashMap<Vec<u8>, &str> = HashMap::new();
    for (w, n) in &words.0 {
        by_hex.insert(hexs(w).into_bytes(), n);
    }
    for h in hexes {
        for w in h.windows(16) {
            if let Some(n) = by_hex.get(w) {
                return Some(format!("{} (hexadecimal {})", n, String::from_utf8_lossy(w)));
            }
        }
    }
    // numbers: words, half-words or bytes
    for radix in [10, 16] {
        let toks: Vec<Option<u128>> = low
            .split(|c: char| !c.is_ascii_alphanumeric())
            .filter(|s| !s.is_empty())
            .map(|s| u128::from_str_radix(s.strip_prefix("0x").unwrap_or(s), radix).ok())
            .collect();
        let size = |max: u128, n: usize| -> Option<String> {
            for t in toks.windows(8 / n) {
                if !t.iter().all(|x| x.map_or(false, |x| x <= max)) {
                    continue;
                }
                let mut bytes = [0u8; 8];
                for (i, x) in t.iter().enumerate() {
                    let be = x.unwrap().to_be_bytes();
                    bytes[i * n..(i + 1) * n].copy_from_slice(&be[16 - n..]);
                }
                if let Some(s) = words.0.get(&bytes) {
                    return Some(format!("{} (as numbers)", s));
                }
            }
            None
        };
        for (max, n) in [(u64::MAX as u128, 8), (u32::MAX as u128, 4), (255, 1)] {
            if let Some(x) = size(max, n) {
                return Some(x);
            }
        }
    }
    // the whole value in decimal
    for (name, v) in &words.1 {
        let d = decimal(v);
        let there = match v.bits() {
            50.. => low.contains(&d),
            // short ones only as a number of their own
            26.. => low.match_indices(&d).any(|(i, _)| {
                let digit = |c: Option<u8>| c.map_or(false, |c| c.is_ascii_alphanumeric());
                !digit(i.checked_sub(1).map(|i| low.as_bytes()[i])) && !digit(low.as_bytes().get(i + d.len()).copied())
            }),
            _ => false,
        };
        if there {
            return Some(format!("{} (decimal)", name));
        }
    }
    None
}
fn decimal(v: &Nat) -> String {
    let ten = Nat::from(1_000_000_000_000_000_000);
    let mut parts = vec![];
    let mut v = v.clone();
    while !v.is_zero() {
        let (q, r) = v.divrem(&ten);
        parts.push(r.0.first().copied().unwrap_or(0));
        v = q;
    }
    let mut s = match parts.pop() {
        None => return "0".into(),
        Some(x) => x.to_string(),
    };
    for x in parts.iter().rev() {
        s += &format!("{:018}", x);
    }
    s
}

// Debug if there is one.
pub struct Show<'a, T>(pub &'a T);
pub trait HasDebug {
    fn flavours(&self) -> Vec<String>;
}
impl<T: Debug> HasDebug for Show<'_, T> {
    fn flavours(&self) -> Vec<String> {
        let x = self.0;
        vec![
            format!("{:?}", x),
            format!("{:#?}", x),
            format!("{:x?}", x),
            format!("{:X?}", x),
            format!("{:#x?}", x),
            format!("{:#X?}", x),
            format!("{:02x?}", x),
            format!("{:?}", (x, Some(x))),
            format!("{:#?}", vec![x]),
        ]
    }
}
pub trait NoDebug {
    fn flavours(&self) -> Vec<String>;
}
impl<T> NoDebug for &Show<'_, T> {
    fn flavours(&self) -> Vec<String> {
        vec![]
    }
}

pub fn judge_text(c: &Ctx, what: &str, texts: Vec<String>, words: &Words) {
    if texts.is_empty() {
        c.count("without-debug");
        return;
    }
    c.distinct(format!("debug {} {:?}", what, words.1.first()).as_bytes());
    c.sample("text", format!("{}: {}", what, texts[0]));
    for t in texts {
        c.count("texts-searched");
        if let Some(x) = read_from(&t, words) {
            c.violation(&format!("debug/{}", what), "a secret is readable from debug output", format!("{}: {} in {}", what, x, short(&t, 700)));
            return;
        }
    }
}
macro_rules! show {
    ($c:expr, $words:expr, $what:expr, $x:expr) => {{
        let x = &$x;
        judge_text($c, $what, (&Show(x)).flavours(), $words);
    }};
}

pub(crate) use show;

// ---- memory

/// Observes one operation; `f` may add the secrets it produced (under `unwatched`).
pub fn mem(c: &Ctx, what: &str, words: &Words, f: impl FnOnce(&mut Words)) {
    let mut words = words.clone();
    let w = &mut words;
    let mut err = None;
    let (blocks, lost) = spy::watch(|| {
        if let Err(e) = no_panic(std::panic::AssertUnwindSafe(|| f(w))) {
            unwatched(|| err = Some(e));
        }
    });
    if let Some(e) = err {
        c.note(format!("{} panicked: {}", what, e));
        c.count("panicked");
        return;
    }
    c.count("operations-observed");
    c.measure("released-blocks", blocks.len() as u64);
    c.measure("released-bytes", blocks.iter().map(|b| b.len() as u64).sum());
    if lost > 0 {
        c.measure("released-blocks-unseen", lost as u64);
    }
    c.measure("secret-words", words.0.len() as u64);
    c.distinct(format!("mem {} {:?}", what, words.1.first()).as_bytes());
    let finder = words.finder();
    for b in &blocks {
        if let Some(n) = finder.find(b) {
            let n = n.to_string();
            c.violation(
                &format!("memory/{}/{}/{}", what, n, b.len()),
                "released memory still holds a secret",
                format!("{}: {} found in a released block of {} bytes", what, n, b.len()),
            );
        }
    }
}
fn out<T>(w: &mut Words, name: &str, x: &Secret<T>)
where
    T: zeroize::Zeroize + BoxedEncoding,
{
    unwatched(|| w.nat(name, &bn(x.expose_secret())))
}
fn outs<T>(w: &mut Words, name: &str, x: &SecretSigned<T>)
where
    T: BoxedEncoding + Integer + Bounded + zeroize::Zeroize + crypto_bigint::subtle::ConditionallySelectable,
{
    unwatched(|| w.int(name, &sval(x), T::BITS))
}

type S = TestParams;
type K = ProductionParams112;
type H = <Pp<S> as PaillierParams>::HalfUint;
type U = Ui<S>;
type W = Wui<S>;

/// Big-integer secrets.
fn integers(c: &Ctx, idx: u64) {
    let rng = &mut rng_for("c16/ints", idx);
    let int = |rng: &mut Rng, bits: u32| Int::new(rng.next_u32() & 1 == 1, Nat::random_bits(rng, bits));
    let (a, b) = (int(rng, 100), int(rng, 120));
    let (ua, ub) = (Nat::random_bits(rng, 126), Nat::random_bits(rng, 128));
    let modulus = {
        let m = Nat::random_bits(rng, 255);
        if m.is_odd() { m } else { m.add(&Nat::one()) }
    };
    let mut w = Words::default();
    w.int("a", &a, U::BITS);
    w.int("b", &b, U::BITS);
    w.int("a", &a, W::BITS);
    w.nat("ua", &ua);
    w.nat("ub", &ub);
    let w = &w;
    let mk = |v: &Nat| {
        let x: U = nb(v);
        Secret::init_with(|| x)
    };
    let (sa, sb) = (mk_secret::<U>(&a, 122), mk_secret::<U>(&b, 123));
    let (xa, xb) = (mk(&ua), mk(&ub));
    let un = |x: &Secret<U>| Option::<SecretUnsigned<U>>::from(SecretUnsigned::new(x.clone(), 200)).unwrap();
    let (na, nb_) = (un(&xa), un(&xb));
    let pa = mk_public::<U>(&int(rng, 100), 110);
    let params = <<U as Integer>::Monty as Monty>::new_params_vartime(Odd::new(nb::<U>(&modulus)).unwrap());
    let nz = NonZero::new(nb::<U>(&modulus)).unwrap();
    let mont = |w: &mut Words, name: &str, v: &Nat| w.monty(name, &v.rem(&modulus), &modulus, U::BITS);

    // Debug
    show!(c, w, "Secret<Uint>", xa);
    show!(c, w, "SecretSigned", sa);
    show!(c, w, "SecretUnsigned", na);
    show!(c, w, "Secret<NonZero>", Secret::init_with(|| NonZero::new(*xa.expose_secret()).unwrap()));
    show!(c, w, "collection of secrets", (vec![sa.clone(), sb.clone()], BTreeMap::from([(1, xa.clone())]), Some(na.clone())));
    {
        let mut w = w.clone();
        mont(&mut w, "ua", &ua);
        let w = &w;
        show!(c, w, "Secret<Monty>", xa.to_montgomery(&params));
    }

    // memory
    macro_rules! m {
        ($name:expr, $f:expr) => {
            mem(c, $name, w, $f)
        };
    }
    m!("clone and drop", |_| drop((xa.clone(), sa.clone(), na.clone())));
    m!("boxed", |_| drop((Box::new(xa.clone()), Box::new(sa.clone()), vec![na.clone(), nb_.clone()])));
    m!("growing vector", |_| {
        let mut v = vec![];
        for _ in 0..20 {
            v.push((xa.clone(), sb.clone()));
        }
    });
    m!("init_with", |_| drop(Secret::init_with(|| *xa.expose_secret())));
    m!("try_init_with", |_| drop(Secret::try_init_with(|| Ok::<_, ()>(*xa.expose_secret()))));
    m!("to_wide", |_| drop((xa.to_wide::<W>(), sa.to_wide::<W>(), na.to_wide::<W>())));
    m!("wrapping", |w| {
        let r = [xa.wrapping_add(&xb), xa.wrapping_sub(&xb), xa.wrapping_mul(&xb), xa.wrapping_neg()];
        r.iter().for_each(|x| out(w, "result", x));
    });
    m!("select", |_| drop(Secret::conditional_select(&xa, &xb, Choice::from(idx as u8 & 1))));
    m!("rem", |w| {
        let d = unwatched(|| NonZero::new(nb::<U>(&Nat::pow2(100).sub(&Nat::from(17)))).unwrap());
        let r = &xa % &d;
        out(w, "remainder", &r);
        let mut r = xa.clone();
        r %= &d;
        out(w, "remainder", &r);
        r = xa.clone();
        r /= &d;
    });
    m!("signed ops", |w| {
        let r = [
            sa.clone() + sb.clone(),
            sa.clone() - sb.clone(),
            sa.clone() * sb.clone(),
            sa.clone() + &sb,
            sa.clone() * &sb,
            -sa.clone(),
            -&sb,
            sa.neg(),
            sa.clone() + pa.clone(),
            &sa * pa.clone(),
            sa.clone() * pa.clone(),
            [sa.clone(), sb.clone()].iter().sum::<SecretSigned<U>>(),
        ];
        r.iter().for_each(|x| outs(w, "result", x));
        let r = [
            sa.checked_add(&sb),
            sa.checked_sub(&sb),
            sa.checked_mul(&sb),
            CheckedAdd::checked_add(&sa, &pa),
            CheckedMul::checked_mul(&sa, &pa),
        ];
        for x in r {
            if let Some(x) = Option::<SecretSigned<U>>::from(x) {
                outs(w, "result", &x);
            }
        }
    });
    m!("mul_wide_public", |w| {
        let r: SecretSigned<W> = sa.mul_wide_public(&pa);
        outs(w, "product", &r);
    });
    m!("abs", |_| drop((sa.abs(), sa.abs_value(), sb.abs())));
    m!("constructors", |_| {
        for bound in [1u32, 90, 130, 254, 255, 400] {
            drop(Option::<SecretSigned<U>>::from(SecretSigned::new_positive(xa.clone(), bound)));
            drop(Option::<SecretSigned<U>>::from(SecretSigned::new_from_unsigned(xa.clone(), bound)));
            drop(Option::<SecretUnsigned<U>>::from(SecretUnsigned::new(xa.clone(), bound)));
            drop(Option::<SecretSigned<U>>::from(SecretSigned::new_modulo(xa.clone(), &nz, bound)));
        }
    });
    m!("range", |_| {
        drop(Option::<SecretSigned<U>>::from(sa.clone().ensure_exponent_range(50)));
        drop(Option::<SecretSigned<U>>::from(sa.clone().ensure_exponent_range(200)));
        sa.assert_exponent_range(200);
    });
    m!("add_mod", |w| {
        let m = Secret::init_with(|| nz);
        let x = na.add_mod(&nb_, &m);
        unwatched(|| w.nat("sum", &bn(x.expose_secret())));
    });
    m!("bitand", |_| drop(&na & unwatched(|| nb::<U>(&Nat::pow2(128).sub(&Nat::one())))));
    m!("sampling", |w| {
        let x = SecretSigned::<U>::random_in_exponent_range(rng, 200);
        outs(w, "sample", &x);
        let scale = unwatched(|| nb::<U>(&modulus));
        let x = SecretSigned::<U>::random_in_exponent_range_scaled::<W>(rng, 100, &scale);
        outs(w, "sample", &x);
    });
    m!("montgomery", |w| {
        unwatched(|| mont(w, "ua", &ua));
        let x = xa.to_montgomery(&params);
        let y = na.to_montgomery(&params);
        let z = [&x + &y, x.clone() - y.clone(), &x * &y, -&x];
        for z in &z {
            unwatched(|| mont(w, "result", &bn(&z.expose_secret().retrieve())));
        }
        let mut n = x.clone();
        n.conditional_negate(Choice::from(1));
        drop(x.retrieve());
    });
    m!("power with a secret exponent", |w| {
        let base = Secret::init_with(|| <<U as Integer>::Monty as Monty>::new(unwatched(|| nb::<U>(&Nat::from(2))), params.clone()));
        let r = [base.pow(&sa), base.pow(&na), base.pow(&sb)];
        for r in &r {
            unwatched(|| mont(w, "result", &bn(&r.expose_secret().retrieve())));
        }
    });
    // the encoder's own buffers are public API of serde; what the library itself allocates must be wiped
    let json = to_json(&xa);
    m!("serialize", |_| {
        let x = serde_json::to_value(&xa).unwrap();
        drop(x);
    });
    #[derive(Clone)]
    struct Plain(Box<[u8]>);
    impl<'de> Deserialize<'de> for Plain {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            use serde_encoded_bytes::{Hex, SliceLike};
            Ok(Plain(SliceLike::<Hex>::deserialize(d)?))
        }
    }
    let dirty = |f: &mut dyn FnMut()| spy::watch(f).0.iter().filter(|b| w.find(b).is_some()).count();
    let baseline = dirty(&mut || std::mem::forget(Plain::deserialize(&json).unwrap()));
    let ours = dirty(&mut || drop(Secret::<U>::deserialize(&json).unwrap()));
    c.count("operations-observed");
    if ours > baseline {
        c.violation("memory/deserialize", "released memory still holds a secret", format!("{} dirty blocks, {} of them the decoder's", ours, baseline));
    }
}

/// Curve scalars.
fn scalars(c: &Ctx, idx: u64) {
    let rng = &mut rng_for("c16/scalars", idx);
    let cu = CurveRef::secp256k1();
    let (a, b) = (Nat::random_below(rng, &cu.n), Nat::random_below(rng, &cu.n));
    let mut w = Words::default();
    for (n, v) in [("a", &a), ("b", &b)] {
        w.nat(n, v);
        w.nat(&format!("-{}", n), &cu.n.sub(v));
    }
    let w = &w;
    let (ka, kb) = (mk_sc::<K>(&cu, &a), mk_sc::<K>(&cu, &b));
    let (sa, sb) = (Secret::init_with(|| ka), Secret::init_with(|| kb));
    show!(c, w, "Secret<Scalar>", sa);
    show!(c, w, "secret scalars", (vec![sa.clone(), sb.clone()], BTreeMap::from([(1, sa.clone())])));
    if let Some(k) = sa.to_signing_key() {
        show!(c, w, "SigningKey", k);
    }
    macro_rules! m {
        ($name:expr, $f:expr) => {
            mem(c, $name, w, $f)
        };
    }
    m!("scalar clone", |_| drop((Box::new(sa.clone()), vec![sb.clone(), sa.clone()])));
    m!("scalar ops", |w| {
        let r = [
            sa.clone() + &sb,
            &sa + &sb,
            &sa + sb.clone(),
            sa.clone() + sb.clone(),
            sa.clone() - sb.clone(),
            sa.clone() * &sb,
            &sa * &sb,
            sa.clone() * sb.clone(),
            &sa * kb,
            sa.clone() * kb,
            &sa + &kb,
            sa.clone() - &kb,
            -&sa,
            [sa.clone(), sb.clone()].into_iter().sum(),
            [sa.clone(), sb.clone()].iter().sum(),
            Secret::<Scalar<K>>::conditional_select(&sa, &sb, Choice::from(1)),
        ];
        r.iter().for_each(|x| out(w, "result", x));
        let mut z = sa.clone();
        z += &kb;
        out(w, "result", &z);
        z += sb.clone();
        out(w, "result", &z);
    });
    m!("scalar points", |_| {
        let p = sa.mul_by_generator();
        let _ = (p * &sb, &p * sb.clone(), p * sb.clone(), &p * &sa);
    });
    m!("signing key", |_| drop(sa.to_signing_key()));
    m!("scalar serialize", |_| drop(serde_json::to_value(&sa).unwrap()));
    m!("secret_split", |w| {
        let parts = secret_split::<K>(rng, sa.clone(), 2 + idx as usize % 5);
        parts.iter().for_each(|x| out(w, "part", x));
    });
    m!("scalar to signed", |w| {
        let x = secret_signed_from_scalar::<K>(&sa);
        outs(w, "signed", &x);
    });
    m!("scalar from signed", |w| {
        let x = secret_signed_from_scalar::<K>(&sa);
        outs(w, "signed", &x);
        let y = secret_scalar_from_signed::<K>(&x);
        out(w, "back", &y);
        let y = secret_scalar_from_wide_signed::<K>(&x.to_wide());
        out(w, "back", &y);
        let y = secret_scalar_from_signed::<K>(&-x);
        out(w, "back", &y);
    });
    // Schnorr secrets
    m!("schnorr", |w| {
        let s = SchSecret::<K>::random(rng);
        let cap_x = sa.mul_by_generator();
        let com = SchCommitment::new(&s);
        let proof = SchProof::<K>::new(&s, &sa, &com, &cap_x, &());
        unwatched(|| {
            let j = to_json(&proof);
            let (e, z) = (num(&j["challenge"]), num(&j["proof"]));
            let ex = e.mul(&a).rem(&cu.n);
            w.nat("alpha", &z.add(&cu.n).sub(&ex).rem(&cu.n));
            show!(c, w, "SchSecret", s);
            show!(c, w, "SchProof", proof);
        });
        drop(Box::new(s));
    });
    m!("elog", |w| {
        let h = kb_point(&cu, &b);
        let x = sb.mul_by_generator();
        let l = sa.mul_by_generator();
        let m_ = sb.mul_by_generator() + x * &sa;
        let y = h * &sb;
        let inputs = ElogSecretInputs { y: &sb, lambda: &sa };
        unwatched(|| show!(c, w, "ElogSecretInputs", inputs));
        let p = ElogProof::<K>::new(rng, inputs, ElogPublicInputs { cap_l: &l, cap_m: &m_, cap_x: &x, cap_y: &y, h: &h }, &());
        unwatched(|| {
            let j = to_json(&p);
            let e = num(&j["e"]);
            for (f, s) in [("z", &a), ("u", &b)] {
                w.nat("mask", &num(&j[f]).add(&cu.n).sub(&e.mul(s).rem(&cu.n)).rem(&cu.n));
            }
        });
    });
}
fn kb_point(cu: &CurveRef, b: &Nat) -> crate::curve::Point<K> {
    mk_sc::<K>(cu, &b.mulmod(b, &cu.n)).mul_by_generator()
}

pub fn key_words(p: &Nat, q: &Nat) -> Words {
    key_words_of::<S>(p, q)
}
pub fn key_words_of<P: SchemeParams>(p: &Nat, q: &Nat) -> Words {
    let (full, half) = (<Ui<P> as Bounded>::BITS, <<Pp<P> as PaillierParams>::HalfUint as Bounded>::BITS);
    let one = Nat::one();
    let n = p.mul(q);
    let phi = p.sub(&one).mul(&q.sub(&one));
    let mut w = Words::default();
    w.nat("p", p);
    w.nat("q", q);
    w.nat("p-1", &p.sub(&one));
    w.nat("q-1", &q.sub(&one));
    w.nat("totient", &phi);
    w.nat("totient/4", &phi.shr(2));
    if let Some(x) = phi.invmod(&n) {
        w.monty("inv_totient", &x, &n, full);
    }
    if let Some(x) = n.invmod(&phi) {
        w.nat("inv_modulus", &x);
    }
    if let Some(x) = p.invmod(q) {
        w.monty("inv_p_mod_q", &x, q, half);
        let t = x.add(&x).add(&q.sub(&one)).rem(q);
        let u = t.mul(p).add(&p.sub(&one));
        w.monty("u", &u.rem(&n), &n, full);
    }
    w.monty("p mod q", &p.rem(q), q, half);
    for (name, m) in [("sqrt exponent of p", p), ("sqrt exponent of q", q)] {
        w.nat(name, &m.shr(2).add(&one));
    }
    w.public(&n);
    w.public(&n.mul(&n));
    w
}

/// Keys, randomizers, ciphertext operations.
fn keys(c: &Ctx, idx: u64) {
    let rng = &mut rng_for("c16/keys", idx);
    let wire = SecretKeyPaillierWire::<Pp<S>>::random(rng);
    let (p, q) = primes_of(&wire);
    if p == q {
        return;
    }
    let w = &key_words(&p, &q);
    let n = p.mul(&q);
    let sk = wire.clone().into_precomputed();
    let pk = sk.public_key().clone();
    show!(c, w, "SecretKeyPaillierWire", wire);
    show!(c, w, "SecretKeyPaillier", sk);
    show!(c, w, "key parts", (sk.p_signed(), sk.q_signed(), sk.totient_wide_unsigned(), sk.inv_totient().clone(), sk.inv_modulus().clone()));
    macro_rules! m {
        ($name:expr, $f:expr) => {
            mem(c, $name, w, $f)
        };
    }
    m!("key clone", |_| drop((wire.clone(), vec![wire.clone()], Box::new(wire.clone()))));
    m!("key precompute", |_| {
        let sk = wire.clone().into_precomputed();
        drop(sk.into_wire());
    });
    m!("key drop", |_| drop(wire.clone().into_precomputed()));
    m!("public key of", |_| drop(wire.public_key()));
    m!("key serialize", |_| drop(serde_json::to_value(&wire).unwrap()));
    m!("key parts", |_| drop((sk.p_signed(), sk.q_signed(), sk.totient_wide_unsigned(), sk.inv_totient().clone(), sk.inv_modulus().clone())));
    m!("key generation", |w| {
        let k = SecretKeyPaillierWire::<Pp<S>>::random(rng);
        unwatched(|| {
            let (p, q) = primes_of(&k);
            let x = key_words(&p, &q);
            w.0.extend(x.0);
        });
        drop(k.into_precomputed());
    });
    let x: U = nb(&Nat::random_below(rng, &n));
    m!("rns", |w| {
        let s = sk.rns_split(&x);
        unwatched(|| {
            w.monty("x mod p", &bn(&x).rem(&p), &p, H::BITS);
            w.monty("x mod q", &bn(&x).rem(&q), &q, H::BITS);
        });
        drop(sk.rns_sqrt(&s));
        let _ = sk.rns_join(&s);
        let _ = sk.random_nonsquare_residue(rng);
    });

    // encryption
    let mbits = pk.modulus().bits_vartime() - 2;
    let msg = Int::new(rng.next_u32() & 1 == 1, Nat::random_bits(rng, mbits));
    let sm = mk_secret::<U>(&msg, U::BITS - 2);
    let mut wm = w.clone();
    wm.int("plaintext", &msg, U::BITS);
    wm.nat("plaintext mod N", &msg.modulo(&n));
    let w = &wm;
    let rand_words = |w: &mut Words, r: &Randomizer<Pp<S>>, ct: &Ciphertext<Pp<S>>| {
        // rho from the ciphertext
        let _ = r;
        let v = num(&to_json(&ct.to_wire())["ciphertext"]);
        let phi = p.sub(&Nat::one()).mul(&q.sub(&Nat::one()));
        let rho = v.rem(&n).powmod(&n.invmod(&phi).unwrap(), &n);
        w.monty("randomizer", &rho, &n, U::BITS);
        w.monty("wide randomizer", &rho, &n.mul(&n), W::BITS);
        w.monty("randomizer^N", &rho.powmod(&n, &n.mul(&n)), &n.mul(&n), W::BITS);
    };
    mem(c, "encrypt", w, |w| {
        let r = Randomizer::random(rng, &pk);
        let ct = Ciphertext::<Pp<S>>::new_with_randomizer(&pk, &sm, &r);
        unwatched(|| {
            rand_words(w, &r, &ct);
            show!(c, w, "Randomizer", r);
            show!(c, w, "Ciphertext", ct);
        });
        let _ = Ciphertext::<Pp<S>>::new_wide_with_randomizer(&pk, &sm.to_wide(), &r);
        let r2 = Randomizer::random(rng, &pk);
        let ct2 = Ciphertext::<Pp<S>>::new_with_randomizer(&pk, &sm, &r2);
        unwatched(|| rand_words(w, &r2, &ct2));
        let e = unwatched(|| mk_public::<U>(&Int::small(-12345), 20));
        drop(r.to_masked(&r2, &e));
        drop(Box::new(r));
        drop(vec![r2]);
    });
    mem(c, "encrypt fresh", w, |w| {
        let ct = Ciphertext::<Pp<S>>::new_with_randomizer(&pk, &sm, &Randomizer::random(rng, &pk));
        unwatched(|| {
            let v = num(&to_json(&ct.to_wire())["ciphertext"]);
            let phi = p.sub(&Nat::one()).mul(&q.sub(&Nat::one()));
            let rho = v.rem(&n).powmod(&n.invmod(&phi).unwrap(), &n);
            w.monty("randomizer", &rho, &n, U::BITS);
        });
    });
    mem(c, "decrypt", w, |w| {
        let ct = unwatched(|| Ciphertext::<Pp<S>>::new_with_randomizer(&pk, &sm, &Randomizer::random(&mut rng_for("c16/enc", idx), &pk)));
        let back = ct.decrypt(&sk);
        outs(w, "decrypted", &back);
        let r = ct.derive_randomizer(&sk);
        unwatched(|| rand_words(w, &r, &ct));
        unwatched(|| show!(c, w, "derived Randomizer", r));
        drop(Box::new(r));
    });
    mem(c, "homomorphic", w, |_| {
        let ct = unwatched(|| Ciphertext::<Pp<S>>::new_with_randomizer(&pk, &mk_secret::<U>(&Int::small(5), 20), &Randomizer::random(&mut rng_for("c16/enc", idx), &pk)));
        let _ = &ct * &sm;
        let _ = ct.clone() * &sm;
        let _ = ct * &sm.to_wide::<W>();
    });
}

/// Ring-Pedersen secrets.
fn ring_pedersen(c: &Ctx, idx: u64) {
    let rng = &mut rng_for("c16/rp", idx);
    let secret = RPSecret::<Pp<S>>::random(rng);
    // the primes are not accessible: the totient and the exponent are
    let phi = bn(secret.totient_nonzero().expose_secret().as_ref());
    let lambda = bn(secret.lambda().expose_secret());
    let n = bn(&secret.modulus());
    let mut w = Words::default();
    w.nat("totient", &phi);
    w.nat("totient/4", &phi.shr(2));
    w.public(&n);
    w.nat("lambda", &lambda);
    // p + q = N - phi + 1
    let sum = n.sub(&phi).add(&Nat::one());
    if let Some(root) = isqrt(&sum.mul(&sum).sub(&n.shl(2))) {
        let (p, q) = (sum.add(&root).shr(1), sum.sub(&root).shr(1));
        if p.mul(&q) == n {
            c.count("factored-setups");
            w.0.extend(key_words(&p, &q).0);
        }
    }
    show!(c, &w, "RPSecret", secret);
    mem(c, "setup", &w, |_| {
        let p = RPParams::random_with_secret(rng, &secret);
        drop(p.to_wire());
        drop(Box::new(secret.clone()));
        let _ = secret.totient_nonzero();
    });
    mem(c, "setup residue", &w, |w| {
        let x = secret.random_residue_mod_totient(rng);
        unwatched(|| w.nat("residue", &bn(x.expose_secret())));
        unwatched(|| show!(c, w, "residue", x));
    });
    mem(c, "setup commitment", &w, |w| {
        let params = unwatched(|| RPParams::random_with_secret(&mut rng_for("c16/rp2", idx), &secret));
        let v = SecretSigned::<U>::random_in_exponent_range(rng, 200);
        let r = SecretSigned::<U>::random_in_exponent_range(rng, 200);
        outs(w, "value", &v);
        outs(w, "randomizer", &r);
        drop(params.commit(&v, &r));
        drop(params.commit_zero_value(&r));
        drop(params.commit_zero_randomizer(&v));
    });
    mem(c, "prm proof", &w, |w| {
        let params = unwatched(|| RPParams::random_with_secret(&mut rng_for("c16/rp2", idx), &secret));
        let proof = PrmProof::<S>::new(rng, &secret, &params, &());
        unwatched(|| {
            let j = to_json(&proof);
            let bits = bits_of(&j["challenge"]);
            for (z, e) in j["proof"].as_array().unwrap().iter().zip(bits) {
                let z = num(z);
                w.nat("mask", &if e { z.add(&phi).sub(&lambda).rem(&phi) } else { Nat::zero() });
            }
        });
    });
}
fn isqrt(n: &Nat) -> Option<Nat> {
    let mut r = Nat::zero();
    for i in (0..=n.bits() / 2).rev() {
        let t = r.add(&Nat::pow2(i));
        if t.mul(&t) <= *n {
            r = t;
        }
    }
    if r.mul(&r) == *n {
        Some(r)
    } else {
        None
    }
}

/// The provers.
fn proofs(c: &Ctx, w: &World<S>, idx: u64) {
    let kinds = [Kind::Mod, Kind::Fac, Kind::Enc, Kind::Dec, Kind::AffG, Kind::AffStar];
    let kind = kinds[idx as usize % kinds.len()];
    let rng = &mut rng_for("c16/proofs", idx);
    let case = Case::random(w, kind, rng);
    let mut words = Words::default();
    // the keys' factors belong to the prover's own secrets only in these two
    if matches!(kind, Kind::Mod | Kind::Fac) {
        words = key_words(&w.k0.p, &w.k0.q);
    } else {
        words.int("x", &case.x, U::BITS);
        words.int("y", &case.y, U::BITS);
        words.int("y", &case.y, W::BITS);
        for (r, k) in [(&case.rho, &w.k0), (&case.rho2, &w.k1)] {
            let Some(r) = r else { continue };
            // rho from an encryption of zero
            let zero = mk_secret::<U>(&Int::zero(), 1);
            let ct = Ciphertext::<Pp<S>>::new_with_randomizer(&k.pk(), &zero, r);
            let (_, rho) = k.open(&num(&to_json(&ct.to_wire())["ciphertext"]));
            words.monty("rho", &rho, &k.n, U::BITS);
        }
    }
    let name = format!("{} proof", kind.name());
    mem(c, &name, &words, |w_| {
        let proof = case.prove(rng, &());
        unwatched(|| {
            let j = proof.unwrap();
            let e_of = |v: &J| -> Int {
                if v.is_object() {
                    signed_of(v)
                } else {
                    Int::from(num(v))
                }
            };
            let mut mask = |z: &J, e: &Int, s: &Int| {
                let z = signed_of(z);
                // challenges are used as residues or as signed residues of the order
                for e in [e.clone(), e.sub(&Int::from(w.curve.n.clone()))] {
                    for m in [z.sub(&e.mul(s)), z.add(&e.mul(s))] {
                        if m.mag.bits() > 64 {
                            for bits in [U::BITS, W::BITS] {
                                w_.int("mask", &m, bits);
                            }
                        }
                    }
                }
            };
            let one = Int::small(1);
            match kind {
                Kind::Enc => mask(&j["z1"], &e_of(&j["e"]), &case.x),
                Kind::AffG => {
                    mask(&j["z1"], &e_of(&j["e"]), &case.x);
                    mask(&j["z2"], &e_of(&j["e"]), &case.y);
                }
                Kind::Fac => {
                    let e = e_of(&j["e"]);
                    mask(&j["z1"], &e, &Int::from(w.k0.p.clone()));
                    mask(&j["z2"], &e, &Int::from(w.k0.q.clone()));
                }
                Kind::Dec | Kind::AffStar => {
                    let bits = bits_of(&j["e"]);
                    let (fx, fy) = if kind == Kind::Dec { ("w", "z") } else { ("z", "z_prime") };
                    for (el, b) in j["elements"].as_array().unwrap().iter().zip(bits) {
                        if b {
                            mask(&el[fx], &one, &case.x);
                            mask(&el[fy], &one, &case.y);
                        }
                    }
                }
                _ => {}
            }
            // a response with a small secret or challenge shares words with its mask
            let mut todo = vec![&j];
            while let Some(v) = todo.pop() {
                match v {
                    J::Object(m) if m.contains_key("bound") => {
                        let z = signed_of(v);
                        for bits in [U::BITS, W::BITS] {
                            w_.public(&z.mag);
                            if z.mag.bits() <= bits {
                                w_.public(&Nat::pow2(bits).sub(&z.mag));
                            }
                        }
                    }
                    J::Object(m) => todo.extend(m.values()),
                    J::Array(a) => todo.extend(a),
                    _ => {}
                }
            }
            // a finished proof is public and shows none of this
            let t = (&Show(&j)).flavours();
            judge_text(c, &name, t, w_);
        });
    });
}

/// The detectors must see planted leaks.
fn controls(c: &Ctx) {
    let rng = &mut rng_for("c16/control", 0);
    let v = Nat::random_bits(rng, 256);
    let mut w = Words::default();
    w.nat("control", &v);
    let u: crypto_bigint::U256 = uint_of(&v);
    let bytes = v.to_be_padded(32);
    let le: Vec<u8> = bytes.iter().rev().copied().collect();
    let words: Vec<u64> = v.0.clone();
    let texts = [
        format!("{:?}", u),
        format!("{:?}", bytes),
        format!("{:x?}", bytes),
        format!("{:#x?}", le),
        format!("{:?}", le),
        format!("{:?}", words),
        format!("{:X?}", words),
        hexs(&bytes),
        hexs(&le),
        decimal(&v),
    ];
    for t in texts {
        if read_from(&t, &w).is_none() {
            c.inconclusive(format!("the text detector misses {}", t));
        }
        c.count("control");
    }
    if read_from("Secret<Uint<4>>(...) 123456789 deadbeefdeadbeefdeadbeef", &w).is_some() {
        c.inconclusive("the text detector sees a secret where there is none");
    }
    let leak = |f: &dyn Fn()| spy::watch(|| f()).0.iter().any(|b| w.find(b).is_some());
    if !leak(&|| drop(std::hint::black_box(Box::new(u)))) || !leak(&|| drop(std::hint::black_box(vec![1u8; 3].into_iter().chain(bytes.clone()).collect::<Vec<u8>>()))) {
        c.inconclusive("the memory detector misses an unwiped block");
    }
    if leak(&|| drop(Secret::init_with(|| crypto_bigint::U256::ONE))) {
        c.inconclusive("the memory detector sees a secret where there is none");
    }
    c.count_n("control", 3);
}

pub fn main() -> i32 {
    big_stack(run)
}
fn run() -> i32 {
    let c = Ctx::new("C16");
    let c = &c;
    controls(c);
    let rng = &mut rng_for("c16/world", 0);
    let w = &World::<S>::new(rng, false);
    c.par(scale(800, 16000), |i| integers(c, i));
    c.par(scale(800, 16000), |i| scalars(c, i));
    c.par(scale(240, 4000), |i| keys(c, i));
    c.par(scale(96, 1500), |i| ring_pedersen(c, i));
    c.par(scale(240, 3600), |i| proofs(c, w, i));
    super::c16e::all(c);
    c.finish(
        "an evaluation is one text searched or one observed operation (with the released blocks and secret words it was searched for); distinct = (what was shown or done, secret)",
        &["Heap memory only: copies that the compiler leaves on the stack or in registers are not observed, nor are the unwrapped Montgomery parameters kept inline in a Paillier key (see DESIGN.md).",
          "Words of secrets with little entropy are not searched for."],
    )
}
