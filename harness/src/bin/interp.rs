//! Executes commands (one JSON object per line of the file given) against the system and writes, for each, the
//! command with its observed outcome in member "res".  All outcomes are observed through the public API.
#![allow(deprecated)]
use harness::abs::{arr, hex, raw, unhex, Abs, Bytes};
use harness::j::{self, J};
use sia::consensus::*;
use sia::encoding::{self, SiaDecodable, SiaEncodable, V1SiaDecodable, V1SiaEncodable};
use sia::seed::Seed;
use sia::signing::{PrivateKey, PublicKey, Signature};
use sia::types::{v1, v2, *};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::{self, BufRead, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};
use time::{Duration, OffsetDateTime};

// ------------------------------------------------------------------ allocation accounting
struct Counting;
static CUR: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
fn grew(n: usize) {
    let c = CUR.fetch_add(n, Relaxed).wrapping_add(n);
    PEAK.fetch_max(c, Relaxed);
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        grew(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        grew(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        CUR.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            grew(n - l.size());
        } else {
            CUR.fetch_sub(l.size() - n, Relaxed);
        }
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;

// ------------------------------------------------------------------ outcomes
fn ok(v: J) -> J {
    J::obj(vec![("r", J::s("ok")), ("v", v)])
}
fn tag(r: &str) -> J {
    J::obj(vec![("r", J::s(r))])
}
fn guard<T>(f: impl FnOnce() -> T) -> Result<T, J> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| tag("panic"))
}
/// outcome of a function that yields a value or an error
fn outcome<E>(f: impl FnOnce() -> Result<J, E>) -> J {
    match guard(f) {
        Ok(Ok(v)) => ok(v),
        Ok(Err(_)) => tag("err"),
        Err(p) => p,
    }
}
fn total(f: impl FnOnce() -> J) -> J {
    outcome(|| Ok::<J, ()>(f()))
}

// ------------------------------------------------------------------ values of any type
type EncRes = sia::encoding::Result<()>;
trait Val: Send {
    fn abs(&self) -> J;
    fn enc(&self, ver: i64, w: &mut dyn Write) -> EncRes;
    fn same(&self, other: &dyn Val) -> bool;
    fn any(&self) -> &dyn std::any::Any;
}
struct V2Val<T>(T);
struct V1Val<T>(T);
impl<T: Abs + SiaEncodable + PartialEq + Send + 'static> Val for V2Val<T> {
    fn abs(&self) -> J {
        self.0.to_abs()
    }
    fn enc(&self, _: i64, mut w: &mut dyn Write) -> EncRes {
        self.0.encode(&mut w)
    }
    fn same(&self, o: &dyn Val) -> bool {
        o.any().downcast_ref::<Self>().is_some_and(|o| o.0 == self.0)
    }
    fn any(&self) -> &dyn std::any::Any {
        self
    }
}
impl<T: Abs + V1SiaEncodable + PartialEq + Send + 'static> Val for V1Val<T> {
    fn abs(&self) -> J {
        self.0.to_abs()
    }
    fn enc(&self, _: i64, mut w: &mut dyn Write) -> EncRes {
        self.0.encode_v1(&mut w)
    }
    fn same(&self, o: &dyn Val) -> bool {
        o.any().downcast_ref::<Self>().is_some_and(|o| o.0 == self.0)
    }
    fn any(&self) -> &dyn std::any::Any {
        self
    }
}
impl SiaEncodable for Bytes2 {
    fn encode<W: Write>(&self, w: &mut W) -> EncRes {
        self.0 .0.encode(w)
    }
}
impl SiaDecodable for Bytes2 {
    fn decode<R: Read>(r: &mut R) -> sia::encoding::Result<Self> {
        Vec::<u8>::decode(r).map(|b| Bytes2(Bytes(b)))
    }
}
impl V1SiaEncodable for Bytes2 {
    fn encode_v1<W: Write>(&self, w: &mut W) -> EncRes {
        self.0 .0.encode_v1(w)
    }
}
impl V1SiaDecodable for Bytes2 {
    fn decode_v1<R: Read>(r: &mut R) -> sia::encoding::Result<Self> {
        Vec::<u8>::decode_v1(r).map(|b| Bytes2(Bytes(b)))
    }
}
/// a byte string (local, to carry the codec traits)
#[derive(PartialEq)]
struct Bytes2(Bytes);
impl Abs for Bytes2 {
    fn from_abs(v: &J) -> Self {
        Bytes2(Bytes::from_abs(v))
    }
    fn to_abs(&self) -> J {
        self.0.to_abs()
    }
}

/// a list of n equal elements, written and read back: what is seen of it is its shape
fn bulk<V: PartialEq>(v: &V, n: usize, unit: usize, step: usize, enc: impl Fn(&V, &mut Vec<u8>) -> EncRes, dec: impl Fn(&mut Source) -> sia::encoding::Result<V>) -> J {
    let mut out = Vec::new();
    match guard(|| enc(v, &mut out)) {
        Ok(Ok(())) => {}
        Ok(Err(_)) => return tag("err"),
        Err(p) => return p,
    }
    let head = out.len().min(8);
    let rest = &out[head..];
    let first = &rest[..unit.min(rest.len())];
    let alike = rest.chunks(unit.max(1)).all(|x| x == first);
    let (len, head, first) = (out.len(), hex(&out[..head]), hex(first));
    let mut src = Source { b: out, pos: 0, step, fail: -1, mode: "eof".into(), calls: 0 };
    let base = CUR.load(Relaxed);
    PEAK.store(base, Relaxed);
    let r = match guard(|| dec(&mut src)) {
        Ok(Ok(x)) => {
            let peak = PEAK.load(Relaxed).saturating_sub(base).min(1 << 30);
            let same = x == *v;
            J::obj(vec![
                ("r", J::s("ok")),
                ("same", J::Bool(same)),
                ("used", J::n(src.pos)),
                ("peak", J::n(if PARALLEL.load(Relaxed) { 0 } else { peak })),
            ])
        }
        Ok(Err(_)) => tag("err"),
        Err(p) => p,
    };
    J::obj(vec![
        ("r", J::s("ok")),
        ("n", J::n(n)),
        ("len", J::n(len)),
        ("head", J::s(head)),
        ("unit", J::s(first)),
        ("alike", J::Bool(alike)),
        ("dec", r),
    ])
}
/// what the derived codecs make of structures
#[derive(PartialEq, Debug, sia::encoding::SiaEncode, sia::encoding::SiaDecode, sia::encoding::V1SiaEncode, sia::encoding::V1SiaDecode)]
pub struct DerivedTuple(u16, bool, u64, Hash256, Vec<u16>, u8, Option<u64>, i32, String, u32, [u8; 5], i16, Currency);
#[derive(PartialEq, Debug, sia::encoding::SiaEncode, sia::encoding::SiaDecode, sia::encoding::V1SiaEncode, sia::encoding::V1SiaDecode)]
pub struct DerivedUnit;
#[derive(PartialEq, Debug, sia::encoding::SiaEncode, sia::encoding::SiaDecode, sia::encoding::V1SiaEncode, sia::encoding::V1SiaDecode)]
pub struct DerivedNamed {
    pub zeta: DerivedUnit,
    pub alpha: u64,
    pub r#type: Vec<DerivedTuple>,
    pub beta: bool,
    pub alpha2: u8,
    pub gamma: Option<Address>,
}
impl Abs for DerivedTuple {
    fn from_abs(v: &J) -> Self {
        let f = |n: &str| v.get(n);
        DerivedTuple(Abs::from_abs(f("f0")), Abs::from_abs(f("f1")), Abs::from_abs(f("f2")), Abs::from_abs(f("f3")), Abs::from_abs(f("f4")), Abs::from_abs(f("f5")), Abs::from_abs(f("f6")),
            Abs::from_abs(f("f7")), Abs::from_abs(f("f8")), Abs::from_abs(f("f9")), Abs::from_abs(f("f10")), Abs::from_abs(f("f11")), Abs::from_abs(f("f12")))
    }
    fn to_abs(&self) -> J {
        J::obj(vec![("f0", self.0.to_abs()), ("f1", self.1.to_abs()), ("f2", self.2.to_abs()), ("f3", self.3.to_abs()), ("f4", self.4.to_abs()), ("f5", self.5.to_abs()), ("f6", self.6.to_abs()),
            ("f7", self.7.to_abs()), ("f8", self.8.to_abs()), ("f9", self.9.to_abs()), ("f10", self.10.to_abs()), ("f11", self.11.to_abs()), ("f12", self.12.to_abs())])
    }
}
impl Abs for DerivedUnit {
    fn from_abs(_: &J) -> Self {
        DerivedUnit
    }
    fn to_abs(&self) -> J {
        J::Arr(vec![])
    }
}
impl Abs for DerivedNamed {
    fn from_abs(v: &J) -> Self {
        let f = |n: &str| v.get(n);
        DerivedNamed { zeta: DerivedUnit, alpha: Abs::from_abs(f("alpha")), r#type: Abs::from_abs(f("type")), beta: Abs::from_abs(f("beta")), alpha2: Abs::from_abs(f("alpha2")), gamma: Abs::from_abs(f("gamma")) }
    }
    fn to_abs(&self) -> J {
        J::obj(vec![("alpha", self.alpha.to_abs()), ("type", self.r#type.to_abs()), ("beta", self.beta.to_abs()), ("alpha2", self.alpha2.to_abs()), ("gamma", self.gamma.to_abs())])
    }
}
struct Codec {
    mk: fn(&J) -> Box<dyn Val>,
    dec: fn(&mut dyn Read) -> sia::encoding::Result<Box<dyn Val>>,
    bulk: fn(&J, usize, usize, usize) -> J,
}
macro_rules! codecs {
    ($name:ident, $wrap:ident, $enc:ident, $dec:ident, { $($n:literal: $t:ty),* $(,)? }) => {
        fn $name(n: &str) -> Codec {
            match n {
                $($n => Codec {
                    mk: |v| Box::new($wrap(<$t>::from_abs(v))),
                    dec: |mut r| <$t>::$dec(&mut r).map(|x| Box::new($wrap(x)) as Box<dyn Val>),
                    bulk: |v, n, unit, step| {
                        let x: Vec<$t> = (0..n).map(|_| <$t>::from_abs(v)).collect();
                        bulk(&x, n, unit, step, |x, w| x.$enc(w), |r| Vec::<$t>::$dec(r))
                    },
                },)*
                _ => panic!("harness: no codec for {n}"),
            }
        }
    };
}
codecs!(codec2, V2Val, encode, decode, {
    "u8": u8, "bool": bool, "u16": u16, "u32": u32, "u64": u64, "usize": usize, "i16": i16, "i32": i32, "i64": i64,
    "string": String, "bytes": Bytes2, "arr5": [u8; 5], "arr32": [u8; 32], "arr64": [u8; 64],
    "opt_u64": Option<u64>, "vec_u64": Vec<u64>, "vec_opt_u8": Vec<Option<u8>>, "vec_string": Vec<String>,
    "opt_vec_bool": Option<Vec<bool>>, "vec_vec_u16": Vec<Vec<u16>>, "vec_hash": Vec<Hash256>,
    "derived_tuple": DerivedTuple, "derived_named": DerivedNamed,
    "vec_currency": Vec<Currency>, "opt_string": Option<String>, "time": OffsetDateTime, "duration": Duration,
    "Hash256": Hash256, "SiacoinOutputID": SiacoinOutputID, "AttestationID": AttestationID,
    "SiafundOutputID": SiafundOutputID, "BlockID": BlockID, "TransactionID": TransactionID,
    "FileContractID": FileContractID, "Address": Address, "PublicKey": PublicKey, "Signature": Signature,
    "Leaf": Leaf, "Currency": Currency, "Work": Work, "Specifier": Specifier, "ChainIndex": ChainIndex,
    "SiacoinOutput": SiacoinOutput, "SiafundOutput": SiafundOutput, "StateElement": StateElement,
    "UnlockKey": v1::UnlockKey, "UnlockConditions": v1::UnlockConditions, "SpendPolicy": v2::SpendPolicy,
    "SatisfiedPolicy": v2::SatisfiedPolicy, "v2_Attestation": v2::Attestation, "v2_FileContract": v2::FileContract,
    "v2_SiacoinElement": v2::SiacoinElement, "v2_SiafundElement": v2::SiafundElement,
    "v2_FileContractElement": v2::FileContractElement, "v2_ChainIndexElement": v2::ChainIndexElement,
    "v2_SiacoinInput": v2::SiacoinInput, "v2_SiafundInput": v2::SiafundInput,
    "v2_FileContractRevision": v2::FileContractRevision, "v2_FileContractRenewal": v2::FileContractRenewal,
    "v2_StorageProof": v2::StorageProof, "v2_FileContractResolution": v2::FileContractResolution,
    "v2_Transaction": v2::Transaction, "ElementAccumulator": ElementAccumulator, "State": State,
});
codecs!(codec1, V1Val, encode_v1, decode_v1, {
    "u8": u8, "bool": bool, "u16": u16, "u32": u32, "u64": u64, "usize": usize, "i16": i16, "i32": i32, "i64": i64,
    "string": String, "bytes": Bytes2, "arr5": [u8; 5], "arr32": [u8; 32], "arr64": [u8; 64],
    "opt_u64": Option<u64>, "vec_u64": Vec<u64>, "vec_opt_u8": Vec<Option<u8>>, "vec_string": Vec<String>,
    "opt_vec_bool": Option<Vec<bool>>, "vec_vec_u16": Vec<Vec<u16>>, "vec_hash": Vec<Hash256>,
    "vec_currency": Vec<Currency>, "opt_string": Option<String>, "derived_tuple": DerivedTuple,
    "derived_named": DerivedNamed,
    "Hash256": Hash256, "SiacoinOutputID": SiacoinOutputID, "AttestationID": AttestationID,
    "SiafundOutputID": SiafundOutputID, "BlockID": BlockID, "TransactionID": TransactionID,
    "FileContractID": FileContractID, "Address": Address, "Leaf": Leaf, "Currency": Currency, "Work": Work,
    "Specifier": Specifier, "SiacoinOutput": SiacoinOutput, "SiafundOutput": SiafundOutput,
    "UnlockKey": v1::UnlockKey, "UnlockConditions": v1::UnlockConditions, "Block": Block,
    "v1_SiacoinInput": v1::SiacoinInput, "v1_SiafundInput": v1::SiafundInput, "v1_FileContract": v1::FileContract,
    "v1_FileContractRevision": v1::FileContractRevision, "v1_StorageProof": v1::StorageProof,
    "v1_CoveredFields": v1::CoveredFields, "v1_TransactionSignature": v1::TransactionSignature,
    "v1_Transaction": v1::Transaction,
});
fn codec(c: &J) -> Codec {
    if c.get("ver").int() == 2 {
        codec2(c.get("t").str())
    } else {
        codec1(c.get("t").str())
    }
}

// ------------------------------------------------------------------ JSON and text by type
type JsonRes = Result<J, serde_json::Error>;
struct Json {
    ser: fn(&J) -> Result<(String, serde_json::Value), serde_json::Error>,
    de: fn(&str, &str) -> JsonRes,
}
fn ser<T: Abs + serde::Serialize>(v: &J) -> Result<(String, serde_json::Value), serde_json::Error> {
    let x = T::from_abs(v);
    Ok((serde_json::to_string(&x)?, serde_json::to_value(&x)?))
}
fn de<T: Abs + serde::de::DeserializeOwned>(text: &str, via: &str) -> JsonRes {
    let x: T = match via {
        "str" => serde_json::from_str(text)?,
        "slice" => serde_json::from_slice(text.as_bytes())?,
        "reader" => serde_json::from_reader(text.as_bytes())?,
        "value" => serde_json::from_value(serde_json::from_str(text)?)?,
        _ => panic!("harness: via {via}"),
    };
    Ok(x.to_abs())
}
macro_rules! jsons {
    ($($n:literal: $t:ty),* $(,)?) => {
        fn json(n: &str) -> Json {
            match n {
                $($n => Json { ser: ser::<$t>, de: de::<$t> },)*
                _ => panic!("harness: no JSON form for {n}"),
            }
        }
    };
}
jsons! {
    "Hash256": Hash256, "SiacoinOutputID": SiacoinOutputID, "AttestationID": AttestationID,
    "SiafundOutputID": SiafundOutputID, "BlockID": BlockID, "TransactionID": TransactionID,
    "FileContractID": FileContractID, "Address": Address, "PublicKey": PublicKey, "Signature": Signature,
    "Leaf": Leaf, "Currency": Currency, "Work": Work, "ChainIndex": ChainIndex,
    "SiacoinOutput": SiacoinOutput, "SiafundOutput": SiafundOutput, "StateElement": StateElement,
    "UnlockKey": v1::UnlockKey, "UnlockConditions": v1::UnlockConditions, "SpendPolicy": v2::SpendPolicy,
    "SatisfiedPolicy": v2::SatisfiedPolicy, "v2_Attestation": v2::Attestation, "v2_FileContract": v2::FileContract,
    "v2_SiacoinElement": v2::SiacoinElement, "v2_SiafundElement": v2::SiafundElement,
    "v2_FileContractElement": v2::FileContractElement, "v2_ChainIndexElement": v2::ChainIndexElement,
    "v2_SiacoinInput": v2::SiacoinInput, "v2_SiafundInput": v2::SiafundInput,
    "v2_FileContractRevision": v2::FileContractRevision, "v2_FileContractRenewal": v2::FileContractRenewal,
    "v2_StorageProof": v2::StorageProof, "v2_FileContractResolution": v2::FileContractResolution,
    "v2_Transaction": v2::Transaction, "ElementAccumulator": ElementAccumulator, "State": State,
    "Block": Block, "v1_SiacoinInput": v1::SiacoinInput, "v1_SiafundInput": v1::SiafundInput,
    "v1_FileContract": v1::FileContract, "v1_FileContractRevision": v1::FileContractRevision,
    "v1_StorageProof": v1::StorageProof, "v1_CoveredFields": v1::CoveredFields,
    "v1_TransactionSignature": v1::TransactionSignature, "v1_Transaction": v1::Transaction,
    "HardforkDevAddr": HardforkDevAddr, "HardforkTax": HardforkTax, "HardforkStorageProof": HardforkStorageProof,
    "HardforkOak": HardforkOak, "HardforkASIC": HardforkASIC, "HardforkFoundation": HardforkFoundation,
    "HardforkV2": HardforkV2, "Network": Network, "ChainState": ChainState,
}

/// documents of the specification: {k, v|e|m}, with texts in hex
fn doc_of(v: &J) -> J {
    match v {
        J::Null => J::obj(vec![("k", J::s("z"))]),
        J::Bool(b) => J::obj(vec![("k", J::s("b")), ("v", J::Bool(*b))]),
        J::Num(n) => J::obj(vec![("k", J::s("n")), ("v", J::s(n.clone()))]),
        J::Str(s) => J::obj(vec![("k", J::s("s")), ("v", J::s(hex(s.as_bytes())))]),
        J::Arr(a) => J::obj(vec![("k", J::s("a")), ("e", J::Arr(a.iter().map(doc_of).collect()))]),
        J::Obj(m) => J::obj(vec![
            ("k", J::s("o")),
            ("m", J::Arr(m.iter().map(|(k, v)| J::Arr(vec![J::s(hex(k.as_bytes())), doc_of(v)])).collect())),
        ]),
    }
}
/// the text of a document of the specification; esc writes every character of a string as an escape
fn doc_text(d: &J, esc: bool, out: &mut String) {
    let text = |h: &J| String::from_utf8(unhex(h.str())).expect("harness: document text is not UTF-8");
    match d.get("k").str() {
        "z" => out.push_str("null"),
        "b" => out.push_str(if d.get("v").bool() { "true" } else { "false" }),
        "n" => out.push_str(d.get("v").str()),
        "s" => j::quote(&text(d.get("v")), out, esc),
        "a" => {
            out.push('[');
            for (i, x) in d.get("e").arr().iter().enumerate() {
                if i > 0 {
                    out.push_str(if esc { " ,\n" } else { "," })
                }
                doc_text(x, esc, out);
            }
            out.push(']');
        }
        "o" => {
            out.push('{');
            for (i, m) in d.get("m").arr().iter().enumerate() {
                if i > 0 {
                    out.push(',')
                }
                j::quote(&text(&m.arr()[0]), out, esc);
                out.push_str(if esc { "\t: " } else { ":" });
                doc_text(&m.arr()[1], esc, out);
            }
            out.push('}');
        }
        k => panic!("harness: document {k}"),
    }
}

fn show<T: Abs + std::fmt::Display>(v: &J) -> J {
    let x = T::from_abs(v);
    outcome(|| {
        let mut s = String::new();
        write!(s, "{}", x).map(|_| J::s(hex(s.as_bytes())))
    })
}
fn display(n: &str, v: &J) -> J {
    match n {
        "Hash256" => show::<Hash256>(v),
        "SiacoinOutputID" => show::<SiacoinOutputID>(v),
        "AttestationID" => show::<AttestationID>(v),
        "SiafundOutputID" => show::<SiafundOutputID>(v),
        "BlockID" => show::<BlockID>(v),
        "TransactionID" => show::<TransactionID>(v),
        "FileContractID" => show::<FileContractID>(v),
        "Address" => show::<Address>(v),
        "PublicKey" => show::<PublicKey>(v),
        "Signature" => show::<Signature>(v),
        "Leaf" => show::<Leaf>(v),
        "UnlockKey" => show::<v1::UnlockKey>(v),
        "ChainIndex" => show::<ChainIndex>(v),
        "Specifier" => show::<Specifier>(v),
        "Work" => show::<Work>(v),
        "Currency" => {
            let x = Currency::from_abs(v);
            total(|| J::s(hex((*x).to_string().as_bytes())))
        }
        _ => panic!("harness: no display of {n}"),
    }
}
fn parse_text(n: &str, s: &str) -> J {
    macro_rules! p {
        ($t:ty) => {
            outcome(|| <$t>::parse_string(s).map(|x| x.to_abs()))
        };
    }
    match n {
        "Hash256" => p!(Hash256),
        "SiacoinOutputID" => p!(SiacoinOutputID),
        "AttestationID" => p!(AttestationID),
        "SiafundOutputID" => p!(SiafundOutputID),
        "BlockID" => p!(BlockID),
        "TransactionID" => p!(TransactionID),
        "FileContractID" => p!(FileContractID),
        "Address" => p!(Address),
        "Signature" => p!(Signature),
        "Leaf" => p!(Leaf),
        "UnlockKey" => p!(v1::UnlockKey),
        "Currency" => p!(Currency),
        // a public key is parsed through its JSON form only
        "PublicKey" => outcome(|| {
            serde_json::from_value::<PublicKey>(serde_json::Value::String(s.to_string())).map(|x| x.to_abs())
        }),
        _ => panic!("harness: no parser of {n}"),
    }
}

// ------------------------------------------------------------------ values as such
struct Probe<'a, T>(&'a T);
trait Copies {
    fn copy(&self) -> Option<J>;
}
trait CopiesNot {
    fn copy(&self) -> Option<J>;
}
impl<T: Abs + Clone + PartialEq> Copies for &Probe<'_, T> {
    fn copy(&self) -> Option<J> {
        let mut y = self.0.clone();
        let equal = y == *self.0;
        let first = y.to_abs();
        // a copy into a place that holds something else
        y.clone_from(self.0);
        Some(J::obj(vec![("v", first), ("equal", J::Bool(equal)), ("again", y.to_abs())]))
    }
}
impl<T> CopiesNot for Probe<'_, T> {
    fn copy(&self) -> Option<J> {
        None
    }
}
struct Blank<T>(std::marker::PhantomData<T>);
trait Blanks {
    fn blank(&self) -> Option<J>;
}
trait BlanksNot {
    fn blank(&self) -> Option<J>;
}
impl<T: Abs + Default> Blanks for &Blank<T> {
    fn blank(&self) -> Option<J> {
        Some(T::default().to_abs())
    }
}
impl<T> BlanksNot for Blank<T> {
    fn blank(&self) -> Option<J> {
        None
    }
}
fn maybe(r: Option<J>) -> J {
    r.map_or_else(|| tag("none"), ok)
}
#[allow(clippy::needless_borrow)]
fn same(t: &str, a: &J, b: &J) -> J {
    macro_rules! values {
        ($($n:literal: $t:ty),* $(,)?) => {
            match t {
                $($n => total(|| {
                    let (x, y) = (<$t>::from_abs(a), <$t>::from_abs(b));
                    let copy = (&&Probe(&x)).copy();
                    J::obj(vec![
                        ("eq", J::Bool(x == y)), ("ne", J::Bool(x != y)),
                        ("sym", J::Bool(y == x)), ("symne", J::Bool(y != x)),
                        ("self", J::Bool(#[allow(clippy::eq_op)] { x == x && y == y })),
                        ("a", x.to_abs()), ("b", y.to_abs()),
                        ("copy", maybe(copy)),
                        ("blank", maybe((&&Blank::<$t>(std::marker::PhantomData)).blank())),
                    ])
                }),)*
                _ => panic!("harness: no values of {t}"),
            }
        };
    }
    values! {
        "Hash256": Hash256, "SiacoinOutputID": SiacoinOutputID, "AttestationID": AttestationID,
        "SiafundOutputID": SiafundOutputID, "BlockID": BlockID, "TransactionID": TransactionID,
        "FileContractID": FileContractID, "Address": Address, "PublicKey": PublicKey, "Signature": Signature,
        "Leaf": Leaf, "Currency": Currency, "Work": Work, "Specifier": Specifier, "ChainIndex": ChainIndex,
        "SiacoinOutput": SiacoinOutput, "SiafundOutput": SiafundOutput, "StateElement": StateElement,
        "UnlockKey": v1::UnlockKey, "UnlockConditions": v1::UnlockConditions, "SpendPolicy": v2::SpendPolicy,
        "SatisfiedPolicy": v2::SatisfiedPolicy, "v2_Attestation": v2::Attestation, "v2_FileContract": v2::FileContract,
        "v2_SiacoinElement": v2::SiacoinElement, "v2_SiafundElement": v2::SiafundElement,
        "v2_FileContractElement": v2::FileContractElement, "v2_ChainIndexElement": v2::ChainIndexElement,
        "v2_SiacoinInput": v2::SiacoinInput, "v2_SiafundInput": v2::SiafundInput,
        "v2_FileContractRevision": v2::FileContractRevision, "v2_FileContractRenewal": v2::FileContractRenewal,
        "v2_StorageProof": v2::StorageProof, "v2_FileContractResolution": v2::FileContractResolution,
        "v2_Transaction": v2::Transaction, "ElementAccumulator": ElementAccumulator, "State": State,
        "Block": Block, "v1_SiacoinInput": v1::SiacoinInput, "v1_SiafundInput": v1::SiafundInput,
        "v1_FileContract": v1::FileContract, "v1_FileContractRevision": v1::FileContractRevision,
        "v1_StorageProof": v1::StorageProof, "v1_CoveredFields": v1::CoveredFields,
        "v1_TransactionSignature": v1::TransactionSignature, "v1_Transaction": v1::Transaction,
        "HardforkDevAddr": HardforkDevAddr, "HardforkTax": HardforkTax, "HardforkStorageProof": HardforkStorageProof,
        "HardforkOak": HardforkOak, "HardforkASIC": HardforkASIC, "HardforkFoundation": HardforkFoundation,
        "HardforkV2": HardforkV2, "Network": Network, "ChainState": ChainState,
    }
}

/// the bytes that are seen of a value made of bytes b, by every way of making it and of looking at it
fn convert(t: &str, b: &[u8]) -> J {
    let mut seen: Vec<(&str, J)> = Vec::new();
    fn bytes(b: &[u8]) -> J {
        J::s(hex(b))
    }
    macro_rules! id {
        ($t:ty) => {{
            let a: [u8; 32] = b.try_into().expect("harness: 32 bytes");
            let x = <$t>::new(a);
            let r: &[u8; 32] = x.as_ref();
            seen.push(("new/array", bytes(r)));
            let r: &[u8] = x.as_ref();
            seen.push(("new/slice", bytes(r)));
            seen.push(("new/into", bytes(&<[u8; 32]>::from(x))));
            let y = <$t>::from(a);
            seen.push(("from/into", bytes(&<[u8; 32]>::from(y))));
            seen.push(("from/display", bytes(&unhex(&y.to_string()))));
        }};
    }
    total(|| {
        match t {
            "Hash256" => id!(Hash256),
            "SiacoinOutputID" => id!(SiacoinOutputID),
            "AttestationID" => id!(AttestationID),
            "SiafundOutputID" => id!(SiafundOutputID),
            "BlockID" => id!(BlockID),
            "TransactionID" => id!(TransactionID),
            "FileContractID" => id!(FileContractID),
            "Address" => {
                let a: [u8; 32] = b.try_into().expect("harness: 32 bytes");
                seen.push(("new", bytes(Address::new(a).as_ref())));
                seen.push(("array", bytes(Address::from(a).as_ref())));
                seen.push(("slice", bytes(Address::from(b).as_ref())));
                seen.push(("raw", bytes(&raw::<_, 32>(&Address::new(a)))));
            }
            "PublicKey" => {
                let a: [u8; 32] = b.try_into().expect("harness: 32 bytes");
                let k = PublicKey::new(a);
                seen.push(("slice", bytes(k.as_ref())));
                let u = v1::UnlockKey::from(k);
                seen.push(("unlock", bytes(&u.key)));
                let z: [u8; 16] = *u.algorithm.as_bytes();
                assert!(&z[..7] == b"ed25519" && z[7..] == [0; 9], "another algorithm");
            }
            "Signature" => {
                let a: [u8; 64] = b.try_into().expect("harness: 64 bytes");
                let r: &[u8; 64] = &Signature::new(a).as_ref().to_owned();
                seen.push(("new", bytes(r)));
                seen.push(("data", bytes(Signature::new(a).data())));
                seen.push(("from", bytes(Signature::from(a).data())));
            }
            "Leaf" => {
                let a: [u8; 64] = b.try_into().expect("harness: 64 bytes");
                seen.push(("from", bytes(&raw::<_, 64>(&Leaf::from(a)))));
            }
            "Specifier" => {
                let a: [u8; 16] = b.try_into().expect("harness: 16 bytes");
                seen.push(("new", bytes(Specifier::new(a).as_bytes())));
            }
            "Work" => {
                let a: [u8; 32] = b.try_into().expect("harness: 32 bytes");
                seen.push(("from", Work::from(&a).to_abs()));
            }
            "Currency" => {
                let n = u128::from_be_bytes(b.try_into().expect("harness: 16 bytes"));
                let mut x = Currency::new(n);
                seen.push(("deref", bytes(&(*x).to_be_bytes())));
                *x = n;
                seen.push(("assigned", x.to_abs()));
                let mut y = Currency::new(!n);
                *y = n;
                seen.push(("replaced", y.to_abs()));
            }
            "PrivateKey" => {
                let a: [u8; 64] = b.try_into().expect("harness: 64 bytes");
                let k = PrivateKey::from(a);
                seen.push(("from", bytes(k.as_bytes())));
                seen.push(("clone", bytes(k.clone().as_bytes())));
                seen.push(("public", bytes(&[&b[..32], k.public_key().as_ref()].concat())));
            }
            "Seed" => {
                let a: [u8; 16] = b.try_into().expect("harness: 16 bytes");
                seen.push(("new", bytes(Seed::new(a).as_bytes())));
            }
            t => panic!("harness: no conversions of {t}"),
        }
        J::obj(std::mem::take(&mut seen))
    })
}

/// a policy by its constructors
fn make(v: &J) -> v2::SpendPolicy {
    use v2::SpendPolicy as P;
    let x = || v.get("v");
    match v.get("k").str() {
        "above" => P::above(Abs::from_abs(x())),
        "after" => P::after(Abs::from_abs(x())),
        "pk" => P::public_key(Abs::from_abs(x())),
        "h" => P::hash(Abs::from_abs(x())),
        "opaque" => P::Opaque(Abs::from_abs(x())),
        "thresh" => P::threshold(Abs::from_abs(v.get("n")), v.get("of").arr().iter().map(make).collect()),
        "uc" => {
            let u = v1::UnlockConditions::from_abs(x());
            P::unlock_conditions(v1::UnlockConditions::new(u.timelock, u.public_keys, u.signatures_required))
        }
        k => panic!("harness: policy {k}"),
    }
}

// ------------------------------------------------------------------ faulty writers and readers
/// accepts `limit` bytes (negative: all), a few at a time and now and then interrupted, then fails
struct Sink {
    got: Vec<u8>,
    limit: i64,
    step: usize,
    mode: String,
    calls: usize,
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.step > 0 && self.calls % 3 == 0 {
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        let mut n = b.len();
        if self.step > 0 {
            n = n.min(self.step)
        }
        if self.limit >= 0 {
            let room = self.limit as usize - self.got.len();
            if room == 0 && n > 0 {
                return match self.mode.as_str() {
                    "zero" => Ok(0),
                    "full" => Err(io::Error::from(io::ErrorKind::StorageFull)),
                    "eof" => Err(io::Error::from(io::ErrorKind::UnexpectedEof)),
                    _ => Err(io::Error::other("sink failed")),
                };
            }
            n = n.min(room);
        }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
/// yields `b` in chunks, interrupting now and then, failing (or ending) after `fail` bytes
struct Source {
    b: Vec<u8>,
    pos: usize,
    step: usize,
    fail: i64,
    mode: String,
    calls: usize,
}
impl Read for Source {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if out.is_empty() {
            return Ok(0);
        }
        if self.step > 0 && self.calls % 4 == 0 {
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        let end = if self.fail >= 0 { self.b.len().min(self.fail as usize) } else { self.b.len() };
        if self.pos == end && self.fail >= 0 && self.mode != "eof" {
            return Err(match self.mode.as_str() {
                "wouldblock" => io::Error::from(io::ErrorKind::WouldBlock),
                "badeof" => io::Error::from(io::ErrorKind::UnexpectedEof),
                _ => io::Error::other("source failed"),
            });
        }
        let mut n = out.len().min(end - self.pos);
        if self.step > 0 {
            n = n.min(1 + (self.calls * 7 + self.step) % self.step)
        }
        out[..n].copy_from_slice(&self.b[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

const DECODE_STACK: usize = 8 << 20;
/// several sessions run at once: memory in use cannot be told apart
static PARALLEL: AtomicBool = AtomicBool::new(false);
/// decode, measuring the memory in use
fn decode(c: &J, mut src: Source) -> (Result<Box<dyn Val>, J>, usize, usize) {
    let cd = codec(c);
    let base = CUR.load(Relaxed);
    PEAK.store(base, Relaxed);
    let r = match guard(|| (cd.dec)(&mut src)) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => {
            drop(e);
            Err(tag("err"))
        }
        Err(p) => Err(p),
    };
    let peak = PEAK.load(Relaxed).saturating_sub(base).min(1 << 30);
    (r, src.pos, if PARALLEL.load(Relaxed) { 0 } else { peak })
}
/// decode on a thread with an ordinary stack
fn decode_shallow(c: &J, src: Source) -> (Result<Box<dyn Val>, J>, usize, usize) {
    let c = c.clone();
    std::thread::Builder::new().stack_size(DECODE_STACK).spawn(move || decode(&c, src)).unwrap().join().expect("harness: decode thread")
}
fn opt_int(c: &J, k: &str, d: i64) -> i64 {
    c.find(k).map_or(d, |x| x.int())
}
fn opt_str<'a>(c: &'a J, k: &str, d: &'a str) -> &'a str {
    c.find(k).map_or(d, |x| x.str())
}
fn source(c: &J, b: Vec<u8>) -> Source {
    Source {
        b,
        pos: 0,
        step: opt_int(c, "step", 0) as usize,
        fail: opt_int(c, "fail", -1),
        mode: opt_str(c, "mode", "eof").to_string(),
        calls: 0,
    }
}

// ------------------------------------------------------------------ the interpreter's own state
#[derive(Default)]
struct Session {
    chain: Option<ChainState>,
    stream: Vec<u8>,
    sent: Vec<Box<dyn Val>>,
    txn1: HashMap<String, Box<v1::Transaction>>,
    txn2: HashMap<String, Box<v2::Transaction>>,
    abs: HashMap<String, J>,
    seeds: HashMap<String, Box<Seed>>,
    keys: HashMap<String, Box<PrivateKey>>,
    pools: HashMap<usize, rayon::ThreadPool>,
}

fn u64_of(v: &J) -> u64 {
    Abs::from_abs(v)
}
/// set the part of an abstract value at a path of member names and (1-based) positions
fn set_path(x: &mut J, path: &[J], v: &J) {
    match path.split_first() {
        None => *x = v.clone(),
        Some((h, rest)) => match (x, h) {
            (J::Obj(m), J::Str(k)) => {
                let e = m.iter_mut().find(|(n, _)| n == k).expect("harness: path");
                set_path(&mut e.1, rest, v)
            }
            (J::Arr(a), J::Num(i)) => set_path(&mut a[i.parse::<usize>().unwrap() - 1], rest, v),
            (x, h) => panic!("harness: path {h:?} of {x:?}"),
        },
    }
}

fn sector_bytes(s: &J) -> Vec<u8> {
    let n = sia::rhp::SECTOR_SIZE;
    let v = unhex(s.get("v").str());
    let mut b = vec![0u8; n];
    match s.get("fill").str() {
        "const" => b.fill(v[0]),
        "gen" => {
            for i in 0..(n / 32) as u64 {
                let mut m = v.clone();
                m.extend_from_slice(&i.to_le_bytes());
                b[32 * i as usize..32 * (i as usize + 1)].copy_from_slice(&blake2b(&m));
            }
        }
        k => panic!("harness: fill {k}"),
    }
    for e in s.get("edits").arr() {
        let i = e.arr()[0].int() as usize;
        b[64 * i..64 * (i + 1)].copy_from_slice(&unhex(e.arr()[1].str()));
    }
    b
}
fn blake2b(m: &[u8]) -> [u8; 32] {
    let h = blake2b_simd::Params::new().hash_length(32).hash(m);
    h.as_bytes().try_into().unwrap()
}

impl Session {
    fn chain(&self) -> &ChainState {
        self.chain.as_ref().expect("harness: no chain")
    }
    fn t1(&self, c: &J) -> &v1::Transaction {
        self.txn1.get(c.get("x").str()).expect("harness: no v1 transaction")
    }
    fn t2(&self, c: &J) -> &v2::Transaction {
        self.txn2.get(c.get("x").str()).expect("harness: no v2 transaction")
    }
    fn install(&mut self, name: &str, ty: &str, v: &J) {
        self.abs.insert(name.to_string(), v.clone());
        match ty {
            "v1_Transaction" => {
                let x = v1::Transaction::from_abs(v);
                match self.txn1.get_mut(name) {
                    Some(b) => **b = x, // in place
                    None => {
                        self.txn1.insert(name.to_string(), Box::new(x));
                    }
                }
            }
            "v2_Transaction" => {
                let x = v2::Transaction::from_abs(v);
                match self.txn2.get_mut(name) {
                    Some(b) => **b = x,
                    None => {
                        self.txn2.insert(name.to_string(), Box::new(x));
                    }
                }
            }
            t => panic!("harness: no slots of {t}"),
        }
    }
    fn seed(&self, c: &J) -> &Seed {
        self.seeds.get(c.get("s").str()).expect("harness: no seed")
    }
    fn key(&self, c: &J) -> &PrivateKey {
        self.keys.get(c.get("key").str()).expect("harness: no key")
    }

    fn run(&mut self, c: &J) -> J {
        let t = || c.get("t").str();
        match c.get("op").str() {
            "reset" => {
                *self = Session { pools: std::mem::take(&mut self.pools), ..Session::default() };
                tag("ok")
            }
            // ---------------------------------------------------------- codecs
            "enc" => {
                let x = (codec(c).mk)(c.get("v"));
                let ver = c.get("ver").int();
                outcome(|| {
                    let mut b = Vec::new();
                    x.enc(ver, &mut b).map(|_| J::s(hex(&b)))
                })
            }
            "encf" => {
                let x = (codec(c).mk)(c.get("v"));
                let mut w = Sink {
                    got: Vec::new(),
                    limit: opt_int(c, "limit", -1),
                    step: opt_int(c, "step", 0) as usize,
                    mode: opt_str(c, "mode", "err").to_string(),
                    calls: 0,
                };
                let ver = c.get("ver").int();
                let r = match guard(|| x.enc(ver, &mut w)) {
                    Ok(Ok(())) => "ok",
                    Ok(Err(_)) => "err",
                    Err(_) => "panic",
                };
                J::obj(vec![("r", J::s(r)), ("w", J::s(hex(&w.got)))])
            }
            "dec" | "decf" => {
                let b = unhex(c.get("b").str());
                let (r, used, peak) = decode(c, source(c, b));
                match r {
                    Ok(v) => J::obj(vec![("r", J::s("ok")), ("v", v.abs()), ("used", J::n(used)), ("peak", J::n(peak))]),
                    Err(J::Obj(mut m)) => {
                        m.push(("used".into(), J::n(used)));
                        m.push(("peak".into(), J::n(peak)));
                        J::Obj(m)
                    }
                    Err(_) => unreachable!(),
                }
            }
            // decode and encode again: values too deep to write down
            "redec" => {
                let b = unhex(c.get("b").str());
                let ver = c.get("ver").int();
                let (r, used, peak) = decode_shallow(c, source(c, b));
                let mut m = match r {
                    Ok(v) => {
                        let e = outcome(|| {
                            let mut b = Vec::new();
                            v.enc(ver, &mut b).map(|_| J::s(hex(&b)))
                        });
                        vec![("r".to_string(), J::s("ok")), ("enc".to_string(), e)]
                    }
                    Err(J::Obj(m)) => m,
                    Err(_) => unreachable!(),
                };
                m.push(("used".into(), J::n(used)));
                m.push(("peak".into(), J::n(peak)));
                J::Obj(m)
            }
            "bulk" => {
                let n = c.get("n").int() as usize;
                let (v, unit, step) = (c.get("v"), c.get("unit").int() as usize, opt_int(c, "step", 0) as usize);
                macro_rules! many {
                    ($t:ty) => {{
                        let x = vec![<$t>::from_abs(v); n];
                        if c.get("ver").int() == 2 {
                            bulk(&x, n, unit, step, |x, w| x.encode(w), |r| Vec::<$t>::decode(r))
                        } else {
                            bulk(&x, n, unit, step, |x, w| x.encode_v1(w), |r| Vec::<$t>::decode_v1(r))
                        }
                    }};
                }
                if t() == "u8" {
                    many!(u8)
                } else if t() == "u64" {
                    many!(u64)
                } else if t() == "Hash256" {
                    many!(Hash256)
                } else if t() == "string" {
                    let x = String::from_utf8(unhex(v.str())).expect("harness: text is not UTF-8").repeat(n);
                    if c.get("ver").int() == 2 {
                        bulk(&x, n, unit, step, |x, w| x.encode(w), |r| String::decode(r))
                    } else {
                        bulk(&x, n, unit, step, |x, w| x.encode_v1(w), |r| String::decode_v1(r))
                    }
                } else {
                    (codec(c).bulk)(v, n, unit, step)
                }
            }
            "put" => {
                let x = (codec(c).mk)(c.get("v"));
                let ver = c.get("ver").int();
                let at = self.stream.len();
                let stream = &mut self.stream;
                match guard(|| x.enc(ver, stream)) {
                    Ok(Ok(())) => {
                        let n = self.stream.len() - at;
                        self.sent.push(x);
                        J::obj(vec![("r", J::s("ok")), ("n", J::n(n))])
                    }
                    Ok(Err(_)) => tag("err"),
                    Err(p) => p,
                }
            }
            "get" => {
                let b = std::mem::take(&mut self.stream);
                let (r, used, _) = decode(c, source(c, b.clone()));
                self.stream = b[used..].to_vec();
                match r {
                    Ok(v) => {
                        let same = !self.sent.is_empty() && v.same(&*self.sent.remove(0));
                        J::obj(vec![("r", J::s("ok")), ("v", v.abs()), ("used", J::n(used)), ("same", J::Bool(same))])
                    }
                    Err(e) => e,
                }
            }
            // ---------------------------------------------------------- JSON
            "tojson" => {
                let f = json(t()).ser;
                match guard(|| f(c.get("v"))) {
                    Ok(Ok((text, value))) => match j::parse(&text) {
                        Ok(d) => {
                            let agree = j::parse(&value.to_string()).is_ok_and(|d2| d2.sorted() == d.sorted());
                            J::obj(vec![("r", J::s("ok")), ("d", doc_of(&d)), ("agree", J::Bool(agree))])
                        }
                        Err(e) => J::obj(vec![("r", J::s("notjson")), ("why", J::s(e))]),
                    },
                    Ok(Err(_)) => tag("err"),
                    Err(p) => p,
                }
            }
            "fromjson" => {
                let mut text = String::new();
                doc_text(c.get("d"), c.find("esc").is_some_and(|x| x.bool()), &mut text);
                let f = json(t()).de;
                outcome(|| f(&text, opt_str(c, "via", "str")))
            }
            "jsontext" => {
                let b = unhex(c.get("b").str());
                let f = json(t()).de;
                match String::from_utf8(b) {
                    Ok(s) => match guard(|| f(&s, opt_str(c, "via", "str"))) {
                        Ok(Ok(_)) => tag("ok"),
                        Ok(Err(_)) => tag("err"),
                        Err(p) => p,
                    },
                    Err(_) => tag("err"),
                }
            }
            // ---------------------------------------------------------- text
            "display" => display(t(), c.get("v")),
            "parse" => {
                let s = String::from_utf8(unhex(c.get("b").str())).expect("harness: text is not UTF-8");
                parse_text(t(), &s)
            }
            "literals" => literals(),
            "literal" => {
                let s = unhex(c.get("b").str());
                total(|| J::s(hex(&sia::macros::decode_hex_256(&s))))
            }
            // ---------------------------------------------------------- chain
            "chain" => {
                self.chain = Some(ChainState::from_abs(c.get("cs")));
                tag("ok")
            }
            "height" => {
                self.chain.as_mut().unwrap().state.index.height = u64_of(c.get("h"));
                tag("ok")
            }
            "params" => {
                let cs = self.chain();
                let p = |f: &dyn Fn() -> J| total(f);
                J::obj(vec![
                    ("childHeight", p(&|| cs.child_height().to_abs())),
                    ("indexChild", p(&|| cs.state.index.child_height().to_abs())),
                    ("reward", p(&|| cs.block_reward().to_abs())),
                    ("maturity", p(&|| cs.maturity_height().to_abs())),
                    ("nonce", p(&|| cs.nonce_factor().to_abs())),
                    ("prefix", p(&|| J::s(hex(cs.replay_prefix())))),
                    ("siafunds", p(&|| cs.siafund_count().to_abs())),
                    ("ancestorDepth", p(&|| cs.ancestor_depth().to_abs())),
                    ("maxWeight", p(&|| cs.max_block_weight().to_abs())),
                ])
            }
            "subsidy" => {
                let cs = self.chain();
                J::obj(vec![
                    ("due", total(|| cs.foundation_subsidy().to_abs())),
                    ("month", total(|| cs.blocks_per_month().to_abs())),
                ])
            }
            "tax1" => {
                let x = v1::FileContract::from_abs(c.get("v"));
                total(|| x.tax(self.chain()).to_abs())
            }
            "tax2" => {
                let x = v2::FileContract::from_abs(c.get("v"));
                total(|| x.tax(self.chain()).to_abs())
            }
            "network" => {
                let n = opt_str(c, "name", "");
                total(|| match n {
                    "mainnet" => Network::mainnet().to_abs(),
                    "zen" => Network::zen().to_abs(),
                    "anagami" => Network::anagami().to_abs(),
                    n => panic!("harness: network {n}"),
                })
            }
            // ---------------------------------------------------------- transactions
            "let" => {
                self.install(c.get("x").str(), t(), c.get("v"));
                tag("ok")
            }
            "set" => {
                let name = c.get("x").str();
                let mut v = self.abs.get(name).expect("harness: no slot").clone();
                set_path(&mut v, c.get("path").arr(), c.get("v"));
                let ty = if self.txn1.contains_key(name) { "v1_Transaction" } else { "v2_Transaction" };
                self.install(name, ty, &v);
                tag("ok")
            }
            "id1" => {
                let x = self.t1(c);
                total(|| x.id().to_abs())
            }
            "child1" => {
                let x = self.t1(c);
                let i = u64_of(c.get("i")) as usize;
                total(|| match c.get("kind").str() {
                    "siacoin" => x.siacoin_output_id(i).to_abs(),
                    "siafund" => x.siafund_output_id(i).to_abs(),
                    "contract" => x.file_contract_id(i).to_abs(),
                    k => panic!("harness: kind {k}"),
                })
            }
            "nosigs" => {
                let x = self.t1(c);
                outcome(|| {
                    let mut b = Vec::new();
                    x.encode_no_sigs(&mut b).map(|_| J::s(hex(&b)))
                })
            }
            "semantics" => {
                let x = v2::ChainIndexElement::from_abs(c.get("v"));
                outcome(|| {
                    let mut b = Vec::new();
                    x.encode_semantics(&mut b).map(|_| J::s(hex(&b)))
                })
            }
            "allfields" => total(|| v1::CoveredFields::whole_transaction().to_abs()),
            "specifier" => {
                let s = String::from_utf8(unhex(c.get("b").str())).expect("harness: text is not UTF-8");
                total(|| Specifier::from(s.as_str()).to_abs())
            }
            "whole" => {
                let x = self.t1(c);
                let p = Hash256::from_abs(c.get("parent"));
                outcome(|| {
                    x.whole_sig_hash(self.chain(), &p, u64_of(c.get("key")), u64_of(c.get("timelock")))
                        .map(|h| h.to_abs())
                })
            }
            "partial" => {
                let x = self.t1(c);
                let f = v1::CoveredFields::from_abs(c.get("covered"));
                outcome(|| x.partial_sig_hash(self.chain(), &f).map(|h| h.to_abs()))
            }
            "id2" => {
                let x = self.t2(c);
                total(|| x.id().to_abs())
            }
            "sig2" => {
                let cs = self.chain();
                match c.get("kind").str() {
                    "input" => {
                        let x = self.t2(c);
                        total(|| x.input_sig_hash(cs).to_abs())
                    }
                    "contract" => {
                        let x = v2::FileContract::from_abs(c.get("v"));
                        total(|| x.sig_hash(cs).to_abs())
                    }
                    "renewal" => {
                        let x = v2::FileContractRenewal::from_abs(c.get("v"));
                        total(|| x.sig_hash(cs).to_abs())
                    }
                    "attestation" => {
                        let x = v2::Attestation::from_abs(c.get("v"));
                        total(|| x.sig_hash(cs).to_abs())
                    }
                    k => panic!("harness: kind {k}"),
                }
            }
            "derive" => derive(c),
            // ---------------------------------------------------------- addresses and sectors
            "ucaddr" => {
                let x = v1::UnlockConditions::from_abs(c.get("v"));
                total(|| x.address().to_abs())
            }
            "standard" => {
                let x = PublicKey::from_abs(c.get("v"));
                total(|| {
                    let uc = v1::UnlockConditions::standard_unlock_conditions(x);
                    J::obj(vec![("uc", uc.to_abs()), ("address", uc.address().to_abs())])
                })
            }
            "poladdr" => {
                let x = v2::SpendPolicy::from_abs(c.get("v"));
                total(|| x.address().to_abs())
            }
            "sector" => {
                let b = sector_bytes(c.get("sector"));
                let n = c.get("threads").int() as usize;
                let times = opt_int(c, "times", 1);
                let pool = self.pools.entry(n).or_insert_with(|| {
                    rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap()
                });
                // several at once in the same pool
                let out: Vec<_> = pool.install(|| {
                    use rayon::prelude::*;
                    let one = || total(|| sia::rhp::sector_root(&b).to_abs());
                    if c.find("together").is_some_and(|x| x.bool()) {
                        (0..times).into_par_iter().map(|_| one()).collect()
                    } else {
                        (0..times).map(|_| one()).collect()
                    }
                });
                let mut distinct: Vec<J> = Vec::new();
                for o in out {
                    if !distinct.contains(&o) {
                        distinct.push(o)
                    }
                }
                J::Arr(distinct)
            }
            // ---------------------------------------------------------- values as such
            "same" => same(t(), c.get("a"), c.get("b")),
            "convert" => convert(t(), &unhex(c.get("b").str())),
            "make" => total(|| {
                let p = make(c.get("v"));
                J::obj(vec![("v", p.to_abs()), ("address", p.address().to_abs())])
            }),
            "samekey" => {
                let k = |n: &str| self.keys.get(c.get(n).str()).expect("harness: no key");
                let (a, b) = (k("a"), k("b"));
                total(|| {
                    J::obj(vec![
                        ("eq", J::Bool(a == b)),
                        ("ne", J::Bool(a != b)),
                        ("clone", J::Bool(a.clone() == *b)),
                        ("public", J::Bool(a.public_key() == b.public_key())),
                    ])
                })
            }
            // ---------------------------------------------------------- money
            "curop" => curop(c),
            "cursum" => {
                let v: Vec<Currency> = Abs::from_abs(c.get("s"));
                total(|| v.into_iter().sum::<Currency>().to_abs())
            }
            "curcmp" => {
                let (a, b) = (Currency::from_abs(c.get("a")), Currency::from_abs(c.get("b")));
                total(|| {
                    use std::cmp::Ordering::*;
                    let o = match a.cmp(&b) {
                        Less => -1,
                        Equal => 0,
                        Greater => 1,
                    };
                    let consistent = a.partial_cmp(&b) == Some(a.cmp(&b))
                        && (a == b) == (o == 0)
                        && (a != b) == (o != 0)
                        && (a < b) == (o < 0)
                        && (a <= b) == (o <= 0)
                        && (a > b) == (o > 0)
                        && (a >= b) == (o >= 0)
                        && a.max(b) == (if o > 0 { a } else { b })
                        && a.min(b) == (if o < 0 { a } else { b });
                    J::obj(vec![("cmp", J::n(o)), ("consistent", J::Bool(consistent))])
                })
            }
            "tou64" => {
                let a = Currency::from_abs(c.get("a"));
                outcome(|| TryInto::<u64>::try_into(a).map(|x| x.to_abs()))
            }
            "siacoins" => {
                let n = u64_of(c.get("n"));
                total(|| Currency::siacoins(n).to_abs())
            }
            "curval" => {
                let a = Currency::from_abs(c.get("a"));
                total(|| {
                    let d: u128 = *a;
                    J::s(hex(&d.to_be_bytes()))
                })
            }
            // ---------------------------------------------------------- keys
            "seed" => {
                let b: [u8; 16] = arr(c.get("v"));
                self.seeds.insert(c.get("s").str().to_string(), Box::new(Seed::new(b)));
                tag("ok")
            }
            "phrase" => {
                let s = self.seed(c);
                total(|| J::s(hex(s.to_mnemonic().as_bytes())))
            }
            "seedbytes" => {
                let s = self.seed(c);
                total(|| J::s(hex(s.as_bytes())))
            }
            "fromphrase" => {
                let s = String::from_utf8(unhex(c.get("b").str())).expect("harness: text is not UTF-8");
                outcome(|| Seed::from_mnemonic(&s).map(|x| J::s(hex(x.as_bytes()))))
            }
            "derivekey" => {
                let s = self.seed(c);
                let i = u64_of(c.get("i"));
                let mut made = None;
                let r = total(|| {
                    let k = s.private_key(i);
                    let v = J::obj(vec![("sk", J::s(hex(k.as_bytes()))), ("pk", k.public_key().to_abs())]);
                    made = Some(k);
                    v
                });
                if let (Some(k), Some(n)) = (made, c.find("key")) {
                    self.keys.insert(n.str().to_string(), Box::new(k));
                }
                r
            }
            "key" => {
                let how = c.get("how").str();
                let b = unhex(c.get("v").str());
                let mut made = None;
                let r = total(|| {
                    let k = match how {
                        "seed" => PrivateKey::from_seed(b[..].try_into().unwrap()),
                        "hash" => PrivateKey::from(Hash256::new(b[..].try_into().unwrap())),
                        "raw" => PrivateKey::from(<[u8; 64]>::try_from(&b[..]).unwrap()),
                        h => panic!("harness: how {h}"),
                    };
                    let v = J::obj(vec![("sk", J::s(hex(k.as_bytes()))), ("pk", k.public_key().to_abs())]);
                    made = Some(k);
                    v
                });
                if let Some(k) = made {
                    self.keys.insert(c.get("key").str().to_string(), Box::new(k));
                }
                r
            }
            "sign" => {
                let k = self.key(c);
                let h = Hash256::from_abs(c.get("h"));
                total(|| {
                    let s = k.sign_hash(&h);
                    J::obj(vec![("sig", s.to_abs()), ("verifies", J::Bool(k.public_key().verify(&h, &s)))])
                })
            }
            "verify" => {
                let pk = PublicKey::from_abs(c.get("pk"));
                let h = Hash256::from_abs(c.get("h"));
                let s = Signature::from_abs(c.get("sig"));
                total(|| J::Bool(pk.verify(&h, &s)))
            }
            op => panic!("harness: op {op}"),
        }
    }
}

fn derive(c: &J) -> J {
    let id: [u8; 32] = arr(c.get("id"));
    let i = c.find("i").map_or(0, |x| u64_of(x)) as usize;
    total(|| match c.get("kind").str() {
        "claim" => SiafundOutputID::from(id).claim_output_id().to_abs(),
        "v2claim" => SiafundOutputID::from(id).v2_claim_output_id().to_abs(),
        "foundation" => BlockID::from(id).foundation_output_id().to_abs(),
        "miner" => BlockID::from(id).miner_output_id(i).to_abs(),
        "v2siacoin" => TransactionID::from(id).v2_siacoin_output_id(i).to_abs(),
        "v2siafund" => TransactionID::from(id).v2_siafund_output_id(i).to_abs(),
        "v2contract" => TransactionID::from(id).v2_file_contract_id(i).to_abs(),
        "v2attestation" => TransactionID::from(id).v2_attestation_id(i).to_abs(),
        "valid" => FileContractID::from(id).valid_output_id(i).to_abs(),
        "missed" => FileContractID::from(id).missed_output_id(i).to_abs(),
        "v2renter" => FileContractID::from(id).v2_renter_output_id().to_abs(),
        "v2host" => FileContractID::from(id).v2_host_output_id().to_abs(),
        "v2renewal" => FileContractID::from(id).v2_renewal_id().to_abs(),
        k => panic!("harness: kind {k}"),
    })
}

fn curop(c: &J) -> J {
    let (a, b) = (Currency::from_abs(c.get("a")), Currency::from_abs(c.get("b")));
    let opt = |r: Option<Currency>| match r {
        Some(v) => ok(v.to_abs()),
        None => tag("none"),
    };
    let k = c.get("f").str();
    if c.get("form").str() == "checked" {
        guard(|| match k {
            "add" => a.checked_add(b),
            "sub" => a.checked_sub(b),
            "mul" => a.checked_mul(b),
            "div" => a.checked_div(b),
            k => panic!("harness: function {k}"),
        })
        .map_or_else(|p| p, opt)
    } else {
        total(|| {
            match k {
                "add" => a + b,
                "sub" => a - b,
                "mul" => a * b,
                "div" => a / b,
                "rem" => a % b,
                k => panic!("harness: function {k}"),
            }
            .to_abs()
        })
    }
}

include!("../literals.rs");

thread_local!(static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) });

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string();
        if m.contains("harness:") {
            eprintln!("{m}");
            std::process::exit(3);
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = m);
    }));
    let args: Vec<String> = std::env::args().collect();
    let skip: usize = args.get(3).map_or(0, |s| s.parse().unwrap());
    let threads: usize = args.get(4).map_or(1, |s| s.parse().unwrap());
    let commands = std::fs::File::open(&args[1]).expect("harness: commands");
    let out = std::fs::OpenOptions::new().create(true).append(true).open(&args[2]).expect("harness: events");
    if threads > 1 {
        return parallel(commands, out, threads);
    }
    // a deep stack: the decoder's own use of the stack is limited where it is called
    std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || {
            let mut out = io::BufWriter::new(out);
            let mut s = Session::default();
            for line in io::BufReader::new(commands).lines().skip(skip) {
                out.flush().unwrap();
                out.write_all(event(&mut s, &line.unwrap()).as_bytes()).unwrap();
            }
            out.flush().unwrap();
        })
        .unwrap()
        .join()
        .unwrap();
    let _ = raw::<u8, 1>(&0u8);
}

fn event(s: &mut Session, line: &str) -> String {
    let c = j::parse(line).unwrap_or_else(|e| panic!("harness: command: {e}"));
    let res = s.run(&c);
    let J::Obj(mut m) = c else { panic!("harness: command") };
    m.push(("res".to_string(), res));
    let mut t = J::Obj(m).text();
    t.push('\n');
    t
}

/// several sessions at once, each running whole segments; the events are written in the order of the commands
fn parallel(commands: std::fs::File, mut out: std::fs::File, threads: usize) {
    PARALLEL.store(true, Relaxed);
    let mut segments: Vec<Vec<String>> = Vec::new();
    for line in io::BufReader::new(commands).lines() {
        let line = line.unwrap();
        if line.contains("\"op\":\"reset\"") {
            segments.push(Vec::new());
        }
        segments.last_mut().expect("harness: commands").push(line);
    }
    let (next, gate) = (AtomicUsize::new(0), std::sync::Barrier::new(threads));
    let results: Vec<std::sync::Mutex<String>> = segments.iter().map(|_| Default::default()).collect();
    std::thread::scope(|sc| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(sc, || {
                    let mut s = Session::default();
                    gate.wait();
                    loop {
                        let i = next.fetch_add(1, Relaxed);
                        let Some(seg) = segments.get(i) else { break };
                        let mut t = String::new();
                        for line in seg {
                            t += &event(&mut s, line);
                        }
                        *results[i].lock().unwrap() = t;
                    }
                })
                .unwrap();
        }
    });
    for r in &results {
        out.write_all(r.lock().unwrap().as_bytes()).unwrap();
    }
}
