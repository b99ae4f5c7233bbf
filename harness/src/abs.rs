//! Abstract values (as in spec/Types.tla) to and from the system's values.
#![allow(deprecated)]
use crate::j::J;
use sia::consensus::*;
use sia::signing::{PublicKey, Signature};
use sia::types::{v1, v2, *};
use time::{Duration, OffsetDateTime};

pub fn hex(b: &[u8]) -> String {
    const D: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::with_capacity(2 * b.len());
    for x in b {
        s.push(D[(x >> 4) as usize] as char);
        s.push(D[(x & 15) as usize] as char);
    }
    s
}
pub fn unhex(s: &str) -> Vec<u8> {
    let d = |c: u8| match c {
        b'0'..=b'9' => c - b'0',
        b'a'..=b'f' => c - b'a' + 10,
        _ => panic!("harness: not hex: {s}"),
    };
    s.as_bytes().chunks(2).map(|p| d(p[0]) << 4 | d(p[1])).collect()
}
pub fn arr<const N: usize>(v: &J) -> [u8; N] {
    unhex(v.str()).try_into().unwrap_or_else(|b: Vec<u8>| panic!("harness: {} bytes, not {N}", b.len()))
}
/// the bytes of a newtype around a byte array
pub fn raw<T, const N: usize>(x: &T) -> [u8; N] {
    assert_eq!(std::mem::size_of::<T>(), N);
    unsafe { std::mem::transmute_copy(x) }
}

pub trait Abs: Sized {
    fn from_abs(v: &J) -> Self;
    fn to_abs(&self) -> J;
}

macro_rules! ints {
    ($($t:ty),*) => { $( impl Abs for $t {
        fn from_abs(v: &J) -> Self { <$t>::from_be_bytes(arr(v)) }
        fn to_abs(&self) -> J { J::s(hex(&self.to_be_bytes())) }
    } )* };
}
ints!(u16, u32, u64, usize, i16, i32, i64);

/// u8 is only an element of byte strings, except where wrapped
#[derive(PartialEq, Debug)]
pub struct Bytes(pub Vec<u8>);
impl Abs for Bytes {
    fn from_abs(v: &J) -> Self {
        Bytes(unhex(v.str()))
    }
    fn to_abs(&self) -> J {
        J::s(hex(&self.0))
    }
}
impl Abs for u8 {
    fn from_abs(v: &J) -> Self {
        arr::<1>(v)[0]
    }
    fn to_abs(&self) -> J {
        J::s(hex(&[*self]))
    }
}
impl Abs for bool {
    fn from_abs(v: &J) -> Self {
        match v {
            J::Bool(b) => *b,
            x => panic!("harness: not a bool: {x:?}"),
        }
    }
    fn to_abs(&self) -> J {
        J::Bool(*self)
    }
}
impl Abs for String {
    fn from_abs(v: &J) -> Self {
        String::from_utf8(unhex(v.str())).expect("harness: not UTF-8")
    }
    fn to_abs(&self) -> J {
        J::s(hex(self.as_bytes()))
    }
}
impl<T: Abs> Abs for Vec<T> {
    fn from_abs(v: &J) -> Self {
        v.arr().iter().map(T::from_abs).collect()
    }
    fn to_abs(&self) -> J {
        J::Arr(self.iter().map(T::to_abs).collect())
    }
}
impl<T: Abs> Abs for Option<T> {
    fn from_abs(v: &J) -> Self {
        v.arr().first().map(T::from_abs)
    }
    fn to_abs(&self) -> J {
        J::Arr(self.iter().map(T::to_abs).collect())
    }
}
impl<const N: usize> Abs for [u8; N] {
    fn from_abs(v: &J) -> Self {
        arr(v)
    }
    fn to_abs(&self) -> J {
        J::s(hex(self))
    }
}
impl Abs for OffsetDateTime {
    fn from_abs(v: &J) -> Self {
        OffsetDateTime::from_unix_timestamp(i64::from_abs(v)).expect("harness: timestamp")
    }
    fn to_abs(&self) -> J {
        self.unix_timestamp().to_abs()
    }
}
impl Abs for Duration {
    fn from_abs(v: &J) -> Self {
        Duration::nanoseconds(i64::from_abs(v))
    }
    fn to_abs(&self) -> J {
        (self.whole_nanoseconds() as u64).to_abs()
    }
}
impl Abs for Currency {
    fn from_abs(v: &J) -> Self {
        Currency::new(u128::from_be_bytes(arr(v)))
    }
    fn to_abs(&self) -> J {
        let v: u128 = unsafe { std::mem::transmute_copy(self) };
        J::s(hex(&v.to_be_bytes()))
    }
}
impl Abs for Work {
    fn from_abs(v: &J) -> Self {
        let b: [u8; 32] = arr(v);
        let l = |i: usize| u64::from_be_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
        Work([l(3), l(2), l(1), l(0)])
    }
    fn to_abs(&self) -> J {
        let mut b = Vec::new();
        for i in (0..4).rev() {
            b.extend_from_slice(&self.0[i].to_be_bytes());
        }
        J::s(hex(&b))
    }
}
macro_rules! newtypes {
    ($($t:ty: $n:literal),*) => { $( impl Abs for $t {
        fn from_abs(v: &J) -> Self { <$t>::from(arr::<$n>(v)) }
        fn to_abs(&self) -> J { J::s(hex(&raw::<$t, $n>(self))) }
    } )* };
}
newtypes!(Hash256: 32, SiacoinOutputID: 32, AttestationID: 32, SiafundOutputID: 32, BlockID: 32, TransactionID: 32,
          FileContractID: 32, Address: 32, Signature: 64, Leaf: 64);
impl Abs for PublicKey {
    fn from_abs(v: &J) -> Self {
        PublicKey::new(arr(v))
    }
    fn to_abs(&self) -> J {
        J::s(hex(&raw::<_, 32>(self)))
    }
}
impl Abs for Specifier {
    fn from_abs(v: &J) -> Self {
        Specifier::new(arr(v))
    }
    fn to_abs(&self) -> J {
        J::s(hex(&raw::<_, 16>(self)))
    }
}

macro_rules! abs_struct {
    ($t:ty { $($f:ident = $n:literal $(as $w:ident)?),* $(,)? }) => {
        impl Abs for $t {
            fn from_abs(v: &J) -> Self {
                Self { $($f: abs_struct!(@from v.get($n) $(, $w)?)),* }
            }
            fn to_abs(&self) -> J {
                J::obj(vec![$(($n, abs_struct!(@to &self.$f $(, $w)?))),*])
            }
        }
    };
    (@from $v:expr) => { Abs::from_abs($v) };
    (@from $v:expr, bytes) => { unhex($v.str()) };
    (@from $v:expr, blobs) => { $v.arr().iter().map(|b| unhex(b.str())).collect() };
    (@to $v:expr) => { Abs::to_abs($v) };
    (@to $v:expr, bytes) => { J::s(hex($v)) };
    (@to $v:expr, blobs) => { J::Arr($v.iter().map(|b| J::s(hex(b))).collect()) };
}

abs_struct!(ChainIndex { height = "height", id = "id" });
abs_struct!(SiacoinOutput { value = "value", address = "address" });
abs_struct!(SiafundOutput { value = "value", address = "address" });
abs_struct!(StateElement { leaf_index = "leafIndex", merkle_proof = "merkleProof" });
abs_struct!(v1::UnlockKey { algorithm = "algorithm", key = "key" as bytes });
abs_struct!(v1::UnlockConditions { timelock = "timelock", public_keys = "publicKeys",
    signatures_required = "signaturesRequired" });
abs_struct!(Block { parent_id = "parentID", nonce = "nonce", timestamp = "timestamp", miner_payouts = "minerPayouts",
    transactions = "transactions" });
abs_struct!(v1::SiacoinInput { parent_id = "parentID", unlock_conditions = "unlockConditions" });
abs_struct!(v1::SiafundInput { parent_id = "parentID", unlock_conditions = "unlockConditions",
    claim_address = "claimAddress" });
abs_struct!(v1::FileContract { file_size = "filesize", file_merkle_root = "fileMerkleRoot",
    window_start = "windowStart", window_end = "windowEnd", payout = "payout",
    valid_proof_outputs = "validProofOutputs", missed_proof_outputs = "missedProofOutputs",
    unlock_hash = "unlockHash", revision_number = "revisionNumber" });
abs_struct!(v1::FileContractRevision { parent_id = "parentID", unlock_conditions = "unlockConditions",
    revision_number = "revisionNumber", file_size = "filesize", file_merkle_root = "fileMerkleRoot",
    window_start = "windowStart", window_end = "windowEnd", valid_proof_outputs = "validProofOutputs",
    missed_proof_outputs = "missedProofOutputs", unlock_hash = "unlockHash" });
abs_struct!(v1::StorageProof { parent_id = "parentID", leaf = "leaf", proof = "proof" });
abs_struct!(v1::CoveredFields { whole_transaction = "wholeTransaction", siacoin_inputs = "siacoinInputs",
    siacoin_outputs = "siacoinOutputs", file_contracts = "fileContracts",
    file_contract_revisions = "fileContractRevisions", storage_proofs = "storageProofs",
    siafund_inputs = "siafundInputs", siafund_outputs = "siafundOutputs", miner_fees = "minerFees",
    arbitrary_data = "arbitraryData", signatures = "signatures" });
abs_struct!(v1::TransactionSignature { parent_id = "parentID", public_key_index = "publicKeyIndex",
    timelock = "timelock", covered_fields = "coveredFields", signature = "signature" as bytes });
abs_struct!(v1::Transaction { siacoin_inputs = "siacoinInputs", siacoin_outputs = "siacoinOutputs",
    file_contracts = "fileContracts", file_contract_revisions = "fileContractRevisions",
    storage_proofs = "storageProofs", siafund_inputs = "siafundInputs", siafund_outputs = "siafundOutputs",
    miner_fees = "minerFees", arbitrary_data = "arbitraryData" as blobs, signatures = "signatures" });
abs_struct!(v2::SatisfiedPolicy { policy = "policy", signatures = "signatures", preimages = "preimages" });
abs_struct!(v2::Attestation { public_key = "publicKey", key = "key", value = "value" as bytes,
    signature = "signature" });
abs_struct!(v2::FileContract { capacity = "capacity", filesize = "filesize", file_merkle_root = "fileMerkleRoot",
    proof_height = "proofHeight", expiration_height = "expirationHeight", renter_output = "renterOutput",
    host_output = "hostOutput", missed_host_value = "missedHostValue", total_collateral = "totalCollateral",
    renter_public_key = "renterPublicKey", host_public_key = "hostPublicKey", revision_number = "revisionNumber",
    renter_signature = "renterSignature", host_signature = "hostSignature" });
abs_struct!(v2::SiacoinElement { state_element = "stateElement", id = "id", siacoin_output = "siacoinOutput",
    maturity_height = "maturityHeight" });
abs_struct!(v2::SiafundElement { state_element = "stateElement", id = "id", siafund_output = "siafundOutput",
    claim_start = "claimStart" });
abs_struct!(v2::FileContractElement { state_element = "stateElement", id = "id", v2_file_contract = "v2FileContract" });
abs_struct!(v2::ChainIndexElement { state_element = "stateElement", id = "id", chain_index = "chainIndex" });
abs_struct!(v2::SiacoinInput { parent = "parent", satisfied_policy = "satisfiedPolicy" });
abs_struct!(v2::SiafundInput { parent = "parent", claim_address = "claimAddress",
    satisfied_policy = "satisfiedPolicy" });
abs_struct!(v2::FileContractRevision { parent = "parent", revision = "revision" });
abs_struct!(v2::FileContractRenewal { final_revision = "finalRevision", new_contract = "newContract",
    renter_rollover = "renterRollover", host_rollover = "hostRollover", renter_signature = "renterSignature",
    host_signature = "hostSignature" });
abs_struct!(v2::StorageProof { proof_index = "proofIndex", leaf = "leaf", proof = "proof" });
abs_struct!(v2::Transaction { siacoin_inputs = "siacoinInputs", siacoin_outputs = "siacoinOutputs",
    siafund_inputs = "siafundInputs", siafund_outputs = "siafundOutputs", file_contracts = "fileContracts",
    file_contract_revisions = "fileContractRevisions", file_contract_resolutions = "fileContractResolutions",
    attestations = "attestations", arbitrary_data = "arbitraryData" as bytes,
    new_foundation_address = "newFoundationAddress", miner_fee = "minerFee" });
abs_struct!(HardforkDevAddr { height = "height", old_address = "oldAddress", new_address = "newAddress" });
abs_struct!(HardforkTax { height = "height" });
abs_struct!(HardforkStorageProof { height = "height" });
abs_struct!(HardforkOak { height = "height", fix_height = "fixHeight", genesis_timestamp = "genesisTimestamp" });
abs_struct!(HardforkASIC { height = "height", oak_time = "oakTime", oak_target = "oakTarget" });
abs_struct!(HardforkFoundation { height = "height", primary_address = "primaryAddress",
    failsafe_address = "failsafeAddress" });
abs_struct!(HardforkV2 { allow_height = "allowHeight", require_height = "requireHeight" });
abs_struct!(Network { name = "name", initial_coinbase = "initialCoinbase", minimum_coinbase = "minimumCoinbase",
    initial_target = "initialTarget", block_interval = "blockInterval", maturity_delay = "maturityDelay",
    hardfork_dev_addr = "hardforkDevAddr", hardfork_tax = "hardforkTax",
    hardfork_storage_proof = "hardforkStorageProof", hardfork_oak = "hardforkOak", hardfork_asic = "hardforkASIC",
    hardfork_foundation = "hardforkFoundation", hardfork_v2 = "hardforkV2" });
abs_struct!(State { index = "index", prev_timestamps = "prevTimestamps", depth = "depth",
    child_target = "childTarget", siafund_pool = "siafundPool", oak_time = "oakTime", oak_target = "oakTarget",
    foundation_primary_address = "foundationPrimaryAddress",
    foundation_failsafe_address = "foundationFailsafeAddress", total_work = "totalWork", difficulty = "difficulty",
    oak_work = "oakWork", elements = "elements", attestations = "attestations" });
abs_struct!(ChainState { network = "network", state = "state" });

impl Abs for [OffsetDateTime; 11] {
    fn from_abs(v: &J) -> Self {
        Vec::<OffsetDateTime>::from_abs(v).try_into().expect("harness: 11 timestamps")
    }
    fn to_abs(&self) -> J {
        J::Arr(self.iter().map(Abs::to_abs).collect())
    }
}

impl Abs for ElementAccumulator {
    fn from_abs(v: &J) -> Self {
        let num_leaves = u64::from_abs(v.get("numLeaves"));
        let mut trees = [Hash256::new([0; 32]); 64];
        let mut it = v.get("trees").arr().iter();
        for (i, t) in trees.iter_mut().enumerate() {
            if num_leaves >> i & 1 == 1 {
                *t = Abs::from_abs(it.next().expect("harness: too few trees"));
            }
        }
        assert!(it.next().is_none(), "harness: too many trees");
        ElementAccumulator { num_leaves, trees }
    }
    fn to_abs(&self) -> J {
        let mut set = Vec::new();
        let mut stray = Vec::new();
        for (i, t) in self.trees.iter().enumerate() {
            if self.num_leaves >> i & 1 == 1 {
                set.push(t.to_abs());
            } else if raw::<_, 32>(t) != [0; 32] {
                stray.push(t.to_abs());
            }
        }
        let mut m = vec![("numLeaves", self.num_leaves.to_abs()), ("trees", J::Arr(set))];
        if !stray.is_empty() {
            m.push(("stray", J::Arr(stray))); // a root at a height that has no tree
        }
        J::obj(m)
    }
}

impl Abs for v2::SpendPolicy {
    fn from_abs(v: &J) -> Self {
        use v2::SpendPolicy::*;
        match v.get("k").str() {
            "above" => Above(Abs::from_abs(v.get("v"))),
            "after" => After(Abs::from_abs(v.get("v"))),
            "pk" => PublicKey(Abs::from_abs(v.get("v"))),
            "h" => Hash(Abs::from_abs(v.get("v"))),
            "opaque" => Opaque(Abs::from_abs(v.get("v"))),
            "uc" => UnlockConditions(Abs::from_abs(v.get("v"))),
            "thresh" => Threshold(Abs::from_abs(v.get("n")), Abs::from_abs(v.get("of"))),
            k => panic!("harness: policy {k}"),
        }
    }
    fn to_abs(&self) -> J {
        use v2::SpendPolicy::*;
        let (k, x) = match self {
            Above(x) => ("above", x.to_abs()),
            After(x) => ("after", x.to_abs()),
            PublicKey(x) => ("pk", x.to_abs()),
            Hash(x) => ("h", x.to_abs()),
            Opaque(x) => ("opaque", x.to_abs()),
            UnlockConditions(x) => ("uc", x.to_abs()),
            Threshold(n, of) => return J::obj(vec![("k", J::s("thresh")), ("n", n.to_abs()), ("of", of.to_abs())]),
        };
        J::obj(vec![("k", J::s(k)), ("v", x)])
    }
}

impl Abs for v2::FileContractResolution {
    fn from_abs(v: &J) -> Self {
        let r = v.get("resolution");
        v2::FileContractResolution {
            parent: Abs::from_abs(v.get("parent")),
            resolution: match v.get("type").str() {
                "renewal" => v2::ContractResolution::Renewal(Abs::from_abs(r)),
                "storageProof" => v2::ContractResolution::StorageProof(Abs::from_abs(r)),
                "expiration" => v2::ContractResolution::Expiration(),
                k => panic!("harness: resolution {k}"),
            },
        }
    }
    fn to_abs(&self) -> J {
        let (k, r) = match &self.resolution {
            v2::ContractResolution::Renewal(x) => ("renewal", x.to_abs()),
            v2::ContractResolution::StorageProof(x) => ("storageProof", x.to_abs()),
            v2::ContractResolution::Expiration() => ("expiration", J::Arr(vec![])),
        };
        J::obj(vec![("parent", self.parent.to_abs()), ("type", J::s(k)), ("resolution", r)])
    }
}
