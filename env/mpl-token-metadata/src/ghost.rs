//! VERIF: assumed contracts of the (de)serialisers, see /verif/env/vghost/src/md.rs
use crate::types::*;
use solana_program::pubkey::Pubkey;
use vghost::md::{Creators, Data, Item, Str, I0, C0, D0, MDOP0, MAX_CREATOR, MD_CREATE_MPL, MD_UPDATE_MPL};
use vghost::K;

pub(crate) fn s(b: &[u8]) -> String {
    unsafe { String::from_utf8_unchecked(b.to_vec()) }
}
/// The values below as the ghost state sees them, and back.
pub trait Raw: Sized {
    fn to(&self) -> Item;
    fn from(i: &Item) -> Self;
}
fn it(k: K, a: u64, b: u64) -> Item {
    Item { some: true, k, a, b }
}
fn pk(k: &K) -> Pubkey {
    Pubkey::new_from_array(k.key())
}
impl Raw for Creator {
    fn to(&self) -> Item {
        it(K::of(self.address.as_array()), self.verified as u64, self.share as u64)
    }
    fn from(i: &Item) -> Self {
        Creator { address: pk(&i.k), verified: i.a != 0, share: i.b as u8 }
    }
}
impl Raw for Collection {
    fn to(&self) -> Item {
        it(K::of(self.key.as_array()), self.verified as u64, 0)
    }
    fn from(i: &Item) -> Self {
        Collection { verified: i.a != 0, key: pk(&i.k) }
    }
}
impl Raw for Uses {
    fn to(&self) -> Item {
        let m = match self.use_method {
            UseMethod::Burn => 0,
            UseMethod::Multiple => 1,
            UseMethod::Single => 2,
        };
        it(K(m, 0), self.remaining, self.total)
    }
    fn from(i: &Item) -> Self {
        let use_method = match i.k.0 {
            0 => UseMethod::Burn,
            1 => UseMethod::Multiple,
            _ => UseMethod::Single,
        };
        Uses { use_method, remaining: i.a, total: i.b }
    }
}
impl Raw for CollectionDetails {
    fn to(&self) -> Item {
        match self {
            CollectionDetails::V1 { size } => it(K(1, 0), *size, 0),
            CollectionDetails::V2 { padding } => it(K(2, 0), u64::from_le_bytes(*padding), 0),
        }
    }
    fn from(i: &Item) -> Self {
        if i.k.0 == 1 { CollectionDetails::V1 { size: i.a } } else { CollectionDetails::V2 { padding: i.a.to_le_bytes() } }
    }
}
impl Raw for ProgrammableConfig {
    fn to(&self) -> Item {
        let ProgrammableConfig::V1 { rule_set } = self;
        match rule_set {
            Some(p) => it(K::of(p.as_array()), 1, 0),
            None => it(vghost::K0, 0, 0),
        }
    }
    fn from(i: &Item) -> Self {
        ProgrammableConfig::V1 { rule_set: if i.a == 1 { Some(pk(&i.k)) } else { None } }
    }
}
impl Raw for TokenStandard {
    fn to(&self) -> Item {
        it(vghost::K0, *self as u64, 0)
    }
    fn from(i: &Item) -> Self {
        match i.a {
            0 => TokenStandard::NonFungible,
            1 => TokenStandard::FungibleAsset,
            2 => TokenStandard::Fungible,
            3 => TokenStandard::NonFungibleEdition,
            4 => TokenStandard::ProgrammableNonFungible,
            _ => TokenStandard::ProgrammableNonFungibleEdition,
        }
    }
}
impl Raw for Key {
    fn to(&self) -> Item {
        it(vghost::K0, *self as u64, 0)
    }
    fn from(_: &Item) -> Self {
        Key::MetadataV1
    }
}
fn bytes(i: &Item) -> [u8; 48] {
    let mut b = [0u8; 48];
    let p = b.as_mut_ptr();
    unsafe {
        (p as *mut u128).write_unaligned(i.k.0);
        (p.add(16) as *mut u128).write_unaligned(i.k.1);
        (p.add(32) as *mut u64).write_unaligned(i.a);
        (p.add(40) as *mut u64).write_unaligned(i.b);
    }
    b
}
fn item(v: &[u8]) -> Item {
    let mut i = I0;
    if v.len() == 48 {
        let p = v.as_ptr();
        unsafe {
            i.some = true;
            i.k = K((p as *const u128).read_unaligned(), (p.add(16) as *const u128).read_unaligned());
            i.a = (p.add(32) as *const u64).read_unaligned();
            i.b = (p.add(40) as *const u64).read_unaligned();
        }
    }
    i
}
#[cfg(feature = "serde")]
macro_rules! json {
    ($($t:ident)*) => { $(
        impl serde::Serialize for $t {
            fn serialize<S: serde::Serializer>(&self, z: S) -> Result<S::Ok, S::Error> {
                z.serialize_bytes(&bytes(&self.to()))
            }
        }
        impl<'de> serde::Deserialize<'de> for $t {
            fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                struct V;
                impl<'a> serde::de::Visitor<'a> for V {
                    type Value = $t;
                    fn expecting(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result {
                        Ok(())
                    }
                    fn visit_bytes<E: serde::de::Error>(self, v: &[u8]) -> Result<$t, E> {
                        Ok(<$t as Raw>::from(&item(v)))
                    }
                }
                d.deserialize_bytes(V)
            }
        }
    )* };
}
#[cfg(feature = "serde")]
json!(Creator Collection Uses CollectionDetails ProgrammableConfig TokenStandard Key);

fn opt<T: Raw>(v: &Option<T>) -> Item {
    match v {
        Some(x) => x.to(),
        None => I0,
    }
}
fn creators(v: &Option<Vec<Creator>>) -> Creators {
    let mut r = C0;
    if let Some(v) = v {
        r.some = true;
        r.n = v.len();
        let mut i = 0;
        while i < MAX_CREATOR {
            if i < r.n {
                r.c[i] = v[i].to();
            }
            i += 1;
        }
    }
    r
}
pub(crate) fn un_creators(c: &Creators) -> Option<Vec<Creator>> {
    if !c.some {
        return None;
    }
    let x = |i: usize| <Creator as Raw>::from(&c.c[i]);
    Some(match c.n {
        0 => vec![],
        1 => vec![x(0)],
        2 => vec![x(0), x(1)],
        3 => vec![x(0), x(1), x(2)],
        _ => vec![x(0), x(1), x(2), x(3), x(4)],
    })
}
pub(crate) fn un<T: Raw>(i: &Item) -> Option<T> {
    if i.some {
        Some(<T as Raw>::from(i))
    } else {
        None
    }
}
pub fn data_of(d: &DataV2) -> ([Str; 3], Data) {
    let mut r = D0;
    r.has = true;
    r.fee = d.seller_fee_basis_points;
    r.creators = creators(&d.creators);
    r.collection = opt(&d.collection);
    r.uses = opt(&d.uses);
    ([Str::of(d.name.as_bytes()), Str::of(d.symbol.as_bytes()), Str::of(d.uri.as_bytes())], r)
}
pub(crate) fn pack_create(a: &crate::instructions::CreateMetadataAccountV3InstructionArgs) -> Vec<u8> {
    let mut op = MDOP0;
    op.kind = MD_CREATE_MPL;
    (op.val, op.data) = data_of(&a.data);
    op.data.is_mutable = a.is_mutable as u8;
    op.data.details = a.collection_details.is_some();
    vghost::md::md_pack(op)
}
pub(crate) fn pack_update(a: &crate::instructions::UpdateMetadataAccountV2InstructionArgs) -> Vec<u8> {
    let mut op = MDOP0;
    op.kind = MD_UPDATE_MPL;
    if let Some(d) = &a.data {
        (op.val, op.data) = data_of(d);
    }
    op.data.new_auth = a.new_update_authority.is_some();
    op.data.is_mutable = match a.is_mutable {
        None => 2,
        Some(b) => b as u8,
    };
    op.data.sale = match a.primary_sale_happened {
        None => 2,
        Some(b) => b as u8,
    };
    vghost::md::md_pack(op)
}
