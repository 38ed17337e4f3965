//! The stored form of numbering plans: the public plan messages against the published phonemetadata.proto, written down
//! here once more and read and written by hand.
use crate::core::*;
use crate::props as p;
use crate::rng::Rng;
use protobuf::{Message, MessageField};
use rlibphonenumber::phonemetadata as pb;
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq)]
enum Kind { Text, Int, Flag, Sub(&'static [Field]) }
type Field = (u64, Kind, bool, bool); // number, kind, repeated, required
use Kind::*;
static FORMAT: &[Field] = &[(1, Text, false, true), (2, Text, false, true), (3, Text, true, false), (4, Text, false, false), (5, Text, false, false), (6, Flag, false, false)];
static DESC: &[Field] = &[(2, Text, false, false), (6, Text, false, false), (9, Int, true, false), (10, Int, true, false)];
const D: Kind = Sub(DESC);
static PLAN: &[Field] = &[
    (1, D, false, false), (2, D, false, false), (3, D, false, false), (4, D, false, false), (5, D, false, false), (6, D, false, false), (7, D, false, false), (8, D, false, false),
    (9, Text, false, true), (10, Int, false, false), (11, Text, false, false), (12, Text, false, false), (13, Text, false, false), (15, Text, false, false), (16, Text, false, false),
    (17, Text, false, false), (18, Flag, false, false), (19, Sub(FORMAT), true, false), (20, Sub(FORMAT), true, false), (21, D, false, false), (22, Flag, false, false),
    (23, Text, false, false), (24, D, false, false), (25, D, false, false), (27, D, false, false), (28, D, false, false), (29, D, false, false), (30, D, false, false), (31, D, false, false),
    (32, Flag, false, false), (33, D, false, false),
];
static COLLECTION: &[Field] = &[(1, Sub(PLAN), true, false)];

#[derive(Clone, PartialEq, Debug)]
enum V { S(String), I(i32), B(bool), M(Msg) }
type Msg = BTreeMap<u64, Vec<V>>;

fn text(r: &mut Rng) -> String {
    let n = match r.below(8) { 0 => 0, 1 => r.range(100, 300), _ => r.range(1, 12) };
    (0..n).map(|_| match r.below(10) { 0 => char::from_u32(r.below(0x11_0000) as u32).unwrap_or('\u{FFFD}'), 1 => *r.pick(&['\0', '$', '\\', '\n', '٣']), _ => *r.pick(&['0', '1', '9', '[', ']', 'd', 'A', 'Z', ' ']) }).collect()
}
fn value(r: &mut Rng, k: Kind, gaps: usize) -> V {
    match k {
        Text => V::S(text(r)), Flag => V::B(r.chance(1, 2)), Sub(s) => V::M(message(r, s, gaps)),
        Int => V::I(match r.below(4) { 0 => r.u64() as i32, 1 => *r.pick(&[0, -1, 127, 128, 16383, 16384, i32::MAX, i32::MIN]), _ => r.below(20) as i32 }),
    }
}
/// `gaps`: one required field in so many is left out
fn message(r: &mut Rng, s: &'static [Field], gaps: usize) -> Msg {
    let dense = r.range(1, 4);
    let mut m = Msg::new();
    for &(f, k, rep, req) in s {
        let n = if rep { if r.chance(dense, 4) { r.range(1, 4) } else { 0 } } else if req { !r.chance(1, gaps) as usize } else { r.chance(dense, 5) as usize };
        if n > 0 { m.insert(f, (0..n).map(|_| value(r, k, gaps)).collect()); }
    }
    m
}
fn whole(m: &Msg, s: &'static [Field]) -> bool {
    s.iter().all(|&(f, k, _, req)| (!req || m.contains_key(&f)) && match k { Sub(s) => m.get(&f).into_iter().flatten().all(|v| matches!(v, V::M(m) if whole(m, s))), _ => true })
}
fn varint(o: &mut Vec<u8>, mut v: u64) { while v > 127 { o.push(v as u8 | 128); v >>= 7; } o.push(v as u8); }
fn block(o: &mut Vec<u8>, f: u64, b: &[u8]) { varint(o, f << 3 | 2); varint(o, b.len() as u64); o.extend_from_slice(b); }
fn put(o: &mut Vec<u8>, f: u64, v: &V, s: Kind, r: &mut Option<&mut Rng>) {
    match v {
        V::S(t) => block(o, f, t.as_bytes()),
        V::I(i) => { varint(o, f << 3); varint(o, *i as i64 as u64); }
        V::B(b) => { varint(o, f << 3); varint(o, *b as u64); }
        V::M(m) => { let Sub(s) = s else { unreachable!() }; let b = write(m, s, r); block(o, f, &b); }
    }
}
/// the bytes of a message; with a generator, in one of the many ways a reader has to accept
fn write(m: &Msg, s: &'static [Field], r: &mut Option<&mut Rng>) -> Vec<u8> {
    let mut parts: Vec<Vec<u8>> = vec![];
    for &(f, k, rep, _) in s {
        let Some(vs) = m.get(&f) else { continue };
        let mut o = vec![];
        let odd = r.as_mut().map_or(9, |r| r.below(10));
        match (odd, k) {
            (0..=3, Int) if rep => { let mut b = vec![]; for v in vs { if let V::I(i) = v { varint(&mut b, *i as i64 as u64); } } block(&mut o, f, &b); }
            // a field written twice: the last one counts
            (0, Text | Int | Flag) if !rep => { let r2 = r.as_mut().unwrap(); let other = value(r2, k, 1 << 30); put(&mut o, f, &other, k, &mut None); put(&mut o, f, &vs[0], k, &mut None); }
            _ => for v in vs { put(&mut o, f, v, k, r) },
        }
        parts.push(o);
    }
    if let Some(r) = r {
        for i in (1..parts.len()).rev() { if r.chance(1, 3) { let j = r.below(i + 1); parts.swap(i, j); } }
        if r.chance(1, 6) {
            // a field of a later version of the format
            let f = *r.pick(&[26u64, 40, 1000, 536_870_911]);
            let mut o = vec![];
            match r.below(4) { 0 => { varint(&mut o, f << 3); varint(&mut o, r.u64()) } 1 => block(&mut o, f, text(r).as_bytes()), 2 => { varint(&mut o, f << 3 | 1); o.extend([7; 8]) } _ => { varint(&mut o, f << 3 | 5); o.extend([7; 4]) } }
            let at = r.below(parts.len() + 1);
            parts.insert(at, o);
        }
    }
    parts.concat()
}
fn read(b: &[u8], s: &'static [Field]) -> Option<Msg> {
    fn num(b: &[u8], i: &mut usize) -> Option<u64> { let (mut v, mut sh) = (0u64, 0); loop { let c = *b.get(*i)?; *i += 1; v |= u64::from(c & 127).checked_shl(sh)?; sh += 7; if c < 128 { return Some(v); } if sh > 63 { return None; } } }
    let (mut m, mut i) = (Msg::new(), 0);
    while i < b.len() {
        let key = num(b, &mut i)?;
        let &(f, k, rep, _) = s.iter().find(|x| x.0 == key >> 3)?;
        let mut got = vec![];
        match (k, key & 7) {
            (Int, 0) => got.push(V::I(num(b, &mut i)? as i32)),
            (Flag, 0) => got.push(V::B(num(b, &mut i)? != 0)),
            (_, 2) => {
                let n = num(b, &mut i)? as usize;
                let x = b.get(i..i.checked_add(n)?)?;
                i += n;
                match k {
                    Text => got.push(V::S(String::from_utf8(x.to_vec()).ok()?)), Sub(s) => got.push(V::M(read(x, s)?)),
                    Int if rep => { let mut j = 0; while j < x.len() { got.push(V::I(num(x, &mut j)? as i32)); } }
                    _ => return None,
                }
            }
            _ => return None,
        }
        let e = m.entry(f).or_default();
        if rep { e.extend(got) } else if e.is_empty() { *e = got } else { return None }
    }
    Some(m)
}
// ---- the library's messages, by the names of their fields ----
macro_rules! fields { ($p:ident, $take:ident; $($f:literal $n:ident $kind:ident),* $(,)?) => { $( fields!(@ $kind $p $take $f $n); )* };
    (@ text $p:ident $m:ident $f:literal $n:ident) => { if let Some(v) = &$p.$n { $m.insert($f, vec![V::S(v.clone())]); } };
    (@ int $p:ident $m:ident $f:literal $n:ident) => { if let Some(v) = $p.$n { $m.insert($f, vec![V::I(v)]); } };
    (@ flag $p:ident $m:ident $f:literal $n:ident) => { if let Some(v) = $p.$n { $m.insert($f, vec![V::B(v)]); } };
    (@ texts $p:ident $m:ident $f:literal $n:ident) => { if !$p.$n.is_empty() { $m.insert($f, $p.$n.iter().map(|v| V::S(v.clone())).collect()); } };
    (@ ints $p:ident $m:ident $f:literal $n:ident) => { if !$p.$n.is_empty() { $m.insert($f, $p.$n.iter().map(|v| V::I(*v)).collect()); } };
    (@ desc $p:ident $m:ident $f:literal $n:ident) => { if let Some(v) = $p.$n.as_ref() { $m.insert($f, vec![V::M(of_desc(v))]); } };
    (@ formats $p:ident $m:ident $f:literal $n:ident) => { if !$p.$n.is_empty() { $m.insert($f, $p.$n.iter().map(|v| V::M(of_format(v))).collect()); } };
}
macro_rules! setters { ($m:ident, $p:ident; $($f:literal $n:ident $kind:ident),* $(,)?) => { $( if let Some(v) = $m.get(&$f) { setters!(@ $kind $p $n v); } )* };
    (@ text $p:ident $n:ident $v:ident) => { if let V::S(x) = &$v[0] { $p.$n = Some(x.clone()); } };
    (@ int $p:ident $n:ident $v:ident) => { if let V::I(x) = &$v[0] { $p.$n = Some(*x); } };
    (@ flag $p:ident $n:ident $v:ident) => { if let V::B(x) = &$v[0] { $p.$n = Some(*x); } };
    (@ texts $p:ident $n:ident $v:ident) => { $p.$n = $v.iter().map(|x| if let V::S(x) = x { x.clone() } else { unreachable!() }).collect(); };
    (@ ints $p:ident $n:ident $v:ident) => { $p.$n = $v.iter().map(|x| if let V::I(x) = x { *x } else { unreachable!() }).collect(); };
    (@ desc $p:ident $n:ident $v:ident) => { if let V::M(x) = &$v[0] { $p.$n = MessageField::some(to_desc(x)); } };
    (@ formats $p:ident $n:ident $v:ident) => { $p.$n = $v.iter().map(|x| if let V::M(x) = x { to_format(x) } else { unreachable!() }).collect(); };
}
macro_rules! published { ($mac:ident format $a:ident $b:ident) => { $mac!($a, $b; 1 pattern text, 2 format text, 3 leading_digits_pattern texts, 4 national_prefix_formatting_rule text, 5 domestic_carrier_code_formatting_rule text, 6 national_prefix_optional_when_formatting flag) };
    ($mac:ident desc $a:ident $b:ident) => { $mac!($a, $b; 2 national_number_pattern text, 6 example_number text, 9 possible_length ints, 10 possible_length_local_only ints) };
    ($mac:ident plan $a:ident $b:ident) => { $mac!($a, $b; 1 general_desc desc, 2 fixed_line desc, 3 mobile desc, 4 toll_free desc, 5 premium_rate desc, 6 shared_cost desc, 7 personal_number desc, 8 voip desc,
        9 id text, 10 country_code int, 11 international_prefix text, 12 national_prefix text, 13 preferred_extn_prefix text, 15 national_prefix_for_parsing text, 16 national_prefix_transform_rule text,
        17 preferred_international_prefix text, 18 same_mobile_and_fixed_line_pattern flag, 19 number_format formats, 20 intl_number_format formats, 21 pager desc, 22 main_country_for_code flag,
        23 leading_digits text, 24 no_international_dialling desc, 25 uan desc, 27 emergency desc, 28 voicemail desc, 29 short_code desc, 30 standard_rate desc, 31 carrier_specific desc,
        32 mobile_number_portable_region flag, 33 sms_services desc) };
}
fn of_format(p: &pb::NumberFormat) -> Msg { let mut m = Msg::new(); published!(fields format p m); m }
fn of_desc(p: &pb::PhoneNumberDesc) -> Msg { let mut m = Msg::new(); published!(fields desc p m); m }
fn of_plan(p: &pb::PhoneMetadata) -> Msg { let mut m = Msg::new(); published!(fields plan p m); m }
fn of_all(p: &pb::PhoneMetadataCollection) -> Msg { let mut m = Msg::new(); if !p.metadata.is_empty() { m.insert(1, p.metadata.iter().map(|x| V::M(of_plan(x))).collect()); } m }
fn to_format(m: &Msg) -> pb::NumberFormat { let mut p = pb::NumberFormat::new(); published!(setters format m p); p }
fn to_desc(m: &Msg) -> pb::PhoneNumberDesc { let mut p = pb::PhoneNumberDesc::new(); published!(setters desc m p); p }
fn to_plan(m: &Msg) -> pb::PhoneMetadata { let mut p = pb::PhoneMetadata::new(); published!(setters plan m p); p }
fn to_all(m: &Msg) -> pb::PhoneMetadataCollection {
    let mut p = pb::PhoneMetadataCollection::new();
    p.metadata = m.get(&1).into_iter().flatten().map(|x| if let V::M(x) = x { to_plan(x) } else { unreachable!() }).collect();
    p
}
fn c36(c: &mut Case) {
    let gaps = if c.r.chance(1, 10) { 12 } else { 1 << 30 };
    let m = message(&mut c.r, COLLECTION, gaps);
    let good = whole(&m, COLLECTION);
    let plain = write(&m, COLLECTION, &mut None);
    let mut r = c.r.clone();
    let bytes = write(&m, COLLECTION, &mut Some(&mut r));
    c.r = r;
    c.seen(&format!("{plain:?}"));
    c.count(if good { "whole" } else { "incomplete" });
    let show = || format!("{m:?}");
    // bytes of any writer of the format
    for (name, b) in [("plain", &plain), ("as-any-writer", &bytes)] {
        let got = pb::PhoneMetadataCollection::parse_from_bytes(b).ok();
        c.eq(&format!("{name}:read-if-whole"), got.is_some(), good, || format!("{m:?} from {b:?}"));
        if let (Some(g), true) = (&got, good) { c.eq(&format!("{name}:read-as-published"), of_all(g), m.clone(), || format!("{b:?}")); }
        if b != &plain { c.count("written_otherwise"); }
    }
    // bytes of this one
    let p = to_all(&m);
    let w = p.write_to_bytes().ok();
    c.eq("written-if-whole", w.is_some(), good, show);
    if let Some(w) = w {
        c.eq("written-as-published", read(&w, COLLECTION), Some(m.clone()), || format!("{w:?}"));
        let again = pb::PhoneMetadataCollection::parse_from_bytes(&w).ok();
        c.eq("read-back", again.as_ref() == Some(&p), true, show);
    }
    // what a field that was never stored reads as
    if let Some(x) = p.metadata.first() {
        let i = |f| match m[&1].first() { Some(V::M(m)) => m.get(&f).map(|v: &Vec<V>| v[0].clone()), _ => None };
        let s = |f| match i(f) { Some(V::S(s)) => s, _ => String::new() };
        let b = |f| matches!(i(f), Some(V::B(true)));
        let n = match i(10) { Some(V::I(n)) => n, _ => 0 };
        c.eq("default-texts", [x.id(), x.international_prefix(), x.national_prefix(), x.preferred_extn_prefix(), x.national_prefix_for_parsing(), x.national_prefix_transform_rule(), x.preferred_international_prefix(), x.leading_digits()].map(String::from),
            [s(9), s(11), s(12), s(13), s(15), s(16), s(17), s(23)], show);
        c.eq("default-flags", (x.same_mobile_and_fixed_line_pattern(), x.main_country_for_code(), x.mobile_number_portable_region(), x.country_code()), (b(18), b(22), b(32), n), show);
        for f in x.number_format.iter().take(2) { c.eq("default-format", f.national_prefix_optional_when_formatting(), f.national_prefix_optional_when_formatting == Some(true), show); }
    }
    // spoilt bytes: read or refused, and what was read can be stored
    let mut junk = bytes;
    if c.r.chance(1, 4) { let n = c.r.below(junk.len() + 1); junk.truncate(n); c.count("cut_off"); }
    for _ in 0..c.r.range(1, 3) { if !junk.is_empty() { let at = c.r.below(junk.len()); match c.r.below(3) { 0 => junk[at] = c.r.u64() as u8, 1 => { junk.remove(at); } _ => junk.insert(at, c.r.u64() as u8) } } }
    if let Ok(q) = pb::PhoneMetadataCollection::parse_from_bytes(&junk) {
        c.count("spoilt_but_read");
        let b = q.write_to_bytes();
        let ok = b.as_ref().is_ok_and(|b| pb::PhoneMetadataCollection::parse_from_bytes(b).is_ok_and(|x| x == q));
        c.eq("spoilt:read-back", ok, true, || format!("{junk:?}"));
    }
}
fn c36_shipped(c: &mut Case) {
    let Some(bytes) = p::compiled_table(&c.e.repo) else { c.o.notes.insert("table".into(), "not found in source form".into()); c.add("shipped_plans", 200); return };
    let mine = read(&bytes, COLLECTION);
    c.ok("shipped:published-format", mine.is_some(), || "the shipped table is not in the published format".into());
    let Ok(q) = pb::PhoneMetadataCollection::parse_from_bytes(&bytes) else { c.fail("shipped:read", "the shipped table is refused".into()); return };
    c.add("shipped_plans", q.metadata.len() as u64);
    if let Some(m) = mine { for (a, b) in m.get(&1).into_iter().flatten().zip(&q.metadata) { c.eq("shipped:read-as-published", V::M(of_plan(b)), a.clone(), || b.id().to_string()); } }
    c.eq("shipped:written", q.write_to_bytes().ok().and_then(|b| read(&b, COLLECTION)), read(&bytes, COLLECTION), || "the shipped table".into());
}
pub fn all() -> Vec<Prop> {
    vec![Prop { id: "C36", rule: "plan messages with any of their fields, in every form the format allows, cut off and spoilt; non-trivial = distinct message",
        streams: vec![p::st("wire", 200_000, 6_000_000, c36), p::st("shipped", 1, 1, c36_shipped)],
        need: vec![("whole", 50_000), ("incomplete", 2_000), ("written_otherwise", 20_000), ("cut_off", 20_000), ("spoilt_but_read", 1_000), ("shipped_plans", 200)] }]
}
