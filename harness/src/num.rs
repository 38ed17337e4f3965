//! The monitors' own phone-number record, convertible from and to the library's message.
use rlibphonenumber::{CountryCodeSource, PhoneNumber};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Src { Unspecified, Plus, Idd, NoPlus, Default }

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Num {
    pub cc: Option<i32>, pub nn: Option<u64>, pub ext: Option<String>, pub ilz: Option<bool>, pub nlz: Option<i32>,
    pub raw: Option<String>, pub src: Option<Src>, pub carrier: Option<String>,
}
impl Num {
    pub fn of(cc: i32, nsn: &str) -> Num {
        // canonical message for a calling code and a national significant number of ASCII digits
        let mut n = Num { cc: Some(cc), nn: Some(nsn.parse().unwrap_or(0)), ..Default::default() };
        n.set_zeros(nsn);
        n
    }
    pub fn set_zeros(&mut self, nsn: &str) {
        let z = nsn.bytes().take_while(|b| *b == b'0').count();
        let z = if z == nsn.len() { z.saturating_sub(1) } else { z };
        if nsn.len() >= 2 && z > 0 {
            self.ilz = Some(true);
            if z > 1 { self.nlz = Some(z as i32); }
        }
    }
    pub fn ccv(&self) -> i32 { self.cc.unwrap_or(0) }
    pub fn nnv(&self) -> u64 { self.nn.unwrap_or(0) }
    pub fn extv(&self) -> &str { self.ext.as_deref().unwrap_or("") }
    pub fn rawv(&self) -> &str { self.raw.as_deref().unwrap_or("") }
    pub fn nsn(&self) -> String {
        let z = if self.ilz == Some(true) { self.nlz.unwrap_or(1).max(0) as usize } else { 0 };
        format!("{}{}", "0".repeat(z), self.nnv())
    }
    /// identity fields only, in canonical form
    pub fn core(&self) -> Num {
        let mut n = Num { cc: Some(self.ccv()), nn: Some(self.nnv()), ..Default::default() };
        if !self.extv().is_empty() { n.ext = self.ext.clone(); }
        if self.ilz == Some(true) { n.ilz = Some(true); n.nlz = Some(self.nlz.unwrap_or(1)); }
        n
    }
    pub fn to_pb(&self) -> PhoneNumber {
        let mut p = PhoneNumber::new();
        if let Some(c) = self.cc { p.set_country_code(c); }
        if let Some(c) = self.nn { p.set_national_number(c); }
        if let Some(c) = &self.ext { p.set_extension(c.clone()); }
        if let Some(c) = self.ilz { p.set_italian_leading_zero(c); }
        if let Some(c) = self.nlz { p.set_number_of_leading_zeros(c); }
        if let Some(c) = &self.raw { p.set_raw_input(c.clone()); }
        if let Some(c) = &self.carrier { p.set_preferred_domestic_carrier_code(c.clone()); }
        if let Some(c) = self.src {
            p.set_country_code_source(match c {
                Src::Unspecified => CountryCodeSource::UNSPECIFIED, Src::Plus => CountryCodeSource::FROM_NUMBER_WITH_PLUS_SIGN,
                Src::Idd => CountryCodeSource::FROM_NUMBER_WITH_IDD, Src::NoPlus => CountryCodeSource::FROM_NUMBER_WITHOUT_PLUS_SIGN,
                Src::Default => CountryCodeSource::FROM_DEFAULT_COUNTRY,
            });
        }
        p
    }
    pub fn from_pb(p: &PhoneNumber) -> Num {
        Num {
            cc: p.has_country_code().then(|| p.country_code()),
            nn: p.has_national_number().then(|| p.national_number()),
            ext: p.has_extension().then(|| p.extension().to_string()),
            ilz: p.has_italian_leading_zero().then(|| p.italian_leading_zero()),
            nlz: p.has_number_of_leading_zeros().then(|| p.number_of_leading_zeros()),
            raw: p.has_raw_input().then(|| p.raw_input().to_string()),
            src: p.has_country_code_source().then(|| match p.country_code_source() {
                CountryCodeSource::UNSPECIFIED => Src::Unspecified,
                CountryCodeSource::FROM_NUMBER_WITH_PLUS_SIGN => Src::Plus,
                CountryCodeSource::FROM_NUMBER_WITH_IDD => Src::Idd,
                CountryCodeSource::FROM_NUMBER_WITHOUT_PLUS_SIGN => Src::NoPlus,
                CountryCodeSource::FROM_DEFAULT_COUNTRY => Src::Default,
            }),
            carrier: p.has_preferred_domestic_carrier_code().then(|| p.preferred_domestic_carrier_code().to_string()),
        }
    }
    /// libphonenumber's published wire format (phonenumber.proto), written by hand: the fields in number order
    pub fn to_wire(&self) -> Vec<u8> {
        fn varint(o: &mut Vec<u8>, mut v: u64) { while v > 127 { o.push(v as u8 | 128); v >>= 7; } o.push(v as u8); }
        fn num(o: &mut Vec<u8>, f: u64, v: u64) { varint(o, f << 3); varint(o, v); }
        fn text(o: &mut Vec<u8>, f: u64, s: &str) { varint(o, f << 3 | 2); varint(o, s.len() as u64); o.extend_from_slice(s.as_bytes()); }
        let mut o = vec![];
        if let Some(v) = self.cc { num(&mut o, 1, v as i64 as u64); }
        if let Some(v) = self.nn { num(&mut o, 2, v); }
        if let Some(v) = &self.ext { text(&mut o, 3, v); }
        if let Some(v) = self.ilz { num(&mut o, 4, v as u64); }
        if let Some(v) = &self.raw { text(&mut o, 5, v); }
        if let Some(v) = self.src { num(&mut o, 6, match v { Src::Unspecified => 0, Src::Plus => 1, Src::Idd => 5, Src::NoPlus => 10, Src::Default => 20 }); }
        if let Some(v) = &self.carrier { text(&mut o, 7, v); }
        if let Some(v) = self.nlz { num(&mut o, 8, v as i64 as u64); }
        o
    }
    /// the reader of the same format; None if the bytes are not it
    pub fn from_wire(b: &[u8]) -> Option<Num> {
        fn varint(b: &[u8], i: &mut usize) -> Option<u64> {
            let (mut v, mut s) = (0u64, 0);
            loop { let c = *b.get(*i)?; *i += 1; v |= u64::from(c & 127).checked_shl(s)?; s += 7; if c < 128 { return Some(v); } if s > 63 { return None; } }
        }
        let (mut n, mut i) = (Num::default(), 0);
        while i < b.len() {
            let k = varint(b, &mut i)?;
            match (k >> 3, k & 7) {
                (1, 0) => n.cc = Some(varint(b, &mut i)? as i32), (2, 0) => n.nn = Some(varint(b, &mut i)?), (4, 0) => n.ilz = Some(varint(b, &mut i)? != 0),
                (8, 0) => n.nlz = Some(varint(b, &mut i)? as i32),
                (6, 0) => n.src = Some(match varint(b, &mut i)? { 0 => Src::Unspecified, 1 => Src::Plus, 5 => Src::Idd, 10 => Src::NoPlus, 20 => Src::Default, _ => return None }),
                (f @ (3 | 5 | 7), 2) => {
                    let l = varint(b, &mut i)? as usize;
                    let s = String::from_utf8(b.get(i..i.checked_add(l)?)?.to_vec()).ok()?;
                    i += l;
                    match f { 3 => n.ext = Some(s), 5 => n.raw = Some(s), _ => n.carrier = Some(s) }
                }
                _ => return None,
            }
        }
        Some(n)
    }
}
