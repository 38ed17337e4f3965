//! Workload generators. Everything is derived from the case's own PRNG.
use crate::core::Case;
use crate::meta::{Fmt, Terr, Ty, TYPES};
use crate::model::F;
use crate::num::{Num, Src};
use crate::rng::Rng;
use regex_syntax::hir::{Class, Hir, HirKind};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

thread_local! { static HIRS: RefCell<HashMap<String, Rc<Hir>>> = RefCell::new(HashMap::new()); }
/// lets go of the patterns seen so far
#[allow(dead_code)]
pub fn forget() { HIRS.with(|m| m.borrow_mut().clear()); }
fn walk(r: &mut Rng, h: &Hir, out: &mut String) {
    match h.kind() {
        HirKind::Empty | HirKind::Look(_) => {}
        HirKind::Literal(l) => out.push_str(&String::from_utf8_lossy(&l.0)),
        HirKind::Class(Class::Unicode(u)) => {
            let rs = u.ranges();
            // `\d` is all of Unicode: prefer ASCII digits when the class has them
            let n: usize = rs.iter().map(|x| x.end() as usize - x.start() as usize + 1).sum();
            if n > 100 { out.push(r.digit()); return; }
            let mut k = r.below(n);
            for x in rs { let w = x.end() as usize - x.start() as usize + 1; if k < w { out.push(char::from_u32(x.start() as u32 + k as u32).unwrap()); return; } k -= w; }
        }
        HirKind::Class(Class::Bytes(u)) => { let x = &u.ranges()[0]; out.push(x.start() as char); }
        HirKind::Repetition(x) => {
            let hi = x.max.unwrap_or(x.min + 3).min(x.min + 12);
            let n = r.range(x.min as usize, hi as usize);
            for _ in 0..n { walk(r, &x.sub, out); }
        }
        HirKind::Capture(c) => walk(r, &c.sub, out),
        HirKind::Concat(v) => for x in v { walk(r, x, out) },
        HirKind::Alternation(v) => { let i = r.below(v.len()); walk(r, &v[i], out) }
    }
}
/// a string matched by the pattern
pub fn sample(r: &mut Rng, pat: &str) -> String {
    let h = HIRS.with(|m| m.borrow_mut().entry(pat.to_string()).or_insert_with(|| Rc::new(regex_syntax::parse(pat).expect("pattern"))).clone());
    let mut s = String::new();
    walk(r, &h, &mut s);
    s
}
pub fn mutate_digits(r: &mut Rng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    match r.below(7) {
        0 | 1 | 2 if !v.is_empty() => { let i = r.below(v.len()); v[i] = r.digit(); }
        3 if !v.is_empty() => { let i = r.below(v.len()); v.remove(i); }
        4 => { let i = r.below(v.len() + 1); let d = r.digit(); v.insert(i, d); }
        5 if v.len() > 1 => { let i = r.below(v.len() - 1); v.swap(i, i + 1); }
        _ => { if r.chance(1, 2) { v.pop(); } else { let d = r.digit(); v.push(d); } }
    }
    v.into_iter().collect()
}
pub const HOT: [&str; 44] = ["US", "CA", "BS", "JM", "DO", "PR", "GB", "GG", "IM", "JE", "IT", "VA", "RU", "KZ", "FR", "RE", "YT", "GP", "BR", "AR", "MX", "CL", "UZ", "CN", "DE", "AT",
    "AU", "CC", "CX", "NO", "SJ", "FI", "AX", "SH", "TA", "CO", "CR", "JP", "SG", "IL", "NZ", "HU", "ID", "KR"];
impl<'a> Case<'a> {
    pub fn terr(&mut self) -> &'static Terr {
        let m = self.meta();
        if self.r.chance(1, 4) { let k = *self.r.pick(&HOT); if let Some(t) = m.region(k) { return t; } }
        &m.terrs[self.r.below(m.terrs.len())]
    }
    pub fn region(&mut self) -> String {
        let m = self.meta();
        match self.r.below(20) {
            0 => "ZZ".into(),
            1 if self.r.chance(1, 2) => self.near_region(),
            1 => self.r.pick(&["", "001", "us", "XX", "USA", "U", "É", "00", "GB ", "ZZ"]).to_string(),
            2..=8 => { let k = *self.r.pick(&HOT); if m.region(k).is_some() || self.r.chance(1, 8) { k.to_string() } else { self.geo_region() } }
            _ => m.regions[self.r.below(m.regions.len())].clone(),
        }
    }
    /// a name that is nearly a region's
    pub fn near_region(&mut self) -> String {
        let r = self.geo_region();
        let x = *self.r.pick(&[' ', '\0', '\t', '\n', '\r', '-', '_', '.', '0', 'X', '\u{a0}', '\u{200b}', '\u{200e}', '\u{feff}', '\u{301}']);
        match self.r.below(7) {
            0 => r.to_lowercase(),
            1 => format!("{}{}", &r[..1], r[1..].to_lowercase()),
            2 => format!("{x}{r}"),
            3 => format!("{}{x}{}", &r[..1], &r[1..]),
            4 => r.chars().map(|c| char::from_u32(c as u32 + 0xfee0).unwrap_or(c)).collect(),
            5 => format!("en{x}{r}"),
            _ => format!("{r}{x}"),
        }
    }
    pub fn geo_region(&mut self) -> String {
        let m = self.meta();
        if self.r.chance(1, 3) { let k = *self.r.pick(&HOT); if m.region(k).is_some() { return k.to_string(); } }
        m.regions[self.r.below(m.regions.len())].clone()
    }
    /// a national significant number matching the plan's pattern for one of its types, of an allowed length when possible
    pub fn typed(&mut self, t: &Terr, ty: Ty) -> Option<String> {
        let d = t.d(ty);
        if !d.present || d.pattern.is_empty() { return None; }
        let lens = if d.lengths.is_empty() { &t.d(Ty::General).lengths } else { &d.lengths };
        let mut s = String::new();
        for _ in 0..6 { s = sample(&mut self.r, &d.pattern.src); if lens.contains(&(s.len() as i32)) { return Some(s); } }
        Some(s)
    }
    pub fn valid_nsn(&mut self, t: &Terr) -> String {
        for _ in 0..8 {
            let ty = TYPES[1 + self.r.below(10)].0;
            if let Some(s) = self.typed(t, ty) { if self.m().type_in(&s, t) != crate::model::NType::Unknown || self.r.chance(1, 8) { return s; } }
        }
        self.typed(t, Ty::General).unwrap_or_else(|| self.r.digits(8))
    }
    /// digits shaped by one of the plan's formats (leading digits overlaid on a match of its pattern)
    pub fn fmt_nsn(&mut self, f: &Fmt) -> String {
        let mut s: Vec<char> = sample(&mut self.r, &f.pattern.src).chars().collect();
        if let Some(l) = f.leading.last() {
            for (i, c) in sample(&mut self.r, &l.src).chars().enumerate() { if i < s.len() { s[i] = c } else { break } }
        }
        s.into_iter().collect()
    }
    /// any national significant number around a plan
    pub fn any_nsn(&mut self, t: &Terr) -> String {
        let s = match self.r.below(20) {
            0..=7 => self.valid_nsn(t),
            8..=11 => { let s = self.valid_nsn(t); mutate_digits(&mut self.r, &s) }
            12 | 13 if !t.fmts.is_empty() => { let i = self.r.below(t.fmts.len()); self.fmt_nsn(&t.fmts[i]) }
            14 if !t.ifmts.is_empty() => { let i = self.r.below(t.ifmts.len()); self.fmt_nsn(&t.ifmts[i]) }
            15 => {
                let d = t.d(Ty::General);
                let s = self.valid_nsn(t);
                let n = match self.r.below(3) { 0 => *self.r.pick(&d.lengths), 1 if !d.local.is_empty() => *self.r.pick(&d.local), _ => self.r.range(1, 17) as i32 }.max(1) as usize;
                let mut v: String = s.chars().take(n).collect();
                while v.len() < n { v.push(self.r.digit()); }
                v
            }
            16 => self.typed(t, Ty::NoIntl).unwrap_or_else(|| self.r.digits(9)),
            17 => { let z = if self.r.chance(1, 4) { self.r.range(5, 17) } else { self.r.range(1, 4) }; format!("{}{}", "0".repeat(z), self.valid_nsn(t)) }
            18 => { let n = self.r.range(1, 18); self.r.digits(n) }
            _ => { let s = self.valid_nsn(t); let k = self.r.range(1, 3); let e = self.r.digits(k); s + &e }
        };
        let s: String = s.chars().filter(|c| c.is_ascii_digit()).take(19).collect();
        if s.is_empty() { "12".into() } else { s }
    }
    pub fn valid_num(&mut self) -> (Num, &'static Terr) {
        for _ in 0..40 {
            let t = self.terr();
            let s = self.valid_nsn(t);
            let n = Num::of(t.cc, &s);
            if n.nsn() == s && self.m().valid(&n) { return (n, t); }
        }
        match self.meta().region("US").filter(|t| t.cc == 1) {
            Some(t) => (Num::of(1, "2015550123"), t),
            None => self.any_num(),
        }
    }
    pub fn any_num(&mut self) -> (Num, &'static Terr) {
        let t = self.terr();
        let s = self.any_nsn(t);
        (Num::of(t.cc, &s), t)
    }
    pub fn ext(&mut self) -> String { let n = match self.r.below(6) { 0 => 1, 1 => self.r.range(7, 20), _ => self.r.range(2, 6) }; self.r.digits(n) }
    /// whatever a caller may have put into the extension field, never empty
    pub fn ext_text(&mut self) -> String {
        let s = match self.r.below(5) {
            0 => { let a = self.r.digits(2); let b = self.r.digits(2); format!("{a}{}{b}", self.r.pick(&[",", "#", " ", "-", "x", ";", "/", "$1", "$", "0"])) }
            1 => self.weird(5),
            2 => format!("{}{}", self.r.pick(&["#", "x", " ", "ext. ", "+", "\u{663}", "A"]), self.r.digits(2)),
            _ => self.ext(),
        };
        if s.is_empty() { self.ext() } else { s }
    }
    pub fn with_ext(&mut self, mut n: Num, num: usize, den: usize) -> Num { if self.r.chance(num, den) { n.ext = Some(self.ext()); } n }
    /// provenance fields as a caller might have set them
    pub fn dress(&mut self, mut n: Num) -> Num {
        if self.r.chance(1, 2) { n.src = Some(*self.r.pick(&[Src::Unspecified, Src::Plus, Src::Idd, Src::NoPlus, Src::Default])); }
        if self.r.chance(1, 3) { n.raw = Some(self.spell_plain(&n.nsn())); }
        if self.r.chance(1, 4) { let k = self.r.range(0, 3); n.carrier = Some(self.r.digits(k)); }
        n
    }
    /// messages nobody should send
    pub fn hostile_num(&mut self) -> Num {
        let (b, _) = self.any_num();
        let mut n = Num::default();
        n.cc = match self.r.below(9) { 0 => None, 1 => Some(0), 2 => Some(-1), 3 => Some(i32::MAX), 4 => Some(i32::MIN), 5 => Some(999), 6 => Some(self.r.below(1000) as i32), _ => b.cc };
        n.nn = match self.r.below(9) { 0 => None, 1 => Some(0), 2 => Some(u64::MAX), 3 => Some(self.r.u64()), 4 => Some(self.r.below(100) as u64), 5 => Some(10u64.pow(self.r.below(20) as u32)), _ => b.nn };
        n.ilz = match self.r.below(4) { 0 => Some(true), 1 => Some(false), _ => None };
        n.nlz = match self.r.below(9) { 0 => Some(0), 1 => Some(-1), 2 => Some(i32::MIN), 3 => Some(2), 4 => Some(self.r.below(30) as i32), 5 => Some(self.r.below(3000) as i32), _ => None };
        n.ext = match self.r.below(5) { 0 => Some(String::new()), 1 => Some(self.weird(6)), 2 => Some(self.ext()), _ => None };
        n.raw = match self.r.below(6) { 0 => Some(String::new()), 1 => Some(self.weird(20)), 2 => Some(self.text().0), 3 => Some(self.spell_plain(&b.nsn())), _ => None };
        n.src = match self.r.below(6) { 0 => None, 1 => Some(Src::Unspecified), 2 => Some(Src::Plus), 3 => Some(Src::Idd), 4 => Some(Src::NoPlus), _ => Some(Src::Default) };
        n.carrier = match self.r.below(5) { 0 => Some(String::new()), 1 => Some(self.weird(4)), 2 => Some(self.r.digits(2)), _ => None };
        n
    }
    // ---- texts -------------------------------------------------------------------------------------------------
    pub fn alien_digit(&mut self, d: char) -> char {
        thread_local! { static ALL: RefCell<Vec<char>> = const { RefCell::new(Vec::new()) } }
        let v = d.to_digit(10).unwrap() as usize;
        ALL.with(|a| {
            let mut a = a.borrow_mut();
            if a.is_empty() { *a = self.m().all_digits(); }
            a[self.r.below(a.len() / 10) * 10 + v]
        })
    }
    pub fn sep(&mut self) -> char { *self.r.pick(&SEPS) }
    /// digits with separators sprinkled between them
    pub fn spell(&mut self, digits: &str) -> String {
        let mut out = String::new();
        let style = self.r.below(5);
        let script = self.r.below(6);
        let one = self.sep();
        for (i, d) in digits.chars().enumerate() {
            if i > 0 {
                match style { 0 => {} 1 => if self.r.chance(1, 4) { out.push(' ') }, 2 => if self.r.chance(1, 3) { out.push(one) }, _ => while self.r.chance(1, 4) { let c = self.sep(); out.push(c) } }
            }
            if d.is_ascii_digit() && (script == 0 || (script == 1 && self.r.chance(1, 3))) { let c = self.alien_digit(d); out.push(c); } else { out.push(d); }
        }
        out
    }
    pub fn spell_plain(&mut self, digits: &str) -> String {
        let mut out = String::new();
        let c = *self.r.pick(&[' ', '-', '.', '/']);
        let k = self.r.range(2, 5);
        for (i, d) in digits.chars().enumerate() { if i > 0 && i % k == 0 && self.r.chance(2, 3) { out.push(c) } out.push(d); }
        if self.r.chance(1, 6) && out.len() > 3 { out.insert(0, '('); let k = out.char_indices().nth(4).map(|x| x.0).unwrap_or(out.len()); out.insert(k, ')'); }
        out
    }
    pub fn plus(&mut self) -> String { self.r.pick(&["+", "+", "+", "\u{FF0B}", "++", "+\u{FF0B}"]).to_string() }
    pub fn ext_label(&mut self) -> (String, usize) {
        let (l, max) = self.r.pick(&EXT_LABELS).clone();
        let l: String = if self.r.chance(1, 4) { l.to_uppercase() } else { l.to_string() };
        (l, max)
    }
    /// a prefix someone in this region might dial before a national number
    pub fn nat_prefix(&mut self, t: &Terr) -> String {
        if t.np_for_parsing.is_empty() || self.r.chance(1, 3) { return t.np.clone(); }
        sample(&mut self.r, &t.np_for_parsing.src)
    }
    pub fn idd(&mut self, t: &Terr) -> String {
        if t.intl_prefix.is_empty() { return "00".into(); }
        sample(&mut self.r, &t.intl_prefix.src)
    }
    /// letters for some of the digits
    pub fn vanity(&mut self, digits: &str) -> String {
        let n = digits.chars().count();
        let from = self.r.below(n.max(1)).min(n.saturating_sub(3));
        digits.chars().enumerate().map(|(i, d)| {
            let l = match d { '2' => "ABC", '3' => "DEF", '4' => "GHI", '5' => "JKL", '6' => "MNO", '7' => "PQRS", '8' => "TUV", '9' => "WXYZ", _ => "" };
            if i >= from.max(3) && !l.is_empty() { let c = *self.r.pick(&l.chars().collect::<Vec<_>>()); if self.r.chance(1, 2) { c.to_ascii_lowercase() } else { c } } else { d }
        }).collect()
    }
    pub fn weird(&mut self, max: usize) -> String {
        let n = self.r.below(max + 1);
        (0..n).map(|_| self.weird_char()).collect()
    }
    pub fn weird_char(&mut self) -> char {
        match self.r.below(12) {
            0..=2 => self.r.digit(),
            3 => self.sep(),
            4 => (0x20 + self.r.below(0x5f) as u8) as char,
            5 => { let d = self.r.digit(); self.alien_digit(d) }
            6 => *self.r.pick(&['+', '\u{FF0B}', '*', '#', ';', ',', '=', 'x', 'X', '$', '\\', '\n', '\0', '\t', '~', '%']),
            7 => *self.r.pick(&['\u{301}', '\u{17F}', '\u{212A}', 'ß', 'İ', '٪', '½', 'Ⅷ', '²', '①', '\u{202E}', '\u{FEFF}', '😀', '\u{10FFFF}', 'д', 'о', 'б', 'é', '\u{E000}']),
            8 => (b'a' + self.r.below(26) as u8) as char,
            _ => loop { if let Some(c) = char::from_u32(self.r.below(0x110000) as u32) { break c } },
        }
    }
    pub fn word(&mut self) -> String {
        if self.r.chance(1, 3) && !self.e.words.is_empty() { let i = self.r.below(self.e.words.len()); return self.e.words[i].clone(); }
        self.r.pick(&WORDS).to_string()
    }
    pub fn mutate_text(&mut self, s: &str) -> String {
        let mut v: Vec<char> = s.chars().collect();
        for _ in 0..self.r.range(1, 3) {
            let i = self.r.below(v.len() + 1);
            match self.r.below(7) {
                0 if i < v.len() => { v.remove(i); }
                1 => { let c = self.weird_char(); v.insert(i, c) }
                2 if i < v.len() => { v[i] = self.weird_char() }
                3 => { for (k, c) in self.word().chars().enumerate() { v.insert(i + k, c) } }
                4 if i + 1 < v.len() => v.swap(i, i + 1),
                5 => v.truncate(i),
                _ => { let d = self.r.digit(); v.insert(i, d) }
            }
        }
        v.into_iter().collect()
    }
    /// the digits of a number as dialled from `from`, in one of many ways (plus ones that need not work)
    pub fn dialled(&mut self, n: &Num, t: &Terr, from: &str) -> String {
        let nsn = n.nsn();
        let ft = self.meta().region(from);
        match self.r.below(10) {
            0 | 1 => format!("{}{}{}", self.plus(), n.ccv(), nsn),
            2 => format!("{}{}", n.ccv(), nsn),
            3 | 4 => match ft { Some(ft) => { let p = self.idd(ft); format!("{p}{}{nsn}", n.ccv()) } None => format!("00{}{nsn}", n.ccv()) },
            5 | 6 => { let p = self.nat_prefix(t); format!("{p}{nsn}") }
            7 => { let p = self.nat_prefix(t); format!("{}{}{p}{nsn}", if self.r.chance(1, 2) { "+" } else { "" }, n.ccv()) }
            _ => nsn,
        }
    }
    pub fn tel_uri(&mut self, n: &Num) -> String {
        let mut parts: Vec<String> = vec![];
        let ctx = match self.r.below(9) {
            0 => format!("+{}", n.ccv()),
            1 => format!("+{}", self.r.digits(2)),
            2 => "example.com".into(),
            3 => "a.b-c.d9.".into(),
            4 => { let s = format!("+{}{}", n.ccv(), &n.nsn()[..1]); self.spell_ctx(&s) }
            5 => String::new(),
            6 => self.r.pick(&["+", "-a.com", "a-.com", "a..com", "9", "a.9", "+12a", "١٢.a", "+١٢", "a_b", ".", "a.", "+-", "A.B", "abc."]).to_string(),
            7 => self.mutate_text("+44.example"),
            _ => format!("+{}", self.r.digits(1)),
        };
        let nsn = n.nsn();
        let body = match self.r.below(4) { 0 => format!("+{}{}", n.ccv(), nsn), 1 => self.spell(&nsn), 2 => self.spell_plain(&nsn), _ => nsn };
        let k = self.r.below(10);
        if k < 8 { parts.push(format!(";phone-context={ctx}")); }
        if self.r.chance(1, 3) { parts.push(format!(";ext={}", self.ext())); }
        if self.r.chance(1, 3) { parts.push(format!(";isub={}", self.r.digits(4))); }
        if self.r.chance(1, 4) { parts.push(self.r.pick(&[";tel:555", "tel:", ";a=b", ";phone-context=+1", ";ext=", ";isub=", ";TEL:9", "tel:+1"]).to_string()); }
        for i in (1..parts.len()).rev() { let j = self.r.below(i + 1); parts.swap(i, j); }
        let scheme = self.r.pick(&["tel:", "tel:", "tel:", "", "TEL:", "tel:tel:", "call tel:", " tel: "]).to_string();
        let mut s = scheme + &body + &parts.concat();
        if self.r.chance(1, 8) { s = self.mutate_text(&s); }
        s
    }
    fn spell_ctx(&mut self, s: &str) -> String { let mut o = String::new(); for c in s.chars() { o.push(c); if self.r.chance(1, 3) { o.push(*self.r.pick(&['-', '.', '(', ')'])) } } o }
    /// any text plus the region to parse it in
    pub fn text(&mut self) -> (String, String) {
        let (n, t) = self.any_num();
        let from = match self.r.below(4) { 0 | 1 if t.id != "001" => t.id.clone(), 2 => self.geo_region(), _ => self.region() };
        let mut s = match self.r.below(24) {
            0..=7 => { let d = self.dialled(&n, t, &from); self.spell(&d) }
            8 | 9 => { let d = self.dialled(&n, t, &from); self.spell_plain(&d) }
            10 => { let d = self.dialled(&n, t, &from); let v = self.vanity(&d); self.spell_plain(&v) }
            11..=13 => self.tel_uri(&n),
            14 => { let f = *self.r.pick(&[F::E164, F::Intl, F::Nat, F::Rfc]); let m = self.with_ext(n.clone(), 1, 3); self.m().format(&m, f) }
            15 => { let f = self.geo_region(); let m = self.with_ext(n.clone(), 1, 3); self.m().out_of_country(&m, &f) }
            16 | 17 => { let k = self.r.range(1, 6); (0..k).map(|_| self.word()).collect() }
            18 => self.weird(24),
            19 => { let a = self.dialled(&n, t, &from); let b = self.word(); let c = self.r.digits(4); let w = self.word(); format!("{w}{a}{b}{c}") }
            20 => { let k = self.r.range(1, 22); self.r.digits(k) }
            21 => { let a = self.dialled(&n, t, &from); format!("{} / {}", self.spell_plain(&a), self.r.digits(4)) }
            22 => { let a = self.dialled(&n, t, &from); let x = self.ext(); let y = self.ext(); format!("{} x{x}/x{y}", self.spell_plain(&a)) }
            _ => { let v = ["112", "911", "0", "00", "+", "12", "1", "+1", "001", "*123#"]; self.r.pick(&v).to_string() }
        };
        if self.r.chance(1, 5) { let (l, max) = self.ext_label(); let k = self.r.range(1, max + 1); s = format!("{s}{l}{}", self.r.digits(k)); if self.r.chance(1, 6) { s.push('#'); } }
        if self.r.chance(1, 8) { s = self.mutate_text(&s); }
        if self.r.chance(1, 12) { s = format!("{}{s}", self.r.pick(&["Tel: ", "(", " ", "abc ", "☎ ", "\u{202A}", "-", "."])); }
        if self.r.chance(1, 12) { s = format!("{s}{}", self.r.pick(&[".", " ", ")", "\u{202C}", "!", "\n", " -", ";"])); }
        (s, from)
    }
}
pub const SEPS: [char; 34] = ['-', ' ', '.', '/', '(', ')', '[', ']', '~', '\u{2010}', '\u{2011}', '\u{2012}', '\u{2013}', '\u{2014}', '\u{2015}', '\u{2212}', '\u{30FC}', '\u{FF0D}', '\u{FF0E}',
    '\u{FF0F}', '\u{A0}', '\u{AD}', '\u{200B}', '\u{2060}', '\u{3000}', '\u{FF08}', '\u{FF09}', '\u{FF3B}', '\u{FF3D}', '\u{2053}', '\u{223C}', 'x', ' ', '-'];
/// label spelling, most digits it may carry
pub const EXT_LABELS: [(&str, usize); 47] = [(";ext=", 20), ("ext. ", 20), (" ext ", 20), (" extension ", 20), (" extn:", 20), (", ext.", 20), (" xtn ", 20), (" xt", 20), (" extensi\u{f3}n ", 20),
    (" extensio\u{301}n ", 20), (" extensi\u{f3} ", 20), (" extensio ", 20), (" \u{FF45}\u{FF58}\u{FF54}\u{FF4E} ", 20), (" \u{FF45}\u{FF58}\u{FF54}", 20), ("\u{FF58}\u{FF54}", 20), ("\u{FF58}\u{FF54}\u{FF4E} ", 20),
    (" доб ", 20), (" доб. ", 20), (" anexo ", 20), (" anexo: ", 20), (" x", 9), ("x ", 9), (" #", 9), ("#", 9), (" ~ ", 9), (" int ", 9), ("int. ", 9), (" \u{FF58} ", 9), ("\u{FF03}", 9), ("\u{FF5E}", 9),
    (" \u{FF49}\u{FF4E}\u{FF54} ", 9), (",,", 15), (" ,, ", 15), (";", 15), (" ; ", 15), (",", 9), (",,,", 15), (" ,, ,", 15), ("\u{A0}ext\u{FF0E}\u{A0}", 20), ("\tx:", 9), (" - ext - ", 20), (" x.-", 9), ("ext=", 0), (";ext", 0),
    (" e", 0), (" xtension ", 20), ("xtensi\u{f3}n ", 20)];
pub const WORDS: [&str; 56] = ["tel:", ";phone-context=", ";ext=", ";isub=", "+", "\u{FF0B}", "00", "011", "0", "1", "44", "+44", "+1", "x", "/x", "\\ x", "/ x", "ext", "ext.", "extension", "#", "*", "~", ",", ",,", ";", " ", "-",
    ".", "(", ")", "[", "]", "/", "650", "253 0000", "2530000", "١٢٣", "\u{FF11}\u{FF12}", "ABC", "FLOWERS", "example.com", "+64", "doб", "доб", "anexo", "int", "123456789", "\n", "\t", "\u{AD}", "\u{200B}", "9", "8~10", "$1", "$NP"];
