//! Executable reference model of the published libphonenumber algorithms over the XML plans.
use crate::meta::{Fmt, Meta, Pat, Terr, Ty};
use crate::num::{Num, Src};
use regex_syntax::hir::{Class, HirKind};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum PErr { InvalidCountryCode, NotViable, PhoneContext, NoStart, Extract, TooShortIdd, TooShortNsn, TooLongNsn, IntParse }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum NType { FixedLine, Mobile, FixedLineOrMobile, TollFree, Premium, SharedCost, Voip, Personal, Pager, Uan, Voicemail, Unknown }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Len { Possible, LocalOnly, BadCc, TooShort, Invalid, TooLong }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum F { E164, Intl, Nat, Rfc }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum M { No, Short, Nsn, Exact }

pub fn class_ranges(c: &str) -> Vec<(char, char)> {
    let h = regex_syntax::parse(c).unwrap();
    match h.kind() { HirKind::Class(Class::Unicode(u)) => u.ranges().iter().map(|r| (r.start(), r.end())).collect(), _ => panic!("class") }
}
pub struct Model<'m> { pub meta: &'m Meta, nd: Vec<(char, char)>, keep_end: Vec<(char, char)> }

fn in_ranges(v: &[(char, char)], c: char) -> Option<usize> {
    v.binary_search_by(|(a, b)| if c < *a { std::cmp::Ordering::Greater } else if c > *b { std::cmp::Ordering::Less } else { std::cmp::Ordering::Equal }).ok()
}
pub fn is_plus(c: char) -> bool { c == '+' || c == '\u{FF0B}' }
/// punctuation accepted inside phone numbers (x in either case, since matching is case-insensitive)
pub fn is_punct(c: char) -> bool {
    matches!(c, '-' | 'x' | 'X' | '\u{2010}'..='\u{2015}' | '\u{2212}' | '\u{30FC}' | '\u{FF0D}'..='\u{FF0F}' | ' ' | '\u{A0}' | '\u{AD}'
        | '\u{200B}' | '\u{2060}' | '\u{3000}' | '(' | ')' | '\u{FF08}' | '\u{FF09}' | '\u{FF3B}' | '\u{FF3D}' | '.' | '[' | ']' | '/' | '~' | '\u{2053}' | '\u{223C}')
}
fn is_sep(c: char) -> bool { is_punct(c) && c != 'X' } // separators of the formatter: case-sensitive
fn is_alpha_ci(c: char) -> bool { c.is_ascii_alphabetic() || c == '\u{17F}' || c == '\u{212A}' }
fn fold(c: char) -> char {
    match c { '\u{17F}' => 's', '\u{212A}' => 'k', '\u{1C81}' => 'д', '\u{1C82}' => 'о', '\u{FF25}' => '\u{FF45}', '\u{FF38}' => '\u{FF58}', '\u{FF34}' => '\u{FF54}',
        '\u{FF2E}' => '\u{FF4E}', '\u{FF29}' => '\u{FF49}', c if c.is_ascii() => c.to_ascii_lowercase(), c => { let mut l = c.to_lowercase(); let f = l.next().unwrap(); if l.next().is_none() { f } else { c } } }
}
pub fn keypad(c: char) -> Option<char> {
    Some(match c.to_ascii_uppercase() {
        'A'..='C' => '2', 'D'..='F' => '3', 'G'..='I' => '4', 'J'..='L' => '5', 'M'..='O' => '6', 'P'..='S' => '7', 'T'..='V' => '8', 'W'..='Z' => '9', _ => return None,
    })
}
pub fn diallable(s: &str) -> String { s.chars().filter(|c| c.is_ascii_digit() || matches!(c, '+' | '*' | '#')).collect() }
pub fn ascii_digits(s: &str) -> String { s.chars().filter(|c| c.is_ascii_digit()).collect() }

/// "$d" expansion with single-digit group references
fn expand(tmpl: &str, caps: &regex::Captures) -> String {
    let mut out = String::new();
    let mut it = tmpl.chars().peekable();
    while let Some(c) = it.next() {
        if c == '$' {
            if let Some(d) = it.peek().and_then(|x| x.to_digit(10)) {
                it.next();
                if let Some(m) = caps.get(d as usize) { out.push_str(m.as_str()); }
                continue;
            }
        }
        out.push(c);
    }
    out
}
/// Replace the first "$d" of `format` by `rule`, in which "$1" stands for that very "$d".
fn splice_rule(format: &str, rule: &str) -> String {
    let b = format.as_bytes();
    for i in 0..b.len().saturating_sub(1) {
        if b[i] == b'$' && b[i + 1].is_ascii_digit() {
            return format!("{}{}{}", &format[..i], rule.replace("$1", &format[i..i + 2]), &format[i + 2..]);
        }
    }
    format.to_string()
}

impl<'m> Model<'m> {
    pub fn new(meta: &'m Meta) -> Self { Model { meta, nd: class_ranges(r"\p{Nd}"), keep_end: class_ranges(r"[\p{N}\p{L}#]") } }
    pub fn all_digits(&self) -> Vec<char> {
        self.nd.iter().flat_map(|(a, b)| (*a..=*b)).collect()
    }
    /// decimal value of a character of category Nd (blocks of ten, in order)
    pub fn digit(&self, c: char) -> Option<u8> {
        if c.is_ascii_digit() { return Some(c as u8 - b'0'); }
        in_ranges(&self.nd, c).map(|i| ((c as u32 - self.nd[i].0 as u32) % 10) as u8)
    }
    pub fn keeps_end(&self, c: char) -> bool { in_ranges(&self.keep_end, c).is_some() }
    pub fn digits_only(&self, s: &str) -> String { s.chars().filter_map(|c| self.digit(c).map(|d| (b'0' + d) as char)).collect() }
    pub fn is_alpha_text(&self, s: &str) -> bool { s.lines().any(|l| l.chars().filter(|c| c.is_ascii_alphabetic()).count() >= 3) }
    pub fn normalize(&self, s: &str) -> String {
        if self.is_alpha_text(s) {
            s.chars().filter_map(|c| if c.is_ascii_digit() { Some(c) } else { keypad(c) }).collect()
        } else { self.digits_only(s) }
    }
    // ---- viability and extensions --------------------------------------------------------------------------
    fn core_viable(&self, s: &[char]) -> bool {
        let mut i = 0;
        while i < s.len() && is_plus(s[i]) { i += 1; }
        let mut n = 0;
        while i < s.len() && n < 3 {
            if self.digit(s[i]).is_some() { n += 1; } else if !(is_punct(s[i]) || s[i] == '*') { return false; }
            i += 1;
        }
        n == 3 && s[i..].iter().all(|c| is_punct(*c) || *c == '*' || is_alpha_ci(*c) || self.digit(*c).is_some())
    }
    /// whole of `s` is one extension spelling; returns its digits
    pub fn ext_whole(&self, s: &[char]) -> Option<String> {
        let eq = |i: usize, lit: &str| -> Option<usize> {
            let mut j = i;
            for l in lit.chars() { if j >= s.len() || fold(s[j]) != l { return None; } j += 1; }
            Some(j)
        };
        let dig = |i: usize, max: usize, hash_opt: bool, hash_req: bool| -> Option<String> {
            let mut j = s.len();
            if j > i && s[j - 1] == '#' { if hash_opt || hash_req { j -= 1 } else { return None } } else if hash_req { return None }
            if j <= i || j - i > max || !s[i..j].iter().all(|c| self.digit(*c).is_some()) { return None }
            Some(s[i..j].iter().collect())
        };
        let run = |mut i: usize, set: &str| -> usize { while i < s.len() && set.contains(s[i]) { i += 1 } i };
        // after a label: optional full stop or colon, then spaces, tabs, commas, hyphens
        let after = |i: usize| -> usize {
            let k = if i < s.len() && matches!(s[i], ':' | '.' | '\u{FF0E}') { i + 1 } else { i };
            run(k, " \u{A0}\t,-")
        };
        if let Some(i) = eq(0, ";ext=") { if let Some(d) = dig(i, 20, false, false) { return Some(d); } }
        let i0 = run(0, " \u{A0}\t,");
        for l in ["extension", "extensio\u{301}n", "extensi\u{f3}n", "extensio", "extensio\u{301}", "extensi\u{f3}", "extn", "ext",
            "xtension", "xtensio\u{301}n", "xtensi\u{f3}n", "xtensio", "xtensio\u{301}", "xtensi\u{f3}", "xtn", "xt",
            "\u{FF45}\u{FF58}\u{FF54}\u{FF4E}", "\u{FF45}\u{FF58}\u{FF54}", "\u{FF58}\u{FF54}\u{FF4E}", "\u{FF58}\u{FF54}", "доб", "anexo"] {
            if let Some(i) = eq(i0, l) { if let Some(d) = dig(after(i), 20, true, false) { return Some(d); } }
        }
        for l in ["x", "\u{FF58}", "#", "\u{FF03}", "~", "\u{FF5E}", "int", "\u{FF49}\u{FF4E}\u{FF54}"] {
            if let Some(i) = eq(i0, l) { if let Some(d) = dig(after(i), 9, true, false) { return Some(d); } }
        }
        let i = run(0, "- ");
        if i > 0 { if let Some(d) = dig(i, 6, false, true) { return Some(d); } }
        let i0 = run(0, " \u{A0}\t");
        for l in [",,", ";"] { if let Some(i) = eq(i0, l) { if let Some(d) = dig(after(i), 15, true, false) { return Some(d); } } }
        let i = run(i0, ",");
        if i > i0 { if let Some(d) = dig(after(i), 9, true, false) { return Some(d); } }
        None
    }
    pub fn viable(&self, t: &str) -> bool {
        let s: Vec<char> = t.chars().collect();
        if s.len() < 2 { return false; }
        if s.len() == 2 && s.iter().all(|c| self.digit(*c).is_some()) { return true; }
        if self.core_viable(&s) { return true; }
        (1..s.len()).any(|i| self.core_viable(&s[..i]) && self.ext_whole(&s[i..]).is_some())
    }
    /// (number without extension, extension)
    pub fn strip_ext<'a>(&self, t: &'a str) -> (&'a str, Option<String>) {
        let s: Vec<char> = t.chars().collect();
        let mut byte = 0;
        for i in 0..s.len() {
            if let Some(d) = self.ext_whole(&s[i..]) {
                return if self.viable(&t[..byte]) { (&t[..byte], Some(d)) } else { (t, None) };
            }
            byte += s[i].len_utf8();
        }
        (t, None)
    }
    // ---- parsing -----------------------------------------------------------------------------------------------
    pub fn context_valid(&self, c: &str) -> bool {
        if c.is_empty() { return false; }
        // global-number-digits = "+" *phonedigit DIGIT *phonedigit
        if let Some(r) = c.strip_prefix('+') {
            return r.chars().all(|x| self.digit(x).is_some() || matches!(x, '-' | '.' | '(' | ')')) && r.chars().any(|x| self.digit(x).is_some());
        }
        // domainname = *( domainlabel "." ) toplabel [ "." ]
        let c = c.strip_suffix('.').unwrap_or(c);
        let labels: Vec<&str> = c.split('.').collect();
        let an = |x: char| x.is_ascii_alphabetic() || self.digit(x).is_some();
        labels.iter().enumerate().all(|(i, l)| {
            let v: Vec<char> = l.chars().collect();
            !v.is_empty() && an(v[0]) && an(v[v.len() - 1]) && v.iter().all(|x| an(*x) || *x == '-')
                && (i + 1 < labels.len() || v[0].is_ascii_alphabetic())
        })
    }
    pub fn extract<'a>(&self, t: &'a str) -> Result<&'a str, PErr> {
        let st = t.char_indices().find(|(_, c)| is_plus(*c) || self.digit(*c).is_some()).map(|(i, _)| i).ok_or(PErr::NoStart)?;
        let t = t[st..].trim_end_matches(|c| !self.keeps_end(c));
        if t.is_empty() { return Err(PErr::Extract); }
        // a slash or backslash followed by x starts a second number
        for line in t.split('\n') {
            let b = line.as_bytes();
            for i in (0..b.len()).rev() {
                if (b[i] == b'/' || b[i] == b'\\') && line[i + 1..].trim_start_matches(' ').starts_with('x') { return Ok(&line[..i]); }
            }
        }
        Ok(t)
    }
    pub fn build(&self, t: &str) -> Result<String, PErr> {
        let mut out = String::new();
        if let Some(pc) = t.find(";phone-context=") {
            let rest = &t[pc + 15..];
            let ctx = rest.split(';').next().unwrap_or("");
            if !self.context_valid(ctx) { return Err(PErr::PhoneContext); }
            if ctx.starts_with('+') { out.push_str(ctx); }
            let head = &t[..pc];
            out.push_str(head.find("tel:").map(|i| &head[i + 4..]).unwrap_or(head));
        } else { out.push_str(self.extract(t)?); }
        if let Some(i) = out.find(";isub=") { out.truncate(i); }
        Ok(out)
    }
    pub fn length(&self, nsn: &str, t: &Terr, ty: Ty) -> Len {
        // (a length table that is absent is the general one)
        let g = t.d(Ty::General);
        let d = t.d(ty);
        let lens = if d.lengths.is_empty() { &g.lengths } else { &d.lengths };
        let n = nsn.len() as i32;
        if lens.first().copied().unwrap_or(-1) == -1 { return Len::Invalid; }
        if d.local.contains(&n) { return Len::LocalOnly; }
        let (lo, hi) = (lens[0], lens[lens.len() - 1]);
        if lens.contains(&n) { Len::Possible } else if n < lo { Len::TooShort } else if n > hi { Len::TooLong } else { Len::Invalid }
    }
    /// national prefix and carrier code removal; returns (number, carrier)
    pub fn strip_np(&self, n: &str, t: &Terr) -> (String, Option<String>) {
        let p = &t.np_for_parsing;
        if n.is_empty() || p.is_empty() { return (n.into(), None); }
        let Some(c) = p.pre_re().captures(n) else { return (n.into(), None) };
        let g = &t.d(Ty::General).pattern;
        let viable = g.full(n);
        let groups = c.len() - 1;
        let last = c.get(groups);
        let end = c.get(0).unwrap().end();
        if t.np_transform.is_empty() || groups == 0 || last.is_none() {
            if viable && !g.full(&n[end..]) { return (n.into(), None); }
            let car = if groups > 0 && last.is_some() { c.get(1).map(|m| m.as_str().to_string()) } else { None };
            (n[end..].into(), car)
        } else {
            let r = format!("{}{}", expand(&t.np_transform, &c), &n[end..]);
            if viable && !g.full(&r) { return (n.into(), None); }
            let car = if groups > 1 { c.get(1).map(|m| m.as_str().to_string()) } else { None };
            (r, car)
        }
    }
    fn take_cc(&self, n: &str) -> Option<(i32, String)> {
        if n.is_empty() || n.starts_with('0') { return None; }
        (1..=3.min(n.len())).find_map(|i| { let c: i32 = n[..i].parse().ok()?; self.meta.by_cc.contains_key(&c).then(|| (c, n[i..].to_string())) })
    }
    /// (national number, calling code or 0, source)
    fn extract_cc(&self, n: &str, def: Option<&Terr>) -> Result<(String, i32, Src), PErr> {
        let plus = n.chars().take_while(|c| is_plus(*c)).map(|c| c.len_utf8()).sum::<usize>();
        let (num, src) = if n.is_empty() { (String::new(), Src::Default) } else if plus > 0 { (self.normalize(&n[plus..]), Src::Plus) } else {
            let num = self.normalize(n);
            match def.and_then(|d| d.intl_prefix.pre_re().find(&num)) {
                Some(m) if !num[m.end()..].starts_with('0') => (num[m.end()..].to_string(), Src::Idd),
                _ => (num, Src::Default),
            }
        };
        if src != Src::Default {
            if num.len() <= 2 { return Err(PErr::TooShortIdd); }
            return self.take_cc(&num).map(|(c, r)| (r, c, src)).ok_or(PErr::InvalidCountryCode);
        }
        if let Some(d) = def {
            if let Some(rest) = num.strip_prefix(&d.cc.to_string()) {
                let g = &d.d(Ty::General).pattern;
                let cand = self.strip_np(rest, d).0;
                if (!g.full(&num) && g.full(&cand)) || self.length(&num, d, Ty::General) == Len::TooLong {
                    return Ok((cand, d.cc, Src::NoPlus));
                }
            }
        }
        Ok((num, 0, Src::Default))
    }

    pub fn parse(&self, text: &str, region: &str, keep: bool) -> Result<Num, PErr> { self.parse_with(text, region, keep, true) }
    /// `check`: refuse a number without a plus sign when there is no region to read it in
    pub fn parse_with(&self, text: &str, region: &str, keep: bool, check: bool) -> Result<Num, PErr> {
        let nat = self.build(text)?;
        if !self.viable(&nat) { return Err(PErr::NotViable); }
        let mut terr = self.meta.region(region);
        if check && terr.is_none() && !nat.starts_with(is_plus) { return Err(PErr::InvalidCountryCode); }
        let mut out = Num::default();
        if keep { out.raw = Some(text.to_string()); }
        let (nat, ext) = self.strip_ext(&nat);
        out.ext = ext;
        let (mut n, mut cc, src) = match self.extract_cc(nat, terr) {
            Err(PErr::InvalidCountryCode) => {
                let r = nat.trim_start_matches(is_plus);
                if r.len() == nat.len() { return Err(PErr::InvalidCountryCode); }
                let x = self.extract_cc(r, terr)?;
                if x.1 == 0 { return Err(PErr::InvalidCountryCode); }
                x
            }
            x => x?,
        };
        if keep { out.src = Some(src); }
        if cc != 0 { if self.meta.main_region(cc) != region { terr = self.meta.main_terr(cc); } }
        else if let Some(t) = terr { cc = t.cc; }
        if n.len() < 2 { return Err(PErr::TooShortNsn); }
        if let Some(t) = terr {
            let (m, car) = self.strip_np(&n, t);
            if !matches!(self.length(&m, t, Ty::General), Len::TooShort | Len::LocalOnly | Len::Invalid) {
                n = m;
                if keep { out.carrier = car.filter(|c| !c.is_empty()); }
            }
        }
        if n.len() < 2 { return Err(PErr::TooShortNsn); }
        if n.len() > 17 { return Err(PErr::TooLongNsn); }
        out.cc = Some(cc);
        out.set_zeros(&n);
        out.nn = Some(n.parse().map_err(|_| PErr::IntParse)?);
        Ok(out)
    }
    // ---- validity ----------------------------------------------------------------------------------------------
    pub fn matches_desc(&self, nsn: &str, t: &Terr, ty: Ty) -> bool {
        let d = t.d(ty);
        (d.lengths.is_empty() || d.lengths.contains(&(nsn.len() as i32))) && !d.pattern.is_empty() && d.pattern.full(nsn)
    }
    pub fn type_in(&self, nsn: &str, t: &Terr) -> NType {
        if !self.matches_desc(nsn, t, Ty::General) { return NType::Unknown; }
        for (ty, r) in [(Ty::Premium, NType::Premium), (Ty::TollFree, NType::TollFree), (Ty::SharedCost, NType::SharedCost), (Ty::Voip, NType::Voip),
            (Ty::Personal, NType::Personal), (Ty::Pager, NType::Pager), (Ty::Uan, NType::Uan), (Ty::Voicemail, NType::Voicemail)] {
            if self.matches_desc(nsn, t, ty) { return r; }
        }
        let (f, m) = (self.matches_desc(nsn, t, Ty::FixedLine), self.matches_desc(nsn, t, Ty::Mobile));
        if f && (t.same_fm || m) { NType::FixedLineOrMobile } else if f { NType::FixedLine } else if m && !t.same_fm { NType::Mobile } else { NType::Unknown }
    }
    pub fn region_of(&self, n: &Num) -> &str {
        let Some(rs) = self.meta.by_cc.get(&n.ccv()) else { return "ZZ" };
        if rs.len() == 1 { return &rs[0]; }
        let nsn = n.nsn();
        for r in rs {
            let Some(t) = self.meta.region(r) else { return "ZZ" };
            let hit = match &t.leading { Some(l) => l.prefix(&nsn), None => self.type_in(&nsn, t) != NType::Unknown };
            if hit { return r; }
        }
        "ZZ"
    }
    pub fn number_type(&self, n: &Num) -> NType {
        match self.meta.region_or_cc(n.ccv(), self.region_of(n)) { Some(t) => self.type_in(&n.nsn(), t), None => NType::Unknown }
    }
    pub fn valid_for(&self, n: &Num, region: &str) -> bool {
        match self.meta.region_or_cc(n.ccv(), region) {
            Some(t) => t.cc == n.ccv() && self.type_in(&n.nsn(), t) != NType::Unknown,
            None => false,
        }
    }
    pub fn valid(&self, n: &Num) -> bool { self.valid_for(n, self.region_of(n)) }
    pub fn possible(&self, n: &Num) -> Len {
        match self.meta.main_terr(n.ccv()) { Some(t) => self.length(&n.nsn(), t, Ty::General), None => Len::BadCc }
    }
    pub fn intl_diallable(&self, n: &Num) -> bool {
        match self.meta.region(self.region_of(n)) { Some(t) => !self.matches_desc(&n.nsn(), t, Ty::NoIntl), None => true }
    }
    pub fn geographical(&self, n: &Num) -> bool { self.geo(self.number_type(n), n.ccv()) }
    fn geo(&self, t: NType, cc: i32) -> bool {
        matches!(t, NType::FixedLine | NType::FixedLineOrMobile) || (t == NType::Mobile && [52, 54, 55, 62, 86].contains(&cc))
    }
    // ---- formatting --------------------------------------------------------------------------------------------
    pub fn choose<'a>(&self, fmts: &'a [Fmt], nsn: &str) -> Option<&'a Fmt> {
        fmts.iter().find(|f| f.leading.last().map(|l| l.prefix(nsn)).unwrap_or(true) && f.pattern.full(nsn))
    }
    fn apply(&self, pat: &Pat, tmpl: &str, s: &str) -> String {
        // every occurrence of the pattern (a full match for plan patterns)
        let mut out = String::new();
        let mut last = 0;
        for c in pat.raw_re().captures_iter(s) {
            let m = c.get(0).unwrap();
            out.push_str(&s[last..m.start()]);
            out.push_str(&expand(tmpl, &c));
            last = m.end();
        }
        out.push_str(&s[last..]);
        out
    }
    fn apply_full(&self, pat: &Pat, tmpl: &str, s: &str) -> String { expand(tmpl, &pat.full_re().captures(s).unwrap()) }
    pub fn fmt_nsn(&self, nsn: &str, t: &Terr, f: F, carrier: &str) -> String {
        let list = if t.ifmts.is_empty() || f == F::Nat { &t.fmts } else { &t.ifmts };
        match self.choose(list, nsn) { Some(r) => self.by_rule(nsn, r, &r.np_rule, f, carrier), None => nsn.into() }
    }
    fn by_rule(&self, nsn: &str, r: &Fmt, np_rule: &str, f: F, carrier: &str) -> String {
        let mut tmpl = r.format.clone();
        if f == F::Nat {
            if !carrier.is_empty() && !r.cc_rule.is_empty() { tmpl = splice_rule(&tmpl, &r.cc_rule.replacen("$CC", carrier, 1)); }
            else if !np_rule.is_empty() { tmpl = splice_rule(&tmpl, np_rule); }
        }
        let out = self.apply_full(&r.pattern, &tmpl, nsn);
        if f == F::Rfc { rfc_seps(&out) } else { out }
    }
    /// formatting by the caller's rules, whose national prefix rules still contain $NP and $FG
    pub fn by_pattern(&self, n: &Num, f: F, rules: &[Fmt]) -> String {
        let nsn = n.nsn();
        let Some(t) = self.meta.main_terr(n.ccv()) else { return nsn };
        let body = match self.choose(rules, &nsn) {
            None => nsn,
            Some(r) => {
                let np_rule = if t.np.is_empty() { String::new() } else { r.np_rule.replace("$NP", &t.np).replace("$FG", "$1") };
                self.by_rule(&nsn, r, &np_rule, f, "")
            }
        };
        Self::prefix(n.ccv(), f, &(body + &self.fmt_ext(n, t, F::Nat)))
    }
    /// the length verdict for one type, "fixed line or mobile" included
    pub fn possible_for(&self, n: &Num, ty: NType) -> Len {
        let Some(t) = self.meta.main_terr(n.ccv()) else { return Len::BadCc };
        let nsn = n.nsn();
        let has = |ty: Ty| t.d(ty).lengths != [-1];
        match desc_of(ty) {
            Ty::FixedLine if ty == NType::FixedLineOrMobile => {
                if !has(Ty::FixedLine) { return self.length(&nsn, t, Ty::Mobile); }
                if !has(Ty::Mobile) { return self.length(&nsn, t, Ty::FixedLine); }
                let g = t.d(Ty::General);
                let or = |ty: Ty| if t.d(ty).lengths.is_empty() { &g.lengths } else { &t.d(ty).lengths };
                let mut v: Vec<i32> = or(Ty::FixedLine).iter().chain(or(Ty::Mobile)).copied().collect();
                v.sort();
                let l = nsn.len() as i32;
                if t.d(Ty::FixedLine).local.contains(&l) || t.d(Ty::Mobile).local.contains(&l) { return Len::LocalOnly; }
                if v.contains(&l) { Len::Possible } else if l < v[0] { Len::TooShort } else if l > v[v.len() - 1] { Len::TooLong } else { Len::Invalid }
            }
            ty => self.length(&nsn, t, ty),
        }
    }
    pub fn match_text(&self, a: &Num, s: &str) -> Result<M, PErr> {
        match self.parse(s, "ZZ", false) { Ok(b) => return Ok(self.matching(a, &b)), Err(PErr::InvalidCountryCode) => {} Err(e) => return Err(e) }
        let r = self.meta.main_region(a.ccv());
        if r == "ZZ" { return Ok(self.matching(a, &self.parse_with(s, "ZZ", false, false)?)); }
        Ok(match self.matching(a, &self.parse(s, r, false)?) { M::Exact => M::Nsn, m => m })
    }
    pub fn match_texts(&self, s: &str, t: &str) -> Result<M, PErr> {
        match self.parse(s, "ZZ", false) { Ok(a) => return self.match_text(&a, t), Err(PErr::InvalidCountryCode) => {} Err(e) => return Err(e) }
        match self.parse(t, "ZZ", false) { Ok(a) => return self.match_text(&a, s), Err(PErr::InvalidCountryCode) => {} Err(e) => return Err(e) }
        Ok(self.matching(&self.parse_with(s, "ZZ", false, false)?, &self.parse_with(t, "ZZ", false, false)?))
    }
    pub fn fmt_ext(&self, n: &Num, t: &Terr, f: F) -> String {
        if n.extv().is_empty() { return String::new(); }
        if f == F::Rfc { format!(";ext={}", n.extv()) } else { format!("{}{}", t.ext_prefix.as_deref().unwrap_or(" ext. "), n.extv()) }
    }
    fn prefix(cc: i32, f: F, s: &str) -> String {
        match f { F::E164 => format!("+{cc}{s}"), F::Intl => format!("+{cc} {s}"), F::Rfc => format!("tel:+{cc}-{s}"), F::Nat => s.to_string() }
    }
    pub fn format(&self, n: &Num, f: F) -> String {
        if n.nnv() == 0 && !n.rawv().is_empty() { return n.rawv().to_string(); }
        let nsn = n.nsn();
        if f == F::E164 { return Self::prefix(n.ccv(), f, &nsn); }
        let Some(t) = self.meta.main_terr(n.ccv()) else { return nsn };
        Self::prefix(n.ccv(), f, &(self.fmt_nsn(&nsn, t, f, "") + &self.fmt_ext(n, t, f)))
    }
    pub fn with_carrier(&self, n: &Num, carrier: &str) -> String {
        let nsn = n.nsn();
        let Some(t) = self.meta.main_terr(n.ccv()) else { return nsn };
        self.fmt_nsn(&nsn, t, F::Nat, carrier) + &self.fmt_ext(n, t, F::Nat)
    }
    pub fn single_prefix(p: &str) -> bool {
        // digits, optionally one wait-for-tone sign between digits
        let parts: Vec<&str> = p.split(|c| matches!(c, '~' | '\u{2053}' | '\u{223C}' | '\u{FF5E}')).collect();
        (1..=2).contains(&parts.len()) && parts.iter().all(|x| !x.is_empty() && x.chars().all(|c| c.is_ascii_digit()))
    }
    pub fn dial_prefix(&self, from: &Terr) -> String {
        if let Some(p) = &from.pref_intl_prefix { return p.clone(); }
        if Self::single_prefix(&from.intl_prefix.src) { from.intl_prefix.src.clone() } else { String::new() }
    }
    pub fn out_of_country(&self, n: &Num, from: &str) -> String {
        let Some(ft) = self.meta.region(from) else { return self.format(n, F::Intl) };
        let nsn = n.nsn();
        let Some(t) = self.meta.main_terr(n.ccv()) else { return nsn };
        if n.ccv() == 1 { if ft.cc == 1 { return format!("1 {}", self.format(n, F::Nat)); } }
        else if n.ccv() == ft.cc { return self.format(n, F::Nat); }
        let body = self.fmt_nsn(&nsn, t, F::Intl, "") + &self.fmt_ext(n, t, F::Intl);
        let p = self.dial_prefix(ft);
        if p.is_empty() { Self::prefix(n.ccv(), F::Intl, &body) } else { format!("{p} {} {body}", n.ccv()) }
    }
    pub fn mobile_dialing(&self, n: &Num, from: &str, formatted: bool) -> String {
        let cc = n.ccv();
        if !self.meta.by_cc.contains_key(&cc) { return n.rawv().to_string(); }
        let mut m = n.clone();
        m.ext = None;
        let region = self.meta.main_region(cc);
        let ty = self.number_type(&m);
        let fm = matches!(ty, NType::FixedLine | NType::Mobile | NType::FixedLineOrMobile);
        let mut out = String::new();
        if from == region {
            if region == "BR" && fm {
                if let Some(c) = m.carrier.clone().filter(|c| !c.is_empty()) { out = self.with_carrier(&m, &c); }
            } else if cc == 1 {
                let short = self.length(&m.nsn(), self.meta.region(from).unwrap(), Ty::General) == Len::TooShort;
                out = self.format(&m, if self.intl_diallable(&m) && !short { F::Intl } else { F::Nat });
            } else {
                let intl = (region == "001" || (["MX", "CL", "UZ"].contains(&region) && fm)) && self.intl_diallable(&m);
                out = self.format(&m, if intl { F::Intl } else { F::Nat });
            }
        } else if ty != NType::Unknown && self.intl_diallable(&m) {
            return self.format(&m, if formatted { F::Intl } else { F::E164 });
        }
        if formatted { out } else { diallable(&out) }
    }
    pub fn original(&self, n: &Num, from: &str) -> String {
        let main = self.meta.main_terr(n.ccv());
        let rule = main.and_then(|t| self.choose(&t.fmts, &n.nsn()));
        if n.raw.is_some() && rule.is_none() { return n.rawv().to_string(); }
        let out = match n.src {
            None => return self.format(n, F::Nat),
            Some(Src::Plus) => self.format(n, F::Intl),
            Some(Src::Idd) => self.out_of_country(n, from),
            Some(Src::NoPlus) => { let s = self.format(n, F::Intl); s.strip_prefix('+').unwrap_or(&s).to_string() }
            _ => 'b: {
                let nat = || self.format(n, F::Nat);
                let region = self.meta.main_region(n.ccv());
                let Some(t) = self.meta.region(region) else { break 'b nat() };
                let np: String = t.np.replace('~', "");
                let digits = self.digits_only(n.rawv());
                // (a plan without a national prefix may still have a rule that writes one: then too it is written only if typed)
                if let Some(rest) = digits.strip_prefix(&np) {
                    if self.parse(rest, region, false).map(|x| self.valid(&x)).unwrap_or(false) { break 'b nat(); }
                }
                let Some(r) = self.choose(&t.fmts, &n.nsn()) else { break 'b nat() };
                let Some(i) = r.np_rule.find("$1") else { break 'b nat() };
                if self.digits_only(&r.np_rule[..i]).is_empty() { break 'b nat(); }
                self.apply_full(&r.pattern, &r.format, &n.nsn()) + &self.fmt_ext(n, t, F::Nat)
            }
        };
        if !out.is_empty() && !n.rawv().is_empty() && diallable(&out) != diallable(n.rawv()) { return n.rawv().to_string(); }
        out
    }
    pub fn grouping_symbols(s: &str) -> String {
        s.chars().filter_map(|c| match c {
            c if c.is_ascii_alphanumeric() => Some(c.to_ascii_uppercase()),
            '-' | '\u{FF0D}' | '\u{2010}'..='\u{2015}' | '\u{2212}' => Some('-'),
            '/' | '\u{FF0F}' => Some('/'),
            ' ' | '\u{3000}' | '\u{2060}' => Some(' '),
            '.' | '\u{FF0E}' => Some('.'),
            _ => None,
        }).collect()
    }
    pub fn keep_alpha(&self, n: &Num, from: &str) -> String {
        if n.rawv().is_empty() { return self.out_of_country(n, from); }
        let cc = n.ccv();
        let Some(t) = self.meta.main_terr(cc) else { return n.rawv().to_string() };
        let mut raw = Self::grouping_symbols(n.rawv());
        let nsn = n.nsn();
        if nsn.len() > 3 { if let Some(i) = raw.find(&nsn[..3]) { raw = raw[i..].to_string(); } }
        let ft = self.meta.region(from);
        if cc == 1 { if ft.map(|t| t.cc == 1).unwrap_or(false) { return format!("1 {raw}"); } }
        else if let Some(ft) = ft.filter(|f| f.cc == cc) {
            let Some(r) = self.choose(&ft.fmts, &nsn) else { return raw };
            let tmpl = if r.np_rule.is_empty() { "$1$2".to_string() } else { splice_rule("$1$2", &r.np_rule) };
            return self.apply(&Pat::new(r"(\d+)(.*)"), &tmpl, &raw);
        }
        let p = ft.map(|f| if Self::single_prefix(&f.intl_prefix.src) { f.intl_prefix.src.clone() } else { f.pref_intl_prefix.clone().unwrap_or_default() }).unwrap_or_default();
        let s = if p.is_empty() { Self::prefix(cc, F::Intl, &raw) } else { format!("{p} {cc} {raw}") };
        let (s, _) = self.strip_ext(&s);
        format!("{s}{}", self.fmt_ext(n, t, F::Intl))
    }
    // ---- lengths, matching, truncation ---------------------------------------------------------------------------
    pub fn ndc_len(&self, n: &Num) -> usize {
        let mut m = n.clone();
        m.ext = None;
        let s = self.format(&m, F::Intl);
        let g: Vec<usize> = s.split(|c: char| self.digit(c).is_none()).filter(|x| !x.is_empty()).map(|x| x.len()).collect();
        if g.len() < 3 { return 0; }
        if self.number_type(n) == NType::Mobile && n.ccv() == 54 { return g[2] + 1; }
        g[1]
    }
    pub fn area_len(&self, n: &Num) -> usize {
        let Some(t) = self.meta.region(self.region_of(n)) else { return 0 };
        let ty = self.number_type(n);
        if t.np.is_empty() && n.ilz != Some(true) && n.ccv() != 52 { return 0; }
        if ty == NType::Mobile && n.ccv() == 86 { return 0; }
        if !self.geo(ty, n.ccv()) { return 0; }
        self.ndc_len(n)
    }
    pub fn matching(&self, a: &Num, b: &Num) -> M {
        let (x, y) = (a.core(), b.core());
        if x.ext.is_some() && y.ext.is_some() && x.ext != y.ext { return M::No; }
        let (s, t) = (x.nnv().to_string(), y.nnv().to_string());
        let suffix = s.ends_with(&t) || t.ends_with(&s);
        if x.ccv() != 0 && y.ccv() != 0 {
            return if x == y { M::Exact } else if x.cc == y.cc && suffix { M::Short } else { M::No };
        }
        let same = Num { cc: None, ..x } == Num { cc: None, ..y };
        if same { M::Nsn } else if suffix { M::Short } else { M::No }
    }
    pub fn truncate(&self, n: &Num) -> (bool, Num) {
        if self.valid(n) { return (true, n.clone()); }
        let mut m = n.clone();
        let mut v = n.nnv();
        loop {
            v /= 10;
            m.nn = Some(v);
            if v == 0 || self.possible(&m) == Len::TooShort { return (false, n.clone()); }
            if self.valid(&m) { return (true, m); }
        }
    }
    pub fn is_alpha_number(&self, s: &str) -> bool { self.viable(s) && self.is_alpha_text(self.strip_ext(s).0) }
    pub fn convert_alpha(&self, s: &str) -> String { s.chars().map(|c| keypad(c).unwrap_or(c)).collect() }
}
/// the description that stands for a type
pub fn desc_of(t: NType) -> Ty {
    match t {
        NType::FixedLine | NType::FixedLineOrMobile => Ty::FixedLine, NType::Mobile => Ty::Mobile, NType::TollFree => Ty::TollFree, NType::Premium => Ty::Premium, NType::SharedCost => Ty::SharedCost,
        NType::Voip => Ty::Voip, NType::Personal => Ty::Personal, NType::Pager => Ty::Pager, NType::Uan => Ty::Uan, NType::Voicemail => Ty::Voicemail, NType::Unknown => Ty::General,
    }
}
pub fn rfc_seps(s: &str) -> String {
    let mut out = String::new();
    let mut in_sep = false;
    for c in s.trim_start_matches(is_sep).chars() {
        if is_sep(c) { if !in_sep { out.push('-'); } in_sep = true; } else { out.push(c); in_sep = false; }
    }
    out
}
