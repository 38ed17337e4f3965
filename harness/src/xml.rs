//! Minimal XML reader: elements, attributes, text; skips comments, declarations and DOCTYPE.
#[derive(Debug, Default, Clone)]
pub struct Node { pub name: String, pub attrs: Vec<(String, String)>, pub children: Vec<Node>, pub text: String }
impl Node {
    pub fn attr(&self, n: &str) -> Option<&str> { self.attrs.iter().find(|(k, _)| k == n).map(|(_, v)| v.as_str()) }
    /// All descendants with this element name, in document order.
    pub fn find<'a>(&'a self, n: &str, out: &mut Vec<&'a Node>) {
        for c in &self.children { if c.name == n { out.push(c); } c.find(n, out); }
    }
    pub fn all(&self, n: &str) -> Vec<&Node> { let mut v = vec![]; self.find(n, &mut v); v }
    pub fn set(&mut self, n: &str, v: &str) { match self.attrs.iter_mut().find(|(k, _)| k == n) { Some(a) => a.1 = v.into(), None => self.attrs.push((n.into(), v.into())) } }
    pub fn unset(&mut self, n: &str) { self.attrs.retain(|(k, _)| k != n); }
    pub fn child_mut(&mut self, n: &str) -> Option<&mut Node> { self.children.iter_mut().find(|c| c.name == n) }
    pub fn child(&self, n: &str) -> Option<&Node> { self.children.iter().find(|c| c.name == n) }
}
fn unescape(s: &str) -> String {
    s.replace("&lt;", "<").replace("&gt;", ">").replace("&quot;", "\"").replace("&apos;", "'").replace("&amp;", "&")
}
pub fn parse(src: &str) -> Result<Node, String> {
    let b = src.as_bytes();
    let mut i = 0;
    let mut stack: Vec<Node> = vec![Node::default()];
    while i < b.len() {
        if b[i] == b'<' {
            let rest = &src[i..];
            if rest.starts_with("<!--") {
                i += rest.find("-->").ok_or("unterminated comment")? + 3;
            } else if rest.starts_with("<?") {
                i += rest.find("?>").ok_or("unterminated pi")? + 2;
            } else if rest.starts_with("<!") {
                // DOCTYPE, possibly with an internal subset
                let br = rest.find('[');
                let gt = rest.find('>').ok_or("unterminated doctype")?;
                match br { Some(x) if x < gt => { i += rest.find("]>").ok_or("unterminated doctype")? + 2; } _ => i += gt + 1 }
            } else if rest.starts_with("</") {
                let gt = rest.find('>').ok_or("unterminated end tag")?;
                let name = rest[2..gt].trim();
                let n = stack.pop().ok_or("stack")?;
                if n.name != name { return Err(format!("mismatched {} vs {}", n.name, name)); }
                stack.last_mut().ok_or("stack")?.children.push(n);
                i += gt + 1;
            } else {
                // start tag; attribute values may contain '>'
                let mut j = i + 1;
                while j < b.len() && !b[j].is_ascii_whitespace() && b[j] != b'>' && b[j] != b'/' { j += 1; }
                let mut n = Node { name: src[i + 1..j].to_string(), ..Default::default() };
                loop {
                    while j < b.len() && b[j].is_ascii_whitespace() { j += 1; }
                    if j >= b.len() { return Err("eof in tag".into()); }
                    if b[j] == b'>' { j += 1; stack.push(n); break; }
                    if b[j] == b'/' { j += 2; stack.last_mut().ok_or("stack")?.children.push(n); break; }
                    let k = j;
                    while b[j] != b'=' { j += 1; }
                    let key = src[k..j].trim().to_string();
                    j += 1;
                    while b[j].is_ascii_whitespace() { j += 1; }
                    let q = b[j]; j += 1;
                    let v = j;
                    while b[j] != q { j += 1; }
                    // XML attribute-value normalisation: white space characters become spaces
                    let val: String = src[v..j].chars().map(|c| if matches!(c, '\n' | '\t' | '\r') { ' ' } else { c }).collect();
                    n.attrs.push((key, unescape(&val)));
                    j += 1;
                }
                i = j;
            }
        } else {
            let e = src[i..].find('<').map(|x| i + x).unwrap_or(b.len());
            stack.last_mut().ok_or("stack")?.text.push_str(&unescape(&src[i..e]));
            i = e;
        }
    }
    if stack.len() != 1 { return Err("unbalanced".into()); }
    Ok(stack.pop().unwrap())
}
