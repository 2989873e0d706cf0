//! Reads what `{:?}` of derived Debug implementations wrote.

#[derive(Clone, Debug, PartialEq)]
pub enum D {
    Num(i128),
    Str(String),
    /// A name with its fields, named or not.
    Node(String, Vec<(String, D)>),
    List(Vec<D>),
    Map(Vec<(D, D)>),
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
}
impl P<'_> {
    fn ws(&mut self) {
        while self
            .b
            .get(self.i)
            .map(|c| c.is_ascii_whitespace())
            .unwrap_or(false)
        {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> Option<u8> {
        self.ws();
        self.b.get(self.i).copied()
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == Some(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn ident(&mut self) -> Option<String> {
        self.ws();
        let s = self.i;
        while self
            .b
            .get(self.i)
            .map(|c| c.is_ascii_alphanumeric() || *c == b'_')
            .unwrap_or(false)
        {
            self.i += 1;
        }
        if s == self.i {
            return None;
        }
        Some(String::from_utf8_lossy(&self.b[s..self.i]).into_owned())
    }
    fn string(&mut self) -> Option<String> {
        // After the opening quote.
        let mut out = vec![];
        loop {
            let c = *self.b.get(self.i)?;
            self.i += 1;
            match c {
                b'"' => return String::from_utf8(out).ok(),
                b'\\' => {
                    let e = *self.b.get(self.i)?;
                    self.i += 1;
                    match e {
                        b'n' => out.push(b'\n'),
                        b't' => out.push(b'\t'),
                        b'r' => out.push(b'\r'),
                        b'0' => out.push(0),
                        b'u' => {
                            if *self.b.get(self.i)? != b'{' {
                                return None;
                            }
                            self.i += 1;
                            let mut x = 0u32;
                            loop {
                                let h = *self.b.get(self.i)?;
                                self.i += 1;
                                if h == b'}' {
                                    break;
                                }
                                x = x.checked_mul(16)? + (h as char).to_digit(16)?;
                            }
                            let mut b = [0; 4];
                            out.extend_from_slice(
                                char::from_u32(x)?.encode_utf8(&mut b).as_bytes(),
                            );
                        }
                        e => out.push(e),
                    }
                }
                c => out.push(c),
            }
        }
    }
    fn list(&mut self, end: u8) -> Option<Vec<D>> {
        let mut v = vec![];
        loop {
            if self.eat(end) {
                return Some(v);
            }
            v.push(self.value()?);
            if !self.eat(b',') && self.peek() != Some(end) {
                return None;
            }
        }
    }
    fn value(&mut self) -> Option<D> {
        match self.peek()? {
            b'"' => {
                self.i += 1;
                Some(D::Str(self.string()?))
            }
            b'[' => {
                self.i += 1;
                Some(D::List(self.list(b']')?))
            }
            b'(' => {
                self.i += 1;
                let v = self.list(b')')?;
                Some(D::Node(
                    String::new(),
                    v.into_iter().map(|x| (String::new(), x)).collect(),
                ))
            }
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                loop {
                    if self.eat(b'}') {
                        return Some(D::Map(v));
                    }
                    let k = self.value()?;
                    if !self.eat(b':') {
                        return None;
                    }
                    let x = self.value()?;
                    v.push((k, x));
                    if !self.eat(b',') && self.peek() != Some(b'}') {
                        return None;
                    }
                }
            }
            c if c == b'-' || c.is_ascii_digit() => {
                let neg = self.eat(b'-');
                let s = self.ident()?;
                let x: i128 = s.parse().ok()?;
                Some(D::Num(if neg { -x } else { x }))
            }
            _ => {
                let n = self.ident()?;
                match self.b.get(self.i) {
                    Some(b'(') => {
                        self.i += 1;
                        let v = self.list(b')')?;
                        Some(D::Node(
                            n,
                            v.into_iter().map(|x| (String::new(), x)).collect(),
                        ))
                    }
                    _ => {
                        if self.peek() != Some(b'{') {
                            return Some(D::Node(n, vec![]));
                        }
                        self.i += 1;
                        let mut v = vec![];
                        loop {
                            if self.eat(b'}') {
                                return Some(D::Node(n, v));
                            }
                            if self.peek() == Some(b'.') {
                                // Some fields are not shown.
                                while self.eat(b'.') {}
                                continue;
                            }
                            let k = self.ident()?;
                            if !self.eat(b':') {
                                return None;
                            }
                            let x = self.value()?;
                            v.push((k, x));
                            if !self.eat(b',') && self.peek() != Some(b'}') {
                                return None;
                            }
                        }
                    }
                }
            }
        }
    }
}

/// The value that starts at the first occurrence of `from`.
pub fn parse(s: &str, from: &str) -> Option<D> {
    let at = s.find(from)?;
    let mut p = P {
        b: s.as_bytes(),
        i: at,
    };
    p.value()
}
/// The value after the first colon.
pub fn parse_after(s: &str) -> Option<D> {
    let at = s.find(':')? + 1;
    let mut p = P {
        b: s.as_bytes(),
        i: at,
    };
    p.value()
}

impl D {
    pub fn field(&self, k: &str) -> Option<&D> {
        match self {
            D::Node(_, v) => v.iter().find(|x| x.0 == k).map(|x| &x.1),
            _ => None,
        }
    }
    /// The n-th unnamed field.
    pub fn nth(&self, n: usize) -> Option<&D> {
        match self {
            D::Node(_, v) => v.get(n).filter(|x| x.0.is_empty()).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn name(&self) -> Option<&str> {
        match self {
            D::Node(n, _) => Some(n),
            _ => None,
        }
    }
    fn only(&self) -> Option<&D> {
        match self {
            D::Node(_, v) if v.len() == 1 => Some(&v[0].1),
            _ => None,
        }
    }
    /// A number, perhaps wrapped.
    pub fn num(&self) -> Option<i128> {
        match self {
            D::Num(n) => Some(*n),
            _ => self.only()?.num(),
        }
    }
    pub fn str(&self) -> Option<&str> {
        match self {
            D::Str(s) => Some(s),
            _ => self.only()?.str(),
        }
    }
    pub fn list(&self) -> Option<&[D]> {
        match self {
            D::List(v) => Some(v),
            _ => self.only()?.list(),
        }
    }
    pub fn map(&self) -> Option<&[(D, D)]> {
        match self {
            D::Map(v) => Some(v),
            _ => self.only()?.map(),
        }
    }
    pub fn bool(&self) -> Option<bool> {
        match self.name()? {
            "true" => Some(true),
            "false" => Some(false),
            _ => None,
        }
    }
    /// Something that may be missing.
    pub fn opt(&self) -> Option<Option<&D>> {
        match self {
            D::Node(n, v) if n == "None" && v.is_empty() => Some(None),
            D::Node(n, v) if n == "Some" && v.len() == 1 => Some(Some(&v[0].1)),
            _ => self.only()?.opt(),
        }
    }
}
