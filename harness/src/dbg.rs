//! Parses `{:?}` output into a flat list of (field name, value text). Used to observe fields that
//! are only visible through the Debug output (which the dump commands print).
//! Strings inside are expected to avoid the structural characters `(){}[],"` and ": ".

#[derive(Debug, Clone, PartialEq)]
pub enum Tree {
    /// Atom text, e.g. `5`, `Pink`.
    Atom(String),
    /// name { fields }
    Struct(String, Vec<(String, Tree)>),
    /// name( items )
    Tuple(String, Vec<Tree>),
    List(Vec<Tree>),
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
}

impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\n') {
            self.i += 1;
        }
    }
    fn peek(&self) -> u8 {
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn word(&mut self) -> String {
        let st = self.i;
        while self.i < self.s.len() && !b"(){}[],".contains(&self.s[self.i]) {
            if self.s[self.i] == b':' && self.s.get(self.i + 1) == Some(&b' ') {
                break;
            }
            self.i += 1;
        }
        String::from_utf8_lossy(&self.s[st..self.i]).to_string()
    }
    fn value(&mut self) -> Result<Tree, String> {
        self.ws();
        if self.peek() == b'"' {
            let st = self.i;
            self.i += 1;
            while self.i < self.s.len() && self.peek() != b'"' {
                if self.peek() == b'\\' {
                    self.i += 1;
                }
                self.i += 1;
            }
            self.i += 1;
            let e = self.i.min(self.s.len());
            return Ok(Tree::Atom(String::from_utf8_lossy(&self.s[st..e]).to_string()));
        }
        if self.peek() == b'[' {
            self.i += 1;
            return Ok(Tree::List(self.items(b']')?));
        }
        if self.peek() == b'{' {
            // map: key: value
            self.i += 1;
            return Ok(Tree::Struct(String::new(), self.fields()?));
        }
        if self.peek() == b'(' {
            self.i += 1;
            return Ok(Tree::Tuple(String::new(), self.items(b')')?));
        }
        let w = self.word();
        match self.peek() {
            b'(' => {
                self.i += 1;
                let name = w.trim().to_string();
                if name == "DeviceSQLString" {
                    // Raw text up to the closing parenthesis.
                    let st = self.i;
                    while self.i < self.s.len() && self.peek() != b')' {
                        self.i += 1;
                    }
                    let t = String::from_utf8_lossy(&self.s[st..self.i]).to_string();
                    self.i += 1;
                    return Ok(Tree::Tuple(name, vec![Tree::Atom(t)]));
                }
                Ok(Tree::Tuple(name, self.items(b')')?))
            }
            b'{' => {
                self.i += 1;
                Ok(Tree::Struct(w.trim().to_string(), self.fields()?))
            }
            _ => Ok(Tree::Atom(w.trim().to_string())),
        }
    }
    fn items(&mut self, end: u8) -> Result<Vec<Tree>, String> {
        let mut v = vec![];
        loop {
            self.ws();
            if self.peek() == end {
                self.i += 1;
                return Ok(v);
            }
            if self.i >= self.s.len() {
                return Err("unterminated list".into());
            }
            v.push(self.value()?);
            self.ws();
            if self.peek() == b',' {
                self.i += 1;
            } else if self.peek() != end {
                return Err(format!("unexpected {:?} at {}", self.peek() as char, self.i));
            }
        }
    }
    fn fields(&mut self) -> Result<Vec<(String, Tree)>, String> {
        let mut v = vec![];
        loop {
            self.ws();
            if self.peek() == b'}' {
                self.i += 1;
                return Ok(v);
            }
            if self.i >= self.s.len() {
                return Err("unterminated struct".into());
            }
            let name = self.word().trim().to_string();
            self.ws();
            if self.peek() != b':' {
                return Err(format!("expected ':' at {} after {name:?}", self.i));
            }
            self.i += 1;
            v.push((name, self.value()?));
            self.ws();
            if self.peek() == b',' {
                self.i += 1;
            }
        }
    }
}

pub fn parse(s: &str) -> Result<Tree, String> {
    let mut p = P { s: s.as_bytes(), i: 0 };
    let t = p.value()?;
    p.ws();
    if p.i != s.len() {
        return Err(format!("trailing text at {} of {}", p.i, s.len()));
    }
    Ok(t)
}

impl Tree {
    /// Innermost atom of nested one-element tuples: `TrackId(5)` -> `5`.
    pub fn leaf(&self) -> Option<&str> {
        match self {
            Tree::Atom(a) => Some(a),
            Tree::Tuple(_, v) if v.len() == 1 => v[0].leaf(),
            _ => None,
        }
    }
    /// Flattened (field name, leaf) pairs in printed order; list elements keep the list's name.
    pub fn flat(&self) -> Vec<(String, String)> {
        let mut v = vec![];
        self.walk("", &mut v);
        v
    }
    fn walk(&self, name: &str, out: &mut Vec<(String, String)>) {
        match self {
            Tree::Atom(a) => out.push((name.to_string(), a.clone())),
            Tree::Struct(_, f) => f.iter().for_each(|(n, t)| t.walk(n, out)),
            Tree::Tuple(_, v) | Tree::List(v) => v.iter().for_each(|t| t.walk(name, out)),
        }
    }
    pub fn get(&self, name: &str) -> Option<&Tree> {
        match self {
            Tree::Struct(_, f) => f.iter().find(|(n, _)| n == name).map(|(_, t)| t),
            _ => None,
        }
    }
}

/// Compare a flattened Debug value with expected (name, value) pairs: values must agree position by
/// position; a name that occurs in both must occur at the same position (so that swapped fields are
/// seen but a mere renaming is not).
pub fn same_fields(got: &[(String, String)], want: &[(String, String)]) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("{} values instead of {}: {got:?} vs {want:?}", got.len(), want.len()));
    }
    for (i, ((gn, gv), (wn, wv))) in got.iter().zip(want).enumerate() {
        if gv != wv {
            return Err(format!("field {wn} (#{i}, shown as {gn}): expected {wv:?}, shown {gv:?}"));
        }
        if gn != wn
            && (got.iter().any(|(n, _)| n == wn) && want.iter().any(|(n, _)| n == gn))
        {
            return Err(format!("value {wv:?} of field {wn} is reported under field {gn}"));
        }
    }
    Ok(())
}
