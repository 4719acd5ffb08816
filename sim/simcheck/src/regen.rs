//! Strings that match a pattern of the metadata: the subset of regular
//! expressions the document uses (groups, alternation, classes, repetition).
use simrt::rng::Rng;

enum Node {
    Lit(char),
    Class(Vec<char>),
    Alt(Vec<Vec<Node>>),
    Rep(Box<Node>, u32, u32),
}

struct P<'a> {
    c: Vec<char>,
    i: usize,
    depth: u32,
    _p: std::marker::PhantomData<&'a ()>,
}

impl P<'_> {
    fn peek(&self) -> Option<char> {
        self.c.get(self.i).copied()
    }
    fn alt(&mut self) -> Option<Node> {
        self.depth += 1;
        if self.depth > 60 {
            return None;
        }
        let mut all = vec![Vec::new()];
        while let Some(c) = self.peek() {
            match c {
                ')' => break,
                '|' => {
                    self.i += 1;
                    all.push(Vec::new());
                }
                _ => {
                    let a = self.atom()?;
                    let a = self.repeat(a)?;
                    all.last_mut().unwrap().push(a);
                }
            }
        }
        self.depth -= 1;
        Some(Node::Alt(all))
    }
    fn atom(&mut self) -> Option<Node> {
        let c = self.peek()?;
        self.i += 1;
        Some(match c {
            '(' => {
                if self.peek() == Some('?') {
                    self.i += 1;
                    if self.peek() != Some(':') {
                        return None;
                    }
                    self.i += 1;
                }
                let n = self.alt()?;
                if self.peek() != Some(')') {
                    return None;
                }
                self.i += 1;
                n
            }
            '[' => {
                let mut v = Vec::new();
                loop {
                    let a = self.peek()?;
                    self.i += 1;
                    match a {
                        ']' => break,
                        '^' => return None,
                        '\\' => {
                            if self.peek()? != 'd' {
                                return None;
                            }
                            self.i += 1;
                            v.extend('0'..='9');
                        }
                        _ => {
                            if self.peek() == Some('-') && self.c.get(self.i + 1).is_some_and(|x| *x != ']') {
                                let b = self.c[self.i + 1];
                                self.i += 2;
                                if a > b || b as u32 - a as u32 > 200 {
                                    return None;
                                }
                                v.extend(a..=b);
                            } else {
                                v.push(a);
                            }
                        }
                    }
                }
                if v.is_empty() {
                    return None;
                }
                Node::Class(v)
            }
            '\\' => {
                let d = self.peek()?;
                self.i += 1;
                match d {
                    'd' => Node::Class(('0'..='9').collect()),
                    'D' => Node::Lit('x'),
                    d if d.is_ascii_alphanumeric() => return None,
                    d => Node::Lit(d),
                }
            }
            '.' => Node::Class(('0'..='9').collect()),
            '^' | '$' => Node::Alt(vec![Vec::new()]),
            c if c.is_whitespace() => Node::Alt(vec![Vec::new()]),
            '*' | '+' | '?' | '{' => return None,
            c => Node::Lit(c),
        })
    }
    fn repeat(&mut self, a: Node) -> Option<Node> {
        let (lo, hi) = match self.peek() {
            Some('?') => (0, 1),
            Some('*') => (0, 3),
            Some('+') => (1, 3),
            Some('{') => {
                let e = self.c[self.i..].iter().position(|c| *c == '}')? + self.i;
                let t: String = self.c[self.i + 1..e].iter().collect();
                self.i = e;
                match t.split_once(',') {
                    None => {
                        let n = t.trim().parse().ok()?;
                        (n, n)
                    }
                    Some((a, b)) => {
                        let a: u32 = a.trim().parse().ok()?;
                        (a, if b.trim().is_empty() { a + 2 } else { b.trim().parse().ok()? })
                    }
                }
            }
            _ => return Some(a),
        };
        self.i += 1;
        if matches!(self.peek(), Some('?') | Some('+')) {
            self.i += 1;
        }
        if lo > hi || hi > 40 {
            return None;
        }
        Some(Node::Rep(Box::new(a), lo, hi))
    }
}

fn emit(n: &Node, r: &mut Rng, o: &mut String) {
    if o.len() > 200 {
        return;
    }
    match n {
        Node::Lit(c) => o.push(*c),
        Node::Class(v) => o.push(*r.pick(v)),
        Node::Alt(v) => {
            let i = r.below(v.len() as u64) as usize;
            for x in &v[i] {
                emit(x, r, o);
            }
        }
        Node::Rep(x, lo, hi) => {
            for _ in 0..r.range(*lo as u64, *hi as u64) {
                emit(x, r, o);
            }
        }
    }
}

/// A string the pattern matches; None for patterns outside the subset.
pub fn sample(pattern: &str, r: &mut Rng) -> Option<String> {
    let mut p = P { c: pattern.chars().collect(), i: 0, depth: 0, _p: std::marker::PhantomData };
    let n = p.alt()?;
    if p.i != p.c.len() {
        return None;
    }
    let mut o = String::new();
    emit(&n, r, &mut o);
    Some(o)
}
