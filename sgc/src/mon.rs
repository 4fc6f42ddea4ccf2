//! What an execution has done to the outside: text written to a sink, hasher input, calls of user code.
use crate::mem::*;
use crate::val::*;
use std::hash::{Hash, Hasher};
use std::rc::Rc;

/// A piece of expected text.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Tok {
    /// One byte.
    B(Sc),
    /// A board square: 0 if empty, else the piece code (1..=14, 17..=30).
    Cell(Sc),
    RankEnd,
    /// A decimal number of at most 16 bits.
    Dec(Sc),
    /// A hand count and its letter.
    Count(Sc, u8),
    /// '-' if no count so far was positive.
    Dash,
    /// Alternatives chosen by a scalar: the first whose value matches.
    Sel(Sc, Rc<Vec<(u64, Vec<Tok>)>>),
}
#[derive(Clone, Debug)]
pub struct Text {
    pub toks: Rc<Vec<Tok>>,
    pub ix: usize,
    pub pending: Vec<Tok>, // reversed
    pub run: u8,
    pub any: bool,
}
impl PartialEq for Text {
    fn eq(&self, o: &Text) -> bool { self.ix == o.ix && self.run == o.run && self.any == o.any && self.pending == o.pending }
}
impl Eq for Text {}
impl Hash for Text {
    fn hash<H: Hasher>(&self, h: &mut H) { self.ix.hash(h); self.run.hash(h); self.any.hash(h); self.pending.hash(h); }
}
pub fn lit(s: &str) -> Vec<Tok> { s.bytes().map(|b| Tok::B(Sc::C(b as u128))).collect() }

const LETTERS: &[u8; 14] = b"PLNSGBRKPLNSBR";
pub fn kind_letter(k: u32) -> u8 { LETTERS[k as usize - 1] }

impl Text {
    pub fn new(toks: Vec<Tok>) -> Text { Text { toks: Rc::new(toks), ix: 0, pending: vec![], run: 0, any: false } }
    /// The next expected byte, if the text is not over.
    fn peek(&mut self, doms: &[Dom]) -> R<Option<Sc>> {
        loop {
            if let Some(Tok::B(s)) = self.pending.last() { return Ok(Some(s.clone())); }
            let (t, from_pending) = match self.pending.last() {
                Some(t) => (t.clone(), true),
                None => match self.toks.get(self.ix) { None => return Ok(None), Some(t) => (t.clone(), false) },
            };
            let out = self.expand(&t, doms)?;
            if from_pending { self.pending.pop(); } else { self.ix += 1; }
            self.pending.extend(out.into_iter().rev());
        }
    }
    fn expand(&mut self, t: &Tok, doms: &[Dom]) -> R<Vec<Tok>> {
        let b = |x: u8| Tok::B(Sc::C(x as u128));
        Ok(match t {
            Tok::B(_) => vec![t.clone()],
            Tok::RankEnd => {
                let r = if self.run > 0 { vec![b(b'0' + self.run)] } else { vec![] };
                self.run = 0;
                r
            }
            Tok::Cell(s) => {
                // 0 empty, 1 unpromoted, 2 promoted
                let cls = map1(s, doms, |p| if p == 0 { 0 } else if (p & 15) >= 9 { 2 } else { 1 })?.konst(doms)?;
                if cls == 0 { self.run += 1; return Ok(vec![]); }
                let mut r = vec![];
                if self.run > 0 { r.push(b(b'0' + self.run)); }
                self.run = 0;
                if cls == 2 { r.push(b(b'+')); }
                r.push(Tok::B(map1(s, doms, |p| piece_letter(p) as u128)?));
                r
            }
            Tok::Dec(s) => {
                let n = map1(s, doms, |x| x.to_string().len() as u128)?.konst(doms)?;
                let mut r = vec![];
                for i in (0..n as u32).rev() { r.push(Tok::B(map1(s, doms, |x| (x / 10u128.pow(i)) % 10 + b'0' as u128)?)); }
                r
            }
            Tok::Count(s, l) => {
                let n = map1(s, doms, |x| x.min(2))?.konst(doms)?;
                if n > 0 { self.any = true; }
                match n { 0 => vec![], 1 => vec![b(*l)], _ => vec![Tok::Dec(s.clone()), b(*l)] }
            }
            Tok::Dash => if self.any { vec![] } else { vec![b(b'-')] },
            Tok::Sel(s, alts) => {
                let v = map1(s, doms, |x| alts.iter().position(|a| a.0 as u128 == x).map_or(999, |p| p as u128))?.konst(doms)?;
                match alts.get(v as usize) { Some(a) => a.1.clone(), None => return unsup("text alternative") }
            }
        })
    }
    fn byte(&mut self, got: &Sc, doms: &[Dom]) -> R<()> {
        let Some(want) = self.peek(doms)? else {
            return Err(Need::Viol(format!("text continues after its end with {}", show_byte(got, doms))));
        };
        // equal for every assignment left?
        match crate::val::differ(got, &want, 8, doms)? {
            None => {}
            Some(_) => {
                let (g, w) = (got.norm(doms), want.norm(doms));
                return Err(Need::Viol(format!("wrong character: expected {}, written {}", show_byte(&w, doms), show_byte(&g, doms))));
            }
        }
        self.pending.pop();
        Ok(())
    }
}
pub fn piece_letter(p: u128) -> u8 {
    let k = (p & 15) as u32;
    if k == 0 || k > 14 { return 0; }
    let l = kind_letter(k);
    if p & 16 != 0 { l.to_ascii_lowercase() } else { l }
}
fn show_byte(s: &Sc, doms: &[Dom]) -> String {
    match s.values(doms) {
        Some(v) => {
            let t: Vec<String> = v.iter().take(6).map(|b| if *b >= 32 && *b < 127 { format!("'{}'", *b as u8 as char) } else { format!("{b:#x}") }).collect();
            t.join("|")
        }
        None => "?".into(),
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Atomic { Load(Sc), Store(Sc), Rmw(Sc, Sc) }
/// An event visible outside.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
    /// Hasher input: operation and data.
    Hash(String, Vec<(Sc, u32)>),
    /// A call of a user-implemented method: name, arguments (flattened), result (flattened).
    Call(String, Vec<V>, Vec<V>),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Mon {
    pub text: Option<Text>,
    /// Whether a sink write may fail.
    pub may_fail: bool,
    pub errored: bool,
    pub wrote: bool,
    pub stream_pos: u64,
    /// Zero bytes stored at and after the position, which later bytes may replace.
    pub held: u64,
    pub trace: Rc<Vec<Ev>>,
    /// Whether the contents of strings are tracked.
    pub keep_str: bool,
    /// Known comparisons of sequences: the objects and the symbol of their order (less, equal, greater).
    pub seqpair: Vec<(u32, u32, Sym)>,
    /// Property-specific marker.
    pub tag: u32,
    /// Operations on shared atomic memory: the place, the operation.
    pub atom: Rc<Vec<(Ptr, Atomic)>>,
    /// Copies of an unknown number of bytes: to, from, how many.
    pub copies: Rc<Vec<(Sc, Sc, Sc)>>,
    /// Number of values read from it; shapes of the states after failed exchanges.
    pub fresh: u32,
    pub shapes: Rc<Vec<String>>,
}
impl Mon {
    pub fn prepare_join(&mut self, doms: &[Dom]) {
        // consume what is already determined, so that equal situations look equal
        if let Some(t) = &mut self.text {
            loop {
                let mut c = t.clone();
                let (k, from_pending) = match c.pending.last() {
                    Some(Tok::B(_)) => return,
                    Some(k) => (k.clone(), true),
                    None => match c.toks.get(c.ix) { Some(k) => (k.clone(), false), None => return },
                };
                // only silent steps
                match &k { Tok::Cell(_) | Tok::Count(..) | Tok::RankEnd | Tok::Dash => {} _ => return }
                match c.expand(&k, doms) {
                    Ok(o) if o.is_empty() => {
                        if from_pending { c.pending.pop(); } else { c.ix += 1; }
                        *t = c;
                    }
                    _ => return,
                }
            }
        }
    }
    pub fn push_byte(&mut self, b: &Sc, doms: &[Dom]) -> R<()> {
        match &mut self.text {
            None => Ok(()),
            Some(t) => t.byte(b, doms),
        }
    }
    /// A byte of the output; one that the program overwrites later counts as what it is in the end.
    pub fn stream_byte(&mut self, off: u64, b: &Sc, doms: &[Dom]) -> R<()> {
        if off < self.stream_pos { return unsup("an output byte other than NUL is overwritten"); }
        let j = off - self.stream_pos;
        if j > self.held { return Err(Need::Viol(format!("output byte stored {} beyond the end of the text so far", j - self.held))); }
        if b.norm(doms).c() == Some(0) {
            self.held = self.held.max(j + 1);
            return Ok(());
        }
        let mut c = self.text.clone();
        for _ in 0..j { if let Some(t) = &mut c { t.byte(&Sc::C(0), doms)?; } }
        if let Some(t) = &mut c { t.byte(b, doms)?; }
        self.text = c;
        self.stream_pos += j + 1;
        self.held = self.held.saturating_sub(j + 1);
        Ok(())
    }
    /// Checks that the output is the text and one NUL.
    pub fn stream_done(&self, doms: &[Dom]) -> R<()> {
        if let Some(t) = &self.text {
            let mut t = t.clone();
            if let Some(s) = t.peek(doms)? { return Err(Need::Viol(format!("text ends before {}", show_byte(&s, doms)))); }
        }
        if self.held != 1 { return Err(Need::Viol(format!("{} NUL bytes follow the text", self.held))); }
        Ok(())
    }
    /// Checks that the text is complete.
    pub fn text_done(&self, doms: &[Dom]) -> R<()> {
        if let Some(t) = &self.text {
            let mut t = t.clone();
            if let Some(s) = t.peek(doms)? { return Err(Need::Viol(format!("text ends before {}", show_byte(&s, doms)))); }
        }
        Ok(())
    }
    pub fn ev(&mut self, e: Ev) { Rc::make_mut(&mut self.trace).push(e); }
}
