//! Abstract memory: objects are byte ranges holding scalar chunks.
use crate::val::*;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Base {
    /// Local variable `1` of the frame at depth `0`.
    L(u32, u32),
    /// Object of the state (arguments, heap).
    H(u32),
    /// Constant memory of the program.
    G(u32),
    /// Function.
    F(u32),
    /// Vtable.
    VT(u32),
    /// No object: an integer address.
    A,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Ptr {
    pub base: Base,
    pub off: i64,
}
/// One scalar's worth of memory.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum V {
    Undef,
    S(Sc),
    P(Ptr),
    /// Contents of a type the analysis models as a whole (vectors, strings).
    Opaque,
}
impl V {
    pub fn c(x: u128) -> V { V::S(Sc::C(x)) }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Ch {
    pub off: u32,
    pub len: u32,
    pub v: V,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Mem {
    Dead,
    Empty,
    One(Ch),
    Many(Rc<Vec<Ch>>),
}

impl Mem {
    pub fn chunks(&self) -> &[Ch] {
        match self {
            Mem::Dead | Mem::Empty => &[],
            Mem::One(c) => std::slice::from_ref(c),
            Mem::Many(v) => v,
        }
    }
    pub fn from_chunks(mut v: Vec<Ch>) -> Mem {
        match v.len() {
            0 => Mem::Empty,
            1 => Mem::One(v.pop().unwrap()),
            _ => Mem::Many(Rc::new(v)),
        }
    }
    /// Reads a scalar of `len` bytes.
    pub fn read(&self, off: u32, len: u32, doms: &[Dom]) -> R<V> {
        let ch = self.chunks();
        let i = match ch.binary_search_by(|c| c.off.cmp(&off)) {
            Ok(i) => {
                if ch[i].len == len { return Ok(ch[i].v.clone()); }
                i
            }
            Err(0) => 0,
            Err(i) => i - 1,
        };
        let mut parts: Vec<(Sc, u32)> = vec![];
        let mut pos = off;
        for c in &ch[i..] {
            if c.off + c.len <= pos { continue; }
            if c.off >= off + len { break; }
            if c.off > pos { return Ok(V::Undef); }
            let e = (c.off + c.len).min(off + len);
            match &c.v {
                V::Undef => return Ok(V::Undef),
                V::Opaque => return Ok(V::Opaque),
                V::P(_) => return unsup("partial read of a pointer"),
                V::S(s) => {
                    let p = if pos == c.off && e == c.off + c.len { s.clone() } else { extract(s, pos - c.off, e - pos, doms)? };
                    parts.push((p, e - pos));
                }
            }
            pos = e;
        }
        if pos < off + len { return Ok(V::Undef); }
        if parts.len() == 1 { return Ok(V::S(parts.pop().unwrap().0)); }
        Ok(V::S(concat(&parts, doms)?))
    }
    /// Copies a byte range; offsets become relative to it.
    pub fn read_range(&self, off: u32, len: u32, doms: &[Dom]) -> R<Vec<Ch>> {
        let ch = self.chunks();
        let mut r = vec![];
        if len == 0 { return Ok(r); }
        let start = match ch.binary_search_by(|c| c.off.cmp(&off)) { Ok(i) => i, Err(0) => 0, Err(i) => i - 1 };
        for c in &ch[start..] {
            if c.off + c.len <= off { continue; }
            if c.off >= off + len { break; }
            r.extend(clip(c, off, off + len, doms)?.map(|mut c| { c.off -= off; c }));
        }
        Ok(r)
    }
    /// Replaces the byte range `off..off+len` by the given chunks (relative to `off`).
    pub fn write_range(&mut self, off: u32, len: u32, new: Vec<Ch>, doms: &[Dom]) -> R<()> {
        if len == 0 { return Ok(()); }
        if let Mem::Many(rc) = self {
            // fast path: one chunk replaced exactly
            if new.len() == 1 && new[0].off == 0 && new[0].len == len {
                if let Ok(i) = rc.binary_search_by(|c| c.off.cmp(&off)) {
                    if rc[i].len == len {
                        let mut it = new;
                        Rc::make_mut(rc)[i].v = it.pop().unwrap().v;
                        return Ok(());
                    }
                }
            }
        }
        let old = self.chunks();
        let mut out: Vec<Ch> = Vec::with_capacity(old.len() + new.len());
        let end = off + len;
        let mut put = false;
        let mut new = Some(new);
        let mut push_new = |out: &mut Vec<Ch>| {
            for mut c in new.take().unwrap() { c.off += off; out.push(c); }
        };
        for c in old {
            if c.off + c.len <= off { out.push(c.clone()); continue; }
            if c.off >= end {
                if !put { put = true; push_new(&mut out); }
                out.push(c.clone());
                continue;
            }
            // overlapping
            if c.off < off { out.extend(clip(c, c.off, off, doms)?); }
            if !put { put = true; push_new(&mut out); }
            if c.off + c.len > end { out.extend(clip(c, end, c.off + c.len, doms)?); }
        }
        if !put { push_new(&mut out); }
        *self = Mem::from_chunks(out);
        Ok(())
    }
    pub fn write(&mut self, off: u32, len: u32, v: V, doms: &[Dom]) -> R<()> {
        match self {
            Mem::Dead | Mem::Empty => { *self = Mem::One(Ch { off, len, v }); return Ok(()); }
            Mem::One(c) if c.off == off && c.len == len => { c.v = v; return Ok(()); }
            _ => {}
        }
        self.write_range(off, len, vec![Ch { off: 0, len, v }], doms)
    }
}
fn clip(c: &Ch, lo: u32, hi: u32, doms: &[Dom]) -> R<Option<Ch>> {
    let (a, b) = (c.off.max(lo), (c.off + c.len).min(hi));
    if a >= b { return Ok(None); }
    if a == c.off && b == c.off + c.len { return Ok(Some(c.clone())); }
    let v = match &c.v {
        V::Undef => V::Undef,
        V::Opaque => V::Opaque,
        V::P(_) => return unsup("part of a pointer"),
        V::S(s) => V::S(extract(s, a - c.off, b - a, doms)?),
    };
    Ok(Some(Ch { off: a, len: b - a, v }))
}
