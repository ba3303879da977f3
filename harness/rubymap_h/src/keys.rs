//! Key and value objects with planned failures, chosen hashes and a live
//! count.
use common::Rng;
use rubymap::{RubyEql, RubyHash, RubySymEql, RubySymHash};
use std::borrow::Borrow;
use std::cell::Cell;
use std::hash::{BuildHasher, Hasher};

thread_local! { pub static LIVE: Cell<i64> = const { Cell::new(0) }; }

/// The operation context handed through every call: which key objects fail.
#[derive(Default)]
pub struct Ctx {
    pub kind: u8, // 0 nothing fails, 1 hashing fails, 2 comparing fails
    pub ids: Vec<i64>,
}
pub const CODE: i64 = 77;

#[derive(Clone, Copy, Debug)]
pub struct Sym {
    pub id: i64,
    pub cls: i64,
    pub hash: u64,
}
#[derive(Clone, Debug)]
pub struct Key(pub Sym);

impl Key {
    pub fn id(&self) -> i64 {
        self.0.id
    }
}
pub fn dead() -> Key {
    Key(Sym { id: 0, cls: -1, hash: 0 })
}
impl PartialEq for Key {
    fn eq(&self, o: &Key) -> bool {
        self.0.id != 0 && o.0.id != 0 && self.0.cls == o.0.cls
    }
}
impl Eq for Key {}
impl PartialOrd for Key {
    fn partial_cmp(&self, o: &Key) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Key {
    fn cmp(&self, o: &Key) -> std::cmp::Ordering {
        self.0.cls.cmp(&o.0.cls)
    }
}
impl RubyEql<Ctx, (), i64> for Key {
    fn eql(&self, o: &Key, e: &mut Ctx, _: &mut ()) -> Result<bool, i64> {
        if e.kind == 2 && (e.ids.contains(&self.0.id) || e.ids.contains(&o.0.id)) {
            return Err(CODE);
        }
        Ok(self == o)
    }
}
impl RubyHash<Ctx, (), i64> for Key {
    fn ruby_hash<H: Hasher>(&self, h: &mut H, e: &mut Ctx, _: &mut ()) -> Result<(), i64> {
        if e.kind == 1 && e.ids.contains(&self.0.id) {
            return Err(CODE);
        }
        h.write_u64(self.0.hash);
        Ok(())
    }
}
impl RubySymEql for Sym {
    fn eql(&self, o: &Sym) -> bool {
        self.id != 0 && o.id != 0 && self.cls == o.cls
    }
}
impl RubySymHash for Sym {
    fn ruby_hash<H: Hasher>(&self, h: &mut H) {
        h.write_u64(self.hash);
    }
}
impl Borrow<Sym> for Key {
    fn borrow(&self) -> &Sym {
        &self.0
    }
}
impl From<Sym> for Key {
    fn from(s: Sym) -> Key {
        Key(s)
    }
}

#[derive(Debug)]
pub struct Val(pub i64);
impl Val {
    pub fn new(v: i64) -> Val {
        LIVE.with(|l| l.set(l.get() + 1));
        Val(v)
    }
}
impl Clone for Val {
    fn clone(&self) -> Val {
        Val::new(self.0)
    }
}
impl Default for Val {
    fn default() -> Val {
        Val::new(0)
    }
}
impl Drop for Val {
    fn drop(&mut self) {
        LIVE.with(|l| l.set(l.get() - 1));
    }
}
impl RubyEql<Ctx, (), i64> for Val {
    fn eql(&self, o: &Val, _: &mut Ctx, _: &mut ()) -> Result<bool, i64> {
        Ok(self.0 == o.0)
    }
}

/// Hands the written digest through unchanged, so that the universe decides
/// bucket and tag of every key.
#[derive(Clone, Default)]
pub struct IdBuild;
pub struct IdHasher(u64);
impl BuildHasher for IdBuild {
    type Hasher = IdHasher;
    fn build_hasher(&self) -> IdHasher {
        IdHasher(0)
    }
}
impl Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0.rotate_left(8) ^ *x as u64;
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = x;
    }
}

/// Key universe: objects 1..=n with class, hash class and digest.
pub struct Universe {
    pub c: Vec<i64>,
    pub h: Vec<i64>,
    pub digest: Vec<u64>,
}
impl Universe {
    pub fn key(&self, id: i64) -> Key {
        if id == 0 {
            return dead();
        }
        let i = (id - 1) as usize;
        Key(Sym { id, cls: self.c[i], hash: self.digest[i] })
    }
    pub fn n(&self) -> i64 {
        self.c.len() as i64
    }
    /// `tags`: digests of different hash classes must differ in their top
    /// seven bits (a comparison is then only made between equal digests).
    pub fn random(r: &mut Rng, n: usize, tags: bool) -> Universe {
        let nc = (n * 2 / 3).max(1);
        let scheme = if tags { 6 + r.below(2) } else { r.below(6) };
        let nh = match scheme {
            1 => 1,
            2 => 1 + r.below(4) as usize,
            6 => 1 + r.below(6) as usize,
            _ => nc,
        };
        let base = r.next();
        let dig: Vec<u64> = (0..nh.max(1) as u64)
            .map(|i| match scheme {
                3 => (base & 0xfffff) | (i.wrapping_mul(0x9E3779B97F4A7C15) << 20),
                4 => (base & 0xfe00_0000_0000_0000) | (r.next() >> 7),
                5 => i,
                6 | 7 => ((i + (base & 15)) << 57) | (r.next() & 0x3ff),
                _ => r.next(),
            })
            .collect();
        let cls_h: Vec<usize> = (0..nc)
            .map(|i| if nh == nc { i } else { r.below(nh as u64) as usize })
            .collect();
        let mut c = vec![];
        for i in 0..n {
            c.push(if i < nc { i } else { r.below(nc as u64) as usize });
        }
        // shuffle so that object numbers do not follow class order
        for i in (1..n).rev() {
            let j = r.below(i as u64 + 1) as usize;
            c.swap(i, j);
        }
        Universe {
            c: c.iter().map(|x| *x as i64 + 1).collect(),
            h: c.iter().map(|x| cls_h[*x] as i64 + 1).collect(),
            digest: c.iter().map(|x| dig[cls_h[*x]]).collect(),
        }
    }
    pub fn json(&self) -> String {
        format!("{{\"c\":{},\"h\":{}}}", common::ints(&self.c), common::ints(&self.h))
    }
}
