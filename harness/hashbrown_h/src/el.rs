//! Tracked elements, planned callback failures and key universes.
use common::Rng;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    None,
    Eq,
    EqP,
    Hash,
    Pred,
    Clone,
    Drop,
}
impl Kind {
    pub fn name(self) -> &'static str {
        match self {
            Kind::None => "none",
            Kind::Eq => "eq",
            Kind::EqP => "eqp",
            Kind::Hash => "hash",
            Kind::Pred => "pred",
            Kind::Clone => "clone",
            Kind::Drop => "drop",
        }
    }
}
pub const CODE: i64 = 77;
thread_local! {
    static PLAN: Cell<(Kind, i64)> = const { Cell::new((Kind::None, 0)) };
    static FIRED: Cell<bool> = const { Cell::new(false) };
    static LIVE: RefCell<BTreeMap<(u8, i64), i64>> = const { RefCell::new(BTreeMap::new()) };
    static DOUBLE: Cell<i64> = const { Cell::new(0) };
    /// what the predicate of the running operation has seen
    pub static SEEN: RefCell<Vec<i64>> = const { RefCell::new(Vec::new()) };
}
pub fn plan(k: Kind, n: i64) {
    PLAN.with(|p| p.set((k, n)));
    FIRED.with(|f| f.set(false));
    SEEN.with(|s| s.borrow_mut().clear());
}
/// ends the plan and says whether it was reached
pub fn unplan() -> bool {
    PLAN.with(|p| p.set((Kind::None, 0)));
    FIRED.with(|f| f.get())
}
fn due(k: Kind) -> bool {
    PLAN.with(|p| {
        let (pk, n) = p.get();
        if pk != k {
            return false;
        }
        p.set((if n == 1 { Kind::None } else { pk }, n - 1));
        if n == 1 {
            FIRED.with(|f| f.set(true));
        }
        n == 1
    })
}
pub fn tick(k: Kind) {
    if due(k) {
        panic!("planned");
    }
}
pub fn eq_tick() -> Result<(), i64> {
    tick(Kind::EqP);
    if due(Kind::Eq) {
        Err(CODE)
    } else {
        Ok(())
    }
}
pub fn seen(id: i64) {
    SEEN.with(|s| s.borrow_mut().push(id));
    tick(Kind::Pred);
}
pub fn take_seen() -> Vec<i64> {
    SEEN.with(|s| std::mem::take(&mut *s.borrow_mut()))
}

pub fn born(space: u8, id: i64) {
    LIVE.with(|l| *l.borrow_mut().entry((space, id)).or_insert(0) += 1);
}
const ALIVE: u32 = 0x600d_e1e7;
fn died(space: u8, id: i64, mark: &mut u32) {
    if std::mem::replace(mark, 0xdead_dead) != ALIVE {
        DOUBLE.with(|d| d.set(d.get() + 1));
        return;
    }
    LIVE.with(|l| *l.borrow_mut().entry((space, id)).or_insert(0) -= 1);
    tick(Kind::Drop);
}
pub fn forget_all() {
    LIVE.with(|l| l.borrow_mut().clear());
    DOUBLE.with(|d| d.set(0));
}
pub fn doubles() -> i64 {
    DOUBLE.with(|d| d.get())
}
/// live instances of one space minus those named in `held`, as id, count pairs
pub fn surplus(space: u8, held: &[i64]) -> Vec<i64> {
    let mut m: BTreeMap<i64, i64> = LIVE.with(|l| {
        l.borrow().iter().filter(|(k, _)| k.0 == space).map(|(k, v)| (k.1, *v)).collect()
    });
    for h in held {
        *m.entry(*h).or_insert(0) -= 1;
    }
    m.into_iter().filter(|x| x.1 != 0).flat_map(|x| [x.0, x.1]).collect()
}

/// A tracked object: `space` keeps table elements, map keys and map values apart.
#[derive(Debug)]
pub struct Obj<const SPACE: u8> {
    pub id: i64,
    mark: u32,
}
impl<const S: u8> Obj<S> {
    pub fn new(id: i64) -> Self {
        born(S, id);
        Obj { id, mark: ALIVE }
    }
}
impl<const S: u8> Clone for Obj<S> {
    fn clone(&self) -> Self {
        tick(Kind::Clone);
        Obj::new(self.id)
    }
}
impl<const S: u8> Drop for Obj<S> {
    fn drop(&mut self) {
        died(S, self.id, &mut self.mark);
    }
}

/// Keys 1..=n: class, hash class, digest.
pub struct Universe {
    pub c: Vec<i64>,
    pub h: Vec<i64>,
    pub digest: Vec<u64>,
}
impl Universe {
    /// `dup`: several key objects per class
    pub fn random(r: &mut Rng, n: usize, dup: bool) -> Universe {
        let nc = if dup { (n * 2 / 3).max(1) } else { n };
        let scheme = r.below(8);
        let nh = match scheme {
            1 => 1,
            2 => 1 + r.below(4) as usize,
            _ => nc,
        };
        let base = r.next();
        let dig: Vec<u64> = (0..nh as u64)
            .map(|i| match scheme {
                // same start position for any table size
                3 => (base & 0xfffff) | (i.wrapping_mul(0x9E3779B97F4A7C15) << 20),
                // same tag
                4 => (base & 0xfe00_0000_0000_0000) | (r.next() >> 7),
                // consecutive
                5 => i,
                // start positions at the end of the table, few tags
                6 => (r.below(2) << 57) | (0xffff_ffffu64 - r.below(4)),
                _ => r.next(),
            })
            .collect();
        let cls_h: Vec<usize> =
            (0..nc).map(|i| if nh == nc { i } else { r.below(nh as u64) as usize }).collect();
        let mut c: Vec<usize> =
            (0..n).map(|i| if i < nc { i } else { r.below(nc as u64) as usize }).collect();
        for i in (1..n).rev() {
            let j = r.below(i as u64 + 1) as usize;
            c.swap(i, j);
        }
        // equal digests are one hash class
        let mut uniq: Vec<u64> = vec![];
        let h = c
            .iter()
            .map(|x| {
                let d = dig[cls_h[*x]];
                match uniq.iter().position(|y| *y == d) {
                    Some(p) => p as i64 + 1,
                    None => {
                        uniq.push(d);
                        uniq.len() as i64
                    }
                }
            })
            .collect();
        Universe {
            h,
            digest: c.iter().map(|x| dig[cls_h[*x]]).collect(),
            c: c.iter().map(|x| *x as i64 + 1).collect(),
        }
    }
    pub fn n(&self) -> i64 {
        self.c.len() as i64
    }
    pub fn d(&self, k: i64) -> u64 {
        self.digest[k as usize - 1]
    }
    pub fn json(&self) -> String {
        format!("{{\"c\":{},\"h\":{}}}", common::ints(&self.c), common::ints(&self.h))
    }
}
