//! Records what the resampling does, without scheduling points of its own:
//! which cells are grown in which order by whom, and the weights of all events
//! whenever a cell is reported as finished.
use cres::cell::Cell;
use cres::event::Event;
use cres::traits::{Distance, NeighbourSearch, NeighbourSearchAlgo, ObserveCell};
use noisy_float::prelude::*;
use serde::{Deserialize, Serialize};
use simrt::Freeze;

/// f64 that survives JSON bit by bit
#[derive(Clone, Copy, PartialEq, PartialOrd, Debug)]
pub struct F(pub f64);
impl Serialize for F { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u64(self.0.to_bits()) } }
impl<'d> Deserialize<'d> for F { fn deserialize<D: serde::Deserializer<'d>>(d: D) -> Result<Self, D::Error> { Ok(F(f64::from_bits(u64::deserialize(d)?))) } }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum What {
    Start { uid: u64, seed: usize },
    Next { uid: u64, idx: usize, dist: F },
    /// no neighbours left
    End { uid: u64 },
    Drop { uid: u64 },
    Obs { n: usize, radius: F, wsum: F, members: Vec<usize>, /// all events; empty: locked exclusively
        snap: Vec<Vec<F>> },
    Finish,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Rec { pub seq: u64, pub tid: u32, pub what: What }

struct Store { recs: Vec<Rec>, uid: u64, nev: usize, ids: Vec<usize>, idx_of: std::collections::BTreeMap<usize, usize> }
static mut STORE: Option<Store> = None;
#[allow(static_mut_refs)]
fn store() -> &'static mut Store { unsafe { STORE.as_mut().unwrap() } }
/// `nev` 0: no snapshots of all events
pub fn reset(ids: &[usize], snapshots: bool) {
    let idx_of = ids.iter().enumerate().map(|(i, id)| (*id, i)).collect();
    unsafe { STORE = Some(Store { recs: Vec::new(), uid: 0, nev: if snapshots { ids.len() } else { 0 }, ids: ids.to_vec(), idx_of }) };
}
pub fn take() -> Vec<Rec> { std::mem::take(&mut store().recs) }
fn push(what: What) { store().recs.push(Rec { seq: simrt::seq(), tid: simrt::self_id(), what }); }

/// neighbour search that records what the wrapped one returns
pub struct Rc<N>(std::marker::PhantomData<N>);
pub struct RcData<X>(X);
pub struct RcIter<I> { it: I, uid: u64 }

impl<N: NeighbourSearchAlgo> NeighbourSearchAlgo for Rc<N> {
    type Output<D> = RcData<N::Output<D>>;
    fn new_with_dist<D: Distance<usize> + Send + Sync>(n: usize, d: D, max: N64) -> Self::Output<D> { RcData(N::new_with_dist(n, d, max)) }
}
impl<'a, X> NeighbourSearch for &'a RcData<X>
where &'a X: NeighbourSearch, <&'a X as NeighbourSearch>::Iter: Iterator<Item = (usize, N64)> {
    type Iter = RcIter<<&'a X as NeighbourSearch>::Iter>;
    fn nearest(self, p: &usize) -> Self::Iter {
        let uid = { let _f = Freeze::new(); let s = store(); s.uid += 1; let uid = s.uid; push(What::Start { uid, seed: *p }); uid };
        RcIter { it: (&self.0).nearest(p), uid }
    }
}
impl<I: Iterator<Item = (usize, N64)>> Iterator for RcIter<I> {
    type Item = (usize, N64);
    fn next(&mut self) -> Option<(usize, N64)> {
        let r = self.it.next();
        let _f = Freeze::new();
        push(match r { Some((idx, d)) => What::Next { uid: self.uid, idx, dist: F(d.into()) }, None => What::End { uid: self.uid } });
        r
    }
}
impl<I> Drop for RcIter<I> { fn drop(&mut self) { let _f = Freeze::new(); push(What::Drop { uid: self.uid }); } }

pub fn raw_weights(e: &Event) -> Vec<F> {
    // The simulator runs one thread at a time: nobody writes while we look.
    let w = unsafe { &*e.weights.data_ptr() };
    w.iter().map(|x| F((*x).into())).collect()
}

pub struct Obs;
impl ObserveCell for Obs {
    fn observe_cell(&self, cell: &Cell) {
        let _f = Freeze::new();
        let s = store();
        let mut members = Vec::new();
        let mut base: Option<*const Event> = None;
        let mut ok = true;
        for e in cell.iter() {
            let i = match s.idx_of.get(&e.id()) { Some(i) => *i, None => usize::MAX };
            members.push(i);
            if i == usize::MAX { ok = false; continue; }
            let b = (e as *const Event).wrapping_sub(i);
            if base.is_some_and(|x| x != b) { ok = false; }
            base = Some(b);
        }
        let mut snap = Vec::new();
        if let (true, Some(b), true) = (ok, base, s.nev > 0) {
            for i in 0..s.nev {
                let e = unsafe { &*b.add(i) };
                if e.id() != s.ids[i] { snap.clear(); break; }
                if e.weights.is_locked_exclusive() { snap.push(vec![]) } else { snap.push(raw_weights(e)) }
            }
        }
        push(What::Obs { n: cell.nmembers(), radius: F(cell.radius().into()), wsum: F(cell.weight_sum().into()), members, snap });
    }
    fn finish(&mut self) { let _f = Freeze::new(); push(What::Finish); }
}
