//! Queries as values: the same request can be put to different decoders and the answers compared.
use crate::api::*;
use crate::fw::*;
use crate::gen::*;
use crate::world::*;
use ebi::api::decoder::{ChunkId, Decoder};
use ebi::decoder::query::Predicate;
use roaring::RoaringBitmap;
use std::io::{Read, Seek, Write};

#[derive(Clone, Debug)]
pub enum Kind {
    Materialize,
    Filter(Predicate),
    FilterMaterialize(Predicate),
    Sum,
    Min,
    Max,
    Knn(Vec<f64>),
    Matmul(Vec<f64>, (usize, usize), (usize, usize)),
    /// through a chunk reader
    CrMaterialize,
    CrFilter(Predicate),
    CrSum,
    CrDistance(usize, Vec<f64>),
    CrDot(usize, Vec<f64>),
}
#[derive(Clone, Debug)]
pub struct Query {
    pub kind: Kind,
    pub mask: Option<RoaringBitmap>,
    pub chunk: Option<usize>,
}
#[derive(Clone, Debug)]
pub enum Ans {
    Vals(Vec<f64>),
    Set(RoaringBitmap),
    Knn(usize, f64),
}
impl Ans {
    pub fn same(&self, o: &Ans) -> bool {
        match (self, o) {
            (Ans::Vals(a), Ans::Vals(b)) => first_diff(a, b).is_none(),
            (Ans::Set(a), Ans::Set(b)) => a == b,
            (Ans::Knn(i, d), Ans::Knn(j, e)) => i == j && same(*d, *e),
            _ => false,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ans::Vals(a) => a.len() as u64,
            Ans::Set(a) => a.len(),
            Ans::Knn(..) => 1,
        }
    }
    pub fn short(&self) -> String {
        match self {
            Ans::Vals(v) => format!("{} values {:?}", v.len(), &v[..v.len().min(4)]),
            Ans::Set(s) => format!("{} records {:?}..{:?}", s.len(), s.min(), s.max()),
            Ans::Knn(i, d) => format!("neighbour {i} at {d:e}"),
        }
    }
}

impl Query {
    pub fn name(&self) -> &'static str {
        match self.kind {
            Kind::Materialize => "materialize",
            Kind::Filter(_) => "filter",
            Kind::FilterMaterialize(_) => "filter_materialize",
            Kind::Sum => "sum",
            Kind::Min => "min",
            Kind::Max => "max",
            Kind::Knn(_) => "knn1",
            Kind::Matmul(..) => "matmul",
            Kind::CrMaterialize => "chunk materialize",
            Kind::CrFilter(_) => "chunk filter",
            Kind::CrSum => "chunk sum",
            Kind::CrDistance(..) => "chunk distance",
            Kind::CrDot(..) => "chunk dot",
        }
    }
    pub fn show(&self) -> String {
        format!("{:?} {} chunk {:?}", self.kind, show_mask(self.mask.as_ref()), self.chunk).chars().take(300).collect()
    }
    pub fn run<R: Read + Seek>(&self, d: &mut Decoder<R>) -> Result<Ans, String> {
        let mut out = Vec::new();
        let a = self.run_to(d, &mut out)?;
        Ok(match a {
            Some(a) => a,
            None => {
                if out.len() % 8 != 0 {
                    return Err(format!("wrote {} bytes, not a multiple of 8", out.len()));
                }
                Ans::Vals(to_f64(&out))
            }
        })
    }
    /// does the query write records to an output?
    pub fn writes(&self) -> bool {
        matches!(self.kind, Kind::Materialize | Kind::FilterMaterialize(_) | Kind::CrMaterialize)
    }
    /// None: the answer is what was written to `out`
    pub fn run_to<R: Read + Seek, W: Write>(&self, d: &mut Decoder<R>, out: &mut W) -> Result<Option<Ans>, String> {
        let m = self.mask.as_ref();
        let id = self.chunk.map(ChunkId::new);
        Ok(match &self.kind {
            Kind::Materialize => {
                let mut o = ebi::api::decoder::DecoderOutput::from_writer(out);
                es(d.materialize(&mut o, m, id))?;
                None
            }
            Kind::FilterMaterialize(p) => {
                let mut o = ebi::api::decoder::DecoderOutput::from_writer(out);
                es(d.filter_materialize(&mut o, *p, m, id))?;
                None
            }
            Kind::Filter(p) => Some(Ans::Set(es(d.filter(*p, m, id))?)),
            Kind::Sum => Some(Ans::Vals(vec![es(d.sum(m, id))?])),
            Kind::Min => Some(Ans::Vals(vec![es(d.min(m, id))?])),
            Kind::Max => Some(Ans::Vals(vec![es(d.max(m, id))?])),
            Kind::Knn(t) => {
                let r = es(d.knn1(t))?;
                Some(Ans::Knn(r.index, r.distance))
            }
            Kind::Matmul(b, ts, ds) => Some(Ans::Vals(es(d.matmul(b, *ts, *ds))?.to_vec())),
            k => {
                let i = self.chunk.unwrap_or(0);
                let mut cr = es(d.chunk_reader(ChunkId::new(i)))?;
                match k {
                    Kind::CrMaterialize => {
                        es(cr.materialize(out, m))?;
                        None
                    }
                    Kind::CrFilter(p) => Some(Ans::Set(es(cr.filter(*p, m))?)),
                    Kind::CrSum => Some(Ans::Vals(vec![es(cr.sum(m))?])),
                    Kind::CrDistance(o, t) => Some(Ans::Vals(vec![es(cr.distance_squared(*o, t))?])),
                    Kind::CrDot(o, t) => Some(Ans::Vals(vec![es(cr.dot_product(*o, t))?])),
                    _ => unreachable!(),
                }
            }
        })
    }
}

pub fn gen_query(c: &mut Case, w: &World) -> Query {
    let (mask, _) = gen_mask(&mut c.rng, w.n(), &w.bounds);
    let chunk = gen_chunk_sel(c, w);
    let k = c.rng.below(if w.nchunks() == 0 { 6 } else { 14 });
    let mut q = Query { kind: Kind::Materialize, mask, chunk };
    let tgt = |c: &mut Case, n: usize| -> Vec<f64> { (0..n).map(|_| c.rng.range(-50, 50) as f64).collect() };
    q.kind = match k {
        0 => Kind::Materialize,
        1 => Kind::Filter(world_pred(c, w)),
        2 => Kind::FilterMaterialize(world_pred(c, w)),
        3 => Kind::Sum,
        4 => Kind::Min,
        5 => Kind::Max,
        6 => {
            // the vector length must divide the record count
            let divs: Vec<usize> = (1..=w.n().min(64)).filter(|d| w.n() % d == 0).collect();
            let l = c.rng.pick(&divs);
            q.mask = None;
            q.chunk = None;
            Kind::Knn(tgt(c, l))
        }
        7 => {
            let g = uniform_chunk(w);
            match g {
                Some(ch) => {
                    let divs: Vec<usize> = (1..=ch).filter(|d| ch % d == 0).collect();
                    let cols = c.rng.pick(&divs);
                    let rows = ch / cols;
                    let tn = 1 + c.rng.usize(3);
                    q.mask = None;
                    q.chunk = None;
                    let b = tgt(c, cols * tn);
                    Kind::Matmul(b, (cols, tn), (rows, cols))
                }
                None => Kind::Sum,
            }
        }
        _ => {
            let i = c.rng.usize(w.nchunks());
            q.chunk = Some(i);
            let len = w.bounds[i + 1] - w.bounds[i];
            let off = c.rng.usize(len);
            let tl = 1 + c.rng.usize(len - off);
            match k {
                8 => Kind::CrMaterialize,
                9 | 10 => Kind::CrFilter(world_pred(c, w)),
                11 => {
                    if w.selected(q.mask.as_ref(), Some(i)).is_empty() {
                        q.mask = None;
                    }
                    Kind::CrSum
                }
                12 => Kind::CrDistance(off, tgt(c, tl.min(40))),
                _ => Kind::CrDot(off, tgt(c, tl.min(40))),
            }
        }
    };
    q
}

/// records per chunk if all chunks hold the same number
pub fn uniform_chunk(w: &World) -> Option<usize> {
    if w.nchunks() == 0 {
        return None;
    }
    let l = w.bounds[1] - w.bounds[0];
    w.bounds.windows(2).all(|x| x[1] - x[0] == l).then_some(l)
}
