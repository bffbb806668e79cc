//! Query patterns as data.
use crate::model::{GKey, GKind, St};

#[derive(Clone, Debug, PartialEq)]
pub enum PatD {
    C(u8, bool),
    And(Vec<PatD>),
    Not { pos: Box<PatD>, neg: Box<PatD>, left: bool },
    G(GKind, u8, u8, bool, bool),
}
impl PatD {
    pub fn matches(&self, s: &St, id: u64) -> bool {
        match self {
            PatD::C(t, _) => s.cell(*t as usize, id) != 0,
            PatD::And(v) => v.iter().all(|p| p.matches(s, id)),
            PatD::Not { pos, neg, .. } => pos.matches(s, id) && !neg.matches(s, id),
            PatD::G(_, a, b, ..) => s.cell(*a as usize, id) != 0 && s.cell(*b as usize, id) != 0,
        }
    }
    /// components in the order their storages are asked for, with exclusiveness
    pub fn locks(&self) -> Vec<(u8, bool)> {
        match self {
            PatD::C(t, m) => vec![(*t, *m)],
            PatD::And(v) => v.iter().flat_map(|p| p.locks()).collect(),
            PatD::Not { pos, neg, left } => {
                let (a, b) = (pos.locks(), neg.locks());
                if *left {
                    b.into_iter().chain(a).collect()
                } else {
                    a.into_iter().chain(b).collect()
                }
            }
            PatD::G(_, a, b, ma, mb) => vec![(*a, *ma), (*b, *mb)],
        }
    }
    pub fn items(&self) -> Vec<u8> {
        match self {
            PatD::C(t, _) => vec![*t],
            PatD::And(v) => v.iter().flat_map(|p| p.items()).collect(),
            PatD::Not { pos, .. } => pos.items(),
            PatD::G(_, a, b, ..) => vec![*a, *b],
        }
    }
    pub fn groups(&self) -> Vec<GKey> {
        match self {
            PatD::C(..) => vec![],
            PatD::And(v) => v.iter().flat_map(|p| p.groups()).collect(),
            PatD::Not { pos, neg, .. } => pos.groups().into_iter().chain(neg.groups()).collect(),
            PatD::G(k, a, b, ..) => vec![(*k, *a, *b)],
        }
    }
    pub fn mutable(&self) -> bool {
        self.locks().iter().any(|l| l.1)
    }
    /// names types in ascending order, each once, and is one group or plain
    pub fn ordered(&self) -> bool {
        let l = self.locks();
        let asc = l.windows(2).all(|w| w[0].0 < w[1].0);
        let g = self.groups().len();
        asc && (g == 0 || matches!(self, PatD::G(..)))
    }
}

pub const PAIRS: [(u8, u8); 9] = [(0, 1), (1, 2), (0, 2), (2, 3), (0, 5), (3, 4), (1, 0), (5, 0), (2, 1)];
