//! Every query shape the simulator uses, with a description of it as data.
use crate::comps::*;
use crate::model::GKind;
use crate::pat::PatD;
use std::marker::PhantomData;
use xecs::group::{FullOwning, NonOwning, PartialOwning};
use xecs::query::{IdIter, QueryIterator, Queryable, WithId, Without};
use xecs::World;

pub trait Pat {
    fn d() -> PatD;
}
impl<T: Comp> Pat for &T {
    fn d() -> PatD {
        PatD::C(T::T as u8, false)
    }
}
impl<T: Comp> Pat for &mut T {
    fn d() -> PatD {
        PatD::C(T::T as u8, true)
    }
}
macro_rules! tup {
    ($($x:ident),*) => {
        impl<$($x: Pat),*> Pat for ($($x,)*) {
            fn d() -> PatD { PatD::And(vec![$($x::d()),*]) }
        }
        impl<'a, $($x: Flat<'a>),*> Flat<'a> for ($($x,)*) {
            #[allow(non_snake_case)]
            fn flat(self, o: &mut Vec<RefV<'a>>) { let ($($x,)*) = self; $($x.flat(o);)* }
        }
    };
}
tup!(A, B);
tup!(A, B, C);
tup!(A, B, C, D);
tup!(A, B, C, D, E);
impl<A: Pat, B: Pat> Pat for (Without<A>, B) {
    fn d() -> PatD {
        PatD::Not { pos: Box::new(B::d()), neg: Box::new(A::d()), left: true }
    }
}
impl<A: Pat, B: Pat> Pat for (A, Without<B>) {
    fn d() -> PatD {
        PatD::Not { pos: Box::new(A::d()), neg: Box::new(B::d()), left: false }
    }
}
macro_rules! grp {
    ($n:ident, $k:expr) => {
        impl<A: Pat, B: Pat> Pat for $n<A, B> {
            fn d() -> PatD {
                match (A::d(), B::d()) {
                    (PatD::C(a, ma), PatD::C(b, mb)) => PatD::G($k, a, b, ma, mb),
                    _ => unreachable!(),
                }
            }
        }
    };
}
grp!(FullOwning, GKind::Full);
grp!(PartialOwning, GKind::Part);
grp!(NonOwning, GKind::Non);

pub enum RefV<'a> {
    S(&'a dyn Obj),
    M(&'a mut dyn Obj),
}
impl<'a> RefV<'a> {
    pub fn val(&self) -> Val {
        match self {
            RefV::S(r) => r.val(),
            RefV::M(r) => r.val(),
        }
    }
}
pub trait Flat<'a>: Sized {
    fn flat(self, o: &mut Vec<RefV<'a>>);
    fn vec(self) -> Vec<RefV<'a>> {
        let mut v = vec![];
        self.flat(&mut v);
        v
    }
}
impl<'a, T: Comp> Flat<'a> for &'a T {
    fn flat(self, o: &mut Vec<RefV<'a>>) {
        o.push(RefV::S(self))
    }
}
impl<'a, T: Comp> Flat<'a> for &'a mut T {
    fn flat(self, o: &mut Vec<RefV<'a>>) {
        o.push(RefV::M(self))
    }
}

/// a running query with its item type erased
pub trait Running<'a> {
    fn next(&mut self) -> Option<Vec<RefV<'a>>>;
    fn next_with_id(&mut self) -> Option<(u64, Vec<RefV<'a>>)>;
    fn from_id(&mut self, id: u64) -> Option<Vec<RefV<'a>>>;
    fn nth(&mut self, k: usize) -> Option<Vec<RefV<'a>>>;
    fn size_hint(&self) -> (usize, Option<usize>);
    fn count(self: Box<Self>) -> usize;
    fn into_with_id(self: Box<Self>) -> Box<dyn RunningId<'a> + 'a>;
}
pub trait RunningId<'a> {
    fn next(&mut self) -> Option<(u64, Vec<RefV<'a>>)>;
    fn size_hint(&self) -> (usize, Option<usize>);
}
type Q<'a, I> = Box<dyn QueryIterator<Item = I> + 'a>;
struct W<'a, I>(Q<'a, I>);
struct WI<'a, I>(IdIter<Q<'a, I>>, PhantomData<&'a I>);
pub fn eid(id: u64) -> xecs::EntityId {
    xecs::EntityId::new(id as usize).unwrap()
}
impl<'a, I: Flat<'a> + 'a> Running<'a> for W<'a, I> {
    fn next(&mut self) -> Option<Vec<RefV<'a>>> {
        self.0.next().map(|i| i.vec())
    }
    fn next_with_id(&mut self) -> Option<(u64, Vec<RefV<'a>>)> {
        self.0.next_with_id().map(|(e, i)| (e.get() as u64, i.vec()))
    }
    fn from_id(&mut self, id: u64) -> Option<Vec<RefV<'a>>> {
        self.0.from_id(eid(id)).map(|i| i.vec())
    }
    fn nth(&mut self, k: usize) -> Option<Vec<RefV<'a>>> {
        self.0.nth(k).map(|i| i.vec())
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn count(self: Box<Self>) -> usize {
        self.0.count()
    }
    fn into_with_id(self: Box<Self>) -> Box<dyn RunningId<'a> + 'a> {
        Box::new(WI(self.0.with_id(), PhantomData))
    }
}
impl<'a, I: Flat<'a> + 'a> RunningId<'a> for WI<'a, I> {
    fn next(&mut self) -> Option<(u64, Vec<RefV<'a>>)> {
        self.0.next().map(|(e, i)| (e.get() as u64, i.vec()))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}

pub type Start = for<'a> fn(&'a World) -> Box<dyn Running<'a> + 'a>;
pub struct Shape {
    pub text: &'static str,
    pub pat: PatD,
    pub start: Start,
}

fn begin<'a, T: Queryable<'a>>(w: &'a World) -> Box<dyn Running<'a> + 'a>
where
    T::Item: Flat<'a> + 'a,
{
    Box::new(W(w.query::<T>()))
}

macro_rules! shapes {
    ($v:ident, $l:lifetime; $($t:ty),* $(,)?) => {
        $({
            fn start<$l>(w: &$l World) -> Box<dyn Running<$l> + $l> {
                begin::<$t>(w)
            }
            fn pat<$l>() -> PatD {
                <$t as Pat>::d()
            }
            $v.push(Shape { text: stringify!($t), pat: pat(), start });
        })*
    };
}
macro_rules! group_shapes {
    ($v:ident; $($A:ident $B:ident),* $(,)?) => {
        $(group_shapes!(@k $v; FullOwning $A $B);
          group_shapes!(@k $v; PartialOwning $A $B);
          group_shapes!(@k $v; NonOwning $A $B);)*
    };
    (@k $v:ident; $G:ident $A:ident $B:ident) => {
        shapes!($v, 'a; $G<&'a $A, &'a $B>, $G<&'a $A, &'a mut $B>, $G<&'a mut $A, &'a $B>, $G<&'a mut $A, &'a mut $B>);
    };
}


pub fn all() -> Vec<Shape> {
    let mut v: Vec<Shape> = vec![];
    shapes!(v, 'a;
        &'a CA, &'a CB, &'a CC, &'a CD, &'a CE, &'a CZ,
        &'a mut CA, &'a mut CB, &'a mut CC, &'a mut CD, &'a mut CE, &'a mut CZ,
        (&'a CA, &'a CB), (&'a CA, &'a mut CB), (&'a mut CA, &'a CB), (&'a mut CA, &'a mut CB),
        (&'a CA, &'a CC), (&'a mut CA, &'a CC), (&'a CB, &'a CC), (&'a CB, &'a mut CC),
        (&'a CC, &'a CD), (&'a mut CC, &'a mut CD), (&'a CD, &'a CE), (&'a mut CD, &'a CE),
        (&'a CA, &'a CZ), (&'a mut CA, &'a mut CZ), (&'a CB, &'a CE),
        (&'a CB, &'a CA), (&'a mut CD, &'a CC), (&'a CZ, &'a mut CA), (&'a CA, &'a CA),
        (&'a CA, &'a CB, &'a CC), (&'a mut CA, &'a CC, &'a mut CE), (&'a CA, &'a CB, &'a CZ), (&'a CB, &'a mut CC, &'a CD),
        (&'a mut CC, &'a CB, &'a CA), (&'a CZ, &'a CA, &'a CB),
        (&'a CA, &'a CB, &'a CC, &'a CD), (&'a mut CA, &'a CB, &'a mut CD, &'a CZ), (&'a CD, &'a CC, &'a mut CB, &'a CA),
        (&'a CA, &'a CB, &'a CC, &'a CD, &'a CE), (&'a CA, &'a mut CB, &'a CC, &'a CD, &'a mut CZ), (&'a mut CE, &'a CD, &'a CC, &'a CB, &'a CA),
        (&'a CA, (&'a CB, &'a CC)), ((&'a CA, &'a mut CB), &'a CC), (&'a CA, (&'a CB, (&'a mut CC, &'a CD))), ((&'a mut CA, &'a CB), (&'a CC, &'a CD)),
        ((&'a CA, &'a CB, &'a CC), &'a CD), (&'a CA, (&'a CB, &'a CC, &'a CD), &'a CE),
        (&'a CA, Without<&'a CB>), (&'a mut CA, Without<&'a CB>), (Without<&'a CA>, &'a CB), (Without<&'a CA>, &'a mut CB),
        (&'a CA, Without<&'a CZ>), (&'a CC, Without<&'a CD>), (&'a CA, Without<&'a mut CB>), (Without<&'a mut CA>, &'a CB),
        (&'a CA, Without<(&'a CB, &'a CC)>), (Without<(&'a CA, &'a CB)>, &'a CC), (&'a mut CA, Without<(&'a CB, &'a CC, &'a CD)>),
        (Without<&'a CA>, (&'a CB, Without<&'a CC>)), (&'a CA, (&'a CB, Without<&'a CC>)), ((&'a CA, Without<&'a CB>), &'a CC),
        (&'a CA, Without<(&'a CB, Without<&'a CC>)>), ((&'a CA, &'a mut CB), Without<&'a CC>), (&'a CA, &'a CB, (&'a CC, Without<&'a CD>)),
        (Without<(Without<&'a CA>, &'a CB)>, &'a CC), ((&'a CA, Without<&'a CB>), Without<&'a CC>), (Without<&'a CA>, (Without<&'a CB>, &'a CC)),
        (&'a mut CA, &'a mut CB, &'a mut CC), (&'a CB, &'a CD, &'a CE), (&'a mut CB, &'a CC, &'a CE), (&'a CC, &'a CD, &'a mut CE), (&'a CE, &'a CB, &'a mut CD),
        (&'a mut CA, &'a mut CB, &'a mut CC, &'a mut CD), (&'a CB, &'a CC, &'a CD, &'a mut CE), (&'a CA, &'a mut CC, &'a CD, &'a CE), (&'a CE, &'a mut CB, &'a CZ, &'a CC),
        (&'a mut CA, &'a mut CB, &'a mut CC, &'a mut CD, &'a mut CE), (&'a CB, &'a CC, &'a CD, &'a CE, &'a CZ), (&'a CA, &'a CB, &'a CD, &'a CE, &'a CZ), (&'a CD, &'a mut CZ, &'a CA, &'a mut CC, &'a CB),
        ((&'a CA, Without<&'a CB>), &'a CC, &'a CD), (&'a CA, &'a CB, &'a CC, &'a CD, (&'a CE, Without<&'a CZ>)), ((&'a CA, &'a CB), (&'a CC, &'a CD), &'a CE), ((&'a CA, &'a CB), &'a CC, &'a CD, &'a CE),
        (&'a CA, (&'a CB, Without<&'a CC>), &'a CD, &'a CE), ((&'a CA, &'a CB, &'a CC, &'a CD), Without<&'a CE>), (Without<&'a CA>, (&'a CB, &'a CC, &'a CD, &'a CE)),
        (&'a CA, Without<(&'a CB, &'a CC, &'a CD, &'a CE)>), (&'a CA, Without<(&'a CB, &'a CC, &'a CD, &'a CE, &'a CZ)>),
        (&'a CB, Without<&'a CA>), (&'a CA, Without<&'a CA>), (&'a CZ, Without<&'a CA>),
    );
    group_shapes!(v; CA CB, CB CC, CA CC, CC CD, CA CZ, CD CE, CB CA, CZ CA, CC CB);
    shapes!(v, 'a;
        (FullOwning<&'a CA, &'a CB>, &'a CC), (&'a CC, FullOwning<&'a CA, &'a CB>), (FullOwning<&'a CA, &'a mut CB>, Without<&'a CC>),
        (Without<FullOwning<&'a CA, &'a CB>>, &'a CC),
        (PartialOwning<&'a CA, &'a CB>, &'a mut CC), (&'a CC, PartialOwning<&'a mut CA, &'a CB>), (Without<PartialOwning<&'a CA, &'a CB>>, &'a CC),
        (NonOwning<&'a CA, &'a CB>, &'a CC), (&'a CC, NonOwning<&'a CA, &'a mut CB>), (NonOwning<&'a CA, &'a CB>, Without<&'a CC>),
        (Without<NonOwning<&'a CA, &'a CB>>, &'a mut CC), (&'a CA, Without<NonOwning<&'a CB, &'a CC>>),
        (PartialOwning<&'a CA, &'a CB>, NonOwning<&'a CC, &'a CD>), (FullOwning<&'a CA, &'a CB>, FullOwning<&'a CC, &'a CD>),
        (NonOwning<&'a CA, &'a CB>, NonOwning<&'a CB, &'a CC>), (&'a CE, (NonOwning<&'a mut CA, &'a CZ>, &'a CB)),
    );
    v
}
