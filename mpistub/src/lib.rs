//! In-process model of the part of MPI that funspace uses.
//!
//! Ranks are threads of one process.  A collective call publishes (kind, root, counts, displs,
//! bytes) and waits until every rank has published its own call number k; then each rank copies
//! out what the MPI standard says it receives.  A combination of calls which the standard calls
//! erroneous (different collectives on different ranks, send and receive counts that disagree,
//! ranges outside the buffer, overlapping receive ranges, a rank leaving early) panics with
//! "MPI-CONTRACT".
#![allow(clippy::all)]
use std::any::TypeId;
use std::cell::RefCell;
use std::mem::{size_of, MaybeUninit};
use std::sync::{Arc, Condvar, Mutex};

pub type Count = i32;
pub type Rank = i32;
pub type Address = isize;
pub type Tag = i32;

type Bytes = Vec<MaybeUninit<u8>>;

#[derive(Clone)]
struct Call {
    kind: &'static str,
    root: i32,
    ty: TypeId,
    counts: Vec<Count>,
    displs: Vec<Count>,
    rcounts: Vec<Count>,
    data: Arc<Bytes>,
}

struct State {
    round: usize,
    calls: Vec<Option<Call>>,
    taken: usize,
    result: Option<Arc<Vec<Call>>>,
    dead: Option<String>,
}

pub struct Shared {
    size: usize,
    state: Mutex<State>,
    cv: Condvar,
}

impl std::fmt::Debug for Shared {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "Shared({})", self.size)
    }
}

impl Shared {
    pub fn new(size: usize) -> Arc<Self> {
        Arc::new(Shared {
            size,
            state: Mutex::new(State {
                round: 0,
                calls: vec![None; size],
                taken: 0,
                result: None,
                dead: None,
            }),
            cv: Condvar::new(),
        })
    }
    /// A rank has ended (normally or not): peers waiting for it must not hang.
    pub fn leave(&self, why: &str) {
        let mut s = match self.state.lock() { Ok(s) => s, Err(e) => e.into_inner() };
        if s.dead.is_none() {
            s.dead = Some(why.to_string());
        }
        self.cv.notify_all();
    }
    fn exchange(&self, rank: usize, call: Call) -> Arc<Vec<Call>> {
        let mut s = self.state.lock().unwrap();
        // wait until the previous round has been drained
        while s.result.is_some() {
            s = self.cv.wait(s).unwrap();
        }
        s.calls[rank] = Some(call);
        if s.calls.iter().all(|c| c.is_some()) {
            let v: Vec<Call> = s.calls.iter_mut().map(|c| c.take().unwrap()).collect();
            s.result = Some(Arc::new(v));
            s.taken = 0;
            s.round += 1;
            self.cv.notify_all();
        } else {
            let round = s.round;
            while s.round == round {
                if let Some(why) = s.dead.clone() {
                    drop(s);
                    panic!("MPI-CONTRACT: rank {} waits in a collective, but {}", rank, why);
                }
                s = self.cv.wait(s).unwrap();
            }
        }
        let r = s.result.as_ref().unwrap().clone();
        s.taken += 1;
        if s.taken == self.size {
            s.result = None;
            self.cv.notify_all();
        }
        drop(s);
        let (k, root, ty) = (r[0].kind, r[0].root, r[0].ty);
        for (i, c) in r.iter().enumerate() {
            if c.kind != k || c.root != root {
                panic!("MPI-CONTRACT: rank 0 calls {} but rank {} calls {}", k, i, c.kind);
            }
            if c.ty != ty {
                panic!("MPI-CONTRACT: element types differ in {}", k);
            }
        }
        r
    }
}

thread_local! {
    static CURRENT: RefCell<Option<(Arc<Shared>, usize)>> = RefCell::new(None);
}

/// Bind the current thread to a rank; `initialize()` then returns that rank's universe.
pub fn bind(shared: &Arc<Shared>, rank: usize) {
    CURRENT.with(|c| *c.borrow_mut() = Some((shared.clone(), rank)));
}

pub fn initialize() -> Option<environment::Universe> {
    CURRENT.with(|c| {
        c.borrow().as_ref().map(|(s, r)| environment::Universe { shared: s.clone(), rank: *r })
    })
}

fn to_bytes<T: traits::Equivalence>(x: &[T]) -> Arc<Bytes> {
    let n = x.len() * size_of::<T>();
    let mut v: Bytes = Vec::with_capacity(n);
    unsafe {
        std::ptr::copy_nonoverlapping(x.as_ptr() as *const MaybeUninit<u8>, v.as_mut_ptr(), n);
        v.set_len(n);
    }
    Arc::new(v)
}

fn put_bytes<T: traits::Equivalence>(dst: &mut [T], at: usize, src: &Bytes, from: usize, n: usize) {
    let sz = size_of::<T>();
    assert!(at + n <= dst.len(), "MPI-CONTRACT: receive range outside the buffer");
    assert!((from + n) * sz <= src.len(), "MPI-CONTRACT: send range outside the buffer");
    unsafe {
        std::ptr::copy_nonoverlapping(
            src.as_ptr().add(from * sz),
            (dst.as_mut_ptr() as *mut MaybeUninit<u8>).add(at * sz),
            n * sz,
        );
    }
}

fn check_ranges(what: &str, n: usize, counts: &[Count], displs: &[Count], size: usize) {
    assert!(counts.len() == size && displs.len() == size,
        "MPI-CONTRACT: {}: {} counts and {} displacements for {} ranks", what, counts.len(), displs.len(), size);
    let mut used = vec![false; n];
    for (&c, &d) in counts.iter().zip(displs) {
        assert!(c >= 0 && d >= 0, "MPI-CONTRACT: {}: negative count or displacement", what);
        assert!((c + d) as usize <= n, "MPI-CONTRACT: {}: range {}+{} outside buffer of {}", what, d, c, n);
        for u in &mut used[d as usize..(d + c) as usize] {
            assert!(!*u, "MPI-CONTRACT: {}: overlapping ranges", what);
            *u = true;
        }
    }
}

pub mod traits {
    pub use crate::collective::{CommunicatorCollectives, Root};
    pub use crate::datatype::{Buffer, BufferMut, Partitioned, PartitionedBuffer, PartitionedBufferMut};
    pub use crate::topology::{AsCommunicator, Communicator};
    pub use crate::raw::AsRaw;
    /// Types that can be sent; in this model every plain copyable type.
    pub unsafe trait Equivalence: Copy + Send + 'static {}
    unsafe impl<T: Copy + Send + 'static> Equivalence for T {}
}

pub mod raw {
    pub trait AsRaw {
        type Raw;
        fn as_raw(&self) -> Self::Raw;
    }
    impl AsRaw for crate::topology::SystemCommunicator {
        type Raw = usize;
        fn as_raw(&self) -> usize {
            0
        }
    }
}

pub mod environment {
    use super::*;
    pub use super::initialize;
    #[derive(Debug)]
    pub struct Universe {
        pub(crate) shared: Arc<Shared>,
        pub(crate) rank: usize,
    }
    impl Universe {
        pub fn world(&self) -> crate::topology::SystemCommunicator {
            crate::topology::SystemCommunicator { shared: self.shared.clone(), rank: self.rank }
        }
    }
}

pub mod topology {
    use super::*;
    pub trait Communicator {
        fn comm(&self) -> (&Arc<Shared>, usize);
        fn size(&self) -> Rank {
            self.comm().0.size as Rank
        }
        fn rank(&self) -> Rank {
            self.comm().1 as Rank
        }
        fn process_at_rank(&self, r: Rank) -> Process<'_, Self> {
            assert!(r >= 0 && r < self.size(), "MPI-CONTRACT: no such rank");
            Process { comm: self, root: r }
        }
        fn this_process(&self) -> Process<'_, Self> {
            self.process_at_rank(self.rank())
        }
    }
    #[derive(Debug, Clone)]
    pub struct SystemCommunicator {
        pub(crate) shared: Arc<Shared>,
        pub(crate) rank: usize,
    }
    impl Communicator for SystemCommunicator {
        fn comm(&self) -> (&Arc<Shared>, usize) {
            (&self.shared, self.rank)
        }
    }
    #[derive(Debug)]
    pub struct Process<'a, C: 'a + Communicator + ?Sized> {
        pub(crate) comm: &'a C,
        pub(crate) root: Rank,
    }
    impl<'a, C: 'a + Communicator + ?Sized> Clone for Process<'a, C> {
        fn clone(&self) -> Self {
            Process { comm: self.comm, root: self.root }
        }
    }
    impl<'a, C: 'a + Communicator + ?Sized> Copy for Process<'a, C> {}
    impl<'a, C: 'a + Communicator + ?Sized> Process<'a, C> {
        pub fn rank(&self) -> Rank {
            self.root
        }
        pub fn is_self(&self) -> bool {
            self.root == self.comm.rank()
        }
    }
    pub trait AsCommunicator {
        type Out: Communicator + ?Sized;
        fn as_communicator(&self) -> &Self::Out;
    }
    impl AsCommunicator for SystemCommunicator {
        type Out = SystemCommunicator;
        fn as_communicator(&self) -> &Self::Out {
            self
        }
    }
    impl<'a, C: 'a + Communicator + ?Sized> AsCommunicator for Process<'a, C> {
        type Out = C;
        fn as_communicator(&self) -> &C {
            self.comm
        }
    }
    pub use crate::collective::{CommunicatorCollectives, Root};
    pub use crate::Rank;
    pub mod traits {
        pub use super::{AsCommunicator, Communicator};
    }
}

pub mod datatype {
    use super::*;
    pub use crate::traits::Equivalence;
    pub mod traits {
        pub use super::{Buffer, BufferMut, Equivalence, Partitioned, PartitionedBuffer, PartitionedBufferMut};
    }
    use std::borrow::Borrow;
    pub trait Buffer {
        type Elem: Equivalence;
        fn elems(&self) -> &[Self::Elem];
    }
    pub trait BufferMut: Buffer {
        fn elems_mut(&mut self) -> &mut [Self::Elem];
    }
    impl<T: Equivalence> Buffer for T {
        type Elem = T;
        fn elems(&self) -> &[T] {
            std::slice::from_ref(self)
        }
    }
    impl<T: Equivalence> BufferMut for T {
        fn elems_mut(&mut self) -> &mut [T] {
            std::slice::from_mut(self)
        }
    }
    impl<T: Equivalence> Buffer for [T] {
        type Elem = T;
        fn elems(&self) -> &[T] {
            self
        }
    }
    impl<T: Equivalence> BufferMut for [T] {
        fn elems_mut(&mut self) -> &mut [T] {
            self
        }
    }
    pub trait Partitioned {
        fn counts(&self) -> &[Count];
        fn displs(&self) -> &[Count];
    }
    pub trait PartitionedBuffer: Partitioned {
        type Elem: Equivalence;
        fn elems(&self) -> &[Self::Elem];
    }
    pub trait PartitionedBufferMut: PartitionedBuffer {
        fn elems_mut(&mut self) -> &mut [Self::Elem];
    }
    pub struct Partition<'b, B: 'b + ?Sized, C, D> {
        buf: &'b B,
        counts: C,
        displs: D,
    }
    impl<'b, B: ?Sized + Buffer, C: Borrow<[Count]>, D: Borrow<[Count]>> Partition<'b, B, C, D> {
        pub fn new(buf: &'b B, counts: C, displs: D) -> Self {
            let n = buf.elems().len() as i64;
            assert!(counts.borrow().iter().zip(displs.borrow().iter()).all(|(&c, &d)| c as i64 + d as i64 <= n));
            Partition { buf, counts, displs }
        }
    }
    impl<'b, B: ?Sized, C: Borrow<[Count]>, D: Borrow<[Count]>> Partitioned for Partition<'b, B, C, D> {
        fn counts(&self) -> &[Count] {
            self.counts.borrow()
        }
        fn displs(&self) -> &[Count] {
            self.displs.borrow()
        }
    }
    impl<'b, B: ?Sized + Buffer, C: Borrow<[Count]>, D: Borrow<[Count]>> PartitionedBuffer for Partition<'b, B, C, D> {
        type Elem = B::Elem;
        fn elems(&self) -> &[B::Elem] {
            self.buf.elems()
        }
    }
    pub struct PartitionMut<'b, B: 'b + ?Sized, C, D> {
        buf: &'b mut B,
        counts: C,
        displs: D,
    }
    impl<'b, B: ?Sized + BufferMut, C: Borrow<[Count]>, D: Borrow<[Count]>> PartitionMut<'b, B, C, D> {
        pub fn new(buf: &'b mut B, counts: C, displs: D) -> Self {
            let n = buf.elems().len() as i64;
            assert!(counts.borrow().iter().zip(displs.borrow().iter()).all(|(&c, &d)| c as i64 + d as i64 <= n));
            PartitionMut { buf, counts, displs }
        }
    }
    impl<'b, B: ?Sized, C: Borrow<[Count]>, D: Borrow<[Count]>> Partitioned for PartitionMut<'b, B, C, D> {
        fn counts(&self) -> &[Count] {
            self.counts.borrow()
        }
        fn displs(&self) -> &[Count] {
            self.displs.borrow()
        }
    }
    impl<'b, B: ?Sized + BufferMut, C: Borrow<[Count]>, D: Borrow<[Count]>> PartitionedBuffer for PartitionMut<'b, B, C, D> {
        type Elem = B::Elem;
        fn elems(&self) -> &[B::Elem] {
            self.buf.elems()
        }
    }
    impl<'b, B: ?Sized + BufferMut, C: Borrow<[Count]>, D: Borrow<[Count]>> PartitionedBufferMut for PartitionMut<'b, B, C, D> {
        fn elems_mut(&mut self) -> &mut [B::Elem] {
            self.buf.elems_mut()
        }
    }
}

pub mod collective {
    use super::datatype::*;
    use super::topology::{Communicator, Process};
    use super::*;

    fn ty<T: 'static>() -> TypeId {
        TypeId::of::<T>()
    }
    fn none<T: crate::traits::Equivalence>(kind: &'static str, root: i32) -> Call {
        Call { kind, root, ty: ty::<T>(), counts: vec![], displs: vec![], rcounts: vec![], data: Arc::new(vec![]) }
    }

    pub trait CommunicatorCollectives: Communicator {
        fn barrier(&self) {
            let (s, r) = self.comm();
            s.exchange(r, none::<u8>("barrier", -1));
        }
        fn all_to_all_varcount_into<S: ?Sized, R: ?Sized>(&self, sendbuf: &S, recvbuf: &mut R)
        where
            S: PartitionedBuffer,
            R: PartitionedBufferMut,
        {
            let (s, r) = self.comm();
            let n = s.size;
            assert!(ty::<S::Elem>() == ty::<R::Elem>(), "MPI-CONTRACT: element types differ");
            check_ranges("alltoallv send", sendbuf.elems().len(), sendbuf.counts(), sendbuf.displs(), n);
            check_ranges("alltoallv recv", recvbuf.elems().len(), recvbuf.counts(), recvbuf.displs(), n);
            let mut c = none::<S::Elem>("alltoallv", -1);
            c.counts = sendbuf.counts().to_vec();
            c.displs = sendbuf.displs().to_vec();
            c.rcounts = recvbuf.counts().to_vec();
            c.data = to_bytes(sendbuf.elems());
            let all = s.exchange(r, c);
            for i in 0..n {
                for j in 0..n {
                    assert!(all[i].counts[j] == all[j].rcounts[i],
                        "MPI-CONTRACT: alltoallv: rank {} sends {} to rank {}, which expects {}",
                        i, all[i].counts[j], j, all[j].rcounts[i]);
                }
            }
            let (rc, rd) = (recvbuf.counts().to_vec(), recvbuf.displs().to_vec());
            for (i, c) in all.iter().enumerate() {
                put_bytes(recvbuf.elems_mut(), rd[i] as usize, &c.data, c.displs[r] as usize, rc[i] as usize);
            }
        }
        fn all_gather_varcount_into<S: ?Sized, R: ?Sized>(&self, sendbuf: &S, recvbuf: &mut R)
        where
            S: Buffer,
            R: PartitionedBufferMut,
        {
            let (s, r) = self.comm();
            assert!(ty::<S::Elem>() == ty::<R::Elem>(), "MPI-CONTRACT: element types differ");
            check_ranges("allgatherv recv", recvbuf.elems().len(), recvbuf.counts(), recvbuf.displs(), s.size);
            let mut c = none::<S::Elem>("allgatherv", -1);
            c.counts = vec![sendbuf.elems().len() as Count];
            c.data = to_bytes(sendbuf.elems());
            let all = s.exchange(r, c);
            let (rc, rd) = (recvbuf.counts().to_vec(), recvbuf.displs().to_vec());
            for (i, c) in all.iter().enumerate() {
                assert!(c.counts[0] == rc[i], "MPI-CONTRACT: allgatherv: rank {} sends {}, expected {}", i, c.counts[0], rc[i]);
                put_bytes(recvbuf.elems_mut(), rd[i] as usize, &c.data, 0, rc[i] as usize);
            }
        }
        fn all_to_all_into<S: ?Sized, R: ?Sized>(&self, sendbuf: &S, recvbuf: &mut R)
        where
            S: Buffer,
            R: BufferMut,
        {
            let (s, r) = self.comm();
            assert!(ty::<S::Elem>() == ty::<R::Elem>(), "MPI-CONTRACT: element types differ");
            let (a, b) = (sendbuf.elems().len(), recvbuf.elems().len());
            assert!(a % s.size == 0 && b % s.size == 0, "MPI-CONTRACT: alltoall: buffers of {} and {} for {} ranks", a, b, s.size);
            let mut c = none::<S::Elem>("alltoall", -1);
            c.counts = vec![(a / s.size) as Count];
            c.data = to_bytes(sendbuf.elems());
            let all = s.exchange(r, c);
            let per = b / s.size;
            for (i, c) in all.iter().enumerate() {
                assert!(c.counts[0] as usize == per, "MPI-CONTRACT: alltoall: rank {} sends {}, expected {}", i, c.counts[0], per);
                put_bytes(recvbuf.elems_mut(), i * per, &c.data, r * per, per);
            }
        }
        fn all_gather_into<S: ?Sized, R: ?Sized>(&self, sendbuf: &S, recvbuf: &mut R)
        where
            S: Buffer,
            R: BufferMut,
        {
            let (s, r) = self.comm();
            assert!(ty::<S::Elem>() == ty::<R::Elem>(), "MPI-CONTRACT: element types differ");
            let mut c = none::<S::Elem>("allgather", -1);
            c.counts = vec![sendbuf.elems().len() as Count];
            c.data = to_bytes(sendbuf.elems());
            let all = s.exchange(r, c);
            let per = recvbuf.elems().len() / s.size;
            for (i, c) in all.iter().enumerate() {
                assert!(c.counts[0] as usize == per, "MPI-CONTRACT: allgather: rank {} sends {}, expected {}", i, c.counts[0], per);
                put_bytes(recvbuf.elems_mut(), i * per, &c.data, 0, per);
            }
        }
    }
    impl<C: Communicator + ?Sized> CommunicatorCollectives for C {}

    pub trait Root {
        fn parts(&self) -> (&Arc<Shared>, usize, Rank);
        fn root_rank(&self) -> Rank {
            self.parts().2
        }
        fn broadcast_into<B: ?Sized>(&self, buffer: &mut B)
        where
            B: BufferMut,
        {
            let (s, r, root) = self.parts();
            let mut c = none::<B::Elem>("bcast", root);
            c.counts = vec![buffer.elems().len() as Count];
            if r as Rank == root {
                c.data = to_bytes(buffer.elems());
            }
            let all = s.exchange(r, c);
            let rc = &all[root as usize];
            assert!(rc.counts[0] as usize == buffer.elems().len(), "MPI-CONTRACT: bcast lengths differ");
            let n = buffer.elems().len();
            put_bytes(buffer.elems_mut(), 0, &rc.data, 0, n);
        }
        fn gather_into<S: ?Sized>(&self, sendbuf: &S)
        where
            S: Buffer,
        {
            let (s, r, root) = self.parts();
            assert_ne!(r as Rank, root);
            let mut c = none::<S::Elem>("gather", root);
            c.counts = vec![sendbuf.elems().len() as Count];
            c.data = to_bytes(sendbuf.elems());
            s.exchange(r, c);
        }
        fn gather_into_root<S: ?Sized, R: ?Sized>(&self, sendbuf: &S, recvbuf: &mut R)
        where
            S: Buffer,
            R: BufferMut,
        {
            let (s, r, root) = self.parts();
            assert_eq!(r as Rank, root);
            assert!(ty::<S::Elem>() == ty::<R::Elem>(), "MPI-CONTRACT: element types differ");
            let mut c = none::<S::Elem>("gather", root);
            c.counts = vec![sendbuf.elems().len() as Count];
            c.data = to_bytes(sendbuf.elems());
            let all = s.exchange(r, c);
            let per = recvbuf.elems().len() / s.size;
            for (i, c) in all.iter().enumerate() {
                assert!(c.counts[0] as usize == per, "MPI-CONTRACT: gather: rank {} sends {}, expected {}", i, c.counts[0], per);
                put_bytes(recvbuf.elems_mut(), i * per, &c.data, 0, per);
            }
        }
        fn gather_varcount_into<S: ?Sized>(&self, sendbuf: &S)
        where
            S: Buffer,
        {
            let (s, r, root) = self.parts();
            assert_ne!(r as Rank, root);
            let mut c = none::<S::Elem>("gatherv", root);
            c.counts = vec![sendbuf.elems().len() as Count];
            c.data = to_bytes(sendbuf.elems());
            s.exchange(r, c);
        }
        fn gather_varcount_into_root<S: ?Sized, R: ?Sized>(&self, sendbuf: &S, recvbuf: &mut R)
        where
            S: Buffer,
            R: PartitionedBufferMut,
        {
            let (s, r, root) = self.parts();
            assert_eq!(r as Rank, root);
            assert!(ty::<S::Elem>() == ty::<R::Elem>(), "MPI-CONTRACT: element types differ");
            check_ranges("gatherv recv", recvbuf.elems().len(), recvbuf.counts(), recvbuf.displs(), s.size);
            let mut c = none::<S::Elem>("gatherv", root);
            c.counts = vec![sendbuf.elems().len() as Count];
            c.data = to_bytes(sendbuf.elems());
            let all = s.exchange(r, c);
            let (rc, rd) = (recvbuf.counts().to_vec(), recvbuf.displs().to_vec());
            for (i, c) in all.iter().enumerate() {
                assert!(c.counts[0] == rc[i], "MPI-CONTRACT: gatherv: rank {} sends {}, expected {}", i, c.counts[0], rc[i]);
                put_bytes(recvbuf.elems_mut(), rd[i] as usize, &c.data, 0, rc[i] as usize);
            }
        }
        fn scatter_into<R: ?Sized>(&self, recvbuf: &mut R)
        where
            R: BufferMut,
        {
            let (s, r, root) = self.parts();
            assert_ne!(r as Rank, root);
            let all = s.exchange(r, none::<R::Elem>("scatter", root));
            scatter_take(&all[root as usize], r, recvbuf.elems_mut());
        }
        fn scatter_into_root<S: ?Sized, R: ?Sized>(&self, sendbuf: &S, recvbuf: &mut R)
        where
            S: Buffer,
            R: BufferMut,
        {
            let (s, r, root) = self.parts();
            assert_eq!(r as Rank, root);
            assert!(ty::<S::Elem>() == ty::<R::Elem>(), "MPI-CONTRACT: element types differ");
            let n = sendbuf.elems().len();
            assert!(n % s.size == 0, "MPI-CONTRACT: scatter: buffer of {} for {} ranks", n, s.size);
            let mut c = none::<S::Elem>("scatter", root);
            c.counts = vec![(n / s.size) as Count; s.size];
            c.displs = (0..s.size).map(|i| (i * (n / s.size)) as Count).collect();
            c.data = to_bytes(sendbuf.elems());
            let all = s.exchange(r, c);
            scatter_take(&all[root as usize], r, recvbuf.elems_mut());
        }
        fn scatter_varcount_into<R: ?Sized>(&self, recvbuf: &mut R)
        where
            R: BufferMut,
        {
            let (s, r, root) = self.parts();
            assert_ne!(r as Rank, root);
            let all = s.exchange(r, none::<R::Elem>("scatterv", root));
            scatter_take(&all[root as usize], r, recvbuf.elems_mut());
        }
        fn scatter_varcount_into_root<S: ?Sized, R: ?Sized>(&self, sendbuf: &S, recvbuf: &mut R)
        where
            S: PartitionedBuffer,
            R: BufferMut,
        {
            let (s, r, root) = self.parts();
            assert_eq!(r as Rank, root);
            assert!(ty::<S::Elem>() == ty::<R::Elem>(), "MPI-CONTRACT: element types differ");
            check_ranges("scatterv send", sendbuf.elems().len(), sendbuf.counts(), sendbuf.displs(), s.size);
            let mut c = none::<S::Elem>("scatterv", root);
            c.counts = sendbuf.counts().to_vec();
            c.displs = sendbuf.displs().to_vec();
            c.data = to_bytes(sendbuf.elems());
            let all = s.exchange(r, c);
            scatter_take(&all[root as usize], r, recvbuf.elems_mut());
        }
    }
    fn scatter_take<T: crate::traits::Equivalence>(c: &Call, r: usize, dst: &mut [T]) {
        assert!(c.counts[r] as usize == dst.len(),
            "MPI-CONTRACT: scatterv: root sends {} to rank {}, which expects {}", c.counts[r], r, dst.len());
        let n = dst.len();
        put_bytes(dst, 0, &c.data, c.displs[r] as usize, n);
    }
    impl<'a, C: 'a + Communicator + ?Sized> Root for Process<'a, C> {
        fn parts(&self) -> (&Arc<Shared>, usize, Rank) {
            let (s, r) = self.comm.comm();
            (s, r, self.root)
        }
    }
    pub mod traits {
        pub use super::{CommunicatorCollectives, Root};
    }
}
