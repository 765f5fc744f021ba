//! Stand-in for `fst`: ordered byte-string maps as sorted vectors, with the same insertion contract.
use std::fmt;

pub use map::{Map, MapBuilder};
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Debug)]
pub enum Error {
    DuplicateKey { got: Vec<u8> },
    OutOfOrder { previous: Vec<u8>, got: Vec<u8> },
    Format,
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}

pub trait Streamer<'a> {
    type Item: 'a;
    fn next(&'a mut self) -> Option<Self::Item>;
}

pub mod raw {
    #[derive(Copy, Clone, Debug, Hash, PartialEq, Eq, PartialOrd, Ord)]
    pub struct IndexedValue {
        pub index: usize,
        pub value: u64,
    }
    pub struct Fst {
        pub(crate) size: usize,
    }
    impl Fst {
        pub fn size(&self) -> usize {
            self.size
        }
    }
}

pub mod automaton {
    pub trait Automaton {
        fn matches(&self, key: &[u8]) -> bool;
    }
    impl<A: Automaton> Automaton for &A {
        fn matches(&self, key: &[u8]) -> bool {
            (*self).matches(key)
        }
    }
    /// Accepts the keys of which the given string is a subsequence (bytewise).
    #[derive(Clone, Debug)]
    pub struct Subsequence<'a>(&'a [u8]);
    impl<'a> Subsequence<'a> {
        pub fn new(s: &'a str) -> Subsequence<'a> {
            Subsequence(s.as_bytes())
        }
    }
    impl Automaton for Subsequence<'_> {
        fn matches(&self, key: &[u8]) -> bool {
            let mut rest = self.0;
            for b in key {
                if let Some((first, tail)) = rest.split_first() {
                    if first == b {
                        rest = tail;
                    }
                }
            }
            rest.is_empty()
        }
    }
    #[derive(Clone, Debug)]
    pub struct Str<'a>(&'a [u8]);
    impl<'a> Str<'a> {
        pub fn new(s: &'a str) -> Str<'a> {
            Str(s.as_bytes())
        }
    }
    impl Automaton for Str<'_> {
        fn matches(&self, key: &[u8]) -> bool {
            self.0 == key
        }
    }
}

pub mod map {
    use crate::automaton::Automaton;
    use crate::raw::{Fst, IndexedValue};
    use crate::{Error, Result, Streamer};

    pub struct Map<D> {
        entries: Vec<(Vec<u8>, u64)>,
        fst: Fst,
        _data: std::marker::PhantomData<D>,
    }
    impl Default for Map<Vec<u8>> {
        fn default() -> Self {
            Map { entries: vec![], fst: Fst { size: 0 }, _data: std::marker::PhantomData }
        }
    }
    impl<D: AsRef<[u8]>> Map<D> {
        pub fn new(data: D) -> Result<Map<D>> {
            let mut b = data.as_ref();
            let size = b.len();
            let mut entries = vec![];
            while !b.is_empty() {
                let n = u64::from_le_bytes(b.get(..8).ok_or(Error::Format)?.try_into().unwrap()) as usize;
                let v = u64::from_le_bytes(b.get(8..16).ok_or(Error::Format)?.try_into().unwrap());
                entries.push((b.get(16..16 + n).ok_or(Error::Format)?.to_vec(), v));
                b = &b[16 + n..];
            }
            Ok(Map { entries, fst: Fst { size }, _data: std::marker::PhantomData })
        }
        pub fn as_fst(&self) -> &Fst {
            &self.fst
        }
        pub fn len(&self) -> usize {
            self.entries.len()
        }
        pub fn get(&self, key: impl AsRef<[u8]>) -> Option<u64> {
            let key = key.as_ref();
            self.entries.binary_search_by(|e| e.0.as_slice().cmp(key)).ok().map(|i| self.entries[i].1)
        }
        pub fn search<A: Automaton>(&self, aut: A) -> Matches {
            Matches(self.entries.iter().filter(|(k, _)| aut.matches(k)).cloned().collect())
        }
    }
    pub struct Matches(Vec<(Vec<u8>, u64)>);

    pub struct MapBuilder<W> {
        out: W,
        last: Option<Vec<u8>>,
    }
    impl MapBuilder<Vec<u8>> {
        pub fn memory() -> Self {
            MapBuilder { out: vec![], last: None }
        }
        pub fn insert<K: AsRef<[u8]>>(&mut self, key: K, val: u64) -> Result<()> {
            let key = key.as_ref();
            if let Some(last) = &self.last {
                if last.as_slice() == key {
                    return Err(Error::DuplicateKey { got: key.to_vec() });
                }
                if last.as_slice() > key {
                    return Err(Error::OutOfOrder { previous: last.clone(), got: key.to_vec() });
                }
            }
            self.last = Some(key.to_vec());
            self.out.extend((key.len() as u64).to_le_bytes());
            self.out.extend(val.to_le_bytes());
            self.out.extend(key);
            Ok(())
        }
        pub fn into_inner(self) -> Result<Vec<u8>> {
            Ok(self.out)
        }
    }

    #[derive(Default)]
    pub struct OpBuilder<'m> {
        streams: Vec<Matches>,
        _p: std::marker::PhantomData<&'m ()>,
    }
    impl<'m> OpBuilder<'m> {
        pub fn new() -> Self {
            OpBuilder { streams: vec![], _p: std::marker::PhantomData }
        }
        #[allow(clippy::should_implement_trait)]
        pub fn add(mut self, s: Matches) -> Self {
            self.streams.push(s);
            self
        }
        pub fn union(self) -> Union<'m> {
            let mut all = std::collections::BTreeMap::<Vec<u8>, Vec<IndexedValue>>::new();
            for (index, s) in self.streams.into_iter().enumerate() {
                for (k, value) in s.0 {
                    all.entry(k).or_default().push(IndexedValue { index, value });
                }
            }
            Union { items: all.into_iter().collect(), pos: 0, _p: std::marker::PhantomData }
        }
    }
    pub struct Union<'m> {
        items: Vec<(Vec<u8>, Vec<IndexedValue>)>,
        pos: usize,
        _p: std::marker::PhantomData<&'m ()>,
    }
    impl<'a, 'm> Streamer<'a> for Union<'m> {
        type Item = (&'a [u8], &'a [IndexedValue]);
        fn next(&'a mut self) -> Option<Self::Item> {
            let it = self.items.get(self.pos)?;
            self.pos += 1;
            Some((&it.0, &it.1))
        }
    }
}
