//! Clients of the random-access walkers over indexed containers and structs.
#![allow(dead_code, unused, clippy::all)]
use revision::optimised::{IndexedMapWalker, IndexedSeqWalker, IndexedStructWalker};
use revision::optimised::indexed::{IndexedMapView, IndexedSeqView, IndexedSetView};
use revision::*;
use std::borrow::Cow;
use std::cmp::Ordering;

/// the walker opened without a check
pub mod ix_trusted {
    use super::*;
    pub fn seq_info<T>(p: &[u8]) -> Result<(usize, bool, bool), Error> {
        let w = IndexedSeqWalker::<T>::from_payload_unvalidated(p)?;
        Ok((w.len(), w.is_empty(), w.is_indexed()))
    }
    pub fn seq_at<'p, T>(p: &'p [u8], i: usize) -> Result<&'p [u8], Error> {
        IndexedSeqWalker::<T>::from_payload_unvalidated(p)?.element_bytes(i)
    }
    pub fn seq_body<'p, T>(p: &'p [u8]) -> Result<&'p [u8], Error> {
        Ok(IndexedSeqWalker::<T>::from_payload_unvalidated(p)?.body())
    }
    pub fn map_info<K, V>(p: &[u8]) -> Result<(usize, bool, bool), Error> {
        let w = IndexedMapWalker::<K, V>::from_payload_unvalidated(p)?;
        Ok((w.len(), w.is_empty(), w.is_indexed()))
    }
    pub fn map_hint<'p, K, V>(p: &'p [u8], i: u32, want: &[u8]) -> Result<(Option<&'p [u8]>, Option<u32>), Error> {
        let w = IndexedMapWalker::<K, V>::from_payload_unvalidated(p)?;
        let r = w.find_value_bytes_with_hint(Some(i), |k| if k == want { Ordering::Equal } else { Ordering::Less })?;
        Ok((r.value, r.hint))
    }
    pub fn map_find<'p, K, V>(p: &'p [u8], f: fn(&[u8]) -> Ordering) -> Result<Option<&'p [u8]>, Error> {
        IndexedMapWalker::<K, V>::from_payload_unvalidated(p)?.find_value_bytes(f)
    }
    pub fn map_find_hint<'p, K, V>(p: &'p [u8], i: Option<u32>, f: fn(&[u8]) -> Ordering) -> Result<(Option<&'p [u8]>, Option<u32>), Error> {
        let r = IndexedMapWalker::<K, V>::from_payload_unvalidated(p)?.find_value_bytes_with_hint(i, f)?;
        Ok((r.value, r.hint))
    }
    pub fn map_entries<'p, K, V>(p: &'p [u8]) -> Result<Vec<(&'p [u8], &'p [u8])>, Error> {
        let w = IndexedMapWalker::<K, V>::from_payload_unvalidated(p)?;
        let mut out = Vec::new();
        if let Some(es) = w.entries() {
            for e in es {
                out.push(e);
            }
        }
        Ok(out)
    }
    pub fn map_body<'p, K, V>(p: &'p [u8]) -> Result<Option<&'p [u8]>, Error> {
        Ok(IndexedMapWalker::<K, V>::from_payload_unvalidated(p)?.legacy_body())
    }
}

/// the walker opened with its checks
pub mod ix_checked {
    use super::*;
    pub fn seq_info<T>(p: &[u8]) -> Result<(usize, bool, bool), Error> {
        let w = IndexedSeqWalker::<T>::from_payload(p)?;
        Ok((w.len(), w.is_empty(), w.is_indexed()))
    }
    pub fn map_info<K, V>(p: &[u8]) -> Result<(usize, bool, bool), Error> {
        let w = IndexedMapWalker::<K, V>::from_payload(p)?;
        Ok((w.len(), w.is_empty(), w.is_indexed()))
    }
    pub fn struct_open(p: &[u8], fields: u16) -> Result<(), Error> {
        IndexedStructWalker::from_payload(p, 1, fields)?;
        Ok(())
    }
    pub fn seq_view<T>(p: &[u8]) -> Result<usize, Error> {
        let v = IndexedSeqView::<T>::new(Cow::Borrowed(p));
        let n = v.walker()?.len();
        Ok(n)
    }
    pub fn set_view<T>(p: &[u8]) -> Result<usize, Error> {
        let v = IndexedSetView::<T>::new(Cow::Borrowed(p));
        let n = v.walker()?.len();
        Ok(n)
    }
    pub fn map_view<K, V>(p: &[u8]) -> Result<usize, Error> {
        let v = IndexedMapView::<K, V>::new(Cow::Borrowed(p));
        let n = v.walker()?.len();
        Ok(n)
    }
}
