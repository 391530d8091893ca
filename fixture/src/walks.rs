//! Clients of the structured traversal interface of built-in types: one function
//! per way of getting through a value.  `d_*` give the value, `s_*` give nothing.
#![allow(dead_code, unused, clippy::all)]
use revision::prelude::*;
use revision::*;
use std::collections::*;
use std::marker::PhantomData;

type Rd<'a, 'b> = &'a mut &'b [u8];

macro_rules! leaf {
    ($($n:ident $t:ty),* $(,)?) => { $( pub mod $n {
        use super::*;
        pub fn d_decode(r: Rd, _t: PhantomData<$t>) -> Result<$t, Error> { <$t>::walk_revisioned(r)?.decode() }
        pub fn s_skip(r: Rd, _t: PhantomData<$t>) -> Result<(), Error> { <$t>::walk_revisioned(r)?.skip() }
        pub fn d_again(r: Rd, _t: PhantomData<$t>) -> Result<$t, Error> { <$t>::walk_revisioned(r)?.walk()?.decode() }
        pub fn d_reader(r: Rd, _t: PhantomData<$t>) -> Result<$t, Error> {
            let mut w = <$t>::walk_revisioned(r)?;
            <$t>::deserialize_revisioned(w.reader())
        }
        pub fn d_into_reader(r: Rd, _t: PhantomData<$t>) -> Result<$t, Error> {
            <$t>::deserialize_revisioned(<$t>::walk_revisioned(r)?.into_reader())
        }
    } )* };
}
leaf!(bool_ bool, u8_ u8, i8_ i8, u16_ u16, i16_ i16, u32_ u32, i32_ i32, u64_ u64, i64_ i64, u128_ u128, i128_ i128, usize_ usize, isize_ isize,
      f32_ f32, f64_ f64, char_ char, string String, duration std::time::Duration, path std::path::PathBuf, systime std::time::SystemTime,
      arcstr std::sync::Arc<str>, boxstr Box<str>,
      tuple2 (u32, String), tuple3 (u8, u32, String), tuple6 (u32, u8, String, u64, bool, i32), array3 [u32; 3], array32 [u16; 32],
      decimal rust_decimal::Decimal, uuid_ uuid::Uuid, regex_ regex::Regex, bytes_ bytes::Bytes, rb roaring::RoaringBitmap, rt roaring::RoaringTreemap,
      dt chrono::DateTime<chrono::Utc>, nd chrono::NaiveDate, nt chrono::NaiveTime, cd chrono::Duration,
      coord geo::Coord, ls geo::LineString, mls geo::MultiLineString, mp geo::MultiPoint, mpo geo::MultiPolygon, pt geo::Point, pg geo::Polygon,
      rng std::ops::Range<u32>, bound std::ops::Bound<u64>);

macro_rules! bytes_leaf {
    ($($n:ident $t:ty),* $(,)?) => { $( pub mod $n {
        use super::*;
        pub fn b_bytes(r: Rd, _t: PhantomData<$t>) -> Result<Vec<u8>, Error> { LeafWalker::<$t, _>::new(r).with_bytes(|b| b.to_vec()) }
        pub fn b_item(r: Rd, _t: PhantomData<Vec<$t>>) -> Result<(usize, Vec<u8>, usize), Error> {
            let mut w = SeqWalker::<$t, _>::new(r)?;
            let a = w.remaining();
            let v = w.next_item().ok_or(Error::Conversion(String::new()))?.with_bytes(|b| b.to_vec())?;
            Ok((a, v, w.remaining()))
        }
        pub fn b_key(r: Rd, _t: PhantomData<BTreeMap<$t, u32>>) -> Result<(usize, Vec<u8>, u32, usize), Error> {
            let mut w = MapWalker::<$t, u32, _>::new(r)?;
            let a = w.remaining();
            let mut e = w.next_entry().ok_or(Error::Conversion(String::new()))?;
            let k = e.with_key_bytes(|b| b.to_vec())?;
            let v = e.decode_value()?;
            Ok((a, k, v, w.remaining()))
        }
        pub fn b_value(r: Rd, _t: PhantomData<BTreeMap<u32, $t>>) -> Result<(usize, u32, Vec<u8>, usize), Error> {
            let mut w = MapWalker::<u32, $t, _>::new(r)?;
            let a = w.remaining();
            let mut e = w.next_entry().ok_or(Error::Conversion(String::new()))?;
            let k = e.decode_key()?;
            let v = e.with_value_bytes(|b| b.to_vec())?;
            Ok((a, k, v, w.remaining()))
        }
    } )* };
}
bytes_leaf!(l_string String, l_arcstr std::sync::Arc<str>, l_boxstr Box<str>, l_path std::path::PathBuf, l_vecu8 Vec<u8>, l_veci8 Vec<i8>, l_bytes bytes::Bytes);
pub mod l_cow {
    use super::*;
    use std::borrow::Cow;
    pub fn b_bytes(r: Rd, _t: PhantomData<Cow<'static, String>>) -> Result<Vec<u8>, Error> { LeafWalker::<Cow<'static, String>, _>::new(r).with_bytes(|b| b.to_vec()) }
    pub fn d_cow(r: Rd, _t: PhantomData<Cow<'static, String>>) -> Result<String, Error> { <Cow<'static, String>>::walk_revisioned(r)?.decode() }
    pub fn s_cow(r: Rd, _t: PhantomData<Cow<'static, String>>) -> Result<(), Error> { <Cow<'static, String>>::walk_revisioned(r)?.skip() }
}

macro_rules! wrapped {
    ($($n:ident $t:ty, $u:ty, $f:expr);* $(;)?) => { $( pub mod $n {
        use super::*;
        pub fn d_decode(r: Rd, _t: PhantomData<$t>) -> Result<$u, Error> { <$t>::walk_revisioned(r)?.decode() }
        pub fn s_skip(r: Rd, _t: PhantomData<$t>) -> Result<(), Error> { <$t>::walk_revisioned(r)?.skip() }
    } )* };
}
wrapped!(w_box Box<u64>, u64, 0; w_arc std::sync::Arc<u64>, u64, 0; w_wrapping std::num::Wrapping<u64>, u64, 0; w_reverse std::cmp::Reverse<u64>, u64, 0;
         w_notnan ordered_float::NotNan<f64>, f64, 0);

/// sequences
macro_rules! seq {
    ($($n:ident $t:ty where [$($b:tt)*]);* $(;)?) => { $( pub mod $n {
        use super::*;
        pub fn q_all<T: SkipRevisioned + DeserializeRevisioned + WalkRevisioned + $($b)*>(r: Rd, _t: PhantomData<$t>) -> Result<Vec<T>, Error> {
            let mut w = <$t>::walk_revisioned(r)?;
            let mut v = Vec::new();
            while let Some(i) = w.next_item() { v.push(i.decode()?); }
            Ok(v)
        }
        pub fn s_items<T: SkipRevisioned + $($b)*>(r: Rd, _t: PhantomData<$t>) -> Result<(), Error> {
            let mut w = <$t>::walk_revisioned(r)?;
            while let Some(i) = w.next_item() { i.skip()?; }
            Ok(())
        }
        pub fn s_rest<T: SkipRevisioned + $($b)*>(r: Rd, _t: PhantomData<$t>) -> Result<(), Error> {
            <$t>::walk_revisioned(r)?.skip_remaining()
        }
    } )* };
}
seq!(q_vec Vec<T> where ['static]; q_hashset HashSet<T> where [Eq + std::hash::Hash]; q_btreeset BTreeSet<T> where [Ord]; q_heap BinaryHeap<T> where [Ord];
     q_vector imbl::Vector<T> where [Clone]; q_ordset imbl::OrdSet<T> where [Clone + Ord]; q_ihashset imbl::HashSet<T> where [Clone + Eq + std::hash::Hash]);

macro_rules! map {
    ($($n:ident $t:ty where [$($b:tt)*]);* $(;)?) => { $( pub mod $n {
        use super::*;
        pub fn m_pairs<K: DeserializeRevisioned + $($b)*, V: DeserializeRevisioned + Clone>(r: Rd, _t: PhantomData<$t>) -> Result<Vec<(K, V)>, Error> {
            let mut w = <$t>::walk_revisioned(r)?;
            let mut v = Vec::new();
            while let Some(e) = w.next_entry() { v.push(e.decode_pair()?); }
            Ok(v)
        }
        pub fn m_keyval<K: DeserializeRevisioned + $($b)*, V: DeserializeRevisioned + Clone>(r: Rd, _t: PhantomData<$t>) -> Result<Vec<(K, V)>, Error> {
            let mut w = <$t>::walk_revisioned(r)?;
            let mut v = Vec::new();
            while let Some(mut e) = w.next_entry() { let k = e.decode_key()?; v.push((k, e.decode_value()?)); }
            Ok(v)
        }
        pub fn k_keys<K: DeserializeRevisioned + $($b)*, V: SkipRevisioned + Clone>(r: Rd, _t: PhantomData<$t>) -> Result<Vec<K>, Error> {
            let mut w = <$t>::walk_revisioned(r)?;
            let mut v = Vec::new();
            while let Some(mut e) = w.next_entry() { v.push(e.decode_key()?); e.skip_value()?; }
            Ok(v)
        }
        pub fn v_values<K: SkipRevisioned + $($b)*, V: DeserializeRevisioned + Clone>(r: Rd, _t: PhantomData<$t>) -> Result<Vec<V>, Error> {
            let mut w = <$t>::walk_revisioned(r)?;
            let mut v = Vec::new();
            while let Some(mut e) = w.next_entry() { e.skip_key()?; v.push(e.decode_value()?); }
            Ok(v)
        }
        pub fn s_pairs<K: SkipRevisioned + $($b)*, V: SkipRevisioned + Clone>(r: Rd, _t: PhantomData<$t>) -> Result<(), Error> {
            let mut w = <$t>::walk_revisioned(r)?;
            while let Some(e) = w.next_entry() { e.skip_pair()?; }
            Ok(())
        }
        pub fn s_rest<K: SkipRevisioned + $($b)*, V: SkipRevisioned + Clone>(r: Rd, _t: PhantomData<$t>) -> Result<(), Error> {
            <$t>::walk_revisioned(r)?.skip_remaining()
        }
    } )* };
}
map!(m_hash HashMap<K, V> where [Eq + std::hash::Hash]; m_btree BTreeMap<K, V> where [Ord]; m_ord imbl::OrdMap<K, V> where [Clone + Ord];
     m_ihash imbl::HashMap<K, V> where [Clone + Eq + std::hash::Hash]);

/// option and result
pub mod opt {
    use super::*;
    pub fn d_decode<T: DeserializeRevisioned>(r: Rd, _t: PhantomData<Option<T>>) -> Result<Option<T>, Error> { Option::<T>::walk_revisioned(r)?.decode() }
    pub fn s_skip<T: SkipRevisioned>(r: Rd, _t: PhantomData<Option<T>>) -> Result<(), Error> { Option::<T>::walk_revisioned(r)?.skip() }
    pub fn d_into(r: Rd, _t: PhantomData<Option<u64>>) -> Result<Option<u64>, Error> {
        let w = Option::<u64>::walk_revisioned(r)?;
        if w.is_some() { Ok(Some(w.into_some()?.decode()?)) } else { Ok(None) }
    }
    pub fn d_into2(r: Rd, _t: PhantomData<Option<u64>>) -> Result<Option<u64>, Error> {
        let w = Option::<u64>::walk_revisioned(r)?;
        if w.is_none() { Ok(None) } else { Ok(Some(w.into_some()?.decode()?)) }
    }
}
pub mod res {
    use super::*;
    pub fn d_decode<T: DeserializeRevisioned, E: DeserializeRevisioned>(r: Rd, _t: PhantomData<Result<T, E>>) -> Result<Result<T, E>, Error> { Result::<T, E>::walk_revisioned(r)?.decode() }
    pub fn s_skip<T: SkipRevisioned, E: SkipRevisioned>(r: Rd, _t: PhantomData<Result<T, E>>) -> Result<(), Error> { Result::<T, E>::walk_revisioned(r)?.skip() }
    pub fn d_into(r: Rd, _t: PhantomData<Result<u64, u32>>) -> Result<Result<u64, u32>, Error> {
        let w = Result::<u64, u32>::walk_revisioned(r)?;
        if w.is_ok() { Ok(Ok(w.into_ok()?.decode()?)) } else { Ok(Err(w.into_err()?.decode()?)) }
    }
    pub fn d_into2(r: Rd, _t: PhantomData<Result<u64, u32>>) -> Result<Result<u64, u32>, Error> {
        let w = Result::<u64, u32>::walk_revisioned(r)?;
        if w.is_err() { Ok(Err(w.into_err()?.decode()?)) } else { Ok(Ok(w.into_ok()?.decode()?)) }
    }
}

/// one step of a cursor from an arbitrary count: (count before, what was read, cursor after)
pub mod step {
    use super::*;
    fn none() -> Error { Error::Conversion(String::new()) }
    pub fn seq_new<'a, 'b, T>(r: Rd<'a, 'b>) -> Result<SeqWalker<'a, T, &'b [u8]>, Error> { SeqWalker::new(r) }
    pub fn seq_decode<'a, 'b, T: DeserializeRevisioned>(r: Rd<'a, 'b>) -> Result<(usize, Result<T, Error>, SeqWalker<'a, T, &'b [u8]>, usize), Error> {
        let mut w = SeqWalker::new(r)?;
        let n = w.remaining();
        let v = w.next_item().ok_or(none())?.decode();
        let m = w.remaining();
        Ok((n, v, w, m))
    }
    pub fn seq_skip<'a, 'b, T: SkipRevisioned>(r: Rd<'a, 'b>) -> Result<(usize, Result<(), Error>, SeqWalker<'a, T, &'b [u8]>, usize), Error> {
        let mut w = SeqWalker::<T, _>::new(r)?;
        let n = w.remaining();
        let v = w.next_item().ok_or(none())?.skip();
        let m = w.remaining();
        Ok((n, v, w, m))
    }
    pub fn seq_walk<'a, 'b>(r: Rd<'a, 'b>) -> Result<(usize, Result<u64, Error>, SeqWalker<'a, u64, &'b [u8]>, usize), Error> {
        let mut w = SeqWalker::<u64, _>::new(r)?;
        let n = w.remaining();
        let v = w.next_item().ok_or(none())?.walk().and_then(|x| x.decode());
        let m = w.remaining();
        Ok((n, v, w, m))
    }
    pub fn seq_bytes<'a, 'b>(r: Rd<'a, 'b>) -> Result<(usize, Result<Vec<u8>, Error>, SeqWalker<'a, String, &'b [u8]>, usize), Error> {
        let mut w = SeqWalker::<String, _>::new(r)?;
        let n = w.remaining();
        let v = w.next_item().ok_or(none())?.with_bytes(|b| b.to_vec());
        let m = w.remaining();
        Ok((n, v, w, m))
    }
    /// an item offered but not taken is still there
    pub fn seq_peek<'a, 'b, T>(r: Rd<'a, 'b>) -> Result<(usize, Result<bool, Error>, SeqWalker<'a, T, &'b [u8]>, usize), Error> {
        let mut w = SeqWalker::<T, _>::new(r)?;
        let n = w.remaining();
        let v = w.next_item().is_some();
        let m = w.remaining();
        Ok((n, Ok(v), w, m))
    }
    pub fn map_new<'a, 'b, K, V>(r: Rd<'a, 'b>) -> Result<MapWalker<'a, K, V, &'b [u8]>, Error> { MapWalker::new(r) }
    pub fn map_peek<'a, 'b, K, V>(r: Rd<'a, 'b>) -> Result<(usize, Result<bool, Error>, MapWalker<'a, K, V, &'b [u8]>, usize), Error> {
        let mut w = MapWalker::<K, V, _>::new(r)?;
        let n = w.remaining();
        let v = w.next_entry().is_some();
        let m = w.remaining();
        Ok((n, Ok(v), w, m))
    }
    macro_rules! entry {
        ($($n:ident ($K:ty, $V:ty) $out:ty, $e:ident => $body:expr);* $(;)?) => { $(
            pub fn $n<'a, 'b, K: DeserializeRevisioned + SkipRevisioned, V: DeserializeRevisioned + SkipRevisioned>(r: Rd<'a, 'b>)
                -> Result<(usize, Result<$out, Error>, MapWalker<'a, $K, $V, &'b [u8]>, usize), Error> {
                let mut w = MapWalker::<$K, $V, _>::new(r)?;
                let n = w.remaining();
                let f = |mut $e: MapEntry<'_, 'a, $K, $V, &'b [u8]>| $body;
                let v = f(w.next_entry().ok_or(none())?);
                let m = w.remaining();
                Ok((n, v, w, m))
            }
        )* };
    }
    entry! {
        map_pair (K, V) (K, V), e => e.decode_pair();
        map_skip_pair (K, V) (), e => e.skip_pair();
        map_kv (K, V) (K, V), e => { let k = e.decode_key()?; let v = e.decode_value()?; Ok((k, v)) };
        map_k (K, V) K, e => { let k = e.decode_key()?; e.skip_value()?; Ok(k) };
        map_v (K, V) V, e => { e.skip_key()?; e.decode_value() };
        map_ss (K, V) (), e => { e.skip_key()?; e.skip_value() };
        map_kw (K, u64) (K, u64), e => { let k = e.decode_key()?; let v = e.walk_value()?.decode()?; Ok((k, v)) };
        map_bytes (String, String) (Vec<u8>, Vec<u8>), e => { let k = e.with_key_bytes(|b| b.to_vec())?; let v = e.with_value_bytes(|b| b.to_vec())?; Ok((k, v)) };
    }
    // operations out of order must fail and take nothing
    entry! {
        bad_dv (K, V) V, e => e.decode_value();
        bad_sv (K, V) (), e => e.skip_value();
        bad_wv (K, u64) u64, e => { let w = e.walk_value()?; w.decode() };
        bad_bv (String, String) Vec<u8>, e => e.with_value_bytes(|b| b.to_vec());
    }
    // a second key operation must fail and take nothing further
    entry! {
        twice_dd (K, V) (), e => { e.decode_key()?; let x = e.decode_key(); let _v = e.decode_value()?; x.map(|_| ()) };
        twice_ds (K, V) (), e => { e.decode_key()?; let x = e.skip_key(); let _v = e.decode_value()?; x };
        twice_sd (K, V) (), e => { e.skip_key()?; let x = e.decode_key(); e.skip_value()?; x.map(|_| ()) };
        twice_ss (K, V) (), e => { e.skip_key()?; let x = e.skip_key(); e.skip_value()?; x };
        twice_db (String, V) (), e => { e.decode_key()?; let x = e.with_key_bytes(|b| b.to_vec()); e.skip_value()?; x.map(|_| ()) };
    }
}

/// positional walkers
pub mod pos {
    use super::*;
    pub fn st_decode<T: DeserializeRevisioned>(r: Rd, rev: u16) -> Result<(u16, u32, T, u32), Error> {
        let mut w = StructWalker::new(r, rev);
        let a = w.position();
        let v = w.decode::<T>()?;
        Ok((w.revision(), a, v, w.position()))
    }
    pub fn st_skip<T: SkipRevisioned>(r: Rd, rev: u16) -> Result<(u16, u32, (), u32), Error> {
        let mut w = StructWalker::new(r, rev);
        let a = w.position();
        w.skip::<T>()?;
        Ok((w.revision(), a, (), w.position()))
    }
    pub fn st_walk(r: Rd, rev: u16) -> Result<(u16, u32, u64, u32), Error> {
        let mut w = StructWalker::new(r, rev);
        let a = w.position();
        let v = w.walk::<u64>()?.decode()?;
        Ok((w.revision(), a, v, w.position()))
    }
    pub fn tr_decode<T: DeserializeRevisioned>(r: Rd, rev: u16) -> Result<(u32, Result<T, Error>, u32), Error> {
        let mut w = StructWalker::new(r, rev);
        let a = w.position();
        let v = w.decode::<T>();
        Ok((a, v, w.position()))
    }
    pub fn tr_skip<T: SkipRevisioned>(r: Rd, rev: u16) -> Result<(u32, Result<(), Error>, u32), Error> {
        let mut w = StructWalker::new(r, rev);
        let a = w.position();
        let v = w.skip::<T>();
        Ok((a, v, w.position()))
    }
    pub fn tr_two<T: DeserializeRevisioned + SkipRevisioned>(r: Rd, rev: u16) -> Result<(u32, Result<T, Error>, u32), Error> {
        let mut w = StructWalker::new(r, rev);
        w.skip::<T>()?;
        let a = w.position();
        let v = w.decode::<T>();
        Ok((a, v, w.position()))
    }
    pub fn st_into(r: Rd, rev: u16) -> Result<u64, Error> { StructWalker::new(r, rev).into_walk::<u64>()?.decode() }
    pub fn en_decode<T: DeserializeRevisioned>(r: Rd, rev: u16) -> Result<(u16, u32, T), Error> {
        let w = EnumWalker::new(r, rev)?;
        let (a, b) = (w.revision(), w.discriminant());
        Ok((a, b, w.decode::<T>()?))
    }
    pub fn en_skip<T: SkipRevisioned>(r: Rd, rev: u16) -> Result<(u16, u32, ()), Error> {
        let w = EnumWalker::new(r, rev)?;
        let (a, b) = (w.revision(), w.discriminant());
        w.skip::<T>()?;
        Ok((a, b, ()))
    }
    pub fn en_walk(r: Rd, rev: u16) -> Result<(u16, u32, u64), Error> {
        let w = EnumWalker::new(r, rev)?;
        let (a, b) = (w.revision(), w.discriminant());
        Ok((a, b, w.into_walk::<u64>()?.decode()?))
    }
    pub fn en_disc(r: Rd) -> Result<u32, Error> { read_enum_discriminant(r) }
}

/// search by key
pub mod find {
    use super::*;
    use std::cmp::Ordering;
    pub fn f_find<K: DeserializeRevisioned + SkipRevisioned, V: SkipRevisioned + DeserializeRevisioned>(r: Rd, p: fn(&K) -> Ordering, _t: PhantomData<(K, V)>) -> Result<Option<V>, Error> {
        match MapWalker::<K, V, _>::new(r)?.find(p)? {
            Some(w) => Ok(Some(w.decode()?)),
            None => Ok(None),
        }
    }
    pub fn f_bytes<V: SkipRevisioned + DeserializeRevisioned>(r: Rd, p: fn(&[u8]) -> Ordering, _t: PhantomData<(String, V)>) -> Result<Option<V>, Error> {
        match MapWalker::<String, V, _>::new(r)?.find_bytes(p)? {
            Some(w) => Ok(Some(w.decode()?)),
            None => Ok(None),
        }
    }
}
