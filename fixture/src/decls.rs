// generated by engine/fixspec.py
#![allow(dead_code, unused_imports, unused_variables, unused_mut, non_camel_case_types)]
pub mod unit {
  pub mod v1 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 1)]
    pub struct Unit;
  }
}
pub mod empty {
  pub mod v1 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 1)]
    pub struct Empty { pub gone: u16 }
  }
  pub mod v2 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 2)]
    pub struct Empty { #[revision(end = 2, convert_fn = "conv_gone")] pub gone: u16 }
    #[allow(dead_code, clippy::all)]
    impl Empty {
        pub fn conv_gone(&mut self, _r: u16, _v: u16) -> Result<(), Error> { Ok(()) }
    }
  }
}
pub mod plain {
  pub mod v1 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 1)]
    pub struct Plain { pub a: u8, pub b: u16, pub c: u32, pub d: u64, pub e: u128, pub f: i64, pub g: bool, pub h: char, pub i: f64, pub j: String, pub k: Option<u32>, pub l: Vec<u64>, pub m: (u32, String) }
  }
}
pub mod same {
  pub mod v1 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 1)]
    pub struct Same { pub a: u32, pub b: u32, pub c: u32, pub d: u32 }
  }
}
pub mod tuple_one {
  pub mod v1 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 1)]
    pub struct TupleOne(pub u64);
  }
}
pub mod tuple_many {
  pub mod v1 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 1)]
    pub struct TupleMany(pub u32, pub u32, pub String, pub u32);
  }
}
pub mod added {
  pub mod v1 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 1)]
    pub struct Added { pub a: u32, pub c: u32 }
  }
  pub mod v2 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 2)]
    pub struct Added { pub a: u32, #[revision(start = 2, default_fn = "default_b")] pub b: String, pub c: u32, #[revision(start = 2)] pub d: u32 }
    #[allow(dead_code, clippy::all)]
    impl Added {
        pub fn default_b(_r: u16) -> Result<String, Error> { Err(Error::Conversion(String::new())) }
    }
  }
  pub mod v3 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 3)]
    pub struct Added { #[revision(start = 3, default_fn = "default_z")] pub z: u32, pub a: u32, #[revision(start = 2, default_fn = "default_b")] pub b: String, pub c: u32, #[revision(start = 2)] pub d: u32 }
    #[allow(dead_code, clippy::all)]
    impl Added {
        pub fn default_z(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn default_b(_r: u16) -> Result<String, Error> { Err(Error::Conversion(String::new())) }
    }
  }
}
pub mod removed {
  pub mod v1 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 1)]
    pub struct Removed { pub a: u32, pub b: String, pub c: u32, pub d: u32, pub e: u32 }
  }
  pub mod v2 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 2)]
    pub struct Removed { #[revision(end = 2, convert_fn = "conv_a")] pub a: u32, pub b: String, pub c: u32, pub d: u32, pub e: u32 }
    #[allow(dead_code, clippy::all)]
    impl Removed {
        pub fn conv_a(&mut self, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
    }
  }
  pub mod v3 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 3)]
    pub struct Removed { #[revision(end = 2, convert_fn = "conv_a")] pub a: u32, pub b: String, #[revision(end = 3, convert_fn = "conv_c")] pub c: u32, pub d: u32, #[revision(end = 3, convert_fn = "conv_e")] pub e: u32 }
    #[allow(dead_code, clippy::all)]
    impl Removed {
        pub fn conv_a(&mut self, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn conv_c(&mut self, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn conv_e(&mut self, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
    }
  }
}
pub mod mixed {
  pub mod v1 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 1)]
    pub struct Mixed { pub a: u32, pub d: u32, pub h: u32 }
  }
  pub mod v2 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 2)]
    pub struct Mixed { pub a: u32, #[revision(start = 2, default_fn = "default_b")] pub b: u32, pub d: u32, #[revision(start = 2, default_fn = "default_e")] pub e: u32, #[revision(start = 2, default_fn = "default_f")] pub f: String, pub h: u32 }
    #[allow(dead_code, clippy::all)]
    impl Mixed {
        pub fn default_b(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn default_e(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn default_f(_r: u16) -> Result<String, Error> { Err(Error::Conversion(String::new())) }
    }
  }
  pub mod v3 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 3)]
    pub struct Mixed { pub a: u32, #[revision(start = 2, end = 3, convert_fn = "conv_b", default_fn = "default_b")] pub b: u32, #[revision(start = 3, default_fn = "default_c")] pub c: u32, pub d: u32, #[revision(start = 2, default_fn = "default_e")] pub e: u32, #[revision(start = 2, default_fn = "default_f")] pub f: String, pub h: u32 }
    #[allow(dead_code, clippy::all)]
    impl Mixed {
        pub fn default_b(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn conv_b(&mut self, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn default_c(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn default_e(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn default_f(_r: u16) -> Result<String, Error> { Err(Error::Conversion(String::new())) }
    }
  }
  pub mod v4 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 4)]
    pub struct Mixed { pub a: u32, #[revision(start = 2, end = 3, convert_fn = "conv_b", default_fn = "default_b")] pub b: u32, #[revision(start = 3, default_fn = "default_c")] pub c: u32, #[revision(end = 4, convert_fn = "conv_d")] pub d: u32, #[revision(start = 2, default_fn = "default_e")] pub e: u32, #[revision(start = 2, end = 4, convert_fn = "conv_f", default_fn = "default_f")] pub f: String, #[revision(start = 4)] pub g: String, pub h: u32 }
    #[allow(dead_code, clippy::all)]
    impl Mixed {
        pub fn default_b(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn conv_b(&mut self, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn default_c(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn conv_d(&mut self, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn default_e(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn default_f(_r: u16) -> Result<String, Error> { Err(Error::Conversion(String::new())) }
        pub fn conv_f(&mut self, _r: u16, _v: String) -> Result<(), Error> { Ok(()) }
    }
  }
}
pub mod tuple_hist {
  pub mod v1 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 1)]
    pub struct TupleHist(pub u32, pub u32);
  }
  pub mod v2 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 2)]
    pub struct TupleHist(pub u32, #[revision(start = 2, default_fn = "default_f1")] pub u32, pub u32, #[revision(start = 2, default_fn = "default_f4")] pub String);
    #[allow(dead_code, clippy::all)]
    impl TupleHist {
        pub fn default_f1(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn default_f4(_r: u16) -> Result<String, Error> { Err(Error::Conversion(String::new())) }
    }
  }
  pub mod v3 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 3)]
    pub struct TupleHist(pub u32, #[revision(start = 2, default_fn = "default_f1")] pub u32, #[revision(end = 3, convert_fn = "conv_f2")] pub u32, #[revision(start = 3)] pub u32, #[revision(start = 2, end = 3, convert_fn = "conv_f4", default_fn = "default_f4")] pub String);
    #[allow(dead_code, clippy::all)]
    impl TupleHist {
        pub fn default_f1(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn conv_f2(&mut self, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn default_f4(_r: u16) -> Result<String, Error> { Err(Error::Conversion(String::new())) }
        pub fn conv_f4(&mut self, _r: u16, _v: String) -> Result<(), Error> { Ok(()) }
    }
  }
}
pub mod high_rev {
  pub mod v250 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 250, walk = false)]
    pub struct HighRev { pub a: u8 }
  }
  pub mod v251 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 251, walk = false)]
    pub struct HighRev { pub a: u8, #[revision(start = 251, default_fn = "default_b")] pub b: u8 }
    #[allow(dead_code, clippy::all)]
    impl HighRev {
        pub fn default_b(_r: u16) -> Result<u8, Error> { Err(Error::Conversion(String::new())) }
    }
  }
}
pub mod fixed {
  pub mod v1 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 1)]
    pub struct Fixed { #[revision(fixed)] pub a: u32, #[revision(fixed)] pub b: i32, #[revision(fixed)] pub d: i64, #[revision(fixed)] pub e: u128, #[revision(fixed)] pub f: i128, pub g: u32 }
  }
  pub mod v2 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 2)]
    pub struct Fixed { #[revision(fixed)] pub a: u32, #[revision(fixed)] pub b: i32, #[revision(start = 2, default_fn = "default_c", fixed)] pub c: u64, #[revision(fixed)] pub d: i64, #[revision(fixed)] pub e: u128, #[revision(fixed)] pub f: i128, pub g: u32 }
    #[allow(dead_code, clippy::all)]
    impl Fixed {
        pub fn default_c(_r: u16) -> Result<u64, Error> { Err(Error::Conversion(String::new())) }
    }
  }
  pub mod v3 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 3)]
    pub struct Fixed { #[revision(fixed)] pub a: u32, #[revision(fixed)] pub b: i32, #[revision(start = 2, default_fn = "default_c", fixed)] pub c: u64, #[revision(fixed)] pub d: i64, #[revision(end = 3, convert_fn = "conv_e", fixed)] pub e: u128, #[revision(fixed)] pub f: i128, pub g: u32 }
    #[allow(dead_code, clippy::all)]
    impl Fixed {
        pub fn default_c(_r: u16) -> Result<u64, Error> { Err(Error::Conversion(String::new())) }
        pub fn conv_e(&mut self, _r: u16, _v: u128) -> Result<(), Error> { Ok(()) }
    }
  }
}
pub mod fixed_tuple {
  pub mod v1 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 1)]
    pub struct FixedTuple(#[revision(fixed)] pub u64, pub u32, #[revision(fixed)] pub u32);
  }
}
pub mod special {
  pub mod v1 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 1)]
    pub struct Special { #[revision(specialised)] pub a: Vec<u32>, pub b: Vec<u64>, #[revision(specialised)] pub d: Vec<i16>, #[revision(specialised)] pub e: Vec<u8>, pub f: u32 }
  }
  pub mod v2 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 2)]
    pub struct Special { #[revision(specialised)] pub a: Vec<u32>, pub b: Vec<u64>, #[revision(start = 2, default_fn = "default_c", specialised)] pub c: Vec<f32>, #[revision(specialised)] pub d: Vec<i16>, #[revision(specialised)] pub e: Vec<u8>, pub f: u32 }
    #[allow(dead_code, clippy::all)]
    impl Special {
        pub fn default_c(_r: u16) -> Result<Vec<f32>, Error> { Err(Error::Conversion(String::new())) }
    }
  }
  pub mod v3 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 3)]
    pub struct Special { #[revision(specialised)] pub a: Vec<u32>, pub b: Vec<u64>, #[revision(start = 2, default_fn = "default_c", specialised)] pub c: Vec<f32>, #[revision(end = 3, convert_fn = "conv_d", specialised)] pub d: Vec<i16>, #[revision(specialised)] pub e: Vec<u8>, pub f: u32 }
    #[allow(dead_code, clippy::all)]
    impl Special {
        pub fn default_c(_r: u16) -> Result<Vec<f32>, Error> { Err(Error::Conversion(String::new())) }
        pub fn conv_d(&mut self, _r: u16, _v: Vec<i16>) -> Result<(), Error> { Ok(()) }
    }
  }
}
pub mod special_tuple {
  pub mod v1 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 1)]
    pub struct SpecialTuple(#[revision(specialised)] pub Vec<u16>, pub u32, #[revision(specialised)] pub Vec<i64>);
  }
}
pub mod opt {
  pub mod v1 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision(1, optimised))]
    pub struct Opt { pub a: u32, pub b: String, pub c: u64 }
  }
}
pub mod opt_unit {
  pub mod v1 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision(1, optimised))]
    pub struct OptUnit;
  }
}
pub mod opt_tuple {
  pub mod v1 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision(1, optimised))]
    pub struct OptTuple(pub u32, pub String);
  }
}
pub mod opt_idx {
  pub mod v1 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision(1, optimised, indexed_struct))]
    pub struct OptIdx { pub a: u32, pub b: String, pub c: u64, pub d: u8 }
  }
}
pub mod opt_idx_one {
  pub mod v1 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision(1, optimised, indexed_struct))]
    pub struct OptIdxOne { pub a: String }
  }
}
pub mod opt_hist {
  pub mod v1 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision(1, optimised))]
    pub struct OptHist { pub a: u32, pub c: String, pub d: u32 }
  }
  pub mod v2 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision(1, optimised), revision(2, optimised))]
    pub struct OptHist { pub a: u32, #[revision(start = 2, default_fn = "default_b")] pub b: u32, pub c: String, pub d: u32 }
    #[allow(dead_code, clippy::all)]
    impl OptHist {
        pub fn default_b(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
    }
  }
  pub mod v3 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision(1, optimised), revision(2, optimised), revision(3, optimised))]
    pub struct OptHist { pub a: u32, #[revision(start = 2, default_fn = "default_b")] pub b: u32, #[revision(end = 3, convert_fn = "conv_c")] pub c: String, pub d: u32, #[revision(start = 3)] pub e: u32 }
    #[allow(dead_code, clippy::all)]
    impl OptHist {
        pub fn default_b(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn conv_c(&mut self, _r: u16, _v: String) -> Result<(), Error> { Ok(()) }
    }
  }
}
pub mod opt_idx_hist {
  pub mod v1 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision(1, optimised, indexed_struct))]
    pub struct OptIdxHist { pub a: u32, pub c: String, pub d: u32 }
  }
  pub mod v2 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision(1, optimised, indexed_struct), revision(2, optimised, indexed_struct))]
    pub struct OptIdxHist { pub a: u32, #[revision(start = 2, default_fn = "default_b")] pub b: u32, pub c: String, pub d: u32 }
    #[allow(dead_code, clippy::all)]
    impl OptIdxHist {
        pub fn default_b(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
    }
  }
  pub mod v3 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision(1, optimised, indexed_struct), revision(2, optimised, indexed_struct), revision(3, optimised, indexed_struct))]
    pub struct OptIdxHist { pub a: u32, #[revision(start = 2, default_fn = "default_b")] pub b: u32, #[revision(end = 3, convert_fn = "conv_c")] pub c: String, pub d: u32, #[revision(start = 3)] pub e: u32 }
    #[allow(dead_code, clippy::all)]
    impl OptIdxHist {
        pub fn default_b(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn conv_c(&mut self, _r: u16, _v: String) -> Result<(), Error> { Ok(()) }
    }
  }
}
pub mod moving {
  pub mod v1 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision(1))]
    pub struct Moving { pub a: u32, pub c: String, pub d: u32, pub f: String }
  }
  pub mod v2 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision(1), revision(2, optimised))]
    pub struct Moving { pub a: u32, #[revision(start = 2, default_fn = "default_b")] pub b: u32, pub c: String, pub d: u32, pub f: String }
    #[allow(dead_code, clippy::all)]
    impl Moving {
        pub fn default_b(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
    }
  }
  pub mod v3 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision(1), revision(2, optimised), revision(3, optimised, indexed_struct))]
    pub struct Moving { pub a: u32, #[revision(start = 2, default_fn = "default_b")] pub b: u32, #[revision(end = 3, convert_fn = "conv_c")] pub c: String, pub d: u32, pub f: String }
    #[allow(dead_code, clippy::all)]
    impl Moving {
        pub fn default_b(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn conv_c(&mut self, _r: u16, _v: String) -> Result<(), Error> { Ok(()) }
    }
  }
  pub mod v4 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision(1), revision(2, optimised), revision(3, optimised, indexed_struct), revision(4))]
    pub struct Moving { pub a: u32, #[revision(start = 2, default_fn = "default_b")] pub b: u32, #[revision(end = 3, convert_fn = "conv_c")] pub c: String, #[revision(end = 4, convert_fn = "conv_d")] pub d: u32, #[revision(start = 4, default_fn = "default_e")] pub e: u32, pub f: String }
    #[allow(dead_code, clippy::all)]
    impl Moving {
        pub fn default_b(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn conv_c(&mut self, _r: u16, _v: String) -> Result<(), Error> { Ok(()) }
        pub fn conv_d(&mut self, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn default_e(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
    }
  }
}
pub mod moving_b {
  pub mod v1 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision(1))]
    pub struct MovingB { pub a: String, pub b: u32 }
  }
  pub mod v2 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision(1), revision(2, optimised, indexed_struct))]
    pub struct MovingB { pub a: String, pub b: u32, #[revision(start = 2, default_fn = "default_c")] pub c: u32 }
    #[allow(dead_code, clippy::all)]
    impl MovingB {
        pub fn default_c(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
    }
  }
  pub mod v3 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision(1), revision(2, optimised, indexed_struct), revision(3, optimised))]
    pub struct MovingB { pub a: String, pub b: u32, #[revision(start = 2, default_fn = "default_c")] pub c: u32, #[revision(start = 3, default_fn = "default_d")] pub d: u32 }
    #[allow(dead_code, clippy::all)]
    impl MovingB {
        pub fn default_c(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn default_d(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
    }
  }
}
pub mod idx {
  pub mod v1 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision(1, optimised))]
    pub struct Idx { pub a: u32, #[revision(indexed_map)] pub m: BTreeMap<String, u32>, #[revision(indexed_map)] pub h: HashMap<String, u32>, #[revision(indexed_seq)] pub s: Vec<String>, #[revision(indexed_set)] pub t: BTreeSet<String>, #[revision(indexed_set)] pub u: HashSet<u32>, pub z: u32 }
  }
}
pub mod idx_hist {
  pub mod v1 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision(1))]
    pub struct IdxHist { pub a: u32, #[revision(indexed_map)] pub m: BTreeMap<String, u32>, #[revision(indexed_set)] pub t: BTreeSet<String>, pub z: u32 }
  }
  pub mod v2 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision(1), revision(2, optimised))]
    pub struct IdxHist { pub a: u32, #[revision(indexed_map)] pub m: BTreeMap<String, u32>, #[revision(start = 2, default_fn = "default_s", indexed_seq)] pub s: Vec<String>, #[revision(indexed_set)] pub t: BTreeSet<String>, pub z: u32 }
    #[allow(dead_code, clippy::all)]
    impl IdxHist {
        pub fn default_s(_r: u16) -> Result<Vec<String>, Error> { Err(Error::Conversion(String::new())) }
    }
  }
  pub mod v3 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision(1), revision(2, optimised), revision(3, optimised, indexed_struct))]
    pub struct IdxHist { pub a: u32, #[revision(indexed_map)] pub m: BTreeMap<String, u32>, #[revision(start = 2, default_fn = "default_s", indexed_seq)] pub s: Vec<String>, #[revision(indexed_set)] pub t: BTreeSet<String>, pub z: u32 }
    #[allow(dead_code, clippy::all)]
    impl IdxHist {
        pub fn default_s(_r: u16) -> Result<Vec<String>, Error> { Err(Error::Conversion(String::new())) }
    }
  }
}
pub mod idx_gone {
  pub mod v1 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision(1, optimised))]
    pub struct IdxGone { pub a: u32, #[revision(indexed_map)] pub m: BTreeMap<String, u32>, #[revision(indexed_seq)] pub s: Vec<String>, pub z: u32 }
  }
  pub mod v2 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision(1, optimised), revision(2, optimised, indexed_struct))]
    pub struct IdxGone { pub a: u32, #[revision(end = 2, convert_fn = "conv_m", indexed_map)] pub m: BTreeMap<String, u32>, #[revision(indexed_seq)] pub s: Vec<String>, pub z: u32 }
    #[allow(dead_code, clippy::all)]
    impl IdxGone {
        pub fn conv_m(&mut self, _r: u16, _v: BTreeMap<String, u32>) -> Result<(), Error> { Ok(()) }
    }
  }
  pub mod v3 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision(1, optimised), revision(2, optimised, indexed_struct), revision(3, optimised))]
    pub struct IdxGone { pub a: u32, #[revision(end = 2, convert_fn = "conv_m", indexed_map)] pub m: BTreeMap<String, u32>, #[revision(end = 3, convert_fn = "conv_s", indexed_seq)] pub s: Vec<String>, pub z: u32 }
    #[allow(dead_code, clippy::all)]
    impl IdxGone {
        pub fn conv_m(&mut self, _r: u16, _v: BTreeMap<String, u32>) -> Result<(), Error> { Ok(()) }
        pub fn conv_s(&mut self, _r: u16, _v: Vec<String>) -> Result<(), Error> { Ok(()) }
    }
  }
}
pub mod opt_fixed {
  pub mod v1 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision(1, optimised))]
    pub struct OptFixed { #[revision(fixed)] pub a: u32, #[revision(specialised)] pub b: Vec<u32>, pub c: u32 }
  }
  pub mod v2 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision(1, optimised), revision(2, optimised, indexed_struct))]
    pub struct OptFixed { #[revision(fixed)] pub a: u32, #[revision(specialised)] pub b: Vec<u32>, pub c: u32 }
  }
}
pub mod en {
  pub mod v1 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 1)]
    pub enum En {
        A,
        B(u32),
        C { x: u32, y: String },
        D(u32, u32),
        E,
    }
  }
}
pub mod en_hist {
  pub mod v1 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 1)]
    pub enum EnHist {
        A,
        C { x: u32, y: String },
        D(u32),
        E,
    }
  }
  pub mod v2 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 2)]
    pub enum EnHist {
        A,
        #[revision(start = 2)] B(u32),
        C { x: u32, y: String },
        D(u32),
        #[revision(end = 2, convert_fn = "conv_e")] E,
    }
    #[allow(dead_code, clippy::all)]
    impl EnHist {
        fn conv_e(_f: EnHistEFields, _r: u16) -> Result<Self, Error> { Err(Error::Conversion(String::new())) }
    }
  }
  pub mod v3 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 3)]
    pub enum EnHist {
        A,
        #[revision(start = 2)] B(u32),
        #[revision(end = 3, convert_fn = "conv_c")] C { x: u32, y: String },
        D(u32),
        #[revision(end = 2, convert_fn = "conv_e")] E,
        #[revision(start = 3)] G(u32, u32),
    }
    #[allow(dead_code, clippy::all)]
    impl EnHist {
        fn conv_c(_f: EnHistCFields, _r: u16) -> Result<Self, Error> { Err(Error::Conversion(String::new())) }
        fn conv_e(_f: EnHistEFields, _r: u16) -> Result<Self, Error> { Err(Error::Conversion(String::new())) }
    }
  }
  pub mod v4 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 4)]
    pub enum EnHist {
        A,
        #[revision(start = 2)] B(u32),
        #[revision(end = 3, convert_fn = "conv_c")] C { x: u32, y: String },
        D(u32),
        #[revision(end = 2, convert_fn = "conv_e")] E,
        #[revision(start = 3, end = 4, convert_fn = "conv_g")] G(u32, u32),
        #[revision(start = 4)] H { q: u32 },
    }
    #[allow(dead_code, clippy::all)]
    impl EnHist {
        fn conv_c(_f: EnHistCFields, _r: u16) -> Result<Self, Error> { Err(Error::Conversion(String::new())) }
        fn conv_e(_f: EnHistEFields, _r: u16) -> Result<Self, Error> { Err(Error::Conversion(String::new())) }
        fn conv_g(_f: EnHistGFields, _r: u16) -> Result<Self, Error> { Err(Error::Conversion(String::new())) }
    }
  }
}
pub mod en_fields {
  pub mod v1 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 1)]
    pub enum EnFields {
        A { a: u32, c: u32 },
        B(u32, u32, u32),
        C { y: u32 },
        D,
    }
  }
  pub mod v2 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 2)]
    pub enum EnFields {
        A { a: u32, #[revision(start = 2, default_fn = "default_a_b")] b: u32, c: u32 },
        B(u32, #[revision(end = 2, convert_fn = "conv_b_f1")] u32, u32),
        C { #[revision(start = 2, default_fn = "default_c_x")] x: u32, y: u32 },
        D,
    }
    #[allow(dead_code, clippy::all)]
    impl EnFields {
        pub fn default_a_b(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn conv_b_f1(_f: &mut EnFieldsBFields, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn default_c_x(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
    }
  }
  pub mod v3 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 3)]
    pub enum EnFields {
        A { a: u32, #[revision(start = 2, default_fn = "default_a_b")] b: u32, #[revision(end = 3, convert_fn = "conv_a_c")] c: u32, #[revision(start = 3)] d: String },
        B(u32, #[revision(end = 2, convert_fn = "conv_b_f1")] u32, #[revision(start = 3, default_fn = "default_b_f2")] u32, u32),
        #[revision(end = 3, convert_fn = "conv_c")] C { #[revision(start = 2, default_fn = "default_c_x")] x: u32, #[revision(end = 3, convert_fn = "conv_c_y")] y: u32 },
        D,
    }
    #[allow(dead_code, clippy::all)]
    impl EnFields {
        pub fn default_a_b(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn conv_a_c(_f: &mut EnFieldsAFields, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn conv_b_f1(_f: &mut EnFieldsBFields, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn default_b_f2(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        fn conv_c(_f: EnFieldsCFields, _r: u16) -> Result<Self, Error> { Err(Error::Conversion(String::new())) }
        pub fn default_c_x(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn conv_c_y(_f: &mut EnFieldsCFields, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
    }
  }
}
pub mod en_over {
  pub mod v1 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 1)]
    pub enum EnOver {
        A,
        #[revision(override(revision = 1, discriminant = 0))] B(u32),
        #[revision(override(revision = 1, discriminant = 2))] C,
    }
  }
  pub mod v2 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 2)]
    pub enum EnOver {
        #[revision(override(revision = 2, discriminant = 5))] A,
        #[revision(override(revision = 1, discriminant = 0))] B(u32),
        #[revision(override(revision = 1, discriminant = 2), override(revision = 2, discriminant = 1))] C,
        #[revision(start = 2)] D(u32),
        #[revision(start = 2, override(revision = 2, discriminant = 300))] E,
    }
  }
  pub mod v3 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 3)]
    pub enum EnOver {
        #[revision(override(revision = 2, discriminant = 5))] A,
        #[revision(override(revision = 1, discriminant = 0))] B(u32),
        #[revision(override(revision = 1, discriminant = 2), override(revision = 2, discriminant = 1), override(revision = 3, discriminant = 2))] C,
        #[revision(start = 2)] D(u32),
        #[revision(start = 2, end = 3, convert_fn = "conv_e", override(revision = 2, discriminant = 300))] E,
    }
    #[allow(dead_code, clippy::all)]
    impl EnOver {
        fn conv_e(_f: EnOverEFields, _r: u16) -> Result<Self, Error> { Err(Error::Conversion(String::new())) }
    }
  }
}
pub mod en_big {
  pub mod v1 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 1)]
    pub enum EnBig {
        V0(u32),
        V1,
        V2,
        V3(u32),
        V4,
        V5,
        V6(u32),
        V7,
        V8,
        V9(u32),
        V10,
        V11,
        #[revision(override(revision = 1, discriminant = 251))] W,
        #[revision(override(revision = 1, discriminant = 70000))] X,
    }
  }
}
pub mod en_attr {
  pub mod v1 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 1)]
    pub enum EnAttr {
        A { #[revision(fixed)] a: u64 },
        B(#[revision(specialised)] Vec<u32>, #[revision(fixed)] u32),
        C { #[revision(specialised)] v: Vec<u64>, w: u32 },
    }
  }
  pub mod v2 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 2)]
    pub enum EnAttr {
        A { #[revision(fixed)] a: u64, #[revision(start = 2, default_fn = "default_a_b")] b: u32 },
        B(#[revision(specialised)] Vec<u32>, #[revision(fixed)] u32),
        C { #[revision(end = 2, convert_fn = "conv_c_v", specialised)] v: Vec<u64>, w: u32 },
    }
    #[allow(dead_code, clippy::all)]
    impl EnAttr {
        pub fn default_a_b(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn conv_c_v(_f: &mut EnAttrCFields, _r: u16, _v: Vec<u64>) -> Result<(), Error> { Ok(()) }
    }
  }
}
pub mod opt_en {
  pub mod v1 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision(1, optimised))]
    pub enum OptEn {
        #[revision(size = "inline")] A,
        #[revision(size = "fixed(8)")] B([u8; 8]),
        #[revision(size = "varlen")] C(String),
        #[revision(size = "varlen")] D { x: u32, y: String },
        #[revision(size = "fixed(2)")] E(u8, u8),
        #[revision(size = "varlen")] G(u32),
    }
  }
}
pub mod opt_en_big {
  pub mod v1 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision(1, optimised))]
    pub enum OptEnBig {
        #[revision(size = "varlen")] V0(String),
        #[revision(size = "inline")] V1,
        #[revision(size = "varlen")] V2(String),
        #[revision(size = "inline")] V3,
        #[revision(size = "varlen")] V4(String),
        #[revision(size = "inline")] V5,
        #[revision(size = "varlen")] V6(String),
        #[revision(size = "inline")] V7,
        #[revision(size = "varlen")] V8(String),
        #[revision(size = "inline")] V9,
        #[revision(size = "varlen")] V10(String),
        #[revision(size = "inline")] V11,
        #[revision(size = "varlen")] V12(String),
        #[revision(size = "inline")] V13,
        #[revision(size = "varlen")] V14(String),
        #[revision(size = "inline")] V15,
        #[revision(size = "varlen")] V16(String),
        #[revision(size = "inline")] V17,
        #[revision(size = "varlen")] V18(String),
        #[revision(size = "inline")] V19,
        #[revision(size = "varlen")] V20(String),
        #[revision(size = "inline")] V21,
        #[revision(size = "varlen")] V22(String),
        #[revision(size = "inline")] V23,
        #[revision(size = "varlen")] V24(String),
        #[revision(size = "inline")] V25,
        #[revision(size = "varlen")] V26(String),
        #[revision(size = "inline")] V27,
        #[revision(size = "varlen")] V28(String),
        #[revision(size = "inline")] V29,
        #[revision(size = "varlen")] V30(String),
        #[revision(size = "fixed(3)")] Z([u8; 3]),
    }
  }
}
pub mod opt_en_hist {
  pub mod v1 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision(1, optimised))]
    pub enum OptEnHist {
        #[revision(size = "inline")] A,
        #[revision(size = "fixed(4)")] C([u8; 4]),
        #[revision(size = "varlen")] D { x: u32, y: u32 },
        #[revision(size = "inline")] E,
    }
  }
  pub mod v2 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision(1, optimised), revision(2, optimised))]
    pub enum OptEnHist {
        #[revision(size = "inline")] A,
        #[revision(start = 2, size = "varlen")] B(String),
        #[revision(size = "fixed(4)")] C([u8; 4]),
        #[revision(size = "varlen")] D { x: u32, y: u32 },
        #[revision(end = 2, convert_fn = "conv_e", size = "inline")] E,
    }
    #[allow(dead_code, clippy::all)]
    impl OptEnHist {
        fn conv_e(_f: OptEnHistEFields, _r: u16) -> Result<Self, Error> { Err(Error::Conversion(String::new())) }
    }
  }
  pub mod v3 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision(1, optimised), revision(2, optimised), revision(3, optimised))]
    pub enum OptEnHist {
        #[revision(size = "inline")] A,
        #[revision(start = 2, size = "varlen")] B(String),
        #[revision(end = 3, convert_fn = "conv_c", size = "fixed(4)")] C([u8; 4]),
        #[revision(override(revision = 3, discriminant = 9), size = "varlen")] D { x: u32, y: u32 },
        #[revision(end = 2, convert_fn = "conv_e", size = "inline")] E,
    }
    #[allow(dead_code, clippy::all)]
    impl OptEnHist {
        fn conv_c(_f: OptEnHistCFields, _r: u16) -> Result<Self, Error> { Err(Error::Conversion(String::new())) }
        fn conv_e(_f: OptEnHistEFields, _r: u16) -> Result<Self, Error> { Err(Error::Conversion(String::new())) }
    }
  }
}
pub mod moving_en {
  pub mod v1 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision(1))]
    pub enum MovingEn {
        A,
        C { x: u32, y: u32 },
        #[revision(override(revision = 1, discriminant = 7))] D([u8; 4]),
    }
  }
  pub mod v2 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision(1), revision(2, optimised))]
    pub enum MovingEn {
        #[revision(size = "inline")] A,
        #[revision(start = 2, size = "varlen")] B(String),
        #[revision(size = "varlen")] C { x: u32, y: u32 },
        #[revision(override(revision = 1, discriminant = 7), size = "fixed(4)")] D([u8; 4]),
    }
  }
  pub mod v3 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision(1), revision(2, optimised), revision(3))]
    pub enum MovingEn {
        #[revision(size = "inline")] A,
        #[revision(start = 2, size = "varlen")] B(String),
        #[revision(size = "varlen")] C { x: u32, y: u32 },
        #[revision(override(revision = 1, discriminant = 7), size = "fixed(4)")] D([u8; 4]),
    }
  }
}
pub mod opt_en_idx {
  pub mod v1 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision(1, optimised))]
    pub enum OptEnIdx {
        #[revision(size = "varlen")] M(#[revision(indexed_map)] BTreeMap<String, u32>),
        #[revision(size = "varlen")] S { #[revision(indexed_seq)] s: Vec<String>, k: u32 },
        #[revision(size = "varlen")] T(#[revision(indexed_set)] BTreeSet<String>),
    }
  }
}
pub mod tuple_wide {
  pub mod v1 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 1)]
    pub struct TupleWide(pub u32, pub u32, pub u32, pub u32, pub u32, pub u32);
  }
  pub mod v2 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 2)]
    pub struct TupleWide(pub u32, pub u32, #[revision(start = 2, default_fn = "default_f2")] pub u32, pub u32, #[revision(start = 2, default_fn = "default_f4")] pub u32, pub u32, pub u32, pub u32);
    #[allow(dead_code, clippy::all)]
    impl TupleWide {
        pub fn default_f2(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn default_f4(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
    }
  }
  pub mod v3 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 3)]
    pub struct TupleWide(pub u32, #[revision(end = 3, convert_fn = "conv_f1")] pub u32, #[revision(start = 2, default_fn = "default_f2")] pub u32, pub u32, #[revision(start = 2, default_fn = "default_f4")] pub u32, pub u32, pub u32, pub u32);
    #[allow(dead_code, clippy::all)]
    impl TupleWide {
        pub fn conv_f1(&mut self, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn default_f2(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn default_f4(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
    }
  }
  pub mod v4 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 4)]
    pub struct TupleWide(pub u32, #[revision(end = 3, convert_fn = "conv_f1")] pub u32, #[revision(start = 2, default_fn = "default_f2")] pub u32, pub u32, #[revision(start = 2, end = 4, convert_fn = "conv_f4", default_fn = "default_f4")] pub u32, pub u32, pub u32, #[revision(start = 4)] pub u32, pub u32);
    #[allow(dead_code, clippy::all)]
    impl TupleWide {
        pub fn conv_f1(&mut self, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn default_f2(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn default_f4(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn conv_f4(&mut self, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
    }
  }
  pub mod v5 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 5)]
    pub struct TupleWide(pub u32, #[revision(end = 3, convert_fn = "conv_f1")] pub u32, #[revision(start = 2, default_fn = "default_f2")] pub u32, pub u32, #[revision(start = 2, end = 4, convert_fn = "conv_f4", default_fn = "default_f4")] pub u32, pub u32, #[revision(end = 5, convert_fn = "conv_f6")] pub u32, #[revision(start = 4)] pub u32, pub u32, #[revision(start = 5, default_fn = "default_f9")] pub String);
    #[allow(dead_code, clippy::all)]
    impl TupleWide {
        pub fn conv_f1(&mut self, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn default_f2(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn default_f4(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn conv_f4(&mut self, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn conv_f6(&mut self, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn default_f9(_r: u16) -> Result<String, Error> { Err(Error::Conversion(String::new())) }
    }
  }
}
pub mod named_wide {
  pub mod v1 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 1)]
    pub struct NamedWide { pub f0: u32, pub f1: u32, pub f3: u32, pub f4: u32, pub f6: u32, pub f7: u32, pub f9: u32, pub f10: u32, pub f12: u32, pub f13: u32, pub f15: u32, pub f16: u32 }
  }
  pub mod v2 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 2)]
    pub struct NamedWide { pub f0: u32, pub f1: u32, pub f3: u32, #[revision(end = 2, convert_fn = "conv_f4")] pub f4: u32, pub f6: u32, pub f7: u32, #[revision(start = 2, default_fn = "default_f8")] pub f8: u32, pub f9: u32, pub f10: u32, pub f12: u32, pub f13: u32, pub f15: u32, #[revision(end = 2, convert_fn = "conv_f16")] pub f16: u32 }
    #[allow(dead_code, clippy::all)]
    impl NamedWide {
        pub fn conv_f4(&mut self, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn default_f8(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn conv_f16(&mut self, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
    }
  }
  pub mod v3 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 3)]
    pub struct NamedWide { pub f0: u32, #[revision(end = 3, convert_fn = "conv_f1")] pub f1: u32, pub f3: u32, #[revision(end = 2, convert_fn = "conv_f4")] pub f4: u32, #[revision(start = 3, default_fn = "default_f5")] pub f5: u32, pub f6: u32, pub f7: u32, #[revision(start = 2, default_fn = "default_f8")] pub f8: u32, pub f9: u32, pub f10: u32, pub f12: u32, #[revision(end = 3, convert_fn = "conv_f13")] pub f13: u32, pub f15: u32, #[revision(end = 2, convert_fn = "conv_f16")] pub f16: u32, #[revision(start = 3, default_fn = "default_f17")] pub f17: u32 }
    #[allow(dead_code, clippy::all)]
    impl NamedWide {
        pub fn conv_f1(&mut self, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn conv_f4(&mut self, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn default_f5(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn default_f8(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn conv_f13(&mut self, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn conv_f16(&mut self, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn default_f17(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
    }
  }
  pub mod v4 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 4)]
    pub struct NamedWide { pub f0: u32, #[revision(end = 3, convert_fn = "conv_f1")] pub f1: u32, #[revision(start = 4, default_fn = "default_f2")] pub f2: u32, pub f3: u32, #[revision(end = 2, convert_fn = "conv_f4")] pub f4: u32, #[revision(start = 3, default_fn = "default_f5")] pub f5: u32, pub f6: u32, pub f7: u32, #[revision(start = 2, default_fn = "default_f8")] pub f8: u32, pub f9: u32, #[revision(end = 4, convert_fn = "conv_f10")] pub f10: u32, pub f12: u32, #[revision(end = 3, convert_fn = "conv_f13")] pub f13: u32, #[revision(start = 4, default_fn = "default_f14")] pub f14: u32, pub f15: u32, #[revision(end = 2, convert_fn = "conv_f16")] pub f16: u32, #[revision(start = 3, default_fn = "default_f17")] pub f17: u32 }
    #[allow(dead_code, clippy::all)]
    impl NamedWide {
        pub fn conv_f1(&mut self, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn default_f2(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn conv_f4(&mut self, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn default_f5(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn default_f8(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn conv_f10(&mut self, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn conv_f13(&mut self, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn default_f14(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn conv_f16(&mut self, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn default_f17(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
    }
  }
  pub mod v5 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 5)]
    pub struct NamedWide { pub f0: u32, #[revision(end = 3, convert_fn = "conv_f1")] pub f1: u32, #[revision(start = 4, default_fn = "default_f2")] pub f2: u32, pub f3: u32, #[revision(end = 2, convert_fn = "conv_f4")] pub f4: u32, #[revision(start = 3, default_fn = "default_f5")] pub f5: u32, pub f6: u32, #[revision(end = 5, convert_fn = "conv_f7")] pub f7: u32, #[revision(start = 2, default_fn = "default_f8")] pub f8: u32, pub f9: u32, #[revision(end = 4, convert_fn = "conv_f10")] pub f10: u32, #[revision(start = 5, default_fn = "default_f11")] pub f11: u32, pub f12: u32, #[revision(end = 3, convert_fn = "conv_f13")] pub f13: u32, #[revision(start = 4, default_fn = "default_f14")] pub f14: u32, pub f15: u32, #[revision(end = 2, convert_fn = "conv_f16")] pub f16: u32, #[revision(start = 3, default_fn = "default_f17")] pub f17: u32 }
    #[allow(dead_code, clippy::all)]
    impl NamedWide {
        pub fn conv_f1(&mut self, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn default_f2(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn conv_f4(&mut self, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn default_f5(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn conv_f7(&mut self, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn default_f8(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn conv_f10(&mut self, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn default_f11(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn conv_f13(&mut self, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn default_f14(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn conv_f16(&mut self, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn default_f17(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
    }
  }
}
pub mod opt_tuple_wide {
  pub mod v1 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision(1))]
    pub struct OptTupleWide(pub u32, pub u32, pub u32, pub u32, pub u32, pub u32);
  }
  pub mod v2 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision(1), revision(2, optimised))]
    pub struct OptTupleWide(pub u32, pub u32, #[revision(start = 2, default_fn = "default_f2")] pub u32, pub u32, #[revision(start = 2, default_fn = "default_f4")] pub String, pub u32, pub u32, pub u32);
    #[allow(dead_code, clippy::all)]
    impl OptTupleWide {
        pub fn default_f2(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn default_f4(_r: u16) -> Result<String, Error> { Err(Error::Conversion(String::new())) }
    }
  }
  pub mod v3 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision(1), revision(2, optimised), revision(3, optimised, indexed_struct))]
    pub struct OptTupleWide(pub u32, #[revision(end = 3, convert_fn = "conv_f1")] pub u32, #[revision(start = 2, default_fn = "default_f2")] pub u32, pub u32, #[revision(start = 2, default_fn = "default_f4")] pub String, pub u32, pub u32, pub u32);
    #[allow(dead_code, clippy::all)]
    impl OptTupleWide {
        pub fn conv_f1(&mut self, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn default_f2(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn default_f4(_r: u16) -> Result<String, Error> { Err(Error::Conversion(String::new())) }
    }
  }
  pub mod v4 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision(1), revision(2, optimised), revision(3, optimised, indexed_struct), revision(4, optimised))]
    pub struct OptTupleWide(pub u32, #[revision(end = 3, convert_fn = "conv_f1")] pub u32, #[revision(start = 2, default_fn = "default_f2")] pub u32, pub u32, #[revision(start = 2, end = 4, convert_fn = "conv_f4", default_fn = "default_f4")] pub String, pub u32, #[revision(end = 4, convert_fn = "conv_f6")] pub u32, #[revision(start = 4, default_fn = "default_f7")] pub u32, pub u32);
    #[allow(dead_code, clippy::all)]
    impl OptTupleWide {
        pub fn conv_f1(&mut self, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn default_f2(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn default_f4(_r: u16) -> Result<String, Error> { Err(Error::Conversion(String::new())) }
        pub fn conv_f4(&mut self, _r: u16, _v: String) -> Result<(), Error> { Ok(()) }
        pub fn conv_f6(&mut self, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn default_f7(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
    }
  }
}
pub mod opt_wide {
  pub mod v1 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision(1, optimised, indexed_struct))]
    pub struct OptWide { pub f0: u32, pub f1: u32, pub f3: u32, pub f4: u32, pub f6: u32, pub f7: u32, pub f9: u32, pub f10: u32 }
  }
  pub mod v2 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision(1, optimised, indexed_struct), revision(2, optimised))]
    pub struct OptWide { pub f0: u32, pub f1: u32, #[revision(start = 2, default_fn = "default_f2")] pub f2: u32, pub f3: u32, #[revision(end = 2, convert_fn = "conv_f4")] pub f4: u32, pub f6: u32, pub f7: u32, #[revision(start = 2, default_fn = "default_f8")] pub f8: u32, pub f9: u32, #[revision(end = 2, convert_fn = "conv_f10")] pub f10: u32 }
    #[allow(dead_code, clippy::all)]
    impl OptWide {
        pub fn default_f2(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn conv_f4(&mut self, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn default_f8(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn conv_f10(&mut self, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
    }
  }
  pub mod v3 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision(1, optimised, indexed_struct), revision(2, optimised), revision(3, optimised, indexed_struct))]
    pub struct OptWide { pub f0: u32, #[revision(end = 3, convert_fn = "conv_f1")] pub f1: u32, #[revision(start = 2, default_fn = "default_f2")] pub f2: u32, pub f3: u32, #[revision(end = 2, convert_fn = "conv_f4")] pub f4: u32, #[revision(start = 3, default_fn = "default_f5")] pub f5: u32, pub f6: u32, #[revision(end = 3, convert_fn = "conv_f7")] pub f7: u32, #[revision(start = 2, default_fn = "default_f8")] pub f8: u32, pub f9: u32, #[revision(end = 2, convert_fn = "conv_f10")] pub f10: u32, #[revision(start = 3, default_fn = "default_f11")] pub f11: u32 }
    #[allow(dead_code, clippy::all)]
    impl OptWide {
        pub fn conv_f1(&mut self, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn default_f2(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn conv_f4(&mut self, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn default_f5(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn conv_f7(&mut self, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn default_f8(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn conv_f10(&mut self, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn default_f11(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
    }
  }
}
pub mod en_wide {
  pub mod v1 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 1)]
    pub enum EnWide {
        A(u32, u32, u32, u32),
        B { a: u32, b: u32, c: u32, e: u32, g: u32 },
        E(u32),
    }
  }
  pub mod v2 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 2)]
    pub enum EnWide {
        A(u32, u32, #[revision(start = 2, default_fn = "default_a_f2")] u32, u32, #[revision(start = 2, default_fn = "default_a_f4")] u32, u32),
        B { #[revision(end = 2, convert_fn = "conv_b_a")] a: u32, b: u32, c: u32, #[revision(start = 2, default_fn = "default_b_d")] d: u32, e: u32, g: u32 },
        #[revision(start = 2)] C(u32, u32, u32, u32, u32),
        E(u32),
    }
    #[allow(dead_code, clippy::all)]
    impl EnWide {
        pub fn default_a_f2(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn default_a_f4(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn conv_b_a(_f: &mut EnWideBFields, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn default_b_d(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
    }
  }
  pub mod v3 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 3)]
    pub enum EnWide {
        A(u32, #[revision(end = 3, convert_fn = "conv_a_f1")] u32, #[revision(start = 2, default_fn = "default_a_f2")] u32, u32, #[revision(start = 2, default_fn = "default_a_f4")] u32, u32),
        B { #[revision(end = 2, convert_fn = "conv_b_a")] a: u32, b: u32, #[revision(end = 3, convert_fn = "conv_b_c")] c: u32, #[revision(start = 2, default_fn = "default_b_d")] d: u32, e: u32, #[revision(start = 3, default_fn = "default_b_f")] f: u32, g: u32 },
        #[revision(start = 2)] C(u32, u32, u32, u32, u32),
        #[revision(start = 3)] D,
        E(u32),
    }
    #[allow(dead_code, clippy::all)]
    impl EnWide {
        pub fn conv_a_f1(_f: &mut EnWideAFields, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn default_a_f2(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn default_a_f4(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn conv_b_a(_f: &mut EnWideBFields, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn conv_b_c(_f: &mut EnWideBFields, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn default_b_d(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn default_b_f(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
    }
  }
  pub mod v4 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 4)]
    pub enum EnWide {
        A(u32, #[revision(end = 3, convert_fn = "conv_a_f1")] u32, #[revision(start = 2, default_fn = "default_a_f2")] u32, u32, #[revision(start = 2, end = 4, convert_fn = "conv_a_f4", default_fn = "default_a_f4")] u32, u32, #[revision(start = 4, default_fn = "default_a_f6")] u32),
        B { #[revision(end = 2, convert_fn = "conv_b_a")] a: u32, b: u32, #[revision(end = 3, convert_fn = "conv_b_c")] c: u32, #[revision(start = 2, default_fn = "default_b_d")] d: u32, e: u32, #[revision(start = 3, default_fn = "default_b_f")] f: u32, #[revision(end = 4, convert_fn = "conv_b_g")] g: u32 },
        #[revision(start = 2, end = 4, convert_fn = "conv_c")] C(u32, u32, u32, u32, u32),
        #[revision(start = 3)] D,
        #[revision(end = 4, convert_fn = "conv_e")] E(u32),
    }
    #[allow(dead_code, clippy::all)]
    impl EnWide {
        pub fn conv_a_f1(_f: &mut EnWideAFields, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn default_a_f2(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn default_a_f4(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn conv_a_f4(_f: &mut EnWideAFields, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn default_a_f6(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn conv_b_a(_f: &mut EnWideBFields, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn conv_b_c(_f: &mut EnWideBFields, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn default_b_d(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn default_b_f(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn conv_b_g(_f: &mut EnWideBFields, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        fn conv_c(_f: EnWideCFields, _r: u16) -> Result<Self, Error> { Err(Error::Conversion(String::new())) }
        fn conv_e(_f: EnWideEFields, _r: u16) -> Result<Self, Error> { Err(Error::Conversion(String::new())) }
    }
  }
}
pub mod opt_en_wide {
  pub mod v1 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision(1, optimised))]
    pub enum OptEnWide {
        #[revision(size = "varlen")] A(u32, u32, String, u32, u32),
        #[revision(size = "fixed(8)")] C(u8, u8, u8, [u8; 5]),
        #[revision(size = "inline")] D,
        #[revision(size = "fixed(32)")] E([u8; 32]),
    }
  }
  pub mod v2 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision(1, optimised), revision(2, optimised))]
    pub enum OptEnWide {
        #[revision(size = "varlen")] A(u32, u32, String, u32, u32),
        #[revision(start = 2, size = "varlen")] B { a: u32, b: u32, c: String, d: u32, e: u32 },
        #[revision(override(revision = 2, discriminant = 20), size = "fixed(8)")] C(u8, u8, u8, [u8; 5]),
        #[revision(end = 2, convert_fn = "conv_d", size = "inline")] D,
        #[revision(size = "fixed(32)")] E([u8; 32]),
    }
    #[allow(dead_code, clippy::all)]
    impl OptEnWide {
        fn conv_d(_f: OptEnWideDFields, _r: u16) -> Result<Self, Error> { Err(Error::Conversion(String::new())) }
    }
  }
}
pub mod opt_en_mix {
  pub mod v1 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision(1, optimised))]
    pub enum OptEnMix {
        #[revision(size = "varlen")] A(u32, u32, u32),
        #[revision(size = "varlen")] B { a: u32, b: u32, c: String },
        #[revision(size = "fixed(2)")] C(u8, u8),
        #[revision(size = "varlen")] D(u32, u32),
        #[revision(size = "varlen")] E { x: u32 },
        #[revision(size = "inline")] G,
    }
  }
  pub mod v2 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision(1, optimised), revision(2, optimised))]
    pub enum OptEnMix {
        #[revision(size = "varlen")] A(u32, u32, #[revision(start = 2, default_fn = "default_a_f2")] u32, u32, #[revision(start = 2, default_fn = "default_a_f4")] String),
        #[revision(size = "varlen")] B { #[revision(end = 2, convert_fn = "conv_b_a")] a: u32, b: u32, c: String, #[revision(start = 2, default_fn = "default_b_d")] d: u32 },
        #[revision(size = "fixed(2)")] C(#[revision(end = 2, convert_fn = "conv_c_f0")] u8, #[revision(start = 2, default_fn = "default_c_f1")] u8, u8),
        #[revision(size = "varlen")] D(#[revision(end = 2, convert_fn = "conv_d_f0")] u32, #[revision(start = 2, default_fn = "default_d_f1")] u32, u32),
        #[revision(size = "varlen")] E { x: u32, #[revision(start = 2, default_fn = "default_e_y")] y: u32 },
        #[revision(size = "inline")] G,
    }
    #[allow(dead_code, clippy::all)]
    impl OptEnMix {
        pub fn default_a_f2(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn default_a_f4(_r: u16) -> Result<String, Error> { Err(Error::Conversion(String::new())) }
        pub fn conv_b_a(_f: &mut OptEnMixBFields, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn default_b_d(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn conv_c_f0(_f: &mut OptEnMixCFields, _r: u16, _v: u8) -> Result<(), Error> { Ok(()) }
        pub fn default_c_f1(_r: u16) -> Result<u8, Error> { Err(Error::Conversion(String::new())) }
        pub fn conv_d_f0(_f: &mut OptEnMixDFields, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn default_d_f1(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn default_e_y(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
    }
  }
  pub mod v3 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision(1, optimised), revision(2, optimised), revision(3, optimised))]
    pub enum OptEnMix {
        #[revision(size = "varlen")] A(u32, #[revision(end = 3, convert_fn = "conv_a_f1")] u32, #[revision(start = 2, default_fn = "default_a_f2")] u32, u32, #[revision(start = 2, end = 3, convert_fn = "conv_a_f4", default_fn = "default_a_f4")] String, #[revision(start = 3)] u32),
        #[revision(size = "varlen")] B { #[revision(end = 2, convert_fn = "conv_b_a")] a: u32, b: u32, #[revision(end = 3, convert_fn = "conv_b_c")] c: String, #[revision(start = 2, default_fn = "default_b_d")] d: u32, #[revision(start = 3, default_fn = "default_b_e")] e: u32 },
        #[revision(size = "fixed(2)")] C(#[revision(end = 2, convert_fn = "conv_c_f0")] u8, #[revision(start = 2, end = 3, convert_fn = "conv_c_f1", default_fn = "default_c_f1")] u8, #[revision(start = 3, default_fn = "default_c_f2")] u8, u8),
        #[revision(end = 3, convert_fn = "conv_d", size = "varlen")] D(#[revision(end = 2, convert_fn = "conv_d_f0")] u32, #[revision(start = 2, default_fn = "default_d_f1")] u32, u32),
        #[revision(end = 3, convert_fn = "conv_e", size = "varlen")] E { x: u32, #[revision(start = 2, default_fn = "default_e_y")] y: u32 },
        #[revision(size = "inline")] G,
    }
    #[allow(dead_code, clippy::all)]
    impl OptEnMix {
        pub fn conv_a_f1(_f: &mut OptEnMixAFields, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn default_a_f2(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn default_a_f4(_r: u16) -> Result<String, Error> { Err(Error::Conversion(String::new())) }
        pub fn conv_a_f4(_f: &mut OptEnMixAFields, _r: u16, _v: String) -> Result<(), Error> { Ok(()) }
        pub fn conv_b_a(_f: &mut OptEnMixBFields, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn conv_b_c(_f: &mut OptEnMixBFields, _r: u16, _v: String) -> Result<(), Error> { Ok(()) }
        pub fn default_b_d(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn default_b_e(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn conv_c_f0(_f: &mut OptEnMixCFields, _r: u16, _v: u8) -> Result<(), Error> { Ok(()) }
        pub fn default_c_f1(_r: u16) -> Result<u8, Error> { Err(Error::Conversion(String::new())) }
        pub fn conv_c_f1(_f: &mut OptEnMixCFields, _r: u16, _v: u8) -> Result<(), Error> { Ok(()) }
        pub fn default_c_f2(_r: u16) -> Result<u8, Error> { Err(Error::Conversion(String::new())) }
        fn conv_d(_f: OptEnMixDFields, _r: u16) -> Result<Self, Error> { Err(Error::Conversion(String::new())) }
        pub fn conv_d_f0(_f: &mut OptEnMixDFields, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn default_d_f1(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        fn conv_e(_f: OptEnMixEFields, _r: u16) -> Result<Self, Error> { Err(Error::Conversion(String::new())) }
        pub fn default_e_y(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
    }
  }
}
pub mod moving_mix {
  pub mod v1 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision(1))]
    pub enum MovingMix {
        A(u32, u32),
        B { a: u32 },
    }
  }
  pub mod v2 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision(1), revision(2, optimised))]
    pub enum MovingMix {
        #[revision(size = "varlen")] A(#[revision(end = 2, convert_fn = "conv_a_f0")] u32, #[revision(start = 2, default_fn = "default_a_f1")] u32, u32),
        #[revision(size = "varlen")] B { a: u32, #[revision(start = 2, default_fn = "default_b_b")] b: u32 },
    }
    #[allow(dead_code, clippy::all)]
    impl MovingMix {
        pub fn conv_a_f0(_f: &mut MovingMixAFields, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn default_a_f1(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn default_b_b(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
    }
  }
  pub mod v3 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision(1), revision(2, optimised), revision(3))]
    pub enum MovingMix {
        #[revision(size = "varlen")] A(#[revision(end = 2, convert_fn = "conv_a_f0")] u32, #[revision(start = 2, default_fn = "default_a_f1")] u32, #[revision(end = 3, convert_fn = "conv_a_f2")] u32, #[revision(start = 3, default_fn = "default_a_f3")] u32),
        #[revision(size = "varlen")] B { a: u32, #[revision(start = 2, end = 3, convert_fn = "conv_b_b", default_fn = "default_b_b")] b: u32, #[revision(start = 3, default_fn = "default_b_c")] c: u32 },
    }
    #[allow(dead_code, clippy::all)]
    impl MovingMix {
        pub fn conv_a_f0(_f: &mut MovingMixAFields, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn default_a_f1(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn conv_a_f2(_f: &mut MovingMixAFields, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn default_a_f3(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn default_b_b(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
        pub fn conv_b_b(_f: &mut MovingMixBFields, _r: u16, _v: u32) -> Result<(), Error> { Ok(()) }
        pub fn default_b_c(_r: u16) -> Result<u32, Error> { Err(Error::Conversion(String::new())) }
    }
  }
}
pub mod nested {
  pub mod v1 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision = 1)]
    pub struct Nested { pub a: crate::en::v1::En, pub b: Vec<crate::plain::v1::Plain>, pub c: Option<crate::opt::v1::Opt>, pub d: Box<crate::opt_en::v1::OptEn>, pub e: BTreeMap<String, crate::same::v1::Same>, pub f: (crate::en_hist::v4::EnHist, crate::opt_idx::v1::OptIdx) }
  }
}
pub mod nested_opt {
  pub mod v1 {
    use revision::prelude::*;
    use revision::Error;
    use std::collections::*;
    #[revisioned(revision(1, optimised, indexed_struct))]
    pub struct NestedOpt { pub a: crate::en::v1::En, #[revision(indexed_seq)] pub b: Vec<crate::same::v1::Same>, pub c: Option<crate::opt::v1::Opt>, #[revision(indexed_map)] pub e: BTreeMap<String, crate::same::v1::Same> }
  }
}
