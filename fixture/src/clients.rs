//! Small client functions the checks drive through the library's public API.
#![allow(dead_code)]
use revision::optimised::envelope::*;
use revision::optimised::tag::*;
use revision::Error;

pub fn enc_varlen(w: &mut Vec<u8>, id: u8, body: &[u8]) -> Result<(), Error> {
    encode_varlen(w, id, |s| {
        s.extend_from_slice(body);
        Ok(())
    })
}

pub fn enc_fixed(w: &mut Vec<u8>, id: u8, body: &[u8]) -> Result<(), Error> {
    encode_fixed(w, id, |s| {
        s.extend_from_slice(body);
        Ok(())
    })
}

pub fn enc_inline(w: &mut Vec<u8>, id: u8) -> Result<(), Error> {
    encode_inline(w, id)
}

/// identifier and class (0 inline, 1 fixed, 2 varlen) a reader sees
pub fn dec_tag(r: &mut &[u8]) -> Result<(u8, u8), Error> {
    let (tag, sc) = read_optimised_tag(r)?;
    let c = match sc {
        SizeClass::Inline => 0u8,
        SizeClass::Fixed => 1u8,
        SizeClass::Varlen => 2u8,
    };
    Ok((tag.variant_id(), c))
}

pub fn step_varlen(r: &mut &[u8]) -> Result<(), Error> {
    skip_varlen(r)
}

pub fn step_varlen_borrowed(r: &mut &[u8]) -> Result<(), Error> {
    skip_varlen_borrowed(r)
}

pub fn view_varlen<'a>(r: &'a mut &[u8]) -> Result<&'a [u8], Error> {
    read_varlen_slice(r)
}
