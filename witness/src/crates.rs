//! The crate under test, once per feature set. `tool/witness.py` copies its source to packages named
//! ff_<set>, and for the private parts some properties are about, appends functions that call them.

use std::io::{Read, Result, Seek};

pub struct Build {
    pub name: &'static str,
    /// Enabled readers, as in oracle::Features.
    pub feats: u16,
    pub read: fn(&mut dyn ReadSeek) -> Result<String>,
    pub bytes: fn(&[u8]) -> String,
    pub from: fn(&[u8]) -> String,
    pub file: fn(&std::path::Path) -> Result<String>,
}

pub trait ReadSeek: Read + Seek {}
impl<T: Read + Seek> ReadSeek for T {}

macro_rules! builds {
    ($($krate:ident = $feats:expr),* $(,)?) => {
        pub static BUILDS: &[Build] = &[$(Build {
            name: stringify!($krate),
            feats: $feats,
            read: |r| $krate::FileFormat::from_reader(r).map(|f| format!("{:?}", f)),
            bytes: |b| format!("{:?}", $krate::FileFormat::from_bytes(b)),
            from: |b| format!("{:?}", $krate::FileFormat::from(b)),
            file: |p| $krate::FileFormat::from_file(p).map(|f| format!("{:?}", f)),
        }),*];
    };
}

include!("sets.rs");

pub fn build(name: &str) -> &'static Build {
    BUILDS.iter().find(|b| b.name == name).expect(name)
}

/// The signature recognised in the head, by the crate's own function. None: not available.
#[cfg(feature = "hook_signature")]
pub fn signature(head: &[u8]) -> Option<Option<String>> {
    Some(ff_all::verif_hooks::signature(head).map(|f| format!("{:?}", f)))
}
#[cfg(not(feature = "hook_signature"))]
pub fn signature(_: &[u8]) -> Option<Option<String>> {
    None
}

/// What the crate's own specialised reader makes of a content. None: not available.
#[cfg(feature = "hook_readers")]
pub fn specialised(fmt: &str, r: &mut dyn ReadSeek) -> Option<Result<String>> {
    use ff_all::verif_hooks::*;
    let f = match fmt {
        "AdvancedSystemsFormat" => asf(r),
        "CompoundFileBinary" => cfb(r),
        "ExtensibleBinaryMetaLanguage" => ebml(r),
        "MsDosExecutable" => exe(r),
        "Id3v2" => id3v2(r),
        "Mpeg4Part14" => mp4(r),
        "PortableDocumentFormat" => pdf(r),
        "Realmedia" => rm(r),
        "Sqlite3" => sqlite3(r),
        "ExtensibleMarkupLanguage" => xml(r),
        "Zip" => zip(r),
        "PlainText" => txt(r),
        _ => return None,
    };
    Some(f.map(|f| format!("{:?}", f)))
}
#[cfg(not(feature = "hook_readers"))]
pub fn specialised(_: &str, _: &mut dyn ReadSeek) -> Option<Result<String>> {
    None
}

#[cfg(feature = "hook_find")]
pub fn find(d: &[u8], p: &[u8]) -> Option<(Option<usize>, Option<usize>, bool)> {
    Some((ff_all::verif_hooks::find(d, p), ff_all::verif_hooks::rfind(d, p), ff_all::verif_hooks::holds(d, p)))
}
#[cfg(not(feature = "hook_find"))]
pub fn find(_: &[u8], _: &[u8]) -> Option<(Option<usize>, Option<usize>, bool)> {
    None
}
