%% Verdict assembly (src/lib.rs) and dispatch (src/readers.rs).
%% ~group: the definitions of that group are not needed here, only its names.
%spec dispatch core ~asf ~cfb ~ebml ~exe ~id3 ~mp4 ~pdf ~rm ~sqlite ~xml ~zip
/// What the specialised reader of a format makes of the content (None: malformed).
pub open spec fn fmt_spec(f: FileFormat, d: Seq<u8>) -> Option<FileFormat> {
    match f {
        FileFormat::AdvancedSystemsFormat => asf_spec(d),
        FileFormat::CompoundFileBinary => cfb_spec(d),
        FileFormat::ExtensibleBinaryMetaLanguage => ebml_spec(d),
        FileFormat::MsDosExecutable => exe_spec(d),
        FileFormat::Id3v2 => id3_spec(d),
        FileFormat::Mpeg4Part14 => mp4_spec(d),
        FileFormat::PortableDocumentFormat => pdf_spec(d),
        FileFormat::Realmedia => rm_spec(d),
        FileFormat::Sqlite3 => sqlite_spec(d),
        FileFormat::ExtensibleMarkupLanguage => xml_spec(d),
        FileFormat::Zip => zip_spec(d),
        _ => Some(f),
    }
}
/// The documented refinements of a format.
pub open spec fn fmt_family(f: FileFormat, v: FileFormat) -> bool {
    match f {
        FileFormat::AdvancedSystemsFormat => asf_family(v),
        FileFormat::CompoundFileBinary => cfb_family(v),
        FileFormat::ExtensibleBinaryMetaLanguage => ebml_family(v),
        FileFormat::MsDosExecutable => exe_family(v),
        FileFormat::Id3v2 => id3_family(v),
        FileFormat::Mpeg4Part14 => mp4_family(v),
        FileFormat::PortableDocumentFormat => pdf_family(v),
        FileFormat::Realmedia => rm_family(v),
        FileFormat::Sqlite3 => sqlite_family(v),
        FileFormat::ExtensibleMarkupLanguage => xml_family(v),
        FileFormat::Zip => zip_family(v),
        _ => v == f,
    }
}
%spec generic core ~txt
pub open spec fn generic_spec(d: Seq<u8>) -> FileFormat {
    match txt_spec(d) { Some(f) => f, None => FileFormat::ArbitraryBinaryData }
}
pub open spec fn generic_family(f: FileFormat) -> bool { txt_family(f) || f == FileFormat::ArbitraryBinaryData }
%spec signature core
pub uninterp spec fn sig_spec(h: Seq<u8>) -> Option<FileFormat>;
%spec verdict core
/// What from_reader makes of a content from a position on, as every operation it uses is determined
/// by content and position (see the det contracts).
pub uninterp spec fn verdict_at(d: Seq<u8>, p: int) -> FileFormat;
%spec detect signature ~verdict ~dispatch ~generic
/// The part of the content signatures are looked for in.
pub open spec fn head_of(d: Seq<u8>) -> Seq<u8> { bytes_at(d, 0, avail(d, 0, HEAD_LEN)) }
/// The verdict on a content.
pub open spec fn detect(d: Seq<u8>) -> FileFormat {
    if d.len() == 0 { FileFormat::Empty } else {
        match sig_spec(head_of(d)) {
            None => generic_spec(d),
            Some(f) => match fmt_spec(f, d) { Some(v) => v, None => generic_spec(d) },
        }
    }
}
/// The verdicts that are possible for a content when the source may fail after its head was read.
pub open spec fn possible(d: Seq<u8>, v: FileFormat) -> bool {
    v == detect(d) || d.len() > 0 && (v == generic_spec(d) || v == FileFormat::ArbitraryBinaryData)
}
/// The documented verdicts for a content.
pub open spec fn documented(d: Seq<u8>, v: FileFormat) -> bool {
    if d.len() == 0 { v == FileFormat::Empty } else {
        generic_family(v) || (sig_spec(head_of(d)) is Some && fmt_family(sig_spec(head_of(d))->Some_0, v))
    }
}

%fn default
ens[*] r == FileFormat::ArbitraryBinaryData
%end

%fn from_signature signature
ens[*] r == sig_spec($0@)
%end

%fn from_fmt_reader dispatch
req[*] old($1).wf()
req[det] !old($1).lost()
ens[*] final($1).same(old($1))
ens[cost] final($1).cost() <= old($1).cost() + 256_000_000
ens[family] r is Ok ==> fmt_family($0, r->Ok_0)
ens[func] r is Ok ==> fmt_spec($0, old($1).data()) == Some(r->Ok_0)
ens[func] r is Err && old($1).reliable() ==> fmt_spec($0, old($1).data()) is None
%end

%fn from_generic_reader generic
req[*] old($0).wf()
ens[*] final($0).same(old($0))
ens[cost] final($0).cost() <= old($0).cost() + 1_000_000
ens[family] generic_family(r)
ens[func] r == generic_spec(${d}) || (!old($0).reliable() && r == FileFormat::ArbitraryBinaryData)
%end

%fn from_reader detect
req[*] old($0).wf()
req[func,family] old($0).pos() == 0
req[det] !old($0).lost()
req[head] old($0).head_left() == HEAD_LEN, old($0).head_err() is None
ens[*] final($0).same(old($0))
ens[cost] final($0).cost() <= old($0).cost() + 268_435_456
ens[family] r is Ok ==> documented(${d}, r->Ok_0)
ens[family,det,head] old($0).reliable() ==> r is Ok
given[det] old($0).reliable() ==> r is Ok && r->Ok_0 == verdict_at(${d}, old($0).pos())
ens[func] r is Ok ==> possible(${d}, r->Ok_0)
ens[func] old($0).reliable() ==> r is Ok && r->Ok_0 == detect(${d})
ens[head] (r is Err) == (final($0).head_err() is Some), r is Err ==> final($0).head_err() == Some(r->Err_0.eid())
%end

%fn from detect
ens[det] r == verdict_at($0@, 0)
ens[func] r == detect($0@)
ens[family] documented($0@, r)
%end

%fn from_bytes detect
ens[det] r == verdict_at($0@, 0)
ens[func] r == detect($0@)
ens[family] documented($0@, r)
%end

%fn from_file detect
ens[det] $0.opens() && $0.healthy() ==> r is Ok && r->Ok_0 == verdict_at($0.content(), 0)
ens[*] !$0.opens() ==> r is Err
ens[head] r is Err ==> !$0.opens() || !$0.healthy()
ens[func] r is Ok ==> possible($0.content(), r->Ok_0)
ens[func] $0.opens() && $0.healthy() ==> r is Ok && r->Ok_0 == detect($0.content())
ens[family] r is Ok ==> documented($0.content(), r->Ok_0)
%end
