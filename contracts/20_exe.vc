%spec exe core
pub open spec fn exe_spec(d: Seq<u8>) -> Option<FileFormat> {
    if !can_read(d, 60, 4) { None } else {
        let o = le32(d, 60);
        if o + 4 < d.len() {
            if bytes_at(d, o, 4) == b"PE\0\0" {
                if !can_read(d, o + 22, 2) { None }
                else if (le16(d, o + 22) / 0x2000) % 2 == 1 { Some(FileFormat::DynamicLinkLibrary) }
                else { Some(FileFormat::PortableExecutable) }
            } else if bytes_at(d, o, 2) == b"LE" || bytes_at(d, o, 2) == b"LX" { Some(FileFormat::LinearExecutable) }
            else if bytes_at(d, o, 2) == b"NE" { Some(FileFormat::NewExecutable) }
            else { Some(FileFormat::MsDosExecutable) }
        } else { Some(FileFormat::MsDosExecutable) }
    }
}
pub open spec fn exe_family(f: FileFormat) -> bool {
    f == FileFormat::MsDosExecutable || f == FileFormat::DynamicLinkLibrary || f == FileFormat::PortableExecutable || f == FileFormat::LinearExecutable || f == FileFormat::NewExecutable
}
%fn from_exe_reader exe
req[*] old($0).wf()
req[det] !old($0).lost()
ens[*] final($0).same(old($0))
ens[cost] final($0).cost() <= old($0).cost() + 60_000
ens[family] r is Ok ==> exe_family(r->Ok_0)
ens[func] r is Ok ==> exe_spec(${d}) == Some(r->Ok_0)
ens[func] r is Err && old($0).reliable() ==> exe_spec(${d}) is None
%end
