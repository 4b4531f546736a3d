%spec cfb guid
/// The published class identifiers.
pub open spec fn cfb_class(c: Seq<char>) -> Option<FileFormat> {
    if c == "e60f81e1-49b3-11d0-93c3-7e0706000000" { Some(FileFormat::AutodeskInventorAssembly) }
    else if c == "bbf9fdf1-52dc-11d0-8c04-0800090be8ec" { Some(FileFormat::AutodeskInventorDrawing) }
    else if c == "4d29b490-49b2-11d0-93c3-7e0706000000" { Some(FileFormat::AutodeskInventorPart) }
    else if c == "76283a80-50dd-11d3-a7e3-00c04f79d7bc" { Some(FileFormat::AutodeskInventorPresentation) }
    else if c == "402efe62-1999-101b-99ae-04021c007002" { Some(FileFormat::CorelPresentations7) }
    else if c == "597caa70-72aa-11cf-831e-524153480000" { Some(FileFormat::FlashProject) }
    else if c == "b4f235fe-dca6-4803-b7b2-c25a453c836b" { Some(FileFormat::FlashProject) }
    else if c == "00020810-0000-0000-c000-000000000046" { Some(FileFormat::MicrosoftExcelSpreadsheet) }
    else if c == "00020820-0000-0000-c000-000000000046" { Some(FileFormat::MicrosoftExcelSpreadsheet) }
    else if c == "00044851-0000-0000-c000-000000000046" { Some(FileFormat::MicrosoftPowerpointPresentation) }
    else if c == "64818d10-4f9b-11cf-86ea-00aa00b929e8" { Some(FileFormat::MicrosoftPowerpointPresentation) }
    else if c == "ea7bae70-fb3b-11cd-a903-00aa00510ea3" { Some(FileFormat::MicrosoftPowerpointPresentation) }
    else if c == "74b78f3a-c8c8-11d1-be11-00c04fb6faf1" { Some(FileFormat::MicrosoftProjectPlan) }
    else if c == "00021201-0000-0000-00c0-000000000046" { Some(FileFormat::MicrosoftPublisherDocument) }
    else if c == "000c1084-0000-0000-c000-000000000046" { Some(FileFormat::MicrosoftSoftwareInstaller) }
    else if c == "00021a13-0000-0000-c000-000000000046" { Some(FileFormat::MicrosoftVisioDrawing) }
    else if c == "00021a14-0000-0000-c000-000000000046" { Some(FileFormat::MicrosoftVisioDrawing) }
    else if c == "00020900-0000-0000-c000-000000000046" { Some(FileFormat::MicrosoftWordDocument) }
    else if c == "00020906-0000-0000-c000-000000000046" { Some(FileFormat::MicrosoftWordDocument) }
    else if c == "00021303-0000-0000-c000-000000000046" { Some(FileFormat::MicrosoftWorksDatabase) }
    else if c == "28cddbc3-0ae2-11ce-a29a-00aa004a1a72" { Some(FileFormat::MicrosoftWorksDatabase) }
    else if c == "00021302-0000-0000-c000-000000000046" { Some(FileFormat::MicrosoftWorksWordProcessor) }
    else if c == "0ea45ab2-9e0a-11d1-a407-00c04fb932ba" { Some(FileFormat::MicrosoftWorksWordProcessor) }
    else if c == "28cddbc2-0ae2-11ce-a29a-00aa004a1a72" { Some(FileFormat::MicrosoftWorksWordProcessor) }
    else if c == "83a33d36-27c5-11ce-bfd4-00400513bb57" { Some(FileFormat::SolidworksAssembly) }
    else if c == "83a33d34-27c5-11ce-bfd4-00400513bb57" { Some(FileFormat::SolidworksDrawing) }
    else if c == "83a33d30-27c5-11ce-bfd4-00400513bb57" { Some(FileFormat::SolidworksPart) }
    else if c == "3f543fa0-b6a6-101b-9961-04021c007002" { Some(FileFormat::Starcalc) }
    else if c == "6361d441-4235-11d0-89cb-008029e4b0b1" { Some(FileFormat::Starcalc) }
    else if c == "c6a5b861-85d6-11d1-89cb-008029e4b0b1" { Some(FileFormat::Starcalc) }
    else if c == "02b3b7e0-4225-11d0-89ca-008029e4b0b1" { Some(FileFormat::Starchart) }
    else if c == "bf884321-85dd-11d1-89d0-008029e4b0b1" { Some(FileFormat::Starchart) }
    else if c == "fb9c99e0-2c6d-101c-8e2c-00001b4cc711" { Some(FileFormat::Starchart) }
    else if c == "2e8905a0-85bd-11d1-89d0-008029e4b0b1" { Some(FileFormat::Stardraw) }
    else if c == "af10aae0-b36d-101b-9961-04021c007002" { Some(FileFormat::Stardraw) }
    else if c == "012d3cc0-4216-11d0-89cb-008029e4b0b1" { Some(FileFormat::Starimpress) }
    else if c == "565c7221-85bc-11d1-89d0-008029e4b0b1" { Some(FileFormat::Starimpress) }
    else if c == "02b3b7e1-4225-11d0-89ca-008029e4b0b1" { Some(FileFormat::Starmath) }
    else if c == "d4590460-35fd-101c-b12a-04021c007002" { Some(FileFormat::Starmath) }
    else if c == "ffb5e640-85de-11d1-89d0-008029e4b0b1" { Some(FileFormat::Starmath) }
    else if c == "8b04e9b0-420e-11d0-a45e-00a0249d57b1" { Some(FileFormat::Starwriter) }
    else if c == "c20cf9d1-85ae-11d1-aab4-006097da561a" { Some(FileFormat::Starwriter) }
    else if c == "dc5c7e40-b35c-101b-9961-04021c007002" { Some(FileFormat::Starwriter) }
    else if c == "1cdd8c7b-81c0-45a0-9fed-04143144cc1e" { Some(FileFormat::ThreeDimensionalStudioMax) }
    else if c == "519873ff-2dad-0220-1937-0000929679cd" { Some(FileFormat::WordperfectDocument) }
    else if c == "402efe60-1999-101b-99ae-04021c007002" { Some(FileFormat::WordperfectGraphics) }
    else { None }
}
pub open spec fn cfb_spec(d: Seq<u8>) -> Option<FileFormat> {
    if !can_read(d, 26, 2) || !can_read(d, 48, 4) { None } else {
        // start of the root directory entry
        let e = (if le16(d, 26) == 3 { 512int } else { 4096int }) * (1 + le32(d, 48));
        if !can_read(d, e + 80, 16) { None } else {
            match cfb_class(guid_str(bytes_at(d, e + 80, 16))) {
                Some(f) => Some(f),
                None => {
                    if !can_read(d, e + 128, 64) { None }
                    else if seq_starts(bytes_at(d, e + 128, 64), b"M\0a\0t\0O\0S\0T\0") { Some(FileFormat::MicrosoftWorksWordProcessor) }
                    else if !can_read(d, e + 256, 64) { None }
                    else if seq_starts(bytes_at(d, e + 256, 64), b"W\x00k\x00s\x00S\x00S\x00W\x00o\x00r\x00k\x00B\x00o\x00o\x00k\x00") { Some(FileFormat::MicrosoftWorks6Spreadsheet) }
                    else { Some(FileFormat::CompoundFileBinary) }
                }
            }
        }
    }
}
pub open spec fn cfb_family(f: FileFormat) -> bool {
    f == FileFormat::AutodeskInventorAssembly || f == FileFormat::AutodeskInventorDrawing || f == FileFormat::AutodeskInventorPart || f == FileFormat::AutodeskInventorPresentation || f == FileFormat::CompoundFileBinary || f == FileFormat::CorelPresentations7 || f == FileFormat::FlashProject || f == FileFormat::MicrosoftExcelSpreadsheet || f == FileFormat::MicrosoftPowerpointPresentation || f == FileFormat::MicrosoftProjectPlan || f == FileFormat::MicrosoftPublisherDocument || f == FileFormat::MicrosoftSoftwareInstaller || f == FileFormat::MicrosoftVisioDrawing || f == FileFormat::MicrosoftWordDocument || f == FileFormat::MicrosoftWorks6Spreadsheet || f == FileFormat::MicrosoftWorksDatabase || f == FileFormat::MicrosoftWorksWordProcessor || f == FileFormat::SolidworksAssembly || f == FileFormat::SolidworksDrawing || f == FileFormat::SolidworksPart || f == FileFormat::Starcalc || f == FileFormat::Starchart || f == FileFormat::Stardraw || f == FileFormat::Starimpress || f == FileFormat::Starmath || f == FileFormat::Starwriter || f == FileFormat::ThreeDimensionalStudioMax || f == FileFormat::WordperfectDocument || f == FileFormat::WordperfectGraphics
}
%fn from_cfb_reader cfb
req[*] old($0).wf()
req[det] !old($0).lost()
ens[*] final($0).same(old($0))
ens[cost] final($0).cost() <= old($0).cost() + 60_000
ens[family] r is Ok ==> cfb_family(r->Ok_0)
ens[func] r is Ok ==> cfb_spec(${d}) == Some(r->Ok_0)
ens[func] r is Err && old($0).reliable() ==> cfb_spec(${d}) is None
%end
