//! Published tables. Written by tool/gen_witness.py from pinned/ and contracts/.
#![cfg_attr(rustfmt, rustfmt_skip)]
pub type Part = (usize, &'static [u8]);
pub static SIGNATURES: &[(&str, &[&[Part]])] = &[
("MicrosoftVisualStudioSolution", &[&[(0, b"\xef\xbb\xbf\x0d\x0a\x4d\x69\x63\x72\x6f\x73\x6f\x66\x74\x20\x56\x69\x73\x75\x61\x6c\x20\x53\x74\x75\x64\x69\x6f\x20\x53\x6f\x6c\x75\x74\x69\x6f\x6e\x20\x46\x69\x6c\x65\x2c\x20\x46\x6f\x72\x6d\x61\x74\x20\x56\x65\x72\x73\x69\x6f\x6e\x20")], &[(0, b"\xef\xbb\xbf\x0a\x4d\x69\x63\x72\x6f\x73\x6f\x66\x74\x20\x56\x69\x73\x75\x61\x6c\x20\x53\x74\x75\x64\x69\x6f\x20\x53\x6f\x6c\x75\x74\x69\x6f\x6e\x20\x46\x69\x6c\x65\x2c\x20\x46\x6f\x72\x6d\x61\x74\x20\x56\x65\x72\x73\x69\x6f\x6e\x20")], &[(0, b"\x4d\x69\x63\x72\x6f\x73\x6f\x66\x74\x20\x56\x69\x73\x75\x61\x6c\x20\x53\x74\x75\x64\x69\x6f\x20\x53\x6f\x6c\x75\x74\x69\x6f\x6e\x20\x46\x69\x6c\x65\x2c\x20\x46\x6f\x72\x6d\x61\x74\x20\x56\x65\x72\x73\x69\x6f\x6e\x20")]]),
("Abiword", &[&[(0, b"\xef\xbb\xbf\x3c\x21\x44\x4f\x43\x54\x59\x50\x45\x20\x61\x62\x69\x77\x6f\x72\x64\x20\x50\x55\x42\x4c\x49\x43"), (102, b"\x3c\x61\x62\x69\x77\x6f\x72\x64\x20\x74\x65\x6d\x70\x6c\x61\x74\x65\x3d\x22\x66\x61\x6c\x73\x65\x22")], &[(0, b"\x3c\x21\x44\x4f\x43\x54\x59\x50\x45\x20\x61\x62\x69\x77\x6f\x72\x64\x20\x50\x55\x42\x4c\x49\x43"), (102, b"\x3c\x61\x62\x69\x77\x6f\x72\x64\x20\x74\x65\x6d\x70\x6c\x61\x74\x65\x3d\x22\x66\x61\x6c\x73\x65\x22")], &[(0, b"\xef\xbb\xbf\x3c\x61\x62\x69\x77\x6f\x72\x64\x20\x74\x65\x6d\x70\x6c\x61\x74\x65\x3d\x22\x66\x61\x6c\x73\x65\x22")], &[(0, b"\x3c\x61\x62\x69\x77\x6f\x72\x64\x20\x74\x65\x6d\x70\x6c\x61\x74\x65\x3d\x22\x66\x61\x6c\x73\x65\x22")]]),
("AbiwordTemplate", &[&[(0, b"\xef\xbb\xbf\x3c\x21\x44\x4f\x43\x54\x59\x50\x45\x20\x61\x62\x69\x77\x6f\x72\x64\x20\x50\x55\x42\x4c\x49\x43"), (102, b"\x3c\x61\x62\x69\x77\x6f\x72\x64\x20\x74\x65\x6d\x70\x6c\x61\x74\x65\x3d\x22\x74\x72\x75\x65\x22")], &[(0, b"\x3c\x21\x44\x4f\x43\x54\x59\x50\x45\x20\x61\x62\x69\x77\x6f\x72\x64\x20\x50\x55\x42\x4c\x49\x43"), (102, b"\x3c\x61\x62\x69\x77\x6f\x72\x64\x20\x74\x65\x6d\x70\x6c\x61\x74\x65\x3d\x22\x74\x72\x75\x65\x22")], &[(0, b"\xef\xbb\xbf\x3c\x61\x62\x69\x77\x6f\x72\x64\x20\x74\x65\x6d\x70\x6c\x61\x74\x65\x3d\x22\x74\x72\x75\x65\x22")], &[(0, b"\x3c\x61\x62\x69\x77\x6f\x72\x64\x20\x74\x65\x6d\x70\x6c\x61\x74\x65\x3d\x22\x74\x72\x75\x65\x22")]]),
("JsonFeed", &[&[(0, b"\x7b\x0d\x0a\x20\x20\x20\x20\x22\x76\x65\x72\x73\x69\x6f\x6e\x22\x3a\x20\x22\x68\x74\x74\x70\x73\x3a\x2f\x2f\x6a\x73\x6f\x6e\x66\x65\x65\x64\x2e\x6f\x72\x67\x2f\x76\x65\x72\x73\x69\x6f\x6e\x2f")], &[(0, b"\x7b\x0a\x20\x20\x20\x20\x22\x76\x65\x72\x73\x69\x6f\x6e\x22\x3a\x20\x22\x68\x74\x74\x70\x73\x3a\x2f\x2f\x6a\x73\x6f\x6e\x66\x65\x65\x64\x2e\x6f\x72\x67\x2f\x76\x65\x72\x73\x69\x6f\x6e\x2f")], &[(0, b"\x7b\x0d\x20\x20\x20\x20\x22\x76\x65\x72\x73\x69\x6f\x6e\x22\x3a\x20\x22\x68\x74\x74\x70\x73\x3a\x2f\x2f\x6a\x73\x6f\x6e\x66\x65\x65\x64\x2e\x6f\x72\x67\x2f\x76\x65\x72\x73\x69\x6f\x6e\x2f")], &[(0, b"\x7b\x0d\x0a\x20\x20\x22\x76\x65\x72\x73\x69\x6f\x6e\x22\x3a\x20\x22\x68\x74\x74\x70\x73\x3a\x2f\x2f\x6a\x73\x6f\x6e\x66\x65\x65\x64\x2e\x6f\x72\x67\x2f\x76\x65\x72\x73\x69\x6f\x6e\x2f")], &[(0, b"\x7b\x0d\x0a\x09\x22\x76\x65\x72\x73\x69\x6f\x6e\x22\x3a\x20\x22\x68\x74\x74\x70\x73\x3a\x2f\x2f\x6a\x73\x6f\x6e\x66\x65\x65\x64\x2e\x6f\x72\x67\x2f\x76\x65\x72\x73\x69\x6f\x6e\x2f")], &[(0, b"\x7b\x0a\x20\x20\x22\x76\x65\x72\x73\x69\x6f\x6e\x22\x3a\x20\x22\x68\x74\x74\x70\x73\x3a\x2f\x2f\x6a\x73\x6f\x6e\x66\x65\x65\x64\x2e\x6f\x72\x67\x2f\x76\x65\x72\x73\x69\x6f\x6e\x2f")], &[(0, b"\x7b\x0a\x09\x22\x76\x65\x72\x73\x69\x6f\x6e\x22\x3a\x20\x22\x68\x74\x74\x70\x73\x3a\x2f\x2f\x6a\x73\x6f\x6e\x66\x65\x65\x64\x2e\x6f\x72\x67\x2f\x76\x65\x72\x73\x69\x6f\x6e\x2f")], &[(0, b"\x7b\x0d\x20\x20\x22\x76\x65\x72\x73\x69\x6f\x6e\x22\x3a\x20\x22\x68\x74\x74\x70\x73\x3a\x2f\x2f\x6a\x73\x6f\x6e\x66\x65\x65\x64\x2e\x6f\x72\x67\x2f\x76\x65\x72\x73\x69\x6f\x6e\x2f")], &[(0, b"\x7b\x0d\x09\x22\x76\x65\x72\x73\x69\x6f\x6e\x22\x3a\x20\x22\x68\x74\x74\x70\x73\x3a\x2f\x2f\x6a\x73\x6f\x6e\x66\x65\x65\x64\x2e\x6f\x72\x67\x2f\x76\x65\x72\x73\x69\x6f\x6e\x2f")], &[(0, b"\x7b\x22\x76\x65\x72\x73\x69\x6f\x6e\x22\x3a\x22\x68\x74\x74\x70\x73\x3a\x2f\x2f\x6a\x73\x6f\x6e\x66\x65\x65\x64\x2e\x6f\x72\x67\x2f\x76\x65\x72\x73\x69\x6f\x6e\x2f")]]),
("TimedTextMarkupLanguage", &[&[(0, b"\xef\xbb\xbf\x3c\x74\x74\x20\x78\x6d\x6c\x6e\x73\x3d\x22\x68\x74\x74\x70\x3a\x2f\x2f\x77\x77\x77\x2e\x77\x33\x2e\x6f\x72\x67\x2f\x6e\x73\x2f\x74\x74\x6d\x6c\x22")], &[(0, b"\x3c\x74\x74\x20\x78\x6d\x6c\x6e\x73\x3d\x22\x68\x74\x74\x70\x3a\x2f\x2f\x77\x77\x77\x2e\x77\x33\x2e\x6f\x72\x67\x2f\x6e\x73\x2f\x74\x74\x6d\x6c\x22")]]),
("VirtualboxVirtualDiskImage", &[&[(0, b"\x3c\x3c\x3c\x20\x4f\x72\x61\x63\x6c\x65\x20\x56\x4d\x20\x56\x69\x72\x74\x75\x61\x6c\x42\x6f\x78\x20\x44\x69\x73\x6b\x20\x49\x6d\x61\x67\x65\x20\x3e\x3e\x3e")]]),
("PemPrivateKey", &[&[(0, b"\x2d\x2d\x2d\x2d\x2d\x42\x45\x47\x49\x4e\x20\x45\x4e\x43\x52\x59\x50\x54\x45\x44\x20\x50\x52\x49\x56\x41\x54\x45\x20\x4b\x45\x59\x2d\x2d\x2d\x2d\x2d")], &[(0, b"\x2d\x2d\x2d\x2d\x2d\x42\x45\x47\x49\x4e\x20\x45\x43\x44\x53\x41\x20\x50\x52\x49\x56\x41\x54\x45\x20\x4b\x45\x59\x2d\x2d\x2d\x2d\x2d")], &[(0, b"\x2d\x2d\x2d\x2d\x2d\x42\x45\x47\x49\x4e\x20\x44\x53\x41\x20\x50\x52\x49\x56\x41\x54\x45\x20\x4b\x45\x59\x2d\x2d\x2d\x2d\x2d")], &[(0, b"\x2d\x2d\x2d\x2d\x2d\x42\x45\x47\x49\x4e\x20\x52\x53\x41\x20\x50\x52\x49\x56\x41\x54\x45\x20\x4b\x45\x59\x2d\x2d\x2d\x2d\x2d")], &[(0, b"\x2d\x2d\x2d\x2d\x2d\x42\x45\x47\x49\x4e\x20\x45\x43\x20\x50\x52\x49\x56\x41\x54\x45\x20\x4b\x45\x59\x2d\x2d\x2d\x2d\x2d")], &[(0, b"\x2d\x2d\x2d\x2d\x2d\x42\x45\x47\x49\x4e\x20\x50\x52\x49\x56\x41\x54\x45\x20\x4b\x45\x59\x2d\x2d\x2d\x2d\x2d")]]),
("PgpPrivateKeyBlock", &[&[(0, b"\x2d\x2d\x2d\x2d\x2d\x42\x45\x47\x49\x4e\x20\x50\x47\x50\x20\x50\x52\x49\x56\x41\x54\x45\x20\x4b\x45\x59\x20\x42\x4c\x4f\x43\x4b\x2d\x2d\x2d\x2d\x2d")]]),
("PgpPublicKeyBlock", &[&[(0, b"\x2d\x2d\x2d\x2d\x2d\x42\x45\x47\x49\x4e\x20\x50\x47\x50\x20\x50\x55\x42\x4c\x49\x43\x20\x4b\x45\x59\x20\x42\x4c\x4f\x43\x4b\x2d\x2d\x2d\x2d\x2d")]]),
("PemCertificateSigningRequest", &[&[(0, b"\x2d\x2d\x2d\x2d\x2d\x42\x45\x47\x49\x4e\x20\x43\x45\x52\x54\x49\x46\x49\x43\x41\x54\x45\x20\x52\x45\x51\x55\x45\x53\x54\x2d\x2d\x2d\x2d\x2d")]]),
("PgpSignedMessage", &[&[(0, b"\x2d\x2d\x2d\x2d\x2d\x42\x45\x47\x49\x4e\x20\x50\x47\x50\x20\x53\x49\x47\x4e\x45\x44\x20\x4d\x45\x53\x53\x41\x47\x45\x2d\x2d\x2d\x2d\x2d")]]),
("MicrosoftReader", &[&[(0, b"\x49\x54\x4f\x4c\x49\x54\x4c\x53\x01\x00\x00\x00\x28\x00\x00\x00"), (24, b"\xc1\x07\x90\x0a\x76\x40\xd3\x11\x87\x89\x00\x00\xf8\x10\x57\x54")]]),
("PemPublicKey", &[&[(0, b"\x2d\x2d\x2d\x2d\x2d\x42\x45\x47\x49\x4e\x20\x45\x43\x44\x53\x41\x20\x50\x55\x42\x4c\x49\x43\x20\x4b\x45\x59\x2d\x2d\x2d\x2d\x2d")], &[(0, b"\x2d\x2d\x2d\x2d\x2d\x42\x45\x47\x49\x4e\x20\x44\x53\x41\x20\x50\x55\x42\x4c\x49\x43\x20\x4b\x45\x59\x2d\x2d\x2d\x2d\x2d")], &[(0, b"\x2d\x2d\x2d\x2d\x2d\x42\x45\x47\x49\x4e\x20\x52\x53\x41\x20\x50\x55\x42\x4c\x49\x43\x20\x4b\x45\x59\x2d\x2d\x2d\x2d\x2d")], &[(0, b"\x2d\x2d\x2d\x2d\x2d\x42\x45\x47\x49\x4e\x20\x45\x43\x20\x50\x55\x42\x4c\x49\x43\x20\x4b\x45\x59\x2d\x2d\x2d\x2d\x2d")], &[(0, b"\x2d\x2d\x2d\x2d\x2d\x42\x45\x47\x49\x4e\x20\x50\x55\x42\x4c\x49\x43\x20\x4b\x45\x59\x2d\x2d\x2d\x2d\x2d")]]),
("PolygonBinary", &[&[(0, b"\x70\x6c\x79\x0d\x0a\x66\x6f\x72\x6d\x61\x74\x20\x62\x69\x6e\x61\x72\x79\x5f\x6c\x69\x74\x74\x6c\x65\x5f\x65\x6e\x64\x69\x61\x6e")], &[(0, b"\x70\x6c\x79\x0a\x66\x6f\x72\x6d\x61\x74\x20\x62\x69\x6e\x61\x72\x79\x5f\x6c\x69\x74\x74\x6c\x65\x5f\x65\x6e\x64\x69\x61\x6e")], &[(0, b"\x70\x6c\x79\x0d\x66\x6f\x72\x6d\x61\x74\x20\x62\x69\x6e\x61\x72\x79\x5f\x6c\x69\x74\x74\x6c\x65\x5f\x65\x6e\x64\x69\x61\x6e")], &[(0, b"\x70\x6c\x79\x0d\x0a\x66\x6f\x72\x6d\x61\x74\x20\x62\x69\x6e\x61\x72\x79\x5f\x62\x69\x67\x5f\x65\x6e\x64\x69\x61\x6e")], &[(0, b"\x70\x6c\x79\x0a\x66\x6f\x72\x6d\x61\x74\x20\x62\x69\x6e\x61\x72\x79\x5f\x62\x69\x67\x5f\x65\x6e\x64\x69\x61\x6e")], &[(0, b"\x70\x6c\x79\x0d\x66\x6f\x72\x6d\x61\x74\x20\x62\x69\x6e\x61\x72\x79\x5f\x62\x69\x67\x5f\x65\x6e\x64\x69\x61\x6e")]]),
("Sketchup", &[&[(0, b"\xff\xfe\xff\x0e\x53\x00\x6b\x00\x65\x00\x74\x00\x63\x00\x68\x00\x55\x00\x70\x00\x20\x00\x4d\x00\x6f\x00\x64\x00\x65\x00\x6c\x00")]]),
("FlexibleImageTransportSystem", &[&[(0, b"\x53\x49\x4d\x50\x4c\x45\x20\x20\x3d\x20\x20\x20\x20\x20\x20\x20\x20\x20\x20\x20\x20\x20\x20\x20\x20\x20\x20\x20\x20\x54")]]),
("NeoGeoPocketColorRom", &[&[(0, b"\x20\x4c\x49\x43\x45\x4e\x53\x45\x44\x20\x42\x59\x20\x53\x4e\x4b\x20\x43\x4f\x52\x50\x4f\x52\x41\x54\x49\x4f\x4e"), (35, b"\x10")], &[(0, b"\x43\x4f\x50\x59\x52\x49\x47\x48\x54\x20\x42\x59\x20\x53\x4e\x4b\x20\x43\x4f\x52\x50\x4f\x52\x41\x54\x49\x4f\x4e"), (35, b"\x10")]]),
("PgpSignature", &[&[(0, b"\x2d\x2d\x2d\x2d\x2d\x42\x45\x47\x49\x4e\x20\x50\x47\x50\x20\x53\x49\x47\x4e\x41\x54\x55\x52\x45\x2d\x2d\x2d\x2d\x2d")]]),
("NeoGeoPocketRom", &[&[(0, b"\x20\x4c\x49\x43\x45\x4e\x53\x45\x44\x20\x42\x59\x20\x53\x4e\x4b\x20\x43\x4f\x52\x50\x4f\x52\x41\x54\x49\x4f\x4e")], &[(0, b"\x43\x4f\x50\x59\x52\x49\x47\x48\x54\x20\x42\x59\x20\x53\x4e\x4b\x20\x43\x4f\x52\x50\x4f\x52\x41\x54\x49\x4f\x4e")]]),
("Vcalendar", &[&[(0, b"\x42\x45\x47\x49\x4e\x3a\x56\x43\x41\x4c\x45\x4e\x44\x41\x52\x0d\x0a\x56\x45\x52\x53\x49\x4f\x4e\x3a\x31\x2e\x30")], &[(0, b"\x42\x45\x47\x49\x4e\x3a\x56\x43\x41\x4c\x45\x4e\x44\x41\x52\x0a\x56\x45\x52\x53\x49\x4f\x4e\x3a\x31\x2e\x30")], &[(0, b"\x42\x45\x47\x49\x4e\x3a\x56\x43\x41\x4c\x45\x4e\x44\x41\x52\x0d\x56\x45\x52\x53\x49\x4f\x4e\x3a\x31\x2e\x30")]]),
("PemCertificate", &[&[(0, b"\x2d\x2d\x2d\x2d\x2d\x42\x45\x47\x49\x4e\x20\x43\x45\x52\x54\x49\x46\x49\x43\x41\x54\x45\x2d\x2d\x2d\x2d\x2d")]]),
("PgpMessage", &[&[(0, b"\x2d\x2d\x2d\x2d\x2d\x42\x45\x47\x49\x4e\x20\x50\x47\x50\x20\x4d\x45\x53\x53\x41\x47\x45\x2d\x2d\x2d\x2d\x2d")]]),
("TrainingCenterXml", &[&[(0, b"\xef\xbb\xbf\x3c\x54\x72\x61\x69\x6e\x69\x6e\x67\x43\x65\x6e\x74\x65\x72\x44\x61\x74\x61\x62\x61\x73\x65")], &[(0, b"\x3c\x54\x72\x61\x69\x6e\x69\x6e\x67\x43\x65\x6e\x74\x65\x72\x44\x61\x74\x61\x62\x61\x73\x65")]]),
("ClojureScript", &[&[(0, b"\x23\x21\x2f\x75\x73\x72\x2f\x6c\x6f\x63\x61\x6c\x2f\x62\x69\x6e\x2f\x63\x6c\x6f\x6a\x75\x72\x65")], &[(0, b"\x23\x21\x2f\x75\x73\x72\x2f\x62\x69\x6e\x2f\x65\x6e\x76\x20\x63\x6c\x6f\x6a\x75\x72\x65")], &[(0, b"\x23\x21\x2f\x75\x73\x72\x2f\x6c\x6f\x63\x61\x6c\x2f\x62\x69\x6e\x2f\x63\x6c\x6a")], &[(0, b"\x23\x21\x2f\x75\x73\x72\x2f\x62\x69\x6e\x2f\x63\x6c\x6f\x6a\x75\x72\x65")], &[(0, b"\x23\x21\x2f\x75\x73\x72\x2f\x62\x69\x6e\x2f\x65\x6e\x76\x20\x63\x6c\x6a")], &[(0, b"\x23\x21\x2f\x75\x73\x72\x2f\x62\x69\x6e\x2f\x63\x6c\x6a")]]),
("MathematicalMarkupLanguage", &[&[(0, b"\xef\xbb\xbf\x3c\x21\x44\x4f\x43\x54\x59\x50\x45\x20\x6d\x61\x74\x68\x20\x50\x55\x42\x4c\x49\x43")], &[(0, b"\x3c\x21\x44\x4f\x43\x54\x59\x50\x45\x20\x6d\x61\x74\x68\x20\x50\x55\x42\x4c\x49\x43")], &[(0, b"\xef\xbb\xbf\x3c\x6d\x61\x74\x68")], &[(0, b"\x3c\x6d\x61\x74\x68")]]),
("Extensible3d", &[&[(0, b"\xef\xbb\xbf\x3c\x21\x44\x4f\x43\x54\x59\x50\x45\x20\x58\x33\x44\x20\x50\x55\x42\x4c\x49\x43")], &[(0, b"\x3c\x21\x44\x4f\x43\x54\x59\x50\x45\x20\x58\x33\x44\x20\x50\x55\x42\x4c\x49\x43")], &[(0, b"\xef\xbb\xbf\x3c\x58\x33\x44")], &[(0, b"\xef\xbb\xbf\x3c\x78\x33\x64")], &[(0, b"\x3c\x58\x33\x44")], &[(0, b"\x3c\x78\x33\x64")]]),
("Opennurbs", &[&[(0, b"\x33\x44\x20\x47\x65\x6f\x6d\x65\x74\x72\x79\x20\x46\x69\x6c\x65\x20\x46\x6f\x72\x6d\x61\x74")]]),
("PythonScript", &[&[(0, b"\x23\x21\x2f\x75\x73\x72\x2f\x6c\x6f\x63\x61\x6c\x2f\x62\x69\x6e\x2f\x70\x79\x74\x68\x6f\x6e")], &[(0, b"\x23\x21\x2f\x75\x73\x72\x2f\x62\x69\x6e\x2f\x65\x6e\x76\x20\x70\x79\x74\x68\x6f\x6e")], &[(0, b"\x23\x21\x2f\x75\x73\x72\x2f\x62\x69\x6e\x2f\x70\x79\x74\x68\x6f\x6e")]]),
("CreativeVoice", &[&[(0, b"\x43\x72\x65\x61\x74\x69\x76\x65\x20\x56\x6f\x69\x63\x65\x20\x46\x69\x6c\x65\x1a\x1a\x00")]]),
("ToolCommandLanguageScript", &[&[(0, b"\x23\x21\x2f\x75\x73\x72\x2f\x6c\x6f\x63\x61\x6c\x2f\x62\x69\x6e\x2f\x74\x63\x6c\x73\x68")], &[(0, b"\x23\x21\x2f\x75\x73\x72\x2f\x6c\x6f\x63\x61\x6c\x2f\x62\x69\x6e\x2f\x77\x69\x73\x68")], &[(0, b"\x23\x21\x2f\x75\x73\x72\x2f\x62\x69\x6e\x2f\x65\x6e\x76\x20\x74\x63\x6c\x73\x68")], &[(0, b"\x23\x21\x2f\x75\x73\x72\x2f\x6c\x6f\x63\x61\x6c\x2f\x62\x69\x6e\x2f\x74\x63\x6c")], &[(0, b"\x23\x21\x2f\x75\x73\x72\x2f\x62\x69\x6e\x2f\x65\x6e\x76\x20\x77\x69\x73\x68")], &[(0, b"\x23\x21\x2f\x75\x73\x72\x2f\x62\x69\x6e\x2f\x65\x6e\x76\x20\x74\x63\x6c")], &[(0, b"\x23\x21\x2f\x75\x73\x72\x2f\x62\x69\x6e\x2f\x74\x63\x6c\x73\x68")], &[(0, b"\x23\x21\x2f\x75\x73\x72\x2f\x62\x69\x6e\x2f\x77\x69\x73\x68")], &[(0, b"\x23\x21\x2f\x75\x73\x72\x2f\x62\x69\x6e\x2f\x74\x63\x6c")]]),
("DebianPackage", &[&[(0, b"\x21\x3c\x61\x72\x63\x68\x3e\x0a\x64\x65\x62\x69\x61\x6e\x2d\x62\x69\x6e\x61\x72\x79")]]),
("Filmbox", &[&[(0, b"\x4b\x61\x79\x64\x61\x72\x61\x20\x46\x42\x58\x20\x42\x69\x6e\x61\x72\x79\x20\x20\x00")]]),
("RubyScript", &[&[(0, b"\x23\x21\x2f\x75\x73\x72\x2f\x6c\x6f\x63\x61\x6c\x2f\x62\x69\x6e\x2f\x72\x75\x62\x79")], &[(0, b"\x23\x21\x2f\x75\x73\x72\x2f\x62\x69\x6e\x2f\x65\x6e\x76\x20\x72\x75\x62\x79")], &[(0, b"\x23\x21\x2f\x75\x73\x72\x2f\x62\x69\x6e\x2f\x72\x75\x62\x79")]]),
("ShellScript", &[&[(0, b"\x23\x21\x2f\x75\x73\x72\x2f\x6c\x6f\x63\x61\x6c\x2f\x62\x69\x6e\x2f\x62\x61\x73\x68")], &[(0, b"\x23\x21\x2f\x75\x73\x72\x2f\x6c\x6f\x63\x61\x6c\x2f\x62\x69\x6e\x2f\x66\x69\x73\x68")], &[(0, b"\x23\x21\x2f\x75\x73\x72\x2f\x6c\x6f\x63\x61\x6c\x2f\x62\x69\x6e\x2f\x74\x63\x73\x68")], &[(0, b"\x23\x21\x2f\x75\x73\x72\x2f\x6c\x6f\x63\x61\x6c\x2f\x62\x69\x6e\x2f\x61\x73\x68")], &[(0, b"\x23\x21\x2f\x75\x73\x72\x2f\x6c\x6f\x63\x61\x6c\x2f\x62\x69\x6e\x2f\x7a\x73\x68")], &[(0, b"\x23\x21\x2f\x75\x73\x72\x2f\x62\x69\x6e\x2f\x65\x6e\x76\x20\x62\x61\x73\x68")], &[(0, b"\x23\x21\x2f\x75\x73\x72\x2f\x62\x69\x6e\x2f\x65\x6e\x76\x20\x66\x69\x73\x68")], &[(0, b"\x23\x21\x2f\x75\x73\x72\x2f\x62\x69\x6e\x2f\x65\x6e\x76\x20\x7a\x73\x68")], &[(0, b"\x23\x21\x2f\x75\x73\x72\x2f\x6c\x6f\x63\x61\x6c\x2f\x62\x61\x73\x68")], &[(0, b"\x23\x21\x2f\x75\x73\x72\x2f\x6c\x6f\x63\x61\x6c\x2f\x74\x63\x73\x68")], &[(0, b"\x23\x21\x2f\x75\x73\x72\x2f\x62\x69\x6e\x2f\x62\x61\x73\x68")], &[(0, b"\x23\x21\x2f\x75\x73\x72\x2f\x62\x69\x6e\x2f\x66\x69\x73\x68")], &[(0, b"\x23\x21\x2f\x75\x73\x72\x2f\x62\x69\x6e\x2f\x74\x63\x73\x68")], &[(0, b"\x23\x21\x2f\x75\x73\x72\x2f\x62\x69\x6e\x2f\x7a\x73\x68")], &[(0, b"\x23\x21\x2f\x62\x69\x6e\x2f\x62\x61\x73\x68")], &[(0, b"\x23\x21\x2f\x62\x69\x6e\x2f\x74\x63\x73\x68")], &[(0, b"\x23\x21\x2f\x62\x69\x6e\x2f\x61\x73\x68")], &[(0, b"\x23\x21\x2f\x62\x69\x6e\x2f\x63\x73\x68")], &[(0, b"\x23\x21\x2f\x62\x69\x6e\x2f\x6b\x73\x68")], &[(0, b"\x23\x21\x2f\x62\x69\x6e\x2f\x7a\x73\x68")], &[(0, b"\x23\x21\x2f\x62\x69\x6e\x2f\x73\x68")]]),
("WindowsMediaPlaylist", &[&[(0, b"\x3c\x3f\x77\x70\x6c\x20\x76\x65\x72\x73\x69\x6f\x6e\x3d\x22\x31\x2e\x30\x22\x3f\x3e")]]),
("InterQuakeExport", &[&[(0, b"\x23\x20\x49\x6e\x74\x65\x72\x2d\x51\x75\x61\x6b\x65\x20\x45\x78\x70\x6f\x72\x74")]]),
("LuaScript", &[&[(0, b"\x23\x21\x2f\x75\x73\x72\x2f\x6c\x6f\x63\x61\x6c\x2f\x62\x69\x6e\x2f\x6c\x75\x61")], &[(0, b"\x23\x21\x2f\x75\x73\x72\x2f\x62\x69\x6e\x2f\x65\x6e\x76\x20\x6c\x75\x61")], &[(0, b"\x23\x21\x2f\x75\x73\x72\x2f\x62\x69\x6e\x2f\x6c\x75\x61")]]),
("WindowsShortcut", &[&[(0, b"\x4c\x00\x00\x00\x01\x14\x02\x00\x00\x00\x00\x00\xc0\x00\x00\x00\x00\x00\x00\x46")]]),
("AgeEncryption", &[&[(0, b"\x61\x67\x65\x2d\x65\x6e\x63\x72\x79\x70\x74\x69\x6f\x6e\x2e\x6f\x72\x67\x2f")]]),
("PerlScript", &[&[(0, b"\x23\x21\x2f\x75\x73\x72\x2f\x62\x69\x6e\x2f\x65\x6e\x76\x20\x70\x65\x72\x6c")], &[(0, b"\x23\x21\x2f\x75\x73\x72\x2f\x62\x69\x6e\x2f\x70\x65\x72\x6c")]]),
("DrawingExchangeFormatBinary", &[&[(0, b"\x41\x75\x74\x6f\x43\x41\x44\x20\x42\x69\x6e\x61\x72\x79\x20\x44\x58\x46")]]),
("Glyphs", &[&[(0, b"\x7b\x0d\x0a\x2e\x61\x70\x70\x56\x65\x72\x73\x69\x6f\x6e\x20\x3d\x20\x22")], &[(0, b"\x7b\x0a\x2e\x61\x70\x70\x56\x65\x72\x73\x69\x6f\x6e\x20\x3d\x20\x22")], &[(0, b"\x7b\x0d\x2e\x61\x70\x70\x56\x65\x72\x73\x69\x6f\x6e\x20\x3d\x20\x22")]]),
("Musicxml", &[&[(0, b"\xef\xbb\xbf\x3c\x73\x63\x6f\x72\x65\x2d\x70\x61\x72\x74\x77\x69\x73\x65")], &[(0, b"\x3c\x73\x63\x6f\x72\x65\x2d\x70\x61\x72\x74\x77\x69\x73\x65")]]),
("AutodeskAlias", &[&[(0, b"\x8f\x53\x74\x75\x64\x69\x6f\x50\x61\x63\x6b\x65\x74\x46\x69\x6c\x65")]]),
("EncapsulatedPostscript", &[&[(0, b"\x25\x21\x50\x53\x2d\x41\x64\x6f\x62\x65\x2d"), (14, b"\x20\x45\x50\x53\x46\x2d")], &[(0, b"\xc5\xd0\xd3\xc6")]]),
("HypertextMarkupLanguage", &[&[(0, b"\xef\xbb\xbf\x3c\x21\x44\x4f\x43\x54\x59\x50\x45\x20\x48\x54\x4d\x4c")], &[(0, b"\xef\xbb\xbf\x3c\x21\x44\x4f\x43\x54\x59\x50\x45\x20\x68\x74\x6d\x6c")], &[(0, b"\xef\xbb\xbf\x3c\x21\x64\x6f\x63\x74\x79\x70\x65\x20\x48\x54\x4d\x4c")], &[(0, b"\xef\xbb\xbf\x3c\x21\x64\x6f\x63\x74\x79\x70\x65\x20\x68\x74\x6d\x6c")], &[(0, b"\x3c\x21\x44\x4f\x43\x54\x59\x50\x45\x20\x48\x54\x4d\x4c")], &[(0, b"\x3c\x21\x44\x4f\x43\x54\x59\x50\x45\x20\x68\x74\x6d\x6c")], &[(0, b"\x3c\x21\x64\x6f\x63\x74\x79\x70\x65\x20\x48\x54\x4d\x4c")], &[(0, b"\x3c\x21\x64\x6f\x63\x74\x79\x70\x65\x20\x68\x74\x6d\x6c")]]),
("PolygonAscii", &[&[(0, b"\x70\x6c\x79\x0d\x0a\x66\x6f\x72\x6d\x61\x74\x20\x61\x73\x63\x69\x69")], &[(0, b"\x70\x6c\x79\x0a\x66\x6f\x72\x6d\x61\x74\x20\x61\x73\x63\x69\x69")], &[(0, b"\x70\x6c\x79\x0d\x66\x6f\x72\x6d\x61\x74\x20\x61\x73\x63\x69\x69")]]),
("AdobeIndesignDocument", &[&[(0, b"\x06\x06\xed\xf5\xd8\x1d\x46\xe5\xbd\x31\xef\xe7\xfe\x74\xb7\x1d")]]),
("AdvancedSystemsFormat", &[&[(0, b"\x30\x26\xb2\x75\x8e\x66\xcf\x11\xa6\xd9\x00\xaa\x00\x62\xce\x6c")]]),
("Fasttracker2ExtendedModule", &[&[(0, b"\x45\x78\x74\x65\x6e\x64\x65\x64\x20\x4d\x6f\x64\x75\x6c\x65\x3a")]]),
("InterQuakeModel", &[&[(0, b"\x49\x4e\x54\x45\x52\x51\x55\x41\x4b\x45\x4d\x4f\x44\x45\x4c\x00")]]),
("MacosAlias", &[&[(0, b"\x62\x6f\x6f\x6b\x00\x00\x00\x00\x6d\x61\x72\x6b\x00\x00\x00\x00")]]),
("Sqlite3", &[&[(0, b"\x53\x51\x4c\x69\x74\x65\x20\x66\x6f\x72\x6d\x61\x74\x20\x33\x00")]]),
("Stuffit", &[&[(0, b"\x53\x74\x75\x66\x66\x49\x74\x20\x28\x63\x29\x31\x39\x39\x37"), (82, b"\x05")], &[(128, b"\x53\x49\x54\x21"), (138, b"\x72\x4c\x61\x75")], &[(0, b"\x53\x49\x54\x21"), (10, b"\x72\x4c\x61\x75")]]),
("UniversalSubtitleFormat", &[&[(0, b"\xef\xbb\xbf\x3c\x55\x53\x46\x53\x75\x62\x74\x69\x74\x6c\x65\x73")], &[(0, b"\x3c\x55\x53\x46\x53\x75\x62\x74\x69\x74\x6c\x65\x73")]]),
("VirtualRealityModelingLanguage", &[&[(0, b"\x23\x56\x52\x4d\x4c\x20\x56\x31\x2e\x30\x20\x61\x73\x63\x69\x69")], &[(0, b"\x23\x56\x52\x4d\x4c\x20\x56\x32\x2e\x30\x20\x75\x74\x66\x38")]]),
("WindowsRecordedTvShow", &[&[(0, b"\xb7\xd8\x00\x20\x37\x49\xda\x11\xa6\x4e\x00\x07\xe9\x5e\xad\x8d")]]),
("Fictionbook", &[&[(0, b"\xef\xbb\xbf\x3c\x46\x69\x63\x74\x69\x6f\x6e\x42\x6f\x6f\x6b")], &[(0, b"\x3c\x46\x69\x63\x74\x69\x6f\x6e\x42\x6f\x6f\x6b")]]),
("FujifilmRaw", &[&[(0, b"\x46\x55\x4a\x49\x46\x49\x4c\x4d\x43\x43\x44\x2d\x52\x41\x57")]]),
("Icalendar", &[&[(0, b"\x42\x45\x47\x49\x4e\x3a\x56\x43\x41\x4c\x45\x4e\x44\x41\x52")]]),
("MegaDriveRom", &[&[(256, b"\x53\x45\x47\x41\x20\x4d\x45\x47\x41\x20\x44\x52\x49\x56\x45")], &[(256, b"\x53\x45\x47\x41\x20\x47\x45\x4e\x45\x53\x49\x53")]]),
("MicrosoftAccess2007Database", &[&[(4, b"\x53\x74\x61\x6e\x64\x61\x72\x64\x20\x41\x43\x45\x20\x44\x42")]]),
("MicrosoftAccessDatabase", &[&[(4, b"\x53\x74\x61\x6e\x64\x61\x72\x64\x20\x4a\x65\x74\x20\x44\x42")]]),
("CanonRaw", &[&[(0, b"\x49\x49\x1a\x00\x00\x00\x48\x45\x41\x50\x43\x43\x44\x52")]]),
("Latex", &[&[(0, b"\x5c\x64\x6f\x63\x75\x6d\x65\x6e\x74\x63\x6c\x61\x73\x73")], &[(0, b"\x5c\x64\x6f\x63\x75\x6d\x65\x6e\x74\x73\x74\x79\x6c\x65")]]),
("MagickImageFileFormat", &[&[(0, b"\x69\x64\x3d\x49\x6d\x61\x67\x65\x4d\x61\x67\x69\x63\x6b")]]),
("MaterialExchangeFormat", &[&[(0, b"\x06\x0e\x2b\x34\x02\x05\x01\x01\x0d\x01\x02\x01\x01\x02")]]),
("WordperfectGraphics", &[&[(0, b"\xff\x57\x50\x43\x10\x00\x00\x00\x01\x16\x01\x00"), (14, b"\x00\x00")]]),
("Commodore64Cartridge", &[&[(0, b"\x43\x36\x34\x20\x43\x41\x52\x54\x52\x49\x44\x47\x45")]]),
("StandardForTheExchangeOfProductModelData", &[&[(0, b"\x49\x53\x4f\x2d\x31\x30\x33\x30\x33\x2d\x32\x31\x3b")]]),
("Activemime", &[&[(0, b"\x41\x63\x74\x69\x76\x65\x4d\x69\x6d\x65\x00\x00")]]),
("AnimatedPortableNetworkGraphics", &[&[(0, b"\x89\x50\x4e\x47\x0d\x0a\x1a\x0a"), (37, b"\x61\x63\x54\x4c")]]),
("Appimage", &[&[(0, b"\x7f\x45\x4c\x46"), (8, b"\x41\x49\x02\x00\x00\x00\x00\x00")]]),
("CdAudio", &[&[(0, b"\x52\x49\x46\x46"), (8, b"\x43\x44\x44\x41\x66\x6d\x74\x20")]]),
("Djvu", &[&[(0, b"\x41\x54\x26\x54\x46\x4f\x52\x4d"), (12, b"\x44\x4a\x56\x49")], &[(0, b"\x41\x54\x26\x54\x46\x4f\x52\x4d"), (12, b"\x44\x4a\x56\x4d")], &[(0, b"\x41\x54\x26\x54\x46\x4f\x52\x4d"), (12, b"\x44\x4a\x56\x55")], &[(0, b"\x41\x54\x26\x54\x46\x4f\x52\x4d"), (12, b"\x54\x48\x55\x4d")]]),
("DrawingExchangeFormatAscii", &[&[(0, b"\x20\x20\x30\x0d\x0a\x53\x45\x43\x54\x49\x4f\x4e")], &[(0, b"\x20\x20\x30\x0a\x53\x45\x43\x54\x49\x4f\x4e")]]),
("JpegXl", &[&[(0, b"\x00\x00\x00\x0c\x4a\x58\x4c\x20\x0d\x0a\x87\x0a")], &[(0, b"\xff\x0a")]]),
("KhronosTexture", &[&[(0, b"\xab\x4b\x54\x58\x20\x31\x31\xbb\x0d\x0a\x1a\x0a")]]),
("KhronosTexture2", &[&[(0, b"\xab\x4b\x54\x58\x20\x32\x30\xbb\x0d\x0a\x1a\x0a")]]),
("MayaAscii", &[&[(0, b"\x2f\x2f\x4d\x61\x79\x61\x20\x41\x53\x43\x49\x49")]]),
("OggOpus", &[&[(0, b"\x4f\x67\x67\x53"), (28, b"\x4f\x70\x75\x73\x48\x65\x61\x64")]]),
("PanasonicRaw", &[&[(0, b"\x49\x49\x55\x00\x18\x00\x00\x00\x88\xe7\x74\xd8")]]),
("ShoutcastPlaylist", &[&[(0, b"\x5b\x70\x6c\x61\x79\x6c\x69\x73\x74\x5d\x0d\x0a")], &[(0, b"\x5b\x70\x6c\x61\x79\x6c\x69\x73\x74\x5d\x0a")], &[(0, b"\x5b\x70\x6c\x61\x79\x6c\x69\x73\x74\x5d\x0d")]]),
("XmlShareablePlaylistFormat", &[&[(0, b"\xef\xbb\xbf\x3c\x70\x6c\x61\x79\x6c\x69\x73\x74")], &[(0, b"\x3c\x70\x6c\x61\x79\x6c\x69\x73\x74")]]),
("Bittorrent", &[&[(0, b"\x64\x38\x3a\x61\x6e\x6e\x6f\x75\x6e\x63\x65")]]),
("CollaborativeDesignActivity", &[&[(0, b"\xef\xbb\xbf\x3c\x43\x4f\x4c\x4c\x41\x44\x41")], &[(0, b"\xef\xbb\xbf\x3c\x63\x6f\x6c\x6c\x61\x64\x61")], &[(0, b"\x3c\x43\x4f\x4c\x4c\x41\x44\x41")], &[(0, b"\x3c\x63\x6f\x6c\x6c\x61\x64\x61")]]),
("OggSpeex", &[&[(0, b"\x4f\x67\x67\x53"), (28, b"\x53\x70\x65\x65\x78\x20\x20")]]),
("OggTheora", &[&[(0, b"\x4f\x67\x67\x53"), (28, b"\x80\x74\x68\x65\x6f\x72\x61")]]),
("OggVorbis", &[&[(0, b"\x4f\x67\x67\x53"), (28, b"\x01\x76\x6f\x72\x62\x69\x73")]]),
("RadianceHdr", &[&[(0, b"\x23\x3f\x52\x41\x44\x49\x41\x4e\x43\x45\x0a")]]),
("TiledTilesetXml", &[&[(0, b"\xef\xbb\xbf\x3c\x74\x69\x6c\x65\x73\x65\x74")], &[(0, b"\x3c\x74\x69\x6c\x65\x73\x65\x74")]]),
("Vcard", &[&[(0, b"\x42\x45\x47\x49\x4e\x3a\x56\x43\x41\x52\x44")]]),
("Atari7800Rom", &[&[(0, b"\x01\x41\x54\x41\x52\x49\x37\x38\x30\x30")]]),
("BmfontAscii", &[&[(0, b"\x69\x6e\x66\x6f\x20\x66\x61\x63\x65\x3d")]]),
("Drawio", &[&[(0, b"\xef\xbb\xbf\x3c\x6d\x78\x66\x69\x6c\x65")], &[(0, b"\x3c\x6d\x78\x66\x69\x6c\x65")]]),
("InitialGraphicsExchangeSpecification", &[&[(72, b"\x53\x20\x20\x20\x20\x20\x20\x31\x0d\x0a")], &[(72, b"\x53\x30\x30\x30\x30\x30\x30\x31\x0d\x0a")], &[(72, b"\x53\x20\x20\x20\x20\x20\x20\x31\x0a")], &[(72, b"\x53\x20\x20\x20\x20\x20\x20\x31\x0d")], &[(72, b"\x53\x30\x30\x30\x30\x30\x30\x31\x0a")], &[(72, b"\x53\x30\x30\x30\x30\x30\x30\x31\x0d")]]),
("MicrosoftWorksDatabase", &[&[(0, b"\x20\x54\x02\x00\x00\x00\x05\x54\x02\x00")]]),
("MicrosoftWorksSpreadsheet", &[&[(0, b"\x00\x00\x02\x00\x04\x04\x05\x54\x02\x00")], &[(0, b"\xff\x00\x02\x00\x04\x04\x05\x54\x02\x00")]]),
("OggMedia", &[&[(0, b"\x4f\x67\x67\x53"), (28, b"\x01\x76\x69\x64\x65\x6f")]]),
("Snappy", &[&[(0, b"\xff\x06\x00\x00\x73\x4e\x61\x50\x70\x59")]]),
("GameBoyColorRom", &[&[(260, b"\xce\xed\x66\x66\xcc\x0d\x00\x0b"), (323, b"\x80")], &[(260, b"\xce\xed\x66\x66\xcc\x0d\x00\x0b"), (323, b"\xc0")]]),
("GameGearRom", &[&[(32752, b"\x54\x4d\x52\x20\x53\x45\x47\x41"), (32767, b"\x50")], &[(32752, b"\x54\x4d\x52\x20\x53\x45\x47\x41"), (32767, b"\x51")], &[(32752, b"\x54\x4d\x52\x20\x53\x45\x47\x41"), (32767, b"\x5c")], &[(32752, b"\x54\x4d\x52\x20\x53\x45\x47\x41"), (32767, b"\x5e")], &[(32752, b"\x54\x4d\x52\x20\x53\x45\x47\x41"), (32767, b"\x5f")], &[(32752, b"\x54\x4d\x52\x20\x53\x45\x47\x41"), (32767, b"\x60")], &[(32752, b"\x54\x4d\x52\x20\x53\x45\x47\x41"), (32767, b"\x61")], &[(32752, b"\x54\x4d\x52\x20\x53\x45\x47\x41"), (32767, b"\x6c")], &[(32752, b"\x54\x4d\x52\x20\x53\x45\x47\x41"), (32767, b"\x6e")], &[(32752, b"\x54\x4d\x52\x20\x53\x45\x47\x41"), (32767, b"\x6f")], &[(32752, b"\x54\x4d\x52\x20\x53\x45\x47\x41"), (32767, b"\x70")], &[(32752, b"\x54\x4d\x52\x20\x53\x45\x47\x41"), (32767, b"\x71")], &[(32752, b"\x54\x4d\x52\x20\x53\x45\x47\x41"), (32767, b"\x7c")], &[(32752, b"\x54\x4d\x52\x20\x53\x45\x47\x41"), (32767, b"\x7e")], &[(32752, b"\x54\x4d\x52\x20\x53\x45\x47\x41"), (32767, b"\x7f")]]),
("Lzop", &[&[(0, b"\x89\x4c\x5a\x4f\x00\x0d\x0a\x1a\x0a")]]),
("MicrosoftVirtualHardDisk", &[&[(0, b"\x63\x6f\x6e\x6e\x65\x63\x74\x69\x78")]]),
("MsDosBatch", &[&[(0, b"\x40\x45\x43\x48\x4f\x20\x4f\x46\x46")], &[(0, b"\x40\x65\x63\x68\x6f\x20\x6f\x66\x66")]]),
("OggFlac", &[&[(0, b"\x4f\x67\x67\x53"), (28, b"\x7f\x46\x4c\x41\x43")]]),
("OlympusRawFormat", &[&[(0, b"\x49\x49\x52\x4f\x08\x00\x00\x00\x18")]]),
("SegaMasterSystemRom", &[&[(32752, b"\x54\x4d\x52\x20\x53\x45\x47\x41"), (32767, b"\x30")], &[(32752, b"\x54\x4d\x52\x20\x53\x45\x47\x41"), (32767, b"\x31")], &[(32752, b"\x54\x4d\x52\x20\x53\x45\x47\x41"), (32767, b"\x3c")], &[(32752, b"\x54\x4d\x52\x20\x53\x45\x47\x41"), (32767, b"\x3e")], &[(32752, b"\x54\x4d\x52\x20\x53\x45\x47\x41"), (32767, b"\x3f")], &[(32752, b"\x54\x4d\x52\x20\x53\x45\x47\x41"), (32767, b"\x40")], &[(32752, b"\x54\x4d\x52\x20\x53\x45\x47\x41"), (32767, b"\x41")], &[(32752, b"\x54\x4d\x52\x20\x53\x45\x47\x41"), (32767, b"\x4c")], &[(32752, b"\x54\x4d\x52\x20\x53\x45\x47\x41"), (32767, b"\x4e")], &[(32752, b"\x54\x4d\x52\x20\x53\x45\x47\x41"), (32767, b"\x4f")]]),
("SubripText", &[&[(0, b"\xef\xbb\xbf\x31\x0d\x0a\x30\x30\x3a")], &[(0, b"\xef\xbb\xbf\x31\x0a\x30\x30\x3a")], &[(0, b"\x31\x0d\x0a\x30\x30\x3a")], &[(0, b"\x31\x0a\x30\x30\x3a")]]),
("UniversalSceneDescriptionAscii", &[&[(0, b"\x23\x75\x73\x64\x61\x20\x31\x2e\x30")]]),
("WebVideoTextTracks", &[&[(0, b"\xef\xbb\xbf\x57\x45\x42\x56\x54\x54")], &[(0, b"\x57\x45\x42\x56\x54\x54")]]),
("WindowsBitmap", &[&[(0, b"\x42\x4d"), (12, b"\x00\x00"), (15, b"\x00\x00\x00"), (26, b"\x01\x00")]]),
("XPixmap", &[&[(0, b"\x2f\x2a\x20\x58\x50\x4d\x20\x2a\x2f")]]),
("XmlLocalizationInterchangeFileFormat", &[&[(0, b"\xef\xbb\xbf\x3c\x78\x6c\x69\x66\x66")], &[(0, b"\x3c\x78\x6c\x69\x66\x66")]]),
("ActionsMediaVideo", &[&[(0, b"\x52\x49\x46\x46"), (8, b"\x41\x4d\x56\x20")]]),
("Atom", &[&[(0, b"\xef\xbb\xbf\x3c\x66\x65\x65\x64")], &[(0, b"\x3c\x66\x65\x65\x64")]]),
("AudioInterchangeFileFormat", &[&[(0, b"\x46\x4f\x52\x4d"), (8, b"\x41\x49\x46\x43")], &[(0, b"\x46\x4f\x52\x4d"), (8, b"\x41\x49\x46\x46")]]),
("AudioVideoInterleave", &[&[(0, b"\x52\x49\x46\x46"), (8, b"\x41\x56\x49\x20")]]),
("Av1ImageFileFormat", &[&[(4, b"\x66\x74\x79\x70\x61\x76\x69\x66")]]),
("Av1ImageFileFormatSequence", &[&[(4, b"\x66\x74\x79\x70\x61\x76\x69\x73")]]),
("BroadBandEbook", &[&[(0, b"\x4c\x00\x52\x00\x46\x00\x00\x00")]]),
("CompoundFileBinary", &[&[(0, b"\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1")]]),
("EightBitSampledVoice", &[&[(0, b"\x46\x4f\x52\x4d"), (8, b"\x38\x53\x56\x58")]]),
("EnhancedMetafile", &[&[(0, b"\x01\x00\x00\x00"), (40, b"\x20\x45\x4d\x46")]]),
("ExperimentalComputingFacility", &[&[(0, b"\x67\x69\x6d\x70\x20\x78\x63\x66")]]),
("ExtensibleMarkupLanguage", &[&[(0, b"\xef\xbb\xbf\x3c\x3f\x78\x6d\x6c")], &[(0, b"\x3c\x3f\x78\x6d\x6c")]]),
("Farbfeld", &[&[(0, b"\x66\x61\x72\x62\x66\x65\x6c\x64")]]),
("GameBoyAdvanceRom", &[&[(4, b"\x24\xff\xae\x51\x69\x9a\xa2\x21")]]),
("GameBoyRom", &[&[(260, b"\xce\xed\x66\x66\xcc\x0d\x00\x0b")]]),
("HighEfficiencyImageCoding", &[&[(4, b"\x66\x74\x79\x70\x68\x65\x69\x63")], &[(4, b"\x66\x74\x79\x70\x68\x65\x69\x78")]]),
("HighEfficiencyImageCodingSequence", &[&[(4, b"\x66\x74\x79\x70\x68\x65\x76\x63")], &[(4, b"\x66\x74\x79\x70\x68\x65\x76\x78")]]),
("HighEfficiencyImageFileFormat", &[&[(4, b"\x66\x74\x79\x70\x61\x76\x69\x63")], &[(4, b"\x66\x74\x79\x70\x68\x65\x69\x6d")], &[(4, b"\x66\x74\x79\x70\x68\x65\x69\x73")], &[(4, b"\x66\x74\x79\x70\x6d\x69\x66\x31")]]),
("HighEfficiencyImageFileFormatSequence", &[&[(4, b"\x66\x74\x79\x70\x61\x76\x63\x73")], &[(4, b"\x66\x74\x79\x70\x68\x65\x76\x6d")], &[(4, b"\x66\x74\x79\x70\x68\x65\x76\x73")], &[(4, b"\x66\x74\x79\x70\x6d\x73\x66\x31")]]),
("Jpeg2000Part1", &[&[(16, b"\x66\x74\x79\x70\x4a\x50\x32\x20")], &[(16, b"\x66\x74\x79\x70\x6a\x70\x32\x20")]]),
("Jpeg2000Part2", &[&[(16, b"\x66\x74\x79\x70\x6a\x70\x78\x20")]]),
("Jpeg2000Part3", &[&[(16, b"\x66\x74\x79\x70\x6d\x6a\x70\x32")]]),
("Jpeg2000Part6", &[&[(16, b"\x66\x74\x79\x70\x6a\x70\x6d\x20")]]),
("JpegNetworkGraphics", &[&[(0, b"\x8b\x4a\x4e\x47\x0d\x0a\x1a\x0a")]]),
("MayaBinary", &[&[(0, b"\x46\x4f\x52\x34"), (8, b"\x4d\x41\x59\x41")], &[(0, b"\x46\x4f\x52\x34"), (8, b"\x4d\x61\x79\x61")], &[(0, b"\x46\x4f\x52\x38"), (16, b"\x4d\x41\x59\x41")], &[(0, b"\x46\x4f\x52\x38"), (16, b"\x4d\x61\x79\x61")]]),
("MicrosoftVirtualHardDisk2", &[&[(0, b"\x76\x68\x64\x78\x66\x69\x6c\x65")]]),
("Mobipocket", &[&[(60, b"\x42\x4f\x4f\x4b\x4d\x4f\x42\x49")]]),
("Mpeg4Part14", &[&[(4, b"\x66\x74\x79\x70\x41\x52\x52\x49")], &[(4, b"\x66\x74\x79\x70\x4d\x53\x4e\x56")], &[(4, b"\x66\x74\x79\x70\x4e\x44\x41\x53")], &[(4, b"\x66\x74\x79\x70\x4e\x44\x53\x43")], &[(4, b"\x66\x74\x79\x70\x4e\x44\x53\x48")], &[(4, b"\x66\x74\x79\x70\x4e\x44\x53\x4d")], &[(4, b"\x66\x74\x79\x70\x4e\x44\x53\x50")], &[(4, b"\x66\x74\x79\x70\x4e\x44\x53\x53")], &[(4, b"\x66\x74\x79\x70\x4e\x44\x58\x43")], &[(4, b"\x66\x74\x79\x70\x4e\x44\x58\x48")], &[(4, b"\x66\x74\x79\x70\x4e\x44\x58\x4d")], &[(4, b"\x66\x74\x79\x70\x4e\x44\x58\x50")], &[(4, b"\x66\x74\x79\x70\x4e\x44\x58\x53")], &[(4, b"\x66\x74\x79\x70\x58\x41\x56\x43")], &[(4, b"\x66\x74\x79\x70\x61\x76\x63\x31")], &[(4, b"\x66\x74\x79\x70\x64\x61\x73\x68")], &[(4, b"\x66\x74\x79\x70\x69\x73\x6f\x32")], &[(4, b"\x66\x74\x79\x70\x69\x73\x6f\x33")], &[(4, b"\x66\x74\x79\x70\x69\x73\x6f\x34")], &[(4, b"\x66\x74\x79\x70\x69\x73\x6f\x35")], &[(4, b"\x66\x74\x79\x70\x69\x73\x6f\x36")], &[(4, b"\x66\x74\x79\x70\x69\x73\x6f\x6d")], &[(4, b"\x66\x74\x79\x70\x6d\x6d\x70\x34")], &[(4, b"\x66\x74\x79\x70\x6d\x6f\x62\x69")], &[(4, b"\x66\x74\x79\x70\x6d\x70\x32\x31")], &[(4, b"\x66\x74\x79\x70\x6d\x70\x34\x31")], &[(4, b"\x66\x74\x79\x70\x6d\x70\x34\x32")], &[(4, b"\x66\x74\x79\x70\x6d\x70\x34\x76")], &[(4, b"\x66\x74\x79\x70\x6d\x70\x37\x31")]]),
("MultipleImageNetworkGraphics", &[&[(0, b"\x8a\x4d\x4e\x47\x0d\x0a\x1a\x0a")]]),
("NikonElectronicFile", &[&[(0, b"\x49\x49\x2a\x00"), (8, b"\x1c\x00\xfe\x00")], &[(0, b"\x49\x49\x2a\x00"), (8, b"\x1f\x00\x0b\x00")], &[(0, b"\x4d\x4d\x00\x2a"), (8, b"\x1c\x00\xfe\x00")], &[(0, b"\x4d\x4d\x00\x2a"), (8, b"\x1f\x00\x0b\x00")]]),
("Nintendo64Rom", &[&[(0, b"\x12\x40\x80\x37\x00\x0f\x00\x00")], &[(0, b"\x37\x80\x40\x12\x00\x00\x0f\x00")], &[(0, b"\x40\x12\x37\x80\x0f\x00\x00\x00")], &[(0, b"\x80\x37\x12\x40\x00\x00\x00\x0f")]]),
("NintendoDsRom", &[&[(192, b"\x24\xff\xae\x51\x69\x9a\xa2\x21")], &[(192, b"\xc8\x60\x4f\xe2\x01\x70\x8f\xe2")]]),
("PortableNetworkGraphics", &[&[(0, b"\x89\x50\x4e\x47\x0d\x0a\x1a\x0a")]]),
("QualcommPurevoice", &[&[(0, b"\x52\x49\x46\x46"), (8, b"\x51\x4c\x43\x4d")]]),
("Realmedia", &[&[(0, b"\x2e\x52\x4d\x46\x00\x00\x00\x12")]]),
("RoshalArchive", &[&[(0, b"\x52\x61\x72\x21\x1a\x07\x01\x00")], &[(0, b"\x52\x61\x72\x21\x1a\x07\x00")]]),
("SimpleObjectAccessProtocol", &[&[(0, b"\xef\xbb\xbf\x3c\x73\x6f\x61\x70")], &[(0, b"\x3c\x73\x6f\x61\x70")]]),
("Soundfont2", &[&[(0, b"\x52\x49\x46\x46"), (8, b"\x73\x66\x62\x6b")]]),
("StuffitX", &[&[(0, b"\x53\x74\x75\x66\x66\x49\x74\x21")], &[(0, b"\x53\x74\x75\x66\x66\x49\x74\x3f")]]),
("TapeArchive", &[&[(257, b"\x75\x73\x74\x61\x72\x00\x30\x30")], &[(257, b"\x75\x73\x74\x61\x72\x20\x20\x00")]]),
("ThirdGenerationPartnershipProject2", &[&[(4, b"\x66\x74\x79\x70\x4b\x44\x44\x49")], &[(4, b"\x66\x74\x79\x70\x33\x67\x32")]]),
("UniversalSceneDescriptionBinary", &[&[(0, b"\x50\x58\x52\x2d\x55\x53\x44\x43")]]),
("WaveformAudio", &[&[(0, b"\x52\x49\x46\x46"), (8, b"\x57\x41\x56\x45")]]),
("Webp", &[&[(0, b"\x52\x49\x46\x46"), (8, b"\x57\x45\x42\x50")]]),
("WindowsAnimatedCursor", &[&[(0, b"\x52\x49\x46\x46"), (8, b"\x41\x43\x4f\x4e")]]),
("WindowsImagingFormat", &[&[(0, b"\x4d\x53\x57\x49\x4d\x00\x00\x00")], &[(0, b"\x57\x4c\x50\x57\x4d\x00\x00\x00")]]),
("Ace", &[&[(7, b"\x2a\x2a\x41\x43\x45\x2a\x2a")]]),
("AdditiveManufacturingFormat", &[&[(0, b"\xef\xbb\xbf\x3c\x61\x6d\x66")], &[(0, b"\x3c\x61\x6d\x66")]]),
("AdvancedStreamRedirector", &[&[(0, b"\xef\xbb\xbf\x3c\x41\x53\x58")], &[(0, b"\xef\xbb\xbf\x3c\x61\x73\x78")], &[(0, b"\x3c\x41\x53\x58")], &[(0, b"\x3c\x61\x73\x78")]]),
("AppleItunesAudio", &[&[(4, b"\x66\x74\x79\x70\x4d\x34\x41")]]),
("AppleItunesAudiobook", &[&[(4, b"\x66\x74\x79\x70\x4d\x34\x42")]]),
("AppleItunesProtectedAudio", &[&[(4, b"\x66\x74\x79\x70\x4d\x34\x50")]]),
("AppleItunesVideo", &[&[(4, b"\x66\x74\x79\x70\x4d\x34\x56")]]),
("Blender", &[&[(0, b"\x42\x4c\x45\x4e\x44\x45\x52")]]),
("CanonRaw3", &[&[(4, b"\x66\x74\x79\x70\x63\x72\x78")]]),
("Cinema4d", &[&[(1, b"\x43\x34\x44\x43\x34\x44\x36")]]),
("ExtensibleStylesheetLanguageTransformations", &[&[(0, b"\xef\xbb\xbf\x3c\x78\x73\x6c")], &[(0, b"\x3c\x78\x73\x6c")]]),
("FlashMp4Audio", &[&[(4, b"\x66\x74\x79\x70\x46\x34\x41")], &[(4, b"\x66\x74\x79\x70\x66\x34\x61")]]),
("FlashMp4Audiobook", &[&[(4, b"\x66\x74\x79\x70\x46\x34\x42")], &[(4, b"\x66\x74\x79\x70\x66\x34\x62")]]),
("FlashMp4ProtectedVideo", &[&[(4, b"\x66\x74\x79\x70\x46\x34\x50")], &[(4, b"\x66\x74\x79\x70\x66\x34\x70")]]),
("FlashMp4Video", &[&[(4, b"\x66\x74\x79\x70\x46\x34\x56")], &[(4, b"\x66\x74\x79\x70\x66\x34\x76")]]),
("GeographyMarkupLanguage", &[&[(0, b"\xef\xbb\xbf\x3c\x67\x6d\x6c")], &[(0, b"\x3c\x67\x6d\x6c")]]),
("GpsExchangeFormat", &[&[(0, b"\xef\xbb\xbf\x3c\x67\x70\x78")], &[(0, b"\x3c\x67\x70\x78")]]),
("KeyholeMarkupLanguage", &[&[(0, b"\xef\xbb\xbf\x3c\x6b\x6d\x6c")], &[(0, b"\x3c\x6b\x6d\x6c")]]),
("MetaInformationEncapsulation", &[&[(0, b"\x7e\x10\x04"), (4, b"\x30\x4d\x49\x45")], &[(0, b"\x7e\x18\x04"), (4, b"\x30\x4d\x49\x45")]]),
("Model3dAscii", &[&[(0, b"\x33\x64\x6d\x6f\x64\x65\x6c")]]),
("Mp3Url", &[&[(0, b"\x23\x45\x58\x54\x4d\x33\x55")]]),
("MpegDashMpd", &[&[(0, b"\xef\xbb\xbf\x3c\x4d\x50\x44")], &[(0, b"\x3c\x4d\x50\x44")]]),
("MultiLayerArchive", &[&[(0, b"\x4d\x4c\x41\x01\x00\x00\x00")]]),
("ReallySimpleSyndication", &[&[(0, b"\xef\xbb\xbf\x3c\x72\x73\x73")], &[(0, b"\x3c\x72\x73\x73")]]),
("ScalableVectorGraphics", &[&[(0, b"\xef\xbb\xbf\x3c\x53\x56\x47")], &[(0, b"\xef\xbb\xbf\x3c\x73\x76\x67")], &[(0, b"\x3c\x53\x56\x47")], &[(0, b"\x3c\x73\x76\x67")]]),
("SonyMovie", &[&[(4, b"\x66\x74\x79\x70\x6d\x71\x74")]]),
("ThirdGenerationPartnershipProject", &[&[(4, b"\x66\x74\x79\x70\x33\x67\x65")], &[(4, b"\x66\x74\x79\x70\x33\x67\x66")], &[(4, b"\x66\x74\x79\x70\x33\x67\x67")], &[(4, b"\x66\x74\x79\x70\x33\x67\x68")], &[(4, b"\x66\x74\x79\x70\x33\x67\x6d")], &[(4, b"\x66\x74\x79\x70\x33\x67\x70")], &[(4, b"\x66\x74\x79\x70\x33\x67\x72")], &[(4, b"\x66\x74\x79\x70\x33\x67\x73")], &[(4, b"\x66\x74\x79\x70\x33\x67\x74")]]),
("TiledMapXml", &[&[(0, b"\xef\xbb\xbf\x3c\x6d\x61\x70")], &[(0, b"\x3c\x6d\x61\x70")]]),
("UnixArchiver", &[&[(0, b"\x21\x3c\x61\x72\x63\x68\x3e")]]),
("WebassemblyText", &[&[(0, b"\x28\x6d\x6f\x64\x75\x6c\x65")]]),
("ApacheArrowColumnar", &[&[(0, b"\x41\x52\x52\x4f\x57\x31")]]),
("AppleQuicktime", &[&[(4, b"\x66\x74\x79\x70\x71\x74")], &[(4, b"\x66\x72\x65\x65")], &[(4, b"\x6d\x64\x61\x74")], &[(4, b"\x6d\x6f\x6f\x76")], &[(4, b"\x73\x6b\x69\x70")], &[(4, b"\x77\x69\x64\x65")]]),
("CanonRaw2", &[&[(0, b"\x49\x49\x2a\x00"), (8, b"\x43\x52")], &[(0, b"\x4d\x4d\x00\x2a"), (8, b"\x43\x52")]]),
("DesignWebFormat", &[&[(0, b"\x28\x44\x57\x46\x20\x56")]]),
("GraphicsInterchangeFormat", &[&[(0, b"\x47\x49\x46\x38\x37\x61")], &[(0, b"\x47\x49\x46\x38\x39\x61")]]),
("MicrosoftWrite", &[&[(0, b"\x31\xbe\x00\x00\x00\xab")], &[(0, b"\x32\xbe\x00\x00\x00\xab")]]),
("SevenZip", &[&[(0, b"\x37\x7a\xbc\xaf\x27\x1c")]]),
("StereolithographyAscii", &[&[(0, b"\x73\x6f\x6c\x69\x64\x20")]]),
("ThreeDimensionalStudio", &[&[(0, b"\x4d\x4d"), (6, b"\x02"), (8, b"\x0a"), (16, b"\x3d\x3d")]]),
("WordperfectMacro", &[&[(0, b"\xff\x57\x50\x43"), (8, b"\x01\x01")]]),
("Xz", &[&[(0, b"\xfd\x37\x7a\x58\x5a\x00")]]),
("AdaptiveMultiRate", &[&[(0, b"\x23\x21\x41\x4d\x52")]]),
("Bzip3", &[&[(0, b"\x42\x5a\x33\x76\x31")]]),
("CorelPresentations", &[&[(0, b"\xff\x57\x50\x43"), (9, b"\x0f")], &[(0, b"\xff\x57\x50\x43"), (9, b"\x10")]]),
("DalvikExecutable", &[&[(0, b"\x64\x65\x78\x0a"), (7, b"\x00")]]),
("EmbeddedOpentype", &[&[(8, b"\x00\x00\x01"), (34, b"\x4c\x50")], &[(8, b"\x01\x00\x02"), (34, b"\x4c\x50")], &[(8, b"\x02\x00\x02"), (34, b"\x4c\x50")]]),
("FigletFont", &[&[(0, b"\x66\x6c\x66\x32\x61")]]),
("GoogleDraco", &[&[(0, b"\x44\x52\x41\x43\x4f")]]),
("Iso9660", &[&[(32769, b"\x43\x44\x30\x30\x31")], &[(34817, b"\x43\x44\x30\x30\x31")], &[(36865, b"\x43\x44\x30\x30\x31")]]),
("Larc", &[&[(2, b"\x2d\x6c\x7a\x32\x2d")], &[(2, b"\x2d\x6c\x7a\x33\x2d")], &[(2, b"\x2d\x6c\x7a\x34\x2d")], &[(2, b"\x2d\x6c\x7a\x35\x2d")], &[(2, b"\x2d\x6c\x7a\x37\x2d")], &[(2, b"\x2d\x6c\x7a\x38\x2d")], &[(2, b"\x2d\x6c\x7a\x73\x2d")]]),
("LempelZivMarkovChainAlgorithm", &[&[(0, b"\x5d\x00\x00\x80\x00")]]),
("Lha", &[&[(2, b"\x2d\x6c\x68\x30\x2d")], &[(2, b"\x2d\x6c\x68\x31\x2d")], &[(2, b"\x2d\x6c\x68\x32\x2d")], &[(2, b"\x2d\x6c\x68\x33\x2d")], &[(2, b"\x2d\x6c\x68\x34\x2d")], &[(2, b"\x2d\x6c\x68\x35\x2d")], &[(2, b"\x2d\x6c\x68\x36\x2d")], &[(2, b"\x2d\x6c\x68\x37\x2d")], &[(2, b"\x2d\x6c\x68\x38\x2d")], &[(2, b"\x2d\x6c\x68\x64\x2d")]]),
("MachO", &[&[(0, b"\xca\xfe\xba\xbe"), (7, b"\x01")], &[(0, b"\xca\xfe\xba\xbe"), (7, b"\x02")], &[(0, b"\xca\xfe\xba\xbe"), (7, b"\x03")], &[(0, b"\xca\xfe\xba\xbe"), (7, b"\x04")], &[(0, b"\xca\xfe\xba\xbe"), (7, b"\x05")], &[(0, b"\xca\xfe\xba\xbe"), (7, b"\x06")], &[(0, b"\xca\xfe\xba\xbe"), (7, b"\x07")], &[(0, b"\xca\xfe\xba\xbe"), (7, b"\x08")], &[(0, b"\xca\xfe\xba\xbe"), (7, b"\x09")], &[(0, b"\xca\xfe\xba\xbe"), (7, b"\x0a")], &[(0, b"\xca\xfe\xba\xbe"), (7, b"\x0b")], &[(0, b"\xca\xfe\xba\xbe"), (7, b"\x0c")], &[(0, b"\xca\xfe\xba\xbe"), (7, b"\x0d")], &[(0, b"\xca\xfe\xba\xbe"), (7, b"\x0e")], &[(0, b"\xca\xfe\xba\xbe"), (7, b"\x0f")], &[(0, b"\xca\xfe\xba\xbe"), (7, b"\x10")], &[(0, b"\xca\xfe\xba\xbe"), (7, b"\x11")], &[(0, b"\xca\xfe\xba\xbe"), (7, b"\x12")], &[(0, b"\xca\xfe\xba\xbe"), (7, b"\xff")], &[(0, b"\xce\xfa\xed\xfe")], &[(0, b"\xcf\xfa\xed\xfe")], &[(0, b"\xfe\xed\xfa\xce")], &[(0, b"\xfe\xed\xfa\xcf")]]),
("NintendoSwitchRom", &[&[(256, b"\x48\x45\x41\x44"), (269, b"\xe0")], &[(256, b"\x48\x45\x41\x44"), (269, b"\xe1")], &[(256, b"\x48\x45\x41\x44"), (269, b"\xe2")], &[(256, b"\x48\x45\x41\x44"), (269, b"\xf0")], &[(256, b"\x48\x45\x41\x44"), (269, b"\xf8")], &[(256, b"\x48\x45\x41\x44"), (269, b"\xfa")]]),
("Opentype", &[&[(0, b"\x4f\x54\x54\x4f\x00")]]),
("Pmarc", &[&[(2, b"\x2d\x70\x63\x31\x2d")], &[(2, b"\x2d\x70\x6d\x30\x2d")], &[(2, b"\x2d\x70\x6d\x31\x2d")], &[(2, b"\x2d\x70\x6d\x32\x2d")], &[(2, b"\x2d\x70\x6d\x73\x2d")]]),
("PortableDocumentFormat", &[&[(0, b"\x25\x50\x44\x46\x2d")]]),
("RichTextFormat", &[&[(0, b"\x7b\x5c\x72\x74\x66")]]),
("Truetype", &[&[(0, b"\x00\x01\x00\x00\x00")]]),
("TruetypeCollection", &[&[(0, b"\x74\x74\x63\x66\x00")]]),
("VirtualMachineDisk", &[&[(0, b"\x43\x4f\x57\x44\x01")], &[(0, b"\x4b\x44\x4d\x56\x01")], &[(0, b"\x4b\x44\x4d\x56\x02")], &[(0, b"\x4b\x44\x4d\x56\x03")]]),
("WordperfectPresentations", &[&[(0, b"\xff\x57\x50\x43"), (9, b"\x0a")]]),
("AdaptableScalableTextureCompression", &[&[(0, b"\x13\xab\xa1\x5c")]]),
("AdobePhotoshopDocument", &[&[(0, b"\x38\x42\x50\x53")]]),
("Alz", &[&[(0, b"\x41\x4c\x5a\x01")]]),
("AmigaDiskFile", &[&[(0, b"\x44\x4f\x53\x00")], &[(0, b"\x44\x4f\x53\x01")], &[(0, b"\x44\x4f\x53\x02")], &[(0, b"\x44\x4f\x53\x03")], &[(0, b"\x44\x4f\x53\x04")], &[(0, b"\x44\x4f\x53\x05")]]),
("AndroidBinaryXml", &[&[(0, b"\x03\x00\x08\x00")]]),
("AndroidResourceStorageContainer", &[&[(0, b"\x02\x00\x0c\x00")]]),
("ApacheAvro", &[&[(0, b"\x4f\x62\x6a\x01")]]),
("ApacheParquet", &[&[(0, b"\x50\x41\x52\x31")]]),
("AppleIconImage", &[&[(0, b"\x69\x63\x6e\x73")]]),
("Au", &[&[(0, b"\x2e\x73\x6e\x64")]]),
("AudioVisualResearch", &[&[(0, b"\x32\x42\x49\x54")]]),
("AutocadDrawing", &[&[(0, b"\x41\x43\x31\x2e")], &[(0, b"\x41\x43\x31\x30")], &[(0, b"\x41\x43\x32\x2e")], &[(0, b"\x4d\x43\x30\x2e")]]),
("BetterPortableGraphics", &[&[(0, b"\x42\x50\x47\xfb")]]),
("BmfontBinary", &[&[(0, b"\x42\x4d\x46\x03")]]),
("Cabinet", &[&[(0, b"\x49\x53\x63\x28")], &[(0, b"\x4d\x53\x43\x46")]]),
("Cineon", &[&[(0, b"\x80\x2a\x5f\xd7")]]),
("Cpio", &[&[(0, b"\x30\x37\x30\x37")], &[(0, b"\x71\xc7")], &[(0, b"\xc7\x71")]]),
("DigitalImagingAndCommunicationsInMedicine", &[&[(128, b"\x44\x49\x43\x4d")]]),
("DigitalPictureExchange", &[&[(0, b"\x53\x44\x50\x58")], &[(0, b"\x58\x50\x44\x53")]]),
("ExecutableAndLinkableFormat", &[&[(0, b"\x7f\x45\x4c\x46")]]),
("ExtensibleArchive", &[&[(0, b"\x78\x61\x72\x21")]]),
("ExtensibleBinaryMetaLanguage", &[&[(0, b"\x1a\x45\xdf\xa3")]]),
("FlashVideo", &[&[(0, b"\x46\x4c\x56\x01")]]),
("FlexibleAndInteroperableDataTransfer", &[&[(8, b"\x2e\x46\x49\x54")]]),
("FreeLosslessAudioCodec", &[&[(0, b"\x66\x4c\x61\x43")]]),
("FreeLosslessImageFormat", &[&[(0, b"\x46\x4c\x49\x46")]]),
("GettextMachineObject", &[&[(0, b"\x95\x04\x12\xde")], &[(0, b"\xde\x12\x04\x95")]]),
("GlTransmissionFormatBinary", &[&[(0, b"\x67\x6c\x54\x46")]]),
("GoogleChromeExtension", &[&[(0, b"\x43\x72\x32\x34")]]),
("IccProfile", &[&[(36, b"\x61\x63\x73\x70")]]),
("Id3v2", &[&[(0, b"\x49\x44\x33\x02")], &[(0, b"\x49\x44\x33\x03")], &[(0, b"\x49\x44\x33\x04")]]),
("ImpulseTrackerModule", &[&[(0, b"\x49\x4d\x50\x4d")]]),
("JavaClass", &[&[(0, b"\xca\xfe\xba\xbe")]]),
("JavaKeystore", &[&[(0, b"\xfe\xed\xfe\xed")]]),
("Jpeg2000Codestream", &[&[(0, b"\xff\x4f\xff\x51")]]),
("JpegLs", &[&[(0, b"\xff\xd8\xff\xf7")]]),
("LempelZivFiniteStateEntropy", &[&[(0, b"\x62\x76\x78\x2d")], &[(0, b"\x62\x76\x78\x31")], &[(0, b"\x62\x76\x78\x32")], &[(0, b"\x62\x76\x78\x6e")]]),
("LlvmBitcode", &[&[(0, b"\x42\x43\xc0\xde")]]),
("LongRangeZip", &[&[(0, b"\x4c\x52\x5a\x49")]]),
("LuaBytecode", &[&[(0, b"\x1b\x4c\x75\x61")]]),
("Lz4", &[&[(0, b"\x04\x22\x4d\x18")]]),
("Lzip", &[&[(0, b"\x4c\x5a\x49\x50")]]),
("Magicavoxel", &[&[(0, b"\x56\x4f\x58\x20")]]),
("MicrosoftCompiledHtmlHelp", &[&[(0, b"\x49\x54\x53\x46")]]),
("MicrosoftDirectdrawSurface", &[&[(0, b"\x44\x44\x53\x20")]]),
("MicrosoftWorksWordProcessor", &[&[(0, b"\x01\xfe"), (112, b"\x01\x00")]]),
("Model3dBinary", &[&[(0, b"\x33\x44\x4d\x4f")]]),
("MonkeysAudio", &[&[(0, b"\x4d\x41\x43\x20")]]),
("MozillaArchive", &[&[(0, b"\x4d\x41\x52\x31")]]),
("Mpeg12Video", &[&[(0, b"\x00\x00\x01\xb3")], &[(0, b"\x00\x00\x01\xba")]]),
("Musepack", &[&[(0, b"\x4d\x50\x43\x4b")], &[(0, b"\x4d\x50\x2b")]]),
("MusicalInstrumentDigitalInterface", &[&[(0, b"\x4d\x54\x68\x64")]]),
("NintendoEntertainmentSystemRom", &[&[(0, b"\x4e\x45\x53\x1a")]]),
("NintendoSwitchExecutable", &[&[(0, b"\x4e\x53\x4f\x30")]]),
("NintendoSwitchPackage", &[&[(0, b"\x50\x46\x53\x30")]]),
("OggMultiplexedMedia", &[&[(0, b"\x4f\x67\x67\x53")]]),
("Openexr", &[&[(0, b"\x76\x2f\x31\x01")]]),
("OptimizedDalvikExecutable", &[&[(0, b"\x64\x65\x79\x0a")]]),
("PcapDump", &[&[(0, b"\xa1\xb2\xc3\xd4")], &[(0, b"\xd4\xc3\xb2\xa1")]]),
("PcapNextGenerationDump", &[&[(0, b"\x0a\x0d\x0d\x0a")]]),
("PersonalStorageTable", &[&[(0, b"\x21\x42\x44\x4e")]]),
("PictureExchange", &[&[(0, b"\x0a\x00\x00"), (64, b"\x00")], &[(0, b"\x0a\x00\x01"), (64, b"\x00")], &[(0, b"\x0a\x02\x00"), (64, b"\x00")], &[(0, b"\x0a\x02\x01"), (64, b"\x00")], &[(0, b"\x0a\x03\x00"), (64, b"\x00")], &[(0, b"\x0a\x03\x01"), (64, b"\x00")], &[(0, b"\x0a\x04\x00"), (64, b"\x00")], &[(0, b"\x0a\x04\x01"), (64, b"\x00")], &[(0, b"\x0a\x05\x00"), (64, b"\x00")], &[(0, b"\x0a\x05\x01"), (64, b"\x00")]]),
("QemuCopyOnWrite", &[&[(0, b"\x51\x46\x49\xfb")]]),
("QuiteOkAudio", &[&[(0, b"\x71\x6f\x61\x66")]]),
("QuiteOkImage", &[&[(0, b"\x71\x6f\x69\x66")]]),
("Realaudio", &[&[(0, b"\x2e\x72\x61\xfd")]]),
("RedHatPackageManager", &[&[(0, b"\xed\xab\xee\xdb")]]),
("Rzip", &[&[(0, b"\x52\x5a\x49\x50")]]),
("ScreamTracker3Module", &[&[(44, b"\x53\x43\x52\x4d")]]),
("Shapefile", &[&[(0, b"\x00\x00\x27\x0a")]]),
("SiliconGraphicsMovie", &[&[(0, b"\x4d\x4f\x56\x49")]]),
("SonyDsdStreamFile", &[&[(0, b"\x44\x53\x44\x20")]]),
("Squashfs", &[&[(0, b"\x68\x73\x71\x73")]]),
("TagImageFileFormat", &[&[(0, b"\x49\x49\x2a\x00")], &[(0, b"\x49\x49\x2b\x00")], &[(0, b"\x4d\x4d\x00\x2a")], &[(0, b"\x4d\x4d\x00\x2b")]]),
("Tasty", &[&[(0, b"\x5c\xa1\xab\x1f")]]),
("UltimateSoundtrackerModule", &[&[(1080, b"\x4d\x2e\x4b\x2e")]]),
("Universal3d", &[&[(0, b"\x55\x33\x44\x00")]]),
("Wavpack", &[&[(0, b"\x77\x76\x70\x6b")]]),
("WebOpenFontFormat", &[&[(0, b"\x77\x4f\x46\x46")]]),
("WebOpenFontFormat2", &[&[(0, b"\x77\x4f\x46\x32")]]),
("WebassemblyBinary", &[&[(0, b"\x00\x61\x73\x6d")]]),
("WindowsCursor", &[&[(0, b"\x00\x00\x02\x00")]]),
("WindowsIcon", &[&[(0, b"\x00\x00\x01\x00")]]),
("WindowsMetafile", &[&[(0, b"\x01\x00\x09\x00")], &[(0, b"\x02\x00\x09\x00")], &[(0, b"\xd7\xcd\xc6\x9a")]]),
("WordperfectDocument", &[&[(0, b"\xff\x57\x50\x43")]]),
("Xbox360Executable", &[&[(0, b"\x58\x45\x58\x31")], &[(0, b"\x58\x45\x58\x32")]]),
("XboxExecutable", &[&[(0, b"\x58\x42\x45\x48")]]),
("Zip", &[&[(0, b"\x50\x4b\x03\x04")], &[(0, b"\x50\x4b\x05\x06")]]),
("Zpaq", &[&[(0, b"\x37\x6b\x53\x74")], &[(0, b"\x7a\x50\x51")]]),
("Zstandard", &[&[(0, b"\x28\xb5\x2f\xfd")]]),
("ArchivedByRobertJung", &[&[(0, b"\x60\xea"), (10, b"\x02")]]),
("Bzip", &[&[(0, b"\x42\x5a\x30")]]),
("Bzip2", &[&[(0, b"\x42\x5a\x68")]]),
("Commodore64Program", &[&[(0, b"\x01\x08"), (6, b"\x9e")]]),
("JointPhotographicExpertsGroup", &[&[(0, b"\xff\xd8\xff")]]),
("JpegExtendedRange", &[&[(0, b"\x49\x49\xbc")]]),
("Mtv", &[&[(0, b"\x41\x4d\x56")]]),
("PortableArbitraryMap", &[&[(0, b"\x50\x37\x20")], &[(0, b"\x50\x37\x0a")], &[(0, b"\x50\x37\x0d")], &[(0, b"\x50\x37\x09")]]),
("PortableBitmap", &[&[(0, b"\x50\x31\x20")], &[(0, b"\x50\x31\x0a")], &[(0, b"\x50\x31\x0d")], &[(0, b"\x50\x31\x09")], &[(0, b"\x50\x34\x20")], &[(0, b"\x50\x34\x0a")], &[(0, b"\x50\x34\x0d")], &[(0, b"\x50\x34\x09")]]),
("PortableFloatmap", &[&[(0, b"\x50\x46\x20")], &[(0, b"\x50\x46\x0a")], &[(0, b"\x50\x46\x0d")], &[(0, b"\x50\x46\x09")], &[(0, b"\x50\x66\x20")], &[(0, b"\x50\x66\x0a")], &[(0, b"\x50\x66\x0d")], &[(0, b"\x50\x66\x09")]]),
("PortableGraymap", &[&[(0, b"\x50\x32\x20")], &[(0, b"\x50\x32\x0a")], &[(0, b"\x50\x32\x0d")], &[(0, b"\x50\x32\x09")], &[(0, b"\x50\x35\x20")], &[(0, b"\x50\x35\x0a")], &[(0, b"\x50\x35\x0d")], &[(0, b"\x50\x35\x09")]]),
("PortablePixmap", &[&[(0, b"\x50\x33\x20")], &[(0, b"\x50\x33\x0a")], &[(0, b"\x50\x33\x0d")], &[(0, b"\x50\x33\x09")], &[(0, b"\x50\x36\x20")], &[(0, b"\x50\x36\x0a")], &[(0, b"\x50\x36\x0d")], &[(0, b"\x50\x36\x09")]]),
("Seqbox", &[&[(0, b"\x53\x42\x78")]]),
("SmallWebFormat", &[&[(0, b"\x43\x57\x53")], &[(0, b"\x46\x57\x53")], &[(0, b"\x5a\x57\x53")]]),
("Zoo", &[&[(0, b"\x5a\x4f\x4f")]]),
("AdvancedAudioCoding", &[&[(0, b"\xff\xf1")], &[(0, b"\xff\xf9")]]),
("AppleDiskImage", &[&[(0, b"\x78\x01")]]),
("AudioCodec3", &[&[(0, b"\x0b\x77")]]),
("AutodeskAnimator", &[&[(4, b"\x11\xaf")]]),
("AutodeskAnimatorPro", &[&[(4, b"\x12\xaf")]]),
("BdavMpeg2TransportStream", &[&[(4, b"\x47"), (196, b"\x47")]]),
("CommonObjectFileFormat", &[&[(0, b"\x00\x02")], &[(0, b"\x4c\x01")], &[(0, b"\x64\x86")]]),
("DerCertificate", &[&[(0, b"\x30\x82")]]),
("Gzip", &[&[(0, b"\x1f\x8b")]]),
("Mpeg12AudioLayer2", &[&[(0, b"\xff\xf4")], &[(0, b"\xff\xf5")], &[(0, b"\xff\xfc")], &[(0, b"\xff\xfd")]]),
("Mpeg12AudioLayer3", &[&[(0, b"\xff\xe2")], &[(0, b"\xff\xe3")], &[(0, b"\xff\xf2")], &[(0, b"\xff\xf3")], &[(0, b"\xff\xfa")], &[(0, b"\xff\xfb")]]),
("Mpeg2TransportStream", &[&[(0, b"\x47"), (188, b"\x47")]]),
("MsDosExecutable", &[&[(0, b"\x4d\x5a")], &[(0, b"\x5a\x4d")]]),
("Postscript", &[&[(0, b"\x25\x21")]]),
("SiliconGraphicsImage", &[&[(0, b"\x01\xda")]]),
("UnixCompress", &[&[(0, b"\x1f\x9d")], &[(0, b"\x1f\xa0")]]),
];
pub type Format = (ff_all::FileFormat, &'static str, &'static str, Option<&'static str>, &'static str, &'static str, &'static str);
pub static FORMATS: &[Format] = &[
(ff_all::FileFormat::Abiword, "Abiword", "AbiWord", Some("ABW"), "application/x-abiword", "abw", "Document"),
(ff_all::FileFormat::AbiwordTemplate, "AbiwordTemplate", "AbiWord Template", Some("AWT"), "application/x-abiword-template", "awt", "Document"),
(ff_all::FileFormat::Ace, "Ace", "ACE", None, "application/x-ace-compressed", "ace", "Archive"),
(ff_all::FileFormat::ActionsMediaVideo, "ActionsMediaVideo", "Actions Media Video", Some("AMV"), "video/x-amv", "amv", "Video"),
(ff_all::FileFormat::Activemime, "Activemime", "ActiveMime", Some("MSO"), "application/x-mso", "mso", "Other"),
(ff_all::FileFormat::AdaptableScalableTextureCompression, "AdaptableScalableTextureCompression", "Adaptable Scalable Texture Compression", Some("ASTC"), "image/x-astc", "astc", "Image"),
(ff_all::FileFormat::AdaptiveMultiRate, "AdaptiveMultiRate", "Adaptive Multi-Rate", Some("AMR"), "audio/amr", "amr", "Audio"),
(ff_all::FileFormat::AdditiveManufacturingFormat, "AdditiveManufacturingFormat", "Additive Manufacturing Format", Some("AMF"), "application/x-amf", "amf", "Model"),
(ff_all::FileFormat::AdobeIllustratorArtwork, "AdobeIllustratorArtwork", "Adobe Illustrator Artwork", Some("AI"), "application/vnd.adobe.illustrator", "ai", "Image"),
(ff_all::FileFormat::AdobeIndesignDocument, "AdobeIndesignDocument", "Adobe InDesign Document", Some("INDD"), "application/x-indesign", "indd", "Document"),
(ff_all::FileFormat::AdobeIntegratedRuntime, "AdobeIntegratedRuntime", "Adobe Integrated Runtime", Some("AIR"), "application/vnd.adobe.air-application-installer-package+zip", "air", "Package"),
(ff_all::FileFormat::AdobePhotoshopDocument, "AdobePhotoshopDocument", "Adobe Photoshop Document", Some("PSD"), "image/vnd.adobe.photoshop", "psd", "Image"),
(ff_all::FileFormat::AdvancedAudioCoding, "AdvancedAudioCoding", "Advanced Audio Coding", Some("AAC"), "audio/aac", "aac", "Audio"),
(ff_all::FileFormat::AdvancedStreamRedirector, "AdvancedStreamRedirector", "Advanced Stream Redirector", Some("ASX"), "video/x-ms-asx", "asx", "Playlist"),
(ff_all::FileFormat::AdvancedSystemsFormat, "AdvancedSystemsFormat", "Advanced Systems Format", Some("ASF"), "application/vnd.ms-asf", "asf", "Other"),
(ff_all::FileFormat::AgeEncryption, "AgeEncryption", "age encryption", None, "application/x-age-encryption", "age", "Other"),
(ff_all::FileFormat::Alz, "Alz", "ALZ", None, "application/x-alz-compressed", "alz", "Archive"),
(ff_all::FileFormat::AmigaDiskFile, "AmigaDiskFile", "Amiga Disk File", Some("ADF"), "application/x-amiga-disk-format", "adf", "Disk"),
(ff_all::FileFormat::AndroidAppBundle, "AndroidAppBundle", "Android App Bundle", Some("AAB"), "application/vnd.android.aab", "aab", "Package"),
(ff_all::FileFormat::AndroidBinaryXml, "AndroidBinaryXml", "Android Binary XML", Some("AXML"), "application/vnd.android.axml", "xml", "Metadata"),
(ff_all::FileFormat::AndroidPackage, "AndroidPackage", "Android Package", Some("APK"), "application/vnd.android.package-archive", "apk", "Package"),
(ff_all::FileFormat::AndroidResourceStorageContainer, "AndroidResourceStorageContainer", "Android Resource Storage Container", Some("ARSC"), "application/vnd.android.arsc", "arsc", "Other"),
(ff_all::FileFormat::AnimatedPortableNetworkGraphics, "AnimatedPortableNetworkGraphics", "Animated Portable Network Graphics", Some("APNG"), "image/apng", "apng", "Image"),
(ff_all::FileFormat::ApacheArrowColumnar, "ApacheArrowColumnar", "Apache Arrow Columnar", Some("Arrow"), "application/vnd.apache.arrow.file", "arrow", "Other"),
(ff_all::FileFormat::ApacheAvro, "ApacheAvro", "Apache Avro", Some("Avro"), "application/vnd.apache.avro", "avro", "Other"),
(ff_all::FileFormat::ApacheParquet, "ApacheParquet", "Apache Parquet", Some("Parquet"), "application/vnd.apache.parquet", "parquet", "Other"),
(ff_all::FileFormat::Appimage, "Appimage", "AppImage", None, "application/x-appimage", "AppImage", "Package"),
(ff_all::FileFormat::AppleDiskImage, "AppleDiskImage", "Apple Disk Image", Some("DMG"), "application/x-apple-diskimage", "dmg", "Disk"),
(ff_all::FileFormat::AppleIconImage, "AppleIconImage", "Apple Icon Image", Some("ICNS"), "image/x-icns", "icns", "Image"),
(ff_all::FileFormat::AppleItunesAudio, "AppleItunesAudio", "Apple iTunes Audio", Some("M4A"), "audio/x-m4a", "m4a", "Audio"),
(ff_all::FileFormat::AppleItunesAudiobook, "AppleItunesAudiobook", "Apple iTunes Audiobook", Some("M4B"), "audio/mp4", "m4b", "Audio"),
(ff_all::FileFormat::AppleItunesProtectedAudio, "AppleItunesProtectedAudio", "Apple iTunes Protected Audio", Some("M4P"), "audio/mp4", "m4p", "Audio"),
(ff_all::FileFormat::AppleItunesVideo, "AppleItunesVideo", "Apple iTunes Video", Some("M4V"), "video/x-m4v", "m4v", "Video"),
(ff_all::FileFormat::AppleQuicktime, "AppleQuicktime", "Apple QuickTime", Some("MOV"), "video/quicktime", "mov", "Video"),
(ff_all::FileFormat::ArbitraryBinaryData, "ArbitraryBinaryData", "Arbitrary Binary Data", Some("BIN"), "application/octet-stream", "bin", "Other"),
(ff_all::FileFormat::ArchivedByRobertJung, "ArchivedByRobertJung", "Archived by Robert Jung", Some("ARJ"), "application/x-arj", "arj", "Archive"),
(ff_all::FileFormat::Atari7800Rom, "Atari7800Rom", "Atari 7800 ROM", Some("A78"), "application/x-atari-7800-rom", "a78", "Rom"),
(ff_all::FileFormat::Atom, "Atom", "Atom", None, "application/atom+xml", "atom", "Other"),
(ff_all::FileFormat::Au, "Au", "Au", None, "audio/basic", "au", "Audio"),
(ff_all::FileFormat::AudioCodec3, "AudioCodec3", "Audio Codec 3", Some("AC-3"), "audio/ac3", "ac3", "Audio"),
(ff_all::FileFormat::AudioInterchangeFileFormat, "AudioInterchangeFileFormat", "Audio Interchange File Format", Some("AIFF"), "audio/x-aiff", "aiff", "Audio"),
(ff_all::FileFormat::AudioVideoInterleave, "AudioVideoInterleave", "Audio Video Interleave", Some("AVI"), "video/avi", "avi", "Video"),
(ff_all::FileFormat::AudioVisualResearch, "AudioVisualResearch", "Audio Visual Research", Some("AVR"), "audio/x-avr", "avr", "Audio"),
(ff_all::FileFormat::AutocadDrawing, "AutocadDrawing", "AutoCAD Drawing", Some("DWG"), "application/x-dwg", "dwg", "Model"),
(ff_all::FileFormat::Autodesk123d, "Autodesk123d", "Autodesk 123D", Some("123DX"), "model/x-123dx", "123dx", "Model"),
(ff_all::FileFormat::AutodeskAlias, "AutodeskAlias", "Autodesk Alias", Some("WIRE"), "model/x-wire", "wire", "Model"),
(ff_all::FileFormat::AutodeskAnimator, "AutodeskAnimator", "Autodesk Animator", Some("FLI"), "video/x-fli", "fli", "Video"),
(ff_all::FileFormat::AutodeskAnimatorPro, "AutodeskAnimatorPro", "Autodesk Animator Pro", Some("FLC"), "video/x-flc", "flc", "Video"),
(ff_all::FileFormat::AutodeskInventorAssembly, "AutodeskInventorAssembly", "Autodesk Inventor Assembly", Some("IAM"), "model/x-iam", "iam", "Model"),
(ff_all::FileFormat::AutodeskInventorDrawing, "AutodeskInventorDrawing", "Autodesk Inventor Drawing", Some("IDW"), "model/x-idw", "idw", "Model"),
(ff_all::FileFormat::AutodeskInventorPart, "AutodeskInventorPart", "Autodesk Inventor Part", Some("IPT"), "model/x-ipt", "ipt", "Model"),
(ff_all::FileFormat::AutodeskInventorPresentation, "AutodeskInventorPresentation", "Autodesk Inventor Presentation", Some("IPN"), "model/x-ipn", "ipn", "Model"),
(ff_all::FileFormat::Av1ImageFileFormat, "Av1ImageFileFormat", "AV1 Image File Format", Some("AVIF"), "image/avif", "avif", "Image"),
(ff_all::FileFormat::Av1ImageFileFormatSequence, "Av1ImageFileFormatSequence", "AV1 Image File Format Sequence", Some("AVIFS"), "image/avif-sequence", "avifs", "Image"),
(ff_all::FileFormat::BdavMpeg2TransportStream, "BdavMpeg2TransportStream", "BDAV MPEG-2 Transport Stream", Some("M2TS"), "video/mp2t", "m2ts", "Video"),
(ff_all::FileFormat::BetterPortableGraphics, "BetterPortableGraphics", "Better Portable Graphics", Some("BPG"), "image/bpg", "bpg", "Image"),
(ff_all::FileFormat::Bittorrent, "Bittorrent", "BitTorrent", Some("Torrent"), "application/x-bittorrent", "torrent", "Metadata"),
(ff_all::FileFormat::Blender, "Blender", "Blender", Some("BLEND"), "application/x-blender", "blend", "Model"),
(ff_all::FileFormat::BmfontAscii, "BmfontAscii", "BMFont ASCII", Some("FNT"), "application/x-angelcode-bmfont", "fnt", "Font"),
(ff_all::FileFormat::BmfontBinary, "BmfontBinary", "BMFont Binary", Some("FNT"), "application/x-angelcode-bmfont", "fnt", "Font"),
(ff_all::FileFormat::BroadBandEbook, "BroadBandEbook", "Broad Band eBook", Some("BBeB"), "application/x-lrf", "lrf", "Ebook"),
(ff_all::FileFormat::Bzip, "Bzip", "bzip", Some("BZ"), "application/x-bzip", "bz", "Compressed"),
(ff_all::FileFormat::Bzip2, "Bzip2", "bzip2", Some("BZ2"), "application/x-bzip2", "bz2", "Compressed"),
(ff_all::FileFormat::Bzip3, "Bzip3", "BZip3", Some("BZ3"), "application/x-bzip3", "bz3", "Compressed"),
(ff_all::FileFormat::Cabinet, "Cabinet", "Cabinet", Some("CAB"), "application/vnd.ms-cab-compressed", "cab", "Archive"),
(ff_all::FileFormat::CanonRaw, "CanonRaw", "Canon Raw", Some("CRW"), "image/x-canon-crw", "crw", "Image"),
(ff_all::FileFormat::CanonRaw2, "CanonRaw2", "Canon Raw 2", Some("CR2"), "image/x-canon-cr2", "cr2", "Image"),
(ff_all::FileFormat::CanonRaw3, "CanonRaw3", "Canon Raw 3", Some("CR3"), "image/x-canon-cr3", "cr3", "Image"),
(ff_all::FileFormat::CdAudio, "CdAudio", "CD Audio", Some("CDA"), "application/x-cdf", "cda", "Metadata"),
(ff_all::FileFormat::Cinema4d, "Cinema4d", "Cinema 4D", Some("C4D"), "model/x-c4d", "c4d", "Model"),
(ff_all::FileFormat::Cineon, "Cineon", "Cineon", Some("CIN"), "image/cineon", "cin", "Image"),
(ff_all::FileFormat::CircuitDiagramDocument, "CircuitDiagramDocument", "Circuit Diagram Document", Some("CDDX"), "application/vnd.circuitdiagram.document.main+xml", "cddx", "Diagram"),
(ff_all::FileFormat::ClojureScript, "ClojureScript", "Clojure Script", None, "text/x-clojure", "clj", "Other"),
(ff_all::FileFormat::CollaborativeDesignActivity, "CollaborativeDesignActivity", "Collaborative Design Activity", Some("COLLADA"), "model/vnd.collada+xml", "dae", "Model"),
(ff_all::FileFormat::Commodore64Cartridge, "Commodore64Cartridge", "Commodore 64 Cartridge", Some("CRT"), "application/x-commodore-64-cartridge", "crt", "Rom"),
(ff_all::FileFormat::Commodore64Program, "Commodore64Program", "Commodore 64 Program", Some("PRG"), "application/x-commodore-64-program", "prg", "Executable"),
(ff_all::FileFormat::CommonObjectFileFormat, "CommonObjectFileFormat", "Common Object File Format", Some("COFF"), "application/x-coff", "coff", "Executable"),
(ff_all::FileFormat::CompoundFileBinary, "CompoundFileBinary", "Compound File Binary", Some("CFB"), "application/x-cfb", "cfb", "Other"),
(ff_all::FileFormat::CorelPresentations, "CorelPresentations", "Corel Presentations", Some("SHW"), "application/x-corelpresentations", "shw", "Presentation"),
(ff_all::FileFormat::CorelPresentations7, "CorelPresentations7", "Corel Presentations 7", Some("SHW"), "application/x-corelpresentations", "shw", "Presentation"),
(ff_all::FileFormat::Cpio, "Cpio", "cpio", None, "application/x-cpio", "cpio", "Archive"),
(ff_all::FileFormat::CreativeVoice, "CreativeVoice", "Creative Voice", Some("VOC"), "audio/x-voc", "voc", "Audio"),
(ff_all::FileFormat::DalvikExecutable, "DalvikExecutable", "Dalvik Executable", Some("DEX"), "application/vnd.android.dex", "dex", "Executable"),
(ff_all::FileFormat::DebianPackage, "DebianPackage", "Debian Package", Some("DEB"), "application/vnd.debian.binary-package", "deb", "Package"),
(ff_all::FileFormat::DerCertificate, "DerCertificate", "DER Certificate", Some("DER"), "application/x-x509-ca-cert", "der", "Other"),
(ff_all::FileFormat::DesignWebFormat, "DesignWebFormat", "Design Web Format", Some("DWF"), "model/vnd.dwf", "dwf", "Model"),
(ff_all::FileFormat::DesignWebFormatXps, "DesignWebFormatXps", "Design Web Format XPS", Some("DWFX"), "model/vnd.dwfx+xps", "dwfx", "Model"),
(ff_all::FileFormat::DigitalImagingAndCommunicationsInMedicine, "DigitalImagingAndCommunicationsInMedicine", "Digital Imaging and Communications in Medicine", Some("DICOM"), "application/dicom", "dcm", "Other"),
(ff_all::FileFormat::DigitalPictureExchange, "DigitalPictureExchange", "Digital Picture Exchange", Some("DPX"), "image/x-dpx", "dpx", "Image"),
(ff_all::FileFormat::Djvu, "Djvu", "DjVu", None, "image/vnd.djvu", "djvu", "Document"),
(ff_all::FileFormat::DrawingExchangeFormatAscii, "DrawingExchangeFormatAscii", "Drawing Exchange Format ASCII", Some("DXF"), "application/x-dxf", "dxf", "Model"),
(ff_all::FileFormat::DrawingExchangeFormatBinary, "DrawingExchangeFormatBinary", "Drawing Exchange Format Binary", Some("DXF"), "application/x-dxf", "dxf", "Model"),
(ff_all::FileFormat::Drawio, "Drawio", "draw.io", Some("DRAWIO"), "application/vnd.jgraph.mxfile", "drawio", "Diagram"),
(ff_all::FileFormat::DynamicLinkLibrary, "DynamicLinkLibrary", "Dynamic Link Library", Some("DLL"), "application/vnd.microsoft.portable-executable", "dll", "Executable"),
(ff_all::FileFormat::EightBitSampledVoice, "EightBitSampledVoice", "8-Bit Sampled Voice", Some("8SVX"), "audio/x-8svx", "8svx", "Audio"),
(ff_all::FileFormat::ElectronicPublication, "ElectronicPublication", "Electronic Publication", Some("EPUB"), "application/epub+zip", "epub", "Ebook"),
(ff_all::FileFormat::EmbeddedOpentype, "EmbeddedOpentype", "Embedded OpenType", Some("EOT"), "application/vnd.ms-fontobject", "eot", "Font"),
(ff_all::FileFormat::Empty, "Empty", "Empty", None, "application/x-empty", "empty", "Other"),
(ff_all::FileFormat::EncapsulatedPostscript, "EncapsulatedPostscript", "Encapsulated PostScript", Some("EPS"), "application/eps", "eps", "Image"),
(ff_all::FileFormat::EnhancedMetafile, "EnhancedMetafile", "Enhanced Metafile", Some("EMF"), "image/emf", "emf", "Image"),
(ff_all::FileFormat::EnterpriseApplicationArchive, "EnterpriseApplicationArchive", "Enterprise Application Archive", Some("EAR"), "application/java-archive", "ear", "Package"),
(ff_all::FileFormat::ExecutableAndLinkableFormat, "ExecutableAndLinkableFormat", "Executable and Linkable Format", Some("ELF"), "application/x-executable", "elf", "Executable"),
(ff_all::FileFormat::ExperimentalComputingFacility, "ExperimentalComputingFacility", "Experimental Computing Facility", Some("XCF"), "image/x-xcf", "xcf", "Image"),
(ff_all::FileFormat::Extensible3d, "Extensible3d", "Extensible 3D", Some("X3D"), "model/x3d+xml", "x3d", "Model"),
(ff_all::FileFormat::ExtensibleArchive, "ExtensibleArchive", "Extensible Archive", Some("XAR"), "application/x-xar", "xar", "Archive"),
(ff_all::FileFormat::ExtensibleBinaryMetaLanguage, "ExtensibleBinaryMetaLanguage", "Extensible Binary Meta Language", Some("EBML"), "application/x-ebml", "ebml", "Other"),
(ff_all::FileFormat::ExtensibleMarkupLanguage, "ExtensibleMarkupLanguage", "Extensible Markup Language", Some("XML"), "text/xml", "xml", "Other"),
(ff_all::FileFormat::ExtensibleStylesheetLanguageTransformations, "ExtensibleStylesheetLanguageTransformations", "Extensible Stylesheet Language Transformations", Some("XSLT"), "application/xslt+xml", "xsl", "Other"),
(ff_all::FileFormat::Farbfeld, "Farbfeld", "farbfeld", Some("FF"), "image/x-ff", "ff", "Image"),
(ff_all::FileFormat::Fasttracker2ExtendedModule, "Fasttracker2ExtendedModule", "FastTracker 2 Extended Module", Some("XM"), "audio/x-xm", "xm", "Audio"),
(ff_all::FileFormat::Fictionbook, "Fictionbook", "FictionBook", Some("FB2"), "application/x-fb2+xml", "fb2", "Ebook"),
(ff_all::FileFormat::FictionbookZip, "FictionbookZip", "FictionBook ZIP", Some("FBZ"), "application/x-fbz", "fbz", "Ebook"),
(ff_all::FileFormat::FigletFont, "FigletFont", "FIGlet Font", Some("FLF"), "application/x-figlet", "flf", "Font"),
(ff_all::FileFormat::FigmaDesign, "FigmaDesign", "Figma Design", Some("FIG"), "image/x-figma", "fig", "Image"),
(ff_all::FileFormat::Filmbox, "Filmbox", "Filmbox", Some("FBX"), "application/vnd.autodesk.fbx", "fbx", "Model"),
(ff_all::FileFormat::FlashCs5Project, "FlashCs5Project", "Flash CS5 Project", Some("FLA"), "application/vnd.adobe.fla", "fla", "Other"),
(ff_all::FileFormat::FlashMp4Audio, "FlashMp4Audio", "Flash MP4 Audio", Some("F4A"), "audio/mp4", "f4a", "Audio"),
(ff_all::FileFormat::FlashMp4Audiobook, "FlashMp4Audiobook", "Flash MP4 Audiobook", Some("F4B"), "audio/mp4", "f4b", "Audio"),
(ff_all::FileFormat::FlashMp4ProtectedVideo, "FlashMp4ProtectedVideo", "Flash MP4 Protected Video", Some("F4P"), "video/mp4", "f4p", "Video"),
(ff_all::FileFormat::FlashMp4Video, "FlashMp4Video", "Flash MP4 Video", Some("F4V"), "video/mp4", "f4v", "Video"),
(ff_all::FileFormat::FlashProject, "FlashProject", "Flash Project", Some("FLA"), "application/vnd.adobe.fla", "fla", "Other"),
(ff_all::FileFormat::FlashVideo, "FlashVideo", "Flash Video", Some("FLV"), "video/x-flv", "flv", "Video"),
(ff_all::FileFormat::FlexibleAndInteroperableDataTransfer, "FlexibleAndInteroperableDataTransfer", "Flexible and Interoperable Data Transfer", Some("FIT"), "application/x-fit", "fit", "Geospatial"),
(ff_all::FileFormat::FlexibleImageTransportSystem, "FlexibleImageTransportSystem", "Flexible Image Transport System", Some("FITS"), "application/fits", "fits", "Other"),
(ff_all::FileFormat::FreeLosslessAudioCodec, "FreeLosslessAudioCodec", "Free Lossless Audio Codec", Some("FLAC"), "audio/flac", "flac", "Audio"),
(ff_all::FileFormat::FreeLosslessImageFormat, "FreeLosslessImageFormat", "Free Lossless Image Format", Some("FLIF"), "image/flif", "flif", "Image"),
(ff_all::FileFormat::FujifilmRaw, "FujifilmRaw", "Fujifilm Raw", Some("RAF"), "image/x-fuji-raf", "raf", "Image"),
(ff_all::FileFormat::Fusion360, "Fusion360", "Fusion 360", Some("F3D"), "model/x-f3d", "f3d", "Model"),
(ff_all::FileFormat::GameBoyAdvanceRom, "GameBoyAdvanceRom", "Game Boy Advance ROM", Some("GBA"), "application/x-gba-rom", "gba", "Rom"),
(ff_all::FileFormat::GameBoyColorRom, "GameBoyColorRom", "Game Boy Color ROM", Some("GBC"), "application/x-gameboy-color-rom", "gbc", "Rom"),
(ff_all::FileFormat::GameBoyRom, "GameBoyRom", "Game Boy ROM", Some("GB"), "application/x-gameboy-rom", "gb", "Rom"),
(ff_all::FileFormat::GameGearRom, "GameGearRom", "Game Gear ROM", Some("GG"), "application/x-gamegear-rom", "gg", "Rom"),
(ff_all::FileFormat::GeographyMarkupLanguage, "GeographyMarkupLanguage", "Geography Markup Language", Some("GML"), "application/gml+xml", "gml", "Geospatial"),
(ff_all::FileFormat::GettextMachineObject, "GettextMachineObject", "gettext Machine Object", Some("MO"), "application/x-gettext-translation", "mo", "Other"),
(ff_all::FileFormat::GlTransmissionFormatBinary, "GlTransmissionFormatBinary", "GL Transmission Format Binary", Some("GLB"), "model/gltf-binary", "glb", "Model"),
(ff_all::FileFormat::Glyphs, "Glyphs", "Glyphs", None, "font/x-glyphs", "glyphs", "Font"),
(ff_all::FileFormat::GoogleChromeExtension, "GoogleChromeExtension", "Google Chrome Extension", Some("CRX"), "application/x-google-chrome-extension", "crx", "Package"),
(ff_all::FileFormat::GoogleDraco, "GoogleDraco", "Google Draco", Some("Draco"), "model/x-draco", "drc", "Model"),
(ff_all::FileFormat::GpsExchangeFormat, "GpsExchangeFormat", "GPS Exchange Format", Some("GPX"), "application/gpx+xml", "gpx", "Geospatial"),
(ff_all::FileFormat::GraphicsInterchangeFormat, "GraphicsInterchangeFormat", "Graphics Interchange Format", Some("GIF"), "image/gif", "gif", "Image"),
(ff_all::FileFormat::Gzip, "Gzip", "gzip", Some("GZ"), "application/gzip", "gz", "Compressed"),
(ff_all::FileFormat::HighEfficiencyImageCoding, "HighEfficiencyImageCoding", "High Efficiency Image Coding", Some("HEIC"), "image/heic", "heic", "Image"),
(ff_all::FileFormat::HighEfficiencyImageCodingSequence, "HighEfficiencyImageCodingSequence", "High Efficiency Image Coding Sequence", Some("HEICS"), "image/heic-sequence", "heics", "Image"),
(ff_all::FileFormat::HighEfficiencyImageFileFormat, "HighEfficiencyImageFileFormat", "High Efficiency Image File Format", Some("HEIF"), "image/heif", "heif", "Image"),
(ff_all::FileFormat::HighEfficiencyImageFileFormatSequence, "HighEfficiencyImageFileFormatSequence", "High Efficiency Image File Format Sequence", Some("HEIFS"), "image/heif-sequence", "heifs", "Image"),
(ff_all::FileFormat::HypertextMarkupLanguage, "HypertextMarkupLanguage", "HyperText Markup Language", Some("HTML"), "text/html", "html", "Other"),
(ff_all::FileFormat::Icalendar, "Icalendar", "iCalendar", Some("ICS"), "text/calendar", "ics", "Other"),
(ff_all::FileFormat::IccProfile, "IccProfile", "ICC Profile", Some("ICC"), "application/vnd.iccprofile", "icc", "Other"),
(ff_all::FileFormat::Id3v2, "Id3v2", "ID3v2", Some("ID3"), "application/x-id3v2", "id3", "Metadata"),
(ff_all::FileFormat::ImpulseTrackerModule, "ImpulseTrackerModule", "Impulse Tracker Module", Some("IT"), "audio/x-it", "it", "Audio"),
(ff_all::FileFormat::IndesignMarkupLanguage, "IndesignMarkupLanguage", "InDesign Markup Language", Some("IDML"), "application/vnd.adobe.indesign-idml-package", "idml", "Document"),
(ff_all::FileFormat::InitialGraphicsExchangeSpecification, "InitialGraphicsExchangeSpecification", "Initial Graphics Exchange Specification", Some("IGES"), "model/iges", "iges", "Model"),
(ff_all::FileFormat::InterQuakeExport, "InterQuakeExport", "Inter-Quake Export", Some("IQE"), "model/x-iqe", "iqe", "Model"),
(ff_all::FileFormat::InterQuakeModel, "InterQuakeModel", "Inter-Quake Model", Some("IQM"), "model/x-iqm", "iqm", "Model"),
(ff_all::FileFormat::IosAppStorePackage, "IosAppStorePackage", "iOS App Store Package", Some("IPA"), "application/x-ios-app", "ipa", "Package"),
(ff_all::FileFormat::Iso9660, "Iso9660", "ISO 9660", Some("ISO"), "application/x-iso9660-image", "iso", "Disk"),
(ff_all::FileFormat::JavaArchive, "JavaArchive", "Java Archive", Some("JAR"), "application/java-archive", "jar", "Package"),
(ff_all::FileFormat::JavaClass, "JavaClass", "Java Class", None, "application/java-vm", "class", "Executable"),
(ff_all::FileFormat::JavaKeystore, "JavaKeystore", "Java KeyStore", Some("JKS"), "application/x-java-keystore", "jks", "Other"),
(ff_all::FileFormat::JointPhotographicExpertsGroup, "JointPhotographicExpertsGroup", "Joint Photographic Experts Group", Some("JPEG"), "image/jpeg", "jpg", "Image"),
(ff_all::FileFormat::Jpeg2000Codestream, "Jpeg2000Codestream", "JPEG 2000 Codestream", Some("J2C"), "image/x-jp2-codestream", "j2c", "Image"),
(ff_all::FileFormat::Jpeg2000Part1, "Jpeg2000Part1", "JPEG 2000 Part 1", Some("JP2"), "image/jp2", "jp2", "Image"),
(ff_all::FileFormat::Jpeg2000Part2, "Jpeg2000Part2", "JPEG 2000 Part 2", Some("JPX"), "image/jpx", "jpx", "Image"),
(ff_all::FileFormat::Jpeg2000Part3, "Jpeg2000Part3", "JPEG 2000 Part 3", Some("MJ2"), "video/mj2", "mj2", "Video"),
(ff_all::FileFormat::Jpeg2000Part6, "Jpeg2000Part6", "JPEG 2000 Part 6", Some("JPM"), "image/jpm", "jpm", "Image"),
(ff_all::FileFormat::JpegExtendedRange, "JpegExtendedRange", "JPEG Extended Range", Some("JXR"), "image/jxr", "jxr", "Image"),
(ff_all::FileFormat::JpegLs, "JpegLs", "JPEG-LS", Some("JLS"), "image/jls", "jls", "Image"),
(ff_all::FileFormat::JpegNetworkGraphics, "JpegNetworkGraphics", "JPEG Network Graphics", Some("JNG"), "image/x-jng", "jng", "Image"),
(ff_all::FileFormat::JpegXl, "JpegXl", "JPEG XL", Some("JXL"), "image/jxl", "jxl", "Image"),
(ff_all::FileFormat::JsonFeed, "JsonFeed", "JSON Feed", None, "application/feed+json", "json", "Other"),
(ff_all::FileFormat::KeyholeMarkupLanguage, "KeyholeMarkupLanguage", "Keyhole Markup Language", Some("KML"), "application/vnd.google-earth.kml+xml", "kml", "Geospatial"),
(ff_all::FileFormat::KeyholeMarkupLanguageZip, "KeyholeMarkupLanguageZip", "Keyhole Markup Language ZIP", Some("KMZ"), "application/vnd.google-earth.kmz", "kmz", "Geospatial"),
(ff_all::FileFormat::KhronosTexture, "KhronosTexture", "Khronos Texture", Some("KTX"), "image/ktx", "ktx", "Image"),
(ff_all::FileFormat::KhronosTexture2, "KhronosTexture2", "Khronos Texture 2", Some("KTX2"), "image/ktx2", "ktx2", "Image"),
(ff_all::FileFormat::Larc, "Larc", "LArc", Some("LZS"), "application/x-lzh-compressed", "lzs", "Archive"),
(ff_all::FileFormat::Latex, "Latex", "LaTeX", Some("TeX"), "text/x-tex", "tex", "Document"),
(ff_all::FileFormat::LempelZivFiniteStateEntropy, "LempelZivFiniteStateEntropy", "Lempel-Ziv Finite State Entropy", Some("LZFSE"), "application/x-lzfse", "lzfse", "Compressed"),
(ff_all::FileFormat::LempelZivMarkovChainAlgorithm, "LempelZivMarkovChainAlgorithm", "Lempel-Ziv-Markov chain algorithm", Some("LZMA"), "application/x-lzma", "lzma", "Compressed"),
(ff_all::FileFormat::Lha, "Lha", "LHA", None, "application/x-lzh-compressed", "lzh", "Archive"),
(ff_all::FileFormat::LinearExecutable, "LinearExecutable", "Linear Executable", Some("LE"), "application/x-dosexec", "exe", "Executable"),
(ff_all::FileFormat::LlvmBitcode, "LlvmBitcode", "LLVM Bitcode", Some("BC"), "application/x-llvm", "bc", "Executable"),
(ff_all::FileFormat::LongRangeZip, "LongRangeZip", "Long Range ZIP", Some("LRZIP"), "application/x-lrzip", "lrz", "Compressed"),
(ff_all::FileFormat::LuaBytecode, "LuaBytecode", "Lua Bytecode", None, "application/x-lua-bytecode", "luac", "Executable"),
(ff_all::FileFormat::LuaScript, "LuaScript", "Lua Script", None, "text/x-lua", "lua", "Other"),
(ff_all::FileFormat::Lz4, "Lz4", "LZ4", None, "application/x-lz4", "lz4", "Compressed"),
(ff_all::FileFormat::Lzip, "Lzip", "lzip", Some("LZ"), "application/x-lzip", "lz", "Compressed"),
(ff_all::FileFormat::Lzop, "Lzop", "lzop", Some("LZO"), "application/x-lzop", "lzo", "Compressed"),
(ff_all::FileFormat::MachO, "MachO", "Mach-O", None, "application/x-mach-binary", "mach", "Executable"),
(ff_all::FileFormat::MacosAlias, "MacosAlias", "macOS Alias", None, "application/x-apple-alias", "alias", "Metadata"),
(ff_all::FileFormat::Magicavoxel, "Magicavoxel", "MagicaVoxel", Some("VOX"), "model/x-vox", "vox", "Model"),
(ff_all::FileFormat::MagickImageFileFormat, "MagickImageFileFormat", "Magick Image File Format", Some("MIFF"), "image/x-miff", "miff", "Image"),
(ff_all::FileFormat::MaterialExchangeFormat, "MaterialExchangeFormat", "Material Exchange Format", Some("MXF"), "application/mxf", "mxf", "Video"),
(ff_all::FileFormat::MathematicalMarkupLanguage, "MathematicalMarkupLanguage", "Mathematical Markup Language", Some("MathML"), "application/mathml+xml", "mathml", "Formula"),
(ff_all::FileFormat::Matroska3dVideo, "Matroska3dVideo", "Matroska 3D Video", Some("MK3D"), "video/matroska", "mk3d", "Video"),
(ff_all::FileFormat::MatroskaAudio, "MatroskaAudio", "Matroska Audio", Some("MKA"), "audio/matroska", "mka", "Audio"),
(ff_all::FileFormat::MatroskaSubtitles, "MatroskaSubtitles", "Matroska Subtitles", Some("MKS"), "application/x-matroska", "mks", "Subtitle"),
(ff_all::FileFormat::MatroskaVideo, "MatroskaVideo", "Matroska Video", Some("MKV"), "video/matroska", "mkv", "Video"),
(ff_all::FileFormat::MayaAscii, "MayaAscii", "Maya ASCII", Some("MA"), "application/x-maya-ascii", "ma", "Model"),
(ff_all::FileFormat::MayaBinary, "MayaBinary", "Maya Binary", Some("MB"), "application/x-maya-binary", "mb", "Model"),
(ff_all::FileFormat::MegaDriveRom, "MegaDriveRom", "Mega Drive ROM", Some("MD"), "application/x-genesis-rom", "md", "Rom"),
(ff_all::FileFormat::MetaInformationEncapsulation, "MetaInformationEncapsulation", "Meta Information Encapsulation", Some("MIE"), "application/x-mie", "mie", "Metadata"),
(ff_all::FileFormat::MicrosoftAccess2007Database, "MicrosoftAccess2007Database", "Microsoft Access 2007 Database", Some("ACCDB"), "application/x-msaccess", "accdb", "Database"),
(ff_all::FileFormat::MicrosoftAccessDatabase, "MicrosoftAccessDatabase", "Microsoft Access Database", Some("MDB"), "application/x-msaccess", "mdb", "Database"),
(ff_all::FileFormat::MicrosoftCompiledHtmlHelp, "MicrosoftCompiledHtmlHelp", "Microsoft Compiled HTML Help", Some("CHM"), "application/vnd.ms-htmlhelp", "chm", "Other"),
(ff_all::FileFormat::MicrosoftDigitalVideoRecording, "MicrosoftDigitalVideoRecording", "Microsoft Digital Video Recording", Some("DVR-MS"), "video/x-ms-asf", "dvr-ms", "Video"),
(ff_all::FileFormat::MicrosoftDirectdrawSurface, "MicrosoftDirectdrawSurface", "Microsoft DirectDraw Surface", Some("DDS"), "image/vnd.ms-dds", "dds", "Image"),
(ff_all::FileFormat::MicrosoftExcelSpreadsheet, "MicrosoftExcelSpreadsheet", "Microsoft Excel Spreadsheet", Some("XLS"), "application/vnd.ms-excel", "xls", "Spreadsheet"),
(ff_all::FileFormat::MicrosoftPowerpointPresentation, "MicrosoftPowerpointPresentation", "Microsoft PowerPoint Presentation", Some("PPT"), "application/vnd.ms-powerpoint", "ppt", "Presentation"),
(ff_all::FileFormat::MicrosoftProjectPlan, "MicrosoftProjectPlan", "Microsoft Project Plan", Some("MPP"), "application/vnd.ms-project", "mpp", "Other"),
(ff_all::FileFormat::MicrosoftPublisherDocument, "MicrosoftPublisherDocument", "Microsoft Publisher Document", Some("PUB"), "application/vnd.ms-publisher", "pub", "Document"),
(ff_all::FileFormat::MicrosoftReader, "MicrosoftReader", "Microsoft Reader", Some("LIT"), "application/x-ms-reader", "lit", "Ebook"),
(ff_all::FileFormat::MicrosoftSoftwareInstaller, "MicrosoftSoftwareInstaller", "Microsoft Software Installer", Some("MSI"), "application/x-msi", "msi", "Package"),
(ff_all::FileFormat::MicrosoftVirtualHardDisk, "MicrosoftVirtualHardDisk", "Microsoft Virtual Hard Disk", Some("VHD"), "application/x-vhd", "vhd", "Disk"),
(ff_all::FileFormat::MicrosoftVirtualHardDisk2, "MicrosoftVirtualHardDisk2", "Microsoft Virtual Hard Disk 2", Some("VHDX"), "application/x-vhdx", "vhdx", "Disk"),
(ff_all::FileFormat::MicrosoftVisioDrawing, "MicrosoftVisioDrawing", "Microsoft Visio Drawing", Some("VSD"), "application/vnd.visio", "vsd", "Diagram"),
(ff_all::FileFormat::MicrosoftVisualStudioExtension, "MicrosoftVisualStudioExtension", "Microsoft Visual Studio Extension", Some("VSIX"), "application/vsix", "vsix", "Package"),
(ff_all::FileFormat::MicrosoftVisualStudioSolution, "MicrosoftVisualStudioSolution", "Microsoft Visual Studio Solution", Some("SLN"), "application/vnd.ms-developer", "sln", "Other"),
(ff_all::FileFormat::MicrosoftWordDocument, "MicrosoftWordDocument", "Microsoft Word Document", Some("DOC"), "application/msword", "doc", "Document"),
(ff_all::FileFormat::MicrosoftWorks6Spreadsheet, "MicrosoftWorks6Spreadsheet", "Microsoft Works 6 Spreadsheet", Some("XLR"), "application/vnd.ms-works", "xlr", "Spreadsheet"),
(ff_all::FileFormat::MicrosoftWorksDatabase, "MicrosoftWorksDatabase", "Microsoft Works Database", Some("WDB"), "application/vnd.ms-works-db", "wdb", "Database"),
(ff_all::FileFormat::MicrosoftWorksSpreadsheet, "MicrosoftWorksSpreadsheet", "Microsoft Works Spreadsheet", Some("WKS"), "application/vnd.ms-works", "wks", "Spreadsheet"),
(ff_all::FileFormat::MicrosoftWorksWordProcessor, "MicrosoftWorksWordProcessor", "Microsoft Works Word Processor", Some("WPS"), "application/vnd.ms-works", "wps", "Document"),
(ff_all::FileFormat::MicrosoftWrite, "MicrosoftWrite", "Microsoft Write", Some("WRI"), "application/x-mswrite", "wri", "Document"),
(ff_all::FileFormat::Mobipocket, "Mobipocket", "Mobipocket", Some("MOBI"), "application/x-mobipocket-ebook", "mobi", "Ebook"),
(ff_all::FileFormat::Model3dAscii, "Model3dAscii", "Model 3D ASCII", Some("A3D"), "text/x-3d-model", "a3d", "Model"),
(ff_all::FileFormat::Model3dBinary, "Model3dBinary", "Model 3D Binary", Some("M3D"), "model/x-3d-model", "m3d", "Model"),
(ff_all::FileFormat::MonkeysAudio, "MonkeysAudio", "Monkey's Audio", Some("APE"), "audio/x-ape", "ape", "Audio"),
(ff_all::FileFormat::MozillaArchive, "MozillaArchive", "Mozilla Archive", Some("MAR"), "application/x-mozilla-archive", "mar", "Archive"),
(ff_all::FileFormat::Mp3Url, "Mp3Url", "MP3 URL", Some("M3U"), "audio/x-mpegurl", "m3u", "Playlist"),
(ff_all::FileFormat::Mpeg12AudioLayer2, "Mpeg12AudioLayer2", "MPEG-1/2 Audio Layer 2", Some("MP2"), "audio/mpeg", "mp2", "Audio"),
(ff_all::FileFormat::Mpeg12AudioLayer3, "Mpeg12AudioLayer3", "MPEG-1/2 Audio Layer 3", Some("MP3"), "audio/mpeg", "mp3", "Audio"),
(ff_all::FileFormat::Mpeg12Video, "Mpeg12Video", "MPEG-1/2 Video", Some("MPG"), "video/mpeg", "mpg", "Video"),
(ff_all::FileFormat::Mpeg2TransportStream, "Mpeg2TransportStream", "MPEG-2 Transport Stream", Some("TS"), "video/mp2t", "ts", "Video"),
(ff_all::FileFormat::Mpeg4Part14, "Mpeg4Part14", "MPEG-4 Part 14", Some("MP4"), "application/mp4", "mp4", "Other"),
(ff_all::FileFormat::Mpeg4Part14Audio, "Mpeg4Part14Audio", "MPEG-4 Part 14 Audio", Some("MP4"), "audio/mp4", "mp4", "Audio"),
(ff_all::FileFormat::Mpeg4Part14Subtitles, "Mpeg4Part14Subtitles", "MPEG-4 Part 14 Subtitles", Some("MP4"), "application/mp4", "mp4", "Subtitle"),
(ff_all::FileFormat::Mpeg4Part14Video, "Mpeg4Part14Video", "MPEG-4 Part 14 Video", Some("MP4"), "video/mp4", "mp4", "Video"),
(ff_all::FileFormat::MpegDashMpd, "MpegDashMpd", "MPEG-DASH MPD", Some("MPD"), "application/dash+xml", "mpd", "Playlist"),
(ff_all::FileFormat::MsDosBatch, "MsDosBatch", "MS-DOS Batch", Some("Batch"), "text/x-msdos-batch", "bat", "Other"),
(ff_all::FileFormat::MsDosExecutable, "MsDosExecutable", "MS-DOS Executable", Some("EXE"), "application/x-dosexec", "exe", "Executable"),
(ff_all::FileFormat::Mtv, "Mtv", "MTV", None, "video/x-mtv", "mtv", "Video"),
(ff_all::FileFormat::MultiLayerArchive, "MultiLayerArchive", "Multi Layer Archive", Some("MLA"), "application/x-mla", "mla", "Archive"),
(ff_all::FileFormat::MultipleImageNetworkGraphics, "MultipleImageNetworkGraphics", "Multiple-image Network Graphics", Some("MNG"), "image/x-mng", "mng", "Image"),
(ff_all::FileFormat::Musepack, "Musepack", "Musepack", Some("MPC"), "audio/x-musepack", "mpc", "Audio"),
(ff_all::FileFormat::MusicalInstrumentDigitalInterface, "MusicalInstrumentDigitalInterface", "Musical Instrument Digital Interface", Some("MIDI"), "audio/midi", "mid", "Audio"),
(ff_all::FileFormat::Musicxml, "Musicxml", "MusicXML", None, "application/vnd.recordare.musicxml+xml", "musicxml", "Other"),
(ff_all::FileFormat::MusicxmlZip, "MusicxmlZip", "MusicXML ZIP", Some("MXL"), "application/vnd.recordare.musicxml", "mxl", "Other"),
(ff_all::FileFormat::NeoGeoPocketColorRom, "NeoGeoPocketColorRom", "Neo Geo Pocket Color ROM", Some("NGC"), "application/x-neo-geo-pocket-rom", "ngc", "Rom"),
(ff_all::FileFormat::NeoGeoPocketRom, "NeoGeoPocketRom", "Neo Geo Pocket ROM", Some("NGP"), "application/x-neo-geo-pocket-rom", "ngp", "Rom"),
(ff_all::FileFormat::NewExecutable, "NewExecutable", "New Executable", Some("NE"), "application/x-ms-ne-executable", "exe", "Executable"),
(ff_all::FileFormat::NikonElectronicFile, "NikonElectronicFile", "Nikon Electronic File", Some("NEF"), "image/x-nikon-nef", "nef", "Image"),
(ff_all::FileFormat::Nintendo64Rom, "Nintendo64Rom", "Nintendo 64 ROM", Some("Z64"), "application/x-n64-rom", "z64", "Rom"),
(ff_all::FileFormat::NintendoDsRom, "NintendoDsRom", "Nintendo DS ROM", Some("NDS"), "application/x-nintendo-ds-rom", "nds", "Rom"),
(ff_all::FileFormat::NintendoEntertainmentSystemRom, "NintendoEntertainmentSystemRom", "Nintendo Entertainment System ROM", Some("NES"), "application/x-nintendo-nes-rom", "nes", "Rom"),
(ff_all::FileFormat::NintendoSwitchExecutable, "NintendoSwitchExecutable", "Nintendo Switch Executable", Some("NSO"), "application/x-nintendo-switch-executable", "nso", "Executable"),
(ff_all::FileFormat::NintendoSwitchPackage, "NintendoSwitchPackage", "Nintendo Switch Package", Some("NSP"), "application/x-nintendo-switch-package", "nsp", "Package"),
(ff_all::FileFormat::NintendoSwitchRom, "NintendoSwitchRom", "Nintendo Switch ROM", Some("XCI"), "application/x-nintendo-switch-rom", "xci", "Rom"),
(ff_all::FileFormat::OfficeOpenXmlDocument, "OfficeOpenXmlDocument", "Office Open XML Document", Some("DOCX"), "application/vnd.openxmlformats-officedocument.wordprocessingml.document", "docx", "Document"),
(ff_all::FileFormat::OfficeOpenXmlDrawing, "OfficeOpenXmlDrawing", "Office Open XML Drawing", Some("VSDX"), "application/vnd.ms-visio.drawing.main+xml", "vsdx", "Diagram"),
(ff_all::FileFormat::OfficeOpenXmlPresentation, "OfficeOpenXmlPresentation", "Office Open XML Presentation", Some("PPTX"), "application/vnd.openxmlformats-officedocument.presentationml.presentation", "pptx", "Presentation"),
(ff_all::FileFormat::OfficeOpenXmlSpreadsheet, "OfficeOpenXmlSpreadsheet", "Office Open XML Spreadsheet", Some("XLSX"), "application/vnd.openxmlformats-officedocument.spreadsheetml.sheet", "xlsx", "Spreadsheet"),
(ff_all::FileFormat::OggFlac, "OggFlac", "Ogg FLAC", Some("OGA"), "audio/ogg", "oga", "Audio"),
(ff_all::FileFormat::OggMedia, "OggMedia", "Ogg Media", Some("OGM"), "video/ogg", "ogm", "Video"),
(ff_all::FileFormat::OggMultiplexedMedia, "OggMultiplexedMedia", "Ogg Multiplexed Media", Some("OGX"), "application/ogg", "ogx", "Other"),
(ff_all::FileFormat::OggOpus, "OggOpus", "Ogg Opus", Some("Opus"), "audio/opus", "opus", "Audio"),
(ff_all::FileFormat::OggSpeex, "OggSpeex", "Ogg Speex", Some("Speex"), "audio/ogg", "spx", "Audio"),
(ff_all::FileFormat::OggTheora, "OggTheora", "Ogg Theora", Some("Theora"), "video/ogg", "ogv", "Video"),
(ff_all::FileFormat::OggVorbis, "OggVorbis", "Ogg Vorbis", Some("Vorbis"), "audio/ogg", "ogg", "Audio"),
(ff_all::FileFormat::OlympusRawFormat, "OlympusRawFormat", "Olympus Raw Format", Some("ORF"), "image/x-olympus-orf", "orf", "Image"),
(ff_all::FileFormat::OpendocumentDatabase, "OpendocumentDatabase", "OpenDocument Database", Some("ODB"), "application/vnd.oasis.opendocument.database", "odb", "Database"),
(ff_all::FileFormat::OpendocumentFormula, "OpendocumentFormula", "OpenDocument Formula", Some("ODF"), "application/vnd.oasis.opendocument.formula", "odf", "Formula"),
(ff_all::FileFormat::OpendocumentFormulaTemplate, "OpendocumentFormulaTemplate", "OpenDocument Formula Template", Some("OTF"), "application/vnd.oasis.opendocument.formula-template", "otf", "Formula"),
(ff_all::FileFormat::OpendocumentGraphics, "OpendocumentGraphics", "OpenDocument Graphics", Some("ODG"), "application/vnd.oasis.opendocument.graphics", "odg", "Image"),
(ff_all::FileFormat::OpendocumentGraphicsTemplate, "OpendocumentGraphicsTemplate", "OpenDocument Graphics Template", Some("OTG"), "application/vnd.oasis.opendocument.graphics-template", "otg", "Image"),
(ff_all::FileFormat::OpendocumentPresentation, "OpendocumentPresentation", "OpenDocument Presentation", Some("ODP"), "application/vnd.oasis.opendocument.presentation", "odp", "Presentation"),
(ff_all::FileFormat::OpendocumentPresentationTemplate, "OpendocumentPresentationTemplate", "OpenDocument Presentation Template", Some("OTP"), "application/vnd.oasis.opendocument.presentation-template", "otp", "Presentation"),
(ff_all::FileFormat::OpendocumentSpreadsheet, "OpendocumentSpreadsheet", "OpenDocument Spreadsheet", Some("ODS"), "application/vnd.oasis.opendocument.spreadsheet", "ods", "Spreadsheet"),
(ff_all::FileFormat::OpendocumentSpreadsheetTemplate, "OpendocumentSpreadsheetTemplate", "OpenDocument Spreadsheet Template", Some("OTS"), "application/vnd.oasis.opendocument.spreadsheet-template", "ots", "Spreadsheet"),
(ff_all::FileFormat::OpendocumentText, "OpendocumentText", "OpenDocument Text", Some("ODT"), "application/vnd.oasis.opendocument.text", "odt", "Document"),
(ff_all::FileFormat::OpendocumentTextMaster, "OpendocumentTextMaster", "OpenDocument Text Master", Some("ODM"), "application/vnd.oasis.opendocument.text-master", "odm", "Document"),
(ff_all::FileFormat::OpendocumentTextMasterTemplate, "OpendocumentTextMasterTemplate", "OpenDocument Text Master Template", Some("OTM"), "application/vnd.oasis.opendocument.text-master-template", "otm", "Document"),
(ff_all::FileFormat::OpendocumentTextTemplate, "OpendocumentTextTemplate", "OpenDocument Text Template", Some("OTT"), "application/vnd.oasis.opendocument.text-template", "ott", "Document"),
(ff_all::FileFormat::Openexr, "Openexr", "OpenEXR", Some("EXR"), "image/x-exr", "exr", "Image"),
(ff_all::FileFormat::Opennurbs, "Opennurbs", "openNURBS", Some("3DM"), "model/x-3dm", "3dm", "Model"),
(ff_all::FileFormat::Openraster, "Openraster", "OpenRaster", Some("ORA"), "image/openraster", "ora", "Image"),
(ff_all::FileFormat::Opentype, "Opentype", "OpenType", Some("OTF"), "font/otf", "otf", "Font"),
(ff_all::FileFormat::Openxps, "Openxps", "OpenXPS", Some("OXPS"), "application/oxps", "xps", "Document"),
(ff_all::FileFormat::OptimizedDalvikExecutable, "OptimizedDalvikExecutable", "Optimized Dalvik Executable", Some("DEY"), "application/vnd.android.dey", "dey", "Executable"),
(ff_all::FileFormat::PanasonicRaw, "PanasonicRaw", "Panasonic Raw", Some("RW2"), "image/x-panasonic-rw2", "rw2", "Image"),
(ff_all::FileFormat::PcapDump, "PcapDump", "PCAP Dump", Some("PCAP"), "application/vnd.tcpdump.pcap", "pcap", "Other"),
(ff_all::FileFormat::PcapNextGenerationDump, "PcapNextGenerationDump", "PCAP Next Generation Dump", Some("PCAPNG"), "application/x-pcapng", "pcapng", "Other"),
(ff_all::FileFormat::PemCertificate, "PemCertificate", "PEM Certificate", Some("PEM"), "application/x-pem-file", "crt", "Other"),
(ff_all::FileFormat::PemCertificateSigningRequest, "PemCertificateSigningRequest", "PEM Certificate Signing Request", Some("PEM"), "application/x-pem-file", "csr", "Other"),
(ff_all::FileFormat::PemPrivateKey, "PemPrivateKey", "PEM Private Key", Some("PEM"), "application/x-pem-file", "key", "Other"),
(ff_all::FileFormat::PemPublicKey, "PemPublicKey", "PEM Public Key", Some("PEM"), "application/x-pem-file", "pub", "Other"),
(ff_all::FileFormat::PerlScript, "PerlScript", "Perl Script", None, "text/x-perl", "pl", "Other"),
(ff_all::FileFormat::PersonalStorageTable, "PersonalStorageTable", "Personal Storage Table", Some("PST"), "application/vnd.ms-outlook", "pst", "Other"),
(ff_all::FileFormat::PgpMessage, "PgpMessage", "PGP Message", Some("PGP"), "application/pgp", "asc", "Other"),
(ff_all::FileFormat::PgpPrivateKeyBlock, "PgpPrivateKeyBlock", "PGP Private Key Block", Some("PGP"), "application/pgp-keys", "asc", "Other"),
(ff_all::FileFormat::PgpPublicKeyBlock, "PgpPublicKeyBlock", "PGP Public Key Block", Some("PGP"), "application/pgp-keys", "asc", "Other"),
(ff_all::FileFormat::PgpSignature, "PgpSignature", "PGP Signature", Some("PGP"), "application/pgp-signature", "asc", "Other"),
(ff_all::FileFormat::PgpSignedMessage, "PgpSignedMessage", "PGP Signed Message", Some("PGP"), "application/pgp", "asc", "Other"),
(ff_all::FileFormat::PictureExchange, "PictureExchange", "Picture Exchange", Some("PCX"), "image/x-pcx", "pcx", "Image"),
(ff_all::FileFormat::PlainText, "PlainText", "Plain Text", Some("TXT"), "text/plain", "txt", "Other"),
(ff_all::FileFormat::Pmarc, "Pmarc", "PMarc", Some("PMA"), "application/x-lzh-compressed", "pma", "Archive"),
(ff_all::FileFormat::PolygonAscii, "PolygonAscii", "Polygon ASCII", Some("PLY"), "model/x-ply-ascii", "ply", "Model"),
(ff_all::FileFormat::PolygonBinary, "PolygonBinary", "Polygon Binary", Some("PLY"), "model/x-ply-binary", "ply", "Model"),
(ff_all::FileFormat::PortableArbitraryMap, "PortableArbitraryMap", "Portable Arbitrary Map", Some("PAM"), "image/x-portable-arbitrarymap", "pam", "Image"),
(ff_all::FileFormat::PortableBitmap, "PortableBitmap", "Portable BitMap", Some("PBM"), "image/x-portable-bitmap", "pbm", "Image"),
(ff_all::FileFormat::PortableDocumentFormat, "PortableDocumentFormat", "Portable Document Format", Some("PDF"), "application/pdf", "pdf", "Document"),
(ff_all::FileFormat::PortableExecutable, "PortableExecutable", "Portable Executable", Some("PE"), "application/vnd.microsoft.portable-executable", "exe", "Executable"),
(ff_all::FileFormat::PortableFloatmap, "PortableFloatmap", "Portable FloatMap", Some("PFM"), "image/x-pfm", "pfm", "Image"),
(ff_all::FileFormat::PortableGraymap, "PortableGraymap", "Portable GrayMap", Some("PGM"), "image/x-portable-graymap", "pgm", "Image"),
(ff_all::FileFormat::PortableNetworkGraphics, "PortableNetworkGraphics", "Portable Network Graphics", Some("PNG"), "image/png", "png", "Image"),
(ff_all::FileFormat::PortablePixmap, "PortablePixmap", "Portable PixMap", Some("PPM"), "image/x-portable-pixmap", "ppm", "Image"),
(ff_all::FileFormat::Postscript, "Postscript", "PostScript", Some("PS"), "application/postscript", "ps", "Document"),
(ff_all::FileFormat::PythonScript, "PythonScript", "Python Script", None, "text/x-script.python", "py", "Other"),
(ff_all::FileFormat::QemuCopyOnWrite, "QemuCopyOnWrite", "QEMU Copy On Write", Some("QCOW"), "application/x-qemu-disk", "qcow", "Disk"),
(ff_all::FileFormat::QualcommPurevoice, "QualcommPurevoice", "Qualcomm PureVoice", Some("QCP"), "audio/qcelp", "qcp", "Audio"),
(ff_all::FileFormat::QuiteOkAudio, "QuiteOkAudio", "Quite OK Audio", Some("QOA"), "audio/x-qoa", "qoa", "Audio"),
(ff_all::FileFormat::QuiteOkImage, "QuiteOkImage", "Quite OK Image", Some("QOI"), "image/x-qoi", "qoi", "Image"),
(ff_all::FileFormat::RadianceHdr, "RadianceHdr", "Radiance HDR", Some("HDR"), "image/vnd.radiance", "hdr", "Image"),
(ff_all::FileFormat::Realaudio, "Realaudio", "RealAudio", Some("RA"), "audio/x-pn-realaudio", "ra", "Audio"),
(ff_all::FileFormat::ReallySimpleSyndication, "ReallySimpleSyndication", "Really Simple Syndication", Some("RSS"), "application/rss+xml", "rss", "Other"),
(ff_all::FileFormat::Realmedia, "Realmedia", "RealMedia", Some("RM"), "application/vnd.rn-realmedia", "rm", "Other"),
(ff_all::FileFormat::Realvideo, "Realvideo", "RealVideo", Some("RV"), "video/x-pn-realvideo", "rv", "Video"),
(ff_all::FileFormat::RedHatPackageManager, "RedHatPackageManager", "Red Hat Package Manager", Some("RPM"), "application/x-rpm", "rpm", "Package"),
(ff_all::FileFormat::RichTextFormat, "RichTextFormat", "Rich Text Format", Some("RTF"), "application/rtf", "rtf", "Document"),
(ff_all::FileFormat::RoshalArchive, "RoshalArchive", "Roshal Archive", Some("RAR"), "application/vnd.rar", "rar", "Archive"),
(ff_all::FileFormat::RubyScript, "RubyScript", "Ruby Script", None, "text/x-ruby", "rb", "Other"),
(ff_all::FileFormat::Rzip, "Rzip", "rzip", Some("RZ"), "application/x-rzip", "rz", "Compressed"),
(ff_all::FileFormat::ScalableVectorGraphics, "ScalableVectorGraphics", "Scalable Vector Graphics", Some("SVG"), "image/svg+xml", "svg", "Image"),
(ff_all::FileFormat::ScreamTracker3Module, "ScreamTracker3Module", "Scream Tracker 3 Module", Some("S3M"), "audio/x-s3m", "s3m", "Audio"),
(ff_all::FileFormat::SegaMasterSystemRom, "SegaMasterSystemRom", "Sega Master System ROM", Some("SMS"), "application/x-sms-rom", "sms", "Rom"),
(ff_all::FileFormat::Seqbox, "Seqbox", "SeqBox", Some("SBX"), "application/x-sbx", "sbx", "Archive"),
(ff_all::FileFormat::SevenZip, "SevenZip", "7-Zip", Some("7Z"), "application/x-7z-compressed", "7z", "Archive"),
(ff_all::FileFormat::Shapefile, "Shapefile", "Shapefile", Some("SHP"), "application/x-esri-shape", "shp", "Geospatial"),
(ff_all::FileFormat::ShellScript, "ShellScript", "Shell Script", None, "text/x-shellscript", "sh", "Other"),
(ff_all::FileFormat::ShoutcastPlaylist, "ShoutcastPlaylist", "SHOUTcast Playlist", Some("PLS"), "audio/x-scpls", "pls", "Playlist"),
(ff_all::FileFormat::SiliconGraphicsImage, "SiliconGraphicsImage", "Silicon Graphics Image", Some("SGI"), "image/x-sgi", "sgi", "Image"),
(ff_all::FileFormat::SiliconGraphicsMovie, "SiliconGraphicsMovie", "Silicon Graphics Movie", Some("SGI"), "video/x-sgi-movie", "sgi", "Video"),
(ff_all::FileFormat::SimpleObjectAccessProtocol, "SimpleObjectAccessProtocol", "Simple Object Access Protocol", Some("SOAP"), "application/soap+xml", "soap", "Other"),
(ff_all::FileFormat::Sketch, "Sketch", "Sketch", None, "image/x-sketch", "sketch", "Image"),
(ff_all::FileFormat::Sketch43, "Sketch43", "Sketch 43", None, "image/x-sketch", "sketch", "Image"),
(ff_all::FileFormat::Sketchup, "Sketchup", "SketchUp", Some("SKP"), "application/vnd.sketchup.skp", "skp", "Model"),
(ff_all::FileFormat::SmallWebFormat, "SmallWebFormat", "Small Web Format", Some("SWF"), "application/x-shockwave-flash", "swf", "Other"),
(ff_all::FileFormat::Snappy, "Snappy", "Snappy", None, "application/x-snappy-framed", "sz", "Compressed"),
(ff_all::FileFormat::SolidworksAssembly, "SolidworksAssembly", "SolidWorks Assembly", Some("SLDASM"), "model/x-sldasm", "sldasm", "Model"),
(ff_all::FileFormat::SolidworksDrawing, "SolidworksDrawing", "SolidWorks Drawing", Some("SLDDRW"), "model/x-slddrw", "slddrw", "Model"),
(ff_all::FileFormat::SolidworksPart, "SolidworksPart", "SolidWorks Part", Some("SLDPRT"), "model/x-sldprt", "sldprt", "Model"),
(ff_all::FileFormat::SonyDsdStreamFile, "SonyDsdStreamFile", "Sony DSD Stream File", Some("DSF"), "audio/x-dsf", "dsf", "Audio"),
(ff_all::FileFormat::SonyMovie, "SonyMovie", "Sony Movie", Some("MQV"), "video/quicktime", "mqv", "Video"),
(ff_all::FileFormat::Soundfont2, "Soundfont2", "SoundFont 2", Some("SF2"), "audio/x-soundfont", "sf2", "Audio"),
(ff_all::FileFormat::SpaceclaimDocument, "SpaceclaimDocument", "SpaceClaim Document", Some("SCDOC"), "model/x-scdoc", "scdoc", "Model"),
(ff_all::FileFormat::Sqlite3, "Sqlite3", "SQLite 3", None, "application/vnd.sqlite3", "sqlite", "Database"),
(ff_all::FileFormat::Squashfs, "Squashfs", "Squashfs", None, "application/x-squashfs", "sqsh", "Archive"),
(ff_all::FileFormat::StandardForTheExchangeOfProductModelData, "StandardForTheExchangeOfProductModelData", "Standard for the Exchange of Product model data", Some("STEP"), "model/step", "step", "Model"),
(ff_all::FileFormat::Starcalc, "Starcalc", "StarCalc", Some("SDC"), "application/vnd.stardivision.calc", "sdc", "Spreadsheet"),
(ff_all::FileFormat::Starchart, "Starchart", "StarChart", Some("SDS"), "application/vnd.stardivision.chart", "sds", "Diagram"),
(ff_all::FileFormat::Stardraw, "Stardraw", "StarDraw", Some("SDA"), "application/vnd.stardivision.draw", "sda", "Image"),
(ff_all::FileFormat::Starimpress, "Starimpress", "StarImpress", Some("SDD"), "application/vnd.stardivision.impress", "sdd", "Presentation"),
(ff_all::FileFormat::Starmath, "Starmath", "StarMath", Some("SMF"), "application/vnd.stardivision.math", "smf", "Formula"),
(ff_all::FileFormat::Starwriter, "Starwriter", "StarWriter", Some("SDW"), "application/vnd.stardivision.writer", "sdw", "Document"),
(ff_all::FileFormat::StereolithographyAscii, "StereolithographyAscii", "Stereolithography ASCII", Some("STL"), "model/x-stl-ascii", "stl", "Model"),
(ff_all::FileFormat::Stuffit, "Stuffit", "StuffIt", Some("SIT"), "application/x-stuffit", "sit", "Archive"),
(ff_all::FileFormat::StuffitX, "StuffitX", "StuffIt X", Some("SITX"), "application/x-stuffitx", "sitx", "Archive"),
(ff_all::FileFormat::SubripText, "SubripText", "SubRip Text", Some("SRT"), "application/x-subrip", "srt", "Subtitle"),
(ff_all::FileFormat::SunXmlCalc, "SunXmlCalc", "Sun XML Calc", Some("SXC"), "application/vnd.sun.xml.calc", "sxc", "Spreadsheet"),
(ff_all::FileFormat::SunXmlCalcTemplate, "SunXmlCalcTemplate", "Sun XML Calc Template", Some("STC"), "application/vnd.sun.xml.calc.template", "stc", "Spreadsheet"),
(ff_all::FileFormat::SunXmlDraw, "SunXmlDraw", "Sun XML Draw", Some("SXD"), "application/vnd.sun.xml.draw", "sxd", "Image"),
(ff_all::FileFormat::SunXmlDrawTemplate, "SunXmlDrawTemplate", "Sun XML Draw Template", Some("STD"), "application/vnd.sun.xml.draw.template", "std", "Image"),
(ff_all::FileFormat::SunXmlImpress, "SunXmlImpress", "Sun XML Impress", Some("SXI"), "application/vnd.sun.xml.impress", "sxi", "Presentation"),
(ff_all::FileFormat::SunXmlImpressTemplate, "SunXmlImpressTemplate", "Sun XML Impress Template", Some("STI"), "application/vnd.sun.xml.impress.template", "sti", "Presentation"),
(ff_all::FileFormat::SunXmlMath, "SunXmlMath", "Sun XML Math", Some("SXM"), "application/vnd.sun.xml.math", "sxm", "Formula"),
(ff_all::FileFormat::SunXmlWriter, "SunXmlWriter", "Sun XML Writer", Some("SXW"), "application/vnd.sun.xml.writer", "sxw", "Document"),
(ff_all::FileFormat::SunXmlWriterGlobal, "SunXmlWriterGlobal", "Sun XML Writer Global", Some("SGW"), "application/vnd.sun.xml.writer.global", "sgw", "Document"),
(ff_all::FileFormat::SunXmlWriterTemplate, "SunXmlWriterTemplate", "Sun XML Writer Template", Some("STW"), "application/vnd.sun.xml.writer.template", "stw", "Document"),
(ff_all::FileFormat::TagImageFileFormat, "TagImageFileFormat", "Tag Image File Format", Some("TIFF"), "image/tiff", "tiff", "Image"),
(ff_all::FileFormat::TapeArchive, "TapeArchive", "Tape Archive", Some("TAR"), "application/x-tar", "tar", "Archive"),
(ff_all::FileFormat::Tasty, "Tasty", "TASTy", None, "application/x-tasty", "tasty", "Metadata"),
(ff_all::FileFormat::ThirdGenerationPartnershipProject, "ThirdGenerationPartnershipProject", "3rd Generation Partnership Project", Some("3GPP"), "video/3gpp", "3gp", "Video"),
(ff_all::FileFormat::ThirdGenerationPartnershipProject2, "ThirdGenerationPartnershipProject2", "3rd Generation Partnership Project 2", Some("3GPP2"), "video/3gpp2", "3g2", "Video"),
(ff_all::FileFormat::ThreeDimensionalManufacturingFormat, "ThreeDimensionalManufacturingFormat", "3D Manufacturing Format", Some("3MF"), "application/vnd.ms-package.3dmanufacturing-3dmodel+xml", "3mf", "Model"),
(ff_all::FileFormat::ThreeDimensionalStudio, "ThreeDimensionalStudio", "3D Studio", Some("3DS"), "application/x-3ds", "3ds", "Model"),
(ff_all::FileFormat::ThreeDimensionalStudioMax, "ThreeDimensionalStudioMax", "3D Studio Max", Some("MAX"), "application/x-max", "max", "Model"),
(ff_all::FileFormat::TiledMapXml, "TiledMapXml", "Tiled Map XML", Some("TMX"), "application/x-tmx+xml", "tmx", "Other"),
(ff_all::FileFormat::TiledTilesetXml, "TiledTilesetXml", "Tiled Tileset XML", Some("TSX"), "application/x-tsx+xml", "tsx", "Other"),
(ff_all::FileFormat::TimedTextMarkupLanguage, "TimedTextMarkupLanguage", "Timed Text Markup Language", Some("TTML"), "application/ttml+xml", "ttml", "Subtitle"),
(ff_all::FileFormat::ToolCommandLanguageScript, "ToolCommandLanguageScript", "Tool Command Language Script", Some("Tcl Script"), "text/x-tcl", "tcl", "Other"),
(ff_all::FileFormat::TrainingCenterXml, "TrainingCenterXml", "Training Center XML", Some("TCX"), "application/vnd.garmin.tcx+xml", "tcx", "Geospatial"),
(ff_all::FileFormat::Truetype, "Truetype", "TrueType", Some("TTF"), "font/ttf", "ttf", "Font"),
(ff_all::FileFormat::TruetypeCollection, "TruetypeCollection", "TrueType Collection", Some("TTC"), "font/collection", "ttc", "Font"),
(ff_all::FileFormat::UltimateSoundtrackerModule, "UltimateSoundtrackerModule", "Ultimate Soundtracker Module", Some("MOD"), "audio/x-mod", "mod", "Audio"),
(ff_all::FileFormat::UniformOfficeFormatPresentation, "UniformOfficeFormatPresentation", "Uniform Office Format Presentation", Some("UOP"), "application/vnd.uof.presentation", "uop", "Presentation"),
(ff_all::FileFormat::UniformOfficeFormatSpreadsheet, "UniformOfficeFormatSpreadsheet", "Uniform Office Format Spreadsheet", Some("UOS"), "application/vnd.uof.spreadsheet", "uos", "Spreadsheet"),
(ff_all::FileFormat::UniformOfficeFormatText, "UniformOfficeFormatText", "Uniform Office Format Text", Some("UOT"), "application/vnd.uof.text", "uot", "Document"),
(ff_all::FileFormat::Universal3d, "Universal3d", "Universal 3D", Some("U3D"), "model/u3d", "u3d", "Model"),
(ff_all::FileFormat::UniversalSceneDescriptionAscii, "UniversalSceneDescriptionAscii", "Universal Scene Description ASCII", Some("USDA"), "model/x-usd", "usda", "Model"),
(ff_all::FileFormat::UniversalSceneDescriptionBinary, "UniversalSceneDescriptionBinary", "Universal Scene Description Binary", Some("USDC"), "model/x-usd", "usdc", "Model"),
(ff_all::FileFormat::UniversalSceneDescriptionZip, "UniversalSceneDescriptionZip", "Universal Scene Description ZIP", Some("USDZ"), "model/vnd.usdz+zip", "usdz", "Model"),
(ff_all::FileFormat::UniversalSubtitleFormat, "UniversalSubtitleFormat", "Universal Subtitle Format", Some("USF"), "application/x-usf", "usf", "Subtitle"),
(ff_all::FileFormat::UnixArchiver, "UnixArchiver", "UNIX archiver", Some("archiver"), "application/x-archive", "a", "Archive"),
(ff_all::FileFormat::UnixCompress, "UnixCompress", "UNIX compress", Some("compress"), "application/x-compress", "Z", "Compressed"),
(ff_all::FileFormat::Vcalendar, "Vcalendar", "vCalendar", Some("VCS"), "text/calendar", "vcs", "Other"),
(ff_all::FileFormat::Vcard, "Vcard", "vCard", Some("VCF"), "text/vcard", "vcf", "Other"),
(ff_all::FileFormat::VirtualMachineDisk, "VirtualMachineDisk", "Virtual Machine Disk", Some("VMDK"), "application/x-vmdk", "vmdk", "Disk"),
(ff_all::FileFormat::VirtualRealityModelingLanguage, "VirtualRealityModelingLanguage", "Virtual Reality Modeling Language", Some("VRML"), "model/vrml", "wrl", "Model"),
(ff_all::FileFormat::VirtualboxVirtualDiskImage, "VirtualboxVirtualDiskImage", "VirtualBox Virtual Disk Image", Some("VDI"), "application/x-virtualbox-vdi", "vdi", "Disk"),
(ff_all::FileFormat::WaveformAudio, "WaveformAudio", "Waveform Audio", Some("WAV"), "audio/vnd.wave", "wav", "Audio"),
(ff_all::FileFormat::Wavpack, "Wavpack", "WavPack", Some("WV"), "audio/wavpack", "wv", "Audio"),
(ff_all::FileFormat::WebApplicationArchive, "WebApplicationArchive", "Web Application Archive", Some("WAR"), "application/java-archive", "war", "Package"),
(ff_all::FileFormat::WebOpenFontFormat, "WebOpenFontFormat", "Web Open Font Format", Some("WOFF"), "font/woff", "woff", "Font"),
(ff_all::FileFormat::WebOpenFontFormat2, "WebOpenFontFormat2", "Web Open Font Format 2", Some("WOFF2"), "font/woff2", "woff2", "Font"),
(ff_all::FileFormat::WebVideoTextTracks, "WebVideoTextTracks", "Web Video Text Tracks", Some("WebVTT"), "text/vtt", "vtt", "Subtitle"),
(ff_all::FileFormat::WebassemblyBinary, "WebassemblyBinary", "WebAssembly Binary", Some("Wasm"), "application/wasm", "wasm", "Executable"),
(ff_all::FileFormat::WebassemblyText, "WebassemblyText", "WebAssembly Text", Some("WAT"), "text/wasm", "wat", "Other"),
(ff_all::FileFormat::Webm, "Webm", "WebM", None, "video/webm", "webm", "Video"),
(ff_all::FileFormat::Webp, "Webp", "WebP", None, "image/webp", "webp", "Image"),
(ff_all::FileFormat::WindowsAnimatedCursor, "WindowsAnimatedCursor", "Windows Animated Cursor", Some("ANI"), "application/x-navi-animation", "ani", "Image"),
(ff_all::FileFormat::WindowsAppBundle, "WindowsAppBundle", "Windows App Bundle", Some("APPXBUNDLE"), "application/vnd.ms-appx.bundle", "appxbundle", "Package"),
(ff_all::FileFormat::WindowsAppPackage, "WindowsAppPackage", "Windows App Package", Some("APPX"), "application/vnd.ms-appx", "appx", "Package"),
(ff_all::FileFormat::WindowsBitmap, "WindowsBitmap", "Windows Bitmap", Some("BMP"), "image/bmp", "bmp", "Image"),
(ff_all::FileFormat::WindowsCursor, "WindowsCursor", "Windows Cursor", Some("CUR"), "image/x-icon", "cur", "Image"),
(ff_all::FileFormat::WindowsIcon, "WindowsIcon", "Windows Icon", Some("ICO"), "image/x-icon", "ico", "Image"),
(ff_all::FileFormat::WindowsImagingFormat, "WindowsImagingFormat", "Windows Imaging Format", Some("WIM"), "application/x-ms-wim", "wim", "Archive"),
(ff_all::FileFormat::WindowsMediaAudio, "WindowsMediaAudio", "Windows Media Audio", Some("WMA"), "audio/x-ms-wma", "wma", "Audio"),
(ff_all::FileFormat::WindowsMediaPlaylist, "WindowsMediaPlaylist", "Windows Media Playlist", Some("WPL"), "application/vnd.ms-wpl", "wpl", "Playlist"),
(ff_all::FileFormat::WindowsMediaVideo, "WindowsMediaVideo", "Windows Media Video", Some("WMV"), "video/x-ms-wmv", "wmv", "Video"),
(ff_all::FileFormat::WindowsMetafile, "WindowsMetafile", "Windows Metafile", Some("WMF"), "image/wmf", "wmf", "Image"),
(ff_all::FileFormat::WindowsRecordedTvShow, "WindowsRecordedTvShow", "Windows Recorded TV Show", Some("WTV"), "video/x-wtv", "wtv", "Video"),
(ff_all::FileFormat::WindowsShortcut, "WindowsShortcut", "Windows Shortcut", Some("LNK"), "application/x-ms-shortcut", "lnk", "Metadata"),
(ff_all::FileFormat::WordperfectDocument, "WordperfectDocument", "WordPerfect Document", Some("WPD"), "application/vnd.wordperfect", "wpd", "Document"),
(ff_all::FileFormat::WordperfectGraphics, "WordperfectGraphics", "WordPerfect Graphics", Some("WPG"), "application/vnd.wordperfect", "wpg", "Image"),
(ff_all::FileFormat::WordperfectMacro, "WordperfectMacro", "WordPerfect Macro", Some("WPM"), "application/vnd.wordperfect", "wpm", "Other"),
(ff_all::FileFormat::WordperfectPresentations, "WordperfectPresentations", "WordPerfect Presentations", Some("SHW"), "application/vnd.wordperfect", "shw", "Presentation"),
(ff_all::FileFormat::XPixmap, "XPixmap", "X PixMap", Some("XPM"), "image/x-xpixmap", "xpm", "Image"),
(ff_all::FileFormat::Xap, "Xap", "XAP", None, "application/x-silverlight-app", "xap", "Package"),
(ff_all::FileFormat::Xbox360Executable, "Xbox360Executable", "Xbox 360 Executable", Some("XEX"), "application/x-xbox360-executable", "xex", "Executable"),
(ff_all::FileFormat::XboxExecutable, "XboxExecutable", "Xbox Executable", Some("XBE"), "application/x-xbox-executable", "xbe", "Executable"),
(ff_all::FileFormat::XmlLocalizationInterchangeFileFormat, "XmlLocalizationInterchangeFileFormat", "XML Localization Interchange File Format", Some("XLIFF"), "application/xliff+xml", "xlf", "Other"),
(ff_all::FileFormat::XmlShareablePlaylistFormat, "XmlShareablePlaylistFormat", "XML Shareable Playlist Format", Some("XSPF"), "application/xspf+xml", "xspf", "Playlist"),
(ff_all::FileFormat::Xpinstall, "Xpinstall", "XPInstall", Some("XPI"), "application/x-xpinstall", "xpi", "Package"),
(ff_all::FileFormat::Xz, "Xz", "XZ", None, "application/x-xz", "xz", "Compressed"),
(ff_all::FileFormat::Zip, "Zip", "ZIP", None, "application/zip", "zip", "Archive"),
(ff_all::FileFormat::Zoo, "Zoo", "zoo", None, "application/x-zoo", "zoo", "Archive"),
(ff_all::FileFormat::Zpaq, "Zpaq", "ZPAQ", None, "application/x-zpaq", "zpaq", "Archive"),
(ff_all::FileFormat::Zstandard, "Zstandard", "Zstandard", Some("zstd"), "application/zstd", "zst", "Compressed"),
];
pub static CLASSES: &[(&str, &str)] = &[("e60f81e1-49b3-11d0-93c3-7e0706000000", "AutodeskInventorAssembly"), ("bbf9fdf1-52dc-11d0-8c04-0800090be8ec", "AutodeskInventorDrawing"), ("4d29b490-49b2-11d0-93c3-7e0706000000", "AutodeskInventorPart"), ("76283a80-50dd-11d3-a7e3-00c04f79d7bc", "AutodeskInventorPresentation"), ("402efe62-1999-101b-99ae-04021c007002", "CorelPresentations7"), ("597caa70-72aa-11cf-831e-524153480000", "FlashProject"), ("b4f235fe-dca6-4803-b7b2-c25a453c836b", "FlashProject"), ("00020810-0000-0000-c000-000000000046", "MicrosoftExcelSpreadsheet"), ("00020820-0000-0000-c000-000000000046", "MicrosoftExcelSpreadsheet"), ("00044851-0000-0000-c000-000000000046", "MicrosoftPowerpointPresentation"), ("64818d10-4f9b-11cf-86ea-00aa00b929e8", "MicrosoftPowerpointPresentation"), ("ea7bae70-fb3b-11cd-a903-00aa00510ea3", "MicrosoftPowerpointPresentation"), ("74b78f3a-c8c8-11d1-be11-00c04fb6faf1", "MicrosoftProjectPlan"), ("00021201-0000-0000-00c0-000000000046", "MicrosoftPublisherDocument"), ("000c1084-0000-0000-c000-000000000046", "MicrosoftSoftwareInstaller"), ("00021a13-0000-0000-c000-000000000046", "MicrosoftVisioDrawing"), ("00021a14-0000-0000-c000-000000000046", "MicrosoftVisioDrawing"), ("00020900-0000-0000-c000-000000000046", "MicrosoftWordDocument"), ("00020906-0000-0000-c000-000000000046", "MicrosoftWordDocument"), ("00021303-0000-0000-c000-000000000046", "MicrosoftWorksDatabase"), ("28cddbc3-0ae2-11ce-a29a-00aa004a1a72", "MicrosoftWorksDatabase"), ("00021302-0000-0000-c000-000000000046", "MicrosoftWorksWordProcessor"), ("0ea45ab2-9e0a-11d1-a407-00c04fb932ba", "MicrosoftWorksWordProcessor"), ("28cddbc2-0ae2-11ce-a29a-00aa004a1a72", "MicrosoftWorksWordProcessor"), ("83a33d36-27c5-11ce-bfd4-00400513bb57", "SolidworksAssembly"), ("83a33d34-27c5-11ce-bfd4-00400513bb57", "SolidworksDrawing"), ("83a33d30-27c5-11ce-bfd4-00400513bb57", "SolidworksPart"), ("3f543fa0-b6a6-101b-9961-04021c007002", "Starcalc"), ("6361d441-4235-11d0-89cb-008029e4b0b1", "Starcalc"), ("c6a5b861-85d6-11d1-89cb-008029e4b0b1", "Starcalc"), ("02b3b7e0-4225-11d0-89ca-008029e4b0b1", "Starchart"), ("bf884321-85dd-11d1-89d0-008029e4b0b1", "Starchart"), ("fb9c99e0-2c6d-101c-8e2c-00001b4cc711", "Starchart"), ("2e8905a0-85bd-11d1-89d0-008029e4b0b1", "Stardraw"), ("af10aae0-b36d-101b-9961-04021c007002", "Stardraw"), ("012d3cc0-4216-11d0-89cb-008029e4b0b1", "Starimpress"), ("565c7221-85bc-11d1-89d0-008029e4b0b1", "Starimpress"), ("02b3b7e1-4225-11d0-89ca-008029e4b0b1", "Starmath"), ("d4590460-35fd-101c-b12a-04021c007002", "Starmath"), ("ffb5e640-85de-11d1-89d0-008029e4b0b1", "Starmath"), ("8b04e9b0-420e-11d0-a45e-00a0249d57b1", "Starwriter"), ("c20cf9d1-85ae-11d1-aab4-006097da561a", "Starwriter"), ("dc5c7e40-b35c-101b-9961-04021c007002", "Starwriter"), ("1cdd8c7b-81c0-45a0-9fed-04143144cc1e", "ThreeDimensionalStudioMax"), ("519873ff-2dad-0220-1937-0000929679cd", "WordperfectDocument"), ("402efe60-1999-101b-99ae-04021c007002", "WordperfectGraphics")];
/// (all markers needed, markers, dialect)
pub static DIALECTS: &[(bool, &[&[u8]], &str)] = &[(false, &[b"<abiword template=\"false\""], "Abiword"),
 (false, &[b"<abiword template=\"true\""], "AbiwordTemplate"),
 (false, &[b"<amf"], "AdditiveManufacturingFormat"),
 (false, &[b"<ASX", b"<asx"], "AdvancedStreamRedirector"),
 (false, &[b"<feed"], "Atom"),
 (false, &[b"<COLLADA"], "CollaborativeDesignActivity"),
 (false, &[b"<mxfile"], "Drawio"),
 (false, &[b"<X3D"], "Extensible3d"),
 (false, &[b"<xsl"], "ExtensibleStylesheetLanguageTransformations"),
 (false, &[b"<FictionBook"], "Fictionbook"),
 (false, &[b"<gml"], "GeographyMarkupLanguage"),
 (false, &[b"<gpx"], "GpsExchangeFormat"),
 (false, &[b"<kml"], "KeyholeMarkupLanguage"),
 (false, &[b"<math"], "MathematicalMarkupLanguage"),
 (false, &[b"<MPD"], "MpegDashMpd"),
 (false, &[b"<score-partwise"], "Musicxml"),
 (false, &[b"<rss"], "ReallySimpleSyndication"),
 (false, &[b"<SVG", b"<svg"], "ScalableVectorGraphics"),
 (false, &[b"<soap"], "SimpleObjectAccessProtocol"),
 (false, &[b"<map"], "TiledMapXml"),
 (false, &[b"<tileset"], "TiledTilesetXml"),
 (true, &[b"<tt", b"xmlns=\"http://www.w3.org/ns/ttml\""], "TimedTextMarkupLanguage"),
 (false, &[b"<TrainingCenterDatabase"], "TrainingCenterXml"),
 (true, &[b"<uof:UOF", b"uof:mimetype=\"vnd.uof.presentation\""], "UniformOfficeFormatPresentation"),
 (true, &[b"<uof:UOF", b"uof:mimetype=\"vnd.uof.spreadsheet\""], "UniformOfficeFormatSpreadsheet"),
 (true, &[b"<uof:UOF", b"uof:mimetype=\"vnd.uof.text\""], "UniformOfficeFormatText"),
 (false, &[b"<USFSubtitles"], "UniversalSubtitleFormat"),
 (false, &[b"<xliff"], "XmlLocalizationInterchangeFileFormat"),
 (false, &[b"<playlist"], "XmlShareablePlaylistFormat")];
pub static NAMES: &[(&str, &str)] = &[("AndroidManifest.xml", "AndroidPackage"), ("AppManifest.xaml", "Xap"), ("AppxManifest.xml", "WindowsAppPackage"), ("AppxMetadata/AppxBundleManifest.xml", "WindowsAppBundle"), ("BundleConfig.pb", "AndroidAppBundle"), ("DOMDocument.xml", "FlashCs5Project"), ("META-INF/AIR/application.xml", "AdobeIntegratedRuntime"), ("META-INF/application.xml", "EnterpriseApplicationArchive"), ("META-INF/mozilla.rsa", "Xpinstall"), ("WEB-INF/web.xml", "WebApplicationArchive"), ("canvas.fig", "FigmaDesign"), ("doc.kml", "KeyholeMarkupLanguageZip"), ("document.json", "Sketch43"), ("extension.vsixmanifest", "MicrosoftVisualStudioExtension")];
pub static TYPES: &[(&str, &str)] = &[("application/epub+zip", "ElectronicPublication"), ("application/vnd.adobe.indesign-idml-package", "IndesignMarkupLanguage"), ("application/vnd.oasis.opendocument.base", "OpendocumentDatabase"), ("application/vnd.oasis.opendocument.database", "OpendocumentDatabase"), ("application/vnd.oasis.opendocument.formula", "OpendocumentFormula"), ("application/vnd.oasis.opendocument.formula-template", "OpendocumentFormulaTemplate"), ("application/vnd.oasis.opendocument.graphics", "OpendocumentGraphics"), ("application/vnd.oasis.opendocument.graphics-template", "OpendocumentGraphicsTemplate"), ("application/vnd.oasis.opendocument.presentation", "OpendocumentPresentation"), ("application/vnd.oasis.opendocument.presentation-template", "OpendocumentPresentationTemplate"), ("application/vnd.oasis.opendocument.spreadsheet", "OpendocumentSpreadsheet"), ("application/vnd.oasis.opendocument.spreadsheet-template", "OpendocumentSpreadsheetTemplate"), ("application/vnd.oasis.opendocument.text", "OpendocumentText"), ("application/vnd.oasis.opendocument.text-master", "OpendocumentTextMaster"), ("application/vnd.oasis.opendocument.text-master-template", "OpendocumentTextMasterTemplate"), ("application/vnd.oasis.opendocument.text-template", "OpendocumentTextTemplate"), ("application/vnd.recordare.musicxml", "MusicxmlZip"), ("application/vnd.sun.xml.calc", "SunXmlCalc"), ("application/vnd.sun.xml.calc.template", "SunXmlCalcTemplate"), ("application/vnd.sun.xml.draw", "SunXmlDraw"), ("application/vnd.sun.xml.draw.template", "SunXmlDrawTemplate"), ("application/vnd.sun.xml.impress", "SunXmlImpress"), ("application/vnd.sun.xml.impress.template", "SunXmlImpressTemplate"), ("application/vnd.sun.xml.math", "SunXmlMath"), ("application/vnd.sun.xml.writer", "SunXmlWriter"), ("application/vnd.sun.xml.writer.global", "SunXmlWriterGlobal"), ("application/vnd.sun.xml.writer.template", "SunXmlWriterTemplate"), ("image/openraster", "Openraster")];
/// (starts with, ends with one of, contains, does not contain, format)
pub type Rule = (&'static [&'static str], &'static [&'static str], &'static [&'static str], &'static [&'static str], &'static str);
pub static RULES: &[Rule] = &[(&["Fusion[Active]/"], &[], &[], &[], "Autodesk123d"),
 (&["circuitdiagram/"], &[], &[], &[], "CircuitDiagramDocument"),
 (&["dwf/"], &[], &[], &[], "DesignWebFormatXps"),
 (&[], &[".fb2"], &[], &["/"], "FictionbookZip"),
 (&["FusionAssetName[Active]/"], &[], &[], &[], "Fusion360"),
 (&["Payload/"], &[], &[".app/"], &[], "IosAppStorePackage"),
 (&["word/"], &[], &[], &[], "OfficeOpenXmlDocument"),
 (&["visio/"], &[], &[], &[], "OfficeOpenXmlDrawing"),
 (&["ppt/"], &[], &[], &[], "OfficeOpenXmlPresentation"),
 (&["xl/"], &[], &[], &[], "OfficeOpenXmlSpreadsheet"),
 (&["Documents/"], &[".fpage"], &[], &[], "Openxps"),
 (&["SpaceClaim/"], &[], &[], &[], "SpaceclaimDocument"),
 (&["3D/"], &[".model"], &[], &[], "ThreeDimensionalManufacturingFormat"),
 (&[], &[".usd", ".usda", ".usdc"], &[], &["/"], "UniversalSceneDescriptionZip")];
/// Documented verdicts of a specialised reader.
pub static FAMILIES: &[(&str, &[&str])] = &[
("AdvancedSystemsFormat", &["AdvancedSystemsFormat", "WindowsMediaVideo", "WindowsMediaAudio", "MicrosoftDigitalVideoRecording"]),
("CompoundFileBinary", &["AutodeskInventorAssembly", "AutodeskInventorDrawing", "AutodeskInventorPart", "AutodeskInventorPresentation", "CompoundFileBinary", "CorelPresentations7", "FlashProject", "MicrosoftExcelSpreadsheet", "MicrosoftPowerpointPresentation", "MicrosoftProjectPlan", "MicrosoftPublisherDocument", "MicrosoftSoftwareInstaller", "MicrosoftVisioDrawing", "MicrosoftWordDocument", "MicrosoftWorks6Spreadsheet", "MicrosoftWorksDatabase", "MicrosoftWorksWordProcessor", "SolidworksAssembly", "SolidworksDrawing", "SolidworksPart", "Starcalc", "Starchart", "Stardraw", "Starimpress", "Starmath", "Starwriter", "ThreeDimensionalStudioMax", "WordperfectDocument", "WordperfectGraphics"]),
("ExtensibleBinaryMetaLanguage", &["ExtensibleBinaryMetaLanguage", "Webm", "Matroska3dVideo", "MatroskaVideo", "MatroskaAudio", "MatroskaSubtitles"]),
("MsDosExecutable", &["MsDosExecutable", "DynamicLinkLibrary", "PortableExecutable", "LinearExecutable", "NewExecutable"]),
("Id3v2", &["Id3v2", "FreeLosslessAudioCodec", "Mpeg12AudioLayer3"]),
("Mpeg4Part14", &["Mpeg4Part14", "Mpeg4Part14Video", "Mpeg4Part14Audio", "Mpeg4Part14Subtitles"]),
("PortableDocumentFormat", &["AdobeIllustratorArtwork", "PortableDocumentFormat"]),
("Realmedia", &["Realmedia", "Realaudio", "Realvideo"]),
("Sqlite3", &["Sketch", "Sqlite3"]),
("ExtensibleMarkupLanguage", &["Abiword", "AbiwordTemplate", "AdditiveManufacturingFormat", "AdvancedStreamRedirector", "Atom", "CollaborativeDesignActivity", "Drawio", "Extensible3d", "ExtensibleMarkupLanguage", "ExtensibleStylesheetLanguageTransformations", "Fictionbook", "GeographyMarkupLanguage", "GpsExchangeFormat", "KeyholeMarkupLanguage", "MathematicalMarkupLanguage", "MpegDashMpd", "Musicxml", "ReallySimpleSyndication", "ScalableVectorGraphics", "SimpleObjectAccessProtocol", "TiledMapXml", "TiledTilesetXml", "TimedTextMarkupLanguage", "TrainingCenterXml", "UniformOfficeFormatPresentation", "UniformOfficeFormatSpreadsheet", "UniformOfficeFormatText", "UniversalSubtitleFormat", "XmlLocalizationInterchangeFileFormat", "XmlShareablePlaylistFormat"]),
("Zip", &["AdobeIntegratedRuntime", "AndroidAppBundle", "AndroidPackage", "Autodesk123d", "CircuitDiagramDocument", "DesignWebFormatXps", "ElectronicPublication", "EnterpriseApplicationArchive", "FictionbookZip", "FigmaDesign", "FlashCs5Project", "Fusion360", "IndesignMarkupLanguage", "IosAppStorePackage", "JavaArchive", "KeyholeMarkupLanguageZip", "MicrosoftVisualStudioExtension", "MusicxmlZip", "OfficeOpenXmlDocument", "OfficeOpenXmlDrawing", "OfficeOpenXmlPresentation", "OfficeOpenXmlSpreadsheet", "OpendocumentDatabase", "OpendocumentFormula", "OpendocumentFormulaTemplate", "OpendocumentGraphics", "OpendocumentGraphicsTemplate", "OpendocumentPresentation", "OpendocumentPresentationTemplate", "OpendocumentSpreadsheet", "OpendocumentSpreadsheetTemplate", "OpendocumentText", "OpendocumentTextMaster", "OpendocumentTextMasterTemplate", "OpendocumentTextTemplate", "Openraster", "Openxps", "Sketch43", "SpaceclaimDocument", "SunXmlCalc", "SunXmlCalcTemplate", "SunXmlDraw", "SunXmlDrawTemplate", "SunXmlImpress", "SunXmlImpressTemplate", "SunXmlMath", "SunXmlWriter", "SunXmlWriterGlobal", "SunXmlWriterTemplate", "ThreeDimensionalManufacturingFormat", "UniversalSceneDescriptionZip", "WebApplicationArchive", "WindowsAppBundle", "WindowsAppPackage", "Xap", "Xpinstall", "Zip"]),
];
