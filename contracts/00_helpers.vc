%% Reading helpers (trait ReadData) and pattern search (trait FindBytes).
%spec core
/// How a window of n bytes wanted at p is limited by the end of the content.
pub open spec fn avail(d: Seq<u8>, p: int, n: int) -> int {
    if d.len() - p <= 0 { 0 } else if d.len() - p < n { d.len() - p } else { n }
}
pub open spec fn as_i64_spec(x: int) -> int { wrap_s(x, 0x1_0000_0000_0000_0000) }
pub open spec fn sat_i64(x: int) -> int { sat(x, -0x8000_0000_0000_0000, 0x7fff_ffff_ffff_ffff) }
pub open spec fn sat_u64(x: int) -> int { sat(x, 0, 0xffff_ffff_ffff_ffff) }
pub broadcast proof fn lemma_starts_sub(d: Seq<u8>, p: int, n: int, q: Seq<u8>)
    requires 0 <= q.len() <= n,
    ensures #[trigger] seq_starts(bytes_at(d, p, n), q) == (bytes_at(d, p, q.len() as int) == q),
{
    reveal(seq_starts);
    assert(bytes_at(d, p, n).subrange(0, q.len() as int) =~= bytes_at(d, p, q.len() as int));
}

%fn read_bytes
req[*] old($0).wf(), $1 <= alloc_limit()
req[det] !old($0).lost()
ens[*] final($0).same(old($0))
ens[det] r is Ok ==> !final($0).lost()
ens[cost] final($0).cost() <= old($0).cost() + 1 + $1
ens[*] r is Ok ==> can_read(old($0).data(), old($0).pos(), $1 as int) && final($0).pos() == old($0).pos() + $1 && r->Ok_0@ == bytes_at(old($0).data(), old($0).pos(), $1 as int)
ens[func] r is Err && old($0).reliable() ==> !can_read(old($0).data(), old($0).pos(), $1 as int)
%end

%spec guid core
/// The textual form of a GUID stored in 16 bytes.
#[verifier::opaque]
pub open spec fn guid_str(b: Seq<u8>) -> Seq<char> {
    Seq::<char>::empty() + hex2(b[3]) + hex2(b[2]) + hex2(b[1]) + hex2(b[0]) + ("-" + hex2(b[5])) + hex2(b[4]) + ("-" + hex2(b[7])) + hex2(b[6])
        + ("-" + hex2(b[8])) + hex2(b[9]) + ("-" + hex2(b[10])) + hex2(b[11]) + hex2(b[12]) + hex2(b[13]) + hex2(b[14]) + hex2(b[15])
}
%fn read_guid guid
req[*] old($0).wf(), 16 <= alloc_limit()
req[det] !old($0).lost()
ens[*] final($0).same(old($0))
ens[det] r is Ok ==> !final($0).lost()
ens[cost] final($0).cost() <= old($0).cost() + 17
ens[*] r is Ok ==> can_read(old($0).data(), old($0).pos(), 16) && final($0).pos() == old($0).pos() + 16
ens[func] r is Ok ==> r->Ok_0@ == guid_str(bytes_at(old($0).data(), old($0).pos(), 16))
ens[func] r is Err && old($0).reliable() ==> !can_read(old($0).data(), old($0).pos(), 16)
proof[func] reveal(guid_str);
%end

%fn read_string
req[*] old($0).wf(), $1 <= alloc_limit()
req[det] !old($0).lost()
ens[*] final($0).same(old($0))
ens[det] r is Ok ==> !final($0).lost()
ens[cost] final($0).cost() <= old($0).cost() + 1 + $1
ens[*] r is Ok ==> can_read(old($0).data(), old($0).pos(), $1 as int) && final($0).pos() == old($0).pos() + $1 && r->Ok_0@ == lossy(bytes_at(old($0).data(), old($0).pos(), $1 as int))
ens[func] r is Err && old($0).reliable() ==> !can_read(old($0).data(), old($0).pos(), $1 as int)
%end

%fn read_u8
req[*] old($0).wf()
req[det] !old($0).lost()
ens[*] final($0).same(old($0))
ens[det] r is Ok ==> !final($0).lost()
ens[cost] final($0).cost() <= old($0).cost() + 2
ens[*] r is Ok ==> can_read(old($0).data(), old($0).pos(), 1) && final($0).pos() == old($0).pos() + 1 && r->Ok_0 == old($0).data()[old($0).pos()]
ens[func] r is Err && old($0).reliable() ==> !can_read(old($0).data(), old($0).pos(), 1)
%end

%fn read_u16_le
req[*] old($0).wf()
req[det] !old($0).lost()
ens[*] final($0).same(old($0))
ens[det] r is Ok ==> !final($0).lost()
ens[cost] final($0).cost() <= old($0).cost() + 3
ens[*] r is Ok ==> can_read(old($0).data(), old($0).pos(), 2) && final($0).pos() == old($0).pos() + 2 && r->Ok_0 == le16(old($0).data(), old($0).pos())
ens[func] r is Err && old($0).reliable() ==> !can_read(old($0).data(), old($0).pos(), 2)
%end

%fn read_u32_le
req[*] old($0).wf()
req[det] !old($0).lost()
ens[*] final($0).same(old($0))
ens[det] r is Ok ==> !final($0).lost()
ens[cost] final($0).cost() <= old($0).cost() + 5
ens[*] r is Ok ==> can_read(old($0).data(), old($0).pos(), 4) && final($0).pos() == old($0).pos() + 4 && r->Ok_0 == le32(old($0).data(), old($0).pos())
ens[func] r is Err && old($0).reliable() ==> !can_read(old($0).data(), old($0).pos(), 4)
%end

%fn read_u32_be
req[*] old($0).wf()
req[det] !old($0).lost()
ens[*] final($0).same(old($0))
ens[det] r is Ok ==> !final($0).lost()
ens[cost] final($0).cost() <= old($0).cost() + 5
ens[*] r is Ok ==> can_read(old($0).data(), old($0).pos(), 4) && final($0).pos() == old($0).pos() + 4 && r->Ok_0 == be32(old($0).data(), old($0).pos())
ens[func] r is Err && old($0).reliable() ==> !can_read(old($0).data(), old($0).pos(), 4)
%end

%fn read_u64_le
req[*] old($0).wf()
req[det] !old($0).lost()
ens[*] final($0).same(old($0))
ens[det] r is Ok ==> !final($0).lost()
ens[cost] final($0).cost() <= old($0).cost() + 9
ens[*] r is Ok ==> can_read(old($0).data(), old($0).pos(), 8) && final($0).pos() == old($0).pos() + 8 && r->Ok_0 == le64(old($0).data(), old($0).pos())
ens[func] r is Err && old($0).reliable() ==> !can_read(old($0).data(), old($0).pos(), 8)
%end

%fn read_u64_be
req[*] old($0).wf()
req[det] !old($0).lost()
ens[*] final($0).same(old($0))
ens[det] r is Ok ==> !final($0).lost()
ens[cost] final($0).cost() <= old($0).cost() + 9
ens[*] r is Ok ==> can_read(old($0).data(), old($0).pos(), 8) && final($0).pos() == old($0).pos() + 8 && r->Ok_0 == be64(old($0).data(), old($0).pos())
ens[func] r is Err && old($0).reliable() ==> !can_read(old($0).data(), old($0).pos(), 8)
%end

%fn read_up_to core
req[*] old($0).wf()
req[det] !old($0).lost()
ens[*] final($0).same(old($0))
ens[det] r is Ok ==> !final($0).lost()
ens[*] final($1)@.len() == old($1)@.len()
ens[*] r is Ok ==> r->Ok_0 == avail(old($0).data(), old($0).pos(), old($1)@.len() as int) && final($0).pos() == old($0).pos() + r->Ok_0
ens[*] r is Ok ==> forall|i: int| 0 <= i < r->Ok_0 ==> final($1)@[i] == old($0).data()[old($0).pos() + i]
ens[*] r is Ok ==> final($1)@.subrange(0, r->Ok_0 as int) == bytes_at(old($0).data(), old($0).pos(), r->Ok_0 as int)
ens[*] r is Err ==> !old($0).reliable()
ens[cost] final($0).cost() <= old($0).cost() + 2 + 2 * old($1)@.len()
ens[cost] r is Ok ==> final($0).cost() <= old($0).cost() + 2 + 2 * r->Ok_0
ens[head] r is Ok && old($0).head_left() > 0 && old($1)@.len() >= old($0).head_left() ==> final($0).past_head(old($0))
ens[head] r is Err && old($1)@.len() == old($0).head_left() && old($0).head_left() > 0 ==> final($0).head_left() == 0 && final($0).head_err() == Some(r->Err_0.eid())
loop
ib[*] 0 <= ${nread} <= old($1)@.len(), $1@.len() == old($1)@.len()
ib[*] $0.pos() == old($0).pos() + ${nread}, ${nread} <= avail(old($0).data(), old($0).pos(), old($1)@.len() as int)
ib[*] forall|i: int| 0 <= i < ${nread} ==> $1@[i] == old($0).data()[old($0).pos() + i]
inv[cost] $0.cost() <= old($0).cost() + 2 * ${nread}
exit[cost] $0.cost() <= old($0).cost() + 2 * ${nread} + 1
inv[head] $0.head_err() == old($0).head_err(), old($0).head_left() > 0 ==> $0.head_left() == (if old($0).head_left() <= ${nread} { 0 } else { old($0).head_left() - ${nread} })
exit[head] $0.head_err() == old($0).head_err(), old($0).head_left() > 0 && old($1)@.len() >= old($0).head_left() ==> $0.head_left() == 0
exit[*] ${nread} == avail(old($0).data(), old($0).pos(), old($1)@.len() as int)
exit[*] $1@.subrange(0, ${nread} as int) =~= bytes_at(old($0).data(), old($0).pos(), ${nread} as int)
dec[*] old($1)@.len() - ${nread}, $0.budget()
%end

%fn find core
ens[*] r is Some ==> is_first($0@, $1@, r->Some_0 as int)
ens[*] r is None ==> !occurs($0@, $1@)
proof[*] broadcast use lemma_occurs_at; reveal(is_first); reveal(is_last);
loop
ib[*] forall|b: int| 0 <= b < 256 ==> 1 <= #[trigger] ${shift_table}@[b] <= $1@.len()
inv[*] forall|q: int| 0 <= q < ${i} ==> ${shift_table}@[#[trigger] $1@[q] as int] <= $1@.len() - 1 - q
exit[*] forall|q: int| 0 <= q < $1@.len() - 1 ==> ${shift_table}@[#[trigger] $1@[q] as int] <= $1@.len() - 1 - q
loop
ib[*] ${data_index} >= $1@.len() - 1
inv[*] forall|j: int| j + $1@.len() - 1 < ${data_index} ==> !#[trigger] occurs_at($0@, $1@, j)
exit[*] forall|j: int| !#[trigger] occurs_at($0@, $1@, j)
dec[*] if $0@.len() > ${data_index} { $0@.len() - ${data_index} } else { 0 }
body[*] if ${data_index} < $0@.len() { assert forall|j: int| j + $1@.len() - 1 > ${data_index} && j + $1@.len() - 1 < ${data_index} + ${shift_table}@[$0@[${data_index} as int] as int] implies !#[trigger] occurs_at($0@, $1@, j) by { if occurs_at($0@, $1@, j) { let q = ${data_index} - j; assert($1@[q] == $0@[j + q]); } } }
loop
ib[*] 0 <= ${pat_index} <= $1@.len() - 1
inv[*] forall|q: int| ${pat_index} < q < $1@.len() ==> #[trigger] $1@[q] == $0@[${data_index} - ($1@.len() - 1) + q]
exit[*] !occurs_at($0@, $1@, ${data_index} - ($1@.len() - 1))
dec[*] ${pat_index}
%end

%fn rfind core
ens[*] r is Some ==> is_last($0@, $1@, r->Some_0 as int)
ens[*] r is None ==> !occurs($0@, $1@)
proof[*] broadcast use lemma_occurs_at; reveal(is_first); reveal(is_last);
loop
ib[*] forall|b: int| 0 <= b < 256 ==> 1 <= #[trigger] ${shift_table}@[b] <= $1@.len()
inv[*] forall|q: int| $1@.len() - 1 - ${i} < q < $1@.len() ==> ${shift_table}@[#[trigger] $1@[q] as int] <= q
exit[*] forall|q: int| 1 <= q < $1@.len() ==> ${shift_table}@[#[trigger] $1@[q] as int] <= q
loop
ib[*] 0 <= ${data_index}, ${data_index} + $1@.len() <= $0@.len()
inv[*] forall|j: int| j > ${data_index} ==> !#[trigger] occurs_at($0@, $1@, j)
exit[*] forall|j: int| !#[trigger] occurs_at($0@, $1@, j)
dec[*] ${data_index}
body[*] assert forall|j: int| j < ${data_index} && j > ${data_index} - ${shift_table}@[$0@[${data_index} as int] as int] implies !#[trigger] occurs_at($0@, $1@, j) by { if occurs_at($0@, $1@, j) { let q = ${data_index} - j; assert($1@[q] == $0@[j + q]); } }
loop
ib[*] 0 <= ${pat_index} <= $1@.len() - 1
inv[*] forall|q: int| 0 <= q < ${pat_index} ==> #[trigger] $1@[q] == $0@[${data_index} + q]
exit[*] !occurs_at($0@, $1@, ${data_index} as int)
dec[*] $1@.len() - ${pat_index}
%end

%fn holds core
ens[*] r == occurs($0@, $1@)
%end
